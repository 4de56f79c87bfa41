package gen

import (
	"go/ast"
	"go/token"
)

// unquoted is the text that a string literal stands for.
//
//govc:opaque
func unquoted(lit string) string { return lit }

//govc:extern strconv.Quote
func externQuote(s string) (r string) {
	ensures(unquoted(r) == s)
	return
}

//govc:extern strconv.CanBackquote
func externCanBackquote(s string) (r bool) {
	ensures(implies(r, unquoted("`"+s+"`") == s))
	return
}

//govc:contract String props=C19
func con_String(s string) (r *ast.BasicLit) {
	ensures("literal", r != nil && fresh(r) && r.Kind == token.STRING && unquoted(r.Value) == s)
	return
}

func isKeyword(s string) bool {
	return s == "break" || s == "default" || s == "func" || s == "interface" || s == "select" ||
		s == "case" || s == "defer" || s == "go" || s == "map" || s == "struct" ||
		s == "chan" || s == "else" || s == "goto" || s == "package" || s == "switch" ||
		s == "const" || s == "fallthrough" || s == "if" || s == "range" || s == "type" ||
		s == "continue" || s == "for" || s == "import" || s == "return" || s == "var"
}

//govc:contract Sanitize props=C19
func con_Sanitize(name string) (r string) {
	ensures("no keyword", !isKeyword(r))
	ensures("others", implies(!isKeyword(name), r == name))
	ensures("keywords", implies(isKeyword(name), r == name+"_"))
	return
}

func isLit(e ast.Expr) bool {
	_, ok := e.(*ast.BasicLit)
	return ok
}

func isName(e ast.Expr) bool {
	_, ok := e.(*ast.Ident)
	return ok
}

// SpecTriples says that expressions are the names, types and tags of fields.
func SpecTriples(args []ast.Expr) bool {
	return len(args)%3 == 0 && forall(func(k int) bool {
		return trig(args[k]) && implies(k >= 0 && k < len(args), implies(k%3 == 0, isName(args[k])) && implies(k%3 == 2, isLit(args[k])))
	})
}

//govc:contract Struct props=C19,C20
func con_Struct(args []ast.Expr) (r *ast.StructType) {
	requires(SpecTriples(args))
	ensures("new", r != nil && fresh(r) && r.Fields != nil && 3*len(r.Fields.List) == len(args))
	ensures("fields", forall(func(i int) bool {
		return trig(r.Fields.List[i]) && implies(i >= 0 && i < len(r.Fields.List), isField(r.Fields.List[i], args[3*i], args[3*i+1], args[3*i+2]))
	}))
	ensures("allocated", allocated(r.Fields.List) && forall(func(i int) bool {
		return trig(r.Fields.List[i]) && implies(i >= 0 && i < len(r.Fields.List), allocated(r.Fields.List[i]) && allocated(r.Fields.List[i].Names))
	}))
	candidate(func(fields *ast.FieldList) bool { return allocated(fields.List) })
	candidate(func(fields *ast.FieldList) bool {
		return forall(func(i int) bool {
			return trig(fields.List[i]) && implies(i >= 0 && i < len(fields.List), allocated(fields.List[i]) && allocated(fields.List[i].Names) && !sameobj(fields.List[i].Names, fields.List))
		})
	})
	candidate(func(i int, fields *ast.FieldList) bool { return 3*len(fields.List) == i })
	candidate(func(fields *ast.FieldList) bool {
		return forall(func(i int) bool {
			return trig(fields.List[i]) && implies(i >= 0 && i < len(fields.List), isField(fields.List[i], args[3*i], args[3*i+1], args[3*i+2]))
		})
	})
	return
}

func isField(f *ast.Field, name, typ, tag ast.Expr) bool {
	return f != nil && len(f.Names) == 1 && f.Names[0] == name.(*ast.Ident) && f.Type == typ && f.Tag == tag.(*ast.BasicLit)
}
