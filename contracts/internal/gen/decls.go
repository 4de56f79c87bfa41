package gen

import (
	"go/ast"
	"go/token"
	"strings"
)

//govc:extern go/ast.NewIdent
func externNewIdent(name string) (r *ast.Ident) {
	ensures(r != nil && fresh(r) && r.Name == name)
	return
}

// constant says that a declaration is the one of a constant.
func constant(s ast.Spec, kind token.Token, name, typ, val string) bool {
	return dyntype[*ast.ValueSpec](s) && valueSpec(s.(*ast.ValueSpec), kind, name, typ, val)
}

func valueSpec(s *ast.ValueSpec, kind token.Token, name, typ, val string) bool {
	return s != nil && len(s.Names) == 1 && s.Names[0] != nil && s.Names[0].Name == name &&
		(s.Type == nil) == (typ == "") && implies(typ != "", isName(s.Type) && s.Type.(*ast.Ident) != nil && s.Type.(*ast.Ident).Name == typ) &&
		len(s.Values) == 1 && isLit(s.Values[0]) && literal(s.Values[0].(*ast.BasicLit), kind, val)
}

func literal(l *ast.BasicLit, kind token.Token, val string) bool {
	return l != nil && l.Kind == kind && ite(kind == token.STRING, unquoted(l.Value), l.Value) == val
}

func allocatedSpec(s *ast.ValueSpec) bool {
	return len(s.Names) == 1 && len(s.Values) == 1 && allocated(s.Names) && allocated(s.Values) && allocated(s.Names[0]) && allocated(s.Values[0].(*ast.BasicLit)) &&
		implies(s.Type != nil, allocated(s.Type.(*ast.Ident)))
}

//govc:contract constDecl props=C19
func con_constDecl(kind token.Token, args []string) (r *ast.GenDecl) {
	requires(len(args)%3 == 0)
	ensures("one each", r != nil && fresh(r) && r.Tok == token.CONST && 3*len(r.Specs) == len(args))
	ensures("constants", forall(func(i int) bool {
		return trig(r.Specs[i]) && implies(i >= 0 && i < len(r.Specs), constant(r.Specs[i], kind, args[3*i], args[3*i+1], args[3*i+2]))
	}))
	ensures("group", implies(len(r.Specs) > 1, r.Lparen == 1))
	candidate(func(i int, specs []ast.Spec) bool { return 3*len(specs) == i })
	candidate(func(specs []ast.Spec) bool {
		return forall(func(i int) bool {
			return trig(specs[i]) && implies(i >= 0 && i < len(specs), dyntype[*ast.ValueSpec](specs[i]) && specs[i].(*ast.ValueSpec) != nil && allocated(specs[i].(*ast.ValueSpec)))
		})
	})
	candidate(func(specs []ast.Spec) bool {
		return forall(func(i int) bool {
			return trig(specs[i]) && implies(i >= 0 && i < len(specs), allocatedSpec(specs[i].(*ast.ValueSpec)) && !sameobj(specs[i].(*ast.ValueSpec).Values, specs))
		})
	})
	candidate(func(specs []ast.Spec) bool {
		return forall(func(i int) bool {
			return trig(specs[i]) && implies(i >= 0 && i < len(specs), constant(specs[i], kind, args[3*i], args[3*i+1], args[3*i+2]))
		})
	})
	return
}

// splitAt are the parts of s between separators.
//
//govc:opaque
func splitAt(s, sep string) List[string] { return lnil[string]() }

//govc:extern strings.Split
func externSplit(s, sep string) (r []string) {
	ensures(list(r) == splitAt(s, sep))
	return
}

func lsize(l List[string]) int {
	if isNilList(l) {
		return 0
	}
	return lsize(lfront(l)) + 1
}

func lnth(l List[string], i int) string {
	if isNilList(l) {
		return ""
	}
	if i == lsize(l)-1 {
		return llast(l)
	}
	return lnth(lfront(l), i)
}

// lined is l and a comment for each of the lines.
func lined(l List[string], lines List[string]) List[string] {
	if isNilList(lines) {
		return l
	}
	return snoc(lined(l, lfront(lines)), "// "+strings.TrimSpace(llast(lines)))
}

// commented are the lines of comments of the first n texts.
func commented(q Seq[string], n int) List[string] {
	if n <= 0 {
		return lnil[string]()
	}
	if qat(q, n-1) == "" {
		return commented(q, n-1)
	}
	return lined(commented(q, n-1), splitAt(strings.TrimSuffix(qat(q, n-1), "\n"), "\n"))
}

//govc:lemma
func linedSize(l List[string], s []string, n int) {
	induction(n)
	trig(lined(l, qlist(seq(s), n)))
	requires(n >= 0)
	ensures(lsize(lined(l, qlist(seq(s), n))) == lsize(l)+n)
}

//govc:lemma
func linedAt(l List[string], s []string, n, i int) {
	induction(n)
	trig(lnth(lined(l, qlist(seq(s), n)), i))
	requires(n >= 0 && i >= 0 && i < lsize(l)+n)
	ensures(lnth(lined(l, qlist(seq(s), n)), i) == ite(i < lsize(l), lnth(l, i), "// "+strings.TrimSpace(s[i-lsize(l)])))
}

//govc:contract CommentGroup props=C19
func con_CommentGroup(comments []string) (r *ast.CommentGroup) {
	ensures("lines", r != nil && fresh(r) && len(r.List) == lsize(commented(seq(comments), len(comments))))
	ensures("texts", forall(func(i int) bool {
		return trig(r.List[i]) && implies(i >= 0 && i < len(r.List), r.List[i] != nil && r.List[i].Text == lnth(commented(seq(comments), len(comments)), i))
	}))
	candidate(func(l []*ast.Comment) bool {
		return forall(func(i int) bool {
			return trig(l[i]) && implies(i >= 0 && i < len(l), l[i] != nil && allocated(l[i]))
		})
	})
	candidate(func(l []*ast.Comment) bool { return len(l) == lsize(commented(seq(comments), iter())) })
	candidate(func(l []*ast.Comment) bool {
		return forall(func(i int) bool {
			return trig(l[i]) && implies(i >= 0 && i < len(l), l[i].Text == lnth(commented(seq(comments), iter()), i))
		})
	})
	candidate(func(l []*ast.Comment) bool { return len(l) == entry(len(l))+iter() })
	candidate(func(l []*ast.Comment) bool {
		return forall(func(i int) bool {
			return trig(l[i]) && implies(i >= 0 && i < entry(len(l)), l[i].Text == entry(l[i].Text))
		})
	})
	candidate(func(l []*ast.Comment) bool {
		return forall(func(i int) bool {
			return trig(l[i]) && implies(i >= entry(len(l)) && i < len(l), l[i].Text == "// "+strings.TrimSpace(ranged[string]()[i-entry(len(l))]))
		})
	})
	return
}

//govc:contract ConstString props=C19
func con_ConstString(args []string) (r *ast.GenDecl) {
	requires(len(args)%3 == 0)
	ensures("constants", r != nil && 3*len(r.Specs) == len(args) && forall(func(i int) bool {
		return trig(r.Specs[i]) && implies(i >= 0 && i < len(r.Specs), constant(r.Specs[i], token.STRING, args[3*i], args[3*i+1], args[3*i+2]))
	}))
	return
}

//govc:contract PackageDoc props=C19
func con_PackageDoc(file *ast.File, comments []string) (r *ast.File) {
	requires(file != nil)
	modifies(file.Doc)
	ensures("file", r == file)
	ensures("nothing", implies(len(comments) == 0, file.Doc == old(file.Doc)))
	ensures("texts", implies(len(comments) > 0, file.Doc != nil && len(file.Doc.List) == lsize(commented(seq(comments), len(comments))) && forall(func(i int) bool {
		return trig(file.Doc.List[i]) && implies(i >= 0 && i < len(file.Doc.List), file.Doc.List[i] != nil && file.Doc.List[i].Text == lnth(commented(seq(comments), len(comments)), i))
	})))
	return
}
