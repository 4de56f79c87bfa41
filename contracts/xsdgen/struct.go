package xsdgen

import (
	"encoding/xml"
	"go/ast"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/xsd"
)

// the fields of the struct that is generated for a complex type

//govc:contract Config.logf assumed
func con_logf(cfg *Config, format string, v []interface{}) {}

//govc:contract Config.exprString assumed
func con_exprString(cfg *Config, t xsd.Type) (r string) {
	return
}

//govc:contract Config.genComplexTypeMethods assumed
func con_genComplexTypeMethods(cfg *Config, t *xsd.ComplexType, overrides []fieldOverride) (marshal, unmarshal *ast.FuncDecl, err error) {
	return
}

//govc:extern fmt.Sprintf
func externSprintf(format string, a ...interface{}) (r string) {
	return
}

//govc:contract builtinExpr props=C20
func con_builtinExpr(b xsd.Builtin) (r ast.Expr) {
	return
}

//govc:contract nonTrivialBuiltin props=C20
func con_nonTrivialBuiltin(t xsd.Type) (r bool) {
	ensures("builtin", implies(r, dyntype[xsd.Builtin](t)))
	return
}

//govc:contract Config.expr props=C20
func con_expr(cfg *Config, t xsd.Type) (r ast.Expr, err error) {
	requires(xsd.SpecReal(t))
	ensures("found", implies(err == nil, !isnil(r)))
	ensures("named", implies(!dyntype[xsd.Builtin](t), err == nil && isIdent(r) && fresh(r.(*ast.Ident)) && forall(func(n xml.Name) bool {
		return trig(goName(cfg, n)) && implies(xsd.SpecNamed(t, n), named(r) == goName(cfg, n))
	})))
	return
}

func isStruct(e ast.Expr) bool { return dyntype[*ast.StructType](e) && e.(*ast.StructType) != nil }

// fieldName is the name of a field of a struct.
func fieldName(e ast.Expr, i int) string { return e.(*ast.StructType).Fields.List[i].Names[0].Name }

func fieldCount(e ast.Expr) int { return len(e.(*ast.StructType).Fields.List) }

//govc:contract Config.genComplexType props=C20
func con_genComplexType(cfg *Config, t *xsd.ComplexType) (r []spec, err error) {
	requires(t != nil && xsd.SpecSound() && realAttrs(list(t.Attributes)) && realElems(list(t.Elements)))
	requires(implies(dyntype[*xsd.ComplexType](t.Base), realAttrs(list(t.Base.(*xsd.ComplexType).Attributes)) && realElems(list(t.Base.(*xsd.ComplexType).Elements)) && !sameobj(t.Attributes, t.Base.(*xsd.ComplexType).Attributes) && !sameobj(t.Elements, t.Base.(*xsd.ComplexType).Elements)))
	requires(forall(func(n xml.Name) bool {
		return trig(cfg.helperTypes[n]) && implies(mapdom(cfg.helperTypes, n), xsd.SpecReal(cfg.helperTypes[n].xsdType))
	}))
	modifies(t.Attributes, t.Elements, elems(t.Attributes[:cap(t.Attributes)]), elems(t.Elements[:cap(t.Elements)]))
	ensures("one", implies(err == nil, len(r) == 1 && r[0].name == goName(cfg, t.Name) && isStruct(r[0].expr) && dyntype[*xsd.ComplexType](r[0].xsdType) && r[0].xsdType.(*xsd.ComplexType) == t))
	ensures("names", implies(err == nil, forall(func(i, j int) bool {
		return trig(r[0].expr.(*ast.StructType).Fields.List[i], r[0].expr.(*ast.StructType).Fields.List[j]) &&
			implies(i >= 0 && i < j && j < fieldCount(r[0].expr), fieldName(r[0].expr, i) != fieldName(r[0].expr, j))
	})))
	candidate(func(base xsd.Type) bool { return xsd.SpecReal(base) })
	candidate(func() bool { return realAttrs(list(t.Attributes)) })
	candidate(func() bool { return realElems(list(t.Elements)) })
	candidate(func(fields []ast.Expr) bool { return len(fields)%3 == 0 })
	candidate(func(fields []ast.Expr) bool {
		return forall(func(k int) bool {
			return trig(fields[k]) && implies(k >= 0 && k < len(fields) && k%3 == 0, isIdent(fields[k]) && allocated(fields[k].(*ast.Ident)))
		})
	})
	candidate(func(fields []ast.Expr) bool {
		return forall(func(k int) bool {
			return trig(fields[k]) && implies(k >= 0 && k < len(fields) && k%3 == 2, dyntype[*ast.BasicLit](fields[k]))
		})
	})
	candidate(func(fields []ast.Expr, namegen nameGenerator) bool {
		return forall(func(k int) bool {
			return trig(fields[k]) && implies(k >= 0 && k < len(fields) && k%3 == 0, mapdom(namegen.taken, named(fields[k])))
		})
	})
	candidate(func(fields []ast.Expr) bool {
		return forall(func(k, m int) bool {
			return trig(fields[k], fields[m]) && implies(k >= 0 && k < m && m < len(fields) && k%3 == 0 && m%3 == 0, named(fields[k]) != named(fields[m]))
		})
	})
	return
}
