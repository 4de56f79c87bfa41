package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// A Contract is the specification of one function, a trusted external
// function, a lemma or a client.
type Contract struct {
	name    string // short name of the target
	kind    string // contract, extern, lemma, client, axiom
	target  *types.Func
	decl    *ast.FuncDecl // contract function
	obj     *types.Func
	props   []string
	opts    map[string]string
	pkg     *Pkg
	invalid string
	pos     token.Position

	sig       *types.Signature
	body      []ast.Stmt
	litParams []*types.Var // callback contracts
	requires  []*Clause
	ensures   []*Clause
	modifies  []ast.Expr
	cands     []*Clause
	closures  map[string]*ast.FuncLit
	callbacks map[string]*ast.FuncLit
	pure      map[string]bool
	uses      []*ast.CallExpr
	mayPanic  []*Clause
	onPanic   []*Clause
	induct    ast.Expr   // one parameter
	inducts   []ast.Expr // or a tuple that gets smaller
	lets      []ast.Stmt
	noInline  bool
	trigs     []*ast.CallExpr
	lemmaPos  int
}

type Clause struct {
	label string
	e     ast.Expr
	lit   *ast.FuncLit
	vars  []*types.Var
}

func (c *Contract) hasProp(p string) bool {
	for _, x := range c.props {
		if x == p {
			return true
		}
	}
	return false
}

func (prog *Program) indexContracts(p *Pkg, f *ast.File, prelude bool) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		fn, _ := prog.info.Defs[fd.Name].(*types.Func)
		if fn == nil {
			continue
		}
		prog.pkgOf[fn] = p
		dir := ""
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//govc:") {
					dir = strings.TrimPrefix(c.Text, "//govc:")
				}
			}
		}
		if dir == "" {
			prog.specFn[fn] = fd
			continue
		}
		fs := strings.Fields(dir)
		c := &Contract{kind: fs[0], decl: fd, obj: fn, pkg: p, opts: map[string]string{}, pos: prog.fset.Position(fd.Pos())}
		rest := fs[1:]
		if len(rest) > 0 && !strings.Contains(rest[0], "=") {
			c.name = rest[0]
			rest = rest[1:]
		} else {
			c.name = fd.Name.Name
		}
		for _, o := range rest {
			kv := strings.SplitN(o, "=", 2)
			v := ""
			if len(kv) == 2 {
				v = kv[1]
			}
			if kv[0] == "props" {
				c.props = strings.Split(v, ",")
			} else {
				c.opts[kv[0]] = v
			}
		}
		// type errors inside the contract make it unusable
		for _, e := range p.errs {
			if e.Pos >= fd.Pos() && e.Pos <= fd.End() {
				c.invalid = e.Msg
			}
		}
		c.sig = fn.Type().(*types.Signature)
		if fd.Body != nil {
			c.body = fd.Body.List
		}
		prog.parseClauses(c, c.body)
		switch c.kind {
		case "contract":
			short := strings.TrimPrefix(strings.TrimPrefix(p.path, modPath), "/") + "." + c.name
			c.target = prog.findFunc(p, c.name)
			c.name = short
			if c.target == nil {
				c.invalid = "function not found"
			} else if c.invalid == "" {
				if msg := prog.sigMismatch(c); msg != "" {
					c.invalid = msg
				}
			}
			if c.target != nil {
				prog.contract[c.target] = c
			}
			prog.ordered = append(prog.ordered, c)
		case "extern":
			if c.invalid != "" {
				prog.problems = append(prog.problems, "extern "+c.name+": "+c.invalid)
			}
			if prog.externs[c.name] == nil {
				prog.externs[c.name] = c
			}
			prog.externs[c.pkg.path+"|"+c.name] = c
		case "model":
			// Go code that stands for an external function, assumed to do what
			// it does
			if c.invalid != "" {
				prog.problems = append(prog.problems, "model "+c.name+": "+c.invalid)
			}
			prog.models[c.pkg.path+"|"+c.name] = c
		case "lemma", "client", "axiom":
			c.name = strings.TrimPrefix(strings.TrimPrefix(p.path, modPath), "/") + "." + c.name
			prog.ordered = append(prog.ordered, c)
			if c.kind == "lemma" || c.kind == "axiom" {
				prog.specLemma(c)
			}
		case "opaque":
			prog.specFn[fn] = fd
			opaqueFns[fn] = true
		case "named": // kept as a call, with its definition as an axiom
			prog.specFn[fn] = fd
			namedFns[fn] = true
		default:
			prog.problems = append(prog.problems, "unknown directive "+dir)
		}
	}
}

var namedFns = map[*types.Func]bool{}
var opaqueFns = map[*types.Func]bool{}
var lemmaOf = map[*types.Func]*Contract{}

func (prog *Program) specLemma(c *Contract) { lemmaOf[c.obj] = c }

// findFunc resolves "Func" or "Type.Method" among the package's own sources.
func (prog *Program) findFunc(p *Pkg, name string) *types.Func {
	parts := strings.Split(name, ".")
	for fn, fd := range prog.funcs {
		if prog.pkgOf[fn] != p {
			continue
		}
		if len(parts) == 1 {
			if fd.Recv == nil && fn.Name() == parts[0] {
				return fn
			}
			continue
		}
		if fn.Name() != parts[1] || fd.Recv == nil {
			continue
		}
		t := types.Unalias(fn.Type().(*types.Signature).Recv().Type())
		if q, ok := t.(*types.Pointer); ok {
			t = types.Unalias(q.Elem())
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == parts[0] {
			return fn
		}
	}
	return nil
}

func allParams(sig *types.Signature) []*types.Var {
	var out []*types.Var
	if sig.Recv() != nil {
		out = append(out, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i))
	}
	return out
}

func (prog *Program) sigMismatch(c *Contract) string {
	a := allParams(c.target.Type().(*types.Signature))
	b := allParams(c.sig)
	if len(a) != len(b) {
		return fmt.Sprintf("parameter count differs from the code (%d, contract has %d)", len(a), len(b))
	}
	for i := range a {
		if !types.Identical(a[i].Type(), b[i].Type()) {
			return fmt.Sprintf("parameter %d has type %s in the code, %s in the contract", i, a[i].Type(), b[i].Type())
		}
	}
	ra, rb := c.target.Type().(*types.Signature).Results(), c.sig.Results()
	if ra.Len() != rb.Len() {
		return "result count differs from the code"
	}
	for i := 0; i < ra.Len(); i++ {
		if !types.Identical(ra.At(i).Type(), rb.At(i).Type()) {
			return "result type differs from the code"
		}
	}
	return ""
}

func (prog *Program) parseClauses(c *Contract, body []ast.Stmt) {
	c.closures = map[string]*ast.FuncLit{}
	c.callbacks = map[string]*ast.FuncLit{}
	c.pure = map[string]bool{}
	if c.kind == "client" {
		return
	}
	for _, s := range body {
		switch s := s.(type) {
		case *ast.ExprStmt:
			call, ok := s.X.(*ast.CallExpr)
			if !ok {
				continue
			}
			id, ok := ast.Unparen(call.Fun).(*ast.Ident)
			if !ok {
				continue
			}
			cl := func(args []ast.Expr, def string) *Clause {
				if len(args) == 2 {
					l, _ := litString(args[0])
					return &Clause{label: l, e: args[1]}
				}
				return &Clause{label: def, e: args[0]}
			}
			switch id.Name {
			case "requires":
				c.requires = append(c.requires, cl(call.Args, fmt.Sprintf("pre%d", len(c.requires))))
			case "ensures":
				c.ensures = append(c.ensures, cl(call.Args, fmt.Sprintf("post%d", len(c.ensures))))
			case "modifies":
				c.modifies = append(c.modifies, call.Args...)
			case "candidate":
				lit := call.Args[0].(*ast.FuncLit)
				k := &Clause{label: fmt.Sprintf("cand%d", len(c.cands)), lit: lit}
				if sig, ok := prog.info.TypeOf(lit).(*types.Signature); ok {
					for i := 0; i < sig.Params().Len(); i++ {
						k.vars = append(k.vars, sig.Params().At(i))
					}
				}
				c.cands = append(c.cands, k)
			case "closure":
				n, _ := litString(call.Args[0])
				c.closures[n] = call.Args[1].(*ast.FuncLit)
			case "callback":
				c.callbacks[call.Args[0].(*ast.Ident).Name] = call.Args[1].(*ast.FuncLit)
			case "pure":
				c.pure[call.Args[0].(*ast.Ident).Name] = true
			case "use":
				c.uses = append(c.uses, call.Args[0].(*ast.CallExpr))
			case "mayPanic":
				c.mayPanic = append(c.mayPanic, cl(call.Args, "mayPanic"))
			case "onPanic":
				c.onPanic = append(c.onPanic, cl(call.Args, fmt.Sprintf("panic%d", len(c.onPanic))))
			case "trig":
				c.trigs = append(c.trigs, call)
			case "induction":
				if _, ok := call.Args[0].(*ast.Ident); ok && len(call.Args) == 1 {
					c.induct = call.Args[0]
				} else {
					c.inducts = call.Args
				}
			}
		case *ast.AssignStmt, *ast.DeclStmt:
			c.lets = append(c.lets, s)
		}
	}
}

func litString(e ast.Expr) (string, bool) {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		return "", false
	}
	return strings.Trim(b.Value, "\"`"), true
}

// exported: is the target part of the package's API?
func (c *Contract) exported() bool {
	n := c.name
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	for _, p := range strings.Split(n, ".")[1:] {
		if !ast.IsExported(p) {
			return false
		}
	}
	return true
}

func (c *Contract) usesLemma(prog *Program, l *Contract) bool {
	for _, u := range c.uses {
		if id, ok := ast.Unparen(u.Fun).(*ast.Ident); ok && prog.info.Uses[id] == types.Object(l.obj) {
			return true
		}
	}
	return false
}

// extern is the contract of an external function: the one of the package
// whose contract is being verified, if it has one.
func (ex *Exec) model(name string) *Contract {
	if ex.con != nil && ex.con.pkg != nil {
		return ex.prog.models[ex.con.pkg.path+"|"+name]
	}
	return nil
}

func (ex *Exec) extern(name string) *Contract {
	if ex.con != nil && ex.con.pkg != nil {
		if c := ex.prog.externs[ex.con.pkg.path+"|"+name]; c != nil {
			return c
		}
	}
	return ex.prog.externs[name]
}
