package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "aqwari.net/xml"

type Pkg struct {
	path   string
	name   string
	dir    string
	types  *types.Package
	files  []*ast.File
	cfiles []*ast.File // contract files
	errs   []types.Error
}

type Program struct {
	fset     *token.FileSet
	info     *types.Info
	pkgs     map[string]*Pkg
	funcs    map[*types.Func]*ast.FuncDecl
	pkgOf    map[*types.Func]*Pkg
	contract map[*types.Func]*Contract // by target
	specFn   map[*types.Func]*ast.FuncDecl
	externs  map[string]*Contract // by full name pkg.Func or pkg.Type.Method
	models   map[string]*Contract // by package path | full name
	ordered  []*Contract
	problems []string
	globals  map[types.Object]*ast.ValueSpec
	state    []*types.Var // package variables that change, ghost ones included
	assigned map[types.Object]bool
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path string }
}

func loadProgram(repo, contracts string) (*Program, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Imports,ImportMap,Standard,Module", "./...")
	cmd.Dir = repo
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	exports := map[string]string{}
	var mods []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			pp := p
			mods = append(mods, &pp)
		}
		exports[p.ImportPath] = p.Export
	}
	prog := &Program{
		fset: token.NewFileSet(),
		info: &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Implicits:  map[ast.Node]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances:  map[*ast.Ident]types.Instance{},
		},
		pkgs:     map[string]*Pkg{},
		funcs:    map[*types.Func]*ast.FuncDecl{},
		pkgOf:    map[*types.Func]*Pkg{},
		contract: map[*types.Func]*Contract{},
		specFn:   map[*types.Func]*ast.FuncDecl{},
		externs:  map[string]*Contract{},
		models:   map[string]*Contract{},
		globals:  map[types.Object]*ast.ValueSpec{},
		assigned: map[types.Object]bool{},
	}
	gc := importer.ForCompiler(prog.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &repoImporter{gc, prog}
	for _, lp := range mods { // dependency order
		p := &Pkg{path: lp.ImportPath, name: lp.Name, dir: lp.Dir}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(prog.fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.files = append(p.files, af)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, modPath), "/")
		cdir := filepath.Join(contracts, rel)
		var cfs []string
		if ents, err := os.ReadDir(cdir); err == nil {
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") {
					cfs = append(cfs, filepath.Join(cdir, e.Name()))
				}
			}
		}
		sort.Strings(cfs)
		all := append([]*ast.File{}, p.files...)
		if len(cfs) > 0 {
			pre, err := os.ReadFile(filepath.Join(contracts, "prelude.go.txt"))
			if err != nil {
				return nil, err
			}
			src := "package " + lp.Name + "\n" + string(pre)
			af, err := parser.ParseFile(prog.fset, "prelude_"+lp.Name+".go", src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.cfiles = append(p.cfiles, af)
			for _, f := range cfs {
				af, err := parser.ParseFile(prog.fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
				if err != nil {
					return nil, err
				}
				p.cfiles = append(p.cfiles, af)
			}
			all = append(all, p.cfiles...)
		}
		conf := types.Config{
			Importer: imp,
			Error: func(err error) {
				te := err.(types.Error)
				p.errs = append(p.errs, te)
			},
			FakeImportC: true,
		}
		p.types, _ = conf.Check(lp.ImportPath, prog.fset, all, prog.info)
		for _, e := range p.errs {
			fn := prog.fset.Position(e.Pos).Filename
			if !strings.HasPrefix(fn, contracts) {
				if !strings.Contains(e.Msg, "imported and not used") {
					return nil, fmt.Errorf("type error in the code under test: %v", e)
				}
			}
		}
		prog.pkgs[lp.ImportPath] = p
		for _, f := range p.files {
			prog.indexFile(p, f)
		}
	}
	for _, lp := range mods {
		p := prog.pkgs[lp.ImportPath]
		for i, f := range p.cfiles {
			prog.indexContracts(p, f, i == 0)
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						for _, n := range s.(*ast.ValueSpec).Names {
							if o, ok := prog.info.Defs[n].(*types.Var); ok {
								prog.assigned[o] = true
								prog.state = append(prog.state, o)
							}
						}
					}
				}
			}
		}
	}
	for o := range prog.assigned {
		if v, ok := o.(*types.Var); ok && prog.globals[o] != nil {
			prog.state = append(prog.state, v)
		}
	}
	sort.Slice(prog.state, func(i, j int) bool { return prog.state[i].Pos() < prog.state[j].Pos() })
	return prog, nil
}

type repoImporter struct {
	types.Importer
	prog *Program
}

func (r *repoImporter) Import(path string) (*types.Package, error) {
	if p, ok := r.prog.pkgs[path]; ok {
		return p.types, nil
	}
	return r.Importer.Import(path)
}

func (prog *Program) indexFile(p *Pkg, f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if fn, ok := prog.info.Defs[d.Name].(*types.Func); ok {
				prog.funcs[fn] = d
				prog.pkgOf[fn] = p
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for _, n := range vs.Names {
						if o := prog.info.Defs[n]; o != nil {
							prog.globals[o] = vs
						}
					}
				}
			}
		}
	}
	// assignments to package variables
	ast.Inspect(f, func(n ast.Node) bool {
		mark := func(e ast.Expr) {
			for {
				switch x := e.(type) {
				case *ast.IndexExpr:
					e = x.X
					continue
				case *ast.SelectorExpr:
					e = x.X
					continue
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.StarExpr:
					e = x.X
					continue
				case *ast.Ident:
					if o := prog.info.Uses[x]; o != nil {
						prog.assigned[o] = true
					}
				}
				return
			}
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.RangeStmt:
			if n.Key != nil {
				mark(n.Key)
			}
			if n.Value != nil {
				mark(n.Value)
			}
		}
		return true
	})
}

// funcFullName: pkgpath.Func or pkgpath.Type.Method
func funcFullName(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	pkg := ""
	if fn.Pkg() != nil {
		pkg = fn.Pkg().Path() + "."
	}
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return n.Obj().Name() + "." + fn.Name()
			}
			return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + fn.Name()
		}
		return pkg + "?." + fn.Name()
	}
	return pkg + fn.Name()
}

func shortName(fn *types.Func) string {
	n := funcFullName(fn)
	n = strings.TrimPrefix(n, modPath+"/")
	return n
}
