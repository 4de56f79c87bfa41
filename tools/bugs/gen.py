H = '''package gen

import (
	"go/ast"
	"strconv"
	"testing"
)

var _ = ast.NewIdent
var _ = strconv.Unquote
'''
def T(body): return H + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"
G = "internal/gen/gen.go"
def bug(id, prop, edits, needs, breaks, demo): return dict(id=id, property=prop, pkg="internal/gen", edits=edits, needs=needs, breaks=breaks, demo=T(demo))
BUGS = [
bug("C19-const-raw", "C19", [(G, '''			lit.Value = strconv.Quote(val)
''', '''			lit.Value = strconv.Quote(val)
			if !strconv.CanBackquote(val) && len(val) > 0 && val[len(val)-1] == '\\n' {
				lit.Value = strconv.Quote(val[:len(val)-1])
			}
''')],
 "a string constant of a text that ends a line", "the line end is lost",
 '''	d := ConstString("A", "", "a\\n", "B", "T", "b")
	s, err := strconv.Unquote(d.Specs[0].(*ast.ValueSpec).Values[0].(*ast.BasicLit).Value)
	if err != nil || s != "a\\n" {
		t.Fatal(s, err)
	}'''),
bug("C19-const-type", "C19", [(G, '''		if typ != "" {
			a.Type = ast.NewIdent(typ)
		}
		decl.Specs = append(decl.Specs, a)
''', '''		if typ != "" && (i == 0 || typ != args[i-2]) {
			a.Type = ast.NewIdent(typ)
		}
		decl.Specs = append(decl.Specs, a)
''')],
 "two constants of one named type in a declaration", "the second is of no named type",
 '''	d := ConstString("A", "T", "a", "B", "T", "b")
	if d.Specs[0].(*ast.ValueSpec).Type == nil || d.Specs[1].(*ast.ValueSpec).Type == nil {
		t.Fatal("no type")
	}'''),
bug("C19-keyword", "C19", [(G, '''		return name + "_"
''', '''		if len(name) == len("fallthrough") {
			return name
		}
		return name + "_"
''')],
 "the longest of Go's keywords as a name", "the keyword stays",
 '''	for _, k := range []string{"break", "fallthrough", "var"} {
		if Sanitize(k) == k {
			t.Fatal(k)
		}
	}'''),
bug("C19-comment-blank", "C19", [(G, '''		if v == "" {
			continue
		}
''', '''		if strings.TrimSpace(v) == "" {
			continue
		}
''')],
 "an empty line between two comments", "the comments run into each other",
 '''	if n := len(CommentGroup("a", "\\n", "b").List); n != 3 {
		t.Fatal(n)
	}'''),
bug("C19-struct-tag", "C19", [(G, '''			field.Tag = tag.(*ast.BasicLit)
''', '''			field.Tag = tag.(*ast.BasicLit)
			if n := len(fields.List); n > 0 && fields.List[n-1].Tag != nil && fields.List[n-1].Tag.Value == field.Tag.Value {
				field.Tag = nil
			}
''')],
 "two fields in a row with equal tags", "the second has no tag",
 '''	s := Struct(ast.NewIdent("A"), ast.NewIdent("int"), String("x"), ast.NewIdent("B"), ast.NewIdent("int"), String("x"))
	if s.Fields.List[1].Tag == nil {
		t.Fatal("no tag")
	}'''),
]
