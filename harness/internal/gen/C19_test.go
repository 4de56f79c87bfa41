package gen

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"unicode"
)

var textBits = []string{"a", "Z", "9", " ", "\n", "\t", "\"", "`", "'", "\\", "\\n", "*/", "/*", "//", "%s", "%", "é", "日本", "\u2028", "\u00a0", "\ufeff", "\x00", "\x7f", "&lt;", "<x/>", "-", "--", "_", ":", "xml:\"a,attr\"", "\r", "\x1b"}

func randText(v *vRun, n int) string {
	var b bytes.Buffer
	for i := v.R.Intn(n + 1); i > 0; i-- {
		b.WriteString(textBits[v.R.Intn(len(textBits))])
	}
	return b.String()
}

func literalText(l ast.Expr) (string, error) {
	b, ok := l.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		return "", fmt.Errorf("%T is no string literal", l)
	}
	// as the compiler sees it, after printing
	src, err := ToString(l)
	if err != nil {
		return "", err
	}
	e, err := parser.ParseExpr(src)
	if err != nil {
		return "", err
	}
	p, ok := e.(*ast.BasicLit)
	if !ok {
		return "", fmt.Errorf("%s is no literal", src)
	}
	return strconv.Unquote(p.Value)
}

func TestVerifC19Text(t *testing.T) {
	v := vStart(t, "C19", "text", "string literals and constants made of a text evaluate to that text; identifiers are not keywords",
		"seeded random texts of up to 12 pieces with quotes, backquotes, line ends, control and other special characters; every keyword")
	defer v.Done()
	for i := 0; i < v.N(4000, 100000) && v.Time(); i++ {
		s := randText(v, 12)
		v.Case(fmt.Sprintf("%q", s), strings.ContainsAny(s, "\"`\n\r\x00"))
		v.Guard("string-panics", func() {
			got, err := literalText(String(s))
			if err != nil || got != s {
				v.Fail("string", fmt.Sprintf("a literal of %q", s), fmt.Sprintf("%q (%v), from %s", got, err, String(s).Value))
			}
			type c struct{ name, typ, val string }
			var cs []c
			var args []string
			for j := v.R.Intn(5); j >= 0; j-- {
				x := c{fmt.Sprintf("A%d", j), []string{"", "T", "U"}[v.R.Intn(3)], randText(v, 3)}
				cs = append(cs, x)
				args = append(args, x.name, x.typ, x.val)
			}
			cs[0].val, args[2] = s, s
			d := ConstString(args...)
			if d == nil || d.Tok != token.CONST || len(d.Specs) != len(cs) {
				v.Fail("constants", fmt.Sprintf("%d constants", len(cs)), fmt.Sprintf("%#v", d))
				return
			}
			for j, want := range cs {
				sp, ok := d.Specs[j].(*ast.ValueSpec)
				if !ok || len(sp.Names) != 1 || len(sp.Values) != 1 {
					v.Fail("constants", "one name and value", fmt.Sprintf("%#v", d.Specs[j]))
					return
				}
				typ := ""
				if sp.Type != nil {
					typ, _ = ToString(sp.Type)
				}
				got, err := literalText(sp.Values[0])
				if err != nil || got != want.val || sp.Names[0].Name != want.name || typ != want.typ {
					v.Fail("constant", fmt.Sprintf("%+v", want), fmt.Sprintf("%s %s = %q (%v)", sp.Names[0].Name, typ, got, err))
				}
			}
			// the declaration is valid Go
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), d); err != nil {
				v.Fail("constants-print", "no error", fmt.Sprint(err))
			} else if _, err := parser.ParseFile(token.NewFileSet(), "", "package p\n"+b.String(), 0); err != nil {
				v.Fail("constants-parse", "valid Go", fmt.Sprintf("%v in %s", err, b.String()))
			}
		})
	}
	for k := token.BREAK; k <= token.VAR; k++ {
		n := k.String()
		v.Case(n, true)
		if g := Sanitize(n); token.Lookup(g) != token.IDENT || g == n {
			v.Fail("keyword", "an identifier", g)
		}
	}
	for i := 0; i < 500; i++ {
		s := fmt.Sprintf("%s%d", token.Token(int(token.BREAK)+v.R.Intn(int(token.VAR-token.BREAK))).String(), v.R.Intn(3))
		if v.R.Intn(2) == 0 {
			s = strings.Title(s)
		}
		v.Case(s, false)
		if g := Sanitize(s); token.Lookup(s) == token.IDENT && g != s {
			v.Fail("no-keyword", s, g)
		}
	}
}

func words(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return -1
	}, s)
}

func TestVerifC19Comments(t *testing.T) {
	v := vStart(t, "C19", "comments", "the comments made of texts have every line of them, in order, and nothing of them is outside comments; PackageDoc puts them before the package",
		"seeded random texts of up to 12 lines, with empty ones, lines of up to 200,000 bytes, and what starts and ends comments")
	defer v.Done()
	for i := 0; i < v.N(1500, 30000) && v.Time(); i++ {
		var texts, want []string
		for j := v.R.Intn(4); j >= 0; j-- {
			s := strings.Replace(randText(v, 12), "\r", "", -1)
			if v.R.Intn(40) == 0 {
				s += strings.Repeat("x y", 1000*v.R.Intn(70)) + "\nend"
			}
			texts = append(texts, s)
			if s == "" {
				continue
			}
			for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				want = append(want, strings.TrimSpace(l))
			}
		}
		desc := fmt.Sprintf("%q", texts)
		if len(desc) > 2000 {
			desc = desc[:2000] + "..."
		}
		v.Case(desc, len(want) > 2)
		v.Guard("comments-panic", func() {
			var got []string
			for _, c := range CommentGroup(texts...).List {
				if !strings.HasPrefix(c.Text, "//") || strings.Contains(c.Text, "\n") {
					v.Fail("no-comment", "a comment", c.Text)
				}
				got = append(got, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
			}
			if !reflect.DeepEqual(got, want) {
				v.Fail("lines", fmt.Sprintf("%d lines: %.300q", len(want), want), fmt.Sprintf("%d lines: %.300q", len(got), got))
			}
			if strings.ContainsAny(strings.Join(texts, ""), "\x00\ufeff") {
				return
			}
			f := PackageDoc(&ast.File{Name: ast.NewIdent("p")}, texts...)
			src, err := FormattedSource(f, "p.go")
			if err != nil {
				v.Fail("source", "no error", fmt.Sprint(err))
				return
			}
			p, err := parser.ParseFile(token.NewFileSet(), "p.go", src, parser.ParseComments)
			if err != nil || p.Name.Name != "p" || len(p.Decls) != 0 {
				v.Fail("source", "a package with a comment", fmt.Sprintf("%v %.300q", err, src))
				return
			}
			// the printer formats comments; their words stay
			rest := words(string(src))
			for _, l := range want {
				l = words(l)
				k := strings.Index(rest, l)
				if k < 0 {
					v.Fail("source-lines", fmt.Sprintf("%.300q", l), fmt.Sprintf("%.500q", src))
					return
				}
				rest = rest[k+len(l):]
			}
		})
	}
}

func TestVerifC19Tags(t *testing.T) {
	v := vStart(t, "C19", "tags", "fields of structs have the name, type and tag they are given, and TagKey reads the values of their tags",
		"seeded random structs of up to 6 fields")
	defer v.Done()
	for i := 0; i < v.N(1000, 20000) && v.Time(); i++ {
		n := v.R.Intn(7)
		var args []ast.Expr
		var tags []reflect.StructTag
		desc := ""
		for j := 0; j < n; j++ {
			tag := reflect.StructTag("")
			for k := v.R.Intn(3); k > 0; k-- {
				if tag != "" {
					tag += " "
				}
				tag += reflect.StructTag(fmt.Sprintf("%s:%q", []string{"xml", "json", "x"}[k], strings.Replace(randText(v, 4), "\x00", "", -1)))
			}
			if j > 0 && v.R.Intn(4) == 0 {
				tag = tags[v.R.Intn(j)]
			}
			tags = append(tags, tag)
			var lit ast.Expr
			if tag != "" {
				lit = String(string(tag))
			}
			args = append(args, ast.NewIdent(fmt.Sprintf("F%d", j)), ast.NewIdent(fmt.Sprintf("T%d", j)), lit)
			desc += fmt.Sprintf("F%d T%d %q; ", j, j, tag)
		}
		v.Case(desc, n > 1)
		v.Guard("struct-panics", func() {
			s := Struct(args...)
			if len(s.Fields.List) != n {
				v.Fail("fields", fmt.Sprint(n), fmt.Sprint(len(s.Fields.List)))
				return
			}
			for j, f := range s.Fields.List {
				if len(f.Names) != 1 || f.Names[0].Name != fmt.Sprintf("F%d", j) || f.Type != args[3*j+1] {
					v.Fail("field", fmt.Sprintf("field %d", j), fmt.Sprintf("%+v", f))
				}
				for _, k := range []string{"xml", "json", "x", "y"} {
					if got, want := TagKey(f, k), tags[j].Get(k); got != want {
						v.Fail("tag", fmt.Sprintf("%s of field %d: %q", k, j, want), fmt.Sprintf("%q", got))
					}
				}
			}
		})
	}
}
