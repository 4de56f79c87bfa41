package xsdgen

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"aqwari.net/xml/xsd"
)

// A file is a document with some schemas, and references to other files.
type igRef struct {
	include   bool
	namespace string
	to        int // -1: no location
}

type igFile struct {
	schemas [][]igRef
	ns      []string
	wrapped bool
}

func igWrite(f igFile, name func(int) string) []byte {
	var b bytes.Buffer
	xs := []string{"xs:", ""}[len(f.ns)%2]
	if f.wrapped {
		b.WriteString("<types>\n")
	}
	for i, refs := range f.schemas {
		decl := `xmlns:xs="http://www.w3.org/2001/XMLSchema"`
		if xs == "" {
			decl = `xmlns="http://www.w3.org/2001/XMLSchema"`
		}
		fmt.Fprintf(&b, "<%sschema %s xmlns:t=%q targetNamespace=%q>\n", xs, decl, f.ns[i], f.ns[i])
		for _, r := range refs {
			loc := ""
			if r.to >= 0 {
				loc = fmt.Sprintf(" schemaLocation=%q", name(r.to))
			}
			if r.include {
				fmt.Fprintf(&b, "  <%sinclude%s/>\n", xs, loc)
			} else if r.namespace == "" {
				fmt.Fprintf(&b, "  <%simport%s></%simport>\n", xs, loc, xs)
			} else {
				fmt.Fprintf(&b, "  <%simport namespace=%q%s/>\n", xs, r.namespace, loc)
			}
		}
		fmt.Fprintf(&b, "  <%selement name=\"import\" type=\"%sstring\"/>\n</%sschema>\n", xs, xs, xs)
	}
	if f.wrapped {
		b.WriteString("</types>\n")
	}
	return b.Bytes()
}

func TestVerifC18(t *testing.T) {
	v := vStart(t, "C18", "imports", "random sets of files that import and include each other: Imports lists every reference, all files that can be reached are read once, files imported before those that import them, and files that cannot be read are errors",
		"seeded random sets of up to 6 files with up to 3 schemas each, cycles, shared files, references without a location and files that are missing")
	defer v.Done()
	top, err := ioutil.TempDir("", "verif-c18-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(top)
	for i := 0; i < v.N(800, 12000) && v.Time(); i++ {
		dir := filepath.Join(top, fmt.Sprint(i))
		os.MkdirAll(filepath.Join(dir, "sub"), 0777)
		n := 1 + v.R.Intn(6)
		cyclic := v.R.Intn(2) == 0
		missing := -1
		if v.R.Intn(4) == 0 {
			missing = v.R.Intn(n)
		}
		name := func(i int) string {
			if i%3 == 2 {
				return filepath.Join(dir, "sub", fmt.Sprintf("f%d.xsd", i))
			}
			return filepath.Join(dir, fmt.Sprintf("f%d.xsd", i))
		}
		var files []igFile
		var data [][]byte
		desc := ""
		edges := map[int][]int{}
		for j := 0; j < n; j++ {
			f := igFile{wrapped: v.R.Intn(3) == 0}
			m := 1
			if f.wrapped {
				m = 1 + v.R.Intn(3)
			}
			for k := 0; k < m; k++ {
				f.ns = append(f.ns, fmt.Sprintf("urn:%d:%d", j, v.R.Intn(2)))
				var refs []igRef
				for l := v.R.Intn(4); l > 0; l-- {
					r := igRef{include: v.R.Intn(3) == 0, to: -1}
					if v.R.Intn(5) > 0 {
						if cyclic {
							r.to = v.R.Intn(n)
						} else if j+1 < n {
							r.to = j + 1 + v.R.Intn(n-j-1)
						}
					}
					if r.to < 0 && r.include {
						continue
					}
					if v.R.Intn(3) > 0 {
						r.namespace = fmt.Sprintf("urn:%d", v.R.Intn(3))
					}
					if r.to >= 0 {
						edges[j] = append(edges[j], r.to)
					}
					refs = append(refs, r)
				}
				f.schemas = append(f.schemas, refs)
			}
			files = append(files, f)
			b := igWrite(f, name)
			data = append(data, b)
			if j != missing {
				ioutil.WriteFile(name(j), b, 0666)
			}
			desc += fmt.Sprintf("-- %s (missing: %v)\n%s", name(j), j == missing, b)
		}
		var roots []int
		var args []string
		for j := 0; j <= v.R.Intn(2); j++ {
			r := v.R.Intn(n)
			roots = append(roots, r)
			args = append(args, name(r))
		}
		desc += fmt.Sprintf("-- arguments: %v", args)
		v.Case(desc, n > 1)
		for j, f := range files {
			var want []xsd.Ref
			for _, s := range f.schemas {
				for _, r := range s {
					if !r.include {
						x := xsd.Ref{Namespace: r.namespace}
						if r.to >= 0 {
							x.Location = name(r.to)
						}
						want = append(want, x)
					}
				}
			}
			for k, s := range f.schemas {
				for _, r := range s {
					if r.include {
						want = append(want, xsd.Ref{Namespace: f.ns[k], Location: name(r.to)})
					}
				}
			}
			got, err := xsd.Imports(data[j])
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				v.Fail("imports", fmt.Sprintf("%s\n%v", data[j], want), fmt.Sprint(got, err))
			}
			if cut := data[j][:v.R.Intn(len(data[j]))]; j == 0 {
				if got, err := xsd.Imports(cut); err == nil && len(bytes.TrimSpace(cut)) < len(bytes.TrimSpace(data[j])) {
					v.Fail("imports-cut", fmt.Sprintf("%s\nan error", cut), fmt.Sprint(got))
				}
			}
		}
		reach := map[int]bool{}
		var visit func(int)
		visit = func(j int) {
			if !reach[j] {
				reach[j] = true
				if j != missing {
					for _, k := range edges[j] {
						visit(k)
					}
				}
			}
		}
		for _, r := range roots {
			visit(r)
		}
		cfg := new(Config)
		cfg.Option(FollowImports(true))
		v.Guard("follow-panic", func() {
			got, err := cfg.readFiles(args...)
			if (err != nil) != (missing >= 0 && reach[missing]) {
				v.Fail("follow-error", desc, err)
				return
			}
			if err != nil {
				if _, err := cfg.GenAST(args...); err == nil {
					v.Fail("genast-error", desc, "no error")
				}
				return
			}
			at := map[int]int{}
			for i, b := range got {
				found := false
				for j := range files {
					if bytes.Equal(b, data[j]) && reach[j] {
						if _, ok := at[j]; ok {
							continue
						}
						at[j] = i
						found = true
						break
					}
				}
				if !found {
					v.Fail("follow-extra", desc, string(b))
				}
			}
			if len(got) != len(reach) {
				v.Fail("follow-count", fmt.Sprintf("%s\n%d files", desc, len(reach)), len(got))
			}
			for j := range reach {
				if _, ok := at[j]; !ok {
					v.Fail("follow-lost", desc, name(j))
				}
				for _, k := range edges[j] {
					if !cyclic && at[k] > at[j] && !bytes.Equal(data[j], data[k]) {
						v.Fail("follow-order", desc, name(j)+" before "+name(k))
					}
				}
			}
		})
		v.Guard("plain-panic", func() {
			cfg := new(Config)
			got, err := cfg.readFiles(args...)
			gone := false
			for _, r := range roots {
				gone = gone || r == missing
			}
			if (err != nil) != gone {
				v.Fail("plain-error", desc, err)
			} else if gone {
				if _, err := cfg.GenAST(args...); err == nil || strings.Contains(err.Error(), "could not find schema") {
					v.Fail("genast-plain-error", desc, err)
				}
			} else {
				for _, r := range roots {
					found := false
					for _, b := range got {
						found = found || bytes.Equal(b, data[r])
					}
					if !found {
						v.Fail("plain-lost", desc, name(r))
					}
				}
			}
		})
		os.RemoveAll(dir)
	}
}
