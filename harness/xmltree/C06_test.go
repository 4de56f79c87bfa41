package xmltree

//verif:use scopes
//verif:use docs

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
)

// vFailAt fails the write that crosses the given number of bytes, or the
// given number of calls. sticky: later writes fail too.
type vFailAt struct {
	bytes, calls int
	once         bool
	failed       bool
	buf          bytes.Buffer
	n            int
}

var errVerif = errors.New("write failed")

func (w *vFailAt) Write(p []byte) (int, error) {
	w.n++
	if w.failed && !w.once {
		return 0, errVerif
	}
	if !w.failed && (w.calls > 0 && w.n == w.calls || w.bytes >= 0 && w.buf.Len()+len(p) > w.bytes) {
		w.failed = true
		k := 0
		if w.bytes >= 0 {
			k = w.bytes - w.buf.Len()
			w.buf.Write(p[:k])
		}
		return k, errVerif
	}
	return w.buf.Write(p)
}

func TestVerifC06(t *testing.T) {
	v := vStart(t, "C06", "write errors", "random trees x every write call that can fail x whether later writes fail too; also trees with a cycle; nontrivial when a write failed",
		"every write of each of the seeded random trees to depth 4 and width 3")
	defer v.Done()
	try := func(name string, el *Element) {
		var all vFailAt
		all.bytes = -1
		if err := Encode(&all, el); err != nil {
			v.Case(name, true)
			v.Fail("spurious", "no error", err)
			return
		}
		whole := all.buf.String()
		for _, once := range []bool{false, true} {
			for k := 1; k <= all.n; k++ {
				w := &vFailAt{bytes: -1, calls: k, once: once}
				v.Case(fmt.Sprintf("%s, write %d of %d fails (only that one: %v)", name, k, all.n, once), true)
				var err error
				v.Guard("panic", func() { err = Encode(w, el) })
				if w.failed && err == nil {
					v.Fail("lost-error", "the error of the failed write", "no error")
				}
				if err != nil && !w.failed {
					v.Fail("spurious", "no error", err)
				}
				if err == nil && w.buf.String() != whole {
					v.Fail("short", whole, w.buf.String())
				}
			}
		}
		for _, b := range []int{0, 1, len(whole) / 3, len(whole) / 2, len(whole) - 1} {
			if b < 0 || b >= len(whole) {
				continue
			}
			w := &vFailAt{bytes: b}
			v.Case(fmt.Sprintf("%s, fails after %d of %d bytes", name, b, len(whole)), true)
			if err := Encode(w, el); err == nil {
				v.Fail("lost-error", "the error of the failed write", "no error")
			}
		}
	}
	for i := 0; i < v.N(150, 3000) && v.Time(); i++ {
		n := vGenDoc(v.R, vDocOpts{depth: v.R.Intn(4), width: 1 + v.R.Intn(3)})
		root, err := Parse([]byte(n.source))
		if err != nil {
			continue
		}
		try(n.source, root)
	}
	// a tree that contains itself
	cyc := &Element{Children: make([]Element, 1)}
	cyc.Name.Local = "a"
	cyc.Children[0].Name.Local = "b"
	cyc.Children[0].Children = cyc.Children
	try("a tree with a cycle", cyc)
}
