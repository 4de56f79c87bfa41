package xsdgen

import (
	"go/ast"

	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

// readable says that the files can be read; it does not change during a call.
//
//govc:opaque
func readable(name string) bool { return false }

//govc:extern io/ioutil.ReadFile
func externReadFile(name string) (r []byte, err error) {
	ensures((err == nil) == readable(name))
	ensures(implies(err == nil, fresh(r)))
	return
}

// A location that is listed is one that the import gives.
var _ = xsd.Imports

//govc:named
func isSeen(seen map[string]bool, n string) bool { return mapdom(seen, n) && mapval(seen, n) }

//govc:contract Config.debugf assumed
func con_debugf(cfg *Config, format string, v []interface{}) {}

//govc:contract Config.readNewFiles props=C18
func con_readNewFiles(cfg *Config, seen map[string]bool, files []string) (r [][]byte, err error) {
	requires(cfg != nil && seen != nil && xmltree.SpecAcyclic())
	modifies(mapelems(seen))
	ensures("kept", forall(func(n string) bool {
		return trig(isSeen(seen, n)) && trig(old(isSeen(seen, n))) && implies(old(isSeen(seen, n)), isSeen(seen, n))
	}))
	ensures("given", implies(err == nil, forall(func(i int) bool {
		return trig(files[i]) && implies(i >= 0 && i < len(files), isSeen(seen, files[i]))
	})))
	ensures("readable", implies(err == nil, forall(func(n string) bool {
		return trig(isSeen(seen, n)) && trig(old(isSeen(seen, n))) && implies(isSeen(seen, n), old(isSeen(seen, n)) || readable(n))
	})))
	candidate(func() bool {
		return forall(func(n string) bool {
			return trig(isSeen(seen, n)) && trig(old(isSeen(seen, n))) && implies(old(isSeen(seen, n)), isSeen(seen, n))
		})
	})
	candidate(func() bool {
		return forall(func(i int) bool {
			return trig(files[i]) && implies(i >= 0 && i < iter(), isSeen(seen, files[i]))
		})
	})
	candidate(func() bool {
		return forall(func(n string) bool {
			return trig(isSeen(seen, n)) && trig(old(isSeen(seen, n))) && implies(isSeen(seen, n), old(isSeen(seen, n)) || readable(n))
		})
	})
	return
}

//govc:contract Config.readFiles props=C18
func con_readFiles(cfg *Config, files []string) (r [][]byte, err error) {
	requires(cfg != nil && xmltree.SpecAcyclic())
	ensures("readable", implies(err == nil, forall(func(i int) bool {
		return trig(files[i]) && implies(i >= 0 && i < len(files), readable(files[i]))
	})))
	return
}

//govc:contract Config.GenCode assumed
func con_GenCode(cfg *Config, data [][]byte) (r *Code, err error) {
	requires(cfg != nil)
	ensures(implies(err == nil, r != nil))
	modifies(*cfg)
	mayPanic(true)
	onPanic(true)
	return
}

//govc:contract Code.GenAST assumed
func con_CodeGenAST(code *Code) (r *ast.File, err error) {
	mayPanic(true)
	onPanic(true)
	return
}

//govc:contract Config.GenAST props=C18
func con_GenAST(cfg *Config, files []string) (r *ast.File, err error) {
	requires(cfg != nil && xmltree.SpecAcyclic())
	modifies(*cfg)
	mayPanic(true)
	onPanic(true)
	ensures("readable", implies(err == nil, forall(func(i int) bool {
		return trig(files[i]) && implies(i >= 0 && i < len(files), readable(files[i]))
	})))
	return
}
