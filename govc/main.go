package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type OblReport struct {
	Name    string  `json:"name"`
	Verdict string  `json:"verdict"`
	Backend string  `json:"backend"`
	Seconds float64 `json:"seconds"`
	Pos     string  `json:"pos,omitempty"`
	Output  string  `json:"output,omitempty"`
}

type UnitReport struct {
	Name        string         `json:"name"`
	Kind        string         `json:"kind"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Failed      []*OblReport   `json:"failed,omitempty"`
	Unsupported string         `json:"unsupported,omitempty"`
	Vacuous     []string       `json:"vacuous,omitempty"`
	Invariants  string         `json:"invariants,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Backends    map[string]int `json:"backends,omitempty"`
}

type Report struct {
	Property    string         `json:"property"`
	OK          bool           `json:"ok"`
	Units       []*UnitReport  `json:"units"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Backends    map[string]int `json:"backends"`
	Assumptions []string       `json:"assumptions"`
	SolverSecs  float64        `json:"solver_seconds"`
	Queries     int64          `json:"queries"`
	WallSecs    float64        `json:"wall_seconds"`
	Skipped     []string       `json:"skipped,omitempty"`
	Error       string         `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	contracts := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property to decide")
	only := flag.String("only", "", "verify only units whose name contains this")
	out := flag.String("o", "", "JSON report")
	secs := flag.Int("t", 20, "solver seconds per obligation")
	verbose := flag.Bool("v", false, "print obligations")
	flag.Parse()
	debug.SetGCPercent(200)
	start := time.Now()
	rep := &Report{Property: *prop, Backends: map[string]int{}}
	finish := func() {
		rep.WallSecs = time.Since(start).Seconds()
		rep.Queries = atomic.LoadInt64(&nQueries)
		rep.SolverSecs = float64(atomic.LoadInt64(&solverNanos)) / 1e9
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		}
		fmt.Printf("govc %s: %d/%d obligations discharged, %d units, %.1fs wall, %.1fs solver, %d queries\n", *prop, rep.Discharged, rep.Obligations, len(rep.Units), rep.WallSecs, rep.SolverSecs, rep.Queries)
		for _, u := range rep.Units {
			if u.Unsupported != "" {
				fmt.Printf("  UNSUPPORTED %s: %s\n", u.Name, u.Unsupported)
			}
			for _, v := range u.Vacuous {
				fmt.Printf("  VACUOUS %s: %s\n", u.Name, v)
			}
			for _, f := range u.Failed {
				fmt.Printf("  FAILED %s (%s, %s)\n", f.Name, f.Verdict, f.Pos)
			}
		}
		if rep.Error != "" {
			fmt.Println("  ERROR", rep.Error)
		}
		if rep.OK {
			os.Exit(0)
		}
		os.Exit(1)
	}
	prog, err := loadProgram(*repo, *contracts)
	if err != nil {
		rep.Error = err.Error()
		finish()
	}
	var todo []*Contract
	seen := map[*Contract]bool{}
	add := func(c *Contract) {
		if !seen[c] {
			seen[c] = true
			todo = append(todo, c)
		}
	}
	// lemmas are proved in the order they are written, and may be used later
	pos := 0
	for _, c := range prog.ordered {
		if c.kind == "lemma" || c.kind == "axiom" {
			pos++
			c.lemmaPos = pos
			prog.publishLemma(c)
		}
	}
	for _, c := range prog.ordered {
		if *only != "" && !strings.Contains(c.name, *only) {
			continue
		}
		if c.kind == "axiom" {
			continue
		}
		if *prop == "" || c.hasProp(*prop) {
			add(c)
		}
	}
	ok := true
	assumes := map[string]bool{}
	var units []*Unit
	lemmaUsed := map[int]bool{}
	for i := 0; i < len(todo); i++ {
		c := todo[i]
		if c.kind == "contract" && c.target == nil && !c.exported() {
			rep.Skipped = append(rep.Skipped, c.name+": "+c.invalid+" (callers inline the code instead)")
			continue
		}
		if _, a := c.opts["assumed"]; a {
			assumes["assumed contract of "+c.name] = true
			continue
		}
		u := prog.verifyUnit(c)
		units = append(units, u)
		if *only == "" {
			for _, d := range prog.ordered {
				if u.used[d] && d.kind != "extern" {
					add(d)
				}
			}
			// lemmas this unit names or may be given
			for _, l := range prog.ordered {
				if l.kind == "lemma" && (len(l.trigs) > 0 && l.pkg == c.pkg && len(u.vcs) > 0 || u.con.usesLemma(prog, l)) && l != c {
					if c.kind != "lemma" || l.lemmaPos < c.lemmaPos {
						add(l)
					}
				}
			}
		}
	}
	_ = lemmaUsed
	type job struct {
		u      *UnitReport
		vc     *VC
		script [2]string
		q      *Query
		res    *Result
		cover  bool
	}
	var jobs []*job
	for _, u := range units {
		ur := &UnitReport{Name: u.Name, Kind: u.Kind, Backends: map[string]int{}}
		rep.Units = append(rep.Units, ur)
		for k := range u.assumes {
			assumes[k] = true
		}
		for c := range u.used {
			if c.kind == "extern" {
				assumes["assumed contract of external "+c.name] = true
			}
		}
		for n := range u.inlined {
			ur.Inlined = append(ur.Inlined, n)
		}
		sort.Strings(ur.Inlined)
		if u.invTried > 0 {
			ur.Invariants = fmt.Sprintf("%d inferred invariants of %d candidates", u.invUsed, u.invTried)
		}
		if u.fail != "" {
			ur.Unsupported = u.fail
			ok = false
			continue
		}
		if len(u.vcs) == 0 && u.ex.counts["trivial"] == 0 {
			ur.Vacuous = append(ur.Vacuous, "no obligations")
			ok = false
		}
		if t := u.ex.counts["trivial"]; t > 0 {
			ur.Obligations += t
			ur.Discharged += t
			ur.Backends["simplifier"] += t
		}
		for _, vc := range u.vcs {
			q := &Query{facts: u.ex.expandFacts(vc.facts), goal: vc.goal, maxLemma: u.ex.maxLemma}
			j := &job{u: ur, vc: vc, q: q}
			if !q.trivial() {
				j.script = q.Scripts()
			}
			jobs = append(jobs, j)
		}
		for _, vc := range u.covers {
			q := &Query{facts: u.ex.expandFacts(vc.facts), goal: False, maxLemma: u.ex.maxLemma}
			j := &job{u: ur, vc: vc, q: q, cover: true}
			j.script = q.Scripts()
			jobs = append(jobs, j)
		}
	}
	sc := selfCheck()
	if len(sc) > 0 {
		ur := &UnitReport{Name: "builtin list lemmas", Kind: "lemma", Backends: map[string]int{}}
		rep.Units = append(rep.Units, ur)
		for _, vc := range sc {
			saved := axioms
			var ax []*Axiom
			for _, a := range axioms {
				if a.kind != "lemma" {
					ax = append(ax, a)
				}
			}
			axioms = ax
			q := &Query{facts: vc.extra, goal: vc.goal}
			jobs = append(jobs, &job{u: ur, vc: vc, q: q, script: q.Scripts()})
			axioms = saved
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		if j.script[0] == "" {
			j.res = &Result{verdict: "unsat", backend: "simplifier"}
			return
		}
		if j.cover {
			j.res = runOne(context.Background(), j.script[0], quickBackends()[0])
			return
		}
		j.res = solveScripts(j.script, fullBackends(*secs))
	})
	reach := map[*UnitReport]bool{}
	hasExit := map[*UnitReport]bool{}
	for _, j := range jobs {
		if j.cover {
			if j.vc.name == "requires" {
				if j.res.verdict == "unsat" {
					j.u.Vacuous = append(j.u.Vacuous, "the preconditions are contradictory")
					ok = false
				}
				continue
			}
			hasExit[j.u] = true
			if j.res.verdict != "unsat" {
				reach[j.u] = true
			}
			continue
		}
		j.u.Obligations++
		if *verbose {
			fmt.Printf("%-8s %-20s %6.2fs %s\n", j.res.verdict, j.res.backend, j.res.dur.Seconds(), j.vc.name)
		}
		if j.res.verdict == "unsat" {
			j.u.Discharged++
			j.u.Backends[j.res.backend]++
			continue
		}
		ok = false
		if j.res.verdict == "error" {
			dumpScript(j.script[0])
		}
		if d := os.Getenv("GOVC_FAILDIR"); d != "" {
			os.MkdirAll(d, 0755)
			os.WriteFile(d+"/"+strings.ReplaceAll(j.vc.name, "/", "_")+".smt2", []byte(j.script[0]), 0644)
			os.WriteFile(d+"/"+strings.ReplaceAll(j.vc.name, "/", "_")+".shift.smt2", []byte(j.script[1]), 0644)
		}
		j.u.Failed = append(j.u.Failed, &OblReport{Name: j.vc.name, Verdict: j.res.verdict, Backend: j.res.backend, Seconds: j.res.dur.Seconds(), Pos: j.vc.pos.String(), Output: clip(j.res.out, 600)})
	}
	for u := range hasExit {
		if !reach[u] {
			u.Vacuous = append(u.Vacuous, "no exit of the function is reachable")
			ok = false
		}
	}
	for _, u := range rep.Units {
		rep.Obligations += u.Obligations
		rep.Discharged += u.Discharged
		for b, n := range u.Backends {
			rep.Backends[b] += n
		}
	}
	for a := range assumes {
		rep.Assumptions = append(rep.Assumptions, a)
	}
	sort.Strings(rep.Assumptions)
	for _, p := range prog.problems {
		rep.Error = p
		ok = false
	}
	if len(rep.Units) == 0 || rep.Obligations == 0 {
		ok = false
		if rep.Error == "" {
			rep.Error = "no obligations"
		}
	}
	rep.OK = ok
	finish()
}
