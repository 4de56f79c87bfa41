// Command checker decides one property: it runs govc, which generates and
// discharges the proof obligations from /repo's current source, and the
// property's bounded harness, which searches for a failing input to replay.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type failure struct{ Key, Input, Want, Got string }

type part struct {
	Property    string
	Part        string
	Evaluations int
	Distinct    int `json:"distinct_nontrivial"`
	Rule, Bound string
	Samples     []string
	Failures    []failure
	Complete    bool
}

type obl struct {
	Name, Verdict, Backend, Pos, Output string
	Seconds                             float64
}
type unit struct {
	Name, Kind, Unsupported, Invariants string
	Obligations, Discharged             int
	Failed                              []*obl
	Vacuous, Inlined                    []string
	Backends                            map[string]int
}
type report struct {
	OK                      bool
	Units                   []*unit
	Obligations, Discharged int
	Backends                map[string]int
	Assumptions, Skipped    []string
	SolverSecs              float64 `json:"solver_seconds"`
	WallSecs                float64 `json:"wall_seconds"`
	Queries                 int64
	Error                   string
}

type finding struct{ prop, key, what string }

var (
	verif string
	repo  = "/repo"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker PROPERTY")
		os.Exit(2)
	}
	id := os.Args[1]
	start := time.Now()
	verif, _ = os.Getwd()
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	work, err := ioutil.TempDir("", "verif-"+id+"-")
	if err != nil {
		work = "/tmp"
	}
	defer os.RemoveAll(work)

	var rep report
	var parts []part
	var notes []string
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		rep = runGovc(id, tier, work)
	}()
	parts, notes = runHarness(id, tier, seed, work)
	wg.Wait()

	// what was found
	known, fixed := findings(id)
	seenKnown := map[string]bool{}
	type viol struct {
		text   string
		replay map[string]interface{}
	}
	var violations []viol
	for _, p := range parts {
		for _, f := range p.Failures {
			if k, ok := known[f.Key]; ok {
				seenKnown[k.key] = true
				continue
			}
			violations = append(violations, viol{"", map[string]interface{}{
				"property": id, "kind": "failing input", "part": p.Part, "key": f.Key, "input": f.Input, "want": f.Want, "got": f.Got,
				"reproduce": "cd /verif && VERIF_SEED=" + strconv.Itoa(seed) + " VERIF_TIER=" + tier + " ./check.sh " + id,
			}})
		}
	}
	concrete := len(violations) > 0
	var failed []map[string]interface{}
	for _, u := range rep.Units {
		for _, f := range u.Failed {
			failed = append(failed, map[string]interface{}{"obligation": f.Name, "verdict": f.Verdict, "backend": f.Backend, "at": f.Pos, "seconds": f.Seconds, "verifier_output": f.Output})
		}
		if u.Unsupported != "" {
			failed = append(failed, map[string]interface{}{"obligation": u.Name, "verdict": "no obligations could be generated", "verifier_output": u.Unsupported})
		}
		for _, v := range u.Vacuous {
			failed = append(failed, map[string]interface{}{"obligation": u.Name, "verdict": "vacuous", "verifier_output": v})
		}
	}
	if !rep.OK && len(failed) == 0 {
		failed = append(failed, map[string]interface{}{"obligation": "all", "verdict": "the verifier gave no answer", "verifier_output": rep.Error})
	}
	if len(failed) > 0 && !concrete {
		violations = append(violations, viol{" no-failing-input-found", map[string]interface{}{
			"property": id, "kind": "failed obligation", "obligation": failed[0]["obligation"], "failed": failed, "verifier_error": rep.Error,
			"reproduce": "cd /verif && ./check.sh " + id,
		}})
	}

	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	old, _ := filepath.Glob(filepath.Join(dir, id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[k].what)
	}
	for i, v := range violations {
		if i >= 10 {
			break
		}
		if concrete && len(failed) > 0 {
			v.replay["failed_obligations"] = failed
		}
		file := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i+1))
		writeJSON(file, v.replay)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, file, v.text)
	}

	evidence(id, tier, seed, rep, parts, notes, len(violations), known, fixed, seenKnown, time.Since(start).Seconds())
	fmt.Printf("%s: %d of %d obligations discharged in %d units", id, rep.Discharged, rep.Obligations, len(rep.Units))
	for _, p := range parts {
		fmt.Printf("; bounded %s: %d evaluations, %d distinct", p.Part, p.Evaluations, p.Distinct)
	}
	fmt.Printf("; %.1f s\n", time.Since(start).Seconds())
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(violations) > 0 {
		for _, f := range failed {
			fmt.Println("  not discharged:", f["obligation"], f["verdict"])
		}
		os.RemoveAll(work)
		os.Exit(1)
	}
}

func sortedKeys(m map[string]finding) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func writeJSON(file string, v interface{}) {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(v)
	ioutil.WriteFile(file, b.Bytes(), 0644)
}

// findings reads known-findings.txt.
func findings(id string) (map[string]finding, []string) {
	known := map[string]finding{}
	var fixed []string
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return known, nil
	}
	defer f.Close()
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		if m := re.FindStringSubmatch(s.Text()); m != nil && m[1] == id {
			known[m[2]] = finding{m[1], m[2], m[3]}
		}
		if strings.HasPrefix(s.Text(), "fixed: property="+id+" ") {
			fixed = append(fixed, s.Text())
		}
	}
	return known, fixed
}

func run(timeout time.Duration, dir string, env []string, name string, args ...string) (string, int, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		return err.Error(), 127, false
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	timedOut := false
	var err error
	select {
	case err = <-done:
	case <-ctx.Done():
		timedOut = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	rc := 0
	if err != nil {
		rc = 1
		if e, ok := err.(*exec.ExitError); ok {
			rc = e.ExitCode()
		}
	}
	return out.String(), rc, timedOut
}

func runGovc(id, tier, work string) (rep report) {
	out := filepath.Join(work, "govc.json")
	secs := "20"
	if tier == "thorough" {
		secs = "60"
	}
	text, rc, late := run(600*time.Second, verif, nil, os.Getenv("GOVC"), "-repo", repo, "-contracts", filepath.Join(verif, "contracts"), "-prop", id, "-t", secs, "-o", out)
	b, err := ioutil.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &rep)
	}
	if err != nil || late {
		rep.OK = false
		rep.Error = fmt.Sprintf("govc: rc %d, timed out %v: %s", rc, late, tail(text, 3000))
	}
	return rep
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func runHarness(id, tier string, seed int, work string) (parts []part, notes []string) {
	files, _ := filepath.Glob(filepath.Join(verif, "harness", "*", id+"*_test.go"))
	more, _ := filepath.Glob(filepath.Join(verif, "harness", "*", "*", id+"*_test.go"))
	files = append(files, more...)
	sort.Strings(files)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i, f := range files {
		wg.Add(1)
		go func(i int, f string) {
			defer wg.Done()
			p, n := runOne(id, tier, seed, work, i, f)
			mu.Lock()
			parts = append(parts, p...)
			notes = append(notes, n...)
			mu.Unlock()
		}(i, f)
	}
	wg.Wait()
	sort.Slice(parts, func(i, j int) bool { return parts[i].Part < parts[j].Part })
	return
}

func runOne(id, tier string, seed int, work string, n int, file string) (parts []part, notes []string) {
	src, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, []string{err.Error()}
	}
	m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(src)
	pkg := string(m[1])
	rel, _ := filepath.Rel(filepath.Join(verif, "harness"), filepath.Dir(file))
	target := filepath.Join(repo, rel)
	over := map[string]string{}
	put := func(name, path string) {
		b, err := ioutil.ReadFile(path)
		if err != nil {
			return
		}
		text := regexp.MustCompile(`(?m)^package \w+`).ReplaceAllString(string(b), "package "+pkg)
		f := filepath.Join(work, fmt.Sprintf("%d_%s", n, name))
		ioutil.WriteFile(f, []byte(text), 0644)
		over[filepath.Join(target, name)] = f
	}
	put("zz_verif_lib_test.go", filepath.Join(verif, "harness", "vlib.go.txt"))
	// shared helpers the file names in a line "//verif:use NAME"
	for _, u := range regexp.MustCompile(`(?m)^//verif:use (\S+)`).FindAllSubmatch(src, -1) {
		put("zz_verif_"+string(u[1])+"_test.go", filepath.Join(verif, "harness", "lib", string(u[1])+".go.txt"))
	}
	put("zz_verif_prop_test.go", file)
	oj := filepath.Join(work, fmt.Sprintf("overlay%d.json", n))
	writeJSON(oj, map[string]interface{}{"Replace": over})
	out := filepath.Join(work, fmt.Sprintf("out%d", n))
	budget, limit := 25, 400
	if tier == "thorough" {
		budget, limit = 300, 800
	}
	tmp := filepath.Join(work, fmt.Sprintf("tmp%d", n))
	os.MkdirAll(tmp, 0755)
	bin := filepath.Join(work, fmt.Sprintf("bin%d", n))
	ptarget := "./" + rel
	text, rc, _ := run(400*time.Second, repo, nil, "go", "test", "-c", "-vet=off", "-overlay", oj, "-o", bin, ptarget)
	if rc != 0 {
		return nil, []string{"the bounded harness " + filepath.Base(file) + " does not build against this tree and was not run: " + tail(text, 600)}
	}
	rundir := target
	if _, err := os.Stat(rundir); err != nil {
		rundir = repo
	}
	text, rc, late := run(time.Duration(limit+30)*time.Second, rundir, []string{
		"VERIF_OUT=" + out, "VERIF_BUDGET=" + strconv.Itoa(budget), "TMPDIR=" + tmp, "VERIF_TIER=" + tier, "VERIF_SEED=" + strconv.Itoa(seed),
		"VERIF_REPO=" + repo,
	}, bin, "-test.run", "^TestVerif", "-test.v", "-test.timeout", strconv.Itoa(limit)+"s")
	f, err := os.Open(out)
	if err == nil {
		s := bufio.NewScanner(f)
		s.Buffer(nil, 1<<28)
		for s.Scan() {
			var p part
			if json.Unmarshal(s.Bytes(), &p) == nil {
				parts = append(parts, p)
			}
		}
		f.Close()
	}
	nfail := 0
	for _, p := range parts {
		nfail += len(p.Failures)
	}
	if (rc != 0 || late) && nfail == 0 {
		// the run died: the case it was in is the failing input
		cur, _ := ioutil.ReadFile(out + ".cur")
		key := "crash"
		if late {
			key = "timeout"
		}
		head := text
		if i := strings.Index(head, "fatal error:"); i >= 0 {
			head = head[i:]
		} else if i := strings.Index(head, "panic:"); i >= 0 {
			head = head[i:]
		}
		if len(head) > 1500 {
			head = head[:1500]
		}
		parts = append(parts, part{Property: id, Part: filepath.Base(file), Failures: []failure{{key, string(cur), "the code under test returns", head}}})
	}
	return
}

func evidence(id, tier string, seed int, rep report, parts []part, notes []string, nviol int, known map[string]finding, fixed []string, seenKnown map[string]bool, wall float64) {
	level := "proof"
	var man struct {
		Checks []struct{ Property, Level string }
	}
	if b, err := ioutil.ReadFile(filepath.Join(verif, "MANIFEST.json")); err == nil {
		json.Unmarshal(b, &man)
		for _, c := range man.Checks {
			if c.Property == id {
				level = c.Level
			}
		}
	}
	var units []map[string]interface{}
	var trusted []string
	for _, u := range rep.Units {
		m := map[string]interface{}{"function": u.Name, "kind": u.Kind, "obligations": u.Obligations, "discharged": u.Discharged, "backends": u.Backends}
		if len(u.Inlined) > 0 {
			m["bodies_inlined"] = u.Inlined
		}
		if u.Invariants != "" {
			m["loop_invariants"] = u.Invariants
		}
		if u.Unsupported != "" {
			m["unsupported"] = u.Unsupported
		}
		units = append(units, m)
	}
	trusted = append(trusted, "govc (the condition generator in /verif/govc)", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2: an unsat answer from one of them", "go/parser and go/types for the meaning of the source")
	trusted = append(trusted, rep.Assumptions...)
	cov := map[string]interface{}{
		"obligations": rep.Obligations, "discharged": rep.Discharged,
		"checker_cmd":         "./check.sh " + id + " (govc -prop " + id + " on /repo's current source)",
		"trusted_base":        trusted,
		"functions_verified":  units,
		"obligations_by_backend": rep.Backends,
		"solver_seconds":      rep.SolverSecs, "solver_queries": rep.Queries,
		"not_resolved": rep.Skipped,
	}
	var ev, di int
	var samples []interface{}
	var rules []string
	var bounded []map[string]interface{}
	for _, p := range parts {
		ev += p.Evaluations
		di += p.Distinct
		for _, s := range p.Samples {
			samples = append(samples, s)
		}
		rules = append(rules, p.Part+": "+p.Rule)
		bounded = append(bounded, map[string]interface{}{"part": p.Part, "label": "bounded, not proved", "bound": p.Bound, "evaluations": p.Evaluations, "failures": len(p.Failures), "complete": p.Complete})
	}
	if samples == nil {
		samples = []interface{}{}
	}
	cov["evaluations"], cov["distinct_nontrivial"], cov["samples"], cov["rule"] = ev, di, samples, strings.Join(rules, "; ")
	cov["bounded_stand_ins"] = bounded
	cov["explanation"] = fmt.Sprintf("%d of %d proof obligations generated from /repo's source were discharged; %d bounded evaluations of the same specification on the compiled code back them up and search for failing inputs.", rep.Discharged, rep.Obligations, ev)
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	var ks []string
	for _, k := range sortedKeys(known) {
		ks = append(ks, fmt.Sprintf("%s (seen this run: %v)", known[k].what, seenKnown[k]))
	}
	if ks != nil {
		cov["known_findings"] = ks
	}
	if fixed != nil {
		cov["fixed"] = fixed
	}
	assume := append([]string{
		"partial correctness: termination is not proved (the bounded harness has a watchdog)",
		"int is mathematical except where a contract bounds it; no concurrent mutation of the arguments",
	}, rep.Assumptions...)
	writeJSON(filepath.Join(verif, "evidence", id+".json"), map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": wall, "violations": nviol,
	})
}
