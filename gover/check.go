package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// check: the registered command of one property. It discharges the property's obligations on /repo's
// current source, runs the replay drivers (contracts as runtime oracles on the real code; they double as the
// labelled bounded stand-ins), writes the evidence file and prints the verdict. Exit 0 or 1 only.

type driverOut struct {
	Driver      string   `json:"driver"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failures    []struct {
		Key, Input, Msg string
	} `json:"failures"`
	Seconds float64 `json:"seconds"`
	file    string
	state   string // ok, does not compile, crashed
	log     string
}

type finding struct{ prop, key, text string }

func loadFindings(path string) []finding {
	b, _ := os.ReadFile(path)
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := finding{}
		fs := strings.Fields(strings.TrimPrefix(l, "finding:"))
		var rest []string
		for _, w := range fs {
			switch {
			case strings.HasPrefix(w, "property=") && f.prop == "":
				f.prop = w[9:]
			case strings.HasPrefix(w, "key=") && f.key == "":
				f.key = w[4:]
			default:
				rest = append(rest, w)
			}
		}
		f.text = strings.Join(rest, " ")
		out = append(out, f)
	}
	return out
}

// runDriver compiles one driver file into its package through an overlay and runs it.
func runDriver(repo, verif, file, outDir, cexFile string, deep bool) []*driverOut {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	pkg := "."
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "//pkg:") {
			pkg = strings.TrimSpace(l[6:])
			break
		}
	}
	rep := map[string]string{}
	old, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
	for _, o := range old {
		rep[o] = ""
	}
	rep[filepath.Join(repo, pkg, "zz_"+filepath.Base(file))] = file
	for _, lib := range []string{"vlib", "vgen"} {
		libs, _ := filepath.Glob(filepath.Join(verif, "drivers", lib, "*.go"))
		for _, l := range libs {
			rep[filepath.Join(repo, "zz_"+lib, filepath.Base(l))] = l
		}
	}
	base := strings.TrimSuffix(filepath.Base(file), "_test.go")
	ov := filepath.Join(outDir, base+".overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ov, b, 0o644)
	od := filepath.Join(outDir, base+".out")
	os.RemoveAll(od)
	os.MkdirAll(od, 0o755)
	cmd := exec.Command("go", "test", "-overlay", ov, "-run", "^TestVerif", "-count=1", "-vet=off", "-timeout", "780s", "-v", "./"+pkg)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "VERIF_OUT="+od, "VERIF_CEX="+cexFile)
	if deep {
		cmd.Env = append(cmd.Env, "VERIF_DEEP=1")
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	log := out.String()
	files, _ := filepath.Glob(filepath.Join(od, "*.json"))
	var res []*driverOut
	for _, f := range files {
		d := &driverOut{file: file, state: "ok", log: log}
		b, _ := os.ReadFile(f)
		if json.Unmarshal(b, d) == nil {
			res = append(res, d)
		}
	}
	if err != nil && (len(res) == 0 || strings.Contains(log, "panic:") || strings.Contains(log, "fatal error:")) {
		d := &driverOut{Driver: base, file: file, log: log, state: "crashed"}
		if strings.Contains(log, "[build failed]") || strings.Contains(log, "[setup failed]") {
			d.state = "does not compile"
		}
		hang := false
		for _, r := range res {
			for _, f := range r.Failures {
				if f.Key == "does-not-terminate" {
					hang = true
				}
			}
		}
		if !hang {
			res = append(res, d)
		}
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func checkMain(argv []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "quick", "")
	fs.Parse(argv)
	t0 := time.Now()
	os.Setenv("VERIF_TIER", *tier)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tmp, err := os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	defer os.RemoveAll(tmp)
	ms := 20000
	if *tier == "thorough" {
		ms = 90000
	}
	cs, err := LoadContracts(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(1)
	}
	drivers, _ := filepath.Glob(filepath.Join(*verif, "drivers", *prop, "*_test.go"))
	sort.Strings(drivers)

	// 1. proofs (with the closure of the contracts the callers rely on) and drivers side by side
	var rep *Report
	var wg sync.WaitGroup
	cexFile := filepath.Join(tmp, "cex.json")
	runAll := func(deep bool, slots int) []*driverOut {
		outs := make([][]*driverOut, len(drivers))
		sem := make(chan bool, slots)
		var wg sync.WaitGroup
		for i, d := range drivers {
			wg.Add(1)
			go func(i int, d string) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				outs[i] = runDriver(*repo, *verif, d, tmp, cexFile, deep)
			}(i, d)
		}
		wg.Wait()
		var all []*driverOut
		for _, o := range outs {
			all = append(all, o...)
		}
		return all
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		rep = proofClosure(cs, *prop, *repo, filepath.Join(*verif, "contracts"), ms)
	}()
	var douts []*driverOut
	wg.Add(1)
	go func() { defer wg.Done(); douts = runAll(false, 4) }()
	wg.Wait()

	// 2. verdicts
	type bad struct{ key, fn, text, input string }
	var failedObl []bad
	obl, dis := 0, 0
	byKind, bySolver := map[string]int{}, map[string]int{}
	var cex []map[string]any
	seenO := map[string]bool{}
	for _, f := range rep.Funcs {
		for _, o := range f.Obls {
			obl++
			byKind[o.Kind]++
			if o.Status == "unsat" {
				dis++
				bySolver[o.Solver]++
				continue
			}
			k := f.Func + "/" + o.Name
			if o.Cex != nil {
				cex = append(cex, map[string]any{"func": f.Func, "obligation": o.Name, "values": o.Cex})
			}
			if !seenO[k] {
				seenO[k] = true
				failedObl = append(failedObl, bad{key: k, fn: f.Func, text: fmt.Sprintf("%s at %s: solver says %s (%s, %d ms) %s", o.Kind, o.Pos, o.Status, o.Solver, o.Ms, clipS(o.Model, 500))})
			}
		}
	}
	if rep.Error != "" {
		failedObl = append(failedObl, bad{key: "source-does-not-load", text: clipS(rep.Error, 2000)})
	}
	hasContracts := len(propFuncs(cs, *prop)) > 0
	if hasContracts && obl == 0 && rep.Error == "" {
		failedObl = append(failedObl, bad{key: "no-obligations-generated", text: "the contracts of this property produced no obligation"})
	}
	findings := loadFindings(filepath.Join(*verif, "KNOWN_FINDINGS.txt"))
	var viol []bad
	knownHit := map[int]string{}
	judge := func(ds []*driverOut) {
		for _, d := range ds {
			for _, f := range d.Failures {
				hit := false
				for i, k := range findings {
					if k.prop == *prop && k.key == f.Key {
						hit = true
						if knownHit[i] == "" {
							knownHit[i] = f.Input
						}
					}
				}
				if !hit {
					viol = append(viol, bad{f.Key, d.Driver, f.Msg, f.Input})
				}
			}
			if d.state == "crashed" {
				viol = append(viol, bad{"driver-crashed", d.Driver, "the real code took the driver down:\n" + tail(d.log, 5000), ""})
			}
		}
	}
	judge(douts)
	var openObl []bad
	for _, b := range failedObl {
		hit := false
		for i, k := range findings {
			if k.prop == *prop && k.key == b.key {
				hit = true
				knownHit[i] = b.text
			}
		}
		if !hit {
			openObl = append(openObl, b)
		}
	}
	if len(openObl) > 0 && len(viol) == 0 && len(drivers) > 0 && rep.Error == "" {
		// the verifier refused something the drivers saw nothing of: replay its counterexamples, search deeper
		b, _ := json.Marshal(cex)
		os.WriteFile(cexFile, b, 0o644)
		deep := time.Since(t0) < 300*time.Second
		more := runAll(deep, 8)
		for _, m := range more {
			m.Driver += " (deep replay)"
		}
		judge(more)
		douts = append(douts, more...)
	}

	// 3. evidence
	nd := 0
	writeEvidence(*verif, *prop, *tier, seed, rep, obl, dis, byKind, bySolver, douts, time.Since(t0), &nd, len(viol)+len(openObl), knownHit, findings)

	fmt.Printf("%s: %d obligations, %d discharged, %d functions; drivers: %d evaluations; %.1f s\n", *prop, obl, dis, len(rep.Funcs), nd, time.Since(t0).Seconds())
	for _, d := range douts {
		if d.state != "ok" {
			fmt.Printf("driver %s: %s\n%s\n", d.Driver, d.state, tail(d.log, 1500))
		}
	}
	var ki []int
	for i := range knownHit {
		ki = append(ki, i)
	}
	sort.Ints(ki)
	for _, i := range ki {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", *prop, findings[i].text, findings[i].key)
	}
	if len(viol) == 0 && len(openObl) == 0 {
		os.RemoveAll(tmp)
		os.Exit(0)
	}
	rdir := filepath.Join(*verif, "replay")
	os.MkdirAll(rdir, 0o755)
	path := filepath.Join(rdir, *prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s  tier %s  VERIF_SEED=%d\nrerun: cd /verif && VERIF_SEED=%d ./check.sh %s %s\n\n", *prop, *tier, seed, seed, *prop, *tier)
	for i, v := range viol {
		if i >= 20 {
			break
		}
		fmt.Fprintf(&sb, "== failing input %d (driver %s, clause %s)\ninput:\n%s\nobserved:\n%s\n\n", i+1, v.fn, v.key, v.input, v.text)
	}
	for _, o := range openObl {
		fmt.Fprintf(&sb, "== failed obligation %s\n%s\n", o.key, o.text)
		for _, c := range cex {
			if c["func"].(string)+"/"+c["obligation"].(string) == o.key {
				b, _ := json.Marshal(c["values"])
				fmt.Fprintf(&sb, "verifier's counterexample: %s\n", b)
			}
		}
		sb.WriteByte('\n')
	}
	for _, d := range douts {
		if d.state != "ok" {
			fmt.Fprintf(&sb, "== driver %s %s\n%s\n", d.Driver, d.state, tail(d.log, 3000))
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	for i, o := range openObl {
		if i >= 8 {
			break
		}
		fmt.Printf("failed obligation: %s: %s\n", o.key, clipS(o.text, 300))
	}
	for i, v := range viol {
		if i >= 5 {
			break
		}
		fmt.Printf("failing input (%s): %s\n  %s\n", v.key, clipS(v.input, 600), clipS(v.text, 800))
	}
	suffix := ""
	if len(viol) == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, path, suffix)
	os.RemoveAll(tmp)
	os.Exit(1)
}

// proofClosure verifies the property's functions and every contract they rely on.
func proofClosure(cs *Contracts, prop, repo, dir string, ms int) *Report {
	rep := &Report{Prop: prop}
	done := map[string]bool{}
	var todo []*Contract
	for _, c := range propFuncs(cs, prop) {
		todo = append(todo, c)
	}
	// every auto lemma is part of the proof system
	for round := 0; len(todo) > 0 && round < 8; round++ {
		var run []*Contract
		for _, c := range todo {
			if done[c.Func] {
				continue
			}
			done[c.Func] = true
			if c.Inline && len(c.Ensures) == 0 {
				continue
			}
			run = append(run, c)
		}
		if len(run) == 0 {
			break
		}
		r := parallel(run, 8, repo, dir, ms, "./...")
		rep.Funcs = append(rep.Funcs, r.Funcs...)
		rep.SolverMs += r.SolverMs
		rep.Calls += r.Calls
		if r.Error != "" {
			rep.Error = r.Error
			break
		}
		todo = nil
		used := map[string]bool{}
		for _, f := range r.Funcs {
			for _, u := range f.Used {
				used[u] = true
			}
		}
		for _, u := range sortedKeys(used) {
			if c := cs.ByFunc[u]; c != nil && !done[u] {
				todo = append(todo, c)
			}
			if c := cs.Lemmas[strings.TrimPrefix(u, "lemma ")]; c != nil && !done[c.Func] {
				todo = append(todo, c)
			}
		}
	}
	sort.Slice(rep.Funcs, func(i, j int) bool { return rep.Funcs[i].Func < rep.Funcs[j].Func })
	return rep
}

type propMeta struct {
	Level   string   `json:"level"`
	Bounded string   `json:"bounded"`
	Assume  []string `json:"assumptions"`
}

func writeEvidence(verif, prop, tier string, seed int, rep *Report, obl, dis int, byKind, bySolver map[string]int, ds []*driverOut, wall time.Duration, nd *int, violations int, knownHit map[int]string, findings []finding) {
	level, note := manifestLevel(verif, prop)
	cov := map[string]any{}
	var fns []map[string]any
	models, trusted, notes, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, f := range rep.Funcs {
		n, ok := 0, 0
		var mx int64
		for _, o := range f.Obls {
			n++
			if o.Status == "unsat" {
				ok++
			}
			if o.Ms > mx {
				mx = o.Ms
			}
		}
		kind := "function"
		if f.Lemma {
			kind = "lemma"
		}
		if f.Trusted {
			trusted[f.Func] = true
			continue
		}
		fns = append(fns, map[string]any{"name": f.Func, "kind": kind, "at": f.Pos, "obligations": n, "discharged": ok, "slowest_ms": mx, "vacuity": f.Vacuous, "loops": f.Loops})
		for _, m := range f.Models {
			models[m] = true
		}
		for _, m := range f.Notes {
			notes[m] = true
		}
		for _, m := range f.Inlined {
			inl[m] = true
		}
	}
	cov["obligations"] = obl
	cov["discharged"] = dis
	cov["checker_cmd"] = fmt.Sprintf("./check.sh %s %s  (verification conditions from /repo's source by /verif/gover, discharged by z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12)", prop, tier)
	tb := []string{"gover (the condition generator in /verif/gover)", "z3-new", "cvc5", "z3", "go/parser and go/types of the installed Go"}
	for _, m := range sortedKeys(models) {
		tb = append(tb, "model: "+m)
	}
	for _, m := range sortedKeys(trusted) {
		tb = append(tb, "assumed contract: "+m)
	}
	cov["trusted_base"] = tb
	cov["functions_under_contract"] = fns
	cov["inlined_into_callers"] = sortedKeys(inl)
	cov["by_kind"] = byKind
	cov["by_back_end"] = bySolver
	cov["solver_ms"] = rep.SolverMs
	cov["solver_calls"] = rep.Calls
	var bd []map[string]any
	var samples []string
	ev, dn := 0, 0
	var rules []string
	for _, d := range ds {
		ev += d.Evaluations
		dn += d.Distinct
		samples = append(samples, d.Samples...)
		if d.Rule != "" {
			rules = append(rules, d.Driver+": "+d.Rule)
		}
		bd = append(bd, map[string]any{"driver": d.Driver, "state": d.state, "evaluations": d.Evaluations, "distinct_nontrivial": d.Distinct, "bound": d.Rule, "seconds": d.Seconds})
	}
	*nd = ev
	cov["bounded_replay"] = bd
	cov["evaluations"] = ev
	cov["distinct_nontrivial"] = dn
	if len(rules) > 0 {
		cov["rule"] = strings.Join(rules, " | ")
	}
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if len(samples) > 0 {
		cov["samples"] = samples
	}
	cov["explanation"] = note
	ass := []string{
		"integers are mathematical (no 64-bit overflow); strings are sequences of bytes in the SMT string theory",
		"partial correctness: termination is not proved for recursive functions without a decreases clause",
		"slices reachable from parameters or the heap start at offset 0 of their backing array; an interface never holds a typed nil pointer",
		"functions of the standard library that are not modelled are deterministic uninterpreted functions of their scalar arguments",
		"the bounded_replay counts are bounded exploration of the real code, not proof",
	}
	for _, n := range sortedKeys(notes) {
		ass = append(ass, n)
	}
	if len(ass) > 60 {
		ass = append(ass[:60], fmt.Sprintf("… and %d more notes of the same kinds", len(ass)-60))
	}
	var kf []string
	for i := range knownHit {
		kf = append(kf, findings[i].key+": "+findings[i].text)
	}
	sort.Strings(kf)
	if len(kf) > 0 {
		cov["known_findings"] = kf
	}
	e := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass, "wall_s": float64(int(wall.Seconds()*10)) / 10, "violations": violations}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

func manifestLevel(verif, prop string) (string, string) {
	b, _ := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	var m struct {
		Checks []struct{ Property, Level, Level_note string }
	}
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level, c.Level_note
		}
	}
	return "other", ""
}
