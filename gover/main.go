package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
)

type Report struct {
	Prop     string        `json:"property"`
	Funcs    []*FuncReport `json:"functions"`
	SolverMs int64         `json:"solver_ms"`
	Calls    int64         `json:"solver_calls"`
	Error    string        `json:"error,omitempty"`
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		checkMain(os.Args[2:])
		return
	}
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id")
	fn := flag.String("func", "", "comma-separated functions")
	out := flag.String("json", "", "report file")
	j := flag.Int("j", 1, "worker processes")
	ms := flag.Int("ms", 10000, "solver timeout per obligation")
	v := flag.Bool("v", false, "list obligations")
	patterns := flag.String("patterns", "./...", "")
	flag.Parse()
	cs, err := LoadContracts(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(2)
	}
	var todo []*Contract
	for _, c := range propFuncs(cs, *prop) {
		if *fn != "" && !contains(strings.Split(*fn, ","), c.Func) {
			continue
		}
		if c.Inline && len(c.Ensures) == 0 {
			continue
		}
		todo = append(todo, c)
	}
	rep := &Report{Prop: *prop}
	if *j > 1 && len(todo) > 1 {
		rep = parallel(todo, *j, *repo, *dir, *ms, *patterns)
		rep.Prop = *prop
	} else {
		w, err := Load(*repo, strings.Split(*patterns, ","))
		if err != nil {
			rep.Error = err.Error()
			fmt.Fprintln(os.Stderr, err)
		} else {
			for _, c := range todo {
				rep.Funcs = append(rep.Funcs, verify(w, cs, c, *ms))
			}
		}
		rep.SolverMs, rep.Calls = solverMs, solverCalls
	}
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	bad := 0
	for _, f := range rep.Funcs {
		n, ok := 0, 0
		for _, o := range f.Obls {
			n++
			if o.Status == "unsat" {
				ok++
			} else {
				bad++
			}
		}
		st := "ok"
		if ok < n {
			st = "FAIL"
		}
		fmt.Printf("%-4s %-45s %d/%d obligations  %dms %s\n", st, f.Func, ok, n, f.WallMs, f.Error)
		for _, o := range f.Obls {
			if *v || o.Status != "unsat" {
				fmt.Printf("      %-8s %-12s %-40s %s %s %dms %s\n", o.Status, o.Kind, o.Name, o.Pos, o.Solver, o.Ms, firstLine(o.Model))
			}
		}
	}
	if bad > 0 || rep.Error != "" {
		os.Exit(1)
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// parallel spreads the functions over worker processes (the term table is per process).
func parallel(todo []*Contract, j int, repo, dir string, ms int, patterns string) *Report {
	rep := &Report{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan *Contract)
	if j > len(todo) {
		j = len(todo)
	}
	self, _ := os.Executable()
	// round-robin batches, heaviest (declared timeout) first is not known: use small batches
	batch := 1 + len(todo)/(j*3)
	var batches [][]string
	for i := 0; i < len(todo); i += batch {
		var b []string
		for k := i; k < i+batch && k < len(todo); k++ {
			b = append(b, todo[k].Func)
		}
		batches = append(batches, b)
	}
	close(ch)
	bch := make(chan []string, len(batches))
	for _, b := range batches {
		bch <- b
	}
	close(bch)
	for i := 0; i < j; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for b := range bch {
				f, err := os.CreateTemp("", "gover*.json")
				if err != nil {
					continue
				}
				f.Close()
				cmd := exec.Command(self, "-repo", repo, "-contracts", dir, "-func", strings.Join(b, ","), "-json", f.Name(), "-ms", fmt.Sprint(ms), "-patterns", patterns)
				o, _ := cmd.CombinedOutput()
				data, _ := os.ReadFile(f.Name())
				os.Remove(f.Name())
				var r Report
				if json.Unmarshal(data, &r) != nil {
					r.Error = "worker failed: " + string(o)
				}
				mu.Lock()
				rep.Funcs = append(rep.Funcs, r.Funcs...)
				rep.SolverMs += r.SolverMs
				rep.Calls += r.Calls
				if r.Error != "" {
					rep.Error = r.Error
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	sort.Slice(rep.Funcs, func(a, b int) bool { return rep.Funcs[a].Func < rep.Funcs[b].Func })
	return rep
}
