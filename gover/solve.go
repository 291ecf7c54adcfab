package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Ms     int64
	Model  string
}

var sem = make(chan bool, 8)
var solverMs int64
var solverCalls int64
var solverWins sync.Map

// runSolver runs a solver with a limit on its processor time (the limits on elapsed time are several times
// that, so that a loaded machine does not change the answers).
func runSolver(ctx context.Context, name string, ms int, args []string, query string) (string, error) {
	if prlimit {
		args = append([]string{fmt.Sprintf("--cpu=%d", (ms+999)/1000), name}, args...)
		name = "prlimit"
	}
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(query)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	return out.String(), err
}

var prlimit = func() bool { _, err := exec.LookPath("prlimit"); return err == nil }()

const wallFactor = 6

func first(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			return l
		}
	}
	if strings.Contains(s, "error") {
		return "error"
	}
	return "unknown"
}

type strat struct {
	name string
	args func(ms int) []string
	pre  string
}

var strategies = map[string]strat{
	"z3-new": {"z3-new", func(ms int) []string { return []string{"-in", fmt.Sprintf("-T:%d", (ms+999)/1000)} }, ""},
	"z3":     {"z3", func(ms int) []string { return []string{"-in", fmt.Sprintf("-T:%d", (ms+999)/1000)} }, ""},
	"cvc5": {"cvc5", func(ms int) []string {
		return []string{"--strings-exp", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}
	}, "(set-logic ALL)\n"},
	"cvc5-enum": {"cvc5", func(ms int) []string {
		return []string{"--strings-exp", "--enum-inst", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}
	}, "(set-logic ALL)\n"},
}

var debugDir = os.Getenv("GOVER_DEBUG")
var dbgN int64

// Solve checks satisfiability of the query, racing the given strategies.
func Solve(query string, ms int, strats []string, wantModel bool) Result {
	t0 := time.Now()
	atomic.AddInt64(&solverCalls, 1)
	if debugDir != "" {
		n := atomic.AddInt64(&dbgN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", debugDir, n), []byte(query+"(check-sat)\n"), 0o644)
	}
	sem <- true
	defer func() { <-sem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(wallFactor*(ms+2000))*time.Millisecond)
	defer cancel()
	res := Result{Status: "unknown"}
	// stage 1: first strategy alone for a short time, then race.
	try := func(names []string, ms int) Result {
		cctx, cc := context.WithCancel(ctx)
		defer cc()
		ch := make(chan Result, len(names))
		for _, n := range names {
			go func(n string) {
				s := strategies[n]
				q := s.pre + query + "(check-sat)\n"
				if wantModel {
					q = "(set-option :produce-models true)\n" + q + "(get-model)\n"
				}
				o, _ := runSolver(cctx, s.name, ms, s.args(wallFactor*ms), q)
				st := first(o)
				r := Result{Status: st, Solver: n}
				if st == "sat" && wantModel {
					r.Model = o
				}
				if st == "error" {
					r.Model = o
				}
				ch <- r
			}(n)
		}
		var last Result
		for range names {
			r := <-ch
			if r.Status == "unsat" || r.Status == "sat" {
				return r
			}
			if last.Status != "error" {
				last = r
			}
		}
		return last
	}
	if len(strats) > 1 && ms > 1500 {
		res = try(strats[:1], 1500)
		if res.Status != "unsat" && res.Status != "sat" {
			res = try(strats, ms)
		}
	} else {
		res = try(strats, ms)
	}
	res.Ms = time.Since(t0).Milliseconds()
	atomic.AddInt64(&solverMs, res.Ms)
	return res
}
