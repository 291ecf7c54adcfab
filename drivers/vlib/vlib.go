// Package vlib is the harness library of the replay drivers. It is compiled into /repo's module through an
// overlay (never written there) and imports nothing from the repository.
package vlib

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type Failure struct {
	Key   string `json:"key"`   // stable name of the violated clause (+ the specific input class)
	Input string `json:"input"` // the failing input
	Msg   string `json:"msg"`   // what was observed against what the property demands
}

type Out struct {
	Driver      string    `json:"driver"`
	Evaluations int       `json:"evaluations"`
	Distinct    int       `json:"distinct_nontrivial"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Failures    []Failure `json:"failures"`
	Seconds     float64   `json:"seconds"`
}

type R struct {
	mu      sync.Mutex
	out     Out
	t       *testing.T
	Rand    *rand.Rand
	start   time.Time
	budget  time.Duration
	seen    map[string]bool
	cur     string
	curAt   time.Time
	failKey map[string]int
	done    bool
}

func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if n == 0 {
		n = 1
	}
	return n
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" || os.Getenv("VERIF_DEEP") != "" }

// N picks an iteration count for the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// New starts a driver. rule says how cases are made and when one is non-trivial.
func New(t *testing.T, name, rule string) *R {
	r := &R{t: t, Rand: rand.New(rand.NewSource(Seed())), start: time.Now(), seen: map[string]bool{}, failKey: map[string]int{}}
	r.out.Driver, r.out.Rule = name, rule
	r.budget = 60 * time.Second
	if Thorough() {
		r.budget = 300 * time.Second
	}
	go r.watch()
	return r
}

// Budget overrides the time budget of the tiers (seconds).
func (r *R) Budget(quick, thorough int) {
	r.budget = time.Duration(quick) * time.Second
	if Thorough() {
		r.budget = time.Duration(thorough) * time.Second
	}
}

func (r *R) watch() {
	for {
		time.Sleep(time.Second)
		r.mu.Lock()
		if r.done {
			r.mu.Unlock()
			return
		}
		if r.cur != "" && time.Since(r.curAt) > 90*time.Second {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			r.out.Failures = append(r.out.Failures, Failure{"does-not-terminate", r.cur, "no result after 90 s\n" + clip(string(buf[:n]), 6000)})
			r.write()
			os.Exit(3)
		}
		r.mu.Unlock()
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Expired reports whether the time budget is used up.
func (r *R) Expired() bool { return time.Since(r.start) > r.budget }

// Case runs one case; f returns "" when the property held. A panic is a failure.
func (r *R) Case(key, input string, f func() string) bool {
	r.mu.Lock()
	r.out.Evaluations++
	if !r.seen[input] {
		if len(r.seen) < 2000000 {
			r.seen[input] = true
		}
		r.out.Distinct++
		if d := r.out.Distinct; len(r.out.Samples) < 6 && (d == 1 || d == 10 || d == 100 || d == 1000 || d == 10000 || d == 100000) {
			r.out.Samples = append(r.out.Samples, clip(input, 600))
		}
	}
	r.cur, r.curAt = clip(input, 4000), time.Now()
	r.mu.Unlock()
	msg := func() (m string) {
		defer func() {
			if e := recover(); e != nil {
				m = fmt.Sprintf("panic: %v\n%s", e, clip(string(debug.Stack()), 3000))
			}
		}()
		return f()
	}()
	r.mu.Lock()
	r.cur = ""
	r.mu.Unlock()
	if msg != "" {
		r.Fail(key, input, msg)
		return false
	}
	return true
}

// Fail records a violation (at most three per key).
func (r *R) Fail(key, input, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.failKey[key]++
	if r.failKey[key] <= 3 && len(r.out.Failures) < 60 {
		r.out.Failures = append(r.out.Failures, Failure{key, input, clip(msg, 4000)})
	}
}

func (r *R) Failed() bool { return len(r.out.Failures) > 0 }

// TooMany says that going on is pointless (every key already has its examples).
func (r *R) TooMany() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, c := range r.failKey {
		n += c
	}
	return n > 2000
}

func (r *R) write() {
	r.out.Seconds = time.Since(r.start).Seconds()
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		return
	}
	b, _ := json.MarshalIndent(r.out, "", " ")
	os.WriteFile(filepath.Join(dir, strings.ReplaceAll(r.out.Driver, "/", "_")+".json"), b, 0o644)
}

// Done finishes the driver.
func (r *R) Done() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.done = true
	r.write()
	for _, f := range r.out.Failures {
		r.t.Logf("%s\ninput: %s\n%s", f.Key, f.Input, f.Msg)
	}
	if os.Getenv("VERIF_OUT") == "" && len(r.out.Failures) > 0 {
		r.t.Fail()
	}
	r.t.Logf("%s: %d evaluations, %d distinct, %.1fs", r.out.Driver, r.out.Evaluations, r.out.Distinct, r.out.Seconds)
}

// Cex returns the verifier's counterexamples for a function (parameter -> value).
func Cex(fn string) []map[string]string {
	b, err := os.ReadFile(os.Getenv("VERIF_CEX"))
	if err != nil {
		return nil
	}
	var all []struct {
		Func   string            `json:"func"`
		Values map[string]string `json:"values"`
	}
	json.Unmarshal(b, &all)
	var out []map[string]string
	for _, c := range all {
		if c.Func == fn {
			out = append(out, c.Values)
		}
	}
	return out
}

// Strings enumerates every string over the alphabet up to the length, shortest first.
func Strings(alphabet []string, max int, f func(string) bool) {
	cur := []string{""}
	for l := 0; l <= max; l++ {
		for _, s := range cur {
			if !f(s) {
				return
			}
		}
		if l == max {
			return
		}
		var nx []string
		for _, s := range cur {
			for _, a := range alphabet {
				nx = append(nx, s+a)
			}
		}
		cur = nx
	}
}

// Word makes a random string of at most n atoms.
func (r *R) Word(alphabet []string, n int) string {
	var sb strings.Builder
	for k := r.Rand.Intn(n + 1); k > 0; k-- {
		sb.WriteString(alphabet[r.Rand.Intn(len(alphabet))])
	}
	return sb.String()
}

func (r *R) Pick(xs ...string) string { return xs[r.Rand.Intn(len(xs))] }

func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
