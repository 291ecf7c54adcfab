//pkg: buildifier

// Bounded replay driver of P12: whole runs of the tool over scratch directories, in every mode, against a model of
// what each mode may change, print and return.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/differ"
	"github.com/bazelbuild/buildtools/warn"
	vgen "github.com/bazelbuild/buildtools/zz_vgen"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

type outcome struct {
	code           int
	stdout, stderr string
	usage          error
}

// tool runs the tool in this process, with its three streams redirected to files of the scratch directory.
func tool(scratch, stdin string, args []string) outcome {
	var o outcome
	c := config.New()
	fs := c.FlagSet("buildifier", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	if o.usage = fs.Parse(args); o.usage != nil {
		return o
	}
	if o.usage = c.Validate(fs.Args()); o.usage != nil {
		return o
	}
	in, out, errs := filepath.Join(scratch, "in"), filepath.Join(scratch, "out"), filepath.Join(scratch, "err")
	os.WriteFile(in, []byte(stdin), 0600)
	fi, _ := os.Open(in)
	fo, _ := os.Create(out)
	fe, _ := os.Create(errs)
	si, so, se := os.Stdin, os.Stdout, os.Stderr
	os.Stdin, os.Stdout, os.Stderr = fi, fo, fe
	func() {
		defer func() { os.Stdin, os.Stdout, os.Stderr = si, so, se; fi.Close(); fo.Close(); fe.Close() }()
		b := buildifier{c, &differ.Differ{Cmd: "diff -u"}}
		o.code = b.run(fs.Args())
	}()
	bo, _ := os.ReadFile(out)
	be, _ := os.ReadFile(errs)
	o.stdout, o.stderr = string(bo), string(be)
	return o
}

// expect is what one file should come to.
type expect struct {
	name      string
	data      string
	exists    bool
	valid     bool
	formatted string
	findings  []string
}

var old = time.Unix(1000000000, 0)

func model(name, data, lint string, exists bool, cats []string) expect {
	e := expect{name: name, data: data, exists: exists}
	f, err := build.Parse(name, []byte(data))
	if err != nil || !exists {
		return e
	}
	e.valid = true
	switch lint {
	case "warn":
		for _, w := range warn.FileWarnings(f, cats, nil, warn.ModeWarn, nil) {
			e.findings = append(e.findings, fmt.Sprintf("%d %s %s", w.Start.Line, w.Category, w.Message))
		}
	case "fix":
		warn.FixWarnings(f, cats, false, nil)
	}
	e.formatted = string(build.Format(f))
	return e
}

func (e expect) code(mode string) int {
	differs := e.formatted != e.data
	switch {
	case !e.exists:
		return 3
	case !e.valid:
		return 1
	case differs && (mode == "check" || mode == "diff"):
		return 4
	case len(e.findings) > 0:
		return 4
	}
	return 0
}

type report struct {
	Success bool
	Files   []struct {
		Filename         string
		Formatted, Valid bool
		Warnings         []struct {
			Start             struct{ Line, Column int }
			Category, Message string
			AutoFixable       bool
		}
	}
}

func contents(r *vlib.R, g vgen.G) string {
	switch r.Rand.Intn(9) {
	case 0:
		return ""
	case 1:
		return "x = [\n"
	case 2:
		return "foo(name = \"a\", deps = [\":b\",\":a\"])\n"
	case 3:
		return "load(\"//a:b.bzl\", \"unused\")\nx = 1/2\n"
	case 4:
		return "a = 1\nb = 2" // no newline at the end
	case 5:
		return "x = 1\r\ny = 2\r\n"
	case 6:
		if f, err := build.ParseBuild("BUILD", []byte(g.BuildFile())); err == nil {
			return string(build.Format(f))
		}
		return "x = 1\n"
	case 7:
		return g.BzlFile()
	}
	return g.BuildFile()
}

// tree is the state of a directory: names, contents and modification times.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			out[p] = fmt.Sprint(i.ModTime().Equal(old), "|", string(b))
		}
		return nil
	})
	return out
}

func TestVerifTool(t *testing.T) {
	r := vlib.New(t, "tool", "every mode changes, prints and returns exactly what it says")
	defer r.Done()
	g := vgen.G{R: r.Rand}
	base := t.TempDir()
	tmp := filepath.Join(base, "tmp")
	os.Mkdir(tmp, 0700)
	t.Setenv("TMPDIR", tmp)
	cats := []string{"load", "integer-division", "unused-variable", "module-docstring", "duplicated-name", "unsorted-dict-items", "constant-glob"}
	n := vlib.N(1500, 20000)
	for k := 0; k < n && !r.Expired() && !r.TooMany(); k++ {
		mode := r.Pick("check", "diff", "fix", "print_if_changed")
		lint := r.Pick("off", "off", "warn")
		if mode == "fix" {
			lint = r.Pick("off", "warn", "fix")
		}
		format := ""
		if mode == "check" {
			format = r.Pick("", "text", "json", "json")
		}
		count := 1 + r.Rand.Intn(4)
		if r.Rand.Intn(25) == 0 {
			count = 10 + r.Rand.Intn(30) // several readers
		}
		if mode == "print_if_changed" {
			count = 1
		}
		fromStdin := r.Rand.Intn(5) == 0
		dir := filepath.Join(base, fmt.Sprintf("w%d", k))
		os.Mkdir(dir, 0700)
		var files []expect
		var args []string
		stdin := ""
		if fromStdin {
			stdin = contents(r, g)
			files = []expect{model("", stdin, lint, true, cats)}
			if r.Rand.Intn(2) == 0 {
				args = []string{"-"}
			}
		} else {
			for i := 0; i < count; i++ {
				name := filepath.Join(dir, fmt.Sprintf("d%d_%s", i, r.Pick("BUILD", "BUILD.bazel", "x.bzl", "WORKSPACE", "y.star")))
				if r.Rand.Intn(2) == 0 {
					os.Mkdir(filepath.Join(dir, fmt.Sprint(i)), 0700)
					name = filepath.Join(dir, fmt.Sprint(i), r.Pick("BUILD", "BUILD.bazel", "x.bzl", "MODULE.bazel"))
				}
				data := contents(r, g)
				exists := r.Rand.Intn(12) != 0
				files = append(files, model(name, data, lint, exists, cats))
				if exists {
					os.WriteFile(name, []byte(data), 0644)
					os.Chtimes(name, old, old)
				}
				args = append(args, name)
			}
		}
		bystander := filepath.Join(dir, "bystander.bzl")
		os.WriteFile(bystander, []byte("x=1"), 0644)
		os.Chtimes(bystander, old, old)
		flags := []string{"-mode=" + mode, "-lint=" + lint, "-warnings=" + strings.Join(cats, ",")}
		if format != "" {
			flags = append(flags, "-format="+format)
		}
		if r.Rand.Intn(4) == 0 {
			flags = append(flags, "-v")
		}
		desc := strings.Join(flags, " ")
		for _, e := range files {
			desc += fmt.Sprintf("\n--- %q exists=%v\n%s", strings.TrimPrefix(e.name, dir), e.exists, e.data)
		}
		r.Case(mode, desc, func() string {
			o := tool(base, stdin, append(append([]string{}, flags...), args...))
			if o.usage != nil {
				return fmt.Sprint("usage error ", o.usage)
			}
			// what is on disk
			got := tree(dir)
			want := map[string]string{bystander: "true|x=1"}
			for _, e := range files {
				if !e.exists || e.name == "" {
					continue
				}
				want[e.name] = "true|" + e.data
				if mode == "fix" && e.valid && e.formatted != e.data {
					want[e.name] = "false|" + e.formatted
				}
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("on disk\n%q\nwant\n%q", got, want)
			}
			if left, _ := os.ReadDir(tmp); len(left) > 0 {
				return "temporary files were left"
			}
			// the exit code
			codes := map[int]bool{}
			for _, e := range files {
				if c := e.code(mode); c != 0 {
					codes[c] = true
				}
			}
			switch {
			case format != "":
				if o.code != 0 {
					return fmt.Sprint("exit code ", o.code, " with -format")
				}
			case len(codes) == 0 && o.code != 0 || len(codes) > 0 && !codes[o.code]:
				return fmt.Sprint("exit code ", o.code, " want one of ", codes)
			}
			// the standard output
			switch {
			case format != "":
			case fromStdin && mode == "fix":
				w := ""
				if files[0].valid {
					w = files[0].formatted
				}
				if o.stdout != w {
					return fmt.Sprintf("printed %q want %q", o.stdout, w)
				}
			case mode == "print_if_changed":
				w := ""
				if e := files[0]; e.valid && e.formatted != e.data {
					w = e.formatted
				}
				if o.stdout != w {
					return fmt.Sprintf("printed %q want %q", o.stdout, w)
				}
			case mode == "diff":
				any := false
				for _, e := range files {
					any = any || e.valid && e.formatted != e.data
				}
				if any != (o.stdout != "") {
					return fmt.Sprintf("a difference was shown: %v, want %v", o.stdout != "", any)
				}
				for _, e := range files {
					if e.valid && e.formatted != e.data && e.name != "" && !strings.Contains(o.stdout, e.name) {
						return "no difference was shown for " + e.name
					}
				}
			default:
				if o.stdout != "" {
					return fmt.Sprintf("printed %q", o.stdout)
				}
			}
			// the report
			ok := true
			var lines []string
			var reported []expect
			for _, e := range files {
				if !e.exists {
					continue
				}
				if e.name == "" {
					e.name = "<stdin>"
				}
				reported = append(reported, e)
				for _, w := range e.findings {
					p := strings.SplitN(w, " ", 3)
					lines = append(lines, fmt.Sprintf("%s:%s: %s: %s", e.name, p[0], p[1], p[2]))
				}
				if !e.valid || mode == "check" && e.formatted != e.data {
					lines = append(lines, e.name+" # reformat")
				}
				ok = ok && e.valid && len(e.findings) == 0 && !(mode == "check" && e.formatted != e.data)
			}
			if format == "json" {
				var d report
				if err := json.Unmarshal([]byte(o.stdout), &d); err != nil {
					return "not JSON: " + err.Error()
				}
				if d.Success != ok {
					return fmt.Sprint("success: ", d.Success, " want ", ok)
				}
				if len(d.Files) != len(reported) {
					return fmt.Sprint(len(d.Files), " files reported, want ", len(reported))
				}
				for i, e := range reported {
					f := d.Files[i]
					var fs []string
					for _, w := range f.Warnings {
						fs = append(fs, fmt.Sprintf("%d %s %s", w.Start.Line, w.Category, w.Message))
					}
					if f.Filename != e.name || f.Valid != e.valid || f.Formatted != (e.valid && e.formatted == e.data) || !reflect.DeepEqual(fs, e.findings) {
						return fmt.Sprintf("reported %+v for %+v", f, e)
					}
				}
				return ""
			}
			text := o.stderr
			if format == "text" {
				text = o.stdout
			}
			rest := text
			for _, l := range lines {
				i := strings.Index(rest, l)
				if i < 0 {
					return fmt.Sprintf("not reported (in order): %s\nreport:\n%s", l, text)
				}
				rest = rest[i+len(l):]
			}
			if c := strings.Count(text, " # reformat\n"); c != strings.Count(strings.Join(lines, "\n")+"\n", " # reformat\n") {
				return fmt.Sprint(c, " files are reported as not formatted, in\n", text)
			}
			return ""
		})
		os.RemoveAll(dir)
	}
}

// TestVerifExpand: with -r a directory stands for the Starlark files below it.
func TestVerifExpand(t *testing.T) {
	r := vlib.New(t, "expand", "-r processes exactly the Starlark files below the directories and the files named")
	defer r.Done()
	base := t.TempDir()
	names := map[string]bool{"BUILD": true, "WORKSPACE": true, "BUILD.bazel": true, "WORKSPACE.bazel": true, "MODULE.bazel": true, "BUILD.oss": true, "BUILD.foo.bazel": true,
		"WORKSPACE.oss": true, "a.bzl": true, "a.sky": true, "a.star": true, "a.txt": false, "a.bazel": false, "BUILDER": false, "a.BUILD": false, "MODULE": false, "a.bzl.orig": false, "bzl": false, "build": false}
	all := vlib.SortedKeys(names)
	n := vlib.N(60, 1500)
	for k := 0; k < n && !r.Expired() && !r.TooMany(); k++ {
		dir := filepath.Join(base, fmt.Sprint(k))
		var want []string
		list := ""
		for _, d := range []string{"", "x", "x/y", ".git", "x/.git/z", ".gitx", "BUILD.d/BUILD"} {
			os.MkdirAll(filepath.Join(dir, d), 0700)
			for i := 0; i < 3; i++ {
				f := r.Pick(all...)
				if i == 2 && d != ".git" && !strings.HasSuffix(d, "/.git") && r.Rand.Intn(3) == 0 {
					f = ".git" // a file, as in worktrees
				}
				p := filepath.Join(dir, d, f)
				if _, err := os.Stat(p); err == nil {
					continue
				}
				os.WriteFile(p, []byte("x=1\n"), 0644)
				list += d + "/" + f + " "
				if names[f] && !strings.HasSuffix(d, ".git") && !strings.Contains(d, ".git/") {
					want = append(want, p)
				}
			}
		}
		extra := filepath.Join(base, fmt.Sprint(k, ".txt")) // named: taken whatever its name is
		os.WriteFile(extra, []byte("x=1\n"), 0644)
		want = append(want, extra)
		sort.Strings(want)
		r.Case("expand", list, func() string {
			o := tool(base, "", []string{"-r", dir, extra})
			if o.code != 0 || o.usage != nil {
				return fmt.Sprint("exit code ", o.code, o.usage)
			}
			var got []string
			filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
				if err == nil && !i.IsDir() && (strings.HasPrefix(p, dir+"/") || p == extra) {
					if b, _ := os.ReadFile(p); bytes.Equal(b, []byte("x = 1\n")) {
						got = append(got, p)
					}
				}
				return nil
			})
			sort.Strings(got)
			if !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("formatted %q want %q", got, want)
			}
			return ""
		})
		os.RemoveAll(dir)
	}
}

// TestVerifFull: output that cannot be written is an error.
func TestVerifFull(t *testing.T) {
	r := vlib.New(t, "full", "output that cannot be written is reported as an error")
	defer r.Done()
	dir := t.TempDir()
	for _, mode := range []string{"fix", "print_if_changed", "check"} {
		for _, data := range []string{"x=1\n", "x = 1\n"} {
			for _, fromStdin := range []bool{true, false} {
				r.Case("full", fmt.Sprintf("-mode=%s stdin=%v %q", mode, fromStdin, data), func() string {
					full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					if err != nil {
						return ""
					}
					defer full.Close()
					in := filepath.Join(dir, "in.bzl")
					os.WriteFile(in, []byte(data), 0600)
					fi, _ := os.Open(in)
					defer fi.Close()
					c := config.New()
					c.Mode = mode
					args := []string{}
					if !fromStdin {
						args = []string{in}
					}
					if err := c.Validate(args); err != nil {
						return err.Error()
					}
					si, so, se := os.Stdin, os.Stdout, os.Stderr
					fe, _ := os.Create(filepath.Join(dir, "err"))
					defer fe.Close()
					os.Stdin, os.Stdout, os.Stderr = fi, full, fe
					code := (&buildifier{c, &differ.Differ{Cmd: "diff -u"}}).run(args)
					os.Stdin, os.Stdout, os.Stderr = si, so, se
					want := 0
					switch {
					case mode == "check" && data == "x=1\n":
						want = 4
					case mode == "print_if_changed" && data == "x=1\n" || mode == "fix" && fromStdin:
						want = 3
					}
					if code != want {
						return fmt.Sprint("exit code ", code, " want ", want)
					}
					return ""
				})
			}
		}
	}
}

// TestVerifUsage: which flag values are accepted together.
func TestVerifUsage(t *testing.T) {
	r := vlib.New(t, "usage", "modes, lint modes and formats are accepted exactly in the documented combinations")
	defer r.Done()
	modes := []string{"", "check", "diff", "fix", "print_if_changed", "pipe", "x"}
	for _, mode := range modes {
		for _, lint := range []string{"", "off", "warn", "fix", "y"} {
			for _, format := range []string{"", "text", "json", "z"} {
				for _, d := range []bool{false, true} {
					for _, args := range [][]string{nil, {"a"}, {"a", "b"}} {
						in := fmt.Sprintf("mode=%q lint=%q format=%q d=%v args=%q", mode, lint, format, d, args)
						r.Case("usage", in, func() string {
							c := config.New()
							c.Mode, c.Lint, c.Format, c.DiffMode = mode, lint, format, d
							err := c.Validate(args)
							m := mode
							if d {
								m = "diff"
							} else if m == "" {
								m = "fix"
							}
							l := lint
							if l == "" {
								l = "off"
							}
							ok := (m == "check" || m == "diff" || m == "fix" || m == "print_if_changed") && !(d && mode != "") &&
								(l == "off" || l == "warn" || l == "fix" && m == "fix") &&
								(format == "" || (format == "text" || format == "json") && mode == "check") && !(m == "print_if_changed" && len(args) > 1)
							if ok != (err == nil) {
								return fmt.Sprintf("accepted: %v (%v)", err == nil, err)
							}
							if ok && (c.Mode != m || c.Lint != l) {
								return fmt.Sprintf("mode %q lint %q, want %q %q", c.Mode, c.Lint, m, l)
							}
							return ""
						})
					}
				}
			}
		}
	}
}
