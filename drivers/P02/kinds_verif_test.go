//pkg: buildifier/utils

// Bounded replay driver of P02: file kinds from names, over names assembled from the significant pieces.
package utils_test

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/utils"
	vlib "github.com/bazelbuild/buildtools/zz_vlib"
)

func last(b string, sep byte) (string, string, bool) {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == sep {
			return b[:i], b[i+1:], true
		}
	}
	return b, "", false
}

func named(b, k string) bool {
	return b == k || strings.HasPrefix(b, k+".") || strings.HasSuffix(b, "."+k)
}

func kind(name string) build.FileType {
	if name == "" {
		return build.TypeDefault
	}
	b := strings.ToLower(filepath.Base(name))
	b = strings.TrimSuffix(b, ".oss")
	_, ext, _ := last(b, '.')
	switch {
	case b == "module.bazel" || strings.HasSuffix(b, ".module.bazel"):
		return build.TypeModule
	case strings.Contains(b, ".") && ext == "bzl":
		return build.TypeBzl
	case strings.Contains(b, ".") && ext == "sky":
		return build.TypeDefault
	case named(b, "build"):
		return build.TypeBuild
	case named(b, "workspace"):
		return build.TypeWorkspace
	}
	return build.TypeDefault
}

func starlark(n string) bool {
	for _, s := range []string{".bzl", ".sky", ".star"} {
		if strings.HasSuffix(n, s) {
			return true
		}
	}
	if strings.HasSuffix(n, ".bazel") || strings.HasSuffix(n, ".oss") {
		for _, k := range []string{"BUILD.", "WORKSPACE.", "MODULE."} {
			if strings.HasPrefix(n, k) {
				return true
			}
		}
	}
	return n == "BUILD" || n == "WORKSPACE"
}

var atoms = []string{".", "BUILD", "build", "WORKSPACE", "workspace", "MODULE", "module", "bazel", "bzl", "sky", "oss", "star", "x", "/", "Build", "OSS", ".Bzl"}

func TestVerifKinds(t *testing.T) {
	r := vlib.New(t, "kinds", "every name of at most 4 (thorough 5) pieces out of 17; every parser choice; non-trivial: not seen before")
	defer r.Done()
	vlib.Strings(atoms, vlib.N(4, 5), func(name string) bool {
		r.Case("kind", name, func() string {
			f, err := build.Parse(name, nil)
			if err != nil {
				return err.Error()
			}
			if f.Type != kind(name) {
				return fmt.Sprintf("%q is taken for a %v file, want %v", name, f.Type, kind(name))
			}
			return ""
		})
		return !r.Expired() && !r.TooMany()
	})
	for _, name := range []string{"", "BUILD", "x.bzl", "WORKSPACE", "MODULE.bazel", "x"} {
		for s, want := range map[string]build.FileType{"build": build.TypeBuild, "bzl": build.TypeBzl, "workspace": build.TypeWorkspace, "module": build.TypeModule, "default": build.TypeDefault, "auto": kind(name), "": build.TypeDefault, "other": build.TypeDefault} {
			r.Case("parser", s+" "+name, func() string {
				for _, text := range []string{"", "x = 1\n", "foo(name = \"a\")\n"} {
					f, err := utils.GetParser(s)(name, []byte(text))
					if err != nil || f.Type != want || f.Path != name {
						return fmt.Sprintf("the %q parser marks %q (path %q) as %v, want %v (%v)", s, name, f.Path, f.Type, want, err)
					}
				}
				return ""
			})
		}
	}
}

func TestVerifExpand(t *testing.T) {
	r := vlib.New(t, "expand", "directories (made in a scratch folder) holding files named by at most 4 (thorough 5) pieces; non-trivial: not seen before")
	defer r.Done()
	var names []string
	vlib.Strings(atoms, vlib.N(4, 5), func(n string) bool {
		if n != "" && n != "." && n != ".." && !strings.Contains(n, "/") {
			names = append(names, n)
		}
		return true
	})
	const chunk = 2000
	r.Rand.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for k := 0; k < len(names) && k < vlib.N(20, 200)*chunk && !r.Expired(); k += chunk {
		end := k + chunk
		if end > len(names) {
			end = len(names)
		}
		dir := t.TempDir()
		var want []string
		for i, n := range names[k:end] {
			d := filepath.Join(dir, []string{"", "a", "a/b", "BUILD", ".git", "c/.git", ".github", "x.bzl"}[i%8])
			os.MkdirAll(d, 0o755)
			p := filepath.Join(d, n)
			if _, err := os.Lstat(p); err == nil {
				continue
			}
			if os.WriteFile(p, nil, 0o644) != nil {
				continue
			}
			if starlark(n) && !strings.Contains(p, "/.git/") {
				want = append(want, p)
			}
		}
		single := filepath.Join(dir, "zz_no_starlark_name")
		os.WriteFile(single, nil, 0o644)
		r.Case("expand", strings.Join(names[k:end], " "), func() string {
			got, err := utils.ExpandDirectories(&[]string{single, dir})
			if err != nil || len(got) == 0 || got[0] != single {
				return fmt.Sprintf("a named file is not kept first: %v", err)
			}
			got = got[1:]
			sort.Strings(got)
			sort.Strings(want)
			for i := 0; i < len(got) || i < len(want); i++ {
				if i >= len(want) || i < len(got) && got[i] < want[i] {
					return fmt.Sprintf("%q is expanded although it is no Starlark file", got[i])
				}
				if i >= len(got) || got[i] > want[i] {
					return fmt.Sprintf("%q is missing", want[i])
				}
			}
			return ""
		})
		os.RemoveAll(dir)
	}
}
