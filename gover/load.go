package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const modPath = "github.com/bazelbuild/buildtools"

type Pkg struct {
	Path  string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
}

type FuncDecl struct {
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
	Name string // build.quote, labels.Label.Format, build.Rule.SetAttr
	// for a function literal: build.fixLabels.joinLabel (assigned to a variable) or build.sortCallArgs#1
	Lit   *ast.FuncLit
	Outer *FuncDecl
}

type World struct {
	Fset   *token.FileSet
	Pkgs   map[string]*Pkg
	Funcs  map[*types.Func]*FuncDecl
	ByName map[string]*FuncDecl
	Tags   map[string]int            // named type -> typeof tag
	Vars   map[types.Object]ast.Expr // package-level var initialisers
	VarPkg map[types.Object]*Pkg
	mut    map[types.Object]bool
	Broken []string // packages that do not typecheck (their functions cannot be verified)
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
}

func shortPkg(path string) string {
	if strings.HasPrefix(path, modPath+"/") {
		return path[strings.LastIndex(path, "/")+1:]
	}
	return path
}

func funcName(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	n := fn.Name()
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := t.(*types.Named); ok {
			n = nm.Obj().Name() + "." + n
		}
	}
	if fn.Pkg() != nil {
		n = shortPkg(fn.Pkg().Path()) + "." + n
	}
	return n
}

func Load(repo string, patterns []string) (*World, error) {
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Imports"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var order []*listPkg
	exports := map[string]string{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		order = append(order, &p)
		exports[p.ImportPath] = p.Export
	}
	w := &World{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncDecl{}, ByName: map[string]*FuncDecl{}, Tags: map[string]int{}, Vars: map[types.Object]ast.Expr{}, VarPkg: map[types.Object]*Pkg{}}
	gc := importer.ForCompiler(w.Fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, lp := range order {
		if lp.ImportPath != modPath && !strings.HasPrefix(lp.ImportPath, modPath+"/") {
			continue
		}
		// generated protobuf packages are used through export data only
		if strings.Contains(lp.ImportPath, "_proto") || strings.HasSuffix(lp.ImportPath, "/proto") {
			continue
		}
		p := &Pkg{Path: lp.ImportPath}
		for _, f := range lp.GoFiles {
			if !filepath.IsAbs(f) {
				f = filepath.Join(lp.Dir, f)
			}
			af, err := parser.ParseFile(w.Fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp{w, gc}, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(lp.ImportPath, w.Fset, p.Files, p.Info)
		if err != nil {
			w.Broken = append(w.Broken, fmt.Sprintf("%s: %v", lp.ImportPath, err))
			continue
		}
		p.Types = tp
		w.Pkgs[lp.ImportPath] = p
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if fn, ok := p.Info.Defs[d.Name].(*types.Func); ok {
						fd := &FuncDecl{Pkg: p, Decl: d, Obj: fn, Name: funcName(fn)}
						w.Funcs[fn] = fd
						if w.ByName[fd.Name] != nil && fd.Decl.Name.Name != "init" && fd.Decl.Name.Name != "_" && fd.Decl.Name.Name != "main" {
							return nil, fmt.Errorf("two functions named %s", fd.Name)
						}
						w.ByName[fd.Name] = fd
						if d.Body != nil {
							w.literals(fd)
						}
					}
				case *ast.GenDecl:
					if d.Tok == token.TYPE {
						w.ifaceMethods(p, d)
					}
					if d.Tok != token.VAR {
						continue
					}
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						if len(vs.Values) == len(vs.Names) {
							for i, n := range vs.Names {
								o := p.Info.Defs[n]
								w.Vars[o] = vs.Values[i]
								w.VarPkg[o] = p
							}
						}
					}
				}
			}
		}
	}
	return w, nil
}

type imp struct {
	w  *World
	gc types.Importer
}

func (i imp) Import(path string) (*types.Package, error) {
	if p, ok := i.w.Pkgs[path]; ok {
		return p.Types, nil
	}
	return i.gc.Import(path)
}

func (w *World) Tag(n *types.Named) *Term {
	k := n.String()
	if _, ok := w.Tags[k]; !ok {
		w.Tags[k] = len(w.Tags) + 1
	}
	return I(int64(w.Tags[k]))
}

// literals registers the function literals of a function under names of their own.
func (w *World) literals(fd *FuncDecl) {
	named := map[*ast.FuncLit]string{}
	lit := func(l, r ast.Expr) {
		id, ok := l.(*ast.Ident)
		f, ok2 := ast.Unparen(r).(*ast.FuncLit)
		if ok && ok2 && id.Name != "_" {
			named[f] = id.Name
		}
	}
	k := 0
	ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == len(n.Rhs) {
				for i := range n.Lhs {
					lit(n.Lhs[i], n.Rhs[i])
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == len(n.Values) {
				for i := range n.Names {
					lit(n.Names[i], n.Values[i])
				}
			}
		case *ast.FuncLit:
			name := fd.Name + "." + named[n]
			if named[n] == "" {
				k++
				name = fmt.Sprintf("%s#%d", fd.Name, k)
			}
			sig := fd.Pkg.Info.TypeOf(n).(*types.Signature)
			o := types.NewFunc(n.Pos(), fd.Pkg.Types, "func literal", sig)
			l := &FuncDecl{Pkg: fd.Pkg, Decl: &ast.FuncDecl{Name: &ast.Ident{NamePos: n.Pos(), Name: name}, Type: n.Type, Body: n.Body}, Obj: o, Name: name, Lit: n, Outer: fd}
			for w.ByName[l.Name] != nil {
				l.Name += "'"
			}
			w.ByName[l.Name] = l
		}
		return true
	})
}

// captured lists the variables of the enclosing function that a literal uses.
func (w *World) captured(fd *FuncDecl) []*types.Var {
	var out []*types.Var
	seen := map[types.Object]bool{}
	ast.Inspect(fd.Lit, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := fd.Pkg.Info.Uses[id].(*types.Var)
		if !ok || v.IsField() || seen[v] || v.Parent() == fd.Pkg.Types.Scope() || v.Pkg() != fd.Pkg.Types {
			return true
		}
		if v.Pos() >= fd.Lit.Pos() && v.Pos() < fd.Lit.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	return out
}

// soleLiteral gives the function literal that a variable of fn always holds, if it is assigned just once.
func (w *World) soleLiteral(fd *FuncDecl, v *types.Var) *ast.FuncLit {
	var lit *ast.FuncLit
	n := 0
	is := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && (fd.Pkg.Info.Defs[id] == v || fd.Pkg.Info.Uses[id] == v)
	}
	ast.Inspect(fd.Decl.Body, func(nd ast.Node) bool {
		switch nd := nd.(type) {
		case *ast.AssignStmt:
			for i, l := range nd.Lhs {
				if is(l) {
					n++
					if len(nd.Lhs) == len(nd.Rhs) {
						lit, _ = ast.Unparen(nd.Rhs[i]).(*ast.FuncLit)
					}
				}
			}
		case *ast.ValueSpec:
			for i, l := range nd.Names {
				if fd.Pkg.Info.Defs[l] == v && len(nd.Names) == len(nd.Values) {
					n++
					lit, _ = ast.Unparen(nd.Values[i]).(*ast.FuncLit)
				}
			}
		case *ast.UnaryExpr:
			if nd.Op == token.AND && is(nd.X) {
				n = 2
			}
		}
		return true
	})
	if n != 1 {
		return nil
	}
	return lit
}

// ifaceMethods names the methods of interface types, for contracts assumed of every implementation.
func (w *World) ifaceMethods(p *Pkg, d *ast.GenDecl) {
	for _, s := range d.Specs {
		it, ok := s.(*ast.TypeSpec).Type.(*ast.InterfaceType)
		if !ok {
			continue
		}
		for _, m := range it.Methods.List {
			ft, ok := m.Type.(*ast.FuncType)
			if !ok || len(m.Names) != 1 {
				continue
			}
			fn, ok := p.Info.Defs[m.Names[0]].(*types.Func)
			if !ok || w.ByName[funcName(fn)] != nil {
				continue
			}
			w.ByName[funcName(fn)] = &FuncDecl{Pkg: p, Decl: &ast.FuncDecl{Name: m.Names[0], Type: ft}, Obj: fn, Name: funcName(fn)}
		}
	}
}
