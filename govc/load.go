package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Loader type-checks the packages under verification (with bodies) and all
// their dependencies (signatures only), and builds SSA for the former.

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
	DepOnly    bool
}

type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by import path (all)
	Types map[string]*types.Package
	Repo  map[string]bool // packages with bodies
	Files map[string][]*ast.File
}

const modPath = "go.opencensus.io"

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "CGO_ENABLED", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOOS", "GOARCH":
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=readonly -buildvcs=false", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// clientFiles: lemma functions written in Go (contracts/clients/<package directory>/*.go), added to the
// package they speak about.  They only call the code under verification.
func clientFiles(repo, verif string, drop map[string]bool) map[string]string {
	m := map[string]string{}
	base := filepath.Join(verif, "contracts", "clients")
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !drop[p] {
			rel, _ := filepath.Rel(base, p)
			if _, err := os.Stat(filepath.Join(repo, filepath.Dir(rel))); err == nil {
				m[filepath.Join(repo, filepath.Dir(rel), "zz_govc_"+filepath.Base(rel))] = p
			}
		}
		return nil
	})
	return m
}

func loadProgram(repo, verif string, patterns []string) (*Program, error) {
	drop := map[string]bool{}
	for {
		cl := clientFiles(repo, verif, drop)
		P, bad, err := loadProgram1(repo, cl, patterns)
		if err != nil && bad != "" && cl[bad] != "" {
			// a lemma function that no longer fits the tree: left out, its contract is reported as missing
			fmt.Fprintf(os.Stderr, "govc: lemma functions of %s left out: %v\n", cl[bad], err)
			drop[cl[bad]] = true
			continue
		}
		return P, err
	}
}

func loadProgram1(repo string, clients map[string]string, patterns []string) (*Program, string, error) {
	ovf, err := os.CreateTemp("", "govc-overlay-*.json")
	if err != nil {
		return nil, "", err
	}
	defer os.Remove(ovf.Name())
	json.NewEncoder(ovf).Encode(map[string]any{"Replace": clients})
	ovf.Close()
	args := append([]string{"list", "-overlay", ovf.Name(), "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Imports,ImportMap,Standard,Module,Error,DepOnly"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, "", fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, "", err
		}
		pkgs = append(pkgs, &p)
	}
	P := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, Repo: map[string]bool{}, Files: map[string][]*ast.File{}}
	// parse in parallel
	type parsed struct {
		files []*ast.File
		err   error
	}
	res := make([]parsed, len(pkgs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, p := range pkgs {
		if p.ImportPath == "unsafe" {
			continue
		}
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			for _, f := range p.GoFiles {
				if !filepath.IsAbs(f) {
					f = filepath.Join(p.Dir, f)
				}
				mode := parser.SkipObjectResolution
				var src any
				if r := clients[f]; r != "" {
					src, _ = os.ReadFile(r)
				}
				af, err := parser.ParseFile(P.Fset, f, src, mode)
				if err != nil && res[i].err == nil {
					res[i].err = err
				}
				if af != nil {
					res[i].files = append(res[i].files, af)
				}
			}
		}(i, p)
	}
	wg.Wait()
	P.Prog = ssa.NewProgram(P.Fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	sizes := types.SizesFor("gc", "amd64")
	type chk struct {
		pkg  *types.Package
		info *types.Info
		done chan struct{}
		err  error
		bad  string
	}
	byPath := map[string]*chk{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = &chk{done: make(chan struct{})}
	}
	for i, p := range pkgs {
		c := byPath[p.ImportPath]
		if p.ImportPath == "unsafe" {
			c.pkg = types.Unsafe
			close(c.done)
			continue
		}
		inRepo := !p.Standard && (p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/"))
		if inRepo {
			P.Repo[p.ImportPath] = true
			if res[i].err != nil {
				return nil, "", fmt.Errorf("%s: %v", p.ImportPath, res[i].err)
			}
		}
		go func(i int, p *listPkg, inRepo bool) {
			defer close(c.done)
			for _, im := range p.Imports {
				if im == "C" {
					continue
				}
				if d, ok := byPath[im]; ok {
					<-d.done
				}
			}
			imp := importerFunc(func(path string) (*types.Package, error) {
				if path == "unsafe" {
					return types.Unsafe, nil
				}
				if m, ok := p.ImportMap[path]; ok {
					path = m
				}
				if d, ok := byPath[path]; ok {
					<-d.done
					if d.pkg != nil {
						return d.pkg, nil
					}
				}
				return nil, fmt.Errorf("no package %s", path)
			})
			conf := types.Config{Importer: imp, Sizes: sizes, IgnoreFuncBodies: !inRepo, FakeImportC: true}
			var firstErr error
			conf.Error = func(err error) {
				if te, ok := err.(types.Error); ok && inRepo {
					if f := P.Fset.Position(te.Pos).Filename; clients[f] != "" && c.bad == "" {
						c.bad = f
					}
				}
				if firstErr == nil {
					firstErr = err
				}
			}
			if inRepo {
				c.info = &types.Info{
					Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
					Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
					Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
			}
			pkg, _ := conf.Check(p.ImportPath, P.Fset, res[i].files, c.info)
			c.pkg = pkg
			if inRepo {
				c.err = firstErr
			}
		}(i, p, inRepo)
	}
	for _, p := range pkgs {
		c := byPath[p.ImportPath]
		<-c.done
		if c.err != nil {
			return nil, c.bad, fmt.Errorf("type error in %s: %v", p.ImportPath, c.err)
		}
		P.Types[p.ImportPath] = c.pkg
	}
	for i, p := range pkgs {
		if p.ImportPath == "unsafe" {
			continue
		}
		c := byPath[p.ImportPath]
		var sp *ssa.Package
		if P.Repo[p.ImportPath] {
			sp = P.Prog.CreatePackage(c.pkg, res[i].files, c.info, true)
			P.Files[p.ImportPath] = res[i].files
		} else {
			sp = P.Prog.CreatePackage(c.pkg, nil, nil, true)
		}
		P.Pkgs[p.ImportPath] = sp
	}
	for path := range P.Repo {
		P.Pkgs[path].Build()
	}
	return P, "", nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

var _ = os.Stdout
