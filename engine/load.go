package main

// Loader: reads /repo's current working tree (plus the harness packages that are laid over it) with
// `go list -deps`, type-checks everything from source and builds go/ssa for the packages whose bodies the
// executor interprets.  Nothing is cached between runs: the encoding is regenerated from the tree every time.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
}

type Loaded struct {
	Prog     *ssa.Program
	Pkgs     map[string]*ssa.Package
	Fset     *token.FileSet
	Overlay  map[string]string
	NumPkgs  int
	GoMod    string
	Warnings []string
}

const modPath = "github.com/sourcenetwork/zanzi"

// bodyPkg says whether the bodies of a package are interpreted.
func bodyPkg(path string) bool {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return true
	}
	switch path {
	case "github.com/sourcenetwork/raccoondb",
		"strings", "bytes", "sort", "slices", "maps", "cmp", "errors", "context", "unicode/utf8", "unicode",
		"strconv", "internal/strconv", "unicode/utf16", "bufio", "container/ring", "math/bits", "math", "io", "internal/bytealg", "internal/stringslite", "iter",
		"golang.org/x/exp/constraints", "golang.org/x/exp/slices", "golang.org/x/exp/maps",
		"container/list", "container/heap", "path", "internal/itoa", "encoding/hex", "encoding/binary", "hash", "hash/fnv", "regexp", "regexp/syntax",
		"google.golang.org/protobuf/types/known/timestamppb", "time":
		return true
	}
	return false
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "CGO_ENABLED=0")
}

func overlayMap(repo, harnessDir string) (map[string]string, error) {
	m := map[string]string{}
	root := harnessDir
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repo, "internal", rel)] = p
		return nil
	})
	return m, err
}

func Load(repo, harnessDir string, roots []string) (*Loaded, error) {
	ov, err := overlayMap(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	ovJSON, _ := json.Marshal(map[string]any{"Replace": ov})
	tmp, err := os.CreateTemp("", "vxov*.json")
	if err != nil {
		return nil, err
	}
	defer os.Remove(tmp.Name())
	tmp.Write(ovJSON)
	tmp.Close()
	args := append([]string{"list", "-overlay", tmp.Name(), "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Imports,ImportMap,Standard"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var order []*listPkg
	byPath := map[string]*listPkg{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pp := p
		order = append(order, &pp)
		byPath[p.ImportPath] = &pp
	}
	fset := token.NewFileSet()
	// parse in parallel
	files := make([][]*ast.File, len(order))
	perr := make([]error, len(order))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i, p := range order {
		if p.ImportPath == "unsafe" {
			continue
		}
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			body := bodyPkg(p.ImportPath)
			for _, f := range p.GoFiles {
				name := f
				if !filepath.IsAbs(name) {
					name = filepath.Join(p.Dir, f)
				}
				src := name
				if r, ok := ov[name]; ok {
					src = r
				}
				data, err := os.ReadFile(src)
				if err != nil {
					perr[i] = err
					return
				}
				af, err := parser.ParseFile(fset, name, data, parser.SkipObjectResolution)
				if err != nil {
					perr[i] = err
					return
				}
				if !body {
					for _, d := range af.Decls {
						if fd, ok := d.(*ast.FuncDecl); ok {
							fd.Body = nil
						}
					}
				}
				files[i] = append(files[i], af)
			}
		}(i, p)
	}
	wg.Wait()
	for i, e := range perr {
		if e != nil {
			return nil, fmt.Errorf("parse %s: %v", order[i].ImportPath, e)
		}
	}
	// typecheck in dependency order, in parallel
	res := map[string]*types.Package{"unsafe": types.Unsafe}
	infos := map[string]*types.Info{}
	done := map[string]chan struct{}{}
	for _, p := range order {
		done[p.ImportPath] = make(chan struct{})
	}
	var mu sync.Mutex
	warn := []string{}
	sizes := types.SizesFor("gc", "amd64")
	for i, p := range order {
		if p.ImportPath == "unsafe" {
			close(done["unsafe"])
			continue
		}
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			defer close(done[p.ImportPath])
			for _, im := range p.Imports {
				if m, ok := p.ImportMap[im]; ok {
					im = m
				}
				if c, ok := done[im]; ok {
					<-c
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			body := bodyPkg(p.ImportPath)
			var first error
			conf := types.Config{
				Importer: importerFunc(func(path string) (*types.Package, error) {
					if m, ok := p.ImportMap[path]; ok {
						path = m
					}
					mu.Lock()
					defer mu.Unlock()
					if r := res[path]; r != nil {
						return r, nil
					}
					return nil, fmt.Errorf("no package %s", path)
				}),
				IgnoreFuncBodies: !body,
				FakeImportC:      true,
				Sizes:            sizes,
				Error: func(err error) {
					if first == nil {
						first = err
					}
				},
			}
			info := &types.Info{}
			if body {
				info = &types.Info{
					Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
					Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
					Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
				}
			}
			tp, _ := conf.Check(p.ImportPath, fset, files[i], info)
			mu.Lock()
			res[p.ImportPath] = tp
			infos[p.ImportPath] = info
			if first != nil && body {
				warn = append(warn, fmt.Sprintf("%s: %v", p.ImportPath, first))
			}
			mu.Unlock()
		}(i, p)
	}
	wg.Wait()
	for _, w := range warn {
		if strings.HasPrefix(w, modPath) {
			return nil, fmt.Errorf("type errors: %s", w)
		}
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	l := &Loaded{Prog: prog, Pkgs: map[string]*ssa.Package{}, Fset: fset, Overlay: ov, NumPkgs: len(order), Warnings: warn}
	for i, p := range order {
		if p.ImportPath == "unsafe" {
			prog.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		if bodyPkg(p.ImportPath) {
			l.Pkgs[p.ImportPath] = prog.CreatePackage(res[p.ImportPath], files[i], infos[p.ImportPath], true)
		} else {
			l.Pkgs[p.ImportPath] = prog.CreatePackage(res[p.ImportPath], nil, nil, true)
		}
	}
	for _, p := range order {
		if bodyPkg(p.ImportPath) {
			sp := l.Pkgs[p.ImportPath]
			wg.Add(1)
			go func() {
				defer wg.Done()
				sp.Build()
			}()
		}
	}
	wg.Wait()
	return l, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }
