package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Contract is one annotated function of the contract files.
type Contract struct {
	Name   string // name of the contract function
	Target string // "" for lemmas
	Props  []string
	Opts   map[string]string
	Fn     *ssa.Function
	TFn    *ssa.Function
	File   string
	Line   int
	Loops  []*ssa.Function
	Reps   string // why it was dropped, if it was
}

func (c *Contract) has(o string) bool { _, ok := c.Opts[o]; return ok }

type Engine struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkg       *ssa.Package
	tpkg      *types.Package
	layouts   map[string]types.Type
	models    map[string]*ssa.Function
	contracts []*Contract
	byTarget  map[*ssa.Function]*Contract
	gens      map[string]*ssa.Function
	opaque    map[*ssa.Function]bool
	loopTmpl  map[string][]*ssa.Function
	dropped   []string
	specFile  map[string]bool
	repoFiles []string
	ctrFiles  []string
	ctrAST    []*ast.File
	logged    map[*ssa.Function]bool
	havocFn   map[string]*ssa.Function // arbitrary values of pointer types in loops
	subst     map[string]string        // library functions replaced by their models when contracts run natively
	libFns    []*ssa.Function          // functions of the code under verification
	mu        sync.Mutex
	verbose   bool
	full      bool
}

// packages whose real source is executed (everything else needs a model)
var srcPkgs = map[string]bool{
	"encoding/binary": true, "errors": true, "strings": true, "bytes": true, "container/list": true,
	"math": true, "math/bits": true, "unicode/utf8": true, "io": true, "strconv": true, "unicode": true, "sort": true,
}

type srcImporter struct {
	ctx   *build.Context
	fset  *token.FileSet
	pkgs  map[string]*types.Package
	files map[string][]*ast.File
	infos map[string]*types.Info
	order []string
}

func newInfo() *types.Info {
	return &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
}

func (im *srcImporter) Import(path string) (*types.Package, error) {
	return im.ImportFrom(path, "", 0)
}

func (im *srcImporter) ImportFrom(path, dir string, _ types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	bp, err := im.ctx.Import(path, dir, 0)
	if err != nil {
		if _, ok := err.(*build.NoGoError); !ok {
			return nil, err
		}
	}
	if p, ok := im.pkgs[bp.ImportPath]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle %s", path)
		}
		return p, nil
	}
	im.pkgs[bp.ImportPath] = nil
	var files []*ast.File
	names := append(append([]string{}, bp.GoFiles...), bp.CgoFiles...)
	parsed := make([]*ast.File, len(names))
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			parsed[i], _ = parser.ParseFile(im.fset, filepath.Join(bp.Dir, n), nil, parser.SkipObjectResolution)
		}(i, n)
	}
	wg.Wait()
	for _, f := range parsed {
		if f != nil {
			files = append(files, f)
		}
	}
	src := srcPkgs[bp.ImportPath]
	conf := types.Config{Importer: im, IgnoreFuncBodies: !src, FakeImportC: true, Error: func(error) {}, Sizes: types.SizesFor("gc", "amd64")}
	var info *types.Info
	if src {
		info = newInfo()
	}
	p, err := conf.Check(bp.ImportPath, im.fset, files, info)
	if p == nil {
		return nil, err
	}
	p.MarkComplete()
	im.pkgs[bp.ImportPath] = p
	im.order = append(im.order, bp.ImportPath)
	if src {
		im.files[bp.ImportPath] = files
		im.infos[bp.ImportPath] = info
	}
	return p, nil
}

func Load(repoDir, ctrDir string) (*Engine, error) {
	e := &Engine{fset: token.NewFileSet(), layouts: map[string]types.Type{}, models: map[string]*ssa.Function{}, byTarget: map[*ssa.Function]*Contract{},
		gens: map[string]*ssa.Function{}, opaque: map[*ssa.Function]bool{}, loopTmpl: map[string][]*ssa.Function{}, specFile: map[string]bool{}, subst: map[string]string{}, havocFn: map[string]*ssa.Function{}, logged: map[*ssa.Function]bool{}}
	ctx := build.Default
	ctx.CgoEnabled = false
	if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		ctx.GOROOT = strings.TrimSpace(string(out))
	}
	ctx.GOPATH = filepath.Dir(filepath.Dir(repoDir))
	os.Setenv("GO111MODULE", "off")
	im := &srcImporter{ctx: &ctx, fset: e.fset, pkgs: map[string]*types.Package{}, files: map[string][]*ast.File{}, infos: map[string]*types.Info{}}

	var files []*ast.File
	bp, err := ctx.ImportDir(repoDir, 0)
	if err != nil {
		return nil, err
	}
	for _, n := range bp.GoFiles {
		fn := filepath.Join(repoDir, n)
		f, err := parser.ParseFile(e.fset, fn, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		e.repoFiles = append(e.repoFiles, fn)
	}
	nrepo := len(files)
	cf, _ := filepath.Glob(filepath.Join(ctrDir, "*.go"))
	sort.Strings(cf)
	for _, fn := range cf {
		f, err := parser.ParseFile(e.fset, fn, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		e.specFile[fn] = true
		e.ctrFiles = append(e.ctrFiles, fn)
		e.ctrAST = append(e.ctrAST, f)
	}
	var info *types.Info
	for round := 0; ; round++ {
		var errs []types.Error
		info = newInfo()
		conf := types.Config{Importer: im, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {
			if te, ok := err.(types.Error); ok {
				errs = append(errs, te)
			}
		}}
		tp, err := conf.Check("thrift", e.fset, files, info)
		e.tpkg = tp
		if len(errs) == 0 {
			if err != nil {
				return nil, err
			}
			break
		}
		// drop declarations of contract files that do not type-check any more
		n := 0
		for _, te := range errs {
			if te.Soft && strings.Contains(te.Msg, "imported and not used") {
				n += dropImport(files[nrepo:], te.Pos)
				continue
			}
			for _, f := range files[nrepo:] {
				if te.Pos < f.FileStart || te.Pos >= f.FileEnd {
					continue
				}
				for i, d := range f.Decls {
					if te.Pos >= d.Pos() && te.Pos < d.End() {
						nm := "declaration"
						if fd, ok := d.(*ast.FuncDecl); ok {
							nm = fd.Name.Name
						}
						e.dropped = append(e.dropped, fmt.Sprintf("%s (%s: %s)", nm, e.fset.Position(te.Pos), te.Msg))
						f.Decls = append(f.Decls[:i:i], f.Decls[i+1:]...)
						n++
						break
					}
				}
			}
		}
		if n == 0 || round > 20 {
			return nil, fmt.Errorf("type errors: %v", errs[0])
		}
	}
	e.prog = ssa.NewProgram(e.fset, ssa.InstantiateGenerics)
	e.prog.CreatePackage(types.Unsafe, nil, nil, true)
	for _, path := range im.order {
		if fs, ok := im.files[path]; ok {
			e.prog.CreatePackage(im.pkgs[path], fs, im.infos[path], true)
		} else {
			e.prog.CreatePackage(im.pkgs[path], nil, nil, true)
		}
	}
	e.pkg = e.prog.CreatePackage(e.tpkg, files, info, true)
	e.pkg.Build()
	for path := range im.files {
		e.prog.ImportedPackage(path).Build()
	}
	// directives
	for _, f := range files[nrepo:] {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Doc == nil || x.Recv != nil {
					continue
				}
				fn := e.pkg.Func(x.Name.Name)
				for _, cm := range x.Doc.List {
					if !strings.HasPrefix(cm.Text, "//vc:") {
						continue
					}
					fs := strings.Fields(strings.TrimPrefix(cm.Text, "//vc:"))
					switch fs[0] {
					case "contract", "lemma":
						c := &Contract{Name: x.Name.Name, Fn: fn, Opts: map[string]string{}}
						rest := fs[1:]
						if fs[0] == "contract" {
							c.Target = fs[1]
							rest = fs[2:]
						}
						for _, o := range rest {
							k, v, _ := strings.Cut(o, "=")
							if k == "props" {
								c.Props = strings.Split(v, ",")
							} else {
								c.Opts[k] = v
							}
						}
						ps := e.fset.Position(x.Pos())
						c.File, c.Line = filepath.Base(ps.Filename), ps.Line
						if c.Target != "" {
							c.TFn = e.lookupFn(c.Target)
							if c.TFn == nil {
								e.dropped = append(e.dropped, fmt.Sprintf("%s (target %s does not exist)", c.Name, c.Target))
								continue
							}
							if !c.has("nocall") && e.byTarget[c.TFn] == nil {
								e.byTarget[c.TFn] = c
							}
						}
						e.contracts = append(e.contracts, c)
					case "model":
						sub := false
						for _, n := range fs[1:] {
							if n == "subst" {
								sub = true
								e.logged[fn] = true
								continue
							}
							e.models[n] = fn
							if sub {
								e.subst[n] = fn.Name()
							}
						}
					case "gen":
						rt := fn.Signature.Results().At(0).Type()
						e.gens[rt.String()] = fn
					case "opaque":
						e.opaque[fn] = true
					case "havoc": // an arbitrary value of a pointer type
						e.havocFn[fn.Signature.Results().At(0).Type().String()] = fn
					case "loop":
						for _, n := range fs[1:] {
							e.loopTmpl[n] = append(e.loopTmpl[n], fn)
						}
					}
				}
			case *ast.GenDecl:
				if x.Doc == nil {
					continue
				}
				for _, cm := range x.Doc.List {
					if strings.HasPrefix(cm.Text, "//vc:layout") {
						fs := strings.Fields(cm.Text)
						if o := e.tpkg.Scope().Lookup(fs[2]); o != nil {
							e.layouts[fs[1]] = o.Type()
						}
					}
				}
			}
		}
	}
	for _, c := range e.contracts {
		c.Loops = e.loopTmpl[c.Name]
	}
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if fn != nil && fn.Blocks != nil && !seen[fn] && fn.Synthetic == "" && !e.isSpec(fn) {
			seen[fn] = true
			e.libFns = append(e.libFns, fn)
		}
	}
	for _, m := range e.pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := e.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if types.IsInterface(x.Type()) {
						continue
					}
					add(e.prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	sort.Slice(e.libFns, func(i, j int) bool { return e.libFns[i].String() < e.libFns[j].String() })
	return e, nil
}

func dropImport(files []*ast.File, pos token.Pos) int {
	n := 0
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			for i, sp := range g.Specs {
				if pos >= sp.Pos() && pos <= sp.End() {
					g.Specs = append(g.Specs[:i:i], g.Specs[i+1:]...)
					for k, is := range f.Imports {
						if is == sp {
							f.Imports = append(f.Imports[:k:k], f.Imports[k+1:]...)
							break
						}
					}
					n++
					break
				}
			}
		}
	}
	return n
}

func (e *Engine) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pos() == token.NoPos {
		if o := fn.Origin(); o != nil && o != fn {
			return e.isSpec(o)
		}
		// synthetic wrapper: use the object it wraps
		if fn.Object() != nil && fn.Object().Pos() != token.NoPos {
			return e.specFile[e.fset.Position(fn.Object().Pos()).Filename]
		}
		return false
	}
	return e.specFile[e.fset.Position(fn.Pos()).Filename]
}

func (e *Engine) lookupFn(name string) *ssa.Function {
	if strings.HasPrefix(name, "(*") {
		i := strings.IndexByte(name, ')')
		o := e.tpkg.Scope().Lookup(name[2:i])
		if o == nil {
			return nil
		}
		return e.prog.LookupMethod(types.NewPointer(o.Type()), e.tpkg, name[i+2:])
	}
	if i := strings.IndexByte(name, '.'); i > 0 {
		o := e.tpkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		return e.prog.LookupMethod(o.Type(), e.tpkg, name[i+1:])
	}
	return e.pkg.Func(name)
}

func (e *Engine) isSpecPos(p token.Pos) bool {
	return p.IsValid() && e.specFile[e.fset.Position(p).Filename]
}
