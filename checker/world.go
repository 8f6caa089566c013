package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the type-checked program: the analysed repository plus the client code of the probes.
type World struct {
	internals map[*types.Named]bool
	dir       string
	fset      *token.FileSet
	prog      *ssa.Program
	pkg       *ssa.Package
	tpkg      *types.Package
	ppkg      *packages.Package
	globals   map[*ssa.Global]*Node
	written   map[*ssa.Global]bool
	loopM     map[*ssa.Function]*loopInfo
	funcs     []*ssa.Function // all functions of the package, probes excluded
	probeF    string
	initEv    []Event
	effCache  []EntryEffects
}

const probeFile = "zz_verif_probe.go"

// loadWorld type-checks dir with the probe source added in memory.
func loadWorld(dir, probe string) (*World, error) {
	w := &World{dir: dir, loopM: map[*ssa.Function]*loopInfo{}, globals: map[*ssa.Global]*Node{}, written: map[*ssa.Global]bool{}}
	w.fset = token.NewFileSet()
	w.probeF = filepath.Join(dir, probeFile)
	if _, err := os.Stat(w.probeF); err == nil {
		return nil, fmt.Errorf("file %s exists", w.probeF)
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir, Fset: w.fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	if probe != "" {
		cfg.Overlay = map[string][]byte{w.probeF: []byte(probe)}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages loaded from %s", len(pkgs), dir)
	}
	var errs []string
	for _, e := range pkgs[0].Errors {
		errs = append(errs, e.Error())
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog, w.pkg, w.ppkg = prog, ps[0], pkgs[0]
	w.tpkg = pkgs[0].Types
	w.collect()
	typeLawF = compositeLaw(w)
	if r := prog.ImportedPackage("reflect"); r != nil {
		reflectType, reflectValue = r.Pkg.Scope().Lookup("Type").Type(), r.Pkg.Scope().Lookup("Value").Type()
	}
	w.evalInit()
	return w, nil
}

func (w *World) isProbe(p token.Pos) bool {
	return p.IsValid() && w.fset.Position(p).Filename == w.probeF
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (w *World) collect() {
	all := ssautil.AllFunctions(w.prog)
	for fn := range all {
		if fnPkg(fn) == w.pkg && fn.Blocks != nil && !w.isProbe(fn.Pos()) {
			w.funcs = append(w.funcs, fn)
		}
	}
	sort.Slice(w.funcs, func(i, j int) bool {
		a, b := w.funcs[i], w.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	// globals that anything but package initialisation may write or hand out by address
	for _, fn := range w.funcs {
		if fn.Synthetic != "" && strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != w.pkg {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					switch ins.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						continue // element access: writes are seen as store events
					}
					w.written[g] = true
				}
			}
		}
	}
}

// evalInit evaluates package initialisation once to learn the content of package-level tables.
func (w *World) evalInit() {
	init := w.pkg.Func("init")
	if init == nil {
		return
	}
	ev := NewEval(w)
	ev.initing = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(undecided); ok {
					return // unknown globals stay opaque
				}
				panic(r)
			}
		}()
		r := ev.callSSA(init, nil, nil, True, newHeap())
		for g, id := range ev.globObj {
			if g.Pkg == w.pkg && !w.written[g] && g.Name() != "init$guard" {
				n := ev.resolve(ev.content(id, r.h), r.h)
				w.globals[g] = n
			}
		}
	}()
}

var inlineStd = map[string]bool{"slices": true, "maps": true, "cmp": true, "iter": true}

func (w *World) inline(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		// wrappers and bound methods
		return fn.Synthetic != ""
	}
	return p == w.pkg || inlineStd[p.Pkg.Path()] || inlineFn[fn.String()]
}

var inlineFn = map[string]bool{"io.WriteString": true}

var pureStd = map[string]bool{"fmt": true, "errors": true, "strings": true, "strconv": true, "unicode": true,
	"unicode/utf8": true, "reflect": true, "slices": true, "bytes": true, "cmp": true, "maps": true,
	"internal/reflectlite": true, "math": true, "math/bits": true, "internal/abi": true, "database/sql/driver": true}

// worldly packages: state shared by the program, the clock, chance, the system.
var worldly = map[string]bool{"time": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "os": true, "net": true,
	"syscall": true, "runtime": true, "runtime/debug": true, "log": true, "io": true, "io/ioutil": true, "sync": true, "sync/atomic": true,
	"context": true, "fmt": true, "os/exec": true, "os/signal": true, "net/http": true, "database/sql": true, "unsafe": true,
	"reflect": true, "expvar": true, "flag": true, "testing": true, "log/slog": true}

func (w *World) pure(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return false
	}
	if !pureStd[p.Pkg.Path()] {
		return false
	}
	n := fn.Name()
	if p.Pkg.Path() == "fmt" && !(strings.HasPrefix(n, "Sprint") || n == "Errorf" || strings.HasPrefix(n, "Append")) {
		return false
	}
	if p.Pkg.Path() == "reflect" && (strings.HasPrefix(n, "Set") || n == "Swapper" || n == "Copy" || n == "Append" || n == "Call") {
		return false
	}
	return true
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// fn looks a function up: "Name" or "Type.Method" or "*Type.Method".
func (w *World) fn(name string) *ssa.Function {
	ptr := strings.HasPrefix(name, "*")
	name = strings.TrimPrefix(name, "*")
	if t, m, ok := strings.Cut(name, "."); ok {
		o := w.tpkg.Scope().Lookup(t)
		tn, ok := o.(*types.TypeName)
		if !ok {
			return nil
		}
		var T types.Type = tn.Type()
		if ptr {
			T = types.NewPointer(T)
		}
		return w.prog.LookupMethod(T, w.tpkg, m)
	}
	return w.pkg.Func(name)
}

func (w *World) typ(name string) types.Type {
	o := w.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ---------- loops ----------

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	live   []ssa.Value // values defined inside and used outside
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*loop
}

func (w *World) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := w.loopM[fn]; ok {
		return l
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	order := map[*ssa.BasicBlock]int{}
	for i, b := range li.rpo {
		order[b] = i
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if order[s] <= order[b] {
				if !s.Dominates(b) {
					panic(undecided{fn.Pos(), "irreducible control flow in " + fn.String()})
				}
				l := li.header[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for _, l := range li.header {
		for _, b := range li.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						if p, isPhi := r.(*ssa.Phi); isPhi {
							_ = p // phi operands travel on the edges
						}
						l.live = append(l.live, v)
						break
					}
				}
			}
		}
	}
	w.loopM[fn] = li
	return li
}

// exportedAPI lists the exported package-level functions and methods of exported types, plus the
// methods of unexported types that implement exported interfaces.
func (w *World) methodsOf(T types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := w.prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if f := w.prog.MethodValue(ms.At(i)); f != nil {
			out = append(out, f)
		}
	}
	return out
}

func (w *World) files() []*ast.File {
	var out []*ast.File
	for _, f := range w.ppkg.Syntax {
		if !w.isProbe(f.Pos()) {
			out = append(out, f)
		}
	}
	return out
}

func (w *World) methodByName(T types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
