package main

// Region and effect analysis: a flow-sensitive, context-sensitive abstract interpretation of the SSA form
// that tracks which memory a value may refer to and nothing else (no numbers, no texts, no conditions).
// Memory is partitioned into regions: one per allocation site and calling context, one per argument,
// one for everything reachable from an argument, one per package variable. All branches are taken,
// loops are iterated to a fixpoint, so the result holds for every input and every list length.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type rkind int

const (
	rFresh  rkind = iota
	rArg          // memory an argument refers to directly
	rDeep         // memory reachable through an argument
	rGlobal       // package variable and everything reachable from it
	rExtern       // memory of unknown origin
)

type region struct {
	id   int
	kind rkind
	name string
	arg  int // argument number
	loop bool
	glob *ssa.Global
	caps bool // zero capacity
}

// aval is an abstract value: the places it may refer to. nil refers to nothing.
type aval struct {
	locs   []loc   // pointers, slices, maps
	fields []*aval // structs and tuples; arrays have one summary element
	dyn    []dynVal
	fns    []*aclosure
	key    string
}

type loc struct {
	r      *region
	path   string // dot-separated field steps
	capped bool   // slice without spare capacity
}

type dynVal struct {
	t types.Type
	v *aval
}

type aclosure struct {
	fn   *ssa.Function
	bind []*aval
}

func (l loc) key() string {
	c := ""
	if l.capped {
		c = "!"
	}
	return strconv.Itoa(l.r.id) + l.path + c
}

func (v *aval) k() string {
	if v == nil {
		return "_"
	}
	if v.key != "" {
		return v.key
	}
	var b strings.Builder
	for _, l := range v.locs {
		b.WriteString(l.key() + ",")
	}
	if v.fields != nil {
		b.WriteString("{")
		for _, f := range v.fields {
			b.WriteString(f.k() + ";")
		}
		b.WriteString("}")
	}
	for _, d := range v.dyn {
		b.WriteString("<" + d.t.String() + ":" + d.v.k() + ">")
	}
	for _, f := range v.fns {
		b.WriteString("f" + f.fn.String() + fmt.Sprintf("%p", f.fn))
		for _, x := range f.bind {
			b.WriteString("(" + x.k() + ")")
		}
	}
	v.key = b.String() + "."
	return v.key
}

func mkLocs(ls ...loc) *aval {
	if len(ls) == 0 {
		return nil
	}
	return &aval{locs: ls}
}

func empty(v *aval) bool {
	if v == nil {
		return true
	}
	if len(v.locs) > 0 || len(v.dyn) > 0 || len(v.fns) > 0 {
		return false
	}
	for _, f := range v.fields {
		if !empty(f) {
			return false
		}
	}
	return true
}

func joinA(a, b *aval) *aval {
	if empty(a) {
		return b
	}
	if empty(b) || a == b || a.k() == b.k() {
		return a
	}
	out := &aval{}
	seen := map[string]bool{}
	for _, l := range append(append([]loc{}, a.locs...), b.locs...) {
		if !seen[l.key()] {
			seen[l.key()] = true
			out.locs = append(out.locs, l)
		}
	}
	sort.Slice(out.locs, func(i, j int) bool { return out.locs[i].key() < out.locs[j].key() })
	n := len(a.fields)
	if len(b.fields) > n {
		n = len(b.fields)
	}
	if n > 0 {
		out.fields = make([]*aval, n)
		for i := range out.fields {
			var x, y *aval
			if i < len(a.fields) {
				x = a.fields[i]
			}
			if i < len(b.fields) {
				y = b.fields[i]
			}
			out.fields[i] = joinA(x, y)
		}
	}
	for _, d := range append(append([]dynVal{}, a.dyn...), b.dyn...) {
		ok := false
		for i := range out.dyn {
			if types.Identical(out.dyn[i].t, d.t) {
				out.dyn[i].v = joinA(out.dyn[i].v, d.v)
				ok = true
			}
		}
		if !ok {
			out.dyn = append(out.dyn, d)
		}
	}
	sort.SliceStable(out.dyn, func(i, j int) bool { return out.dyn[i].t.String() < out.dyn[j].t.String() })
	for _, f := range append(append([]*aclosure{}, a.fns...), b.fns...) {
		ok := false
		for i, g := range out.fns {
			if g.fn == f.fn {
				ok = true
				nb := make([]*aval, len(f.bind))
				for k := range nb {
					nb[k] = joinA(g.bind[k], f.bind[k])
				}
				out.fns[i] = &aclosure{f.fn, nb}
			}
		}
		if !ok {
			out.fns = append(out.fns, f)
		}
	}
	return out
}

func setPath(v *aval, path []int, nv *aval, strong bool) *aval {
	if len(path) == 0 {
		if strong {
			return nv
		}
		return joinA(v, nv)
	}
	i := path[0]
	out := &aval{}
	if v != nil {
		*out = *v
		out.key = ""
	}
	n := len(out.fields)
	if i >= n {
		n = i + 1
	}
	fs := make([]*aval, n)
	copy(fs, out.fields)
	fs[i] = setPath(fs[i], path[1:], nv, strong)
	out.fields = fs
	return out
}

func getPath(v *aval, path []int) *aval {
	for _, i := range path {
		if v == nil || i >= len(v.fields) {
			return nil
		}
		v = v.fields[i]
	}
	return v
}

func steps(path string) []int {
	var out []int
	for _, s := range strings.Split(path, ".") {
		if s == "" {
			continue
		}
		if s == "*" {
			out = append(out, 0)
			continue
		}
		n, _ := strconv.Atoi(s)
		out = append(out, n)
	}
	return out
}

type aheap map[int]*aval

func (h aheap) clone() aheap {
	c := make(aheap, len(h))
	for k, v := range h {
		c[k] = v
	}
	return c
}

func (h aheap) join(o aheap) (aheap, bool) {
	ch := false
	for k, v := range o {
		if old, ok := h[k]; !ok || old.k() != v.k() {
			n := joinA(old, v)
			if !ok || n.k() != old.k() {
				h[k] = n
				ch = true
			}
		}
	}
	return h, ch
}

type effect struct {
	Kind   string
	Pos    token.Pos
	Fn     *ssa.Function
	Detail string
	Reg    *region
	Chain  string
	Open   bool // of a library function not known to have it
}

type effAn struct {
	openCall bool // the effects being recorded are those an unknown library function might have
	W        *World
	regs     []*region
	byName   map[string]*region
	ctxs     map[string]int
	effects  []effect
	seenEff  map[string]bool
	stack    []*ssa.Function
	calls    int
	instrs   int
	reach    map[string]bool
	limit    int
}

func newEffAn(w *World) *effAn {
	return &effAn{W: w, byName: map[string]*region{}, ctxs: map[string]int{}, seenEff: map[string]bool{}, reach: map[string]bool{}, limit: 3000000}
}

func (a *effAn) region(name string, kind rkind) *region {
	if r, ok := a.byName[name]; ok {
		return r
	}
	r := &region{id: len(a.regs), kind: kind, name: name, arg: -1}
	a.regs = append(a.regs, r)
	a.byName[name] = r
	return r
}

func (a *effAn) effect(kind string, pos token.Pos, detail string, r *region) {
	var fn *ssa.Function
	var ch []string
	for _, f := range a.stack {
		ch = append(ch, fnName(a.W, f))
	}
	if len(a.stack) > 0 {
		fn = a.stack[len(a.stack)-1]
	}
	k := fmt.Sprint(kind, pos, detail)
	if a.seenEff[k] {
		return
	}
	a.seenEff[k] = true
	a.effects = append(a.effects, effect{kind, pos, fn, detail, r, strings.Join(ch, " > "), a.openCall})
}

func pointerFree(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !pointerFree(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return pointerFree(u.Elem())
	}
	return false
}

// existing is an arbitrary value of type t made of memory that exists before the call.
func (a *effAn) existing(t types.Type, name string, kind rkind, arg int) *aval {
	return a.existingD(t, name, kind, arg, 0)
}

func (a *effAn) existingD(t types.Type, name string, kind rkind, arg, depth int) *aval {
	if pointerFree(t) {
		return nil
	}
	reg := func() *region {
		r := a.region(name, kind)
		r.arg = arg
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if depth > 6 {
			return mkLocs(loc{r: reg()})
		}
		v := &aval{fields: make([]*aval, u.NumFields())}
		for i := range v.fields {
			nm := name
			if kind == rArg {
				nm = name + "." + u.Field(i).Name()
			}
			v.fields[i] = a.existingD(u.Field(i).Type(), nm, kind, arg, depth+1)
		}
		return v
	case *types.Array:
		return &aval{fields: []*aval{a.existingD(u.Elem(), name, kind, arg, depth+1)}}
	case *types.Tuple:
		v := &aval{}
		for i := 0; i < u.Len(); i++ {
			v.fields = append(v.fields, a.existingD(u.At(i).Type(), name, kind, arg, depth+1))
		}
		return v
	}
	return mkLocs(loc{r: reg()})
}

// deepOf is the region reachable from an existing one.
func (a *effAn) deepOf(r *region) *region {
	if r.kind != rArg {
		return r
	}
	d := a.region(r.name+"…", rDeep)
	d.arg = r.arg
	return d
}

func (a *effAn) load(v *aval, t types.Type, h aheap) *aval {
	if v == nil || pointerFree(t) {
		return nil
	}
	var out *aval
	for _, l := range v.locs {
		if l.r.kind == rFresh {
			out = joinA(out, getPath(h[l.r.id], steps(l.path)))
			continue
		}
		d := a.deepOf(l.r)
		out = joinA(out, a.existing(t, d.name, d.kind, d.arg))
	}
	return out
}

func (a *effAn) store(v, nv *aval, h aheap, pos token.Pos, what string) {
	if v == nil {
		return
	}
	for _, l := range v.locs {
		if l.r.kind != rFresh {
			a.effect("write", pos, what+" "+a.regName(l.r), l.r)
			continue
		}
		if nv == nil && len(v.locs) != 1 {
			continue
		}
		strong := len(v.locs) == 1 && !l.r.loop && !strings.Contains(l.path, "*")
		h[l.r.id] = setPath(h[l.r.id], steps(l.path), nv, strong)
	}
}

func (a *effAn) regName(r *region) string {
	switch r.kind {
	case rGlobal:
		return "package variable " + r.name
	case rArg:
		return "memory of argument " + r.name
	case rDeep:
		return "memory reachable from argument " + strings.TrimSuffix(r.name, "…")
	case rExtern:
		return "memory of unknown origin " + r.name
	}
	return "local memory"
}

// mustEmptyOrFull: slicing x[lo:hi:max] leaves no spare capacity when max is hi.
func sameLen(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if ok && ok2 {
		bx, ok := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		if ok && ok2 && bx.Name() == by.Name() && (bx.Name() == "len" || bx.Name() == "cap") {
			return sameRead(x.Call.Args[0], y.Call.Args[0])
		}
	}
	cx, ok := a.(*ssa.Const)
	cy, ok2 := b.(*ssa.Const)
	if ok && ok2 && cx.Value != nil && cy.Value != nil {
		return cx.Value.ExactString() == cy.Value.ExactString()
	}
	return false
}

// sameRead: two registers reading the same field of the same place with no write between them.
func sameRead(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	u, ok := x.(*ssa.UnOp)
	v, ok2 := y.(*ssa.UnOp)
	if ok && ok2 && u.Op == token.MUL && v.Op == token.MUL && sameAddr(u.X, v.X) && u.Block() == v.Block() {
		between := false
		for _, ins := range u.Block().Instrs {
			if ins == ssa.Instruction(u) || ins == ssa.Instruction(v) {
				if between {
					return true
				}
				between = true
				continue
			}
			if st, ok := ins.(*ssa.Store); ok && between && sameAddr(st.Addr, u.X) {
				return false
			}
		}
		return true
	}
	f, ok := x.(*ssa.Field)
	g, ok2 := y.(*ssa.Field)
	if ok && ok2 {
		return f.Field == g.Field && sameRead(f.X, g.X)
	}
	return false
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	f, ok := x.(*ssa.FieldAddr)
	g, ok2 := y.(*ssa.FieldAddr)
	return ok && ok2 && f.Field == g.Field && sameAddr(f.X, g.X)
}

type aframe struct {
	a    *effAn
	fn   *ssa.Function
	ctx  int
	env  map[ssa.Value]*aval
	ret  *aval
	retH aheap
	loop map[*ssa.BasicBlock]bool
	defs []ssa.CallCommon
}

func (a *effAn) ctxID(ctx int, ins any) int {
	k := fmt.Sprintf("%d/%p", ctx, ins)
	if n, ok := a.ctxs[k]; ok {
		return n
	}
	n := len(a.ctxs) + 1
	a.ctxs[k] = n
	return n
}

// call evaluates fn and gives its results (a tuple when there are several) and the heap after it.
func (a *effAn) call(fn *ssa.Function, args, bind []*aval, h aheap, ctx int) (*aval, aheap) {
	n := 0
	for _, f := range a.stack {
		if f == fn {
			n++
		}
	}
	if n >= 2 || len(a.stack) > 60 || fn.Blocks == nil {
		return nil, h
	}
	a.calls++
	if !a.W.isProbe(fn.Pos()) && fnPkg(fn) == a.W.pkg {
		a.reach[fnName(a.W, fn)] = true
	}
	a.stack = append(a.stack, fn)
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	fr := &aframe{a: a, fn: fn, ctx: ctx, env: map[ssa.Value]*aval{}, loop: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		}
	}
	// blocks on cycles
	for _, b := range fn.Blocks {
		fr.loop[b] = reaches(b, b)
	}
	in := map[*ssa.BasicBlock]aheap{fn.Blocks[0]: h.clone()}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	queued := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	for len(work) > 0 {
		sort.Slice(work, func(i, j int) bool { return work[i].Index < work[j].Index })
		b := work[0]
		work = work[1:]
		queued[b] = false
		out, changed := fr.block(b, in[b].clone())
		for _, s := range b.Succs {
			old, ok := in[s]
			ch := false
			if !ok {
				in[s] = out.clone()
				ch = true
			} else {
				_, ch = old.join(out)
			}
			if (ch || changed) && !queued[s] {
				queued[s] = true
				work = append(work, s)
			}
		}
		if a.instrs > a.limit {
			panic(undecided{fn.Pos(), "effect analysis does not converge"})
		}
	}
	if fn.Recover != nil && fr.retH == nil {
		fr.retH = h
	}
	if fr.retH == nil {
		return nil, h
	}
	return fr.ret, fr.retH
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if b == to {
			return true
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		st = append(st, b.Succs...)
	}
	return false
}

func (fr *aframe) val(v ssa.Value) *aval {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		return &aval{fns: []*aclosure{{x, nil}}}
	case *ssa.Global:
		r := fr.a.region(x.Name(), rGlobal)
		r.glob = x
		return mkLocs(loc{r: r})
	}
	return fr.env[v]
}

func (fr *aframe) site(ins ssa.Instruction, what string) *region {
	r := fr.a.region(fmt.Sprintf("%s@%d/%p", what, fr.ctx, ins), rFresh)
	r.loop = fr.loop[ins.Block()]
	return r
}

// block interprets one block; changed tells whether some register got more values.
func (fr *aframe) block(b *ssa.BasicBlock, h aheap) (aheap, bool) {
	a := fr.a
	changed := false
	set := func(v ssa.Value, n *aval) {
		old, ok := fr.env[v]
		if ok && fr.loop[b] {
			n = joinA(old, n)
		}
		if !ok || old.k() != n.k() {
			changed = true
		}
		fr.env[v] = n
	}
	for _, ins := range b.Instrs {
		a.instrs++
		switch x := ins.(type) {
		case *ssa.Phi:
			var n *aval
			for _, e := range x.Edges {
				n = joinA(n, fr.val(e))
			}
			set(x, n)
		case *ssa.Alloc:
			r := fr.site(x, "alloc")
			if !x.Heap {
				r.loop = false
			}
			if arr, ok := derefT(x.Type()).Underlying().(*types.Array); ok && arr.Len() == 0 {
				r.caps = true
			}
			if !r.loop {
				h[r.id] = nil
			}
			set(x, mkLocs(loc{r: r}))
		case *ssa.MakeSlice:
			r := fr.site(x, "make")
			set(x, mkLocs(loc{r: r}))
		case *ssa.MakeMap:
			set(x, mkLocs(loc{r: fr.site(x, "map")}))
		case *ssa.MakeChan:
			a.effect("concurrency", x.Pos(), "channel made", nil)
		case *ssa.MakeClosure:
			c := &aclosure{fn: x.Fn.(*ssa.Function)}
			for _, e := range x.Bindings {
				c.bind = append(c.bind, fr.val(e))
			}
			set(x, &aval{fns: []*aclosure{c}})
		case *ssa.MakeInterface:
			v := fr.val(x.X)
			set(x, &aval{dyn: []dynVal{{x.X.Type(), v}}})
		case *ssa.ChangeInterface:
			set(x, fr.val(x.X))
		case *ssa.ChangeType:
			set(x, fr.val(x.X))
		case *ssa.Convert:
			fr.convert(x, set)
		case *ssa.MultiConvert:
			set(x, fr.val(x.X))
		case *ssa.SliceToArrayPointer:
			set(x, fr.val(x.X))
		case *ssa.FieldAddr:
			set(x, addStep(fr.val(x.X), strconv.Itoa(x.Field)))
		case *ssa.IndexAddr:
			set(x, addStep(fr.val(x.X), "*"))
		case *ssa.Field:
			set(x, fieldOf(fr.a, fr.val(x.X), x.Field, x.Type()))
		case *ssa.Index:
			set(x, fieldOf(fr.a, fr.val(x.X), 0, x.Type()))
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				if g, ok := x.X.(*ssa.Global); ok {
					fr.readGlobal(g, x.Pos())
				} else if v := fr.val(x.X); v != nil {
					for _, l := range v.locs {
						if l.r.kind == rGlobal {
							fr.readGlobal(l.r.glob, x.Pos())
						}
					}
				}
				set(x, a.load(fr.val(x.X), x.Type(), h))
			case token.ARROW:
				a.effect("concurrency", x.Pos(), "channel receive", nil)
				set(x, a.existing(x.Type(), "channel", rExtern, -1))
			}
		case *ssa.Store:
			a.store(fr.val(x.Addr), fr.val(x.Val), h, x.Pos(), "write into")
		case *ssa.Slice:
			fr.slice(x, set)
		case *ssa.MapUpdate:
			m := fr.val(x.Map)
			if m != nil {
				for _, l := range m.locs {
					if l.r.kind != rFresh {
						a.effect("write", x.Pos(), "map write into "+a.regName(l.r), l.r)
						continue
					}
					h[l.r.id] = joinA(h[l.r.id], &aval{fields: []*aval{fr.val(x.Key), fr.val(x.Value)}})
				}
			}
		case *ssa.Lookup:
			v := fr.val(x.X)
			var n *aval
			t := x.Type()
			if x.CommaOk {
				t = t.(*types.Tuple).At(0).Type()
			}
			if v != nil {
				for _, l := range v.locs {
					if l.r.kind == rGlobal {
						fr.readGlobal(l.r.glob, x.Pos())
					}
					if l.r.kind == rFresh {
						n = joinA(n, getPath(h[l.r.id], []int{1}))
					} else {
						d := a.deepOf(l.r)
						n = joinA(n, a.existing(t, d.name, d.kind, d.arg))
					}
				}
			}
			if x.CommaOk {
				n = &aval{fields: []*aval{n, nil}}
			}
			set(x, n)
		case *ssa.Range:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				a.effect("maprange", x.Pos(), "iteration over a map", nil)
			}
			set(x, fr.val(x.X))
		case *ssa.Next:
			v := fr.val(x.Iter)
			var k, e *aval
			tt := x.Type().(*types.Tuple)
			if !x.IsString && v != nil {
				for _, l := range v.locs {
					if l.r.kind == rFresh {
						k = joinA(k, getPath(h[l.r.id], []int{0}))
						e = joinA(e, getPath(h[l.r.id], []int{1}))
					} else {
						d := a.deepOf(l.r)
						k = joinA(k, a.existing(okType(tt.At(1).Type()), d.name, d.kind, d.arg))
						e = joinA(e, a.existing(okType(tt.At(2).Type()), d.name, d.kind, d.arg))
					}
				}
			}
			set(x, &aval{fields: []*aval{nil, k, e}})
		case *ssa.Extract:
			set(x, fieldOf(a, fr.val(x.Tuple), x.Index, x.Type()))
		case *ssa.TypeAssert:
			set(x, fr.assert(x))
		case *ssa.Call:
			var n *aval
			n, h = fr.doCall(&x.Call, h, x, x.Pos())
			set(x, n)
		case *ssa.Defer:
			_, h = fr.doCall(&x.Call, h, x, x.Pos())
		case *ssa.Go:
			a.effect("concurrency", x.Pos(), "goroutine started", nil)
			_, h = fr.doCall(&x.Call, h, x, x.Pos())
		case *ssa.Send:
			a.effect("concurrency", x.Pos(), "channel send", nil)
		case *ssa.Select:
			a.effect("concurrency", x.Pos(), "select", nil)
		case *ssa.Return:
			var n *aval
			if len(x.Results) == 1 {
				n = fr.val(x.Results[0])
			} else if len(x.Results) > 1 {
				n = &aval{}
				for _, r := range x.Results {
					n.fields = append(n.fields, fr.val(r))
				}
			}
			fr.ret = joinA(fr.ret, n)
			if fr.retH == nil {
				fr.retH = h.clone()
			} else {
				fr.retH.join(h)
			}
		}
	}
	return h, changed
}

func okType(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.Typ[types.Int]
	}
	return t
}

func (fr *aframe) readGlobal(g *ssa.Global, pos token.Pos) {
	if g != nil && g.Pkg == fr.a.W.pkg && fr.a.W.written[g] {
		fr.a.effect("globalread", pos, "read of package variable "+g.Name()+", which changes after initialisation", nil)
	}
}

func addStep(v *aval, s string) *aval {
	if v == nil {
		return nil
	}
	out := &aval{}
	for _, l := range v.locs {
		if l.r.kind == rFresh {
			l.path += "." + s
		}
		l.capped = false
		out.locs = append(out.locs, l)
	}
	return out
}

func fieldOf(a *effAn, v *aval, i int, t types.Type) *aval {
	if v == nil {
		return nil
	}
	var out *aval
	if i < len(v.fields) {
		out = v.fields[i]
	}
	for _, l := range v.locs { // collapsed struct
		if l.r.kind != rFresh && !pointerFree(t) {
			out = joinA(out, a.existing(t, l.r.name, l.r.kind, l.r.arg))
		}
	}
	return out
}

func (fr *aframe) convert(x *ssa.Convert, set func(ssa.Value, *aval)) {
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	if isStr(from) {
		if _, ok := to.(*types.Slice); ok {
			set(x, mkLocs(loc{r: fr.site(x, "bytes")}))
			return
		}
	}
	if isStr(to) {
		set(x, nil)
		return
	}
	set(x, fr.val(x.X))
}

func (fr *aframe) slice(x *ssa.Slice, set func(ssa.Value, *aval)) {
	v := fr.val(x.X)
	if v == nil || isStr(x.Type()) {
		set(x, nil)
		return
	}
	// x[:n:n], x[n:n:n]
	capped := x.Max != nil && x.High != nil && sameLen(x.Max, x.High)
	var arr *types.Array
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr, _ = p.Elem().Underlying().(*types.Array)
		if arr != nil && x.High == nil && x.Max == nil {
			capped = true // a whole array
		}
	}
	if k, ok := x.Max.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
		set(x, nil) // no capacity: refers to nothing
		return
	}
	out := &aval{}
	for _, l := range v.locs {
		if l.r.caps {
			continue
		}
		// a slice of a full slice up to its end stays full
		l.capped = capped || l.capped && x.High == nil && x.Max == nil
		out.locs = append(out.locs, l)
	}
	set(x, out)
}

func (fr *aframe) assert(x *ssa.TypeAssert) *aval {
	v := fr.val(x.X)
	var n *aval
	t := x.AssertedType
	_, toIface := t.Underlying().(*types.Interface)
	if v != nil {
		if toIface {
			n = v
			if it, ok := t.Underlying().(*types.Interface); ok && len(v.dyn) > 0 {
				n = &aval{locs: v.locs, fields: v.fields, fns: v.fns}
				for _, d := range v.dyn {
					if types.Implements(d.t, it) {
						n.dyn = append(n.dyn, d)
					}
				}
			}
		} else {
			for _, d := range v.dyn {
				if types.Identical(d.t, t) {
					n = joinA(n, d.v)
				}
			}
			for _, l := range v.locs {
				if l.r.kind == rFresh {
					continue
				}
				n = joinA(n, fr.a.existing(t, l.r.name, l.r.kind, l.r.arg))
			}
		}
	}
	if x.CommaOk {
		return &aval{fields: []*aval{n, nil}}
	}
	return n
}

// all places a value refers to, directly or inside structs and interfaces
func (v *aval) all(f func(l loc)) {
	if v == nil {
		return
	}
	for _, l := range v.locs {
		f(l)
	}
	for _, x := range v.fields {
		x.all(f)
	}
	for _, d := range v.dyn {
		d.v.all(f)
	}
	for _, c := range v.fns {
		for _, x := range c.bind {
			x.all(f)
		}
	}
}

// reachable lists every region reachable from v in h.
func (a *effAn) reachable(v *aval, h aheap) map[*region]bool {
	out := map[*region]bool{}
	var walk func(v *aval)
	walk = func(v *aval) {
		v.all(func(l loc) {
			if out[l.r] {
				return
			}
			out[l.r] = true
			if l.r.kind == rFresh {
				walk(h[l.r.id])
			}
		})
	}
	walk(v)
	return out
}

// foreign is the result of code the analysis does not see: memory reachable from what it was given.
func (a *effAn) foreign(t types.Type, given []*aval, h aheap) *aval {
	if t == nil || pointerFree(t) {
		return nil
	}
	if tt, ok := t.(*types.Tuple); ok {
		out := &aval{}
		for i := 0; i < tt.Len(); i++ {
			out.fields = append(out.fields, a.foreign(tt.At(i).Type(), given, h))
		}
		return out
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return nil
	}
	var out *aval
	for _, g := range given {
		for r := range a.reachable(g, h) {
			if r.kind != rFresh {
				d := a.deepOf(r)
				out = joinA(out, a.existing(t, d.name, d.kind, d.arg))
			}
		}
	}
	return out
}

func resType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (fr *aframe) doCall(c *ssa.CallCommon, h aheap, ins ssa.Instruction, pos token.Pos) (*aval, aheap) {
	a := fr.a
	var args []*aval
	for _, x := range c.Args {
		args = append(args, fr.val(x))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(b, c, args, h, ins, pos)
	}
	if c.IsInvoke() {
		return fr.invoke(c, args, h, ins, pos)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []*aval
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, x := range mc.Bindings {
				bind = append(bind, fr.val(x))
			}
		}
		return fr.callFn(fn, args, bind, h, ins, pos)
	}
	fv := fr.val(c.Value)
	var out *aval
	var hh aheap
	if fv != nil {
		for _, f := range fv.fns {
			r, h2 := fr.callFn(f.fn, args, f.bind, h.clone(), ins, pos)
			out = joinA(out, r)
			if hh == nil {
				hh = h2
			} else {
				hh.join(h2)
			}
		}
		if len(fv.locs) > 0 {
			out = joinA(out, a.foreign(resType(c.Signature()), append(args, fv), h))
		}
	}
	if hh == nil {
		hh = h
	}
	return out, hh
}

func (fr *aframe) invoke(c *ssa.CallCommon, args []*aval, h aheap, ins ssa.Instruction, pos token.Pos) (*aval, aheap) {
	a := fr.a
	recv := fr.val(c.Value)
	var out *aval
	var hh aheap
	merge := func(r *aval, h2 aheap) {
		out = joinA(out, r)
		if hh == nil {
			hh = h2
		} else {
			hh.join(h2)
		}
	}
	if recv != nil {
		for _, d := range recv.dyn {
			if types.NewMethodSet(d.t).Lookup(c.Method.Pkg(), c.Method.Name()) == nil {
				continue // a type met on another path
			}
			m := a.W.prog.LookupMethod(d.t, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				continue
			}
			r, h2 := fr.callFn(m, append([]*aval{d.v}, args...), nil, h.clone(), ins, pos)
			merge(r, h2)
		}
		for _, l := range recv.locs {
			if l.r.kind != rFresh {
				// a method of a value that existed before the call: methods of the package are analysed
				// as entries themselves, they write to nothing that existed before
				merge(a.foreign(resType(c.Signature()), append([]*aval{mkLocs(l)}, args...), h), h.clone())
			}
		}
	}
	if hh == nil {
		hh = h
	}
	return out, hh
}

// growing handles slices.Insert and slices.Grow, whose bodies choose between memory given and new memory by comparing
// lengths with capacities.
func (fr *aframe) growing(fn *ssa.Function, args []*aval, h aheap, ins ssa.Instruction, pos token.Pos) (*aval, bool) {
	a := fr.a
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	insert := name == "slices.Insert" && len(args) == 3
	if !insert && (name != "slices.Grow" || len(args) != 2) {
		return nil, false
	}
	elems := func(i int) *aval {
		sl, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice)
		if !ok || args[i] == nil {
			return nil
		}
		return a.load(addStep(args[i], "*"), sl.Elem(), h)
	}
	var add *aval
	if insert {
		add = elems(2)
	}
	content := joinA(elems(0), add)
	r := fr.site(ins, name)
	h[r.id] = joinA(h[r.id], &aval{fields: []*aval{content}})
	out := mkLocs(loc{r: r})
	if args[0] != nil {
		for _, l := range args[0].locs {
			if insert && !l.capped {
				if l.r.kind != rFresh {
					a.effect("write", pos, "slices.Insert may write into "+a.regName(l.r), l.r)
				} else {
					h[l.r.id] = setPath(h[l.r.id], append(steps(l.path), 0), content, false)
				}
			}
			out = joinA(out, mkLocs(l)) // nothing inserted, or room enough
		}
	}
	return out, true
}

func (fr *aframe) callFn(fn *ssa.Function, args, bind []*aval, h aheap, ins ssa.Instruction, pos token.Pos) (*aval, aheap) {
	a := fr.a
	if out, ok := fr.growing(fn, args, h, ins, pos); ok {
		return out, h
	}
	if a.W.inline(fn) && fn.Blocks != nil {
		return a.call(fn, args, bind, h, a.ctxID(fr.ctx, fmt.Sprintf("%p%p", ins, fn)))
	}
	p := fnPkg(fn)
	path := ""
	if p != nil {
		path = p.Pkg.Path()
	}
	name := fn.RelString(nil)
	sig := fn.Signature
	// functions given to the outside are called by it
	for _, x := range args {
		if x == nil {
			continue
		}
		for _, f := range x.fns {
			var ps []*aval
			for i := 0; i < f.fn.Signature.Params().Len(); i++ {
				ps = append(ps, a.foreign(f.fn.Signature.Params().At(i).Type(), args, h))
			}
			_, h = fr.callFn(f.fn, ps, f.bind, h, ins, pos)
		}
	}
	writes := func(v *aval) {
		if v == nil {
			return
		}
		v.all(func(l loc) {
			if l.r.kind != rFresh {
				a.effect("write", pos, name+" writes into "+a.regName(l.r), l.r)
			}
		})
	}
	switch {
	case path == "strings" || path == "bytes":
		if sig.Recv() != nil && (strings.HasSuffix(sig.Recv().Type().String(), "Builder") || strings.HasSuffix(sig.Recv().Type().String(), "Buffer")) && len(args) > 0 {
			switch fn.Name() {
			case "String", "Len", "Cap", "Bytes":
			default:
				writes(args[0])
			}
		}
	case path == "sort" && sig.Recv() == nil && strings.HasPrefix(fn.Name(), "S") && !strings.HasPrefix(fn.Name(), "Search"):
		if len(args) > 0 {
			writes(args[0])
		}
	case path == "sort":
	case path == "reflect":
		n := fn.Name()
		if strings.HasPrefix(n, "Set") || n == "Swapper" || n == "Copy" || n == "Append" || n == "Call" || n == "Clear" || n == "AppendSlice" {
			for _, x := range args {
				writes(x)
			}
		}
		return a.foreign(resType(sig), args, h), h
	case path == "fmt" && strings.HasPrefix(fn.Name(), "Fprint") && len(args) > 0 && fr.memWriter(args[0]):
		// writes to text buffers only
		for _, d := range args[0].dyn {
			writes(d.v)
		}
	case path == "fmt" && strings.HasPrefix(fn.Name(), "Sscan") && len(args) > 0:
		// reads text, writes to what it is given
		for _, x := range args[1:] {
			writes(x)
		}
	case a.W.pure(fn):
		if path == "fmt" && strings.HasPrefix(fn.Name(), "Append") && len(args) > 0 {
			writes(args[0])
		}
	default:
		if !worldly[path] && path != "" {
			// a library function not known here may do anything
			a.openCall = true
			defer func() { a.openCall = false }()
		}
		a.effect("extern", pos, "call of "+name, nil)
		for _, x := range args {
			writes(x)
		}
		return a.foreign(resType(sig), args, h), h
	}
	if t := resType(sig); t != nil && !pointerFree(t) {
		// results of pure library functions: new memory holding what was passed
		return fr.freshOf(t, args, h, ins), h
	}
	return nil, h
}

// memWriter: the writer is a text buffer in memory, whatever branch was taken.
func (fr *aframe) memWriter(v *aval) bool {
	if v == nil || len(v.locs) > 0 || len(v.dyn) == 0 {
		return false
	}
	for _, d := range v.dyn {
		switch d.t.String() {
		case "*strings.Builder", "*bytes.Buffer":
		default:
			return false
		}
	}
	return true
}

// freshOf is a new value of type t whose content may refer to the given values.
func (fr *aframe) freshOf(t types.Type, given []*aval, h aheap, ins ssa.Instruction) *aval {
	if t == nil || pointerFree(t) || types.Identical(t, types.Universe.Lookup("error").Type()) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Tuple:
		out := &aval{}
		for i := 0; i < u.Len(); i++ {
			out.fields = append(out.fields, fr.freshOf(u.At(i).Type(), given, h, ins))
		}
		return out
	case *types.Slice, *types.Pointer, *types.Map:
		return mkLocs(loc{r: fr.site(ins, "extern")})
	}
	return fr.a.foreign(t, given, h)
}

func (fr *aframe) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []*aval, h aheap, ins ssa.Instruction, pos token.Pos) (*aval, aheap) {
	a := fr.a
	elems := func(v *aval, t types.Type) *aval {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		return a.load(addStep(v, "*"), sl.Elem(), h)
	}
	switch b.Name() {
	case "append":
		x := args[0]
		adding := len(c.Args) > 1
		if adding {
			if k, ok := c.Args[1].(*ssa.Const); ok && k.Value == nil {
				adding = false
			}
		}
		if adding && x != nil {
			for _, l := range x.locs {
				if l.r.kind != rFresh && !l.capped {
					a.effect("write", pos, "append may write into spare capacity of "+a.regName(l.r), l.r)
				}
			}
		}
		r := fr.site(ins, "append")
		var add *aval
		if len(c.Args) > 1 {
			add = elems(args[1], c.Args[1].Type())
		}
		content := joinA(elems(x, c.Args[0].Type()), add)
		h[r.id] = joinA(h[r.id], &aval{fields: []*aval{content}})
		out := mkLocs(loc{r: r})
		// nothing appended, or spare capacity: the result is the argument
		if x != nil {
			for _, l := range x.locs {
				if l.r.kind == rFresh && add != nil && !l.capped {
					h[l.r.id] = setPath(h[l.r.id], append(steps(l.path), 0), add, false)
				}
				if l.capped && (l.r.kind == rFresh || addsSome(c)) {
					continue
				}
				// a full slice is copied unless nothing is added; sharing it then is harmless to
				// everybody but a caller who receives it, so keep it
				out = joinA(out, mkLocs(l))
			}
		}
		return out, h
	case "copy":
		if args[0] != nil {
			var add *aval
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && !isStr(c.Args[1].Type()) {
				_ = sl
				add = elems(args[1], c.Args[1].Type())
			}
			for _, l := range args[0].locs {
				if l.r.kind != rFresh {
					a.effect("write", pos, "copy into "+a.regName(l.r), l.r)
					continue
				}
				h[l.r.id] = setPath(h[l.r.id], append(steps(l.path), 0), add, false)
			}
		}
	case "clear", "delete":
		if args[0] != nil {
			for _, l := range args[0].locs {
				if l.r.kind != rFresh {
					a.effect("write", pos, b.Name()+" of "+a.regName(l.r), l.r)
				}
			}
		}
	case "close":
		a.effect("concurrency", pos, "channel closed", nil)
	case "print", "println":
		a.effect("extern", pos, b.Name(), nil)
	case "recover":
		return nil, h
	case "ssa:wrapnilchk":
		return args[0], h
	case "min", "max", "len", "cap", "panic", "real", "imag", "complex":
	}
	return nil, h
}

// addsSome: append is given at least one element.
func addsSome(c *ssa.CallCommon) bool {
	if len(c.Args) < 2 {
		return false
	}
	s, ok := c.Args[1].(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil || s.Max != nil {
		return false
	}
	p, ok := s.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	arr, ok := p.Elem().Underlying().(*types.Array)
	return ok && arr.Len() > 0
}

// EntryEffects is what one entry does to memory that existed before it was called.
type EntryEffects struct {
	fn  *ssa.Function
	an  *effAn
	ret *aval
	h   aheap
	err string
}

func (w *World) effectsOf(fn *ssa.Function) (e EntryEffects) {
	a := newEffAn(w)
	e.fn, e.an = fn, a
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				e.err = u.msg
				return
			}
			panic(x)
		}
	}()
	var args []*aval
	for i, p := range fn.Params {
		nm := p.Name()
		if nm == "" || nm == "_" {
			nm = "#" + strconv.Itoa(i)
		}
		args = append(args, a.existing(p.Type(), nm, rArg, i))
	}
	e.ret, e.h = a.call(fn, args, nil, aheap{}, 0)
	return
}
