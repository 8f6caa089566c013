package main

// Abstract evaluation of SSA functions over the value-graph domain of term.go.
//
// Control-flow joins merge states through gates (sel); every call to a function of the analysed
// package is replaced by its summary graph computed in place; calls that leave the package become
// uninterpreted applications, except for the small set of library models in models.go.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an effect met while evaluating, with the condition under which it happens.
type Event struct {
	Kind   string
	Pos    token.Pos
	Fn     *ssa.Function
	Guard  *Node
	Detail string
	Chain  string
	Val    *Term
	heap   heap  // memory at a panic that may be recovered from
	with   *Node // what it panics with, when known
}

// panicState is a panic met while functions deferred by the frame at depth run.
type panicState struct {
	depth     int
	val       *Node
	recovered *Node // when recover has been called
}

func panics(kind string) bool {
	return kind == "panic" || kind == "nilderef" || kind == "index" || kind == "typeassert"
}

type Obj struct {
	id       int64
	typ      types.Type
	shared   bool // memory that existed before the analysed call
	name     string
	init     *Node
	iterOf   *Term // map iterators
	iterText *Node // text iterators
}

type undecided struct {
	pos token.Pos
	msg string
}

type Eval struct {
	W          *World
	objs       []*Obj
	ptrObj     map[*Term]int64
	globObj    map[*ssa.Global]int64
	events     []Event
	catch      int         // frames that may recover from panics
	curH       heap        // memory at the instruction being interpreted
	pan        *panicState // the panic deferred functions run for
	panicVal   *Node
	stack      []*ssa.Function
	chain      []string
	steps      int
	limit      int
	opaque     func(fn *ssa.Function) bool
	initing    bool
	errN       int
	cut        int // longest list of unknown length to analyse; negative: no limit
	bounded    map[string]bool
	enums      bool            // inputs of enumerated types take the declared constants
	okValuers  bool            // driver.Valuer values convert without error
	reach      map[string]bool // functions of the package evaluated
	entry      map[string]bool // functions of the package called by probe code
	calls      int
	notes      []note
	memo       map[memoKey]memoVal
	sharedObjs []*Obj // memory not made by the evaluated code
}

func NewEval(w *World) *Eval {
	ev := &Eval{W: w, ptrObj: map[*Term]int64{}, globObj: map[*ssa.Global]int64{}, limit: 60000000, cut: 3, bounded: map[string]bool{},
		reach: map[string]bool{}, entry: map[string]bool{}, memo: map[memoKey]memoVal{}}
	ev.objs = append(ev.objs, nil)
	return ev
}

func (ev *Eval) fail(pos token.Pos, f string, a ...any) {
	panic(undecided{pos, fmt.Sprintf(f, a...)})
}

func (ev *Eval) event(kind string, pos token.Pos, g *Node, detail string, val *Term) {
	if g == False || ev.initing {
		return
	}
	var fn *ssa.Function
	if len(ev.stack) > 0 {
		fn = ev.stack[len(ev.stack)-1]
	}
	e := Event{Kind: kind, Pos: pos, Fn: fn, Guard: g, Detail: detail,
		Chain: strings.Join(ev.chain, " > "), Val: val}
	if ev.catch > 0 && panics(kind) && ev.curH != nil {
		e.heap = ev.curH.clone()
		e.with = ev.panicVal
	}
	ev.events = append(ev.events, e)
}

func (ev *Eval) newObj(typ types.Type, name string, shared bool) *Obj {
	o := &Obj{id: int64(len(ev.objs)), typ: typ, name: name, shared: shared}
	ev.objs = append(ev.objs, o)
	if shared {
		ev.sharedObjs = append(ev.sharedObjs, o)
	}
	return o
}

func refT(o *Obj) *Term { return mk(Term{op: ORef, n: o.id, typ: o.typ}) }
func ptrT(id int64, steps ...*Term) *Term {
	return mk(Term{op: OPtr, n: id, args: steps})
}

// fresh slice with content c
func (ev *Eval) newSlice(h heap, typ types.Type, c *Node) *Node {
	o := ev.newObj(typ, "slice", false)
	h.set(o.id, c)
	return leaf(refT(o))
}

// ---------- memory ----------

// objFor returns the object standing for the memory an opaque pointer or slice refers to.
func (ev *Eval) objFor(t *Term) *Obj {
	if id, ok := ev.ptrObj[t]; ok {
		return ev.objs[id]
	}
	o := ev.newObj(t.typ, t.String(), true)
	if t.typ != nil {
		switch u := t.typ.Underlying().(type) {
		case *types.Pointer:
			o.init = opaque(mk(Term{op: OCall, s: "deref", args: []*Term{t}, typ: u.Elem()}), u.Elem())
		default:
			o.init = leaf(t)
		}
	} else {
		o.init = leaf(t)
	}
	ev.ptrObj[t] = o.id
	return o
}

func (ev *Eval) globalPtr(g *ssa.Global) *Term {
	if id, ok := ev.globObj[g]; ok {
		return ptrT(id)
	}
	et := g.Type().(*types.Pointer).Elem()
	o := ev.newObj(et, "global "+g.Name(), true)
	ev.globObj[g] = o.id
	if ev.initing {
		o.init = zero(et)
	} else if n, ok := ev.W.globals[g]; ok {
		o.init = n
	} else {
		o.init = opaque(mk(Term{op: OVar, s: "global:" + g.RelString(nil), typ: et}), et)
	}
	return ptrT(o.id)
}

func (ev *Eval) content(id int64, h heap) *Node {
	if n, ok := h.get(id); ok {
		return n
	}
	o := ev.objs[id]
	if o.init != nil {
		return o.init
	}
	return Bot
}

// sliceContent is the list held by a slice (or string) leaf.
func (ev *Eval) sliceContent(t *Term, h heap) *Node {
	switch t.op {
	case ORef:
		return ev.content(t.n, h)
	case OSub:
		return lift1(func(b *Term) *Node { return subListT(b, t.args[1], t.args[2], false) }, ev.sliceContent(t.args[0], h))
	case ONil:
		return leaf(mkList(nil))
	case OList, OStr, OCat, OItoa, OFor:
		return leaf(t)
	}
	if id, ok := ev.ptrObj[t]; ok {
		return ev.content(id, h)
	}
	return leaf(t)
}

func (ev *Eval) lenOf(t *Term, h heap) *Node {
	if t.op == OSub {
		return leaf(subT(t.args[2], t.args[1]))
	}
	return lift1(lenT, ev.sliceContent(t, h))
}

// baseObj returns the object and offset of a slice leaf, or nil when its memory is unknown.
func (ev *Eval) baseObj(t *Term) (*Obj, *Term) {
	switch t.op {
	case ORef:
		return ev.objs[t.n], iLit(0)
	case OSub:
		o, off := ev.baseObj(t.args[0])
		if o == nil {
			return nil, nil
		}
		return o, addT(off, t.args[1])
	case ONil:
		return nil, nil
	}
	return ev.objFor(t), iLit(0)
}

func stepField(i int) *Term   { return mk(Term{op: OField, n: int64(i)}) }
func stepIndex(i *Term) *Term { return mk(Term{op: OIndex, args: []*Term{asLin(i)}}) }
func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// loadPath reads a component of v (of type typ).
func loadPath(v *Node, typ types.Type, steps []*Term) *Node {
	for _, s := range steps {
		if s.op == OField {
			i := int(s.n)
			v = lift1(func(t *Term) *Node {
				if t.op == OStruct {
					return t.nodes[i]
				}
				return opaque(mk(Term{op: OField, args: []*Term{t}, n: int64(i), typ: fieldT(typ, i)}), fieldT(typ, i))
			}, v)
			typ = fieldT(typ, i)
		} else {
			et := elemType(typ)
			v = lift1(func(t *Term) *Node { return indexT(t, s.args[0], et) }, v)
			typ = et
		}
	}
	return v
}

func fieldT(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Type()
	}
	return nil
}

func storePath(old *Node, typ types.Type, steps []*Term, v *Node) *Node {
	if len(steps) == 0 {
		return v
	}
	s := steps[0]
	if s.op == OField {
		i := int(s.n)
		return lift1(func(t *Term) *Node {
			var fs []*Node
			if t.op == OStruct {
				fs = append(fs, t.nodes...)
			} else {
				x := opaque(t, typ)
				if x.leaf == nil || x.leaf.op != OStruct {
					return leaf(t)
				}
				fs = append(fs, x.leaf.nodes...)
				t = x.leaf
			}
			fs[i] = storePath(fs[i], fieldT(typ, i), steps[1:], v)
			return leaf(mkStruct(t.typ, fs))
		}, old)
	}
	et := elemType(typ)
	return lift1(func(t *Term) *Node {
		ov := v
		if len(steps) > 1 {
			ov = storePath(indexT(t, s.args[0], et), et, steps[1:], v)
		}
		return leaf(setIndexT(t, s.args[0], ov))
	}, old)
}

func (ev *Eval) load(addr *Node, typ types.Type, h heap, pos token.Pos) *Node {
	return lift1(func(p *Term) *Node {
		switch p.op {
		case OPtr:
			o := ev.objs[p.n]
			return loadPath(ev.content(p.n, h), o.typ, p.args)
		case OBox:
			return p.nodes[0]
		case ONil:
			return Bot
		}
		o := ev.objFor(p)
		return ev.content(o.id, h)
	}, addr)
}

func (ev *Eval) store(addr, v *Node, h heap, g *Node, pos token.Pos) {
	ls := leaves(addr)
	for _, p := range ls {
		var id int64
		var steps []*Term
		switch p.op {
		case OPtr:
			id, steps = p.n, p.args
		case ONil:
			continue
		case OBox:
			ev.fail(pos, "store through a frozen pointer")
		default:
			id = ev.objFor(p).id
		}
		o := ev.objs[id]
		pg := guardOf(addr, p)
		if o.shared {
			ev.event("store", pos, And(g, pg), "write into "+ev.memName(o, steps), p)
		}
		old := ev.content(id, h)
		nv := storePath(old, objContentType(o), steps, v)
		if len(ls) > 1 {
			nv = sel([]gv{{pg, nv}, {Not(pg), old}})
		}
		h.set(id, nv)
	}
}

func (ev *Eval) memName(o *Obj, steps []*Term) string {
	s := o.name
	for _, st := range steps {
		if st.op == OField {
			s += fmt.Sprintf(".field%d", st.n)
		} else {
			s += "[" + st.args[0].String() + "]"
		}
	}
	return s
}

func objContentType(o *Obj) types.Type {
	if o.typ == nil {
		return nil
	}
	if p, ok := o.typ.Underlying().(*types.Pointer); ok && o.shared && o.init != nil && strings.HasPrefix(o.name, "global ") == false {
		return p.Elem()
	}
	return o.typ
}

// resolve replaces references to memory by the content of that memory.
func (ev *Eval) resolve(n *Node, h heap) *Node {
	memo := map[*Node]*Node{}
	depth := 0
	var rn func(n *Node) *Node
	var rt func(t *Term) *Node
	rn = func(n *Node) *Node {
		if r, ok := memo[n]; ok {
			return r
		}
		depth++
		if depth > 400 {
			ev.fail(token.NoPos, "cyclic or too deep memory graph")
		}
		var r *Node
		if n.leaf != nil {
			r = rt(n.leaf)
		} else {
			h, l := rn(n.hi), rn(n.lo)
			r = iteB(atomN(n.atom), h, l)
		}
		depth--
		memo[n] = r
		return r
	}
	rt = func(t *Term) *Node {
		switch t.op {
		case ORef:
			return rn(ev.content(t.n, h))
		case OPtr:
			o := ev.objs[t.n]
			if o.shared && len(t.args) == 0 && strings.HasPrefix(o.name, "global ") {
				return leaf(t)
			}
			c := rn(loadPath(ev.content(t.n, h), objContentType(o), t.args))
			return leaf(mk(Term{op: OBox, nodes: []*Node{c}}))
		case OStr, OBool, ONil, OVar, OBot, OErr, OGe, OEq, OClosure:
			if t.op != OClosure {
				return leaf(t)
			}
		}
		if len(t.args) == 0 && len(t.nodes) == 0 {
			if _, ok := ev.ptrObj[t]; ok {
				return ev.sliceContent(t, h)
			}
			return leaf(t)
		}
		if !hasRef(t) {
			return leaf(t)
		}
		args := make([]*Node, len(t.args))
		for i, a := range t.args {
			if t.op == OFor || t.op == OExists || t.op == OSum || t.op == OFirst {
				args[i] = leaf(a)
			} else {
				args[i] = rt(a)
			}
		}
		nodes := make([]*Node, len(t.nodes))
		for i, a := range t.nodes {
			nodes[i] = rn(a)
		}
		if len(args) == 0 {
			return remake(t, nil, nodes, nil)
		}
		return lift(func(as []*Term) *Node { return remake(t, as, nodes, nil) }, args...)
	}
	return rn(n)
}

var hasRefM = map[*Term]bool{}
var hasRefNM = map[*Node]bool{}

func hasRef(t *Term) bool {
	if t.op == ORef || t.op == OPtr {
		return true
	}
	if r, ok := hasRefM[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		r = r || hasRef(a)
	}
	for _, a := range t.nodes {
		r = r || hasRefN(a)
	}
	hasRefM[t] = r
	return r
}

func hasRefN(n *Node) bool {
	if n.leaf != nil {
		return hasRef(n.leaf)
	}
	if r, ok := hasRefNM[n]; ok {
		return r
	}
	r := hasRefN(n.hi) || hasRefN(n.lo)
	hasRefNM[n] = r
	return r
}

// ---------- frames ----------

type edge struct {
	from, to *ssa.BasicBlock
	guard    *Node
	h        heap
	phis     map[*ssa.Phi]*Node
	outs     map[ssa.Value]*Node
}

type retEdge struct {
	guard *Node
	h     heap
	vals  []*Node
}

type deferred struct {
	guard *Node
	call  *ssa.CallCommon
	args  []*Node
	fnv   *Node
	pos   token.Pos
}

type frame struct {
	ev     *Eval
	fn     *ssa.Function
	env    map[ssa.Value]*Node
	rets   []retEdge
	defers []deferred
	lo     *loopInfo
	chars  *charLoop // the loop over the characters of a text being summarised
}

type result struct {
	guard *Node
	h     heap
	vals  []*Node
}

const maxDepth = 80

func (ev *Eval) callSSA(fn *ssa.Function, args, bind []*Node, g *Node, h heap) result {
	if len(ev.stack) > maxDepth {
		ev.fail(fn.Pos(), "call depth limit in %s", fn)
	}
	n := 0
	for _, f := range ev.stack {
		if f == fn {
			n++
		}
	}
	if n > 64 {
		ev.fail(fn.Pos(), "recursion limit in %s", fn)
	}
	ev.calls++
	if !ev.W.isProbe(fn.Pos()) && fnPkg(fn) == ev.W.pkg && (fn.Synthetic == "" || fn.Origin() != nil) {
		nm := fn.RelString(ev.W.tpkg)
		ev.reach[nm] = true
		if len(ev.stack) > 0 && ev.W.isProbe(ev.stack[len(ev.stack)-1].Pos()) {
			ev.entry[nm+" ("+ev.W.pos(fn.Pos())+")"] = true
		}
	}
	ev.stack = append(ev.stack, fn)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	fr := &frame{ev: ev, fn: fn, env: map[ssa.Value]*Node{}, lo: ev.W.loopsOf(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			fr.env[v] = bind[i]
		}
	}
	if fn.Recover != nil {
		from := len(ev.events)
		ev.catch++
		fr.run(nil, fn.Blocks[0], []edge{{to: fn.Blocks[0], guard: g, h: h}})
		ev.catch--
		fr.unwind(from)
	} else {
		fr.run(nil, fn.Blocks[0], []edge{{to: fn.Blocks[0], guard: g, h: h}})
	}
	if len(fr.rets) == 0 {
		nr := fn.Signature.Results().Len()
		vals := make([]*Node, nr)
		for i := range vals {
			vals[i] = Bot
		}
		return result{guard: False, h: h, vals: vals}
	}
	if len(fr.rets) == 1 {
		r := fr.rets[0]
		return result{r.guard, r.h, r.vals}
	}
	out := False
	var hs []heap
	var gs []*Node
	for _, r := range fr.rets {
		out = Or(out, r.guard)
		hs = append(hs, r.h)
		gs = append(gs, r.guard)
	}
	vals := make([]*Node, len(fr.rets[0].vals))
	for i := range vals {
		var in []gv
		for _, r := range fr.rets {
			in = append(in, gv{r.guard, r.vals[i]})
		}
		vals[i] = sel(in)
	}
	return result{out, mergeHeaps(gs, hs), vals}
}

// unwind runs the deferred functions for the panics met since an event, and the way out of the function for
// those recovered from; the rest goes on panicking.
func (fr *frame) unwind(from int) {
	ev := fr.ev
	if len(fr.defers) == 0 {
		return
	}
	var caught []int
	var hs []heap
	var gs []*Node
	var vs []gv
	pg := False
	for i := from; i < len(ev.events); i++ {
		e := ev.events[i]
		if !panics(e.Kind) || e.heap == nil {
			continue
		}
		v := e.with
		if v == nil {
			t := types.Type(types.NewInterfaceType(nil, nil))
			v = opaque(mk(Term{op: OCall, s: "not decided: recovered run-time error " + e.Detail, typ: t}), t)
		}
		caught = append(caught, i)
		hs, gs, vs = append(hs, e.heap), append(gs, e.Guard), append(vs, gv{e.Guard, v})
		pg = Or(pg, e.Guard)
	}
	if pg == False {
		return
	}
	h, g := mergeHeaps(gs, hs), pg
	if len(hs) == 1 {
		h = hs[0].clone()
	}
	old := ev.pan
	defer func() { ev.pan = old }()
	state := &panicState{depth: len(ev.stack), val: sel(vs), recovered: False}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		dg := And(g, d.guard)
		if dg == False {
			continue
		}
		ev.pan = state
		r := fr.call(d.call, d.fnv, d.args, dg, h.clone(), d.pos)
		rest := And(g, Not(d.guard))
		h = ev.mergeShared([]*Node{r.guard, rest}, []heap{r.h, h})
		g = Or(r.guard, rest)
	}
	for _, i := range caught {
		ev.events[i].Guard = And(ev.events[i].Guard, Not(state.recovered))
	}
	ev.pan = old
	if g := And(g, state.recovered); g != False {
		fr.evalBlock(fr.fn.Recover, []edge{{to: fr.fn.Recover, guard: g, h: h}})
	}
}

func (fr *frame) run(region *loop, start *ssa.BasicBlock, in []edge) (backs, exits []edge) {
	pending := map[*ssa.BasicBlock][]edge{start: in}
	for _, b := range fr.lo.rpo {
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		var live []edge
		for _, e := range es {
			if e.guard != False && e.guard != Bot {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		var outs []edge
		if l := fr.lo.header[b]; l != nil && l != region {
			outs = fr.evalLoop(l, live)
		} else {
			outs = fr.evalBlock(b, live)
		}
		for _, e := range outs {
			if e.guard == False || e.guard == Bot {
				continue
			}
			switch {
			case region != nil && e.to == region.head:
				backs = append(backs, e)
			case region != nil && !region.blocks[e.to]:
				exits = append(exits, e)
			default:
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	return
}

// mergeIn merges the incoming edges of a block.
func (fr *frame) mergeIn(b *ssa.BasicBlock, in []edge) (*Node, heap) {
	g := False
	var gs []*Node
	var hs []heap
	for _, e := range in {
		g = Or(g, e.guard)
		gs = append(gs, e.guard)
		hs = append(hs, e.h)
	}
	h := fr.ev.mergeShared(gs, hs)
	if len(in) > 1 {
		// mergeShared builds a new map
	} else {
		h = h.clone()
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []gv
		for _, e := range in {
			vs = append(vs, gv{e.guard, e.phis[p]})
		}
		fr.env[p] = sel(vs)
	}
	return g, h
}

func (fr *frame) mkEdge(from, to *ssa.BasicBlock, idx int, g *Node, h heap) edge {
	e := edge{from: from, to: to, guard: g, h: h}
	if g == False {
		return e
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			// two edges between the same blocks: pick by successor order
			pi = i
			if idx == 0 {
				break
			}
		}
	}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if e.phis == nil {
			e.phis = map[*ssa.Phi]*Node{}
		}
		e.phis[p] = fr.val(p.Edges[pi])
	}
	return e
}

func (fr *frame) val(v ssa.Value) *Node {
	switch x := v.(type) {
	case *ssa.Const:
		return constN(x)
	case *ssa.Global:
		return leaf(fr.ev.globalPtr(x))
	case *ssa.Function:
		return leaf(mk(Term{op: OClosure, fn: x}))
	case *ssa.Builtin:
		return leaf(mk(Term{op: OVar, s: "builtin " + x.Name()}))
	}
	if n, ok := fr.env[v]; ok {
		return n
	}
	return Bot
}

func constN(c *ssa.Const) *Node {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return bLit(constant.BoolVal(c.Value))
	case constant.String:
		return leaf(sLit(constant.StringVal(c.Value)))
	case constant.Int:
		if isInt(c.Type()) {
			if v, ok := constant.Int64Val(c.Value); ok {
				return leaf(iLit(v))
			}
		}
	}
	return leaf(mk(Term{op: OVar, s: "const:" + c.Value.ExactString(), typ: c.Type()}))
}

func tuple(vals []*Node) *Node { return leaf(mk(Term{op: OTuple, nodes: vals})) }

func (fr *frame) evalBlock(b *ssa.BasicBlock, in []edge) []edge {
	ev := fr.ev
	g, h := fr.mergeIn(b, in)
	for _, ins := range b.Instrs {
		ev.steps++
		if ev.steps > ev.limit {
			ev.fail(ins.Pos(), "evaluation budget exhausted")
		}
		ev.curH = h
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []edge{fr.mkEdge(b, b.Succs[0], 0, g, h)}
		case *ssa.If:
			c := boolN(fr.val(x.Cond))
			gt, gf := And(g, c), And(g, Not(c))
			var out []edge
			if gt != False {
				out = append(out, fr.mkEdge(b, b.Succs[0], 0, gt, h))
			}
			if gf != False {
				h2 := h
				if gt != False {
					h2 = h.clone()
				}
				out = append(out, fr.mkEdge(b, b.Succs[1], 1, gf, h2))
			}
			return out
		case *ssa.Return:
			vals := make([]*Node, len(x.Results))
			for i, r := range x.Results {
				vals[i] = fr.val(r)
			}
			fr.rets = append(fr.rets, retEdge{g, h, vals})
			return nil
		case *ssa.Panic:
			var v *Term
			if ls := leaves(ev.resolve(fr.val(x.X), h)); len(ls) > 0 {
				v = ls[0]
			}
			ev.panicVal = fr.val(x.X)
			ev.event("panic", x.Pos(), g, "explicit panic", v)
			ev.panicVal = nil
			return nil
		case *ssa.Store:
			ev.store(fr.val(x.Addr), fr.val(x.Val), h, g, x.Pos())
		case *ssa.MapUpdate:
			fr.mapUpdate(x, g, h)
		case *ssa.Defer:
			d := deferred{guard: g, call: &x.Call, pos: x.Pos()}
			for _, a := range x.Call.Args {
				d.args = append(d.args, fr.val(a))
			}
			d.fnv = fr.val(x.Call.Value)
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				dg := And(g, d.guard)
				if dg == False {
					continue
				}
				pan := ev.pan
				ev.pan = nil
				r := fr.call(d.call, d.fnv, d.args, dg, h.clone(), d.pos)
				ev.pan = pan
				rest := And(g, Not(d.guard))
				h = ev.mergeShared([]*Node{r.guard, rest}, []heap{r.h, h})
				g = Or(r.guard, rest)
			}
		case *ssa.Go, *ssa.Send, *ssa.Select:
			ev.event("concurrency", ins.Pos(), g, fmt.Sprintf("%T", ins), nil)
			ev.fail(ins.Pos(), "concurrency construct %T", ins)
		case *ssa.Call:
			args := make([]*Node, len(x.Call.Args))
			for i, a := range x.Call.Args {
				args[i] = fr.val(a)
			}
			r := fr.call(&x.Call, fr.val(x.Call.Value), args, g, h, x.Pos())
			g, h = r.guard, r.h
			if g == False {
				return nil
			}
			switch x.Call.Signature().Results().Len() {
			case 0:
				if len(r.vals) == 1 {
					fr.env[x] = r.vals[0]
				}
			case 1:
				fr.env[x] = r.vals[0]
			default:
				fr.env[x] = tuple(r.vals)
			}
		case ssa.Value:
			var ok *Node
			fr.env[x], ok = fr.evalValue(x, g, h)
			if ok != nil {
				g = And(g, ok)
				if g == False {
					return nil
				}
			}
		default:
			ev.fail(ins.Pos(), "unsupported instruction %T", ins)
		}
	}
	ev.fail(b.Parent().Pos(), "block without terminator")
	return nil
}

// evalValue evaluates a value instruction; the second result, when set, is the condition of not panicking.
func (fr *frame) evalValue(x ssa.Value, g *Node, h heap) (*Node, *Node) {
	ev := fr.ev
	switch x := x.(type) {
	case *ssa.Alloc:
		et := derefT(x.Type())
		o := ev.newObj(et, x.Comment, false)
		h.set(o.id, zero(et))
		return leaf(ptrT(o.id)), nil
	case *ssa.BinOp:
		return ev.binop(x.Op, fr.val(x.X), fr.val(x.Y), x.X.Type(), x.Pos(), h), nil
	case *ssa.UnOp:
		v := fr.val(x.X)
		switch x.Op {
		case token.MUL:
			ok := ev.nilCheck(v, g, x.Pos())
			return ev.load(v, x.Type(), h, x.Pos()), ok
		case token.NOT:
			return Not(boolN(v)), nil
		case token.SUB:
			if isInt(x.Type()) {
				return lift1(func(t *Term) *Node { return leaf(linAdd(t, -1, nil, 0, 0)) }, v), nil
			}
		}
		return lift1(func(t *Term) *Node {
			return opaque(mk(Term{op: OCall, s: "unop" + x.Op.String(), args: []*Term{t}, typ: x.Type()}), x.Type())
		}, v), nil
	case *ssa.ChangeType:
		return retype(fr.val(x.X), x.Type()), nil
	case *ssa.ChangeInterface:
		return fr.val(x.X), nil
	case *ssa.Convert:
		return ev.convert(fr.val(x.X), x.X.Type(), x.Type(), h), nil
	case *ssa.MultiConvert:
		return ev.convert(fr.val(x.X), x.X.Type(), x.Type(), h), nil
	case *ssa.MakeInterface:
		return mkIface(x.X.Type(), fr.val(x.X)), nil
	case *ssa.MakeClosure:
		bs := make([]*Node, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = fr.val(b)
		}
		return leaf(mk(Term{op: OClosure, fn: x.Fn.(*ssa.Function), nodes: bs})), nil
	case *ssa.MakeSlice:
		et := elemType(x.Type())
		c := lift1(func(n *Term) *Node { return ev.makeShaped(n, et) }, fr.val(x.Len))
		return ev.newSlice(h, x.Type(), c), nil
	case *ssa.MakeMap:
		o := ev.newObj(x.Type(), "map", false)
		h.set(o.id, leaf(mkList(nil)))
		return leaf(refT(o)), nil
	case *ssa.Field:
		return loadPath(fr.val(x.X), x.X.Type(), []*Term{stepField(x.Field)}), nil
	case *ssa.FieldAddr:
		v := fr.val(x.X)
		ok := ev.nilCheck(v, g, x.Pos())
		return ev.addrStep(v, stepField(x.Field)), ok
	case *ssa.Index:
		var ok *Node
		if isStr(x.X.Type()) {
			if fr.chars != nil && fr.chars.reads[x] {
				return fr.chars.char, nil
			}
			ok = ev.strBounds(fr.val(x.X), fr.val(x.Index), g, x.Pos())
		} else if in := arrayBounds(x.X.Type(), x.Index.Type(), fr.val(x.Index)); in != nil {
			ok = ev.inBounds(in, g, x.Pos(), "index")
		}
		return lift2(func(l, i *Term) *Node {
			if isStr(x.X.Type()) {
				return indexT(l, i, types.Typ[types.Byte])
			}
			return indexT(l, i, elemType(x.X.Type()))
		}, fr.val(x.X), fr.val(x.Index)), ok
	case *ssa.IndexAddr:
		base, idx := fr.val(x.X), fr.val(x.Index)
		ok := True
		if isSliceT(x.X.Type()) {
			inb := lift2(func(l, i *Term) *Node {
				n := ev.lenOf(l, h)
				return lift1(func(n *Term) *Node {
					return And(Ge(i), Ge(addC(subT(n, asLin(i)), -1)))
				}, n)
			}, base, idx)
			if inb == Bot {
				inb = False
			}
			out := And(g, Not(inb))
			if out != False {
				ev.event("index", x.Pos(), out, "index out of range possible", nil)
				ok = inb
			}
		} else if in := arrayBounds(x.X.Type(), x.Index.Type(), idx); in != nil {
			if in := ev.inBounds(in, g, x.Pos(), "index"); in != nil {
				ok = in
			}
		}
		return lift2(func(l, i *Term) *Node {
			if isSliceT(x.X.Type()) {
				o, off := ev.baseObj(l)
				if o == nil {
					return Bot
				}
				return leaf(ptrT(o.id, stepIndex(addT(off, asLin(i)))))
			}
			if l.op == OPtr {
				return leaf(ptrT(l.n, append(append([]*Term{}, l.args...), stepIndex(i))...))
			}
			if l.op == ONil {
				return Bot
			}
			return leaf(ptrT(ev.objFor(l).id, stepIndex(i)))
		}, base, idx), ok
	case *ssa.Slice:
		ok := fr.sliceBounds(x, g, h)
		return fr.slice(x, g, h), ok
	case *ssa.SliceToArrayPointer:
		ev.fail(x.Pos(), "slice to array pointer")
	case *ssa.TypeAssert:
		return fr.typeAssert(x, g, h)
	case *ssa.Extract:
		return lift1(func(t *Term) *Node {
			if t.op == OTuple {
				return t.nodes[x.Index]
			}
			return opaque(mk(Term{op: OField, args: []*Term{t}, n: int64(x.Index), typ: x.Type()}), x.Type())
		}, fr.val(x.Tuple)), nil
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			ok := ev.strBounds(fr.val(x.X), fr.val(x.Index), g, x.Pos())
			return fr.lookup(x, g, h), ok
		}
		return fr.lookup(x, g, h), nil
	case *ssa.Range:
		o := ev.newObj(x.X.Type(), "iter", false)
		v := fr.val(x.X)
		if isStr(x.X.Type()) {
			o.iterText = v
		} else {
			if v.leaf == nil {
				ev.fail(x.Pos(), "range over a conditional map")
			}
			o.iterOf = v.leaf
			ev.event("maprange", x.Pos(), g, "iteration over a map", v.leaf)
		}
		h.set(o.id, leaf(iLit(0)))
		return leaf(refT(o)), nil
	case *ssa.Next:
		return fr.next(x, g, h), nil
	}
	ev.fail(x.Pos(), "unsupported value instruction %T", x)
	return nil, nil
}

func (ev *Eval) nilCheck(v *Node, g *Node, pos token.Pos) *Node {
	ok := lift1(func(t *Term) *Node { return bLit(t.op != ONil) }, v)
	if ok == True || ok == Bot {
		return nil
	}
	if bad := And(g, Not(ok)); bad != False {
		ev.event("nilderef", pos, bad, "nil pointer dereference", nil)
	}
	return ok
}

func (ev *Eval) addrStep(v *Node, s *Term) *Node {
	return lift1(func(p *Term) *Node {
		switch p.op {
		case OPtr:
			return leaf(ptrT(p.n, append(append([]*Term{}, p.args...), s)...))
		case ONil:
			return Bot
		}
		return leaf(ptrT(ev.objFor(p).id, s))
	}, v)
}

// retype adapts nil and struct leaves to a new named type.
func retype(v *Node, typ types.Type) *Node {
	return lift1(func(t *Term) *Node {
		if t.op == OStruct && t.typ != nil {
			nt := *t
			nt.typ = typ
			return leaf(mk(nt))
		}
		return leaf(t)
	}, v)
}

func (ev *Eval) binop(op token.Token, a, b *Node, typ types.Type, pos token.Pos, h heap) *Node {
	uninterp := func(rt types.Type) *Node {
		return lift2(func(x, y *Term) *Node {
			return opaque(mk(Term{op: OCall, s: "binop" + op.String(), args: []*Term{x, y}, typ: rt}), rt)
		}, a, b)
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *Node
		if isBoolT(typ) {
			a, b = boolN(a), boolN(b)
			r = iteB(a, b, Not(b))
		} else {
			if isSliceT(typ) {
				// comparison with nil
				r = lift2(func(x, y *Term) *Node {
					if x.op == ONil {
						x, y = y, x
					}
					if y.op == ONil {
						if x.op == OSub {
							return isNilT(x.args[0])
						}
						return isNilT(x)
					}
					return EqT(x, y)
				}, a, b)
			} else {
				r = EqN(a, b)
				if isFloatT(typ) {
					r = And(r, Not(And(isNaN(a), isNaN(b))))
				}
			}
		}
		if op == token.NEQ {
			return Not(r)
		}
		return r
	case token.ADD:
		if isStr(typ) {
			return catN(a, b)
		}
		if isInt(typ) {
			return lift2(func(x, y *Term) *Node { return leaf(addT(x, y)) }, a, b)
		}
	case token.SUB:
		if isInt(typ) {
			return lift2(func(x, y *Term) *Node { return leaf(subT(x, y)) }, a, b)
		}
	case token.MUL:
		if isInt(typ) {
			return lift2(func(x, y *Term) *Node {
				if c, ok := isConst(asLin(x)); ok {
					return leaf(linAdd(y, c, nil, 0, 0))
				}
				if c, ok := isConst(asLin(y)); ok {
					return leaf(linAdd(x, c, nil, 0, 0))
				}
				return opaque(mk(Term{op: OCall, s: "binop*", args: []*Term{x, y}, typ: typ}), typ)
			}, a, b)
		}
	case token.QUO, token.REM:
		if isInt(typ) {
			return lift2(func(x, y *Term) *Node {
				c, ok1 := isConst(asLin(x))
				d, ok2 := isConst(asLin(y))
				if ok1 && ok2 && d != 0 {
					if op == token.QUO {
						return leaf(iLit(c / d))
					}
					return leaf(iLit(c % d))
				}
				return opaque(mk(Term{op: OCall, s: "binop" + op.String(), args: []*Term{x, y}, typ: typ}), typ)
			}, a, b)
		}
	case token.AND, token.OR:
		if isBoolT(typ) {
			if op == token.AND {
				return And(boolN(a), boolN(b))
			}
			return Or(boolN(a), boolN(b))
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isInt(typ) {
			return lift2(func(x, y *Term) *Node {
				x, y = asLin(x), asLin(y)
				switch op {
				case token.LSS:
					return Ge(addC(subT(y, x), -1))
				case token.GTR:
					return Ge(addC(subT(x, y), -1))
				case token.LEQ:
					return Ge(subT(y, x))
				}
				return Ge(subT(x, y))
			}, a, b)
		}
		return lift2(func(x, y *Term) *Node {
			if x.op == OStr && y.op == OStr {
				c := strings.Compare(x.s, y.s)
				return bLit(map[token.Token]bool{token.LSS: c < 0, token.GTR: c > 0, token.LEQ: c <= 0, token.GEQ: c >= 0}[op])
			}
			less := func(x, y *Term) *Node { return atomN(mk(Term{op: OCall, s: "binop<", args: []*Term{x, y}})) }
			if isStr(typ) {
				// one of two texts is less than the other, unless they are equal
				plain := less
				less = func(x, y *Term) *Node {
					if x == y {
						return False
					}
					if x.id > y.id {
						return And(Not(plain(y, x)), Not(EqT(x, y)))
					}
					return And(plain(x, y), Not(EqT(x, y)))
				}
			}
			switch op {
			case token.GTR:
				return less(y, x)
			case token.LEQ:
				return Not(less(y, x))
			case token.GEQ:
				return Not(less(x, y))
			}
			return less(x, y)
		}, a, b)
	}
	return uninterp(typ)
}

func isFloatT(typ types.Type) bool {
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

// isNaN is the unknown whether a number is not a number: then it does not equal itself.
func isNaN(n *Node) *Node {
	return lift1(func(t *Term) *Node {
		if t.op == OField || t.op == OIndex || t.op == OCall || t.op == OVar && !strings.HasPrefix(t.s, "const:") && !strings.HasPrefix(t.s, "zero:") {
			return atomN(mk(Term{op: OCall, s: "isNaN", args: []*Term{t}, typ: types.Typ[types.Bool]}))
		}
		return False
	}, n)
}

func intSize(t types.Type) (bits int, unsigned bool) {
	b := t.Underlying().(*types.Basic)
	unsigned = b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, unsigned
	case types.Int16, types.Uint16:
		return 16, unsigned
	case types.Int32, types.Uint32:
		return 32, unsigned
	}
	return 64, unsigned
}

// mayBeHuge tells whether an unsigned number can exceed the largest signed one: some part of it is any number at all.
func mayBeHuge(t *Term) bool {
	for i, a := range t.args {
		if a == wrap64 {
			return true
		}
		if a.typ == nil || t.coefs[i] < 0 {
			continue
		}
		if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && (a.op == OVar || a.op == OIndex || a.op == OField) {
			return true
		}
	}
	return false
}

func (ev *Eval) convert(v *Node, from, to types.Type, h heap) *Node {
	if isInt(from) && isInt(to) {
		fb, fu := intSize(from)
		tb, tu := intSize(to)
		return lift1(func(t *Term) *Node {
			t = asLin(t)
			if c, ok := isConst(t); ok && c >= 0 && c < 128 {
				return leaf(t)
			}
			if tb < fb {
				return opaque(mk(Term{op: OCall, s: "conv", args: []*Term{t}, typ: to}), to)
			}
			if tu && !fu {
				return iteB(Ge(t), leaf(t), leaf(addT(t, asLin(wrap64))))
			}
			if fu && !tu && tb == 64 && fb == 64 && mayBeHuge(t) {
				return iteB(Ge(addC(t, math.MinInt64)), leaf(subT(t, asLin(wrap64))), leaf(t))
			}
			return leaf(t)
		}, v)
	}
	if isStr(from) && isStr(to) {
		return v
	}
	if isStr(to) && isInt(from) {
		return lift1(func(t *Term) *Node {
			if c, ok := isConst(asLin(t)); ok && c >= 0 && c < 0x110000 {
				return leaf(sLit(string(rune(c))))
			}
			return leaf(mk(Term{op: OCall, s: "runeString", args: []*Term{t}, typ: to}))
		}, v)
	}
	if isStr(to) && isSliceT(from) {
		// bytes (or runes) back to a string
		return lift1(func(t *Term) *Node {
			c := ev.sliceContent(t, h)
			return lift1(func(l *Term) *Node {
				if s := bytesToString(l); s != nil {
					return leaf(s)
				}
				return leaf(mk(Term{op: OCall, s: "bytesString", args: []*Term{l}, typ: to}))
			}, c)
		}, v)
	}
	if isStr(from) && isSliceT(to) {
		if b, ok := elemType(to).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return lift1(func(t *Term) *Node {
				return ev.newSlice(h, to, leaf(stringBytes(t)))
			}, v)
		}
		return lift1(func(t *Term) *Node {
			return ev.newSlice(h, to, leaf(mk(Term{op: OCall, s: "stringRunes", args: []*Term{t}, typ: to})))
		}, v)
	}
	return lift1(func(t *Term) *Node {
		if types.Identical(from.Underlying(), to.Underlying()) {
			return leaf(t)
		}
		return opaque(mk(Term{op: OCall, s: "conv", args: []*Term{t}, typ: to}), to)
	}, v)
}

// A byte slice made of a string is kept as a list whose segments are Spread(bytes(s)).
func stringBytes(t *Term) *Term {
	var segs []*Term
	for _, s := range segsOf(t) {
		segs = append(segs, mk(Term{op: OSpread, args: []*Term{s}}))
	}
	return mkList(segs)
}

func bytesToString(l *Term) *Term {
	if l.op == ONil {
		return sLit("")
	}
	if l.op != OList {
		return nil
	}
	var parts []*Term
	for _, s := range l.args {
		switch s.op {
		case OSpread:
			switch s.args[0].op {
			case OStr, OCat, OItoa, OFor:
				parts = append(parts, s.args[0])
			default:
				if s.args[0].typ == nil || isStr(s.args[0].typ) {
					parts = append(parts, s.args[0])
				} else {
					return nil
				}
			}
		case OElem:
			if e := s.nodes[0].leaf; e != nil {
				if c, ok := isConst(asLin(e)); ok && c >= 0 && c < 128 {
					parts = append(parts, sLit(string(rune(c))))
					continue
				}
			}
			return nil
		default:
			return nil
		}
	}
	return catT(parts...)
}

// inBounds reports the way to an index or slice out of range, and gives the condition of having none.
func (ev *Eval) inBounds(inb, g *Node, pos token.Pos, what string) *Node {
	if inb == Bot {
		inb = False
	}
	out := And(g, Not(inb))
	if out == False {
		return nil
	}
	ev.event("index", pos, out, what+" out of range possible", nil)
	return inb
}

// arrayBounds is the condition of an index being inside of an array, nil where its type says so.
func arrayBounds(array, index types.Type, idx *Node) *Node {
	if p, ok := array.Underlying().(*types.Pointer); ok {
		array = p.Elem()
	}
	arr, ok := array.Underlying().(*types.Array)
	if !ok {
		return nil
	}
	if b, ok := index.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && arr.Len() >= 256 {
		return nil
	}
	return lift1(func(i *Term) *Node {
		return And(Ge(asLin(i)), Ge(subT(iLit(arr.Len()-1), asLin(i))))
	}, idx)
}

func (ev *Eval) strBounds(s, i, g *Node, pos token.Pos) *Node {
	return ev.inBounds(lift2(func(s, i *Term) *Node {
		return lift1(func(n *Term) *Node {
			return And(Ge(i), Ge(addC(subT(asLin(n), asLin(i)), -1)))
		}, lenT(s))
	}, s, i), g, pos, "string index")
}

// sliceBounds: 0 <= low <= high <= length, or capacity where the code asks for it.
func (fr *frame) sliceBounds(x *ssa.Slice, g *Node, h heap) *Node {
	ev := fr.ev
	if x.Low == nil && x.High == nil && x.Max == nil {
		return nil
	}
	base := fr.val(x.X)
	lo, hi := leaf(iLit(0)), (*Node)(nil)
	if x.Low != nil {
		lo = fr.val(x.Low)
	}
	if x.High != nil {
		hi = fr.val(x.High)
	}
	inb := lift1(func(b *Term) *Node {
		var n *Node
		switch {
		case isStr(x.X.Type()):
			n = lenT(b)
		case b.op == OPtr:
			p, ok := x.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return True
			}
			n = leaf(iLit(p.Elem().Underlying().(*types.Array).Len()))
		case b.op == ONil:
			n = leaf(iLit(0))
		default:
			n = ev.lenOf(b, h)
		}
		hh := hi
		if hh == nil {
			hh = n
		}
		return lift(func(ts []*Term) *Node {
			l, u, n := asLin(ts[0]), asLin(ts[1]), asLin(ts[2])
			le := Ge(subT(n, u))
			if len(u.args) == 1 && u.args[0].op == OCall && u.args[0].s == "cap" {
				le = True
			}
			return And(And(Ge(l), Ge(subT(u, l))), le)
		}, lo, hh, n)
	}, base)
	return ev.inBounds(inb, g, x.Pos(), "slice")
}

func (fr *frame) slice(x *ssa.Slice, g *Node, h heap) *Node {
	ev := fr.ev
	base := fr.val(x.X)
	lo, hi, max := leaf(iLit(0)), (*Node)(nil), (*Node)(nil)
	if x.Low != nil {
		lo = fr.val(x.Low)
	}
	if x.High != nil {
		hi = fr.val(x.High)
	}
	if x.Max != nil {
		max = fr.val(x.Max)
	}
	return lift1(func(b *Term) *Node {
		if isStr(x.X.Type()) {
			n := lenT(b)
			hh := hi
			if hh == nil {
				hh = n
			}
			return lift2(func(l, u *Term) *Node { return subStr(b, l, u) }, lo, hh)
		}
		if b.op == OPtr { // pointer to array
			if len(b.args) > 0 {
				ev.fail(x.Pos(), "slice of an embedded array")
			}
			b = mk(Term{op: ORef, n: b.n, typ: ev.objs[b.n].typ})
		}
		if b.op == ONil {
			return leaf(b)
		}
		n := ev.lenOf(b, h)
		hh := hi
		if hh == nil {
			hh = n
		}
		mx := max
		if mx == nil {
			mx = leaf(bot)
			mx = leaf(iLit(-1))
		}
		return lift(func(ts []*Term) *Node {
			l, u, ln, m := asLin(ts[0]), asLin(ts[1]), asLin(ts[2]), asLin(ts[3])
			capped := max != nil && m == u
			c, isC := isConst(l)
			if isC && c == 0 && u == ln && !capped {
				return leaf(b)
			}
			if b.op == OSub {
				return leaf(mk(Term{op: OSub, args: []*Term{b.args[0], addT(l, b.args[1]), addT(u, b.args[1])}, n: b2i(capped || b.n == 1 && u == ln)}))
			}
			return leaf(mk(Term{op: OSub, args: []*Term{b, l, u}, n: b2i(capped)}))
		}, lo, hh, n, mx)
	}, base)
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func subStr(s, lo, hi *Term) *Node {
	lo, hi = asLin(lo), asLin(hi)
	n := lenT(s)
	c, isC := isConst(lo)
	if isC && c == 0 && n.leaf == hi {
		return leaf(s)
	}
	// cut along known literal borders
	segs := segsOf(s)
	h, hC := isConst(hi)
	fromEnd := int64(-1)
	if n.leaf != nil {
		if d, ok := constDiff(n.leaf, hi); ok {
			fromEnd = d
		}
	}
	if s.op == OStr && isC && hC && c >= 0 && h <= int64(len(s.s)) && c <= h {
		return leaf(sLit(s.s[c:h]))
	}
	if isC && c >= 0 && fromEnd >= 0 && len(segs) > 0 {
		out := append([]*Term{}, segs...)
		ok := true
		if c > 0 {
			if out[0].op == OStr && int64(len(out[0].s)) >= c {
				out[0] = sLit(out[0].s[c:])
			} else {
				ok = false
			}
		}
		if fromEnd > 0 && ok {
			l := len(out) - 1
			if out[l].op == OStr && int64(len(out[l].s)) >= fromEnd {
				out[l] = sLit(out[l].s[:int64(len(out[l].s))-fromEnd])
			} else {
				ok = false
			}
		}
		if ok {
			return leaf(catT(out...))
		}
	}
	if isC && hC && c >= 0 && len(segs) > 0 && segs[0].op == OStr && h <= int64(len(segs[0].s)) && c <= h {
		return leaf(sLit(segs[0].s[c:h]))
	}
	// cut around the first occurrence of a separator
	if x := sepIndex(hi, s, 0); x != nil && isC && c == 0 {
		b, _ := cutSides(s, x)
		return b
	}
	if x := sepIndex(lo, s, -1); x != nil && n.leaf == hi {
		_, a := cutSides(s, x)
		return a
	}
	return leaf(mk(Term{op: OCall, s: "substr", args: []*Term{s, lo, hi}, typ: types.Typ[types.String]}))
}

// sepIndex recognises the offset of the first separator in s (or of the text following it) and gives
// the separator.
func sepIndex(l, s *Term, end int) *Term {
	if len(l.args) != 1 || l.args[0].op != OCall || l.args[0].s != "indexIn" || l.args[0].args[0] != s {
		return nil
	}
	sep := l.args[0].args[1]
	if end == 0 && l.n == 0 || end != 0 && sep.op == OStr && l.n == int64(len(sep.s)) {
		if asLin(l.args[0]) == addC(l, -l.n) {
			return sep
		}
	}
	return nil
}

func (fr *frame) typeAssert(x *ssa.TypeAssert, g *Node, h heap) (*Node, *Node) {
	ev := fr.ev
	v := fr.val(x.X)
	is := lift1(func(t *Term) *Node { return isTypeT(t, x.AssertedType) }, v)
	val := lift1(func(t *Term) *Node {
		r := isTypeT(t, x.AssertedType)
		if r == False {
			return Bot
		}
		return projT(t, x.AssertedType)
	}, v)
	if x.CommaOk {
		z := zero(x.AssertedType)
		res := sel([]gv{{is, val}, {Not(is), z}})
		if is == False || is == Bot {
			res = z
		}
		return tuple([]*Node{res, is}), nil
	}
	if bad := And(g, Not(is)); bad != False {
		ev.event("typeassert", x.Pos(), bad, "type assertion to "+shortType(x.AssertedType)+" may fail", nil)
	}
	return val, is
}

// ---------- maps ----------

func (ev *Eval) mapContent(t *Term, h heap) *Node {
	switch t.op {
	case ORef:
		return ev.content(t.n, h)
	case ONil:
		return leaf(mkList(nil))
	}
	if id, ok := ev.ptrObj[t]; ok {
		return ev.content(id, h)
	}
	return leaf(t)
}

func mapTypes(t types.Type) (k, v types.Type) {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key(), m.Elem()
	}
	return nil, nil
}

func mapGet(m, k *Term, vt types.Type) (val, ok *Node) {
	switch m.op {
	case OList:
		val, ok = zero(vt), False
		for _, s := range m.args {
			kv := s.nodes[0].leaf
			eq := lift1(func(x *Term) *Node { return EqT(x, k) }, kv.nodes[0])
			val = sel([]gv{{eq, kv.nodes[1]}, {Not(eq), val}})
			ok = Or(eq, ok)
		}
		return
	case OMapUpd:
		v0, ok0 := mapGet(m.args[0], k, vt)
		eq := EqT(m.args[1], k)
		return sel([]gv{{eq, m.nodes[0]}, {Not(eq), v0}}), Or(eq, ok0)
	case ONil:
		return zero(vt), False
	}
	c := mk(Term{op: OCall, s: "mapok", args: []*Term{m, k}})
	ok = atomN(c)
	v := opaque(mk(Term{op: OCall, s: "mapget", args: []*Term{m, k}, typ: vt}), vt)
	return sel([]gv{{ok, v}, {Not(ok), zero(vt)}}), ok
}

func (fr *frame) lookup(x *ssa.Lookup, g *Node, h heap) *Node {
	ev := fr.ev
	if isStr(x.X.Type()) {
		return lift2(func(l, i *Term) *Node { return indexT(l, i, types.Typ[types.Byte]) }, fr.val(x.X), fr.val(x.Index))
	}
	_, vt := mapTypes(x.X.Type())
	key := ev.resolve(fr.val(x.Index), h)
	m := lift1(func(t *Term) *Node { return ev.mapContent(t, h) }, fr.val(x.X))
	val := lift2(func(m, k *Term) *Node { v, _ := mapGet(m, k, vt); return v }, m, key)
	if !x.CommaOk {
		return val
	}
	ok := lift2(func(m, k *Term) *Node { _, o := mapGet(m, k, vt); return o }, m, key)
	return tuple([]*Node{val, ok})
}

func mapPut(m, k *Term, v *Node) *Term {
	if m.op == ONil {
		m = mkList(nil)
	}
	if m.op == OList {
		segs := append([]*Term{}, m.args...)
		for i, s := range segs {
			kv := s.nodes[0].leaf
			eq := lift1(func(x *Term) *Node { return EqT(x, k) }, kv.nodes[0])
			if eq == True {
				segs[i] = elemSeg(tuple([]*Node{kv.nodes[0], v}))
				return mkList(segs)
			}
			if eq != False {
				return mk(Term{op: OMapUpd, args: []*Term{m, k}, nodes: []*Node{v}})
			}
		}
		return mkList(append(segs, elemSeg(tuple([]*Node{leaf(k), v}))))
	}
	return mk(Term{op: OMapUpd, args: []*Term{m, k}, nodes: []*Node{v}})
}

func (fr *frame) mapUpdate(x *ssa.MapUpdate, g *Node, h heap) {
	ev := fr.ev
	mv := fr.val(x.Map)
	key := ev.resolve(fr.val(x.Key), h)
	v := fr.val(x.Value)
	for _, t := range leaves(mv) {
		pg := guardOf(mv, t)
		var o *Obj
		switch t.op {
		case ORef:
			o = ev.objs[t.n]
		case ONil:
			ev.event("nilderef", x.Pos(), And(g, pg), "write to nil map", nil)
			continue
		default:
			o = ev.objFor(t)
		}
		if o.shared {
			ev.event("store", x.Pos(), And(g, pg), "map write into "+o.name, t)
		}
		old := ev.mapContent(t, h)
		nv := lift2(func(m, k *Term) *Node { return leaf(mapPut(m, k, v)) }, old, key)
		h.set(o.id, sel([]gv{{pg, nv}, {Not(pg), old}}))
	}
}

func (fr *frame) next(x *ssa.Next, g *Node, h heap) *Node {
	ev := fr.ev
	it := fr.val(x.Iter)
	if it.leaf == nil || it.leaf.op != ORef {
		ev.fail(x.Pos(), "conditional iterator")
	}
	o := ev.objs[it.leaf.n]
	cnt, _ := h.get(o.id)
	if x.IsString {
		return fr.nextChar(x, o, cnt, h)
	}
	kt, vt := mapTypes(o.typ)
	m := ev.mapContent(o.iterOf, h)
	res := lift2(func(m, c *Term) *Node {
		c = asLin(c)
		if m.op == OList {
			in := Ge(addC(subT(iLit(int64(len(m.args))), c), -1))
			kv := indexT(m, c, nil)
			k := lift1(func(t *Term) *Node { return t.nodes[0] }, kv)
			v := lift1(func(t *Term) *Node { return t.nodes[1] }, kv)
			return tuple([]*Node{in, k, v})
		}
		if m.op == OMapUpd {
			ev.fail(x.Pos(), "range over a map with undecided keys")
		}
		in := Ge(addC(subT(asLin(mk(Term{op: OLen, args: []*Term{m}})), c), -1))
		keys := mk(Term{op: OCall, s: "mapkeys", args: []*Term{m}})
		k := indexOpaque(keys, c, kt)
		v := lift1(func(k *Term) *Node {
			return opaque(mk(Term{op: OCall, s: "mapget", args: []*Term{m, k}, typ: vt}), vt)
		}, k)
		return tuple([]*Node{in, k, v})
	}, m, cnt)
	h.set(o.id, lift1(func(c *Term) *Node { return leaf(addC(asLin(c), 1)) }, cnt))
	return res
}

// ---------- calls ----------

func (fr *frame) call(c *ssa.CallCommon, fnv *Node, args []*Node, g *Node, h heap, pos token.Pos) result {
	ev := fr.ev
	ev.chain = append(ev.chain, fr.fn.Name())
	defer func() { ev.chain = ev.chain[:len(ev.chain)-1] }()
	if c.IsInvoke() {
		return ev.perLeaf(fnv, g, h, func(t *Term, g *Node, h heap) result {
			return ev.invoke(t, c.Method, args, g, h, pos)
		})
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ev.builtin(b, c, args, g, h, pos)
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []*Node
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if n := fr.val(mc); n.leaf != nil {
				bind = n.leaf.nodes
			}
		}
		return ev.callFn(fn, args, bind, g, h, pos)
	}
	return ev.perLeaf(fnv, g, h, func(t *Term, g *Node, h heap) result {
		if t.op == OClosure {
			return ev.callFn(t.fn, args, t.nodes, g, h, pos)
		}
		if t.op == ONil {
			ev.event("nilderef", pos, g, "call of nil function", nil)
			return result{guard: False, h: h, vals: botVals(c.Signature())}
		}
		return ev.uninterp("call", append([]*Node{leaf(t)}, args...), c.Signature(), g, h, pos)
	})
}

func botVals(s *types.Signature) []*Node {
	out := make([]*Node, s.Results().Len())
	for i := range out {
		out[i] = Bot
	}
	return out
}

// perLeaf evaluates an effectful operation separately for every leaf of n and merges the outcomes.
func (ev *Eval) perLeaf(n *Node, g *Node, h heap, f func(t *Term, g *Node, h heap) result) result {
	type lg struct {
		t *Term
		g *Node
	}
	var todo []lg
	for _, t := range leaves(n) {
		lgd := And(g, guardOf(n, t))
		if lgd != False {
			todo = append(todo, lg{t, lgd})
		}
	}
	if len(todo) == 0 {
		return result{guard: False, h: h}
	}
	if len(todo) == 1 {
		return f(todo[0].t, todo[0].g, h)
	}
	out := result{guard: False}
	var gs []*Node
	var hs []heap
	var vals [][]gv
	for _, x := range todo {
		r := f(x.t, x.g, h.clone())
		if r.guard == False {
			continue
		}
		out.guard = Or(out.guard, r.guard)
		gs = append(gs, r.guard)
		hs = append(hs, r.h)
		if vals == nil {
			vals = make([][]gv, len(r.vals))
		}
		for i, v := range r.vals {
			vals[i] = append(vals[i], gv{r.guard, v})
		}
	}
	if len(hs) == 0 {
		out.h = h
		return out
	}
	out.h = ev.mergeShared(gs, hs)
	for _, v := range vals {
		out.vals = append(out.vals, sel(v))
	}
	return out
}

func (ev *Eval) invoke(t *Term, m *types.Func, args []*Node, g *Node, h heap, pos token.Pos) result {
	sig := m.Type().(*types.Signature)
	switch t.op {
	case ONil:
		ev.event("nilderef", pos, g, "method "+m.Name()+" called on nil interface", nil)
		return result{guard: False, h: h, vals: botVals(sig)}
	case OIface:
		fn := ev.W.prog.LookupMethod(t.typ, m.Pkg(), m.Name())
		if fn == nil {
			ev.fail(pos, "method %s of %s not found", m.Name(), t.typ)
		}
		return ev.callFn(fn, append([]*Node{ifaceInner(t)}, args...), nil, g, h, pos)
	case OErr:
		return result{g, h, []*Node{leaf(mk(Term{op: OCall, s: "errorText", args: []*Term{t}, typ: types.Typ[types.String]}))}}
	}
	ev.event("invoke", pos, g, m.FullName(), t)
	return ev.uninterp("invoke:"+m.Name(), append([]*Node{leaf(t)}, args...), sig, g, h, pos)
}

// uninterp applies an unknown pure function.
func (ev *Eval) uninterp(name string, args []*Node, sig *types.Signature, g *Node, h heap, pos token.Pos) result {
	rs := make([]*Node, len(args))
	for i, a := range args {
		rs[i] = ev.resolve(a, h)
		if isBoolNode(rs[i]) && rs[i].leaf == nil {
			// a symbolic boolean argument becomes a gated constant
			rs[i] = iteB(rs[i], True, False)
		}
	}
	n := sig.Results().Len()
	vals := make([]*Node, n)
	for j := 0; j < n; j++ {
		rt := sig.Results().At(j).Type()
		vals[j] = lift(func(ts []*Term) *Node {
			as := append([]*Term{}, ts...)
			nm := name
			if n > 1 {
				nm = fmt.Sprintf("%s/%d", name, j)
			}
			if nm == "invoke:Value/1" && ev.okValuers {
				return leaf(nilOf(rt))
			}
			return callSimplify(&Term{op: OCall, s: nm, args: as, typ: rt})
		}, rs...)
	}
	return result{g, h, vals}
}

func (ev *Eval) callFn(fn *ssa.Function, args, bind []*Node, g *Node, h heap, pos token.Pos) result {
	if ev.opaque != nil && ev.opaque(fn) {
		return ev.uninterp("fn:"+fn.String(), args, fn.Signature, g, h, pos)
	}
	if strings.HasPrefix(fn.Name(), "vx_") && ev.W.isProbe(fn.Pos()) {
		return ev.intrinsic(fn, args, g, h, pos)
	}
	if r, ok := ev.model(fn, args, g, h, pos); ok {
		return r
	}
	if fn.Blocks != nil && ev.W.inline(fn) {
		if len(bind) == 0 {
			return ev.callMemo(fn, args, g, h)
		}
		return ev.callSSA(fn, args, bind, g, h)
	}
	if !ev.W.pure(fn) {
		ev.event("extern", pos, g, fn.String(), nil)
	}
	// memory handed to unknown code
	for _, a := range args {
		for _, t := range leaves(a) {
			if (t.op == OPtr || t.op == ORef) && !ev.objs[t.n].shared && !ev.W.pure(fn) {
				ev.event("escape", pos, g, "memory passed to "+fn.String(), t)
			}
		}
	}
	sig := fn.Signature
	r := ev.uninterp("ext:"+fn.String(), args, sig, g, h, pos)
	if unknownFn("ext:" + fn.String()) {
		// what it does to memory it was given is not known
		for _, a := range args {
			for _, t := range leaves(a) {
				ev.forget(t, fn.String(), args, h)
			}
		}
	}
	return r
}

// forget makes the memory a value refers to unknown.
func (ev *Eval) forget(t *Term, by string, args []*Node, h heap) {
	switch t.op {
	case OIface:
		ev.forget(t.args[0], by, args, h)
	case OPtr, ORef, OSub:
		o := ev.objs[t.n]
		if t.op == OSub {
			o, _ = ev.baseObj(t)
		}
		if o == nil || o.shared {
			return
		}
		u := mk(Term{op: OCall, s: "not decided: memory given to " + by, args: []*Term{iLit(o.id)}, typ: o.typ})
		h.set(o.id, opaque(u, o.typ))
	}
}

func (ev *Eval) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []*Node, g *Node, h heap, pos token.Pos) result {
	one := func(n *Node) result { return result{g, h, []*Node{n}} }
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			return one(lift1(func(t *Term) *Node {
				return lift1(func(m *Term) *Node {
					if m.op == OList {
						return leaf(iLit(int64(len(m.args))))
					}
					return leaf(asLin(mk(Term{op: OLen, args: []*Term{m}})))
				}, ev.mapContent(t, h))
			}, args[0]))
		}
		if b.Name() == "cap" {
			return one(lift1(func(t *Term) *Node {
				if t.op == OSub && t.n == 1 {
					return leaf(subT(t.args[2], t.args[1]))
				}
				if t.op == ORef {
					return ev.lenOf(t, h)
				}
				return leaf(asLin(mk(Term{op: OCall, s: "cap", args: []*Term{t}, typ: types.Typ[types.Uint]})))
			}, args[0]))
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return one(leaf(iLit(p.Elem().Underlying().(*types.Array).Len())))
		}
		return one(lift1(func(t *Term) *Node { return ev.lenOf(t, h) }, args[0]))
	case "append":
		return one(ev.append(args[0], args[1], c, g, h, pos))
	case "copy":
		return ev.copy(args[0], args[1], g, h, pos)
	case "panic":
		ev.event("panic", pos, g, "explicit panic", nil)
		return result{guard: False, h: h}
	case "print", "println":
		ev.event("extern", pos, g, b.Name(), nil)
		return result{g, h, nil}
	case "recover":
		ev.event("recover", pos, g, "recover", nil)
		none := leaf(nilOf(types.NewInterfaceType(nil, nil)))
		if p := ev.pan; p != nil && len(ev.stack) == p.depth+1 {
			v := sel([]gv{{p.recovered, none}, {Not(p.recovered), p.val}})
			p.recovered = Or(p.recovered, g)
			return one(v)
		}
		return one(none)
	case "ssa:wrapnilchk":
		ok := ev.nilCheck(args[0], g, pos)
		if ok != nil {
			return result{And(g, ok), h, []*Node{args[0]}}
		}
		return one(args[0])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = lift2(func(x, y *Term) *Node {
				ge := Ge(subT(asLin(x), asLin(y)))
				if b.Name() == "max" {
					return iteB(ge, leaf(x), leaf(y))
				}
				return iteB(ge, leaf(y), leaf(x))
			}, r, a)
		}
		return one(r)
	case "clear":
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			zs := lift1(func(n *Term) *Node {
				if z, ok := isConst(asLin(n)); ok && z == 0 {
					return leaf(mkList(nil))
				}
				return ev.makeShaped(n, sl.Elem())
			}, lift1(func(t *Term) *Node { return ev.lenOf(t, h) }, args[0]))
			zs = lift1(func(t *Term) *Node { return ev.newSlice(h, c.Args[0].Type(), leaf(t)) }, zs)
			r := ev.copy(args[0], zs, g, h, pos)
			return result{g, r.h, nil}
		}
	}
	ev.fail(pos, "builtin %s", b.Name())
	return result{}
}

func (ev *Eval) append(a, b *Node, c *ssa.CallCommon, g *Node, h heap, pos token.Pos) *Node {
	typ := c.Args[0].Type()
	bs := lift1(func(t *Term) *Node {
		if isStr(c.Args[1].Type()) {
			return leaf(stringBytes(t))
		}
		return ev.sliceContent(t, h)
	}, b)
	nonEmpty := lift1(func(t *Term) *Node {
		return lift1(func(n *Term) *Node { return Ge(addC(asLin(n), -1)) }, lenT(t))
	}, bs)
	if nonEmpty == Bot {
		nonEmpty = False
	}
	// writing into spare capacity of memory that is not ours
	var inPlace []gv
	for _, t := range leaves(a) {
		if t.op == ONil {
			continue
		}
		capped := t.op == OSub && t.n == 1
		o, _ := ev.baseObj(t)
		if o == nil || capped {
			continue
		}
		pg := guardOf(a, t)
		bad := And(g, And(pg, nonEmpty))
		if o.shared {
			ev.event("append", pos, bad, "append may write into spare capacity of "+o.name, t)
		}
		if t.op == OSub {
			in, known := ev.overwrite(t, bs, pg, h)
			if in != nil {
				inPlace = append(inPlace, gv{pg, in})
			}
			if known || o.shared {
				continue
			}
			// appending to a prefix of own memory overwrites what follows
			full := lift1(func(n *Term) *Node { return leaf(n) }, ev.lenOf(mk(Term{op: ORef, n: o.id, typ: o.typ}), h))
			if t.args[0].op == ORef && full.leaf != t.args[2] {
				if z, ok := isConst(t.args[2]); !ok || z != 0 {
					ev.event("selfappend", pos, bad, "append overwrites elements of "+o.name, t)
				}
			}
		}
	}
	content := lift2(func(x, y *Term) *Node {
		return lift1(func(xc *Term) *Node { return leaf(concatL(xc, y)) }, ev.sliceContent(x, h))
	}, a, bs)
	fresh := ev.newSlice(h, typ, content)
	// appending nothing to nil gives nil; appending nothing to anything else is treated as a copy
	// (only reads of the result and capacity-checked writes can tell the difference)
	isNil := lift1(func(t *Term) *Node { return bLit(t.op == ONil) }, a)
	keep := And(isNil, Not(nonEmpty))
	if len(inPlace) == 0 {
		return sel([]gv{{keep, a}, {Not(keep), fresh}})
	}
	rest := Not(keep)
	for _, x := range inPlace {
		rest = And(rest, Not(x.g))
	}
	return sel(append([]gv{{keep, a}, {rest, fresh}}, inPlace...))
}

// overwrite is append to a part t of a slice that goes on: what follows in its memory is overwritten. The
// result is the longer part, or nil if it is made anew or may be; false if the extents are not known.
func (ev *Eval) overwrite(t *Term, bs *Node, pg *Node, h heap) (*Node, bool) {
	o, off := ev.baseObj(t)
	end, ok1 := isConst(addT(off, subT(t.args[2], t.args[1])))
	if z, ok := isConst(t.args[2]); ok && z == 0 && o.name == "makeslice" {
		return nil, true // room made for what is appended, nobody else has it
	}
	old := ev.content(o.id, h)
	oldLen, addLen := lift1(lenT, old), lift1(lenT, bs)
	if !ok1 || oldLen.leaf == nil || addLen.leaf == nil {
		return nil, false
	}
	full, ok2 := isConst(oldLen.leaf)
	n, ok3 := isConst(addLen.leaf)
	if !ok2 || !ok3 || n == 0 || end >= full {
		return nil, ok2 && ok3 && (n == 0 || end >= full)
	}
	mid, grown := bs, end+n <= full
	if !grown {
		// there may be room for all of it or not: what was there is not known any more
		var et types.Type
		switch u := o.typ.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		default:
			return nil, false
		}
		var segs []*Term
		for i := end; i < full; i++ {
			segs = append(segs, elemSeg(opaque(mk(Term{op: OCall, s: "not decided: memory behind a slice that was appended to", args: []*Term{iLit(i)}, typ: et}), et)))
		}
		mid, n = leaf(mkList(segs)), full-end
	}
	nv := lift1(func(l *Term) *Node {
		return lift(func(p []*Term) *Node { return leaf(concatL(concatL(nz(p[0]), p[1]), nz(p[2]))) },
			subListT(l, iLit(0), iLit(end), false), mid, subListT(l, iLit(end+n), iLit(full), false))
	}, old)
	h.set(o.id, sel([]gv{{pg, nv}, {Not(pg), old}}))
	if !grown {
		return nil, true
	}
	return leaf(mk(Term{op: OSub, n: t.n, typ: t.typ, args: []*Term{t.args[0], t.args[1], addC(t.args[2], n)}})), true
}

func (ev *Eval) copy(dst, src *Node, g *Node, h heap, pos token.Pos) result {
	sc := lift1(func(t *Term) *Node {
		switch t.op {
		case OStr, OCat, OItoa, OFor:
			return leaf(stringBytes(t))
		}
		return ev.sliceContent(t, h)
	}, src)
	srcLen := lift1(lenT, sc)
	dstLen := lift1(func(t *Term) *Node { return ev.lenOf(t, h) }, dst)
	n := lift2(func(x, y *Term) *Node {
		d := Ge(subT(asLin(x), asLin(y)))
		return iteB(d, leaf(y), leaf(x))
	}, dstLen, srcLen)
	for _, t := range leaves(dst) {
		o, off := ev.baseObj(t)
		if o == nil {
			continue
		}
		pg := guardOf(dst, t)
		if o.shared {
			ev.event("store", pos, And(g, pg), "copy into "+o.name, t)
		}
		old := ev.content(o.id, h)
		nv := lift(func(ts []*Term) *Node {
			full, s, cnt := ts[0], ts[1], asLin(ts[2])
			fl := lenT(full)
			return lift1(func(fl *Term) *Node {
				// full[:off] ++ s[:cnt] ++ full[off+cnt:]
				a := subListT(full, iLit(0), off, false)
				b := subListT(s, iLit(0), cnt, false)
				c := subListT(full, addT(off, cnt), fl, false)
				return lift(func(p []*Term) *Node {
					l := concatL(concatL(nz(p[0]), nz(p[1])), nz(p[2]))
					return leaf(l)
				}, a, b, c)
			}, fl)
		}, old, sc, n)
		h.set(o.id, sel([]gv{{pg, nv}, {Not(pg), old}}))
	}
	return result{g, h, []*Node{n}}
}

// nz turns empty sublists into the empty list.
func nz(t *Term) *Term {
	if t.op == OSub && t.args[1] == t.args[2] {
		return mkList(nil)
	}
	return t
}

// makeShaped is a list of zero values; an unknown length is split into the lengths loops are followed for.
func (ev *Eval) makeShaped(n *Term, et types.Type) *Node {
	l := asLin(n)
	if _, ok := isConst(l); ok || ev.cut < 0 {
		return makeList(n, et)
	}
	out := makeList(n, et)
	for k := ev.cut; k >= 0; k-- {
		var segs []*Term
		for i := 0; i < k; i++ {
			segs = append(segs, elemSeg(zero(et)))
		}
		out = iteB(IntEq(l, iLit(int64(k))), leaf(mkList(segs)), out)
	}
	return out
}
