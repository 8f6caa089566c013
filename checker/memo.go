package main

// Calls that give plain values and write nothing are evaluated once: a call of the same function under the
// same condition with arguments of the same content, in the same state of the package variables, gives the
// same values and the same events.

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type memoKey struct {
	fn  *ssa.Function
	key string
}

type memoVal struct {
	guard  *Node
	vals   []*Node
	events []Event
	made   []int64 // memory made by the call that the values refer to
	mem    []*Node // its content
}

// callMemo is callSSA with memory.
func (ev *Eval) callMemo(fn *ssa.Function, args []*Node, g *Node, h heap) result {
	if ev.catch > 0 || ev.pan != nil || len(fn.Blocks) == 1 && len(fn.Blocks[0].Instrs) < 6 || fn.Signature.Results().Len() == 0 {
		return ev.callSSA(fn, args, nil, g, h)
	}
	key, raw, ok := ev.memoKeys(args, g, h)
	if !ok {
		return ev.callSSA(fn, args, nil, g, h)
	}
	m, ok := ev.memo[memoKey{fn, key}]
	if !ok {
		m, ok = ev.memo[memoKey{fn, raw}]
	}
	if ok {
		ev.events = append(ev.events, m.events...)
		ev.calls++
		vals := m.vals
		if len(m.made) > 0 {
			to := map[int64]int64{}
			for _, id := range m.made {
				o := ev.objs[id]
				to[id] = ev.newObj(o.typ, o.name, false).id
			}
			vals = make([]*Node, len(m.vals))
			for i, v := range m.vals {
				vals[i] = ev.rename(v, to)
			}
			for i, id := range m.made {
				h.set(to[id], ev.rename(m.mem[i], to))
			}
		}
		return result{m.guard, h, vals}
	}
	n0, e0, err0 := int64(len(ev.objs)), len(ev.events), ev.errN
	before := h.clone()
	r := ev.callSSA(fn, args, nil, g, h)
	if ev.errN != err0 || ev.changed(before, r.h, n0) {
		return r
	}
	m = memoVal{guard: r.guard, vals: r.vals, events: append([]Event{}, ev.events[e0:]...)}
	seen := map[int64]bool{}
	var todo []int64
	old := false
	see := func(id int64) {
		if id < n0 || ev.objs[id].shared {
			old = true
		} else if !seen[id] {
			seen[id] = true
			todo = append(todo, id)
		}
	}
	done := map[any]bool{}
	for _, v := range r.vals {
		refsN(v, done, see)
	}
	for len(todo) > 0 {
		id := todo[0]
		todo = todo[1:]
		c, ok := r.h.get(id)
		if !ok {
			return r
		}
		m.made = append(m.made, id)
		m.mem = append(m.mem, c)
		refsN(c, done, see)
	}
	if old {
		key = raw
	}
	ev.memo[memoKey{fn, key}] = m
	return r
}

// refsN visits the memory a value refers to.
func refsN(n *Node, done map[any]bool, see func(id int64)) {
	if done[n] || !hasRefN(n) {
		return
	}
	done[n] = true
	if n.leaf != nil {
		refsT(n.leaf, done, see)
		return
	}
	refsT(n.atom, done, see)
	refsN(n.hi, done, see)
	refsN(n.lo, done, see)
}

func refsT(t *Term, done map[any]bool, see func(id int64)) {
	if done[t] || !hasRef(t) {
		return
	}
	done[t] = true
	if t.op == ORef || t.op == OPtr {
		see(t.n)
	}
	for _, a := range t.args {
		refsT(a, done, see)
	}
	for _, a := range t.nodes {
		refsN(a, done, see)
	}
}

// rename replaces references to memory by references to a copy of it.
func (ev *Eval) rename(n *Node, to map[int64]int64) *Node {
	memo := map[*Node]*Node{}
	var rn func(n *Node) *Node
	var rt func(t *Term) *Node
	rn = func(n *Node) *Node {
		if !hasRefN(n) {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var r *Node
		if n.leaf != nil {
			r = rt(n.leaf)
		} else {
			r = iteB(atomN(n.atom), rn(n.hi), rn(n.lo))
		}
		memo[n] = r
		return r
	}
	rt = func(t *Term) *Node {
		if !hasRef(t) {
			return leaf(t)
		}
		switch t.op {
		case ORef:
			if id, ok := to[t.n]; ok {
				return leaf(refT(ev.objs[id]))
			}
			return leaf(t)
		case OPtr:
			if id, ok := to[t.n]; ok {
				return leaf(ptrT(id, t.args...))
			}
			return leaf(t)
		}
		args := make([]*Node, len(t.args))
		for i, a := range t.args {
			if t.op == OFor || t.op == OExists || t.op == OSum || t.op == OFirst {
				args[i] = leaf(a)
			} else {
				args[i] = rt(a)
			}
		}
		nodes := make([]*Node, len(t.nodes))
		for i, a := range t.nodes {
			nodes[i] = rn(a)
		}
		if len(args) == 0 {
			return remake(t, nil, nodes, nil)
		}
		return lift(func(as []*Term) *Node { return remake(t, as, nodes, nil) }, args...)
	}
	return rn(n)
}

// memoKeys identifies the content of the arguments, and the arguments with their memory.
func (ev *Eval) memoKeys(args []*Node, g *Node, h heap) (key, raw string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(undecided); !is {
				panic(x)
			}
			ok = false
		}
	}()
	b := strconv.AppendInt(nil, int64(g.id), 36)
	var c []byte
	for _, a := range args {
		b = append(b, ' ')
		c = strconv.AppendInt(append(c, '/'), int64(a.id), 36)
		if hasRefN(a) || len(ev.ptrObj) > 0 {
			a = ev.resolve(a, h)
		}
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	for _, o := range ev.sharedObjs {
		if v, ok := h.get(o.id); ok {
			b = append(b, ',')
			b = strconv.AppendInt(b, o.id, 36)
			b = append(b, ':')
			b = strconv.AppendInt(b, int64(v.id), 36)
		}
	}
	return string(b), string(append(b, c...)), true
}

// changed: the call wrote into memory that existed before it, or into memory of the caller it met.
func (ev *Eval) changed(h0, h1 heap, n0 int64) bool {
	var walk func(a, b *hnode, l int, base int64) bool
	walk = func(a, b *hnode, l int, base int64) bool {
		if a == b {
			return false
		}
		for i := int64(0); i < heapFan; i++ {
			id := base | i<<(l*heapBits)
			if l > 0 {
				var x, y *hnode
				if a != nil {
					x = a.kids[i]
				}
				if b != nil {
					y = b.kids[i]
				}
				if walk(x, y, l-1, id) {
					return true
				}
				continue
			}
			var x, y *Node
			if a != nil {
				x = a.vals[i]
			}
			if b != nil {
				y = b.vals[i]
			}
			if x != y && (id < n0 || ev.objs[id].shared) {
				return true
			}
		}
		return false
	}
	return walk(h0.root, h1.root, heapLevels-1, 0)
}
