package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Loops over the characters of an unknown text are summarised: one iteration is evaluated for an
// arbitrary character, and what it does (leave, count, set a flag) becomes a statement about the text
// having characters of some kind.

// charVar stands for the arbitrary character.
func charVar() *Term { return mk(Term{op: OVar, s: "_rune", typ: types.Typ[types.Int32], n: 1}) }

type charLoop struct {
	iter  *Obj                // the iterator of a range loop
	reads map[*ssa.Index]bool // the reads of an index loop
	text  *Node
	ok    *Node // there is one more character
	idx   *Term
	char  *Node
}

// nextChar is the step of a range over a text.
func (fr *frame) nextChar(x *ssa.Next, o *Obj, cnt *Node, h heap) *Node {
	if c := fr.chars; c != nil && c.iter == o {
		return tuple([]*Node{c.ok, leaf(asLin(c.idx)), c.char})
	}
	var s *Term
	if o.iterText != nil {
		s = o.iterText.leaf
	}
	i := int64(-1)
	if cnt.leaf != nil {
		if n, ok := isConst(asLin(cnt.leaf)); ok {
			i = n
		}
	}
	if s == nil || s.op != OStr || i < 0 || i > int64(len(s.s)) {
		fr.ev.fail(x.Pos(), "range over a text not known")
	}
	if i == int64(len(s.s)) {
		return tuple([]*Node{False, leaf(iLit(0)), leaf(iLit(0))})
	}
	r, n := utf8.DecodeRuneInString(s.s[i:])
	h.set(o.id, leaf(iLit(i+int64(n))))
	return tuple([]*Node{True, leaf(iLit(i)), leaf(iLit(int64(r)))})
}

// charLoopOf recognises a loop over the characters of a text: a range, or an index counting from the
// start which is used to read the text.
func (fr *frame) charLoopOf(l *loop, in edge) *charLoop {
	c := &charLoop{ok: atomN(freshVar("more", types.Typ[types.Bool], false)), idx: freshVar("pos", types.Typ[types.Int], true), char: leaf(asLin(charVar()))}
	for _, ins := range l.head.Instrs {
		if x, ok := ins.(*ssa.Next); ok && x.IsString {
			it := fr.val(x.Iter)
			if it.leaf == nil || it.leaf.op != ORef {
				return nil
			}
			c.iter = fr.ev.objs[it.leaf.n]
			if n, ok := in.h.get(c.iter.id); !ok || n != leaf(iLit(0)) {
				return nil
			}
			c.text = c.iter.iterText
			return c
		}
	}
	c.reads = map[*ssa.Index]bool{}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			x, ok := ins.(*ssa.Index)
			if !ok || !isStr(x.X.Type()) {
				continue
			}
			p, ok := x.Index.(*ssa.Phi)
			if !ok || p.Block() != l.head || in.phis[p] != leaf(iLit(0)) {
				return nil
			}
			s, ok := fr.env[x.X]
			if !ok || c.text != nil && c.text != s {
				return nil
			}
			c.text = s
			c.reads[x] = true
		}
	}
	if c.text == nil {
		return nil
	}
	return c
}

// overUnknownText tells loops over a text which is not known when the loop begins.
func (fr *frame) overUnknownText(l *loop) bool {
	for _, ins := range l.head.Instrs {
		if x, ok := ins.(*ssa.Next); ok && x.IsString {
			it := fr.val(x.Iter)
			if it.leaf == nil || it.leaf.op != ORef {
				return false
			}
			s := fr.ev.objs[it.leaf.n].iterText
			return s.leaf == nil || s.leaf.op != OStr
		}
	}
	return false
}

func (fr *frame) charSummary(l *loop, in []edge) ([]edge, bool) {
	if len(in) == 0 {
		return nil, true
	}
	ev := fr.ev
	e := fr.joinEdges(l.head, in)[0]
	c := fr.charLoopOf(l, e)
	if c == nil {
		return nil, false
	}
	G := e.guard
	// an iteration from an arbitrary state
	state := map[*ssa.Phi]*Node{}
	vars := map[*ssa.Phi]*Term{}
	var counter *ssa.Phi
	for p := range e.phis {
		v := freshVar("state", p.Type(), false)
		vars[p], state[p] = v, opaque(v, p.Type())
	}
	for x := range c.reads {
		counter = x.Index.(*ssa.Phi)
		vars[counter], state[counter] = c.idx, leaf(asLin(c.idx))
	}
	nEv, nRet, nDef := len(ev.events), len(fr.rets), len(fr.defers)
	old := fr.chars
	fr.chars = c
	h := e.h.clone()
	backs, exits := fr.run(l, l.head, []edge{{from: e.from, to: l.head, guard: True, h: h, phis: state}})
	fr.chars = old
	if len(ev.events) != nEv || len(fr.rets) != nRet || len(fr.defers) != nDef || len(backs) == 0 {
		return nil, false
	}
	back := fr.joinEdges(l.head, backs)[0]
	same := true
	joinHeaps([]heap{e.h, back.h}, func(id int64, vs []*Node) *Node {
		if vs[0] != nil && (c.iter == nil || id != c.iter.id) {
			same = false
		}
		return vs[1]
	})
	if !same {
		return nil, false
	}
	// the condition of having one more character
	more := c.ok
	if c.iter == nil {
		n := lift1(lenT, c.text)
		more = lift1(func(n *Term) *Node { return Ge(addC(subT(asLin(n), asLin(c.idx)), -1)) }, n)
		if back.phis[counter] != leaf(addC(asLin(c.idx), 1)) {
			return nil, false
		}
	}
	if more.leaf != nil || more.hi.leaf == nil || more.lo.leaf == nil {
		return nil, false
	}
	loose := func(n *Node, char bool) bool {
		if n == nil {
			return true
		}
		for p, v := range vars {
			if state[p] != back.phis[p] && dependsN(n, v) {
				return false
			}
		}
		return !dependsN(n, c.idx) && !dependsN(n, more.atom) && (char || !dependsN(n, charVar()))
	}
	pred := func(n *Node) (*Node, bool) {
		n = restrict(n, more.atom, more.hi == True)
		return n, loose(n, true)
	}
	exists := func(p *Node) *Node {
		return lift1(func(s *Term) *Node { return charExists(s, p, c.iter == nil) }, c.text)
	}
	var last *edge
	type leaving struct {
		e   *edge
		has *Node
	}
	var outs []leaving
	for i := range exits {
		x := &exits[i]
		if x.from == l.head {
			if last != nil || x.guard != Not(more) {
				return nil, false
			}
			last = x
			continue
		}
		p, ok := pred(x.guard)
		if !ok {
			return nil, false
		}
		outs = append(outs, leaving{x, exists(p)})
	}
	if last == nil {
		return nil, false
	}
	// final values of what the iterations change
	final := map[*Term]*Node{}
	for p, v := range vars {
		n := back.phis[p]
		init := e.phis[p]
		if n == state[p] {
			final[v] = init
			continue
		}
		if p == counter {
			final[v] = lift1(lenT, c.text)
			continue
		}
		n = lift1(func(t *Term) *Node { // ways leaving the loop
			if t == bot {
				return state[p]
			}
			return leaf(t)
		}, n)
		n = restrict(n, more.atom, more.hi == True)
		switch {
		case isBoolT(p.Type()):
			on, ok1 := pred(restrict(n, v, false))
			off, ok2 := pred(Not(restrict(n, v, true)))
			if !ok1 || !ok2 || on != False && off != False {
				return nil, false
			}
			final[v] = And(Or(init, exists(on)), Not(exists(off)))
		default:
			sum := init
			var set *Term
			for _, t := range leaves(n) {
				g, ok := pred(guardOf(n, t))
				if !ok {
					return nil, false
				}
				if leaf(t) == state[p] {
					continue
				}
				if isInt(p.Type()) {
					if d, ok := constDiff(asLin(t), asLin(v)); ok {
						sum = lift2(func(s, k *Term) *Node {
							return leaf(linAdd(asLin(s), 1, asLin(k), d, 0))
						}, sum, lift1(func(s *Term) *Node { return charCount(s, g, c.iter == nil) }, c.text))
						continue
					}
				}
				if set != nil || !loose(leaf(t), false) || dependsT(t, v) {
					return nil, false
				}
				set = t
			}
			if set != nil {
				if sum != init {
					return nil, false
				}
				g, _ := pred(guardOf(n, set))
				sum = iteB(exists(g), leaf(set), init)
			}
			final[v] = sum
		}
	}
	settle := func(n *Node) *Node {
		if n == nil {
			return n
		}
		return substMany(restrict(n, more.atom, more.hi == False), final)
	}
	// what is seen when leaving early at the first character having a property
	early := func(n, has *Node) (*Node, bool) {
		if n == nil {
			return n, true
		}
		at := func(nm string, v *Term) *Node {
			return leaf(asLin(mk(Term{op: OCall, s: nm, args: []*Term{mk(Term{op: OTuple, nodes: []*Node{c.text, has}})}, typ: types.Typ[types.Uint]})))
		}
		m := map[*Term]*Node{}
		for p, v := range vars {
			switch {
			case back.phis[p] == state[p]:
				m[v] = e.phis[p]
			case p != counter && dependsN(n, v):
				return nil, false
			}
		}
		n = restrict(n, more.atom, more.hi == True)
		m[c.idx] = at("firstPos", c.idx)
		m[charVar()] = at("firstChar", charVar())
		return substMany(n, m), true
	}
	var res []edge
	left, rest := False, True
	for i, o := range outs {
		later := False
		for _, k := range outs[i+1:] {
			later = Or(later, k.has)
		}
		first := atomN(mk(Term{op: OCall, s: fmt.Sprintf("first%d", i), args: []*Term{mk(Term{op: OTuple, nodes: []*Node{c.text, o.has}})}}))
		take := And(rest, And(o.has, Or(first, Not(later))))
		left = Or(left, take)
		rest = And(rest, Not(take))
		ne := *o.e
		ne.guard = And(G, take)
		ne.phis = map[*ssa.Phi]*Node{}
		ne.outs = map[ssa.Value]*Node{}
		for p, n := range o.e.phis {
			r, ok := early(n, o.has)
			if !ok {
				return nil, false
			}
			ne.phis[p] = r
		}
		for _, v := range l.live {
			if n, ok := fr.env[v]; ok {
				r, ok := early(n, o.has)
				if !ok {
					r = Bot // tracked only when used on this way
				}
				ne.outs[v] = r
			}
		}
		res = append(res, ne)
	}
	ne := *last
	ne.guard = And(G, Not(left))
	ne.phis = map[*ssa.Phi]*Node{}
	ne.outs = map[ssa.Value]*Node{}
	for p, n := range last.phis {
		ne.phis[p] = settle(n)
	}
	for _, v := range l.live {
		if n, ok := fr.env[v]; ok {
			if ins, ok := v.(ssa.Instruction); ok && ins.Block() == l.head {
				ne.outs[v] = settle(n)
			}
		}
	}
	return append(res, ne), true
}

// atomsOf lists what a condition depends on.
func atomsOf(p *Node) (atoms []*Term) {
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.leaf != nil || seen[n] {
			return
		}
		seen[n] = true
		atoms = append(atoms, n.atom)
		walk(n.hi)
		walk(n.lo)
	}
	walk(p)
	return
}

// charKinds splits a condition on one character into known characters that have it, and a list of
// named kinds of characters having it. It fails for other conditions.
func charKinds(p *Node) (chars []rune, kinds []*Term, ok bool) {
	v := charVar()
	atoms := atomsOf(p)
	cuts := map[int64]bool{0: true, utf8.MaxRune + 1: true}
	for _, a := range atoms {
		if a.op == OGe && len(a.args[0].args) == 1 && a.args[0].args[0] == v && a.args[0].coefs[0] == 1 {
			if b := -a.args[0].n; b > 0 && b <= utf8.MaxRune {
				cuts[b] = true
			}
		} else if dependsT(a, v) && !(a.op == OCall && len(a.args) == 1 && a.args[0] == asLin(v)) {
			return nil, nil, false
		} else if !dependsT(a, v) {
			return nil, nil, false
		}
	}
	var cs []int64
	for b := range cuts {
		cs = append(cs, b)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	at := func(r int64) (bool, bool) {
		n := subst(p, v, iLit(r))
		return n == True, n == True || n == False
	}
	var wide *Node
	var singles []rune
	for i := 0; i+1 < len(cs); i++ {
		lo, hi := cs[i], cs[i+1]-1
		if hi == lo {
			singles = append(singles, rune(lo))
			continue
		}
		n := p
		for _, a := range atoms {
			if a.op == OGe {
				n = restrict(n, a, lo+a.args[0].n >= 0)
			}
		}
		if n == True && hi-lo < 40 {
			for r := lo; r <= hi; r++ {
				singles = append(singles, rune(r))
			}
			continue
		}
		if wide != nil && wide != n {
			return nil, nil, false
		}
		wide = n
	}
	for wide != nil && wide.leaf == nil {
		if wide.hi != True {
			return nil, nil, false
		}
		kinds = append(kinds, wide.atom)
		wide = wide.lo
	}
	if wide == True {
		return nil, nil, false
	}
	for _, r := range singles {
		has, known := at(int64(r))
		if !known {
			return nil, nil, false
		}
		if has {
			chars = append(chars, r)
			continue
		}
		// an exception to a kind
		for _, k := range kinds {
			if n := subst(atomN(k), v, iLit(int64(r))); n != False {
				return nil, nil, false
			}
		}
	}
	return chars, kinds, true
}

// charExists tells whether a text has a character for which p holds.
func charExists(s *Term, p *Node, bytes bool) *Node {
	if p == False {
		return False
	}
	if p == True {
		return Not(EqT(s, sLit("")))
	}
	if s.op == OStr && len(s.s) <= 64 && !bytes {
		r := False
		for _, ch := range s.s {
			r = Or(r, boolN(subst(p, charVar(), iLit(int64(ch)))))
		}
		return r
	}
	chars, kinds, ok := charKinds(p)
	if ok && bytes {
		for _, r := range chars {
			ok = ok && r < 0x80
		}
		ok = ok && len(kinds) == 0
	}
	if !ok {
		return hasChar(s, fmt.Sprintf("graph%d%v", p.id, bytes), p)
	}
	r := False
	for _, ch := range chars {
		r = Or(r, callSimplify(&Term{op: OCall, s: "ext:strings.Contains", args: []*Term{s, sLit(string(ch))}}))
	}
	for _, k := range kinds {
		r = Or(r, hasChar(s, strings.TrimPrefix(k.s, "ext:"), atomN(k)))
	}
	return r
}

// hasChar is the unknown whether a text has a character of a kind, known for its literal pieces.
func hasChar(s *Term, id string, p *Node) *Node {
	if s == sLit("") {
		return False
	}
	if segs := segsOf(s); len(segs) > 1 && separated(segs) || s.op == OStr {
		has := False
		for _, x := range segs {
			if x.op != OStr {
				has = Or(has, hasChar(x, id, p))
				continue
			}
			for _, ch := range x.s {
				has = Or(has, boolN(subst(p, charVar(), iLit(int64(ch)))))
			}
		}
		return has
	}
	return atomN(mk(Term{op: OCall, s: "hasRune:" + id, args: []*Term{s}}))
}

// charCount counts the characters of a text for which p holds.
func charCount(s *Term, p *Node, bytes bool) *Node {
	if chars, kinds, ok := charKinds(p); ok && len(kinds) == 0 {
		sum := leaf(iLit(0))
		for _, ch := range chars {
			if bytes && ch >= 0x80 {
				ok = false
			}
			sum = lift2(func(a, b *Term) *Node { return leaf(addT(asLin(a), asLin(b))) }, sum, countOf(s, sLit(string(ch))))
		}
		if ok {
			return sum
		}
	}
	if p == True && bytes {
		return lenT(s)
	}
	return leaf(asLin(mk(Term{op: OCall, s: fmt.Sprintf("countRune:graph%d%v", p.id, bytes), args: []*Term{s}, typ: types.Typ[types.Uint]})))
}

// charPred is the condition a function puts on an arbitrary character. Ways to fail with a character are there
// for a text having such a character.
func (ev *Eval) charPred(f *Term, text, g *Node, h heap, pos token.Pos) *Node {
	from := len(ev.events)
	r := ev.callFn(f.fn, []*Node{leaf(asLin(charVar()))}, f.nodes, True, h.clone(), pos)
	for i := from; i < len(ev.events); i++ {
		p := ev.events[i].Guard
		switch {
		case And(g, p) == False:
			p = False
		case dependsN(p, charVar()):
			only := true
			for _, a := range atomsOf(p) {
				only = only && dependsT(a, charVar())
			}
			if only {
				p = lift1(func(s *Term) *Node { return charExists(s, p, false) }, text)
			} else {
				p = lift1(func(s *Term) *Node {
					return atomN(mk(Term{op: OCall, s: fmt.Sprintf("not decided: character of graph%d", p.id), args: []*Term{s}, typ: types.Typ[types.Bool]}))
				}, text)
			}
		}
		ev.events[i].Guard = And(g, p)
	}
	return boolN(r.vals[0])
}
