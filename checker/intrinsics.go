package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic gives the meaning of the vx_ functions of the probes.
func (ev *Eval) intrinsic(fn *ssa.Function, args []*Node, g *Node, h heap, pos token.Pos) result {
	one := func(n *Node) result { return result{g, h, []*Node{n}} }
	switch fn.Name() {
	case "vx_lenof", "vx_swap":
		// of the list an interface holds
		return ev.perLeaf(args[0], g, h, func(t *Term, g *Node, h heap) result {
			if t.op != OIface {
				ev.fail(pos, "sorting of an unknown list")
			}
			if fn.Name() == "vx_lenof" {
				return result{g, h, []*Node{ev.lenOf(t.args[0], h)}}
			}
			o, off := ev.baseObj(t.args[0])
			if o == nil {
				ev.fail(pos, "sorting of unknown memory")
			}
			et := o.typ
			switch u := o.typ.Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
			at := func(i *Node) *Node {
				return lift1(func(i *Term) *Node { return leaf(ptrT(o.id, stepIndex(addT(off, asLin(i))))) }, i)
			}
			p, q := at(args[1]), at(args[2])
			x, y := ev.load(p, et, h, pos), ev.load(q, et, h, pos)
			ev.store(p, y, h, g, pos)
			ev.store(q, x, h, g, pos)
			return result{g, h, nil}
		})
	}
	rs := make([]*Node, len(args))
	for i, a := range args {
		rs[i] = ev.resolve(a, h)
	}
	rt := fn.Signature.Results().At(0).Type()
	// lift applies f to every possible argument value; a value f cannot interpret gives an unknown
	// result, so that it matters only where the law can reach it
	lift := func(f func(ts []*Term) *Node, vs ...*Node) *Node {
		return lift(func(ts []*Term) (r *Node) {
			defer func() {
				if x := recover(); x != nil {
					u, ok := x.(undecided)
					if !ok {
						panic(x)
					}
					r = opaque(mk(Term{op: OCall, s: "not decided: " + u.msg, args: append([]*Term{}, ts...), typ: rt}), rt)
				}
			}()
			return f(ts)
		}, vs...)
	}
	lift1 := func(f func(a *Term) *Node, v *Node) *Node {
		return lift(func(ts []*Term) *Node { return f(ts[0]) }, v)
	}
	lift2 := func(f func(a, b *Term) *Node, v, w *Node) *Node {
		return lift(func(ts []*Term) *Node { return f(ts[0], ts[1]) }, v, w)
	}
	str2 := func(f func(a, b *Term) *Node) result {
		r := lift2(f, rs[0], rs[1])
		ev.notes = append(ev.notes, note{fn.Name(), rs[0], rs[1], r})
		return one(r)
	}
	switch strings.TrimPrefix(fn.Name(), "vx_") {
	case "same":
		r := eqDeep(rs[0], rs[1])
		ev.notes = append(ev.notes, note{"compared", rs[0], rs[1], r})
		return one(r)
	case "nums":
		ev.notes = append(ev.notes, note{"text", rs[0], nil, nil})
		return one(lift1(func(t *Term) *Node {
			var segs []*Term
			for _, x := range ev.placeholders(t, pos) {
				segs = append(segs, elemSeg(leaf(x)))
			}
			return ev.newSlice(h, rt, leaf(mkList(segs)))
		}, rs[0]))
	case "qmark":
		return one(lift1(func(t *Term) *Node { return leaf(ev.qmark(t, pos)) }, rs[0]))
	case "count":
		ev.notes = append(ev.notes, note{"text", rs[0], nil, nil})
		return one(lift2(func(t, sub *Term) *Node {
			n := 0
			for _, s := range segsOf(t) {
				if s.op == OStr {
					n += strings.Count(s.s, sub.s)
				} else {
					ev.plainSeg(s, sub.s, pos)
				}
			}
			return leaf(iLit(int64(n)))
		}, rs[0], rs[1]))
	case "has":
		return str2(func(s, sub *Term) *Node { return bLit(findSub(segsOf(s), segsOf(sub), 0) >= 0) })
	case "starts":
		return str2(func(s, sub *Term) *Node { return bLit(startsWith(segsOf(s), segsOf(sub))) })
	case "before":
		ev.notes = append(ev.notes, note{"text", rs[0], nil, nil})
		return one(lift(func(ts []*Term) *Node {
			segs := segsOf(ts[0])
			i := findSub(segs, segsOf(ts[1]), 0)
			return bLit(i >= 0 && findSub(segs, segsOf(ts[2]), i+1) >= 0)
		}, rs...))
	case "free":
		ev.notes = append(ev.notes, note{"text", rs[0], nil, nil})
		return one(lift2(func(s, v *Term) *Node {
			vs := map[*Term]bool{}
			inputVars(v, vs)
			return bLit(!flows(s, vs, map[*Term]bool{}))
		}, rs[0], rs[1]))
	case "equiv":
		return str2(func(a, b *Term) *Node { return bLit(sqlEquiv(a, b)) })
	case "deep":
		// bound by tier
		if deep {
			return one(rs[1])
		}
		return one(rs[0])
	case "wraps":
		// the error wraps the target
		return one(lift2(func(e, t *Term) *Node { return bLit(errIs(e, t)) }, rs[0], rs[1]))
	}
	ev.fail(pos, "unknown intrinsic %s", fn.Name())
	return result{}
}

// plainSeg refuses text pieces whose content the analysis cannot see.
func (ev *Eval) plainSeg(s *Term, sub string, pos token.Pos) {
	if hidesText(s, sub, map[*Term]bool{}) {
		ev.fail(pos, "text is built by an operation the analysis does not interpret: %s", s)
	}
}

func hidesText(t *Term, sub string, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case OItoa:
		return strings.ContainsAny(sub, "-0123456789")
	case OStr:
		return strings.Contains(t.s, sub)
	case OFor:
		return true
	}
	if t.op == OCall && strings.HasPrefix(t.s, "ext:strings.Replace") {
		return true
	}
	for _, a := range t.args {
		if a.op == OLin || a.op == OLen {
			continue
		}
		if hidesText(a, sub, seen) {
			return true
		}
	}
	for _, n := range t.nodes {
		for _, a := range leaves(n) {
			if hidesText(a, sub, seen) {
				return true
			}
		}
	}
	return false
}

// placeholders lists the numbers of the $N placeholders in order of appearance.
func (ev *Eval) placeholders(t *Term, pos token.Pos) []*Term {
	var out []*Term
	ev.scanPlaceholders(t, pos, func(lit string) {}, func(n *Term) { out = append(out, n) }, func(s *Term) {})
	return out
}

func (ev *Eval) qmark(t *Term, pos token.Pos) *Term {
	var parts []*Term
	ev.scanPlaceholders(t, pos, func(lit string) { parts = append(parts, sLit(lit)) },
		func(n *Term) { parts = append(parts, sLit("?")) }, func(s *Term) { parts = append(parts, s) })
	return catT(parts...)
}

func (ev *Eval) scanPlaceholders(t *Term, pos token.Pos, lit func(string), num func(*Term), other func(*Term)) {
	pend := false // a "$" is open
	for _, s := range segsOf(t) {
		switch s.op {
		case OStr:
			x := s.s
			for x != "" {
				if pend {
					ev.fail(pos, "placeholder number not recognised in %s", t)
				}
				i := strings.IndexByte(x, '$')
				if i < 0 {
					lit(x)
					break
				}
				if i > 0 {
					lit(x[:i])
				}
				x = x[i+1:]
				j := 0
				for j < len(x) && x[j] >= '0' && x[j] <= '9' {
					j++
				}
				if j == 0 && x == "" {
					pend = true
					break
				}
				if j == 0 {
					lit("$")
					continue
				}
				n, _ := strconv.Atoi(x[:j])
				num(iLit(int64(n)))
				x = x[j:]
			}
		case OItoa:
			if pend {
				num(asLin(s.args[0]))
				pend = false
				continue
			}
			other(s)
		default:
			if pend {
				ev.fail(pos, "placeholder number not recognised in %s", t)
			}
			ev.plainSeg(s, "$", pos)
			other(s)
		}
	}
	if pend {
		ev.fail(pos, "dangling $ in %s", t)
	}
}

// flatText turns segments into runes of literal text and opaque pieces.
type piece struct {
	b byte
	t *Term
}

func flat(segs []*Term) []piece {
	var out []piece
	for _, s := range segs {
		if s.op == OStr {
			for i := 0; i < len(s.s); i++ {
				out = append(out, piece{b: s.s[i]})
			}
		} else {
			out = append(out, piece{t: s})
		}
	}
	return out
}

func findSub(s, sub []*Term, from int) int {
	a, b := flat(s), flat(sub)
	for i := from; i+len(b) <= len(a); i++ {
		ok := true
		for j := range b {
			if a[i+j] != b[j] {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func startsWith(s, sub []*Term) bool {
	a, b := flat(s), flat(sub)
	if len(b) > len(a) {
		return false
	}
	for j := range b {
		if a[j] != b[j] {
			return false
		}
	}
	return true
}

func inputVars(t *Term, out map[*Term]bool) {
	if t.op == OVar {
		out[t] = true
	}
	for _, a := range t.args {
		inputVars(a, out)
	}
	for _, n := range t.nodes {
		for _, a := range leaves(n) {
			inputVars(a, out)
		}
	}
}

// flows tells whether the content of one of the variables reaches t; lengths do not count.
func flows(t *Term, vs, seen map[*Term]bool) bool {
	if vs[t] {
		return true
	}
	if seen[t] || t.op == OLen {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if flows(a, vs, seen) {
			return true
		}
	}
	for _, n := range t.nodes {
		for _, a := range leaves(n) {
			if flows(a, vs, seen) {
				return true
			}
		}
	}
	return false
}

// eqDeep compares two resolved values structurally: pointers by what they point to, nil and empty
// lists as equal, any two errors as equal.
func eqDeep(a, b *Node) *Node {
	memo := map[[2]int]*Node{}
	var en func(a, b *Node) *Node
	var et func(a, b *Term) *Node
	en = func(a, b *Node) *Node {
		if a == b {
			return True
		}
		k := [2]int{a.id, b.id}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Node
		if isBoolNode(a) && isBoolNode(b) {
			r = iteB(a, b, Not(b))
		} else {
			r = lift2(et, a, b)
		}
		memo[k] = r
		return r
	}
	empty := func(t *Term) bool { return t.op == ONil || t.op == OList && len(t.args) == 0 }
	et = func(a, b *Term) *Node {
		if a == b {
			return True
		}
		if empty(a) && empty(b) && (a.op == OList || b.op == OList || a.typ == nil || isSliceT(a.typ)) {
			return True
		}
		if a.op == OErr && b.op == OErr {
			return True
		}
		if a.op == OErr || b.op == OErr {
			return False
		}
		if a.op == OIface && b.op == OIface {
			x, tx := ifaceValue(a)
			y, ty := ifaceValue(b)
			if !types.Identical(tx, ty) {
				return False
			}
			return en(x, y)
		}
		if a.op == OBox && b.op == OBox {
			return en(a.nodes[0], b.nodes[0])
		}
		if a.op == OStruct && b.op == OStruct && len(a.nodes) == len(b.nodes) {
			out := True
			for i := range a.nodes {
				out = And(out, en(a.nodes[i], b.nodes[i]))
			}
			return out
		}
		if a.op == OList && b.op == OList {
			if len(a.args) != len(b.args) {
				if la, lb := lenT(a), lenT(b); la.leaf != nil && lb.leaf != nil {
					return And(EqT(la.leaf, lb.leaf), atomN(mk(Term{op: OEq, args: []*Term{a, b}})))
				}
				return False
			}
			out := True
			for i := range a.args {
				x, y := a.args[i], b.args[i]
				switch {
				case x == y:
				case x.op == OElem && y.op == OElem:
					out = And(out, en(x.nodes[0], y.nodes[0]))
				default:
					return atomN(mk(Term{op: OEq, args: []*Term{a, b}}))
				}
			}
			return out
		}
		return EqT(a, b)
	}
	return en(a, b)
}

// ifaceValue is the value held by an interface, pointers to structs followed.
func ifaceValue(t *Term) (*Node, types.Type) {
	n := ifaceInner(t)
	T := t.typ
	if n.leaf != nil && n.leaf.op == OBox {
		return n.leaf.nodes[0], derefT(T)
	}
	return n, T
}

// ---------- meaning of WHERE text ----------

// sqlEquiv compares the boolean meaning of two condition texts under SQL precedence
// (NOT over AND over OR).
func sqlEquiv(a, b *Term) bool {
	pa, ok1 := parseSQL(a)
	pb, ok2 := parseSQL(b)
	if !ok1 || !ok2 {
		return false
	}
	d := &bdd{vars: map[string]int{}, ids: map[[3]int]int{}, ite: map[[3]int]int{}, nodes: [][3]int{{}, {}}}
	return d.of(pa) == d.of(pb)
}

// bdd keeps ordered decision diagrams: formulas that mean the same get the same number. 0 is false, 1 true.
type bdd struct {
	vars  map[string]int
	nodes [][3]int // variable, when true, when false
	ids   map[[3]int]int
	ite   map[[3]int]int
}

func (d *bdd) node(v, hi, lo int) int {
	if hi == lo {
		return hi
	}
	k := [3]int{v, hi, lo}
	id, ok := d.ids[k]
	if !ok {
		if len(d.nodes) > 200000 {
			panic(undecided{token.NoPos, "too many conditions to compare the meaning of"})
		}
		id = len(d.nodes)
		d.ids[k] = id
		d.nodes = append(d.nodes, k)
	}
	return id
}

func (d *bdd) cond(c, a, b int) int {
	switch {
	case c == 1 || a == b:
		return a
	case c == 0:
		return b
	}
	k := [3]int{c, a, b}
	if r, ok := d.ite[k]; ok {
		return r
	}
	v := d.nodes[c][0]
	for _, x := range []int{a, b} {
		if x > 1 && d.nodes[x][0] < v {
			v = d.nodes[x][0]
		}
	}
	side := func(x, which int) int {
		if x > 1 && d.nodes[x][0] == v {
			return d.nodes[x][which]
		}
		return x
	}
	r := d.node(v, d.cond(side(c, 1), side(a, 1), side(b, 1)), d.cond(side(c, 2), side(a, 2), side(b, 2)))
	d.ite[k] = r
	return r
}

func (d *bdd) of(e *bx) int {
	switch e.op {
	case 'a':
		v, ok := d.vars[e.name]
		if !ok {
			v = len(d.vars)
			d.vars[e.name] = v
		}
		return d.node(v, 1, 0)
	case '!':
		return d.cond(d.of(e.kids[0]), 0, 1)
	case '&', '|':
		// from the last to the first: a long chain grows at its head
		r := 1
		if e.op == '|' {
			r = 0
		}
		var ks []int
		for _, k := range e.kids {
			ks = append(ks, d.of(k))
		}
		for i := len(ks) - 1; i >= 0; i-- {
			if e.op == '&' {
				r = d.cond(ks[i], r, 0)
			} else {
				r = d.cond(ks[i], 1, r)
			}
		}
		return r
	}
	return 1
}

type bx struct {
	op   byte // 'a' atom, '&', '|', '!', 't'
	name string
	kids []*bx
}

type sqlParser struct {
	toks []string
	i    int
	bad  bool
}

// parseSQL reads condition text; opaque pieces and anything but ( ) AND OR NOT belong to atoms.
func parseSQL(t *Term) (*bx, bool) {
	p := &sqlParser{}
	cur := ""
	flush := func() {
		if cur != "" {
			p.toks = append(p.toks, cur)
			cur = ""
		}
	}
	depth := 0 // inside the value list of IN (...)
	for _, c := range flat(segsOf(t)) {
		if c.t != nil {
			cur += "‹" + strconv.Itoa(c.t.id) + "›"
			continue
		}
		switch {
		case depth > 0:
			cur += string(c.b)
			if c.b == '(' {
				depth++
			}
			if c.b == ')' {
				depth--
			}
		case c.b == ' ':
			flush()
		case c.b == '(' && cur == "" && len(p.toks) > 0 && p.toks[len(p.toks)-1] == "IN":
			cur = "("
			depth = 1
		case c.b == '(' && cur != "":
			cur += "("
			depth = 1
		case c.b == '(' || c.b == ')':
			flush()
			p.toks = append(p.toks, string(c.b))
		default:
			cur += string(c.b)
		}
	}
	flush()
	e := p.or()
	return e, !p.bad && p.i == len(p.toks)
}

func (p *sqlParser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *sqlParser) or() *bx {
	e := &bx{op: '|', kids: []*bx{p.and()}}
	for p.peek() == "OR" {
		p.i++
		e.kids = append(e.kids, p.and())
	}
	return e
}

func (p *sqlParser) and() *bx {
	e := &bx{op: '&', kids: []*bx{p.not()}}
	for p.peek() == "AND" {
		p.i++
		e.kids = append(e.kids, p.not())
	}
	return e
}

func (p *sqlParser) not() *bx {
	if p.bad {
		return &bx{op: 't'}
	}
	switch p.peek() {
	case "NOT":
		p.i++
		return &bx{op: '!', kids: []*bx{p.not()}}
	case "(":
		p.i++
		e := p.or()
		if p.peek() != ")" {
			p.bad = true
			return e
		}
		p.i++
		return e
	case "", ")", "AND", "OR":
		p.bad = true
		return &bx{op: 't'}
	}
	var words []string
	neg := false
	for {
		w := p.peek()
		if w == "" || w == "(" || w == ")" || w == "AND" || w == "OR" {
			break
		}
		p.i++
		if w == "NOT" {
			neg = !neg
			continue
		}
		words = append(words, w)
	}
	e := &bx{op: 'a', name: strings.Join(words, " ")}
	if neg {
		return &bx{op: '!', kids: []*bx{e}}
	}
	return e
}
