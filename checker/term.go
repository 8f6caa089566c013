package main

// Value-graph domain.
//
// A *Term is a hash-consed, condition-free symbolic value. A *Node is a decision diagram whose inner
// nodes test boolean atoms (also terms) and whose leaves are terms. Struct fields, list elements and
// loop bodies hold nested Nodes. Nothing here enumerates program paths: control-flow merges become
// gates of one shared graph and loops become binders (For/Sum/Exists/First/Fold).

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Op uint8

const (
	OBot Op = iota
	OStr
	OBool
	ONil
	OLin
	OCat
	OItoa
	OFor // s: "s" string, "l" list; args: hi, bound; nodes: body
	OList
	OElem
	OSpread
	OStruct
	OIface
	OVar
	OField
	OIndex
	OLen
	OCall
	OProj
	OGe
	OEq
	OIsType
	OIsNil
	OExists
	OSum
	OFirst
	OFold
	ORef
	OPtr
	OBox
	OSub // args: list, lo, hi; n: 1 when the capacity is cut to the length
	OClosure
	OErr
	OWrite // args: list, idx; nodes: value
	OMapUpd
	OTuple
)

type Term struct {
	id    int
	op    Op
	typ   types.Type
	s     string
	n     int64
	args  []*Term
	nodes []*Node
	coefs []int64
	fn    *ssa.Function
	depth int // binder depth of closed binders inside
}

type Node struct {
	id     int
	atom   *Term
	hi, lo *Node
	leaf   *Term
	depth  int
	groups []int // theory groups of the tested atoms, sorted
}

type Ctx struct {
	terms  map[string]*Term
	tl     []*Term
	nodes  map[[3]int]*Node
	nl     int
	th     typeutil.Map
	tn     int
	tid    map[types.Type]int
	fresh  int
	depM   map[[2]int]bool
	grp    map[*Term]int
	grpKey map[string]int
	givenM map[[3]int]*Node
}

func NewCtx() *Ctx {
	return &Ctx{tid: map[types.Type]int{}, terms: map[string]*Term{}, nodes: map[[3]int]*Node{}, depM: map[[2]int]bool{},
		grp: map[*Term]int{}, grpKey: map[string]int{}, givenM: map[[3]int]*Node{}}
}

var C = NewCtx()

// deadline ends the analysis of an obligation that takes too long.
var deadline time.Time
var ticks int

// tooBig is set while the analysis holds more memory than it may.
var tooBig atomic.Bool

const memoryCap = 3 << 30

func watchMemory() {
	m := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	for range time.Tick(200 * time.Millisecond) {
		metrics.Read(m)
		tooBig.Store(m[0].Value.Uint64() > memoryCap)
	}
}

func tick() {
	if ticks&0xfff == 0 && !deadline.IsZero() && tooBig.Load() {
		ticks++
		panic(undecided{token.NoPos, "the analysis takes too much memory"})
	}
	if ticks++; ticks&0x3fff == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic(undecided{token.NoPos, "the analysis takes too long"})
	}
}

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if id, ok := C.tid[t]; ok {
		return id
	}
	id := typeIDOf(types.Unalias(t))
	C.tid[t] = id
	return id
}

func typeIDOf(t types.Type) int {
	if v := C.th.At(t); v != nil {
		return v.(int)
	}
	C.tn++
	C.th.Set(t, C.tn)
	return C.tn
}

var mkBuf []byte

func mk(t Term) *Term {
	tick()
	b := append(mkBuf[:0], byte(t.op)+33)
	b = binary.AppendVarint(b, int64(typeID(t.typ)))
	b = binary.AppendVarint(b, t.n)
	b = binary.AppendVarint(b, int64(len(t.s)))
	b = append(b, t.s...)
	b = binary.AppendVarint(b, int64(len(t.args)))
	for _, a := range t.args {
		b = binary.AppendVarint(b, int64(a.id))
	}
	b = binary.AppendVarint(b, int64(len(t.nodes)))
	for _, a := range t.nodes {
		b = binary.AppendVarint(b, int64(a.id))
	}
	for _, a := range t.coefs {
		b = binary.AppendVarint(b, a)
	}
	if t.fn != nil {
		b = fmt.Appendf(b, "%p", t.fn)
	}
	mkBuf = b
	if r, ok := C.terms[string(b)]; ok {
		return r
	}
	k := string(b)
	d := 0
	for _, a := range t.args {
		if a.depth > d {
			d = a.depth
		}
	}
	for _, a := range t.nodes {
		if a.depth > d {
			d = a.depth
		}
	}
	switch t.op {
	case OFor, OExists, OSum, OFirst, OFold:
		d++
	}
	r := new(Term)
	*r = t
	r.depth = d
	r.id = len(C.terms) + 1
	C.terms[k] = r
	return r
}

func leaf(t *Term) *Node {
	k := [3]int{t.id, -1, -1}
	if r, ok := C.nodes[k]; ok {
		return r
	}
	C.nl++
	r := &Node{id: C.nl, leaf: t, depth: t.depth}
	C.nodes[k] = r
	return r
}

var (
	bot   = mk(Term{op: OBot})
	tTrue = mk(Term{op: OBool, n: 1})
	tFals = mk(Term{op: OBool, n: 0})
	Bot   = leaf(bot)
	True  = leaf(tTrue)
	False = leaf(tFals)
)

func mkNode(atom *Term, hi, lo *Node) *Node {
	g := groupOf(atom)
	hi, lo = given(hi, atom, true, g), given(lo, atom, false, g)
	if hi == lo {
		return hi
	}
	if hi == Bot {
		return lo
	}
	if lo == Bot {
		return hi
	}
	k := [3]int{atom.id, hi.id, lo.id}
	if r, ok := C.nodes[k]; ok {
		return r
	}
	C.nl++
	d := atom.depth
	if hi.depth > d {
		d = hi.depth
	}
	if lo.depth > d {
		d = lo.depth
	}
	r := &Node{id: C.nl, atom: atom, hi: hi, lo: lo, depth: d, groups: mergeGroups(g, hi.groups, lo.groups)}
	C.nodes[k] = r
	return r
}

func mergeGroups(g int, a, b []int) []int {
	var out []int
	add := func(x int) {
		i := sort.SearchInts(out, x)
		if i < len(out) && out[i] == x {
			return
		}
		out = append(out, 0)
		copy(out[i+1:], out[i:])
		out[i] = x
	}
	for _, x := range a {
		out = append(out, x)
	}
	for _, x := range b {
		add(x)
	}
	if g != 0 {
		add(g)
	}
	return out
}

// groupOf numbers the theory group of an atom: atoms of one group may decide each other.
func groupOf(a *Term) int {
	if g, ok := C.grp[a]; ok {
		return g
	}
	var k string
	switch a.op {
	case OGe:
		l := a.args[0]
		if len(l.args) == 1 && l.args[0].op == OLen {
			k = "T" + strconv.Itoa(l.args[0].args[0].id)
			break
		}
		var b strings.Builder
		b.WriteString("G")
		for i, x := range l.args {
			fmt.Fprintf(&b, "%d*%d,", l.coefs[i], x.id)
		}
		k = b.String()
	case OIsType, OIsNil:
		k = "T" + strconv.Itoa(a.args[0].id)
	case OEq:
		if x, _ := eqConst(a); x != nil {
			k = "T" + strconv.Itoa(x.id)
		}
	}
	if k == "" {
		C.grp[a] = 0
		return 0
	}
	g, ok := C.grpKey[k]
	if !ok {
		g = len(C.grpKey) + 1
		C.grpKey[k] = g
	}
	C.grp[a] = g
	return g
}

// eqConst splits an equality atom into its variable and its literal.
func eqConst(a *Term) (x, c *Term) {
	if a.args[1].op == OStr {
		return a.args[0], a.args[1]
	}
	if a.args[0].op == OStr {
		return a.args[1], a.args[0]
	}
	return nil, nil
}

// implied tells whether atom a being val decides atom b of the same group.
func implied(a *Term, val bool, b *Term) (known, v bool) {
	if a == b {
		return true, val
	}
	isLen := func(t *Term) bool { return t.op == OGe && len(t.args[0].args) == 1 && t.args[0].args[0].op == OLen }
	switch {
	case a.op == OGe && b.op == OGe:
		n, m := a.args[0].n, b.args[0].n
		if val && m >= n {
			return true, true
		}
		if !val && m <= n {
			return true, false
		}
	case a.op == OIsType && b.op == OIsType:
		T, U := a.typ, b.typ
		if val {
			switch {
			case !isIfaceT(T) && !isIfaceT(U):
				if !types.Identical(T, U) {
					return true, false
				}
			case !isIfaceT(T):
				return true, types.Implements(T, U.Underlying().(*types.Interface))
			case !isIfaceT(U):
				if !types.Implements(U, T.Underlying().(*types.Interface)) {
					return true, false
				}
			default:
				if types.Implements(T, U.Underlying().(*types.Interface)) {
					return true, true
				}
			}
		} else if isIfaceT(T) && types.Implements(U, T.Underlying().(*types.Interface)) {
			return true, false
		}
	case a.op == OIsNil && val && (b.op == OIsType || b.op == OEq):
		return true, false
	case (a.op == OIsType || a.op == OEq) && val && b.op == OIsNil:
		return true, false
	case a.op == OEq && val && b.op == OEq:
		return true, false
	case a.op == OIsNil && val && isLen(b):
		return true, b.args[0].n >= 0
	case isLen(a) && val && b.op == OIsNil && a.args[0].n < 0 && a.args[0].coefs[0] == 1:
		return true, false
	case a.op == OEq && val && isLen(b) && b.args[0].coefs[0] == 1:
		_, c := eqConst(a)
		return true, int64(len(c.s))+b.args[0].n >= 0
	case isLen(a) && b.op == OEq && a.args[0].coefs[0] == 1:
		_, c := eqConst(b)
		if (int64(len(c.s))+a.args[0].n >= 0) != val {
			return true, false
		}
	}
	return false, false
}

// given simplifies n knowing atom a is val.
func given(n *Node, a *Term, val bool, g int) *Node {
	if g == 0 || n.leaf != nil {
		return n
	}
	i := sort.SearchInts(n.groups, g)
	if i >= len(n.groups) || n.groups[i] != g {
		return n
	}
	k := [3]int{n.id, a.id, 0}
	if val {
		k[2] = 1
	}
	if r, ok := C.givenM[k]; ok {
		return r
	}
	var r *Node
	if groupOf(n.atom) == g {
		if known, v := implied(a, val, n.atom); known {
			if v {
				r = given(n.hi, a, val, g)
			} else {
				r = given(n.lo, a, val, g)
			}
		}
	}
	if r == nil {
		r = mkNode(n.atom, given(n.hi, a, val, g), given(n.lo, a, val, g))
	}
	C.givenM[k] = r
	return r
}

// cof returns the cofactors of n for atom a (which must not be ordered after the top atom of n).
func cof(n *Node, a *Term) (h, l *Node) {
	if n.leaf == nil && n.atom == a {
		return n.hi, n.lo
	}
	return n, n
}

func topAtom(ns ...*Node) *Term {
	var a *Term
	for _, n := range ns {
		if n.leaf == nil && (a == nil || n.atom.id < a.id) {
			a = n.atom
		}
	}
	return a
}

// iteB is if c then h else l, for a boolean diagram c.
func iteB(c, h, l *Node) *Node {
	memo := map[[3]int]*Node{}
	var rec func(c, h, l *Node) *Node
	rec = func(c, h, l *Node) *Node {
		tick()
		if c == True {
			return h
		}
		if c == False {
			return l
		}
		if c == Bot {
			return Bot
		}
		if h == l {
			return h
		}
		k := [3]int{c.id, h.id, l.id}
		if r, ok := memo[k]; ok {
			return r
		}
		a := topAtom(c, h, l)
		if a == nil {
			// a condition leaf that is neither true nor false cannot happen: booleans are atoms
			panic("iteB: non boolean leaf " + c.leaf.String())
		}
		ch, cl := cof(c, a)
		hh, hl := cof(h, a)
		lh, ll := cof(l, a)
		r := mkNode(a, rec(ch, hh, lh), rec(cl, hl, ll))
		memo[k] = r
		return r
	}
	return rec(c, h, l)
}

func And(a, b *Node) *Node { return iteB(a, b, False) }
func Or(a, b *Node) *Node  { return iteB(a, True, b) }
func Not(a *Node) *Node    { return iteB(a, False, True) }

// atomN makes a boolean node from a boolean atom.
func atomN(a *Term) *Node { return mkNode(a, True, False) }

// lift applies f to every combination of leaves.
func lift(f func(ts []*Term) *Node, vs ...*Node) *Node {
	memo := map[string]*Node{}
	var rec func(vs []*Node) *Node
	rec = func(vs []*Node) *Node {
		a := topAtom(vs...)
		if a == nil {
			ts := make([]*Term, len(vs))
			for i, v := range vs {
				if v == Bot {
					return Bot
				}
				ts[i] = v.leaf
			}
			return f(ts)
		}
		var kb strings.Builder
		for _, v := range vs {
			kb.WriteString(strconv.Itoa(v.id))
			kb.WriteByte(',')
		}
		if r, ok := memo[kb.String()]; ok {
			return r
		}
		hs := make([]*Node, len(vs))
		ls := make([]*Node, len(vs))
		for i, v := range vs {
			hs[i], ls[i] = cof(v, a)
		}
		r := iteB(atomN(a), rec(hs), rec(ls))
		memo[kb.String()] = r
		return r
	}
	return rec(vs)
}

func lift1(f func(t *Term) *Node, v *Node) *Node {
	return lift(func(ts []*Term) *Node { return f(ts[0]) }, v)
}
func lift2(f func(a, b *Term) *Node, v, w *Node) *Node {
	return lift(func(ts []*Term) *Node { return f(ts[0], ts[1]) }, v, w)
}

// sel merges values under pairwise disjoint guards; outside all guards the result does not matter.
type gv struct {
	g, v *Node
}

func sel(in []gv) *Node {
	memo := map[string]*Node{}
	var rec func(in []gv) *Node
	rec = func(in []gv) *Node {
		var live []gv
		for _, x := range in {
			if x.g != False && x.g != Bot && x.v != Bot {
				live = append(live, x)
			}
		}
		if len(live) == 0 {
			return Bot
		}
		same := true
		for _, x := range live[1:] {
			if x.v != live[0].v {
				same = false
			}
		}
		if same {
			return live[0].v
		}
		for _, x := range live {
			if x.g == True {
				return x.v
			}
		}
		var kb strings.Builder
		var ns []*Node
		for _, x := range live {
			fmt.Fprintf(&kb, "%d:%d,", x.g.id, x.v.id)
			ns = append(ns, x.g, x.v)
		}
		if r, ok := memo[kb.String()]; ok {
			return r
		}
		a := topAtom(ns...)
		hs := make([]gv, len(live))
		ls := make([]gv, len(live))
		for i, x := range live {
			gh, gl := cof(x.g, a)
			vh, vl := cof(x.v, a)
			hs[i] = gv{gh, vh}
			ls[i] = gv{gl, vl}
		}
		r := mkNode(a, rec(hs), rec(ls))
		memo[kb.String()] = r
		return r
	}
	return rec(in)
}

// leaves returns the distinct leaves of a node.
func leaves(n *Node) []*Term {
	seen := map[*Node]bool{}
	var out []*Term
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.leaf != nil {
			if n != Bot {
				out = append(out, n.leaf)
			}
			return
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	return out
}

// guardOf is the condition under which n evaluates to leaf t.
func guardOf(n *Node, t *Term) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil {
			if n.leaf == t {
				return True
			}
			if n == Bot {
				return Bot
			}
			return False
		}
		if r, ok := memo[n]; ok {
			return r
		}
		r := mkNode(n.atom, rec(n.hi), rec(n.lo))
		memo[n] = r
		return r
	}
	r := rec(n)
	if r == Bot {
		return False
	}
	return r
}

// ---------- constants and integers ----------

func sLit(s string) *Term { return mk(Term{op: OStr, s: s}) }
func iLit(n int64) *Term  { return mk(Term{op: OLin, n: n}) }
func bLit(b bool) *Node {
	if b {
		return True
	}
	return False
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIfaceT(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func asLin(t *Term) *Term {
	if t.op == OLin {
		return t
	}
	return mk(Term{op: OLin, args: []*Term{t}, coefs: []int64{1}})
}

func linAdd(a *Term, ca int64, b *Term, cb int64, n int64) *Term {
	m := map[*Term]int64{}
	var ord []*Term
	add := func(t *Term, c int64) {
		t = asLin(t)
		n += t.n * c
		for i, x := range t.args {
			if _, ok := m[x]; !ok {
				ord = append(ord, x)
			}
			m[x] += c * t.coefs[i]
		}
	}
	add(a, ca)
	if b != nil {
		add(b, cb)
	}
	return linOf(m, ord, n)
}

func linOf(m map[*Term]int64, ord []*Term, n int64) *Term {
	sort.Slice(ord, func(i, j int) bool { return ord[i].id < ord[j].id })
	var as []*Term
	var cs []int64
	for _, x := range ord {
		if m[x] != 0 {
			as = append(as, x)
			cs = append(cs, m[x])
		}
	}
	return mk(Term{op: OLin, args: as, coefs: cs, n: n})
}

func addT(a, b *Term) *Term         { return linAdd(a, 1, b, 1, 0) }
func subT(a, b *Term) *Term         { return linAdd(a, 1, b, -1, 0) }
func addC(a *Term, n int64) *Term   { return linAdd(a, 1, nil, 0, n) }
func isConst(t *Term) (int64, bool) { return t.n, t.op == OLin && len(t.args) == 0 }
func constDiff(a, b *Term) (int64, bool) {
	return isConst(subT(asLin(a), asLin(b)))
}

func unsignedT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func nonneg(a *Term) bool {
	switch a.op {
	case OLen, OFirst:
		return true
	case OSum:
		for _, l := range leaves(a.nodes[0]) {
			if !linNonneg(l) {
				return false
			}
		}
		return true
	case OVar:
		return a.n == 1 || unsignedT(a.typ)
	default:
		return unsignedT(a.typ)
	}
}

func linNonneg(l *Term) bool {
	l = asLin(l)
	if l.n < 0 {
		return false
	}
	for i, a := range l.args {
		if l.coefs[i] < 0 || !nonneg(a) {
			return false
		}
	}
	return true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// wrap64 is 2^64, added when a negative value is converted to an unsigned type.
var wrap64 = mk(Term{op: OVar, s: "2^64", n: 1})

// Ge is the condition l >= 0.
func Ge(l *Term) *Node {
	l = asLin(l)
	if len(l.args) == 0 {
		return bLit(l.n >= 0)
	}
	if linNonneg(l) {
		return True
	}
	for i, a := range l.args {
		if a == wrap64 {
			return bLit(l.coefs[i] > 0)
		}
	}
	neg := linAdd(l, -1, nil, 0, -1) // -l-1 >= 0 is the negation
	if linNonneg(neg) {
		return False
	}
	// length of a repeated string: non-empty when the body always is
	if len(l.args) == 1 && l.coefs[0] == 1 && l.n == -1 && l.args[0].op == OLen {
		x := l.args[0].args[0]
		if x.op == OFor && x.s == "s" && minLenN(x.nodes[0]) >= 1 {
			return Ge(addC(x.args[0], -1))
		}
		if x.op == OItoa {
			return True
		}
	}
	// a character found in a text lies inside it
	for i, a := range l.args {
		if l.coefs[i] != -1 || a.op != OCall || len(a.args) == 0 {
			continue
		}
		w := int64(1)
		switch {
		case a.s == "indexIn" || a.s == "lastIndexIn":
			w = minLenT(a.args[1])
		case !strings.HasPrefix(a.s, "idxRune:"):
			continue
		}
		if n := lenT(a.args[0]); n.leaf != nil {
			if rest := subT(l, addC(subT(asLin(n.leaf), asLin(a)), -w)); linNonneg(rest) {
				return True
			}
		}
	}
	if r := geIndex(l); r != nil {
		return r
	}
	if r := geIndex(neg); r != nil {
		return Not(r)
	}
	g := int64(0)
	for _, c := range l.coefs {
		g = gcd(g, c)
	}
	if l.coefs[0] < 0 {
		return Not(Ge(neg))
	}
	cs := make([]int64, len(l.coefs))
	for i, c := range l.coefs {
		cs[i] = c / g
	}
	c := mk(Term{op: OLin, args: l.args, coefs: cs, n: floorDiv(l.n, g)})
	return atomN(mk(Term{op: OGe, args: []*Term{c}}))
}

// geIndex decides l >= 0 about the place of a character in a text: it is the first or the last one exactly when the text
// begins or ends with it.
func geIndex(l *Term) *Node {
	for i, a := range l.args {
		if a.op != OCall || a.s != "indexIn" && a.s != "lastIndexIn" || a.args[1].op != OStr || len(a.args[1].s) != 1 {
			continue
		}
		edge := func(nm string) *Node {
			return Not(callSimplify(&Term{op: OCall, s: "ext:strings." + nm, args: a.args, typ: types.Typ[types.Bool]}))
		}
		first := a.s == "indexIn"
		switch {
		case l.coefs[i] == 1 && len(l.args) == 1 && l.n == -1:
			if !first {
				return True
			}
			return edge("HasPrefix")
		case l.coefs[i] == 1 && !first && len(l.args) == 2 && l.n >= -1:
			for j, b := range l.args {
				if b.op == OCall && b.s == "indexIn" && l.coefs[j] == -1 && b.args[0] == a.args[0] && b.args[1] == a.args[1] {
					return True
				}
			}
		case l.coefs[i] == -1:
			n := lenT(a.args[0])
			if n.leaf == nil {
				continue
			}
			if d, ok := isConst(subT(l, subT(asLin(n.leaf), asLin(a)))); !ok || d != -2 {
				continue
			}
			if !first {
				return edge("HasSuffix")
			}
			return lift1(func(c *Term) *Node { return Or(Ge(addC(asLin(c), -2)), edge("HasSuffix")) }, countOf(a.args[0], a.args[1]))
		}
	}
	return nil
}

func IntEq(a, b *Term) *Node {
	d := subT(asLin(a), asLin(b))
	if r := edgeChar(d); r != nil {
		return r
	}
	return And(Ge(d), Ge(linAdd(d, -1, nil, 0, 0)))
}

// edgeChar: the first or last character of a text being a given one is the text beginning or ending with it.
func edgeChar(d *Term) *Node {
	if len(d.args) != 1 || d.args[0].op != OIndex || len(d.args[0].args) != 2 {
		return nil
	}
	s, idx := d.args[0].args[0], d.args[0].args[1]
	ch := -d.n * d.coefs[0]
	if s.op != OCat && (s.typ == nil || !isStr(s.typ)) || d.coefs[0] != 1 && d.coefs[0] != -1 || ch <= 0 || ch >= 0x80 {
		return nil
	}
	side := ""
	if n := lenT(s); n.leaf != nil {
		if k, ok := constDiff(n.leaf, idx); ok && k == 1 {
			side = "ext:strings.HasSuffix"
		}
	}
	if k, ok := isConst(idx); ok && k == 0 {
		side = "ext:strings.HasPrefix"
	}
	if side == "" {
		return nil
	}
	return callSimplify(&Term{op: OCall, s: side, args: []*Term{s, sLit(string(rune(ch)))}, typ: types.Typ[types.Bool]})
}

// ---------- strings ----------

func segsOf(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t.op == OStr && t.s == "" {
		return nil
	}
	return []*Term{t}
}

func catT(ts ...*Term) *Term {
	var segs []*Term
	for _, t := range ts {
		for _, s := range segsOf(t) {
			if s.op == OStr && len(segs) > 0 && segs[len(segs)-1].op == OStr {
				segs[len(segs)-1] = sLit(segs[len(segs)-1].s + s.s)
				continue
			}
			segs = append(segs, s)
		}
	}
	segs = rotate(segs)
	switch len(segs) {
	case 0:
		return sLit("")
	case 1:
		return segs[0]
	}
	return mk(Term{op: OCat, args: segs})
}

// rotate rewrites For(h, b(k) sep) b(h)  into  b(0) For(h, sep b(k+1)).
func rotate(segs []*Term) []*Term {
	for i := 0; i+1 < len(segs); i++ {
		f := segs[i]
		if f.op != OFor || f.s != "s" || f.nodes[0].leaf == nil {
			continue
		}
		bs := segsOf(f.nodes[0].leaf)
		if len(bs) < 2 || bs[len(bs)-1].op != OStr {
			continue
		}
		sep := bs[len(bs)-1]
		k := f.args[1]
		b := catT(bs[:len(bs)-1]...)
		at := subst(leaf(b), k, f.args[0])
		if at.leaf == nil {
			continue
		}
		want := segsOf(at.leaf)
		rest := segs[i+1:]
		if len(want) > len(rest) {
			continue
		}
		ok := true
		var tail []*Term
		for j, w := range want {
			if rest[j] == w {
				continue
			}
			if j == len(want)-1 && w.op == OStr && rest[j].op == OStr && strings.HasPrefix(rest[j].s, w.s) {
				tail = []*Term{sLit(rest[j].s[len(w.s):])}
				continue
			}
			ok = false
			break
		}
		if !ok {
			continue
		}
		tail = append(tail, rest[len(want):]...)
		b0 := subst(leaf(b), k, iLit(0))
		nx := subst(leaf(catT(sep, b)), k, addC(asLin(k), 1))
		if b0.leaf == nil || nx.leaf == nil {
			continue
		}
		ff := mkFor("s", f.args[0], k, nx)
		if ff.leaf == nil {
			continue
		}
		out := append([]*Term{}, segs[:i]...)
		out = append(out, segsOf(b0.leaf)...)
		out = append(out, segsOf(ff.leaf)...)
		out = append(out, tail...)
		return segsOf(catT(out...))
	}
	return segs
}

func catN(ns ...*Node) *Node {
	return lift(func(ts []*Term) *Node { return leaf(catT(ts...)) }, ns...)
}

func itoaT(l *Term) *Term {
	l = asLin(l)
	if v, ok := isConst(l); ok {
		return sLit(strconv.FormatInt(v, 10))
	}
	return mk(Term{op: OItoa, args: []*Term{l}})
}

func minLenT(t *Term) int64 {
	switch t.op {
	case OStr:
		return int64(len(t.s))
	case OCat:
		n := int64(0)
		for _, s := range t.args {
			n += minLenT(s)
		}
		return n
	case OItoa:
		return 1
	case OCall:
		if nonEmpty(t) {
			return 1
		}
	case OList:
		n := int64(0)
		for _, s := range t.args {
			if s.op == OElem {
				n++
			}
		}
		return n
	}
	return 0
}

func minLenN(n *Node) int64 {
	m := int64(-1)
	for _, l := range leaves(n) {
		if v := minLenT(l); m < 0 || v < m {
			m = v
		}
	}
	return m
}

func strLen(t *Term) *Node {
	sum := iLit(0)
	for _, s := range segsOf(t) {
		if s.op == OStr {
			sum = addC(sum, int64(len(s.s)))
		} else if nonEmpty(s) {
			sum = addT(sum, nonEmptyLen(s))
		} else {
			sum = addT(sum, asLin(mk(Term{op: OLen, args: []*Term{s}})))
		}
	}
	return leaf(sum)
}

// ---------- lists ----------

func listSegs(t *Term) []*Term {
	switch t.op {
	case OList:
		return t.args
	case ONil:
		return nil
	}
	return []*Term{mk(Term{op: OSpread, args: []*Term{t}})}
}

func mkList(segs []*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if s.op == OFor && s.nodes[0].leaf != nil {
			bl := s.nodes[0].leaf
			if bl.op == OList && len(bl.args) == 0 {
				continue
			}
			// for k<len(L): L[k]   is   L...
			if bl.op == OList && len(bl.args) == 1 && bl.args[0].op == OElem {
				if src := etaIndex(bl.args[0].nodes[0], s.args[1]); src != nil {
					if ll := lenT(src); ll.leaf != nil && ll.leaf == s.args[0] {
						s = mk(Term{op: OSpread, args: []*Term{src}})
					}
				}
			}
		}
		out = append(out, s)
	}
	return mk(Term{op: OList, args: out})
}

// etaIndex returns L when n is exactly L[k].
func etaIndex(n *Node, k *Term) *Term {
	var base func(n *Node) *Term
	base = func(n *Node) *Term {
		if n.leaf == nil {
			// opaque boolean
			if n.hi == True && n.lo == False {
				return n.atom
			}
			return nil
		}
		t := n.leaf
		if t.op == OStruct {
			var b *Term
			if len(t.nodes) == 0 {
				return nil
			}
			for i, f := range t.nodes {
				x := base(f)
				if x == nil || x.op != OField || x.n != int64(i) || (b != nil && b != x.args[0]) {
					return nil
				}
				b = x.args[0]
			}
			return b
		}
		if t.op == OLin {
			if len(t.args) == 1 && t.coefs[0] == 1 && t.n == 0 {
				return t.args[0]
			}
			return nil
		}
		return t
	}
	t := base(n)
	if t == nil || t.op != OIndex || t.args[1] != asLin(k) {
		return nil
	}
	if dependsT(t.args[0], k) {
		return nil
	}
	return t.args[0]
}

func elemSeg(v *Node) *Term { return mk(Term{op: OElem, nodes: []*Node{v}}) }

// lenT is the length of a list term (content form).
func lenT(t *Term) *Node {
	switch t.op {
	case ONil:
		return leaf(iLit(0))
	case OStr, OCat, OItoa:
		return strLen(t)
	case OCall:
		if nonEmpty(t) {
			return leaf(nonEmptyLen(t))
		}
	case OFor:
		if t.s == "s" {
			return strLen(t)
		}
	case OList:
		sum := leaf(iLit(0))
		for _, s := range t.args {
			var x *Node
			switch s.op {
			case OElem:
				x = leaf(iLit(1))
			case OSpread:
				x = lenT(s.args[0])
			case OFor:
				body := lift1(lenT, s.nodes[0])
				x = mkSum(s.args[0], s.args[1], body)
			}
			sum = lift2(func(a, b *Term) *Node { return leaf(addT(a, b)) }, sum, x)
		}
		return sum
	case OSub:
		return leaf(subT(t.args[2], t.args[1]))
	case OWrite:
		return lenT(t.args[0])
	}
	return leaf(asLin(mk(Term{op: OLen, args: []*Term{t}})))
}

func max0(l *Term) *Node {
	if linNonneg(l) {
		return leaf(l)
	}
	return iteB(Ge(l), leaf(l), leaf(iLit(0)))
}

func concatL(a, b *Term) *Term {
	return mkList(append(append([]*Term{}, listSegs(a)...), listSegs(b)...))
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

// indexT reads list[idx]; et is the element type.
func indexT(l, idx *Term, et types.Type) *Node {
	idx = asLin(idx)
	switch l.op {
	case OList:
		off := iLit(0)
		var pend []gv // guard, value
		remaining := True
		for i, s := range l.args {
			d := subT(idx, off)
			switch s.op {
			case OElem:
				eq := IntEq(d, iLit(0))
				if eq == True {
					pend = append(pend, gv{remaining, s.nodes[0]})
					return sel(pend)
				}
				if eq != False {
					pend = append(pend, gv{And(remaining, eq), s.nodes[0]})
					remaining = And(remaining, Not(eq))
				}
				off = addC(off, 1)
			case OSpread, OFor:
				var ln *Node
				if s.op == OSpread {
					ln = lenT(s.args[0])
				} else {
					ln = lenT(mk(Term{op: OList, args: []*Term{s}}))
				}
				last := i == len(l.args)-1
				if ln.leaf == nil {
					if last && s.op == OFor {
						ln = leaf(s.args[0])
					} else {
						return indexOpaque(l, idx, et)
					}
				}
				var v *Node
				if s.op == OSpread {
					v = indexT(s.args[0], d, et)
				} else {
					// single unconditional element per iteration
					single := true
					for _, bl := range leaves(s.nodes[0]) {
						if bl.op != OList || len(bl.args) != 1 || bl.args[0].op != OElem {
							single = false
						}
					}
					if !single {
						if len(l.args) == 1 {
							return indexOpaque(l, idx, et)
						}
						v = indexOpaque(mk(Term{op: OList, args: []*Term{s}}), d, et)
					} else {
						bd := lift1(func(bl *Term) *Node { return bl.args[0].nodes[0] }, s.nodes[0])
						v = subst(bd, s.args[1], d)
					}
				}
				if last {
					pend = append(pend, gv{remaining, v})
					return sel(pend)
				}
				in := Ge(addC(subT(ln.leaf, d), -1)) // d < len
				if in == True {
					pend = append(pend, gv{remaining, v})
					return sel(pend)
				}
				if in != False {
					pend = append(pend, gv{And(remaining, in), v})
					remaining = And(remaining, Not(in))
				}
				off = addT(off, ln.leaf)
			}
		}
		return sel(pend)
	case OWrite:
		eq := IntEq(l.args[1], idx)
		return iteB(eq, l.nodes[0], indexT(l.args[0], idx, et))
	case OSub:
		return indexT(l.args[0], addT(idx, l.args[1]), et)
	case ONil:
		return Bot
	case OStr:
		if v, ok := isConst(idx); ok && v >= 0 && v < int64(len(l.s)) {
			return leaf(iLit(int64(l.s[v])))
		}
	case OCat:
		segs := segsOf(l)
		f, e := segs[0], segs[len(segs)-1]
		if v, ok := isConst(idx); ok && v >= 0 {
			if f.op == OStr && v < int64(len(f.s)) {
				return leaf(iLit(int64(f.s[v])))
			}
			if v == 0 {
				return iteB(EqT(f, sLit("")), indexT(catT(segs[1:]...), idx, et), indexT(f, idx, et))
			}
		}
		if n := lenT(l); n.leaf != nil {
			if k, ok := constDiff(n.leaf, idx); ok && k > 0 {
				if e.op == OStr && k <= int64(len(e.s)) {
					return leaf(iLit(int64(e.s[int64(len(e.s))-k])))
				}
				if k == 1 {
					lastOf := func(x *Term) *Node {
						return lift1(func(n *Term) *Node { return indexT(x, addC(asLin(n), -1), et) }, lenT(x))
					}
					return iteB(EqT(e, sLit("")), lastOf(catT(segs[:len(segs)-1]...)), lastOf(e))
				}
			}
		}
	}
	return indexOpaque(l, idx, et)
}

func indexOpaque(l, idx *Term, et types.Type) *Node {
	return opaque(mk(Term{op: OIndex, args: []*Term{l, asLin(idx)}, typ: et}), et)
}

// opaque expands an unknown term according to its type.
func opaque(t *Term, typ types.Type) *Node {
	if typ == nil {
		return leaf(t)
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if atomicStruct(typ) {
			return leaf(t)
		}
		fs := make([]*Node, u.NumFields())
		for i := range fs {
			fs[i] = opaque(mk(Term{op: OField, args: []*Term{t}, n: int64(i), s: u.Field(i).Name(), typ: u.Field(i).Type()}), u.Field(i).Type())
		}
		return leaf(mkStruct(typ, fs))
	case *types.Array:
		if u.Len() <= 16 {
			var segs []*Term
			for i := int64(0); i < u.Len(); i++ {
				segs = append(segs, elemSeg(indexOpaque(t, iLit(i), u.Elem())))
			}
			return leaf(mkList(segs))
		}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return atomN(t)
		}
		if u.Info()&types.IsInteger != 0 {
			return leaf(asLin(t))
		}
	}
	return leaf(t)
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func mkStruct(typ types.Type, fs []*Node) *Term {
	return mk(Term{op: OStruct, typ: typ, nodes: fs})
}

// zero value of a type.
func zero(typ types.Type) *Node {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if nm := namedName(typ); nm == "strings.Builder" || nm == "bytes.Buffer" {
			return leaf(sLit(""))
		}
		fs := make([]*Node, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		return leaf(mkStruct(typ, fs))
	case *types.Array:
		return makeList(iLit(u.Len()), u.Elem())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return leaf(iLit(0))
		case u.Info()&types.IsString != 0:
			return leaf(sLit(""))
		}
		return leaf(mk(Term{op: OVar, s: "zero:" + u.String(), typ: typ}))
	case *types.Tuple:
		var ns []*Node
		for i := 0; i < u.Len(); i++ {
			ns = append(ns, zero(u.At(i).Type()))
		}
		return leaf(mk(Term{op: OTuple, nodes: ns}))
	}
	return leaf(nilOf(typ))
}

func nilOf(typ types.Type) *Term {
	k := "nil"
	switch typ.Underlying().(type) {
	case *types.Slice:
		k = "slice"
	case *types.Map:
		k = "map"
	}
	return mk(Term{op: ONil, s: k})
}

func makeList(n *Term, et types.Type) *Node {
	k := boundVar()
	return mkFor("l", asLin(n), k, leaf(mkList([]*Term{elemSeg(zero(et))})))
}

// ---------- binders ----------

func freshVar(pfx string, typ types.Type, nn bool) *Term {
	C.fresh++
	n := int64(0)
	if nn {
		n = 1
	}
	return mk(Term{op: OVar, s: fmt.Sprintf("%s#%d", pfx, C.fresh), typ: typ, n: n})
}

func boundVar() *Term { return freshVar("k", nil, true) }

func canonVar(depth int) *Term {
	return mk(Term{op: OVar, s: fmt.Sprintf("_%d", depth), n: 1})
}

func canonVarT(name string, depth int, typ types.Type) *Term {
	return mk(Term{op: OVar, s: fmt.Sprintf("_%s%d", name, depth), typ: typ})
}

// closeB renames bound var k in bodies to its canonical name.
func closeB(k *Term, hiDepth int, bodies ...*Node) (*Term, []*Node) {
	d := 0
	for _, b := range bodies {
		if b.depth > d {
			d = b.depth
		}
	}
	ck := canonVar(d)
	out := make([]*Node, len(bodies))
	for i, b := range bodies {
		if ck == k {
			out[i] = b
		} else {
			out[i] = subst(b, k, asLin(ck))
		}
	}
	return ck, out
}

func emptyOf(kind string) *Node {
	if kind == "s" {
		return leaf(sLit(""))
	}
	return leaf(mkList(nil))
}

func concatKind(kind string, a, b *Node) *Node {
	if kind == "s" {
		return catN(a, b)
	}
	return lift2(func(x, y *Term) *Node { return leaf(concatL(x, y)) }, a, b)
}

// hoistAtom finds an atom of n that does not depend on k.
func hoistAtom(n *Node, k *Term) *Term {
	seen := map[*Node]bool{}
	var r *Term
	var rec func(n *Node)
	rec = func(n *Node) {
		if r != nil || seen[n] || n.leaf != nil {
			return
		}
		seen[n] = true
		if !dependsT(n.atom, k) {
			r = n.atom
			return
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	return r
}

// restrict fixes an atom of n.
func restrict(n *Node, a *Term, v bool) *Node {
	memo := map[*Node]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil || n.atom.id > a.id {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var r *Node
		if n.atom == a {
			if v {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = mkNode(n.atom, rec(n.hi), rec(n.lo))
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

// kAtom looks for an integer comparison of k with a constant (first iterations) or with hi (last ones).
func kAtom(n *Node, k, hi *Term) (first, last bool) {
	seen := map[*Node]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] || n.leaf != nil {
			return
		}
		seen[n] = true
		if n.atom.op == OGe {
			l := n.atom.args[0]
			if len(l.args) == 1 && l.args[0] == k && l.n < 0 && l.n >= -4 {
				first = true
			}
			d := subT(addC(hi, -1), asLin(k)) // hi-1-k
			for s := int64(-1); s <= 1; s += 2 {
				if c, ok := isConst(linAdd(l, 1, d, s, 0)); ok && len(l.args) > 0 && c >= -4 && c <= 4 {
					// an atom that is constant over the whole range does not need peeling
					last = true
				}
			}
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	return
}

func mkFor(kind string, hi, k *Term, body *Node) *Node {
	hi = asLin(hi)
	if c, ok := isConst(hi); ok && c <= 64 {
		out := emptyOf(kind)
		for i := int64(0); i < c; i++ {
			out = concatKind(kind, out, subst(body, k, iLit(i)))
		}
		return out
	}
	if body == emptyOf(kind) {
		return body
	}
	if a := hoistAtom(body, k); a != nil {
		return iteB(atomN(a), mkFor(kind, hi, k, restrict(body, a, true)), mkFor(kind, hi, k, restrict(body, a, false)))
	}
	body = simplifyRange(body, k, hi)
	first, last := kAtom(body, k, hi)
	if first {
		b0 := subst(body, k, iLit(0))
		nk := boundVar()
		rest := subst(body, k, addC(asLin(nk), 1))
		return iteB(Ge(addC(hi, -1)), concatKind(kind, b0, mkFor(kind, addC(hi, -1), nk, rest)), emptyOf(kind))
	}
	if last {
		h1 := addC(hi, -1)
		bl := subst(body, k, h1)
		nk := boundVar()
		rest := subst(body, k, asLin(nk))
		rest = simplifyRange(rest, nk, h1)
		return iteB(Ge(h1), concatKind(kind, mkFor(kind, h1, nk, rest), bl), emptyOf(kind))
	}
	ck, bs := closeB(k, 0, body)
	f := mk(Term{op: OFor, s: kind, args: []*Term{hi, ck}, nodes: bs})
	if kind == "s" {
		return leaf(f)
	}
	return leaf(mkList([]*Term{f}))
}

// simplifyRange drops comparisons of k decided by 0 <= k < hi.
func simplifyRange(n *Node, k, hi *Term) *Node {
	memo := map[*Node]*Node{}
	d := subT(addC(asLin(hi), -1), asLin(k)) // >= 0
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		h, l := rec(n.hi), rec(n.lo)
		r := iteB(atomN(n.atom), h, l)
		if n.atom.op == OGe {
			lt := n.atom.args[0]
			if c, ok := isConst(subT(lt, d)); ok && c >= 0 {
				r = h // lt = d + c >= 0
			} else if c, ok := isConst(addT(lt, d)); ok && c < 0 {
				r = l // lt = c - d < 0
			}
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

func mkExists(hi, k *Term, body *Node) *Node {
	hi = asLin(hi)
	if c, ok := isConst(hi); ok && c <= 64 {
		out := False
		for i := int64(0); i < c; i++ {
			out = Or(out, subst(body, k, iLit(i)))
		}
		return out
	}
	if body == False || body == Bot {
		return False
	}
	if body == True {
		return Ge(addC(hi, -1))
	}
	if a := hoistAtom(body, k); a != nil {
		return iteB(atomN(a), mkExists(hi, k, restrict(body, a, true)), mkExists(hi, k, restrict(body, a, false)))
	}
	body = simplifyRange(body, k, hi)
	first, last := kAtom(body, k, hi)
	if first {
		b0 := subst(body, k, iLit(0))
		nk := boundVar()
		rest := subst(body, k, addC(asLin(nk), 1))
		return And(Ge(addC(hi, -1)), Or(b0, mkExists(addC(hi, -1), nk, rest)))
	}
	if last {
		h1 := addC(hi, -1)
		bl := subst(body, k, h1)
		nk := boundVar()
		rest := simplifyRange(subst(body, k, asLin(nk)), nk, h1)
		return And(Ge(h1), Or(bl, mkExists(h1, nk, rest)))
	}
	ck, bs := closeB(k, 0, body)
	return atomN(mk(Term{op: OExists, args: []*Term{hi, ck}, nodes: bs}))
}

func mkSum(hi, k *Term, body *Node) *Node {
	hi = asLin(hi)
	if c, ok := isConst(hi); ok && c <= 64 {
		out := leaf(iLit(0))
		for i := int64(0); i < c; i++ {
			out = lift2(func(a, b *Term) *Node { return leaf(addT(a, b)) }, out, subst(body, k, iLit(i)))
		}
		return out
	}
	if a := hoistAtom(body, k); a != nil {
		return iteB(atomN(a), mkSum(hi, k, restrict(body, a, true)), mkSum(hi, k, restrict(body, a, false)))
	}
	body = simplifyRange(body, k, hi)
	first, last := kAtom(body, k, hi)
	plus := func(x, y *Node) *Node {
		return lift2(func(a, b *Term) *Node { return leaf(addT(a, b)) }, x, y)
	}
	if first {
		b0 := subst(body, k, iLit(0))
		nk := boundVar()
		rest := subst(body, k, addC(asLin(nk), 1))
		return iteB(Ge(addC(hi, -1)), plus(b0, mkSum(addC(hi, -1), nk, rest)), leaf(iLit(0)))
	}
	if last {
		h1 := addC(hi, -1)
		bl := subst(body, k, h1)
		nk := boundVar()
		rest := simplifyRange(subst(body, k, asLin(nk)), nk, h1)
		return iteB(Ge(h1), plus(mkSum(h1, nk, rest), bl), leaf(iLit(0)))
	}
	raw := func(b *Node) *Node {
		ck, bs := closeB(k, 0, b)
		return leaf(asLin(mk(Term{op: OSum, args: []*Term{hi, ck}, nodes: bs})))
	}
	if body.leaf == nil {
		return raw(body)
	}
	l := asLin(body.leaf)
	out := leaf(iLit(0))
	if l.n != 0 {
		c := l.n
		out = lift1(func(h *Term) *Node { return leaf(linAdd(h, c, nil, 0, 0)) }, max0(hi))
	}
	for i, a := range l.args {
		x := raw(leaf(asLin(a)))
		c := l.coefs[i]
		out = plus(out, lift1(func(t *Term) *Node { return leaf(linAdd(t, c, nil, 0, 0)) }, x))
	}
	return out
}

func mkFirst(hi, k *Term, body *Node) *Term {
	ck, bs := closeB(k, 0, body)
	return mk(Term{op: OFirst, args: []*Term{asLin(hi), ck}, nodes: bs})
}

// ---------- dependency and substitution ----------

func dependsT(t, v *Term) bool {
	if t == v {
		return true
	}
	k := [2]int{t.id, v.id}
	if r, ok := C.depM[k]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if dependsT(a, v) {
			r = true
			break
		}
	}
	if !r {
		for _, n := range t.nodes {
			if dependsN(n, v) {
				r = true
				break
			}
		}
	}
	C.depM[k] = r
	return r
}

func dependsN(n *Node, v *Term) bool {
	k := [2]int{-n.id, v.id}
	if r, ok := C.depM[k]; ok {
		return r
	}
	var r bool
	if n.leaf != nil {
		r = dependsT(n.leaf, v)
	} else {
		r = dependsT(n.atom, v) || dependsN(n.hi, v) || dependsN(n.lo, v)
	}
	C.depM[k] = r
	return r
}

// subst replaces variable v by ground term r everywhere in n and renormalises.
func subst(n *Node, v, r *Term) *Node { return substMany(n, map[*Term]*Node{v: leaf(r)}) }

func substMany(n *Node, m map[*Term]*Node) *Node {
	s := &subster{m: m, tm: map[*Term]*Node{}, nm: map[*Node]*Node{}}
	return s.node(n)
}

type subster struct {
	m  map[*Term]*Node
	tm map[*Term]*Node
	nm map[*Node]*Node
	// rewrite, when set, may replace a rebuilt opaque term
	rewrite func(t *Term) *Node
}

func (s *subster) touchesT(t *Term) bool {
	if s.rewrite != nil {
		return true
	}
	for v := range s.m {
		if dependsT(t, v) {
			return true
		}
	}
	return false
}

func (s *subster) touchesN(n *Node) bool {
	if s.rewrite != nil {
		return true
	}
	for v := range s.m {
		if dependsN(n, v) {
			return true
		}
	}
	return false
}

func (s *subster) node(n *Node) *Node {
	if !s.touchesN(n) {
		return n
	}
	if r, ok := s.nm[n]; ok {
		return r
	}
	var r *Node
	if n.leaf != nil {
		r = s.term(n.leaf)
	} else {
		c := s.term(n.atom)
		r = iteB(boolN(c), s.node(n.hi), s.node(n.lo))
	}
	s.nm[n] = r
	return r
}

// boolN turns leaves that are opaque boolean terms into atoms.
func boolN(n *Node) *Node {
	return lift1(func(t *Term) *Node {
		if t == tTrue || t == tFals {
			return leaf(t)
		}
		return atomN(t)
	}, n)
}

func (s *subster) term(t *Term) *Node {
	if !s.touchesT(t) {
		return leaf(t)
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.tm[t]; ok {
		return r
	}
	r := s.rebuild(t)
	s.tm[t] = r
	return r
}

func (s *subster) rebuild(t *Term) *Node {
	switch t.op {
	case OFor, OExists, OSum, OFirst:
		// binder: alpha-rename to a private variable, then rebuild
		hi := s.term(t.args[0])
		nk := boundVar()
		body := s.node(subst(t.nodes[0], t.args[1], asLin(nk)))
		return lift1(func(h *Term) *Node {
			switch t.op {
			case OFor:
				return mkFor(t.s, h, nk, body)
			case OExists:
				return mkExists(h, nk, body)
			case OSum:
				return mkSum(h, nk, body)
			default:
				return leaf(mkFirst(h, nk, body))
			}
		}, hi)
	}
	args := make([]*Node, len(t.args))
	for i, a := range t.args {
		args[i] = s.term(a)
		if t.op == OLin || (t.op == OIndex && i == 1) || t.op == OGe {
			args[i] = lift1(func(x *Term) *Node { return leaf(asLin(x)) }, args[i])
		}
	}
	nodes := make([]*Node, len(t.nodes))
	for i, a := range t.nodes {
		nodes[i] = s.node(a)
	}
	if len(args) == 0 {
		return remake(t, nil, nodes, s.rewrite)
	}
	return lift(func(as []*Term) *Node { return remake(t, as, nodes, s.rewrite) }, args...)
}

// remake rebuilds t with new ground args and nodes through the smart constructors.
func remake(t *Term, as []*Term, nodes []*Node, rw func(*Term) *Node) *Node {
	switch t.op {
	case OLin:
		out := iLit(t.n)
		for i, a := range as {
			out = linAdd(out, 1, a, t.coefs[i], 0)
		}
		return leaf(out)
	case OCat:
		return leaf(catT(as...))
	case OItoa:
		return leaf(itoaT(as[0]))
	case OList:
		var segs []*Term
		for _, a := range as {
			if a.op == OList {
				segs = append(segs, a.args...) // a For rebuilt to a list
			} else {
				segs = append(segs, a)
			}
		}
		return leaf(mkList(segs))
	case OElem:
		return leaf(elemSeg(nodes[0]))
	case OSpread:
		if as[0].op == OList || as[0].op == ONil {
			return leaf(mkList(listSegs(as[0])))
		}
		return leaf(mk(Term{op: OSpread, args: as}))
	case OGe:
		return Ge(as[0])
	case OEq:
		return EqT(as[0], as[1])
	case OLen:
		return lenT(as[0])
	case OIndex:
		return indexT(as[0], as[1], t.typ)
	case OField:
		if as[0].op == OStruct {
			return as[0].nodes[t.n]
		}
	case OIsType:
		return isTypeT(as[0], t.typ)
	case OIsNil:
		return isNilT(as[0])
	case OProj:
		return projT(as[0], t.typ)
	case OSub:
		return subListT(as[0], as[1], as[2], t.n == 1)
	case OCall:
		c := *t
		c.args = as
		c.nodes = nodes
		return callSimplify(&c)
	}
	nt := *t
	nt.args, nt.nodes = as, nodes
	nt.id, nt.depth = 0, 0
	r := mk(nt)
	if rw != nil {
		if x := rw(r); x != nil {
			return x
		}
	}
	if t.typ != nil && (t.op == OField || t.op == OProj || t.op == OFold) {
		return opaque(r, t.typ)
	}
	return leaf(r)
}

// ---------- equality, types ----------

func EqT(a, b *Term) *Node {
	if a == b {
		return True
	}
	if a.op == OLin || b.op == OLin {
		return IntEq(asLin(a), asLin(b))
	}
	if a.op == OBool && b.op == OBool {
		return bLit(a == b)
	}
	if a.op == ONil || b.op == ONil {
		if a.op == ONil && b.op == ONil {
			return True
		}
		if a.op == ONil {
			return isNilT(b)
		}
		return isNilT(a)
	}
	strish := func(t *Term) bool {
		return t.op == OStr || t.op == OCat || t.op == OItoa || (t.op == OFor && t.s == "s")
	}
	if strish(a) || strish(b) {
		if a.op == OStr && b.op == OStr {
			return False
		}
		if a.op == OStr && a.s == "" {
			a, b = b, a
		}
		if b.op == OStr && b.s == "" {
			return lift1(func(l *Term) *Node { return Not(Ge(addC(l, -1))) }, strLen(a))
		}
		if a.op == OStr {
			a, b = b, a
		}
		if b.op == OStr && a.op == OCat {
			f, l := a.args[0], a.args[len(a.args)-1]
			if f.op == OStr && !strings.HasPrefix(b.s, f.s) {
				return False
			}
			if l.op == OStr && !strings.HasSuffix(b.s, l.s) {
				return False
			}
			if minLenT(a) > int64(len(b.s)) {
				return False
			}
		}
		if a.op == OCat || b.op == OCat {
			if x, y := stripCommon(a, b); x != a {
				return EqT(x, y)
			}
		}
		if b.op == OStr && a.op == OCall {
			if r := eqCased(a, b.s); r != nil {
				return r
			}
		}
	}
	if a.op == OStruct && b.op == OStruct && len(a.nodes) == len(b.nodes) {
		out := True
		for i := range a.nodes {
			out = And(out, EqN(a.nodes[i], b.nodes[i]))
		}
		return out
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.typ, b.typ) {
			return False
		}
		return EqT(a.args[0], b.args[0])
	}
	if a.op == OErr && b.op == OErr {
		return False
	}
	if a.op == OPtr && b.op == OPtr {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return atomN(mk(Term{op: OEq, args: []*Term{a, b}}))
}

// eqCased decides whether a text in upper or lower case is the given ASCII text: it is, when the text
// equals it under case folding. The letters i, k and s have other characters in their fold orbits or
// case mappings, there the comparison only implies the folded one, or is left alone.
func eqCased(a *Term, lit string) *Node {
	up := a.s == "ext:strings.ToUpper"
	if !up && a.s != "ext:strings.ToLower" {
		return nil
	}
	for i := 0; i < len(lit); i++ {
		if lit[i] >= 0x80 {
			return nil
		}
	}
	cased := strings.ToLower(lit)
	if up {
		cased = strings.ToUpper(lit)
	}
	if cased != lit {
		return False
	}
	low := strings.ToLower(lit)
	if strings.Contains(low, "i") || up && strings.Contains(low, "k") {
		return nil
	}
	fold := foldOr(&Term{op: OCall, s: "ext:strings.EqualFold", args: []*Term{a.args[0], sLit(low)}})
	if !up && strings.ContainsAny(low, "sk") {
		return And(fold, atomN(mk(Term{op: OEq, args: []*Term{a, sLit(lit)}})))
	}
	return fold
}

// stripCommon removes the text two strings start and end with alike.
func stripCommon(a, b *Term) (*Term, *Term) {
	x, y := segsOf(a), segsOf(b)
	x, y = append([]*Term{}, x...), append([]*Term{}, y...)
	changed := false
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p == q {
			x, y, changed = x[1:], y[1:], true
			continue
		}
		if p.op != OStr || q.op != OStr {
			break
		}
		n := 0
		for n < len(p.s) && n < len(q.s) && p.s[n] == q.s[n] {
			n++
		}
		if n == 0 || n < len(p.s) && n < len(q.s) {
			break
		}
		changed = true
		if x = x[1:]; n < len(p.s) {
			x = append([]*Term{sLit(p.s[n:])}, x...)
		}
		if y = y[1:]; n < len(q.s) {
			y = append([]*Term{sLit(q.s[n:])}, y...)
		}
	}
	for len(x) > 0 && len(y) > 0 {
		i, j := len(x)-1, len(y)-1
		p, q := x[i], y[j]
		if p == q {
			x, y, changed = x[:i], y[:j], true
			continue
		}
		if p.op != OStr || q.op != OStr {
			break
		}
		n := 0
		for n < len(p.s) && n < len(q.s) && p.s[len(p.s)-1-n] == q.s[len(q.s)-1-n] {
			n++
		}
		if n == 0 || n < len(p.s) && n < len(q.s) {
			break
		}
		changed = true
		if x = x[:i]; n < len(p.s) {
			x = append(x[:i:i], sLit(p.s[:len(p.s)-n]))
		}
		if y = y[:j]; n < len(q.s) {
			y = append(y[:j:j], sLit(q.s[:len(q.s)-n]))
		}
	}
	if !changed {
		return a, b
	}
	return catT(x...), catT(y...)
}

func EqN(a, b *Node) *Node {
	if a == b {
		return True
	}
	if isBoolNode(a) && isBoolNode(b) {
		return iteB(a, b, Not(b))
	}
	return lift2(EqT, a, b)
}

func isBoolNode(n *Node) bool {
	ls := leaves(n)
	for _, l := range ls {
		if l.op != OBool {
			return false
		}
	}
	return len(ls) > 0
}

func isNilT(t *Term) *Node {
	if t.op == OCall && strings.HasPrefix(t.s, "reflect.") && t.s != "reflect.elem" {
		return False
	}
	switch t.op {
	case ONil:
		return True
	case OIface, ORef, OPtr, OBox, OErr, OClosure, OList, OStruct, OMapUpd:
		return False
	case OSub:
		return False
	}
	return atomN(mk(Term{op: OIsNil, args: []*Term{t}}))
}

func isTypeT(x *Term, T types.Type) *Node {
	switch x.op {
	case OIface:
		if isIfaceT(T) {
			return bLit(types.Implements(x.typ, T.Underlying().(*types.Interface)))
		}
		return bLit(types.Identical(x.typ, T))
	case ONil:
		return False
	case OErr:
		if isIfaceT(T) {
			it := T.Underlying().(*types.Interface)
			if it.NumMethods() == 0 || types.Identical(T, types.Universe.Lookup("error").Type()) {
				return True
			}
		}
		return False
	}
	if isIfaceT(T) {
		it := T.Underlying().(*types.Interface)
		// the static interface already guarantees the methods: only nil fails
		if x.typ != nil && isIfaceT(x.typ) && types.Implements(x.typ, it) {
			return Not(isNilT(x))
		}
	}
	if r := typeLaw(x, T); r != nil {
		return r
	}
	if x.op == OCall && x.s == "reflect.elem" && isIfaceT(T) && reflectType != nil {
		return elementIs(x, T)
	}
	return atomN(mk(Term{op: OIsType, args: []*Term{x}, typ: T}))
}

// typeLaws lets a probe state that an opaque interface value is not of a given type.
var typeLawF func(x *Term, T types.Type) *Node

func typeLaw(x *Term, T types.Type) *Node {
	if typeLawF == nil {
		return nil
	}
	return typeLawF(x, T)
}

func projT(x *Term, T types.Type) *Node {
	if x.op == OIface {
		if isIfaceT(T) {
			return leaf(x)
		}
		return ifaceInner(x)
	}
	if isIfaceT(T) {
		return leaf(x)
	}
	return opaque(mk(Term{op: OProj, args: []*Term{x}, typ: T}), T)
}

func ifaceInner(x *Term) *Node {
	if len(x.nodes) == 1 {
		return x.nodes[0]
	}
	return leaf(x.args[0])
}

func mkIface(T types.Type, inner *Node) *Node {
	if isBoolNode(inner) {
		return leaf(mk(Term{op: OIface, typ: T, args: nil, nodes: []*Node{inner}}))
	}
	return lift1(func(t *Term) *Node {
		return leaf(mk(Term{op: OIface, typ: T, args: []*Term{t}}))
	}, inner)
}

// subListT is l[lo:hi] (content form).
func subListT(l, lo, hi *Term, capped bool) *Node {
	lo, hi = asLin(lo), asLin(hi)
	full := func() bool {
		if c, ok := isConst(lo); !ok || c != 0 {
			return false
		}
		n := lenT(l)
		return n.leaf != nil && n.leaf == hi
	}
	n := int64(0)
	if capped {
		n = 1
	}
	if full() && !capped {
		return leaf(l)
	}
	if l.op == OStr {
		a, ok1 := isConst(lo)
		b, ok2 := isConst(hi)
		if ok1 && ok2 && a >= 0 && b <= int64(len(l.s)) && a <= b {
			return leaf(sLit(l.s[a:b]))
		}
	}
	if l.op == OSub {
		return subListT(l.args[0], addT(lo, l.args[1]), addT(hi, l.args[1]), capped)
	}
	if l.op == OList && full() {
		return leaf(l)
	}
	if l.op == OList {
		// cut along segment borders
		if r := cutList(l, lo, hi); r != nil {
			return leaf(r)
		}
	}
	return leaf(mk(Term{op: OSub, args: []*Term{l, lo, hi}, n: n}))
}

func cutList(l, lo, hi *Term) *Term {
	off := iLit(0)
	start, end := -1, -1
	for i := 0; i <= len(l.args); i++ {
		if start < 0 && off == lo {
			start = i
		}
		if start >= 0 && off == hi {
			end = i
			break
		}
		if i == len(l.args) {
			break
		}
		s := l.args[i]
		switch s.op {
		case OElem:
			off = addC(off, 1)
		default:
			ln := lenT(mk(Term{op: OList, args: []*Term{s}}))
			if ln.leaf == nil {
				return nil
			}
			off = addT(off, ln.leaf)
		}
	}
	if start < 0 || end < 0 {
		return nil
	}
	return mkList(l.args[start:end])
}

// setIndexT writes list[idx] = v.
func setIndexT(l, idx *Term, v *Node) *Term {
	idx = asLin(idx)
	if l.op == OList {
		off := iLit(0)
		for i, s := range l.args {
			d := subT(idx, off)
			if s.op == OElem {
				if c, ok := isConst(d); ok && c == 0 {
					segs := append([]*Term{}, l.args...)
					segs[i] = elemSeg(v)
					return mkList(segs)
				}
				off = addC(off, 1)
				continue
			}
			ln := lenT(mk(Term{op: OList, args: []*Term{s}}))
			if ln.leaf == nil {
				break
			}
			if c, ok := isConst(d); ok && c >= 0 && s.op == OFor && !dependsN(s.nodes[0], s.args[1]) && linNonneg(addC(ln.leaf, -c-1)) {
				if bl := s.nodes[0].leaf; bl != nil && bl.op == OList && len(bl.args) == 1 {
					segs := append([]*Term{}, l.args[:i]...)
					for j := int64(0); j < c; j++ {
						segs = append(segs, bl.args[0])
					}
					segs = append(segs, elemSeg(v))
					rest := mkFor("l", addC(s.args[0], -c-1), boundVar(), s.nodes[0])
					if rest.leaf != nil {
						segs = append(segs, listSegs(rest.leaf)...)
						segs = append(segs, l.args[i+1:]...)
						return mkList(segs)
					}
				}
			}
			off = addT(off, ln.leaf)
		}
	}
	return mk(Term{op: OWrite, args: []*Term{l, idx}, nodes: []*Node{v}})
}

// ---------- printing ----------

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case OBot:
		return "⊥"
	case OStr:
		return strconv.Quote(t.s)
	case OBool:
		return map[int64]string{0: "false", 1: "true"}[t.n]
	case ONil:
		return "nil"
	case OLin:
		if len(t.args) == 0 {
			return strconv.FormatInt(t.n, 10)
		}
		var b strings.Builder
		for i, a := range t.args {
			c := t.coefs[i]
			if i > 0 && c > 0 {
				b.WriteString("+")
			}
			switch c {
			case 1:
			case -1:
				b.WriteString("-")
			default:
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(a.str(d + 1))
		}
		if t.n != 0 {
			fmt.Fprintf(&b, "%+d", t.n)
		}
		return b.String()
	case OCat:
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, " ++ ")
	case OItoa:
		return "itoa(" + as() + ")"
	case OFor:
		return "for[" + t.args[1].str(d+1) + "<" + t.args[0].str(d+1) + "]{" + t.nodes[0].str(d+1) + "}"
	case OExists:
		return "exists[" + t.args[1].str(d+1) + "<" + t.args[0].str(d+1) + "]{" + t.nodes[0].str(d+1) + "}"
	case OSum:
		return "sum[" + t.args[1].str(d+1) + "<" + t.args[0].str(d+1) + "]{" + t.nodes[0].str(d+1) + "}"
	case OFirst:
		return "first[" + t.args[1].str(d+1) + "<" + t.args[0].str(d+1) + "]{" + t.nodes[0].str(d+1) + "}"
	case OFold:
		var p []string
		for _, n := range t.nodes {
			p = append(p, n.str(d+1))
		}
		return fmt.Sprintf("fold%d(%s){%s}", t.n, as(), strings.Join(p, " | "))
	case OList:
		return "[" + as() + "]"
	case OElem:
		return t.nodes[0].str(d + 1)
	case OSpread:
		return as() + "..."
	case OStruct:
		var p []string
		for _, n := range t.nodes {
			p = append(p, n.str(d+1))
		}
		return shortType(t.typ) + "{" + strings.Join(p, "; ") + "}"
	case OIface:
		return "iface<" + shortType(t.typ) + ">(" + as() + ")"
	case OVar:
		return t.s
	case OField:
		return as() + "." + t.s
	case OIndex:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OLen:
		return "len(" + as() + ")"
	case OCall:
		return t.s + "(" + as() + ")"
	case OProj:
		return as() + ".(" + shortType(t.typ) + ")"
	case OGe:
		return t.args[0].str(d+1) + " >= 0"
	case OEq:
		return t.args[0].str(d+1) + " == " + t.args[1].str(d+1)
	case OIsType:
		return as() + " is " + shortType(t.typ)
	case OIsNil:
		return as() + " == nil"
	case ORef:
		return fmt.Sprintf("slice&%d", t.n)
	case OPtr:
		return fmt.Sprintf("&%d(%s)", t.n, as())
	case OBox:
		return "&(" + t.nodes[0].str(d+1) + ")"
	case OSub:
		c := ""
		if t.n == 1 {
			c = ":cap"
		}
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + c + "]"
	case OErr:
		return "error<" + t.s + ">(" + as() + ")"
	case OWrite:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]:=" + t.nodes[0].str(d+1)
	case OClosure:
		return "func " + t.fn.Name()
	}
	return fmt.Sprintf("op%d(%s)", t.op, as())
}

func (n *Node) String() string { return n.str(0) }

func (n *Node) str(d int) string {
	if n.leaf != nil {
		return n.leaf.str(d)
	}
	if n.hi == True && n.lo == False {
		return "(" + n.atom.str(d+1) + ")"
	}
	if d > 12 {
		return "…"
	}
	return "(" + n.atom.str(d+1) + " ? " + n.hi.str(d+1) + " : " + n.lo.str(d+1) + ")"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
