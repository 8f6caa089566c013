package main

// Laws: each property is stated as client code of the library (a probe), written against the exported
// API only. A probe is never run. It is type-checked together with the current source and its value
// graph is computed; the property holds when the graph of the law's boolean result is the constant true
// for every value of the law's parameters, and no panic is reachable under a satisfiable condition.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Law struct {
	Name       string
	Fn         *ssa.Function
	Shapes     map[string][]int
	Order      []string
	MayPanic   bool // an explicit panic is allowed
	BadValuers bool // driver.Valuer values may fail
	Nest       int
	Cut        int
	Doc        string
	Long       []string // lists to try long
	LongMax    int
	short      int // number of combinations that are not long
}

// lawsOf reads the law functions of the probe file.
func (w *World) lawsOf() []*Law {
	var out []*Law
	for _, f := range w.ppkg.Syntax {
		if !w.isProbe(f.Pos()) {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Law_") {
				continue
			}
			l := &Law{Name: strings.TrimPrefix(fd.Name.Name, "Law_"), Fn: w.pkg.Func(fd.Name.Name), Shapes: map[string][]int{}, Cut: 3}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					key, arg, _ := strings.Cut(t, " ")
					switch key {
					case "maypanic":
						l.MayPanic = true
					case "valuerfails":
						l.BadValuers = true
					case "nest":
						l.Nest, _ = strconv.Atoi(arg)
					case "long":
						for _, d := range strings.Fields(arg) {
							if n, err := strconv.Atoi(d); err == nil {
								l.LongMax = n
							} else {
								l.Long = append(l.Long, d)
							}
						}
					case "cut":
						l.Cut, _ = strconv.Atoi(arg)
					case "deep":
						if !deep {
							continue
						}
						l.Shapes, l.Order = map[string][]int{}, nil
						fallthrough
					case "shapes":
						for _, s := range strings.Fields(arg) {
							n, v, _ := strings.Cut(s, "=")
							for _, x := range strings.Split(v, ",") {
								k := -2
								if x == "nil" {
									k = -1
								} else if x != "*" {
									k, _ = strconv.Atoi(x)
								}
								l.Shapes[n] = append(l.Shapes[n], k)
							}
							l.Order = append(l.Order, n)
						}
					default:
						l.Doc += strings.TrimSpace(t) + " "
					}
				}
			}
			out = append(out, l)
		}
	}
	return out
}

// combos lists every assignment of lengths to the shaped parameters.
func (l *Law) combos() []map[string]int {
	out := []map[string]int{{}}
	for _, n := range l.Order {
		var nx []map[string]int
		for _, m := range out {
			for _, v := range l.Shapes[n] {
				c := map[string]int{}
				for k, x := range m {
					c[k] = x
				}
				c[n] = v
				nx = append(nx, c)
			}
		}
		out = nx
	}
	return out
}

func comboShaper(c map[string]int) shaper {
	return func(path string, T types.Type) int {
		if v, ok := c[path]; ok {
			return v
		}
		last := path
		if i := strings.LastIndexByte(path, '.'); i >= 0 {
			last = path[i+1:]
		}
		if v, ok := c[last]; ok {
			return v
		}
		return -2
	}
}

func comboStr(c map[string]int) string {
	var ks []string
	for k := range c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		v := strconv.Itoa(c[k])
		if c[k] == -1 {
			v = "nil"
		} else if c[k] == -2 {
			v = "any"
		}
		p = append(p, k+"="+v)
	}
	return strings.Join(p, " ")
}

// Finding is one violation.
type Finding struct {
	Rule  string // law or analysis rule
	Shape string
	Where string // construct in the source
	Msg   string
	Path  []string // value condition or call path
	Key   string   // identity used by the known-findings file
	Open  bool     // nothing was refuted: the analysis could not decide
}

type Stats struct {
	Laws, Obligations, Held int
	Instrs                  int
	Funcs                   map[string]bool // functions of the package reached
	Calls                   int
	Bounded                 map[string]bool
	Samples                 []string
	Entries                 int
	Events                  int
	Extra                   map[string]int
}

func newStats() *Stats {
	return &Stats{Funcs: map[string]bool{}, Bounded: map[string]bool{}, Extra: map[string]int{}}
}

func (ev *Eval) reached(st *Stats) {
	for f := range ev.reach {
		st.Funcs[f] = true
	}
	st.Calls += ev.calls
	st.Instrs += ev.steps
	for f := range ev.bounded {
		st.Bounded[f] = true
	}
}

// checkLaw decides one law for all its shapes.
func checkLaw(w *World, l *Law, st *Stats, fs *[]Finding, verbose bool) {
	st.Laws++
	for _, c := range l.all(w) {
		t0 := time.Now()
		bad := decideLaw(w, l, c, st)
		st.Obligations++
		st.Samples = append(st.Samples, strings.TrimSpace(l.Name+" "+comboStr(c)))
		if bad != nil {
			*fs = append(*fs, *bad)
		} else {
			st.Held++
		}
		if verbose {
			s := "ok"
			if bad != nil {
				s = "BAD " + bad.Where + " " + bad.Msg + "\n      " + strings.Join(bad.Path, "\n      ")
			}
			fmt.Printf("  %-28s %-30s %8v %s\n", l.Name, comboStr(c), time.Since(t0).Round(time.Millisecond), s)
		}
	}
}

func decideLaw(w *World, l *Law, c map[string]int, st *Stats) (bad *Finding) {
	ev := NewEval(w)
	ev.enums = true
	ev.okValuers = !l.BadValuers
	ev.cut = l.Cut
	old := nestLimit
	nestLimit = l.Nest
	defer func() { nestLimit = old }()
	mkf := func(pos token.Pos, msg string, path []string) *Finding {
		return &Finding{Rule: l.Name, Shape: comboStr(c), Where: ev.blame(pos), Msg: msg, Path: path, Key: l.Name}
	}
	defer func() {
		ev.reached(st)
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				bad = mkf(u.pos, "not decided: "+u.msg, nil)
				bad.Open = true
				return
			}
			bad = mkf(l.Fn.Pos(), fmt.Sprintf("not decided: the analysis failed: %v", x), nil)
			bad.Open = true
			if debugPanics {
				panic(x)
			}
		}
	}()
	var args []*Node
	for _, p := range l.Fn.Params {
		args = append(args, ev.input(p.Name(), p.Type(), comboShaper(c)))
	}
	r := ev.callSSA(l.Fn, args, nil, True, newHeap())
	var open *Finding // what could not be decided
	leave := func(pos token.Pos, what string, g *Node) {
		if open == nil {
			open = mkf(pos, "not decided: "+what+": depends on "+openNames(g), somePath(g, True))
			open.Open = true
		}
	}
	for _, e := range ev.events {
		msg := e.Detail + " via " + e.Chain
		switch e.Kind {
		case "selfappend":
			if g := refine(e.Guard); g != False && g != Bot && !w.isProbe(e.Pos) {
				leave(e.Pos, msg, g)
			}
			continue
		case "panic", "nilderef", "index", "typeassert":
			if l.MayPanic && e.Kind == "panic" {
				continue
			}
			msg = "panic reachable: " + e.Kind + " " + msg
		default:
			continue
		}
		if e.Guard == False || e.Guard == Bot {
			continue
		}
		g := refine(e.Guard)
		if g == False {
			continue
		}
		if c := closed(g); c != False {
			return mkf(e.Pos, msg, somePath(c, True))
		}
		leave(e.Pos, msg, g)
	}
	if r.guard == False {
		if l.MayPanic {
			return nil
		}
		return mkf(l.Fn.Pos(), "the law never returns", nil)
	}
	v := refine(And(r.guard, Not(boolN(r.vals[0]))))
	if v != False && v != Bot {
		if c := closed(v); c != False {
			v = c
		} else {
			leave(l.Fn.Pos(), "law does not hold: "+strings.TrimSpace(l.Doc), v)
			return open
		}
		f := mkf(l.Fn.Pos(), "", nil)
		f.Path = somePath(v, True)
		f.Msg = "law does not hold: " + strings.TrimSpace(l.Doc)
		if len(ev.notes) > 0 {
			f.Path = append(f.Path, ev.notesUnder(v)...)
		}
		return f
	}
	return open
}

// refine uses the equalities met on the way: where a text equals a literal, it is that literal.
func refine(n *Node) *Node {
	if n.leaf != nil {
		return n
	}
	memo := map[*Node]*Node{}
	budget := 4000
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.leaf != nil || budget <= 0 {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		budget--
		hi := n.hi
		if n.atom.op == OEq && hi != False {
			if x, c := eqConst(n.atom); c != nil && (x.op == OVar || x.op == OCall || x.op == OField) && dependsN(hi, x) {
				hi = subst(hi, x, c)
			} else if c == nil {
				// two equal values: one stands for both
				x, y := n.atom.args[0], n.atom.args[1]
				if !placeT(x) {
					x, y = y, x
				}
				if placeT(x) && x != y && !dependsT(y, x) && dependsN(hi, x) {
					hi = subst(hi, x, y)
				}
			}
		}
		r := iteB(atomN(n.atom), rec(hi), rec(n.lo))
		memo[n] = r
		return r
	}
	return rec(n)
}

// placeT: an input or a part of one.
func placeT(t *Term) bool {
	return t.op == OVar || t.op == OIndex || t.op == OField || t.op == OProj
}

var debugPanics = false

// somePath lists the conditions of one way to reach target in a boolean diagram.
func somePath(n, target *Node) []string {
	memo := map[*Node]bool{}
	var can func(n *Node) bool
	can = func(n *Node) bool {
		if n == target {
			return true
		}
		if n.leaf != nil {
			return false
		}
		if r, ok := memo[n]; ok {
			return r
		}
		r := can(n.hi) || can(n.lo)
		memo[n] = r
		return r
	}
	var out []string
	for n != target && n.leaf == nil {
		if can(n.hi) {
			out = append(out, "when "+n.atom.String())
			n = n.hi
		} else {
			out = append(out, "when not "+n.atom.String())
			n = n.lo
		}
	}
	return out
}

// pathAtoms gives one satisfying assignment of v.
func pathAtoms(v *Node) map[*Term]bool {
	out := map[*Term]bool{}
	memo := map[*Node]bool{}
	var can func(n *Node) bool
	can = func(n *Node) bool {
		if n == True {
			return true
		}
		if n.leaf != nil {
			return false
		}
		if r, ok := memo[n]; ok {
			return r
		}
		r := can(n.hi) || can(n.lo)
		memo[n] = r
		return r
	}
	n := v
	for n.leaf == nil {
		if can(n.hi) {
			out[n.atom] = true
			n = n.hi
		} else {
			out[n.atom] = false
			n = n.lo
		}
	}
	return out
}

// under follows a (partial) assignment down a diagram.
func under(n *Node, as map[*Term]bool) *Node {
	for n.leaf == nil {
		v, ok := as[n.atom]
		if ok && !v {
			n = n.lo
		} else {
			n = n.hi
		}
	}
	return n
}

type note struct {
	what string
	a, b *Node
	res  *Node // outcome of the comparison
}

// notesUnder shows the compared values on one falsifying assignment.
func (ev *Eval) notesUnder(v *Node) []string {
	as := pathAtoms(v)
	var out []string
	for _, n := range ev.notes {
		if n.res != nil && under(n.res, as) == True {
			continue
		}
		x := n.what + ": " + under(n.a, as).String()
		if n.b != nil {
			y := under(n.b, as).String()
			if strings.TrimPrefix(x, n.what+": ") == y {
				continue
			}
			x += "   |   " + y
		}
		if len(x) > 900 {
			x = x[:900] + "…"
		}
		out = append(out, x)
		if len(out) >= 6 {
			break
		}
	}
	return out
}

// blame names the source construct for a position: the position itself when it lies in the analysed
// source, otherwise the library function the probe was evaluating.
func (ev *Eval) blame(pos token.Pos) string {
	w := ev.W
	if pos.IsValid() && !w.isProbe(pos) {
		return w.pos(pos)
	}
	var last *ssa.Function
	for _, f := range ev.stack {
		if !w.isProbe(f.Pos()) && f.Pos().IsValid() {
			last = f
		}
	}
	if last != nil {
		return w.pos(last.Pos()) + " " + last.RelString(w.tpkg)
	}
	// entry points called by the law, in source order
	var names []string
	for f := range ev.entry {
		names = append(names, f)
	}
	sort.Strings(names)
	if len(names) > 8 {
		names = names[:8]
	}
	return strings.Join(names, ", ")
}
