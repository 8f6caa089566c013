package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// laws may rewrite applications of uninterpreted functions; installed by probes.
var laws []func(t *Term) *Node

// callSimplify builds an uninterpreted application, folding library calls on known arguments.
func callSimplify(c *Term) *Node {
	if r := foldCall(c); r != nil {
		return r
	}
	for _, l := range laws {
		if r := l(c); r != nil {
			return r
		}
	}
	c.id, c.depth = 0, 0
	t := mk(*c)
	if t.typ == nil {
		return atomN(t)
	}
	return opaque(t, t.typ)
}

func strs(ts []*Term) ([]string, bool) {
	out := make([]string, len(ts))
	for i, t := range ts {
		if t.op != OStr {
			return nil, false
		}
		out[i] = t.s
	}
	return out, true
}

// litPart tells whether literal text of s surely contains sub.
func litHas(t *Term, sub string) bool {
	for _, s := range segsOf(t) {
		if s.op == OStr && strings.Contains(s.s, sub) {
			return true
		}
	}
	return false
}

func strList(ss []string) *Term {
	var segs []*Term
	for _, s := range ss {
		segs = append(segs, elemSeg(leaf(sLit(s))))
	}
	return mkList(segs)
}

// foldCall evaluates library functions on literal arguments.
func foldCall(c *Term) *Node {
	if r := foldReflect(c); r != nil {
		return r
	}
	name := strings.TrimPrefix(c.s, "ext:")
	str := func(s string) *Node { return leaf(sLit(s)) }
	switch name {
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold", "strings.Count", "strings.Index", "strings.LastIndex",
		"strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Split", "strings.ContainsAny", "strings.Compare":
		if s, ok := strs(c.args); ok && len(s) == 2 {
			switch name {
			case "strings.Contains":
				return bLit(strings.Contains(s[0], s[1]))
			case "strings.HasPrefix":
				return bLit(strings.HasPrefix(s[0], s[1]))
			case "strings.HasSuffix":
				return bLit(strings.HasSuffix(s[0], s[1]))
			case "strings.EqualFold":
				return bLit(strings.EqualFold(s[0], s[1]))
			case "strings.ContainsAny":
				return bLit(strings.ContainsAny(s[0], s[1]))
			case "strings.Count":
				return leaf(iLit(int64(strings.Count(s[0], s[1]))))
			case "strings.Index":
				return leaf(iLit(int64(strings.Index(s[0], s[1]))))
			case "strings.LastIndex":
				return leaf(iLit(int64(strings.LastIndex(s[0], s[1]))))
			case "strings.Compare":
				return leaf(iLit(int64(strings.Compare(s[0], s[1]))))
			case "strings.TrimPrefix":
				return str(strings.TrimPrefix(s[0], s[1]))
			case "strings.TrimSuffix":
				return str(strings.TrimSuffix(s[0], s[1]))
			case "strings.Trim":
				return str(strings.Trim(s[0], s[1]))
			case "strings.TrimLeft":
				return str(strings.TrimLeft(s[0], s[1]))
			case "strings.TrimRight":
				return str(strings.TrimRight(s[0], s[1]))
			case "strings.Split":
				return leaf(strList(strings.Split(s[0], s[1])))
			}
		}
		if name == "strings.EqualFold" && len(c.args) == 2 {
			x, y := c.args[0], c.args[1]
			if x.op == OStr {
				x, y = y, x
			}
			if y.op == OStr && y.s == "" {
				return EqT(x, y)
			}
			if y.op == OStr && strings.ToLower(y.s) != y.s && strings.EqualFold(strings.ToLower(y.s), y.s) {
				y = sLit(strings.ToLower(y.s))
			}
			if x != c.args[0] || y != c.args[1] {
				return foldOr(&Term{op: OCall, s: c.s, args: []*Term{x, y}})
			}
		}
		if len(c.args) == 2 && c.args[1].op == OStr {
			a, p := c.args[0], c.args[1].s
			segs := segsOf(a)
			switch name {
			case "strings.Contains":
				if p == "" || litHas(a, p) {
					return True
				}
				if len(p) == 1 && len(segs) > 1 {
					r := False
					for _, x := range segs {
						r = Or(r, callSimplify(&Term{op: OCall, s: c.s, args: []*Term{x, c.args[1]}}))
					}
					return r
				}
				// Contains is Count > 0 is Index >= 0
				return lift1(func(n *Term) *Node { return Ge(addC(asLin(n), -1)) }, countOf(a, c.args[1]))
			case "strings.Index":
				has := callSimplify(&Term{op: OCall, s: "ext:strings.Contains", args: c.args, typ: types.Typ[types.Bool]})
				idx := mk(Term{op: OCall, s: "indexIn", args: c.args, typ: types.Typ[types.Uint]})
				return iteB(has, leaf(asLin(idx)), leaf(iLit(-1)))
			case "strings.LastIndex":
				idx := mk(Term{op: OCall, s: "indexIn", args: c.args, typ: types.Typ[types.Uint]})
				last := mk(Term{op: OCall, s: "lastIndexIn", args: c.args, typ: types.Typ[types.Uint]})
				return lift1(func(cnt *Term) *Node {
					return iteB(Ge(addC(asLin(cnt), -1)), iteB(Ge(addC(asLin(cnt), -2)), leaf(asLin(last)), leaf(asLin(idx))), leaf(iLit(-1)))
				}, countOf(a, c.args[1]))
			case "strings.Count":
				if a.op == OCall && len(a.args) == 2 && a.args[1] == c.args[1] && len(p) == 1 {
					switch a.s {
					case "+cutBefore", "+cutAfter", "splitPart":
						return leaf(iLit(0))
					case "+cutRest":
						return lift1(func(n *Term) *Node { return leaf(addC(asLin(n), -1)) }, countOf(a.args[0], c.args[1]))
					}
				}
				opaque := leaf(asLin(mk(Term{op: OCall, s: "ext:strings.Count", args: c.args, typ: types.Typ[types.Uint]})))
				if len(p) == 1 && len(segs) > 1 {
					n := 0
					sum := leaf(iLit(0))
					for _, x := range segs {
						if x.op == OStr {
							n += strings.Count(x.s, p)
							continue
						}
						sum = lift2(func(x, y *Term) *Node { return leaf(addT(x, y)) }, sum, countOf(x, c.args[1]))
					}
					return unsplit(segs, p, leaf(iLit(int64(n))), lift1(func(t *Term) *Node { return leaf(addC(asLin(t), int64(n))) }, sum))
				}
				return opaque
			case "strings.HasPrefix":
				if p == "" {
					return True
				}
				if len(segs) > 0 && segs[0].op == OStr && (len(segs[0].s) >= len(p) || !strings.HasPrefix(p, segs[0].s)) {
					return bLit(strings.HasPrefix(segs[0].s, p))
				}
				if len(p) == 1 && len(segs) > 1 && segs[0].op != OStr {
					return edgeHas(c, segs[0], catT(segs[1:]...))
				}
				return startsHas(c, a)
			case "strings.HasSuffix":
				if p == "" {
					return True
				}
				if n := len(segs); n > 0 && segs[n-1].op == OStr && (len(segs[n-1].s) >= len(p) || !strings.HasSuffix(p, segs[n-1].s)) {
					return bLit(strings.HasSuffix(segs[n-1].s, p))
				}
				if n := len(segs); len(p) == 1 && n > 1 && segs[n-1].op != OStr {
					return edgeHas(c, segs[n-1], catT(segs[:n-1]...))
				}
				return startsHas(c, a)
			case "strings.TrimPrefix":
				if p == "" {
					return leaf(a)
				}
				has := foldOr(&Term{op: OCall, s: "ext:strings.HasPrefix", args: c.args})
				cut := subStrN(a, leaf(iLit(int64(len(p)))), lenT(a))
				return iteB(has, cut, leaf(a))
			case "strings.TrimSuffix":
				if p == "" {
					return leaf(a)
				}
				has := foldOr(&Term{op: OCall, s: "ext:strings.HasSuffix", args: c.args})
				cut := subStrN(a, leaf(iLit(0)), lift1(func(n *Term) *Node { return leaf(addC(asLin(n), -int64(len(p)))) }, lenT(a)))
				return iteB(has, cut, leaf(a))
			}
		}
	case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Fields", "strings.Title", "strconv.Quote":
		if s, ok := strs(c.args); ok && len(s) == 1 {
			switch name {
			case "strings.ToUpper":
				return str(strings.ToUpper(s[0]))
			case "strings.ToLower":
				return str(strings.ToLower(s[0]))
			case "strings.TrimSpace":
				return str(strings.TrimSpace(s[0]))
			case "strings.Fields":
				return leaf(strList(strings.Fields(s[0])))
			case "strconv.Quote":
				return str(strconv.Quote(s[0]))
			}
		}
	case "strings.ReplaceAll", "strings.Replace":
		if s, ok := strs(c.args[:3]); ok {
			n := -1
			if len(c.args) == 4 {
				v, ok := isConst(asLin(c.args[3]))
				if !ok {
					return nil
				}
				n = int(v)
			}
			return str(strings.Replace(s[0], s[1], s[2], n))
		}
	case "strings.Repeat":
		if n, ok := isConst(asLin(c.args[1])); ok && n >= 0 && n <= 64 {
			var ts []*Term
			for i := int64(0); i < n; i++ {
				ts = append(ts, c.args[0])
			}
			return leaf(catT(ts...))
		}
		k := boundVar()
		return mkFor("s", asLin(c.args[1]), k, leaf(c.args[0]))
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString", "(*regexp.Regexp).FindString":
		return foldRegexp(name, c.args)
	case "unicode.IsSpace":
		if n, ok := isConst(asLin(c.args[0])); ok {
			return bLit(unicode.IsSpace(rune(n)))
		}
	}
	return nil
}

// foldRegexp matches a literal text against a literal pattern.
func foldRegexp(name string, args []*Term) *Node {
	made := args[0]
	if made.op != OCall || made.s != "ext:regexp.MustCompile" || len(made.args) != 1 || made.args[0].op != OStr {
		return nil
	}
	re, err := regexp.Compile(made.args[0].s)
	if err != nil {
		return nil
	}
	s, ok := strs(args[1:])
	if !ok {
		return nil
	}
	switch strings.TrimPrefix(name, "(*regexp.Regexp).") {
	case "MatchString":
		return bLit(re.MatchString(s[0]))
	case "FindString":
		return leaf(sLit(re.FindString(s[0])))
	case "ReplaceAllString":
		return leaf(sLit(re.ReplaceAllString(s[0], s[1])))
	case "ReplaceAllLiteralString":
		return leaf(sLit(re.ReplaceAllLiteralString(s[0], s[1])))
	}
	return nil
}

// submatches lists what a literal pattern finds in a literal text.
func submatches(made, t *Term) *Term {
	if made.op != OCall || made.s != "ext:regexp.MustCompile" || len(made.args) != 1 || made.args[0].op != OStr || t.op != OStr {
		return nil
	}
	re, err := regexp.Compile(made.args[0].s)
	if err != nil {
		return nil
	}
	return strList(re.FindStringSubmatch(t.s))
}

// edgeHas decides which character a text begins or ends with by its outer piece, or by the rest when
// that piece is empty.
func edgeHas(c, piece, rest *Term) *Node {
	on := func(x *Term) *Node {
		return callSimplify(&Term{op: OCall, s: c.s, args: []*Term{x, c.args[1]}, typ: c.typ})
	}
	return iteB(EqT(piece, sLit("")), on(rest), on(piece))
}

// startsHas is the unknown whether a text begins or ends with another, which needs the text to have it.
func startsHas(c, a *Term) *Node {
	p := c.args[1].s
	long := lift1(func(n *Term) *Node { return Ge(addC(asLin(n), -int64(len(p)))) }, lenT(a))
	t := *c
	t.typ = types.Typ[types.Bool]
	if len(p) != 1 {
		return And(long, atomN(mk(t)))
	}
	has := callSimplify(&Term{op: OCall, s: "ext:strings.Contains", args: c.args, typ: types.Typ[types.Bool]})
	return And(long, And(has, atomN(mk(t))))
}

func subStrN(a *Term, lo, hi *Node) *Node {
	return lift2(func(l, h *Term) *Node { return subStr(a, l, h) }, lo, hi)
}

func foldOr(c *Term) *Node {
	if r := foldCall(c); r != nil {
		return r
	}
	c.typ = types.Typ[types.Bool]
	return atomN(mk(*c))
}

var tString = types.Typ[types.String]

// model gives the meaning of library functions that build strings, slices or errors.
func (ev *Eval) model(fn *ssa.Function, args []*Node, g *Node, h heap, pos token.Pos) (result, bool) {
	p := fnPkg(fn)
	if p == nil || p == ev.W.pkg {
		return result{}, false
	}
	one := func(n *Node) (result, bool) { return result{g, h, []*Node{n}}, true }
	none := func() (result, bool) { return result{g, h, nil}, true }
	content := func(n *Node) *Node {
		return lift1(func(t *Term) *Node { return ev.sliceContent(t, h) }, n)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if name == p.Pkg.Path()+".init" {
		return none()
	}
	switch name {
	case "reflect.ValueOf", "reflect.TypeOf":
		rt := fn.Signature.Results().At(0).Type()
		return one(lift1(func(t *Term) *Node {
			if name == "reflect.TypeOf" {
				return callSimplify(&Term{op: OCall, s: "ext:(reflect.Value).Type", args: []*Term{mk(Term{op: OCall, s: "reflect.rv", args: []*Term{t}, typ: reflectValue})}, typ: rt})
			}
			return leaf(mk(Term{op: OCall, s: "reflect.rv", args: []*Term{t}, typ: rt}))
		}, ev.resolve(args[0], h)))
	case "strings.Join":
		return one(lift2(joinList, content(args[0]), args[1]))
	case "strconv.Itoa":
		return one(lift1(func(t *Term) *Node { return leaf(itoaT(t)) }, args[0]))
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1] == leaf(iLit(10)) {
			return one(lift1(func(t *Term) *Node { return leaf(itoaT(t)) }, args[0]))
		}
	case "strconv.AppendInt", "strconv.AppendUint":
		if args[2] == leaf(iLit(10)) {
			c := lift2(func(l, n *Term) *Node {
				return lift1(func(lc *Term) *Node { return leaf(concatL(lc, stringBytes(itoaT(n)))) }, ev.sliceContent(l, h))
			}, args[0], args[1])
			return one(ev.newSlice(h, fn.Signature.Results().At(0).Type(), c))
		}
	case "errors.New":
		ev.errN++
		return one(leaf(mk(Term{op: OErr, s: fmt.Sprintf("new@%s", ev.W.pos(pos)), n: int64(ev.errN), typ: errorType})))
	case "errors.Join":
		return one(lift1(func(l *Term) *Node {
			var es []*Node
			for _, s := range listSegs(l) {
				if s.op != OElem {
					return leaf(mk(Term{op: OErr, s: "join", args: []*Term{l}, typ: errorType}))
				}
				es = append(es, s.nodes[0])
			}
			return lift(func(ts []*Term) *Node { return joinErr(ts) }, es...)
		}, ev.resolve(content(args[0]), h)))
	case "errors.Is":
		return one(lift2(func(e, t *Term) *Node {
			if errIs(e, t) {
				return True
			}
			return atomN(mk(Term{op: OCall, s: "errors.Is", args: []*Term{e, t}}))
		}, ev.resolve(args[0], h), ev.resolve(args[1], h)))
	case "fmt.Errorf":
		txt, wrapped := ev.format(args[0], args[1], g, h, pos)
		_ = txt
		ev.errN++
		return one(lift(func(ts []*Term) *Node {
			e := joinErr(ts)
			if e.leaf != nil && e.leaf.op == ONil {
				return leaf(mk(Term{op: OErr, s: "errorf", n: int64(ev.errN), typ: errorType}))
			}
			return e
		}, append([]*Node{leaf(nilOf(errorType))}, wrapped...)...))
	case "fmt.Sprintf":
		txt, _ := ev.format(args[0], args[1], g, h, pos)
		return one(txt)
	case "fmt.Sprint", "fmt.Sprintln":
		r := lift1(func(l *Term) *Node {
			out := leaf(sLit(""))
			for i, s := range listSegs(l) {
				if s.op != OElem {
					return nil
				}
				if i > 0 && name == "fmt.Sprintln" {
					out = catN(out, leaf(sLit(" ")))
				}
				if i > 0 && name == "fmt.Sprint" && !(isStrIface(s.nodes[0]) || isStrIface(listSegs(l)[i-1].nodes[0])) {
					out = catN(out, leaf(sLit(" ")))
				}
				out = catN(out, ev.fmtVerb('v', "%v", s.nodes[0], g, h, pos))
			}
			if name == "fmt.Sprintln" {
				out = catN(out, leaf(sLit("\n")))
			}
			return out
		}, content(args[0]))
		return one(r)
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints":
		// sorting is done by inserting: the result is the sorted list, whatever the way
		by := map[string]string{"sort.Slice": "vxSortSlice", "sort.SliceStable": "vxSortSlice", "sort.Sort": "vxSort", "sort.Stable": "vxSort",
			"sort.Strings": "vxSortStrings", "sort.Ints": "vxSortInts"}[name]
		if f := ev.W.pkg.Func(by); f != nil {
			return ev.callSSA(f, args, nil, g, h), true
		}
	case "fmt.Fprintf", "fmt.Fprint":
		// writing into a local string builder
		w := args[0]
		if w.leaf != nil && w.leaf.op == OIface && w.leaf.args[0].op == OPtr && isBuilder(derefT(w.leaf.typ)) {
			var txt *Node
			if name == "fmt.Fprintf" {
				txt, _ = ev.format(args[1], args[2], g, h, pos)
			} else {
				r, ok := ev.modelByName("fmt.Sprint", args[1:], g, h, pos)
				if !ok {
					return result{}, false
				}
				txt = r
			}
			ev.builderAppend(leaf(w.leaf.args[0]), txt, g, h, pos)
			return result{g, h, []*Node{leaf(iLit(0)), leaf(nilOf(errorType))}}, true
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		ev.builderAppend(args[0], args[1], g, h, pos)
		n := lift1(lenT, args[1])
		return result{g, h, []*Node{n, leaf(nilOf(errorType))}}, true
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		s := lift1(func(l *Term) *Node {
			if b := bytesToString(l); b != nil {
				return leaf(b)
			}
			return leaf(mk(Term{op: OCall, s: "bytesString", args: []*Term{l}, typ: tString}))
		}, content(args[1]))
		ev.builderAppend(args[0], s, g, h, pos)
		return result{g, h, []*Node{lift1(lenT, s), leaf(nilOf(errorType))}}, true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		s := lift1(func(t *Term) *Node {
			if c, ok := isConst(asLin(t)); ok && c >= 0 && c < 0x110000 {
				return leaf(sLit(string(rune(c))))
			}
			return leaf(mk(Term{op: OCall, s: "runeString", args: []*Term{t}, typ: tString}))
		}, args[1])
		ev.builderAppend(args[0], s, g, h, pos)
		if strings.HasSuffix(name, "WriteRune") {
			return result{g, h, []*Node{lift1(lenT, s), leaf(nilOf(errorType))}}, true
		}
		return one(leaf(nilOf(errorType)))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(ev.load(args[0], nil, h, pos))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(lift1(lenT, ev.load(args[0], nil, h, pos)))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return none()
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		ev.store(args[0], leaf(sLit("")), h, g, pos)
		return none()
	case "bytes.NewBufferString":
		o := ev.newObj(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "buffer", false)
		h.set(o.id, args[0])
		return one(leaf(ptrT(o.id)))
	case "(*regexp.Regexp).FindStringSubmatch":
		known := true
		v := lift2(func(re, t *Term) *Node {
			l := submatches(re, t)
			if l == nil {
				known = false
				return Bot
			}
			return leaf(l)
		}, args[0], args[1])
		if !known {
			return result{}, false
		}
		return one(lift1(func(l *Term) *Node {
			if len(l.args) == 0 {
				return leaf(nilOf(fn.Signature.Results().At(0).Type()))
			}
			return ev.newSlice(h, fn.Signature.Results().At(0).Type(), leaf(l))
		}, v))
	case "strings.Split", "strings.Fields", "strings.SplitN", "strings.FieldsFunc":
		r := ev.uninterp("ext:"+name, args, fn.Signature, g, h, pos)
		v := r.vals[0]
		switch name {
		case "strings.Split":
			if x := lift2(func(a, b *Term) *Node {
				if y := splitList(a, b); y != nil {
					return y
				}
				return v
			}, args[0], args[1]); x != nil {
				v = x
			}
		case "strings.SplitN":
			if n := args[2].leaf; n != nil {
				if c, ok := isConst(asLin(n)); ok {
					v = lift2(func(a, b *Term) *Node {
						if y := splitNList(a, b, c); y != nil {
							return y
						}
						return v
					}, args[0], args[1])
				}
			}
		case "strings.Fields":
			v = lift1(func(a *Term) *Node { return fieldsList(a, v) }, args[0])
		}
		return one(ev.newSlice(h, fn.Signature.Results().At(0).Type(), v))
	case "math.IsNaN":
		return one(isNaN(args[0]))
	case "unicode/utf8.RuneCountInString":
		return one(lift1(func(s *Term) *Node {
			if s.op == OStr {
				return leaf(iLit(int64(utf8.RuneCountInString(s.s))))
			}
			rest := mk(Term{op: OCall, s: "ext:unicode/utf8.rest", args: []*Term{s}, typ: tString})
			return iteB(EqT(s, sLit("")), leaf(iLit(0)), lift1(func(n *Term) *Node { return leaf(addC(asLin(n), 1)) }, lenT(rest)))
		}, args[0]))
	case "strings.Cut":
		// before, after, found
		return result{g, h, cutStr(args[0], args[1])}, true
	case "strings.ContainsFunc", "strings.IndexFunc":
		// a pure predicate applied to the characters: identified by the predicate function
		if args[1].leaf != nil && args[1].leaf.op == OClosure {
			p := ev.charPred(args[1].leaf, args[0], g, h, pos)
			return one(lift1(func(s *Term) *Node {
				has := charExists(s, p, false)
				if name == "strings.ContainsFunc" {
					return has
				}
				if s.op == OStr && len(s.s) <= 64 {
					r := leaf(iLit(-1))
					for i := len(s.s); i >= 0; i-- {
						for j, ch := range s.s {
							if j == i {
								r = iteB(boolN(subst(p, charVar(), iLit(int64(ch)))), leaf(iLit(int64(j))), r)
							}
						}
					}
					return r
				}
				idx := mk(Term{op: OCall, s: fmt.Sprintf("idxRune:%d", p.id), args: []*Term{s}, typ: types.Typ[types.Uint]})
				return iteB(has, leaf(asLin(idx)), leaf(iLit(-1)))
			}, args[0]))
		}
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte", "strings.LastIndexByte":
		// a known character is a text of its own, in a known text each character is one choice
		byName := map[string]string{"strings.ContainsRune": "strings.Contains", "strings.IndexRune": "strings.Index", "strings.IndexByte": "strings.Index", "strings.LastIndexByte": "strings.LastIndex"}
		typ := fn.Signature.Results().At(0).Type()
		isByte := strings.HasSuffix(name, "Byte")
		return one(lift2(func(s, r *Term) *Node {
			if c, ok := isConst(asLin(r)); ok && c > 0 && c <= utf8.MaxRune && c != utf8.RuneError && (!isByte || c < 0x80) {
				return callSimplify(&Term{op: OCall, s: "ext:" + byName[name], args: []*Term{s, sLit(string(rune(c)))}, typ: typ})
			}
			if s.op == OStr && !isByte && name == "strings.ContainsRune" && utf8.ValidString(s.s) {
				has := False
				for _, ch := range s.s {
					has = Or(has, IntEq(asLin(r), iLit(int64(ch))))
				}
				return has
			}
			return callSimplify(&Term{op: OCall, s: "ext:" + name, args: []*Term{s, r}, typ: typ})
		}, args[0], args[1]))
	case "strings.ContainsAny", "strings.IndexAny":
		return one(lift2(func(s, chars *Term) *Node {
			if chars.op != OStr || !utf8.ValidString(chars.s) || len(chars.s) > 32 {
				return callSimplify(&Term{op: OCall, s: "ext:" + name, args: []*Term{s, chars}, typ: fn.Signature.Results().At(0).Type()})
			}
			has := False
			for _, ch := range chars.s {
				has = Or(has, callSimplify(&Term{op: OCall, s: "ext:strings.Contains", args: []*Term{s, sLit(string(ch))}, typ: types.Typ[types.Bool]}))
			}
			if name == "strings.ContainsAny" {
				return has
			}
			if s.op == OStr {
				return leaf(iLit(int64(strings.IndexAny(s.s, chars.s))))
			}
			idx := mk(Term{op: OCall, s: "idxRune:any " + chars.s, args: []*Term{s}, typ: types.Typ[types.Uint]})
			return iteB(has, leaf(asLin(idx)), leaf(iLit(-1)))
		}, args[0], args[1]))
	case "slices.Clone":
		c := content(args[0])
		isN := lift1(isNilT, args[0])
		return one(sel([]gv{{isN, leaf(nilOf(fn.Signature.Results().At(0).Type()))}, {Not(isN), ev.newSlice(h, fn.Signature.Results().At(0).Type(), c)}}))
	case "slices.Clip":
		return one(lift1(func(t *Term) *Node {
			if t.op == ONil {
				return leaf(t)
			}
			return lift1(func(n *Term) *Node {
				if t.op == OSub {
					nt := *t
					nt.n = 1
					return leaf(mk(nt))
				}
				return leaf(mk(Term{op: OSub, args: []*Term{t, iLit(0), asLin(n)}, n: 1}))
			}, ev.lenOf(t, h))
		}, args[0]))
	case "slices.Concat":
		r := lift1(func(l *Term) *Node {
			out := leaf(mkList(nil))
			for _, s := range listSegs(l) {
				if s.op != OElem {
					return leaf(mk(Term{op: OCall, s: "slices.Concat", args: []*Term{l}}))
				}
				out = lift2(func(a, b *Term) *Node { return leaf(concatL(a, b)) }, out, s.nodes[0])
			}
			return out
		}, ev.resolve(args[0], h))
		return one(ev.newSlice(h, fn.Signature.Results().At(0).Type(), r))
	case "slices.Grow":
		// same content with more spare capacity: own memory
		return one(ev.newSlice(h, fn.Signature.Results().At(0).Type(), content(args[0])))
	}
	return result{}, false
}

func (ev *Eval) modelByName(name string, args []*Node, g *Node, h heap, pos token.Pos) (*Node, bool) {
	for _, p := range ev.W.prog.AllPackages() {
		if p.Pkg.Path() == "fmt" {
			if f := p.Func(strings.TrimPrefix(name, "fmt.")); f != nil {
				r, ok := ev.model(f, args, g, h, pos)
				if ok {
					return r.vals[0], true
				}
			}
		}
	}
	return nil, false
}

func countOf(a, sep *Term) *Node {
	return lift1(func(n *Term) *Node { return leaf(asLin(n)) },
		callSimplify(&Term{op: OCall, s: "ext:strings.Count", args: []*Term{a, sep}, typ: types.Typ[types.Int]}))
}

// cutSides gives the parts around the first separator, meaningful when there is one.
func cutSides(a, b *Term) (before, after *Node) {
	part := func(nm string) *Node {
		return leaf(mk(Term{op: OCall, s: nm, args: []*Term{a, b}, typ: tString}))
	}
	if a.op == OStr && b.op == OStr {
		x, y, _ := strings.Cut(a.s, b.s)
		return leaf(sLit(x)), leaf(sLit(y))
	}
	if b.op != OStr || len(b.s) != 1 {
		return part("cutBefore"), part("cutAfter")
	}
	if segs := segsOf(a); len(segs) > 1 {
		// no unknown piece has the separator: the first one is in known text
		for i, x := range segs {
			if x.op != OStr || !strings.Contains(x.s, b.s) {
				continue
			}
			l, r, _ := strings.Cut(x.s, b.s)
			kb := catT(append(append([]*Term{}, segs[:i]...), sLit(l))...)
			ka := catT(append([]*Term{sLit(r)}, segs[i+1:]...)...)
			gb, ga := cutGeneral(a, b)
			return unsplit(segs, b.s, leaf(kb), gb), unsplit(segs, b.s, leaf(ka), ga)
		}
	}
	return cutGeneral(a, b)
}

func cutGeneral(a, b *Term) (before, after *Node) {
	part := func(nm string) *Node {
		return leaf(mk(Term{op: OCall, s: nm, args: []*Term{a, b}, typ: tString}))
	}
	pre := foldOr(&Term{op: OCall, s: "ext:strings.HasPrefix", args: []*Term{a, b}})
	suf := foldOr(&Term{op: OCall, s: "ext:strings.HasSuffix", args: []*Term{a, b}})
	before = iteB(pre, leaf(sLit("")), part("+cutBefore"))
	after = lift1(func(n *Term) *Node {
		return iteB(IntEq(n, iLit(1)), iteB(suf, leaf(sLit("")), part("+cutAfter")), part("+cutRest"))
	}, countOf(a, b))
	return before, after
}

func cutStr(s, sep *Node) []*Node {
	has := lift2(func(a, b *Term) *Node {
		return callSimplify(&Term{op: OCall, s: "ext:strings.Contains", args: []*Term{a, b}})
	}, s, sep)
	before := lift2(func(a, b *Term) *Node { x, _ := cutSides(a, b); return x }, s, sep)
	after := lift2(func(a, b *Term) *Node { _, x := cutSides(a, b); return x }, s, sep)
	return []*Node{
		iteB(has, before, s),
		iteB(has, after, leaf(sLit(""))),
		has,
	}
}

// nonEmpty tells applications that stand for text having at least one character.
func nonEmpty(t *Term) bool { return t.op == OCall && strings.HasPrefix(t.s, "+") }

func nonEmptyLen(t *Term) *Term {
	return addC(asLin(mk(Term{op: OLen, args: []*Term{mk(Term{op: OCall, s: "tail", args: []*Term{t}, typ: tString})}})), 1)
}

// splitList gives the parts of a string around a separator.
func splitList(a, b *Term) *Node {
	if a.op == OStr && b.op == OStr {
		return leaf(strList(strings.Split(a.s, b.s)))
	}
	if b.op != OStr || len(b.s) != 1 {
		return nil
	}
	if segs := segsOf(a); len(segs) > 1 {
		// no unknown piece has the separator
		var parts, part []*Term
		for _, x := range segs {
			if x.op != OStr {
				part = append(part, x)
				continue
			}
			for i, y := range strings.Split(x.s, b.s) {
				if i > 0 {
					parts = append(parts, elemSeg(leaf(catT(part...))))
					part = nil
				}
				part = append(part, sLit(y))
			}
		}
		parts = append(parts, elemSeg(leaf(catT(part...))))
		return unsplit(segs, b.s, leaf(mkList(parts)), splitGeneral(a, b))
	}
	return splitGeneral(a, b)
}

// splitNList is the list of at most n parts of a text.
func splitNList(a, b *Term, n int64) *Node {
	if a.op == OStr && b.op == OStr {
		return leaf(strList(strings.SplitN(a.s, b.s, int(n))))
	}
	switch {
	case b.op != OStr || len(b.s) != 1 || n > 4:
		return nil
	case n < 0:
		return splitList(a, b)
	case n == 0:
		return leaf(mkList(nil))
	case n == 1:
		return leaf(mkList([]*Term{elemSeg(leaf(a))}))
	}
	return lift1(func(k *Term) *Node {
		before, after := cutSides(a, b)
		rest := lift1(func(y *Term) *Node { return splitNList(y, b, n-1) }, after)
		first := elemSeg(before)
		more := lift1(func(l *Term) *Node { return leaf(mkList(append([]*Term{first}, l.args...))) }, rest)
		return iteB(IntEq(k, iLit(0)), leaf(mkList([]*Term{elemSeg(leaf(a))})), more)
	}, countOf(a, b))
}

// unsplit chooses by whether no unknown piece of a text contains the character p.
func unsplit(segs []*Term, p string, yes, no *Node) *Node {
	r := yes
	for _, x := range segs {
		if x.op != OStr {
			r = iteB(callSimplify(&Term{op: OCall, s: "ext:strings.Contains", args: []*Term{x, sLit(p)}}), no, r)
		}
	}
	return r
}

func splitGeneral(a, b *Term) *Node {
	return lift1(func(n *Term) *Node {
		x, y := cutSides(a, b)
		k := boundVar()
		rest := mkFor("l", addC(n, 1), k, leaf(mkList([]*Term{elemSeg(leaf(mk(Term{op: OCall, s: "splitPart", args: []*Term{a, b, asLin(k)}, typ: tString})))})))
		two := leaf(mkList([]*Term{elemSeg(x), elemSeg(y)}))
		return iteB(IntEq(n, iLit(0)), leaf(mkList([]*Term{elemSeg(leaf(a))})), iteB(IntEq(n, iLit(1)), two, rest))
	}, countOf(a, b))
}

// separated tells that unknown pieces of a text do not touch, so that no character spans two of them.
func separated(segs []*Term) bool {
	for i, x := range segs {
		if x.op == OStr && !utf8.ValidString(x.s) || i > 0 && x.op != OStr && segs[i-1].op != OStr {
			return false
		}
	}
	return true
}

func hasSpace(a *Term) *Node {
	if a.op == OStr {
		return bLit(strings.ContainsFunc(a.s, unicode.IsSpace))
	}
	return atomN(mk(Term{op: OCall, s: "hasRune:unicode.IsSpace", args: []*Term{a}}))
}

// wordsOf splits a text given by pieces at white space; word is the word begun, done the words before it.
func wordsOf(segs, done, word []*Term, opaque *Node) *Node {
	flush := func(k func(done []*Term) *Node) *Node {
		w := catT(word...)
		yes := append(done[:len(done):len(done)], elemSeg(leaf(w)))
		return iteB(EqT(w, sLit("")), k(done), k(yes))
	}
	if len(segs) == 0 {
		return flush(func(d []*Term) *Node { return leaf(mkList(d)) })
	}
	x := segs[0]
	if x.op != OStr {
		return iteB(hasSpace(x), opaque, wordsOf(segs[1:], done, append(word[:len(word):len(word)], x), opaque))
	}
	i := strings.IndexFunc(x.s, unicode.IsSpace)
	if i < 0 {
		return wordsOf(segs[1:], done, append(word[:len(word):len(word)], x), opaque)
	}
	word = append(word[:len(word):len(word)], sLit(x.s[:i]))
	_, n := utf8.DecodeRuneInString(x.s[i:])
	rest := append([]*Term{}, segs[1:]...)
	if r := x.s[i+n:]; r != "" {
		rest = append([]*Term{sLit(r)}, rest...)
	}
	return flush(func(d []*Term) *Node { return wordsOf(rest, d, nil, opaque) })
}

// fieldsList gives the words of a string; texts having spaces stay opaque.
func fieldsList(a *Term, opaque *Node) *Node {
	if a.op == OStr {
		return leaf(strList(strings.Fields(a.s)))
	}
	if segs := segsOf(a); len(segs) > 1 && separated(segs) {
		return wordsOf(segs, nil, nil, opaque)
	}
	space := hasSpace(a)
	return iteB(EqT(a, sLit("")), leaf(mkList(nil)), iteB(space, opaque, leaf(mkList([]*Term{elemSeg(leaf(a))}))))
}

var errorType = types.Universe.Lookup("error").Type()

func isBuilder(t types.Type) bool {
	n := namedName(t)
	return n == "strings.Builder" || n == "bytes.Buffer"
}

func (ev *Eval) builderAppend(b, s *Node, g *Node, h heap, pos token.Pos) {
	old := ev.load(b, nil, h, pos)
	ev.store(b, catN(old, s), h, g, pos)
}

// joinErr makes an error wrapping the given ones.
func joinErr(ts []*Term) *Node {
	var as []*Term
	var add func(t *Term)
	seen := map[*Term]bool{}
	add = func(t *Term) {
		if t.op == ONil {
			return
		}
		if t.op == OErr && t.s == "wrap" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if !seen[t] {
			seen[t] = true
			as = append(as, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	if len(as) == 0 {
		return leaf(nilOf(errorType))
	}
	return leaf(mk(Term{op: OErr, s: "wrap", args: as, typ: errorType}))
}

// errIs reports that e surely wraps target.
func errIs(e, target *Term) bool {
	if e == target {
		return true
	}
	if e.op == OErr {
		for _, a := range e.args {
			if errIs(a, target) {
				return true
			}
		}
	}
	if e.op == OIface && len(e.args) == 1 && target.op == OIface {
		return e == target
	}
	return false
}

// joinList is strings.Join.
func joinList(l, sep *Term) *Node {
	switch l.op {
	case ONil:
		return leaf(sLit(""))
	case OList:
		out := leaf(sLit(""))
		for i, s := range l.args {
			switch s.op {
			case OElem:
				if i > 0 {
					if minLenT(mkList(l.args[:i])) == 0 {
						return joinGen(l, sep)
					}
					out = catN(out, leaf(sep), s.nodes[0])
				} else {
					out = s.nodes[0]
				}
			case OFor:
				// one element per iteration
				for _, bl := range leaves(s.nodes[0]) {
					if bl.op != OList || len(bl.args) != 1 || bl.args[0].op != OElem {
						return joinGen(l, sep)
					}
				}
				body := lift1(func(bl *Term) *Node { return bl.args[0].nodes[0] }, s.nodes[0])
				if i > 0 && minLenT(mkList(l.args[:i])) > 0 {
					out = catN(out, mkFor("s", s.args[0], s.args[1], catN(leaf(sep), body)))
				} else if i == 0 && len(l.args) == 1 {
					out = forJoin(s.args[0], s.args[1], body, sep)
				} else {
					return joinGen(l, sep)
				}
			case OSpread:
				k := boundVar()
				n := lenT(s.args[0])
				if n.leaf == nil {
					return joinGen(l, sep)
				}
				body := indexT(s.args[0], k, tString)
				if i > 0 && minLenT(mkList(l.args[:i])) > 0 {
					out = catN(out, mkFor("s", n.leaf, k, catN(leaf(sep), body)))
				} else if i == 0 && len(l.args) == 1 {
					out = forJoin(n.leaf, k, body, sep)
				} else {
					return joinGen(l, sep)
				}
			}
		}
		return out
	}
	if n := lenT(l); n.leaf != nil {
		k := boundVar()
		return forJoin(n.leaf, k, indexT(l, k, tString), sep)
	}
	return joinGen(l, sep)
}

func forJoin(hi, k *Term, body *Node, sep *Term) *Node {
	if sep == sLit("") {
		return mkFor("s", hi, k, body)
	}
	b0 := subst(body, k, iLit(0))
	nk := boundVar()
	rest := mkFor("s", addC(asLin(hi), -1), nk, catN(leaf(sep), subst(body, k, addC(asLin(nk), 1))))
	return iteB(Ge(addC(asLin(hi), -1)), catN(b0, rest), leaf(sLit("")))
}

func joinGen(l, sep *Term) *Node {
	return leaf(mk(Term{op: OCall, s: "ext:strings.Join", args: []*Term{l, sep}, typ: tString}))
}

func isStrIface(n *Node) bool {
	for _, t := range leaves(n) {
		if t.op != OIface || !isStr(t.typ) {
			return false
		}
	}
	return true
}

// format is fmt.Sprintf on a literal format; the second result lists the operands of %w.
func (ev *Eval) format(f, argl *Node, g *Node, h heap, pos token.Pos) (*Node, []*Node) {
	if f.leaf == nil || f.leaf.op != OStr {
		all := ev.resolve(argl, h)
		return lift2(func(x, y *Term) *Node {
			return leaf(mk(Term{op: OCall, s: "fmt.Sprintf", args: []*Term{x, y}, typ: tString}))
		}, f, all), nil
	}
	format := f.leaf.s
	al := lift1(func(t *Term) *Node { return ev.sliceContent(t, h) }, argl)
	if al.leaf == nil || (al.leaf.op != OList && al.leaf.op != ONil) {
		ev.fail(pos, "format with unknown operands")
	}
	var ops []*Node
	for _, s := range listSegs(al.leaf) {
		if s.op != OElem {
			ev.fail(pos, "format with unknown operands")
		}
		ops = append(ops, s.nodes[0])
	}
	out := leaf(sLit(""))
	var wrapped []*Node
	ai := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = catN(out, leaf(sLit(format[i:])))
			break
		}
		out = catN(out, leaf(sLit(format[i:i+j])))
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		verb := format[i]
		spec := "%" + format[st:i+1]
		i++
		if verb == '%' {
			out = catN(out, leaf(sLit("%")))
			continue
		}
		if strings.ContainsAny(spec, "[*") {
			ev.fail(pos, "format %q", format)
		}
		if ai >= len(ops) {
			out = catN(out, leaf(sLit("%!"+string(verb)+"(MISSING)")))
			continue
		}
		op := ops[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, ev.resolve(op, h))
		}
		out = catN(out, ev.fmtVerb(verb, spec, op, g, h, pos))
	}
	return out, wrapped
}

// fmtVerb is the text of one formatted operand.
func (ev *Eval) fmtVerb(verb byte, spec string, op *Node, g *Node, h heap, pos token.Pos) *Node {
	return lift1(func(t *Term) *Node {
		un := func() *Node {
			r := ev.resolve(leaf(t), h)
			return lift1(func(r *Term) *Node {
				return leaf(mk(Term{op: OCall, s: "fmt" + spec, args: []*Term{r}, typ: tString}))
			}, r)
		}
		if t.op != OIface || len(spec) != 2 {
			return un()
		}
		if verb == 'T' {
			return leaf(sLit(types.TypeString(t.typ, func(p *types.Package) string { return p.Name() })))
		}
		if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
			// Error and String methods come first
			for _, m := range []string{"Error", "String"} {
				if f := ev.W.methodByName(t.typ, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isStr(f.Signature.Results().At(0).Type()) {
					if fnPkg(f) == ev.W.pkg || fnPkg(f) == nil {
						r := ev.callFn(f, []*Node{ifaceInner(t)}, nil, g, h, pos)
						if verb == 'q' {
							return un()
						}
						return r.vals[0]
					}
					return un()
				}
			}
		}
		inner := ifaceInner(t)
		switch {
		case isStr(t.typ) && (verb == 's' || verb == 'v'):
			return inner
		case isInt(t.typ) && (verb == 'd' || verb == 'v'):
			return lift1(func(x *Term) *Node { return leaf(itoaT(x)) }, inner)
		}
		return un()
	}, op)
}

// atomicStruct tells library structures whose fields are never looked into.
func atomicStruct(t types.Type) bool {
	return isBuilder(t) || namedName(t) == "reflect.Value"
}

var reflectType, reflectValue types.Type

// elementIs tells whether an element of a list of unknown type is of an interface type: all of them but nil are
// when the type of elements implements it.
func elementIs(x *Term, T types.Type) *Node {
	rv := mk(Term{op: OCall, s: "reflect.rv", args: []*Term{x.args[0]}, typ: reflectValue})
	list := mk(Term{op: OCall, s: "ext:(reflect.Value).Type", args: []*Term{rv}, typ: reflectType})
	elem := mk(Term{op: OCall, s: "invoke:Elem", args: []*Term{list}, typ: reflectType})
	all := mk(Term{op: OCall, s: "invoke:Implements", args: []*Term{elem, mk(Term{op: OCall, s: "reflect.T", typ: T})}, typ: types.Typ[types.Bool]})
	return iteB(atomN(all), Not(isNilT(x)), atomN(mk(Term{op: OIsType, args: []*Term{x}, typ: T})))
}

// foldReflect evaluates reflection on values of known type.
func foldReflect(c *Term) *Node {
	if len(c.args) == 0 || c.args[0].op != OCall || !strings.HasPrefix(c.args[0].s, "reflect.") {
		return nil
	}
	r := c.args[0]
	rtype := func(T types.Type) *Node { return leaf(mk(Term{op: OCall, s: "reflect.T", typ: T})) }
	kind := func(T types.Type) *Node {
		if k := reflectKind(T); k >= 0 {
			return leaf(iLit(int64(k)))
		}
		return nil
	}
	if r.s == "reflect.rv" {
		x := r.args[0]
		known := x.op == OIface
		switch c.s {
		case "ext:(reflect.Value).Interface":
			return leaf(x)
		case "ext:(reflect.Value).IsValid":
			return Not(isNilT(x))
		case "ext:(reflect.Value).Type":
			if known {
				return rtype(x.typ)
			}
		case "ext:(reflect.Value).Kind":
			if x.op == ONil {
				return leaf(iLit(0))
			}
			if known {
				return kind(x.typ)
			}
			return leaf(asLin(mk(Term{op: OCall, s: c.s, args: c.args, typ: types.Typ[types.Uint]})))
		case "ext:(reflect.Value).IsZero":
			nilT := Term{op: OCall, s: "ext:(reflect.Value).IsNil", args: c.args, typ: c.typ}
			if !known {
				kind := asLin(mk(Term{op: OCall, s: "ext:(reflect.Value).Kind", args: c.args, typ: types.Typ[types.Uint]}))
				return iteB(IntEq(kind, iLit(22)), atomN(mk(nilT)), atomN(c))
			}
			if _, ok := x.typ.Underlying().(*types.Pointer); ok {
				return foldReflect(&nilT)
			}
		case "ext:(reflect.Value).IsNil":
			if !known {
				return nil
			}
			switch x.typ.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
				return lift1(isNilT, ifaceInner(x))
			}
		case "ext:(reflect.Value).Len":
			if known && isSliceT(x.typ) {
				return lift1(func(t *Term) *Node { return lenT(t) }, ifaceInner(x))
			}
			return leaf(asLin(mk(Term{op: OCall, s: c.s, args: c.args, typ: types.Typ[types.Uint]})))
		case "ext:(reflect.Value).Index":
			if known && isSliceT(x.typ) {
				et := elemType(x.typ)
				return lift1(func(t *Term) *Node {
					return lift1(func(e *Term) *Node {
						if !isIfaceT(et) {
							return lift1(func(f *Term) *Node {
								return leaf(mk(Term{op: OCall, s: "reflect.rv", args: []*Term{f}, typ: c.typ}))
							}, mkIface(et, leaf(e)))
						}
						return leaf(mk(Term{op: OCall, s: "reflect.rv", args: []*Term{e}, typ: c.typ}))
					}, indexT(t, asLin(c.args[1]), et))
				}, ifaceInner(x))
			}
			e := mk(Term{op: OCall, s: "reflect.elem", args: []*Term{x, asLin(c.args[1])}, typ: types.NewInterfaceType(nil, nil)})
			return leaf(mk(Term{op: OCall, s: "reflect.rv", args: []*Term{e}, typ: c.typ}))
		}
		return nil
	}
	if r.s == "reflect.T" {
		switch c.s {
		case "invoke:Elem":
			if p, ok := r.typ.Underlying().(*types.Pointer); ok {
				return rtype(p.Elem())
			}
			if isSliceT(r.typ) {
				return rtype(elemType(r.typ))
			}
		case "invoke:Kind":
			return kind(r.typ)
		case "invoke:Implements":
			if len(c.args) == 2 && c.args[1].op == OCall && c.args[1].s == "reflect.T" {
				if it, ok := c.args[1].typ.Underlying().(*types.Interface); ok {
					return bLit(types.Implements(r.typ, it))
				}
			}
		}
	}
	return nil
}

func reflectKind(T types.Type) int {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
			types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24}
		if k, ok := m[u.Kind()]; ok {
			return k
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return -1
}
