package main

// Whole-surface analyses: every function and method a user of the package can call is evaluated on
// arbitrary arguments, and its effects (writes, reads of shared state, calls out of the package) and the
// memory reachable from its results are examined.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callable tells whether a user can get to call a method of an unexported type: through an interface of the
// package or of the language that the type implements, as a method promoted to an exported type, or because an exported
// function returns the type.
func (w *World) callable(fn *ssa.Function) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return true
	}
	rt := recv.Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	n, ok := rt.(*types.Named)
	if !ok || n.Obj().Exported() || n.Obj().Pkg() != w.tpkg {
		return true
	}
	switch fn.Name() {
	case "String", "Error", "GoString", "Format", "Value", "Scan", "Is", "As", "Unwrap", "MarshalJSON", "MarshalText":
		return true
	}
	mentions := func(t types.Type) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return types.Identical(t, rt)
	}
	results := func(sig *types.Signature) bool {
		for i := 0; i < sig.Results().Len(); i++ {
			if mentions(sig.Results().At(i).Type()) {
				return true
			}
		}
		return false
	}
	sc := w.tpkg.Scope()
	for _, name := range sc.Names() {
		o := sc.Lookup(name)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			if results(o.Type().(*types.Signature)) {
				return true
			}
		case *types.Var:
			if mentions(o.Type()) {
				return true
			}
		case *types.TypeName:
			t := o.Type()
			if i, ok := t.Underlying().(*types.Interface); ok {
				for k := 0; k < i.NumMethods(); k++ {
					if i.Method(k).Name() == fn.Name() && (types.Implements(rt, i) || types.Implements(types.NewPointer(rt), i)) {
						return true
					}
				}
			}
			for _, t := range []types.Type{t, types.NewPointer(t)} {
				ms := types.NewMethodSet(t)
				for k := 0; k < ms.Len(); k++ {
					m := ms.At(k)
					if !m.Obj().Exported() {
						continue
					}
					if m.Obj() == fn.Object() || results(m.Obj().Type().(*types.Signature)) {
						return true
					}
				}
			}
		}
	}
	return false
}

// entries lists the functions and methods callable from outside: exported functions, and exported
// methods of all named types (unexported types are reached through interfaces).
func (w *World) entries() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.funcs {
		if fn.Synthetic != "" && fn.Origin() == nil || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue // generic body: its instances are analysed
		}
		if !w.callable(fn) {
			continue
		}
		out = append(out, fn)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// uninstantiated lists exported generic functions no instance of which was analysed.
func (w *World) uninstantiated() []string {
	seen := map[*ssa.Function]bool{}
	for _, fn := range w.funcs {
		if o := fn.Origin(); o != nil {
			seen[o] = true
		}
	}
	var out []string
	for _, m := range w.pkg.Members {
		fn, ok := m.(*ssa.Function)
		if ok && fn.TypeParams().Len() > 0 && !seen[fn] && !w.isProbe(fn.Pos()) && fn.Object() != nil && fn.Object().Exported() {
			out = append(out, fn.Name())
		}
	}
	return out
}

func fnName(w *World, fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(w.tpkg), "github.com/amarin/query.", "")
}

// effectsAll runs the region and effect analysis on every entry.
func (w *World) effectsAll(st *Stats, fs *[]Finding) []EntryEffects {
	if len(w.effCache) == 0 {
		for _, fn := range w.entries() {
			w.effCache = append(w.effCache, w.effectsOf(fn))
		}
	}
	for _, e := range w.effCache {
		st.Entries++
		st.Obligations++
		st.Calls += e.an.calls
		st.Instrs += e.an.instrs
		for f := range e.an.reach {
			st.Funcs[f] = true
		}
		if e.err != "" {
			*fs = append(*fs, Finding{Rule: "effects", Where: w.pos(e.fn.Pos()) + " " + fnName(w, e.fn), Msg: "not decided: " + e.err, Key: "effects " + fnName(w, e.fn), Open: true})
		}
	}
	for _, g := range w.uninstantiated() {
		*fs = append(*fs, Finding{Rule: "effects", Where: g, Msg: "not decided: generic function without analysed instance", Key: "effects " + g, Open: true})
	}
	st.Extra["region analysis runs"] += len(w.effCache)
	return w.effCache
}

func (w *World) effFinding(rule string, e EntryEffects, x effect, msg string) Finding {
	fn := "-"
	if x.Fn != nil {
		fn = fnName(w, x.Fn)
	}
	return Finding{Rule: rule, Where: w.pos(x.Pos) + " in " + fn, Msg: msg, Path: []string{"called as " + x.Chain}, Key: rule + " " + fn + " " + x.Kind}
}

// analyseWrites: no entry writes into memory that existed before it was called.
func analyseWrites(w *World, st *Stats, fs *[]Finding) {
	bad := 0
	for _, e := range w.effectsAll(st, fs) {
		n := len(*fs)
		for _, x := range e.an.effects {
			st.Events++
			if x.Kind == "write" {
				f := w.effFinding("no-foreign-writes", e, x, "entry "+fnName(w, e.fn)+": "+x.Detail)
				f.Open = x.Open
				*fs = append(*fs, f)
			}
		}
		if len(*fs) == n {
			st.Held++
		} else {
			bad++
		}
	}
}

// analyseSharing: slices, maps and pointers handed to the caller refer to new memory only, and slices and maps
// taken from the caller are not kept in the result.
func analyseSharing(w *World, st *Stats, fs *[]Finding) {
	for _, e := range w.effectsAll(st, fs) {
		n := len(*fs)
		name := fnName(w, e.fn)
		res := e.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			v := e.ret
			if res.Len() > 1 && v != nil {
				if i < len(v.fields) {
					v = v.fields[i]
				} else {
					v = nil
				}
			}
			switch res.At(i).Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				st.Extra["returned collections and pointers"]++
				if v == nil {
					break
				}
				for _, l := range v.locs {
					if l.r.kind != rFresh {
						*fs = append(*fs, Finding{Rule: "returns-own-memory", Where: w.pos(e.fn.Pos()) + " " + name,
							Msg: "result " + fmt.Sprint(i+1) + " refers to " + e.an.regName(l.r), Key: "returns-own-memory " + name})
					}
				}
			}
		}
		kept := e.an.reachable(e.ret, e.h)
		for i, p := range e.fn.Params {
			isRecv := i == 0 && e.fn.Signature.Recv() != nil
			switch p.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
			default:
				continue
			}
			if isRecv {
				continue
			}
			st.Extra["collections taken"]++
			for r := range kept {
				if r.kind == rArg && r.arg == i {
					*fs = append(*fs, Finding{Rule: "keeps-no-argument", Where: w.pos(e.fn.Pos()) + " " + name,
						Msg: "the result keeps " + e.an.regName(r), Key: "keeps-no-argument " + name + " " + r.name})
				}
			}
		}
		if len(*fs) == n {
			st.Held++
		}
	}
}

// analysePurity: no entry touches state shared between calls, talks to the world, starts goroutines, or depends
// on map iteration order (unless the map is its own argument).
func analysePurity(w *World, st *Stats, fs *[]Finding) {
	for _, e := range w.effectsAll(st, fs) {
		n := len(*fs)
		takesMap := false
		for _, p := range e.fn.Params {
			if _, ok := p.Type().Underlying().(*types.Map); ok {
				takesMap = true
			}
		}
		for _, x := range e.an.effects {
			st.Events++
			msg, open := "", x.Open
			switch x.Kind {
			case "write":
				if x.Reg != nil && x.Reg.kind == rGlobal {
					msg = x.Detail
				} else if strings.HasPrefix(fnBase(e.fn), "Render") || fnBase(e.fn) == "BuildQueryAndParams" || fnBase(e.fn) == "Values" || fnBase(e.fn) == "String" {
					msg = x.Detail
				}
			case "globalread", "extern", "concurrency":
				msg = x.Detail
			case "maprange":
				if !takesMap {
					msg = x.Detail
				}
			}
			if msg != "" {
				f := w.effFinding("no-shared-state", e, x, "entry "+fnName(w, e.fn)+": "+msg)
				f.Open = open
				*fs = append(*fs, f)
			}
		}
		if len(*fs) == n {
			st.Held++
		}
	}
}

func fnBase(fn *ssa.Function) string { return fn.Name() }

// analyseJoinTypes: an unfinished join offers nothing but its completion, so a program that renders one
// does not compile.
func analyseJoinTypes(w *World, st *Stats, fs *[]Finding) {
	starters := map[string]bool{"Join": true, "InnerJoin": true, "LeftJoin": true, "RightJoin": true, "FullJoin": true, "Tables": true}
	builders := []string{"BuildQueryAndParams", "Render", "RenderSQL", "RenderFrom", "Values", "String", "Where", "Many", "Single", "Count", "Delete", "Update", "Join"}
	found := 0
	for _, fn := range w.entries() {
		sig := fn.Signature
		if sig.Recv() == nil || !starters[fn.Name()] || sig.Results().Len() != 1 {
			continue
		}
		T := sig.Results().At(0).Type()
		on, _, _ := types.LookupFieldOrMethod(T, true, w.tpkg, "On")
		if on == nil {
			// finished joins and other homonyms
			if !joins(w, sig) {
				continue
			}
		}
		found++
		st.Obligations++
		bad := ""
		if _, ok := T.Underlying().(*types.Interface); !ok {
			bad = "its result " + T.String() + " is not an interface"
		}
		if on == nil {
			bad = "its result " + T.String() + " has no On"
		}
		for _, m := range builders {
			if o, _, _ := types.LookupFieldOrMethod(T, true, w.tpkg, m); o != nil && bad == "" {
				bad = "its result " + T.String() + " offers " + m + " before On"
			}
		}
		if bad != "" {
			*fs = append(*fs, Finding{Rule: "unfinished-joins", Where: w.pos(fn.Pos()) + " " + fnName(w, fn), Msg: bad, Key: "unfinished-joins " + fnName(w, fn)})
		} else {
			st.Held++
		}
	}
	st.Extra["join starters"] = found
	floor(st, fs, "unfinished-joins", "join starters", found, 26)
}

// joins: the signature takes a table to join and a join type or only the table.
func joins(w *World, sig *types.Signature) bool {
	ps := sig.Params()
	for i := 0; i < ps.Len(); i++ {
		n, ok := types.Unalias(ps.At(i).Type()).(*types.Named)
		if ok && n.Obj().Pkg() == w.tpkg && (n.Obj().Name() == "TableIdent" || n.Obj().Name() == "TableName") {
			return true
		}
	}
	return false
}

// analyseEnums: String of every declared constant of an enumerated type is its own text.
func analyseEnums(w *World, st *Stats, fs *[]Finding) {
	sc := w.tpkg.Scope()
	n := 0
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() || w.isProbe(tn.Pos()) {
			continue
		}
		T := tn.Type()
		b, ok := T.Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
			continue
		}
		str := w.methodByName(T, "String")
		if str == nil {
			continue
		}
		texts := map[string]string{}
		for _, cn := range sc.Names() {
			c, ok := sc.Lookup(cn).(*types.Const)
			if !ok || !c.Exported() || !types.Identical(c.Type(), T) || w.isProbe(c.Pos()) {
				continue
			}
			n++
			st.Obligations++
			bad, open := "", false
			func() {
				ev := NewEval(w)
				defer func() {
					ev.reached(st)
					if x := recover(); x != nil {
						bad, open = fmt.Sprint("not decided: ", x), true
					}
				}()
				r := ev.callSSA(str, []*Node{constN(ssa.NewConst(c.Val(), T))}, nil, True, newHeap())
				v := r.vals[0]
				switch {
				case isOpenN(v) || isOpenN(r.guard):
					bad, open = "not decided: its text is "+v.String(), true
				case r.guard != True || v.leaf == nil || v.leaf.op != OStr:
					bad = "its text is not fixed: " + v.String()
				case v.leaf.s == "" || strings.Contains(strings.ToLower(v.leaf.s), "unknown"):
					bad = "it has no text of its own: " + v.leaf.s
				case texts[v.leaf.s] != "":
					bad = "it has the same text as " + texts[v.leaf.s]
				default:
					texts[v.leaf.s] = cn
				}
			}()
			if bad != "" && strings.HasPrefix(bad, "it has no text") && undefinedConst(cn) {
				bad = ""
			}
			if bad != "" {
				*fs = append(*fs, Finding{Rule: "constant-texts", Where: w.pos(c.Pos()) + " " + cn, Msg: bad, Key: "constant-texts " + cn, Open: open})
			} else {
				st.Held++
			}
		}
	}
	st.Extra["enumerated constants"] = n
	floor(st, fs, "constant-texts", "enumerated constants", n, 12)
}

// undefinedConst: constants standing for nothing.
func undefinedConst(n string) bool {
	l := strings.ToLower(n)
	return strings.Contains(l, "undefined") || strings.Contains(l, "unknown") || strings.Contains(l, "noop") || strings.Contains(l, "none")
}

// floor reports that less was found to analyse than the property is about.
func floor(st *Stats, fs *[]Finding, rule, what string, got, want int) {
	if got < want {
		*fs = append(*fs, Finding{Rule: rule, Where: "package", Msg: fmt.Sprintf("not decided: only %d %s found, %d expected: the anchors of the property moved", got, what, want), Key: rule + " floor", Open: true})
	}
}

// analyseConstraints: every type accepted by the type parameters of exported functions is one the laws exercise.
func analyseConstraints(w *World, st *Stats, fs *[]Finding) {
	known := map[string]bool{"string": true, "TableName": true, "TableIdent": true, "FieldName": true, "FieldDefinition": true}
	n := 0
	for _, m := range sortedMembers(w) {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || w.isProbe(fn.Pos()) || fn.Signature.TypeParams().Len() == 0 {
			continue
		}
		tps := fn.Signature.TypeParams()
		for i := 0; i < tps.Len(); i++ {
			n++
			st.Obligations++
			it, _ := tps.At(i).Constraint().Underlying().(*types.Interface)
			terms, bad := unionTerms(it), ""
			if len(terms) == 0 {
				bad = "accepts any type"
			}
			for _, t := range terms {
				nm := types.TypeString(t.Type(), func(*types.Package) string { return "" })
				if !known[nm] {
					bad = "accepts " + nm + ", which is not handled"
				}
				if t.Tilde() {
					bad = "accepts types derived from " + nm + ", which type switches do not match"
				}
			}
			if bad != "" {
				*fs = append(*fs, Finding{Rule: "accepted-types", Where: w.pos(fn.Pos()) + " " + fn.Name(), Msg: bad, Key: "accepted-types " + fn.Name()})
			} else {
				st.Held++
			}
		}
	}
	st.Extra["type parameters"] = n
	floor(st, fs, "accepted-types", "type parameters", n, 9)
}

func unionTerms(it *types.Interface) []*types.Term {
	var out []*types.Term
	if it == nil {
		return nil
	}
	for i := 0; i < it.NumEmbeddeds(); i++ {
		switch u := types.Unalias(it.EmbeddedType(i)).(type) {
		case *types.Union:
			for k := 0; k < u.Len(); k++ {
				if e, ok := u.Term(k).Type().Underlying().(*types.Interface); ok {
					out = append(out, unionTerms(e)...)
					continue
				}
				out = append(out, u.Term(k))
			}
		default:
			if e, ok := u.Underlying().(*types.Interface); ok {
				out = append(out, unionTerms(e)...)
			} else {
				out = append(out, types.NewTerm(false, u))
			}
		}
	}
	return out
}

func sortedMembers(w *World) []ssa.Member {
	var ns []string
	for n := range w.pkg.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []ssa.Member
	for _, n := range ns {
		out = append(out, w.pkg.Members[n])
	}
	return out
}

var _ token.Pos

// analyseCounting: a number is never squeezed into 8 or 16 bits and then used as a full number again.
// Counts of parameters and conditions have no bound, so such a count would wrap around.
func analyseCounting(w *World, st *Stats, fs *[]Finding) { counting(w, w.funcs, st, fs) }

// analyseClauseCounting looks at what rendering calls only.
func analyseClauseCounting(w *World, st *Stats, fs *[]Finding) {
	in := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if in[fn] || fn.Blocks == nil || fnPkg(fn) != w.pkg {
			return
		}
		in[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f)
					}
				}
			}
		}
	}
	for _, fn := range w.funcs {
		if fn.Signature.Recv() != nil && strings.HasPrefix(fn.Name(), "Render") {
			visit(fn)
		}
	}
	var fns []*ssa.Function
	for _, fn := range w.funcs {
		if in[fn] {
			fns = append(fns, fn)
		}
	}
	counting(w, fns, st, fs)
}

func counting(w *World, fns []*ssa.Function, st *Stats, fs *[]Finding) {
	st.Obligations++
	n, bad := 0, 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || !isInt(v.Type()) {
					continue
				}
				n++
				bits, _ := intSize(v.Type())
				if bits > 16 || !grows(ins, bits) || !widened(v, map[ssa.Value]bool{}) {
					continue
				}
				bad++
				at := w.pos(ins.Pos()) + " " + fn.Name()
				*fs = append(*fs, Finding{Rule: "counting", Where: at, Msg: fmt.Sprintf("a number without a bound is kept in %d bits", bits), Key: "counting " + fn.Name()})
			}
		}
	}
	if bad == 0 {
		st.Held++
	}
	st.Extra["integer values"] = n
}

// grows tells whether a narrow number is made from one that has no bound.
func grows(ins ssa.Instruction, bits int) bool {
	switch x := ins.(type) {
	case *ssa.Convert:
		if !isInt(x.X.Type()) {
			return false
		}
		from, _ := intSize(x.X.Type())
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return from > bits && ok && b.Kind() != types.Int32 && !bounded(x.X, map[ssa.Value]bool{})
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.MUL {
			return false
		}
		// a sum that feeds itself: a counter
		return feeds(x, x, map[ssa.Value]bool{})
	}
	return false
}

func bounded(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.REM, token.AND, token.SHR:
			return true
		case token.ADD, token.SUB:
			return bounded(x.X, seen) && bounded(x.Y, seen)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			for _, a := range x.Call.Args {
				if _, ok := a.(*ssa.Const); ok {
					return true
				}
			}
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) {
			if n, _ := intSize(x.X.Type()); n <= 16 {
				return true
			}
			return bounded(x.X, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !bounded(e, seen) {
				return false
			}
		}
		return !feeds(x, x, map[ssa.Value]bool{})
	case *ssa.Index, *ssa.Lookup, *ssa.Extract:
		return true
	}
	return false
}

// feeds tells whether v is computed from itself on the next round of a loop.
func feeds(v, to ssa.Value, seen map[ssa.Value]bool) bool {
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Phi, *ssa.BinOp:
			z := y.(ssa.Value)
			if z == to {
				return true
			}
			if !seen[z] && isInt(z.Type()) {
				seen[z] = true
				if feeds(z, to, seen) {
					return true
				}
			}
		}
	}
	return false
}

// widened tells whether a narrow number becomes a full one.
func widened(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Convert:
			if isInt(x.Type()) {
				b := x.Type().Underlying().(*types.Basic)
				if n, _ := intSize(x.Type()); n > 16 && b.Kind() != types.Int32 {
					return true
				}
				if widened(x, seen) {
					return true
				}
			}
		case *ssa.Phi:
			if widened(x, seen) {
				return true
			}
		case *ssa.BinOp:
			if isInt(x.Type()) && widened(x, seen) {
				return true
			}
		case *ssa.ChangeType:
			if widened(x, seen) {
				return true
			}
		}
	}
	return false
}
