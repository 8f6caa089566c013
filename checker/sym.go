package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// shaper gives the length of the list found at a path of an input; -1 is a nil slice, -2 leaves the
// list opaque.
type shaper func(path string, T types.Type) int

// input builds an arbitrary value of type T; lists get the length the shaper asks for, everything
// else stays opaque. Backing arrays are shared memory: they exist before the analysed call.
func (ev *Eval) input(name string, T types.Type, sh shaper) *Node {
	return ev.inputT(mk(Term{op: OVar, s: name, typ: T}), name, T, sh)
}

func (ev *Eval) inputT(t *Term, name string, T types.Type, sh shaper) *Node {
	if ev.enums {
		if cs := ev.W.enumConsts(T); len(cs) > 0 {
			out := cs[len(cs)-1]
			for i := len(cs) - 2; i >= 0; i-- {
				a := mk(Term{op: OCall, s: "is:" + cs[i].String(), args: []*Term{t}})
				out = iteB(atomN(a), cs[i], out)
			}
			return out
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		if atomicStruct(T) {
			return leaf(t)
		}
		fs := make([]*Node, u.NumFields())
		for i := range fs {
			f := u.Field(i)
			ft := mk(Term{op: OField, args: []*Term{t}, n: int64(i), s: f.Name(), typ: f.Type()})
			fs[i] = ev.inputT(ft, name+"."+f.Name(), f.Type(), sh)
		}
		return leaf(mkStruct(T, fs))
	case *types.Slice:
		n := -2
		if sh != nil {
			n = sh(name, T)
		}
		if n == -2 {
			return opaque(t, T)
		}
		if n == -1 {
			return leaf(nilOf(T))
		}
		o := ev.newObj(T, name, true)
		var segs []*Term
		for i := 0; i < n; i++ {
			en := fmt.Sprintf("%s[%d]", name, i)
			segs = append(segs, elemSeg(ev.inputT(mk(Term{op: OVar, s: en, typ: u.Elem()}), en, u.Elem(), sh)))
		}
		o.init = leaf(mkList(segs))
		return leaf(refT(o))
	case *types.Map:
		n := -2
		if sh != nil {
			n = sh(name, T)
		}
		if n == -1 {
			return leaf(nilOf(T))
		}
		if n < 0 {
			return leaf(t)
		}
		o := ev.newObj(T, name, true)
		var segs []*Term
		for i := 0; i < n; i++ {
			k := opaque(mk(Term{op: OVar, s: fmt.Sprintf("%s.key%d", name, i), typ: u.Key()}), u.Key())
			v := opaque(mk(Term{op: OVar, s: fmt.Sprintf("%s.val%d", name, i), typ: u.Elem()}), u.Elem())
			segs = append(segs, elemSeg(tuple([]*Node{k, v})))
		}
		o.init = leaf(mkList(segs))
		return leaf(refT(o))
	}
	return opaque(t, T)
}

// evalFn evaluates fn on arbitrary arguments.
func evalFn(w *World, fn *ssa.Function, sh shaper) (ev *Eval, r result, err error) {
	ev = NewEval(w)
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				err = fmt.Errorf("undecided at %s: %s", w.pos(u.pos), u.msg)
				return
			}
			panic(x)
		}
	}()
	var args []*Node
	for _, p := range fn.Params {
		args = append(args, ev.input(p.Name(), p.Type(), sh))
	}
	r = ev.callSSA(fn, args, nil, True, newHeap())
	for i := range r.vals {
		r.vals[i] = ev.resolve(r.vals[i], r.h)
	}
	return
}

// nestLimit is how deep an unknown condition may itself hold conditions.
var nestLimit = 0

// compositeLaw: unknown conditions nested deeper than nestLimit are leaf conditions.
func compositeLaw(w *World) func(x *Term, T types.Type) *Node {
	return func(x *Term, T types.Type) *Node {
		if w.internal(T) {
			return False
		}
		if !w.composite(T) {
			return nil
		}
		if projDepth(w, x) >= nestLimit {
			return False
		}
		return nil
	}
}

// internal tells a type of the package a user can neither name nor obtain: it is not exported, and no exported
// function returns an interface it implements. Unknown values are never of such types.
func (w *World) internal(T types.Type) bool {
	n, ok := types.Unalias(derefT(T)).(*types.Named)
	if !ok || n.Obj().Pkg() != w.tpkg || n.Obj().Exported() || w.isProbe(n.Obj().Pos()) {
		return false
	}
	if r, ok := w.internals[n]; ok {
		return r
	}
	r := true
	see := func(sig *types.Signature) {
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if l, ok := t.Underlying().(*types.Slice); ok {
				t = l.Elem()
			}
			if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && (types.Implements(n, it) || types.Implements(types.NewPointer(n), it)) {
				r = false
			}
			if types.Identical(derefT(t), n) {
				r = false
			}
		}
	}
	for _, name := range w.tpkg.Scope().Names() {
		switch o := w.tpkg.Scope().Lookup(name).(type) {
		case *types.Func:
			if o.Exported() {
				see(o.Type().(*types.Signature))
			}
		case *types.TypeName:
			ms := types.NewMethodSet(types.NewPointer(o.Type()))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					see(ms.At(i).Type().(*types.Signature))
				}
			}
		}
	}
	if w.internals == nil {
		w.internals = map[*types.Named]bool{}
	}
	w.internals[n] = r
	return r
}

func projDepth(w *World, x *Term) int {
	d := 0
	for _, a := range x.args {
		if k := projDepth(w, a); k > d {
			d = k
		}
	}
	if x.op == OProj && w.composite(x.typ) {
		d++
	}
	return d
}

// composite tells a type whose values hold lists of an interface the type itself implements.
func (w *World) composite(T types.Type) bool {
	T = derefT(T)
	n, ok := types.Unalias(T).(*types.Named)
	if !ok || n.Obj().Pkg() != w.tpkg {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if it, ok := sl.Elem().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				if types.Implements(T, it) || types.Implements(types.NewPointer(T), it) {
					return true
				}
			}
		}
	}
	return false
}

// enumConsts lists the constants declared for a named string or integer type of the package.
func (w *World) enumConsts(T types.Type) []*Node {
	n, ok := types.Unalias(T).(*types.Named)
	if !ok || n.Obj().Pkg() != w.tpkg {
		return nil
	}
	if _, ok := n.Underlying().(*types.Basic); !ok {
		return nil
	}
	var out []*Node
	sc := w.tpkg.Scope()
	for _, nm := range sc.Names() {
		c, ok := sc.Lookup(nm).(*types.Const)
		if !ok || !c.Exported() || !types.Identical(c.Type(), T) {
			continue
		}
		out = append(out, constN(ssa.NewConst(c.Val(), T)))
	}
	return out
}
