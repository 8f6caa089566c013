package main

// Numbers the source compares, divides or indexes with. Laws that take lists are decided for short lists; a
// number in the source that could tell a longer list from them adds lists of its length and of one more.

import (
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const maxLong = 3000

func (w *World) thresholds() []int {
	seen := map[int64]bool{}
	// A number of a named type names one of its values, it is no length.
	see := func(v ssa.Value) {
		c, ok := v.(*ssa.Const)
		if !ok {
			return
		}
		if _, basic := c.Type().(*types.Basic); !basic || c.Value == nil || c.Value.Kind() != constant.Int {
			return
		}
		if n, ok := constant.Int64Val(c.Value); ok && n > 2 && n < maxLong {
			seen[n] = true
		}
	}
	char := func(v ssa.Value) bool {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
	}
	done := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if done[fn] || w.isProbe(fn.Pos()) {
			return
		}
		done[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						if char(x.X) || char(x.Y) {
							continue
						}
					}
					see(x.X)
					see(x.Y)
				case *ssa.Slice:
					for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
						if v != nil {
							see(v)
						}
					}
				case *ssa.IndexAddr:
					if a, ok := x.X.(*ssa.Alloc); !ok || a.Comment != "varargs" && a.Comment != "slicelit" && a.Comment != "arraylit" {
						see(x.Index)
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
						for _, v := range x.Call.Args {
							see(v)
						}
					}
				case *ssa.Phi:
					for _, v := range x.Edges {
						see(v)
					}
				case *ssa.Alloc:
					if arr, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && x.Comment != "varargs" && x.Comment != "slicelit" && x.Comment != "arraylit" && x.Comment != "makeslice" {
						if n := arr.Len(); n > 2 && n < maxLong {
							seen[n] = true
						}
					}
				case *ssa.Convert:
					to, ok1 := x.Type().Underlying().(*types.Basic)
					from, ok2 := x.X.Type().Underlying().(*types.Basic)
					if ok1 && ok2 && from.Info()&types.IsInteger != 0 && from.Kind() != types.Uint8 && from.Kind() != types.Int8 {
						switch to.Kind() {
						case types.Int8:
							seen[127] = true
						case types.Uint8:
							seen[255] = true
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, fn := range w.funcs {
		visit(fn)
	}
	var out []int
	for n := range seen {
		out = append(out, int(n))
	}
	sort.Ints(out)
	return out
}

// longLengths are the lengths of lists to try besides the short ones.
func (w *World) longLengths() []int {
	ts := w.thresholds()
	if len(ts) > 8 {
		ts = ts[:8]
	}
	if deep {
		ts = append(ts, 4, 10, 16)
	} else {
		ts = append(ts, 4, 10)
	}
	seen := map[int]bool{}
	for _, t := range ts {
		seen[t] = true
		seen[t+1] = true
	}
	var out []int
	for n := range seen {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// all lists the combinations of a law: those it names, and those with one list as long as the source suggests.
func (l *Law) all(w *World) []map[string]int {
	out := l.combos()
	l.short = len(out)
	for _, d := range l.Order {
		if max := slices.Max(l.Shapes[d]); max == 2 && !has(l.Long, d) {
			for n := max + 1; n <= 3; n++ {
				out = append(out, l.one(d, n))
			}
		}
	}
	for _, d := range l.Long {
		for _, n := range w.longLengths() {
			if has(l.Shapes[d], n) || n > l.LongMax && l.LongMax > 0 {
				continue
			}
			out = append(out, l.one(d, n))
		}
	}
	return out
}

// one is the combination of a list with n elements and all the others with one.
func (l *Law) one(d string, n int) map[string]int {
	c := map[string]int{}
	for _, o := range l.Order {
		c[o] = l.Shapes[o][0]
		if has(l.Shapes[o], 1) {
			c[o] = 1
		}
	}
	c[d] = n
	return c
}

func has[T comparable](l []T, x T) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
