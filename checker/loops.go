package main

import (
	"golang.org/x/tools/go/ssa"
)

// evalLoop evaluates a natural loop: finite known trip counts are unrolled into the graph,
// everything else becomes a closed-form binder (symLoop).
func (fr *frame) evalLoop(l *loop, in []edge) []edge {
	ev := fr.ev
	saved := map[ssa.Value]*Node{}
	for k, v := range fr.env {
		saved[k] = v
	}
	if fr.overUnknownText(l) {
		return fr.symLoop(l, in)
	}
	nEv, nObj, nRet, nDef := len(ev.events), len(ev.objs), len(fr.rets), len(fr.defers)
	_ = nObj
	orig := make([]edge, len(in))
	for i, e := range in {
		orig[i] = e
		orig[i].h = e.h.clone()
	}
	cur := in
	var outs []edge
	undec := 0
	for i := 0; ; i++ {
		backs, exits := fr.run(l, l.head, cur)
		headExit := false
		for j := range exits {
			exits[j].outs = map[ssa.Value]*Node{}
			for _, v := range l.live {
				if n, ok := fr.env[v]; ok {
					exits[j].outs[v] = n
				}
			}
			if exits[j].from == l.head {
				headExit = true
			}
		}
		outs = append(outs, exits...)
		if len(backs) == 0 {
			break
		}
		if headExit {
			undec++
		}
		if undec > ev.cut && ev.cut >= 0 {
			// lists of unknown length are analysed up to the configured length
			ev.bounded[l.head.Parent().String()] = true
			break
		}
		if undec > 5 || i > 3000 {
			fr.env = saved
			ev.events = ev.events[:nEv]
			fr.rets = fr.rets[:nRet]
			fr.defers = fr.defers[:nDef]
			return fr.symLoop(l, orig)
		}
		// merge the back edges so that the next iteration starts from one state
		cur = fr.joinEdges(l.head, backs)
	}
	for _, v := range l.live {
		var vs []gv
		for _, e := range outs {
			if n, ok := e.outs[v]; ok {
				vs = append(vs, gv{e.guard, n})
			}
		}
		if len(vs) > 0 {
			fr.env[v] = sel(vs)
		}
	}
	return outs
}

// joinEdges merges edges entering the same block.
func (fr *frame) joinEdges(to *ssa.BasicBlock, es []edge) []edge {
	if len(es) <= 1 {
		return es
	}
	g := False
	var gs []*Node
	var hs []heap
	for _, e := range es {
		g = Or(g, e.guard)
		gs = append(gs, e.guard)
		hs = append(hs, e.h)
	}
	out := edge{from: es[0].from, to: to, guard: g, h: fr.ev.mergeShared(gs, hs), phis: map[*ssa.Phi]*Node{}}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []gv
		for _, e := range es {
			vs = append(vs, gv{e.guard, e.phis[p]})
		}
		out.phis[p] = sel(vs)
	}
	return []edge{out}
}

func (fr *frame) symLoop(l *loop, in []edge) []edge {
	if out, ok := fr.charSummary(l, in); ok {
		for _, v := range l.live {
			var vs []gv
			for _, e := range out {
				if n, ok := e.outs[v]; ok {
					vs = append(vs, gv{e.guard, n})
				}
			}
			if len(vs) > 0 {
				fr.env[v] = sel(vs)
			}
		}
		return out
	}
	fr.ev.fail(l.head.Instrs[0].Pos(), "loop without known trip count in %s", fr.fn)
	return nil
}
