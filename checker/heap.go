package main

// heap maps objects to their content. It is a persistent trie: copies share structure, so that
// branching does not copy the memory and joining states looks only at what differs.

const (
	heapBits   = 4
	heapFan    = 1 << heapBits
	heapLevels = 6 // up to 16M objects
)

type hnode struct {
	own  *heapT
	kids [heapFan]*hnode
	vals [heapFan]*Node
}

type hleaf = hnode

type heapT struct {
	root *hnode
	own  *heapT // identity under which nodes may be changed in place
}

type heap = *heapT

func newHeap() heap {
	h := &heapT{}
	h.own = h
	return h
}

// clone makes an independent copy; neither copy may change shared nodes in place any more.
func (h *heapT) clone() heap {
	h.own = &heapT{}
	n := &heapT{root: h.root}
	n.own = n
	return n
}

func (h *heapT) get(id int64) (*Node, bool) {
	n := h.root
	for l := heapLevels - 1; l > 0 && n != nil; l-- {
		n = n.kids[id>>(l*heapBits)&(heapFan-1)]
	}
	if n == nil {
		return nil, false
	}
	v := n.vals[id&(heapFan-1)]
	return v, v != nil
}

func (h *heapT) set(id int64, v *Node) {
	own := func(n *hnode) *hnode {
		if n == nil {
			return &hnode{own: h.own}
		}
		if n.own == h.own {
			return n
		}
		c := *n
		c.own = h.own
		return &c
	}
	h.root = own(h.root)
	n := h.root
	for l := heapLevels - 1; l > 0; l-- {
		i := id >> (l * heapBits) & (heapFan - 1)
		n.kids[i] = own(n.kids[i])
		n = n.kids[i]
	}
	n.vals[id&(heapFan-1)] = v
}

// join merges heaps slot by slot; merge is called only for slots that differ, with nil for missing.
func joinHeaps(hs []heap, merge func(id int64, vs []*Node) *Node) heap {
	out := newHeap()
	roots := make([]*hnode, len(hs))
	for i, h := range hs {
		roots[i] = h.root
		h.own = &heapT{} // nodes become shared with the result
	}
	var walk func(ns []*hnode, l int, base int64) *hnode
	walk = func(ns []*hnode, l int, base int64) *hnode {
		same := true
		for _, n := range ns[1:] {
			if n != ns[0] {
				same = false
				break
			}
		}
		if same {
			return ns[0]
		}
		r := &hnode{own: out.own}
		for i := int64(0); i < heapFan; i++ {
			id := base | i<<(l*heapBits)
			if l > 0 {
				sub := make([]*hnode, len(ns))
				any := false
				for j, n := range ns {
					if n != nil {
						sub[j] = n.kids[i]
						any = any || sub[j] != nil
					}
				}
				if any {
					r.kids[i] = walk(sub, l-1, id)
				}
				continue
			}
			vs := make([]*Node, len(ns))
			any, eq := false, true
			for j, n := range ns {
				if n != nil {
					vs[j] = n.vals[i]
				}
				any = any || vs[j] != nil
				eq = eq && vs[j] == vs[0]
			}
			switch {
			case !any:
			case eq:
				r.vals[i] = vs[0]
			default:
				r.vals[i] = merge(id, vs)
			}
		}
		return r
	}
	out.root = walk(roots, heapLevels-1, 0)
	return out
}

func mergeHeaps(gs []*Node, hs []heap) heap {
	if len(hs) == 1 {
		return hs[0]
	}
	return joinHeaps(hs, func(id int64, vs []*Node) *Node {
		var in []gv
		same := true
		var first *Node
		for i, v := range vs {
			if v == nil {
				continue
			}
			in = append(in, gv{gs[i], v})
			if first == nil {
				first = v
			}
			same = same && first == v
		}
		if same {
			return first
		}
		return sel(in)
	})
}

// mergeShared is mergeHeaps aware of objects whose initial content is implicit.
func (ev *Eval) mergeShared(gs []*Node, hs []heap) heap {
	if len(hs) == 1 {
		return hs[0]
	}
	return joinHeaps(hs, func(id int64, vs []*Node) *Node {
		var in []gv
		same := true
		var first *Node
		for i, v := range vs {
			if v == nil {
				v = ev.objs[id].init
			}
			if v == nil {
				continue
			}
			in = append(in, gv{gs[i], v})
			if first == nil {
				first = v
			}
			same = same && first == v
		}
		if same {
			return first
		}
		return sel(in)
	})
}
