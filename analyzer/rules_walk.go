package main

import "golang.org/x/tools/go/ssa"

// walker follows the traversal of lists and maps: "cur" has the elements
// being processed, "next" the index expected next in each list and "done"
// the collections that have been traversed to their end.
type walker struct {
	tag    string
	rule   string
	rep    *Report
	from   int64 // elements before this index need not be visited
	wants  func(e *Engine, st *State, coll *Term) bool
	begin  func(e *Engine, st *State, coll *Term, cur *Term, in ssa.Instruction)
	end    func(e *Engine, st *State, coll *Term, cur *Term, in ssa.Instruction)
	finish func(e *Engine, st *State, coll *Term, in ssa.Instruction)
}

func (w *walker) k(s string) string { return w.tag + ":" + s }

// current is the element of a collection that is being processed: a term
// cur(collection, index or key, value if known).
func (w *walker) current(st *State, coll *Term) *Term {
	for _, c := range st.mon[w.k("cur")] {
		if c.args[0] == coll {
			return c
		}
	}
	return nil
}

func (w *walker) next(e *Engine, st *State, coll *Term) *Term {
	for _, x := range st.mon[w.k("next")] {
		if x.args[0] == coll {
			return x.args[1]
		}
	}
	return e.ts.Int(0)
}

func (w *walker) setNext(e *Engine, st *State, coll, i *Term) {
	for _, x := range st.mon[w.k("next")] {
		if x.args[0] == coll {
			st.mon.del(w.k("next"), x)
			break
		}
	}
	if i != nil {
		st.mon.add(w.k("next"), e.ts.mk(OpApp, "next", nil, coll, i))
	}
}

func (w *walker) done(st *State, coll *Term) bool { return st.mon.has(w.k("done"), coll) }

func (w *walker) leave(e *Engine, st *State, coll *Term, in ssa.Instruction) {
	if c := w.current(st, coll); c != nil {
		if w.end != nil {
			w.end(e, st, coll, c, in)
		}
		st.mon.del(w.k("cur"), c)
	}
}

func (w *walker) enter(e *Engine, st *State, coll, i, v *Term, in ssa.Instruction) {
	args := []*Term{coll, i}
	if v != nil {
		args = append(args, v)
	}
	c := e.ts.mk(OpApp, "cur", nil, args...)
	st.mon.add(w.k("cur"), c)
	if w.begin != nil {
		w.begin(e, st, coll, c, in)
	}
}

func (w *walker) complete(e *Engine, st *State, coll *Term, in ssa.Instruction) {
	st.mon.add(w.k("done"), coll)
	if w.finish != nil {
		w.finish(e, st, coll, in)
	}
}

// isElem says whether v is the element denoted by cur.
func isElem(v, cur *Term) bool {
	if len(cur.args) == 3 && v == cur.args[2] {
		return true
	}
	l, i := lineOf(v)
	if l == nil && v.isApp("index") && len(v.args) == 2 {
		l, i = v.args[0], v.args[1]
	}
	if l == nil && v.op == OpSym && v.symKind() == "mapval" && len(v.args) == 2 {
		l, i = v.args[0], v.args[1]
	}
	return l == cur.args[0] && i == cur.args[1]
}

func (w *walker) on(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvWiden:
		for _, x := range append([]*Term(nil), st.mon[w.k("next")]...) {
			if !e.walkedIn(x.args[0], ev.block) {
				continue // the counter of another loop
			}
			for d := int64(0); d <= 1; d++ {
				if plus(e, ev.b, d) == x.args[1] {
					w.setNext(e, st, x.args[0], plus(e, ev.a, d))
					break
				}
			}
		}
	case EvAssume, EvTest:
		if !ev.a.isApp("<") || !ev.a.args[1].isApp("len") {
			return
		}
		coll, i := ev.a.args[1].args[0], ev.a.args[0]
		if !w.wants(e, st, coll) {
			return
		}
		// other comparisons with the length, such as bounds tests, are not
		// steps of a traversal
		want := w.next(e, st, coll)
		if n, ok := want.int(); ok && n == 0 && w.from > 0 && !coll.isApp("slice") {
			if k, ok := i.int(); ok && k <= w.from {
				want = i
			}
		}
		if i != want {
			return
		}
		w.leave(e, st, coll, ev.in)
		if ev.in != nil {
			if e.walkAt == nil {
				e.walkAt = map[*Term]map[*ssa.BasicBlock]bool{}
			}
			if e.walkAt[coll] == nil {
				e.walkAt[coll] = map[*ssa.BasicBlock]bool{}
			}
			e.walkAt[coll][ev.in.Block()] = true
		}
		if ev.ok {
			w.setNext(e, st, coll, plus(e, i, 1))
			w.enter(e, st, coll, i, nil, ev.in)
		} else {
			w.setNext(e, st, coll, nil)
			w.complete(e, st, coll, ev.in)
		}
	case EvIter:
		if !w.wants(e, st, ev.a) {
			return
		}
		w.leave(e, st, ev.a, ev.in)
		w.enter(e, st, ev.a, ev.b, ev.c, ev.in)
	case EvIterEnd:
		if !w.wants(e, st, ev.a) {
			return
		}
		w.leave(e, st, ev.a, ev.in)
		w.complete(e, st, ev.a, ev.in)
	}
}

// walkedIn says whether a collection is walked by the loop with a header.
func (e *Engine) walkedIn(coll *Term, h *ssa.BasicBlock) bool {
	at := e.walkAt[coll]
	if len(at) == 0 || h == nil {
		return true
	}
	body := e.p.info(h.Parent()).loopBody[h]
	for b := range at {
		if body[b] {
			return true
		}
	}
	return false
}
