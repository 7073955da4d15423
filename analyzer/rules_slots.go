package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- connection slots of the cacher

// slotRule follows the slots of upstream hosts: "slot" is a slot that the
// goroutine holds (channel, host), "resp" a response that is open. While a
// channel of slots is being made, "fill" is how many it has got.
type slotRule struct {
	dlBase
	fn       *ssa.Function
	reversed bool // a slot is taken by sending
	any      bool // a channel was filled (while finding out the direction)
	tag      string
	loops    map[*ssa.BasicBlock]bool // loops in which something is counted
	limitOf  func(t *Term) bool       // what is the limit, if not the cacher's
}

func (r *slotRule) k(s string) string { return r.tag + s }

const (
	ruleSlotHeld  = "responses of an upstream are open only while a slot of its host is held"
	ruleSlotBack  = "every slot that is taken is given back exactly once"
	ruleSlotCount = "there are exactly as many slots as configured"
	ruleSlotOne   = "all downloads from a host use the same slots"
	ruleNoLimit   = "without a limit nothing waits for a slot"
)

// limit says whether t is the configured limit.
func (r *slotRule) limit(st *State, t *Term) bool {
	if r.limitOf != nil {
		return r.limitOf(stripConv(t))
	}
	return isField(st, stripConv(t), r.ro.maxConns)
}

// unlimited says whether the limit is known to be zero.
func (r *slotRule) unlimited(e *Engine, st *State) Tri {
	for t, f := range st.facts {
		if r.limit(st, t) {
			if f.eq != nil {
				if n, ok := f.eq.int(); ok {
					return tri(n == 0)
				}
			}
			if f.hasLo && f.lo > 0 {
				return No
			}
			if r.limitOf != nil && f.hasHi && f.hi <= 0 {
				return Yes
			}
			for _, x := range f.ne {
				if n, ok := x.int(); ok && n == 0 {
					return No
				}
			}
		}
		if t.isApp("==") && f.truth != Unknown {
			for k := 0; k < 2; k++ {
				if n, ok := t.args[k].int(); ok && n == 0 && r.limit(st, t.args[1-k]) {
					return f.truth
				}
			}
		}
		if t.isApp("<") && f.truth != Unknown {
			if n, ok := t.args[0].int(); ok && n == 0 && r.limit(st, t.args[1]) {
				return f.truth.not()
			}
		}
	}
	return Unknown
}

// slots says whether t is the channel of slots of a host.
func (r *slotRule) slots(st *State, t *Term) (*Term, bool) {
	if isOf(st, t, r.ro.sem, nil) {
		return t.args[1], true
	}
	for _, x := range st.mon["made"] {
		if x.args[0] == t {
			return x.args[1], true
		}
	}
	return nil, false
}

func hostOf(t *Term) *Term {
	if o, f := loadOf(t); strings.HasSuffix(f, "url.URL.Host") {
		return o
	}
	return nil
}

func (r *slotRule) take(e *Engine, st *State, host *Term, pos token.Pos) {
	where := e.inFn(st) + " waits for a slot"
	r.rep.check(r.unlimited(e, st) == No, ruleNoLimit, where, pos, st, "waits for a slot although the limit may be zero")
	r.rep.check(!st.mon.flag("slot"), ruleSlotBack, where, pos, st, "takes another slot while it holds one")
	st.mon.add("slot", host)
}

func (r *slotRule) give(e *Engine, st *State, host *Term, pos token.Pos) {
	where := e.inFn(st) + " gives a slot back"
	if !r.rep.check(st.mon.has("slot", host), ruleSlotBack, where, pos, st, "gives back a slot of %s that it does not hold", host) {
		return
	}
	r.rep.check(!st.mon.flag("resp"), ruleSlotHeld, where, pos, st, "gives the slot back although a response may still be open")
	st.mon.del("slot", host)
}

func (r *slotRule) Call(e *Engine, st *State, c *Call) Action {
	if isRequest(c.name) {
		where := e.inFn(st) + " makes a request"
		u := requestURL(e, st, c)
		good := r.unlimited(e, st) == Yes
		for _, h := range st.mon["slot"] {
			good = good || u != nil && hostOf(h) == u
		}
		r.rep.check(good, ruleSlotHeld, where, c.pos(), st, "no slot of the host of %s is held, although there may be a limit", u)
	}
	if c.name == "(io.ReadCloser).Close" || c.name == "(io.Closer).Close" {
		if o, f := loadOf(stripConv(c.args[0])); strings.HasSuffix(f, "http.Response.Body") {
			st.mon.del("resp", o)
		}
	}
	return r.action(c)
}

func (r *slotRule) After(e *Engine, st *State, c *Call, res *Term) {
	if isRequest(c.name) && e.nilness(st, comps(res)[0]) != Yes {
		st.mon.add("resp", comps(res)[0])
	}
}

// fill is how many slots a new channel has got, and how many it lacks.
func (r *slotRule) fill(st *State, ch *Term) (n, rest *Term) {
	for _, x := range st.mon[r.k("fill")] {
		if x.args[0] == ch {
			return x.args[1], x.args[2]
		}
	}
	return nil, nil
}

func (r *slotRule) setFill(e *Engine, st *State, ch, n, rest *Term) {
	for _, x := range st.mon[r.k("fill")] {
		if x.args[0] == ch {
			st.mon.del(r.k("fill"), x)
			break
		}
	}
	if n != nil {
		st.mon.add(r.k("fill"), e.ts.mk(OpApp, "fill", nil, ch, n, rest))
	}
}

// full says whether a channel is known to have got as many slots as
// configured.
func (r *slotRule) full(e *Engine, st *State, ch *Term) bool {
	n, rest := r.fill(st, ch)
	limit := st.mem[e.ts.mk(OpApp, "chancap", nil, ch)]
	if limit == nil {
		return false
	}
	less := func(a, b *Term) Tri { return e.truth(st, e.ts.mk(OpApp, "<", types.Typ[types.Bool], a, b)) }
	if less(n, limit) == No || n.op != OpNil && less(limit, plus(e, n, 1)) == Yes || e.truth(st, e.eq(n, limit)) == Yes || less(e.ts.Int(0), rest) == No || e.truth(st, e.eq(rest, e.ts.Int(0))) == Yes {
		return true
	}
	if m, ok := n.int(); ok {
		if _, hi, _, hh := e.bounds(st, limit); hh && hi <= m {
			return true
		}
	}
	if _, hi, _, hh := e.bounds(st, rest); hh && hi <= 0 {
		return true
	}
	for t, f := range st.facts {
		if t.isApp("<") && f.truth == No && t.args[1] == limit && t.args[0].op == OpSym && t.args[0].symKind() == "chanlen" && t.args[0].args[0] == ch {
			return true
		}
	}
	return false
}

// count: one more slot of a new channel.
func (r *slotRule) count(e *Engine, st *State, ch, n, rest *Term) {
	st.mon.del(r.k("full"), ch)
	if r.loops == nil {
		r.loops = map[*ssa.BasicBlock]bool{}
	}
	for _, f := range st.frames {
		for h := range f.loops {
			r.loops[h] = true
		}
	}
	r.setFill(e, st, ch, near(e, plus(e, n, 1)), near(e, plus(e, rest, -1)))
}

// counting keeps the counts in terms of the variables of loops.
func (r *slotRule) counting(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvWiden:
		if !r.loops[ev.block] {
			return
		}
		for _, x := range append([]*Term(nil), st.mon[r.k("fill")]...) {
			n, rest := x.args[1], x.args[2]
			for d := int64(-1); d <= 1; d++ {
				if plus(e, ev.b, d) == n {
					n = plus(e, ev.a, d)
					break
				}
				if plus(e, ev.b, d) == rest {
					rest = plus(e, ev.a, d)
					break
				}
			}
			r.setFill(e, st, x.args[0], n, rest)
		}
	case EvAssume, EvTest:
		for _, x := range st.mon[r.k("fill")] {
			if r.full(e, st, x.args[0]) {
				st.mon.add(r.k("full"), x.args[0])
			}
		}
	}
}

// isFull says whether as many were counted as there is room for.
func (r *slotRule) isFull(e *Engine, st *State, ch *Term) bool {
	if st.mon.has(r.k("full"), ch) {
		return true
	}
	n, _ := r.fill(st, ch)
	return n != nil && r.full(e, st, ch)
}

func (r *slotRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	switch ev.kind {
	case EvMakeChan:
		if r.limit(st, ev.b) {
			r.setFill(e, st, ev.a, e.ts.Int(0), ev.b)
		}
	case EvWiden, EvAssume, EvTest:
		r.counting(e, st, ev)
	case EvSend, EvRecv:
		if n, rest := r.fill(st, ev.a); n != nil && ev.kind == EvSend {
			r.any = true
			r.count(e, st, ev.a, n, rest)
			return
		}
		h, ok := r.slots(st, ev.a)
		if !ok {
			return
		}
		if (ev.kind == EvRecv) != r.reversed {
			r.take(e, st, h, pos)
		} else {
			r.give(e, st, h, pos)
		}
	case EvMapUpdate:
		if tableOf(st, ev.a) != r.ro.sem {
			return
		}
		where := e.inFn(st) + " makes the slots of a host"
		i := e.findMap(st, ev.a, ev.b)
		locked := false
		for _, l := range st.locks {
			locked = locked || l.write && lockClass(l.lock) == r.ro.p.guard[r.ro.sem]
		}
		r.rep.check(i >= 0 && st.maps[i].ok == No && locked, ruleSlotOne, where, pos, st, "it is not known in this critical section that the host has none yet")
		n, _ := r.fill(st, ev.c)
		r.rep.check(n != nil, ruleSlotCount, where+": capacity", pos, st, "the capacity of the channel is not the configured limit")
		st.mon.add("made", e.ts.mk(OpApp, "made", nil, ev.c, ev.b))
	case EvMapDelete:
		if tableOf(st, ev.a) == r.ro.sem {
			r.rep.violate(ruleSlotOne, e.inFn(st)+" removes the slots of a host", pos, "downloads that hold a slot could not give it back", st.trace)
		}
	case EvUnlock:
		if lockClass(ev.a) != r.ro.p.guard[r.ro.sem] {
			return
		}
		// filled before anyone else can see it
		for _, x := range append([]*Term(nil), st.mon[r.k("fill")]...) {
			ch := x.args[0]
			for _, m := range st.mon["made"] {
				if m.args[0] == ch {
					n, _ := r.fill(st, ch)
					good := st.mon.has(r.k("full"), ch)
					if k, ok := n.int(); r.reversed {
						good = ok && k == 0
					}
					r.rep.check(good, ruleSlotCount, e.inFn(st)+" makes the slots of a host: slots", pos, st, "the channel may not have got as many slots as configured (%s)", n)
				}
			}
			st.mon.del(r.k("fill"), x)
			st.mon.del(r.k("full"), ch)
		}
	case EvSpawnEnter:
		for k := range st.mon {
			if k != "\x00keep" {
				delete(st.mon, k)
			}
		}
	case EvSpawnExit:
		if !ev.panics {
			r.end(e, st, "the goroutine ends", pos)
		}
	}
	if rootReturn(st, ev) {
		r.end(e, st, e.curRoot+" returns", r.fn.Pos())
	}
}

func (r *slotRule) end(e *Engine, st *State, where string, pos token.Pos) {
	r.rep.check(!st.mon.flag("slot"), ruleSlotBack, where, pos, st, "a slot is not given back")
	r.rep.check(!st.mon.flag("resp"), ruleSlotHeld, where, pos, st, "a response is left open")
}

func init() {
	register("K10", "typestate dataflow over the SSA form of the download path (slots and responses), with counted loops",
		"Covers every path of Download, Get and NewCacher and of the goroutines that they start, with and without a limit; a panic ends the process."+trust,
		"A request is made only while a slot of the host of its URL is held or the limit is known to be zero; the slot is given back exactly once on every path and not before the response is closed. The channel of slots of a host is made once, in a critical section, with the configured limit as its capacity and filled with as many slots before it is used. Nothing takes a slot unless the limit is known not to be zero.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			if ro == nil {
				return
			}
			set := configured(p, rep, ro)
			configuredAs(rep, ruleSlotCount, ro.maxConns, "MaxConns", false, ro.newC, set)
			run := func(rp *Report, reversed bool, fns ...*ssa.Function) bool {
				any := false
				for _, f := range fns {
					r := &slotRule{dlBase: dlBase{rep: rp, ro: ro}, fn: f, reversed: reversed}
					e := dlEngine(p, rp, ro, r)
					old, oldM := e.keepFact, e.keepMap
					e.keepFact = func(t *Term) bool {
						return old(t) || t.any(func(x *Term) bool { return fieldOf(x) == ro.maxConns })
					}
					e.keepMap = func(m *Term) bool { return oldM(m) || fieldOf(m) == ro.sem || m.op == OpAlloc && isChanMap(m.typ) }
					e.runRoot(f, nil)
					any = any || r.any
				}
				return any
			}
			// are slots taken by receiving (filled at first) or by sending?
			filled := run(newReport(p, rep.prop), false, ro.download)
			run(rep, !filled, dlRoots(ro)...)
			rep.writersSeen(p, ro.sem)
			rep.floor(ruleSlotHeld, 2)
			rep.floor(ruleSlotBack, 3)
			rep.floor(ruleSlotCount, 3)
			rep.floor(ruleSlotOne, 1)
			rep.floor(ruleNoLimit, 1)
		})
}

func isChanMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, ok = m.Elem().Underlying().(*types.Chan)
	return ok
}

// near forgets a count that has become far from what it is counted from.
func near(e *Engine, t *Term) *Term {
	c := t
	if t.isApp("+") && len(t.args) == 2 {
		if t.args[0].op == OpNil {
			return e.ts.Nil
		}
		c = t.args[1]
	}
	if n, ok := c.int(); ok && (n > 6 || n < -6) {
		return e.ts.Nil
	}
	return t
}
