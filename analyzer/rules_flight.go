package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- K09, K11: the life of a download

// flightRule follows downloads from their registration to their end.
//
// While a download is registered but not started its token (path, channel)
// is "reg"; the goroutine started next owns it ("own"). The owner's progress
// is "result", "gone" and "closed"; "half" marks critical sections in which
// only one of the first two has been done. "stored", "obsolete" and "resp"
// are what the recorded result has to agree with.
type flightRule struct {
	dlBase
	fn       *ssa.Function
	k09      bool
	capacity string      // field of the store
	expires  map[int]Tri // goroutines by where they are started: whether they remove the result
}

const (
	ruleOneFlight = "a download is registered only if there is none"
	ruleStarted   = "a registered download is always started"
	ruleOwner     = "only the download itself ends its registration"
	ruleLanding   = "at the end the result is recorded and the path is available again, then the waiters are released, once"
	ruleWaits     = "a request that found nothing waits for the download before it tries again"
	ruleHandOver  = "the channel of the download is given to the caller"
	ruleWithin    = "requests and changes of the store happen only while the download is registered"

	ruleResultOK   = "200 is recorded only for an item that was stored or is obsolete"
	ruleResultFits = "200 is not recorded for an item that is evicted at once, being larger than the cache"
	ruleResultBad  = "a failed download records the status of the upstream or an internal error"
	ruleReuse      = "a recorded failure is returned instead of downloading again"
	ruleExpire     = "a recorded result is removed after the configured period"
	ruleResultLock = "results change only in the download that they are about"
)

func (r *flightRule) chk(k09, ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) bool {
	if k09 != r.k09 {
		return ok
	}
	return r.rep.check(ok, rule, where, pos, st, format, args...)
}

func (r *flightRule) own(st *State) (p, ch *Term) {
	if o := st.mon.get("own"); o != nil {
		return o.args[0], o.args[1]
	}
	return nil, nil
}

func (r *flightRule) held(st *State, field string) bool {
	for _, l := range st.locks {
		if l.write && lockClass(l.lock) == r.ro.p.guard[field] {
			return true
		}
	}
	return false
}

// tableOf is the field that a map is kept in.
func tableOf(st *State, m *Term) string {
	if f := fieldOf(m); f != "" {
		return f
	}
	f, _ := contents(st, m)
	return f
}

// isOf says whether t is a value of the table in field under key k.
func isOf(st *State, t *Term, field string, k *Term) bool {
	return t != nil && t.op == OpSym && t.symKind() == "mapval" && len(t.args) == 2 && tableOf(st, t.args[0]) == field && (k == nil || t.args[1] == k)
}

func (r *flightRule) Call(e *Engine, st *State, c *Call) Action {
	if isRequest(c.name) || c.fn == r.ro.insert {
		p, _ := r.own(st)
		where := e.inFn(st) + " calls " + shortName(c.name)
		good := p != nil && !st.mon.flag("gone")
		if good && isRequest(c.name) {
			u := requestURL(e, st, c)
			good = u != nil && u.isApp(urlmapURL) && u.args[1] == p
		}
		if good && c.fn == r.ro.insert {
			_, _, q, ok := copied(c.args[2])
			good = ok && q == p
		}
		r.chk(true, good, ruleWithin, where, c.pos(), st, "it is not known that a download for this path is registered by this goroutine at this time")
	}
	return r.action(c)
}

func (r *flightRule) After(e *Engine, st *State, c *Call, res *Term) {
	p, _ := r.own(st)
	switch {
	case c.fn == r.ro.insert && p != nil:
		_, _, q, ok := copied(c.args[2])
		if ok && q == p && e.nilness(st, comps(res)[0]) == Yes {
			st.mon.add("stored", p)
			for _, t := range st.mon["fits"] {
				if t.args[0] == c.args[0] && (len(t.args) == 1 || t.args[1] == c.args[2]) {
					st.mon.set("fitted", p)
				}
			}
			delete(st.mon, "fits")
		}
	case isRequest(c.name) && p != nil:
		if e.nilness(st, comps(res)[0]) == No || e.nilness(st, comps(res)[1]) == Yes {
			st.mon.add("resp", comps(res)[0])
		}
	}
}

func (r *flightRule) root(st *State) bool { return !st.frames[0].goro }

func (r *flightRule) path() *Term { return nil }

// param is the path that the analysed function is called with.
func (r *flightRule) param(e *Engine) *Term {
	for i, a := range r.fn.Params {
		if i > 0 && a.Type().Underlying().String() == "string" {
			return e.ts.mk(OpParam, a.Name(), a.Type())
		}
	}
	return nil
}

func (r *flightRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	p, ch := r.own(st)
	switch ev.kind {
	case EvMapUpdate:
		switch tableOf(st, ev.a) {
		case r.ro.dl:
			where := e.inFn(st) + " registers a download"
			i := e.findMap(st, ev.a, ev.b)
			r.chk(true, i >= 0 && st.maps[i].ok == No && r.held(st, r.ro.dl), ruleOneFlight, where, pos, st, "it is not known in this critical section that no download for %s is in progress", ev.b)
			r.chk(true, ev.c.op == OpAlloc, ruleOneFlight, where+" with a channel of its own", pos, st, "the channel (%s) is not a new one", ev.c)
			r.chk(true, !st.mon.flag("reg"), ruleStarted, where, pos, st, "the download registered before it has not been started")
			st.mon.set("reg", e.ts.mk(OpApp, "dl", nil, ev.b, ev.c))
			if r.root(st) {
				r.again(e, st, where, pos)
				st.mon.set("mine", ev.c)
			}
		case r.ro.results:
			where := e.inFn(st) + " records a result"
			good := r.chk(true, p != nil && p == ev.b && !st.mon.flag("result"), ruleOwner, where, pos, st, "a result of %s is recorded outside of its download or twice", ev.b)
			if p != nil && good {
				st.mon.add("result", p)
				r.half(st, p)
				r.result(e, st, ev.c, where, pos)
			}
		}
	case EvMapDelete:
		switch tableOf(st, ev.a) {
		case r.ro.dl:
			where := e.inFn(st) + " ends a registration"
			good := r.chk(true, p != nil && p == ev.b && !st.mon.flag("gone"), ruleOwner, where, pos, st, "the registration of %s is removed by something else than its download", ev.b)
			if p != nil && good {
				st.mon.add("gone", p)
				r.half(st, p)
			}
		case r.ro.results:
			where := e.inFn(st) + " removes a result"
			var x *Term
			for _, t := range st.mon["period"] {
				x = t
			}
			r.chk(false, x != nil && x.args[0] == ev.b, ruleExpire, where, pos, st, "the result of %s is removed although the configured period has not passed since it was recorded", ev.b)
			if x != nil {
				st.mon.set("removed", e.ts.True)
			}
		}
	case EvUnlock:
		if lockClass(ev.a) == r.ro.p.guard[r.ro.dl] {
			r.chk(true, !st.mon.flag("half"), ruleLanding, e.inFn(st)+" ends a critical section", pos, st, "the result is recorded and the path made available in different critical sections")
			delete(st.mon, "half")
		}
	case EvClose:
		if ev.a == ch && ch != nil || isOf(st, ev.a, r.ro.dl, nil) {
			where := e.inFn(st) + " releases the waiters"
			good := ch != nil && (ev.a == ch || isOf(st, ev.a, r.ro.dl, p) && !st.mon.flag("lost"))
			r.chk(true, good, ruleLanding, where+": channel", pos, st, "%s may not be the channel that the download was registered with", ev.a)
			done := st.mon.flag("gone") && st.mon.flag("result")
			r.chk(true, done || r.held(st, r.ro.dl), ruleLanding, where+": order", pos, st, "the waiters are released before the result is recorded and the path is available again")
			r.chk(true, !st.mon.flag("closed"), ruleLanding, where+": once", pos, st, "the channel is closed a second time")
			st.mon.add("closed", e.ts.True)
			return
		}
		if p != nil && ev.a.typ != nil && e.nilness(st, ev.a) != No && strings.Contains(ev.a.typ.String(), "chan struct{}") {
			r.chk(true, false, ruleLanding, e.inFn(st)+" releases the waiters: channel", pos, st, "%s may not be the channel that the download was registered with", ev.a)
		}
	case EvMapLookup:
		if tableOf(st, ev.a) == r.ro.results && r.root(st) {
			i := e.findMap(st, ev.a, ev.b)
			v := ev.c
			if i >= 0 && st.maps[i].ok == No {
				v = e.ts.mk(OpApp, "none", nil)
			}
			st.mon.set("looked", e.ts.mk(OpApp, "looked", nil, ev.b, v))
		}
		if tableOf(st, ev.a) == r.ro.info && r.root(st) && r.fn == r.ro.get && ev.b == r.param(e) {
			if st.mon.flag("tried") {
				r.chk(true, st.mon.flag("waited"), ruleWaits, e.inFn(st)+" tries again", pos, st, "goes on without having waited for a download of %s", ev.b)
			}
			st.mon.set("tried", e.ts.True)
			delete(st.mon, "waited")
			delete(st.mon, "looked")
			delete(st.mon, "mine")
		}
	case EvRecv:
		a := ev.a
		if a.isCall("time.After") && len(a.args) > 0 {
			r.period(e, st, a.args[0])
		} else if o, f := loadOf(a); f == "time.Timer.C" && o.isCall("time.NewTimer") && len(o.args) > 0 {
			r.period(e, st, o.args[0])
		}
		if a.isCall("(context.Context).Done") || a.isApp("(context.Context).Done") {
			st.mon.set("ctxdone", e.ts.True)
		}
		if r.fn == r.ro.get && r.root(st) {
			q := r.param(e)
			good := a == st.mon.get("mine") || isOf(st, a, r.ro.dl, q) && e.nilness(st, a) != Yes
			r.chk(true, good, ruleWaits, e.inFn(st)+" waits", pos, st, "waits on %s, which is not the channel of a download of this path", a)
			if good {
				st.mon.set("waited", e.ts.True)
			}
		}
	case EvTest:
		r.fits(e, st, ev)
	case EvAssume:
		r.fits(e, st, ev)
		if ev.a.isApp(aptSame) && !ev.ok && p != nil {
			_, _, q, ok := copied(ev.a.args[1])
			if ok && q == p && isOf(st, ev.a.args[0], r.ro.info, nil) && r.infoHeld(st) {
				st.mon.add("obsolete", p)
			}
		}
	case EvSpawn:
		site := r.ro.p.iid(ev.in)
		st.mon.add("spawned", e.ts.Int(int64(site)))
		delete(st.mon, "started")
		if t := st.mon.get("reg"); t != nil {
			delete(st.mon, "reg")
			if ev.slot == "well" || ev.slot == "env" {
				r.chk(true, false, ruleStarted, "a download is started with well.Go", pos, st, "well.Go does nothing after the shutdown has begun, so that the waiters of the registered channel wait for ever")
			} else {
				r.chk(true, true, ruleStarted, "a download is started", pos, st, "")
			}
			st.mon.set("started", t)
		}
		if ev.slot == "timer" && ev.b != nil && p != nil && st.mon.flag("result") {
			if isField(st, ev.b, r.ro.period) {
				st.mon.set("timed", p)
			}
		}
	case EvSpawnEnter:
		t, tm := st.mon.get("started"), st.mon.get("timed")
		var ex *Term
		if p != nil && st.mon.flag("result") {
			ex = p
		}
		for k := range st.mon {
			if k != "\x00keep" {
				delete(st.mon, k)
			}
		}
		st.mon.set("own", t)
		if t != nil {
			st.mon["\x00keep"] = append(append([]*Term(nil), st.mon["\x00keep"]...), t.args...)
		}
		if ex != nil {
			st.mon.set("expire", ex)
			if tm != nil {
				st.mon.set("period", e.ts.mk(OpApp, "period", nil, ex))
			}
		}
	case EvSpawnExit:
		if ev.panics {
			return
		}
		r.end(e, st, pos, "goroutine ends")
		site := r.ro.p.iid(ev.in)
		if st.mon.flag("expire") {
			if st.mon.flag("removed") {
				if r.expires[site] == Unknown {
					r.expires[site] = Yes
				}
			} else if !st.mon.flag("ctxdone") {
				r.expires[site] = No
			}
		}
		if p == nil {
			return
		}
		where := "the download goroutine ends"
		opos := ev.in.Pos()
		r.chk(true, st.mon.flag("result") && st.mon.flag("gone"), ruleLanding, where+": result", opos, st, "ends without having recorded a result and made the path available")
		r.chk(true, st.mon.flag("closed"), ruleLanding, where+": waiters", opos, st, "ends without having released the waiters")
		good := false
		for _, x := range st.mon["spawned"] {
			n, _ := x.int()
			good = good || r.expires[int(n)] == Yes
		}
		r.chk(false, good, ruleExpire, where, opos, st, "no goroutine has been started that removes the recorded result after the configured period, unless it is told to stop")
	}
	if !rootReturn(st, ev) {
		return
	}
	r.end(e, st, r.fn.Pos(), "returns")
	switch r.fn {
	case r.ro.get:
		if t := st.mon.get("looked"); t != nil && !t.args[1].isApp("none") && !st.mon.flag("waited") {
			if e.truth(st, e.eq(t.args[1], e.ts.Int(200))) == No && e.truth(st, e.eq(t.args[1], e.ts.Int(0))) != Yes {
				r.chk(false, comps(ev.a)[0] == t.args[1], ruleReuse, e.curRoot+" returns", r.fn.Pos(), st, "returns status %s instead of the recorded one", comps(ev.a)[0])
			}
		}
	case r.ro.download:
		v := comps(ev.a)[0]
		for v.op == OpApp && strings.HasPrefix(v.name, "conv:") {
			v = v.args[0]
		}
		q := r.param(e)
		if e.nilness(st, v) == Yes {
			good := false
			for t, f := range st.facts {
				if t.isApp(urlmapURL) && t.args[1] == q && f.isNil == Yes {
					good = true
				}
				if t.isApp("==") && f.truth == Yes && (t.args[0].isApp(urlmapURL) || t.args[1].isApp(urlmapURL)) {
					good = true
				}
			}
			r.chk(true, good, ruleHandOver, e.curRoot+" returns nil", r.fn.Pos(), st, "returns no channel although the path may be under a registered prefix")
			return
		}
		r.chk(true, v == st.mon.get("mine") || isOf(st, v, r.ro.dl, q), ruleHandOver, e.curRoot+" returns", r.fn.Pos(), st, "returns %s, which is not the channel of the download of this path", v)
	}
}

// isField says whether t is the value of a field.
func isField(st *State, t *Term, field string) bool {
	if _, f := loadOf(t); f == field {
		return true
	}
	for a, v := range st.mem {
		if v == t && a.op == OpField && a.name == field {
			return true
		}
	}
	return false
}

// half notes that one of two things that belong together is done.
func (r *flightRule) half(st *State, p *Term) {
	if st.mon.flag("half") {
		delete(st.mon, "half")
		return
	}
	st.mon.set("half", p)
}

func (r *flightRule) period(e *Engine, st *State, d *Term) {
	if isField(st, d, r.ro.period) {
		if p := st.mon.get("expire"); p != nil {
			st.mon.set("period", e.ts.mk(OpApp, "period", nil, p))
		}
	}
}

func (r *flightRule) end(e *Engine, st *State, pos token.Pos, what string) {
	r.chk(true, !st.mon.flag("reg"), ruleStarted, e.curRoot+" "+what, pos, st, "a download was registered but not started")
}

// again checks that a download is started only if no failure is recorded.
func (r *flightRule) again(e *Engine, st *State, where string, pos token.Pos) {
	if r.fn != r.ro.get {
		return
	}
	t := st.mon.get("looked")
	good := t != nil && t.args[0] == r.param(e) && (t.args[1].isApp("none") ||
		e.truth(st, e.eq(t.args[1], e.ts.Int(200))) == Yes || e.truth(st, e.eq(t.args[1], e.ts.Int(0))) == Yes)
	r.chk(false, good, ruleReuse, where, pos, st, "a download is started although a failure may be recorded for the path")
}

// fits notes what is known to fit into a store.
func (r *flightRule) fits(e *Engine, st *State, ev *Event) {
	t, yes := ev.a, ev.ok
	for t.isApp("!") {
		t, yes = t.args[0], !yes
	}
	if !t.isApp("<") && !t.isApp("==") {
		return
	}
	for i := range t.args {
		s, f := loadOf(t.args[i])
		if f != r.capacity || s == nil {
			continue
		}
		o := stripConv(t.args[1-i])
		size := o.isApp("(*"+modulePath+"/apt.FileInfo).Size") && len(o.args) == 1
		n, isC := o.int()
		var x *Term
		switch {
		case t.isApp("<") && size && yes == (i == 1): // size < capacity, or not capacity < size
			x = e.ts.mk(OpApp, "fits", nil, s, o.args[0])
		case isC && n == 0 && (t.isApp("==") && yes || t.isApp("<") && i == 1 && !yes), isC && n == 1 && t.isApp("<") && i == 0 && yes:
			x = e.ts.mk(OpApp, "fits", nil, s)
		}
		if x != nil {
			st.mon.add("fits", x)
		}
	}
}

// result checks the status that is recorded.
func (r *flightRule) result(e *Engine, st *State, v *Term, where string, pos token.Pos) {
	is200 := e.truth(st, e.eq(v, e.ts.Int(200)))
	if is200 != No {
		good := st.mon.flag("stored") || st.mon.flag("obsolete")
		r.chk(false, good, ruleResultOK, where, pos, st, "the result may be 200 (%s) although the item was neither stored nor obsolete", v)
		if st.mon.flag("stored") && !st.mon.flag("obsolete") {
			r.chk(false, st.mon.flag("fitted"), ruleResultFits, where, pos, st, "the result is 200 although the item may be larger than the capacity of its store, so that it was evicted at once")
		}
		return
	}
	r.chk(false, !st.mon.flag("stored"), ruleResultBad, where+" of a stored item", pos, st, "records %s for an item that was stored", v)
	n, isC := v.int()
	o, f := loadOf(v)
	for _, resp := range st.mon["resp"] {
		switch statusIs(e, st, resp, 200) {
		case Yes:
			r.chk(false, isC && n == 500, ruleResultBad, where, pos, st, "records %s although the status of the upstream was 200", v)
		case No:
			same := strings.HasSuffix(f, "http.Response.StatusCode") && o == resp || e.truth(st, e.eq(v, e.loaded(resp, "http.Response.StatusCode"))) == Yes
			r.chk(false, same, ruleResultBad, where, pos, st, "records %s instead of the status of the upstream", v)
		default:
			r.chk(false, false, ruleResultBad, where, pos, st, "records %s although the status of the upstream was not looked at", v)
		}
		return
	}
	r.chk(false, isC && n == 500, ruleResultBad, where, pos, st, "records %s although there was no response", v)
}

// writersSeen makes sure that every function that changes a table was
// analysed.
func (rep *Report) writersSeen(p *Program, fields ...string) {
	for _, f := range p.funcs {
		if rep.fns[shortName(f.String())] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch in := in.(type) {
				case *ssa.MapUpdate:
					m = in.Map
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = in.Call.Args[0]
					}
				}
				if m != nil && contains(fields, fieldLoaded(m)) {
					rep.violate("anchor", fnLabel(f)+" changes "+fieldLoaded(m), in.Pos(), "this is reached from none of the entry points that were analysed", nil)
				}
			}
		}
	}
}

func runFlight(p *Program, rep *Report, k09 bool) *cacherRoles {
	ro := findCacher(p, rep)
	if ro == nil {
		return nil
	}
	set := configured(p, rep, ro)
	if !k09 {
		configuredAs(rep, ruleExpire, ro.period, "CachePeriod", true, ro.newC, set)
	}
	sr := findStorage(p, rep)
	if sr == nil {
		return nil
	}
	for _, f := range dlRoots(ro) {
		r := &flightRule{dlBase: dlBase{rep: rep, ro: ro}, fn: f, k09: k09, capacity: sr.capacity, expires: map[int]Tri{}}
		e := dlEngine(p, rep, ro, r)
		old, oldM := e.keepFact, e.keepMap
		e.keepFact = func(t *Term) bool {
			return old(t) || t.isApp(urlmapURL) || t.isApp("==") && t.any(func(x *Term) bool {
				return x.op == OpSym && x.symKind() == "mapval" && fieldOf(x.args[0]) == ro.results
			})
		}
		e.keepMap = func(m *Term) bool { return oldM(m) || fieldOf(m) == ro.dl || m.op == OpAlloc && isChanMap(m.typ) }
		e.runRoot(f, nil)
	}
	rep.writersSeen(p, ro.dl, ro.results)
	return ro
}

func init() {
	register("K09", "typestate dataflow over the SSA form of the download path (registration, ownership, release), with the goroutines it starts",
		"Covers every path of Download, Get and NewCacher and of the goroutines that they start; a panic ends the process. The store's methods are taken as their contracts."+trust,
		"A download is registered only with a new channel, in a critical section in which its path was found to have none, and is started exactly once; the goroutine alone removes the registration, in the same critical section in which it records the result, and then closes that channel, exactly once on every path. Requests are made and the store is changed only within. Get waits on the channel of the path between two attempts, and Download returns it.", func(p *Program, rep *Report) {
			if runFlight(p, rep, true) == nil {
				return
			}
			rep.floor(ruleOneFlight, 2)
			rep.floor(ruleStarted, 2)
			rep.floor(ruleOwner, 2)
			rep.floor(ruleLanding, 5)
			rep.floor(ruleWaits, 2)
			rep.floor(ruleHandOver, 2)
			rep.floor(ruleWithin, 2)
		})
	register("K11", "typestate and value-provenance dataflow over the SSA form of the download path",
		"Covers every path of Download, Get and NewCacher and of the goroutines that they start; that a timer fires is taken for granted."+trust,
		"The status recorded at the end of a download is 200 only after a successful Insert of an item known to be no larger than the capacity (or with capacity zero) or after the item was found not to match what is known; otherwise it is the status of the response if that is not 200, and 500 if there is none or it is 200. Get starts a download only if it found no result other than 200 since it last waited, and returns a recorded one. Every download starts a goroutine that ends only when it is told to stop or after it has removed the result, which it does only after the configured period.", func(p *Program, rep *Report) {
			if runFlight(p, rep, false) == nil {
				return
			}
			rep.floor(ruleResultOK, 1)
			rep.floor(ruleResultFits, 1)
			rep.floor(ruleResultBad, 2)
			rep.floor(ruleReuse, 2)
			rep.floor(ruleExpire, 3)
		})
}
