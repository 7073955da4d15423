package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- K15

// refreshRule follows the goroutines that refresh Release files and the
// expectations that downloads are started with.
//
// In a goroutine "target" is the item that was being cached where it was
// started. "tick" says that the interval has passed and "did" what has been
// downloaded since. In a download "want" is what was known for the item when
// it was started, and "refresh" says that a refresh started it.
type refreshRule struct {
	dlBase
	fn         *ssa.Function
	refreshers map[int]Tri // by where they are started
	later      *[]pendingSite
}

// pendingSite is a check that depends on what a goroutine does.
type pendingSite struct {
	rule, where, msg string
	pos              token.Pos
	sites            []int // one of these has to be a refresher, or
	unless           bool  // none of these may be one
	st               *State
}

const (
	ruleRefresh  = "a Release file is refreshed at every interval until shutdown"
	ruleStartsRf = "refreshing starts when a Release file is first cached and is not listed"
	ruleReplaces = "a refresh does not require that the contents stay the same"
	ruleExpects  = "other downloads are started with the checksum that is known"
	ruleUncond   = "only refreshing starts downloads without a checksum"
)

func (r *refreshRule) tick(st *State, a *Term) bool {
	if a.isCall("time.After") || a.isCall("time.Tick") {
		return isField(st, a.args[0], r.ro.interval)
	}
	o, f := loadOf(a)
	return strings.HasSuffix(f, "time.Ticker.C") && o.isCall("time.NewTicker") && isField(st, o.args[0], r.ro.interval)
}

func baseIs(e *Engine, st *State, p *Term, s string) Tri {
	return e.truth(st, e.eq(e.ts.mk(OpApp, "path.Base", types.Typ[types.String], p), e.ts.Str(s)))
}

// detached is the item whose detached signature p is.
func detached(p *Term) *Term {
	if p.isApp("concat") {
		if s, ok := p.args[1].str(); ok && s == ".gpg" {
			return p.args[0]
		}
	}
	return nil
}

func (r *refreshRule) own(st *State) *Term { return st.mon.get("own") }

func (r *refreshRule) site(st *State) int {
	if t := st.mon.get("site"); t != nil {
		n, _ := t.int()
		return int(n)
	}
	return -1
}

// round checks that everything was downloaded since the interval passed.
func (r *refreshRule) round(e *Engine, st *State, pos token.Pos) {
	p := st.mon.get("target")
	if p == nil || !st.mon.flag("tick") {
		return
	}
	where := e.inFn(st) + " refreshes"
	ok := st.mon.has("did", p)
	if ok && baseIs(e, st, p, "Release") != No {
		sig := false
		for _, x := range st.mon["did"] {
			sig = sig || detached(x) == p
		}
		r.rep.check(sig, ruleRefresh, where+": signature", pos, st, "an interval passes without a download of the detached signature of %s", p)
	}
	r.rep.check(ok, ruleRefresh, where, pos, st, "an interval passes without a download of %s", p)
	if ok && r.refreshers[r.site(st)] == Unknown {
		r.refreshers[r.site(st)] = Yes
	}
}

// booted checks that what was in the store and is not listed is refreshed.
func (r *refreshRule) booted(e *Engine, st *State, pos token.Pos) {
	p := st.mon.get("new")
	if r.fn != r.ro.newC || p == nil {
		return
	}
	r.started(e, st, p, "a cached Release file is found", pos, "a Release file that is cached and not listed may be found, but no goroutine that refreshes it is started")
	delete(st.mon, "new")
	delete(st.mon, "spawned")
}

// started checks that a goroutine that refreshes p was started.
func (r *refreshRule) started(e *Engine, st *State, p *Term, where string, pos token.Pos, msg string) {
	if baseIs(e, st, p, "Release") == No && baseIs(e, st, p, "InRelease") == No {
		return
	}
	var l []int
	for _, x := range st.mon["spawned"] {
		n, _ := x.int()
		l = append(l, int(n))
	}
	*r.later = append(*r.later, pendingSite{rule: ruleStartsRf, where: where, pos: pos, sites: l, st: st.clone(), msg: msg})
}

func (r *refreshRule) Call(e *Engine, st *State, c *Call) Action {
	if c.fn == r.ro.insert {
		_, _, p, ok := copied(c.args[2])
		w := st.mon.get("want")
		if ok && w != nil && w.args[0] == p {
			where := e.inFn(st) + " stores an item"
			v := w.args[1]
			good := v.isApp("none") || e.nilness(st, v) == Yes || e.truth(st, e.ts.mk(OpApp, aptSame, nil, v, c.args[2])) == Yes
			r.rep.check(good, ruleExpects, where, c.pos(), st, "the data may not match the checksum that was known when the download was started (%s)", v)
		}
	}
	return r.action(c)
}

func (r *refreshRule) After(e *Engine, st *State, c *Call, res *Term) {
	switch c.name {
	case "(*time.Ticker).Stop", "(*time.Ticker).Reset":
		if st.mon.flag("rounds") {
			st.mon.add("stopped", c.args[0])
		}
	}
	if c.fn == r.ro.insert {
		_, _, p, ok := copied(c.args[2])
		if ok && p == r.own(st) && e.nilness(st, comps(res)[0]) == Yes {
			st.mon.add("stored", p)
		}
	}
}

func (r *refreshRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	goro := st.frames[0].goro
	switch ev.kind {
	case EvMapLookup:
		i := e.findMap(st, ev.a, ev.b)
		has := i >= 0 && st.maps[i].ok == Yes
		none := i < 0 || st.maps[i].ok == No
		switch tableOf(st, ev.a) {
		case r.ro.dl:
			if has {
				st.mon.add("did", ev.b)
			}
		case r.ro.info:
			if p := r.own(st); p != nil && p == ev.b && goro {
				if has && !st.mon.flag("recorded") {
					st.mon.set("listed", p)
				} else if none {
					st.mon.set("absent", p)
				}
			}
			if !goro {
				r.booted(e, st, pos)
				v := ev.c
				if none {
					v = e.ts.mk(OpApp, "none", nil)
					st.mon.set("new", ev.b)
				}
				st.mon.set("known", e.ts.mk(OpApp, "known", nil, ev.b, v))
			}
		}
	case EvMapUpdate:
		if p := r.own(st); p != nil && p == ev.b && goro && tableOf(st, ev.a) == r.ro.info {
			if _, _, q, ok := copied(ev.c); ok && q == p {
				st.mon.set("recorded", p)
			}
		}
		if tableOf(st, ev.a) != r.ro.dl {
			return
		}
		where := e.inFn(st) + " registers a download"
		if goro {
			st.mon.add("did", ev.b)
			q := ev.b
			if d := detached(q); d != nil {
				q = d
			}
			good := r.own(st) == nil && st.mon.flag("tick") && q == st.mon.get("target")
			if q == ev.b {
				good = good && (baseIs(e, st, q, "Release") == Yes || baseIs(e, st, q, "InRelease") == Yes)
			} else {
				good = good && baseIs(e, st, q, "Release") == Yes
			}
			r.rep.check(good, ruleUncond, where, pos, st, "a download of %s is started that is not the periodic refresh of a Release file", ev.b)
			st.mon.set("rfdl", ev.b)
			return
		}
		switch r.fn {
		case r.ro.get:
			k := st.mon.get("known")
			good := k != nil && k.args[0] == ev.b
			r.rep.check(good, ruleExpects, where, pos, st, "what is known for %s has not been looked up", ev.b)
			if good {
				st.mon.set("reg", k)
			}
		case r.ro.newC:
			r.rep.violate(ruleUncond, where, pos, "a download is started before anything has asked for it", st.trace)
		}
	case EvAssume:
		if ev.a.isApp(aptSame) && !ev.ok && r.own(st) != nil {
			if _, _, p, ok := copied(ev.a.args[1]); ok && p == r.own(st) {
				st.mon.set("mismatch", p)
			}
		}
	case EvRecv:
		if ev.a.isApp("(context.Context).Done") || ev.a.isCall("(context.Context).Done") {
			st.mon.set("ctxdone", e.ts.True)
		}
		if !goro || r.own(st) != nil {
			return
		}
		if r.tick(st, ev.a) {
			r.round(e, st, pos)
			st.mon.set("rounds", e.ts.True)
			st.mon.set("tick", e.ts.True)
			delete(st.mon, "did")
			o, _ := loadOf(ev.a)
			r.rep.check(o == nil || !st.mon.has("stopped", o), ruleRefresh, e.inFn(st)+" waits for the interval", pos, st, "the ticker was stopped or changed")
		}
		if st.mon.flag("rounds") {
			where := e.inFn(st) + " waits"
			sel, ok := ev.in.(*ssa.Select)
			stop := false
			if ok {
				stop = !sel.Blocking
				for _, s := range sel.States {
					if t := e.val(st, s.Chan); t.isApp("(context.Context).Done") || t.isCall("(context.Context).Done") {
						stop = true
					}
				}
			}
			r.rep.check(stop, ruleRefresh, where, pos, st, "waits for %s without being stopped by the shutdown", ev.a)
		}
	case EvSpawn:
		site := r.ro.p.iid(ev.in)
		st.mon.add("spawned", e.ts.Int(int64(site)))
		delete(st.mon, "started")
		if p := r.own(st); p != nil {
			if !st.mon.has("absent", p) || st.mon.has("listed", p) {
				*r.later = append(*r.later, pendingSite{rule: ruleStartsRf, where: e.inFn(st) + " starts a goroutine", pos: pos, sites: []int{site}, unless: true, st: st.clone(),
					msg: "refreshing is started although it may have been started before or an index lists the file"})
			}
		}
	case EvForget:
		if p := st.mon.get("new"); p != nil && p.any(func(x *Term) bool { return x == ev.a }) {
			r.booted(e, st, pos)
		}
	case EvReturn:
		if rootReturn(st, ev) && r.fn == r.ro.newC && e.nilness(st, errOf(ev.fn, ev.a)) != No {
			r.booted(e, st, pos)
		}
	case EvSpawnEnter:
		own, rf, reg := r.own(st), st.mon.get("rfdl"), st.mon.get("reg")
		var target *Term
		switch {
		case own != nil:
			target = own
		case r.fn == r.ro.newC:
			target = st.mon.get("new")
		}
		for k := range st.mon {
			if k != "\x00keep" {
				delete(st.mon, k)
			}
		}
		keep := func(k string, t *Term) {
			if t != nil {
				st.mon.set(k, t)
				st.mon["\x00keep"] = append(append([]*Term(nil), st.mon["\x00keep"]...), t)
				st.mon["\x00keep"] = append(st.mon["\x00keep"], t.args...)
			}
		}
		st.mon.set("site", e.ts.Int(int64(r.ro.p.iid(ev.in))))
		switch {
		case rf != nil:
			keep("own", rf)
			keep("refresh", rf)
		case reg != nil:
			keep("own", reg.args[0])
			keep("want", reg)
		case r.fn == r.ro.download && own == nil && len(st.chain) == 1:
			keep("own", paramOf(e, r.fn))
		default:
			keep("target", target)
		}
	case EvSpawnExit:
		if ev.panics {
			return
		}
		if st.mon.flag("rounds") {
			r.rep.check(st.mon.flag("ctxdone"), ruleRefresh, "refreshing ends", pos, st, "ends although it is not told to stop")
		}
		p := r.own(st)
		if p == nil {
			return
		}
		if st.mon.flag("refresh") && st.mon.flag("mismatch") {
			r.rep.check(st.mon.has("stored", p), ruleReplaces, "the download goroutine ends", pos, st, "a refresh is dropped because its contents are not what is known")
		} else if st.mon.flag("refresh") {
			r.rep.oblige(ruleReplaces, "the download goroutine ends", pos)
		}
		if !st.mon.has("stored", p) || st.mon.has("listed", p) || e.truth(st, e.ts.mk(OpApp, aptIsMeta, types.Typ[types.Bool], p)) == No {
			return
		}
		r.started(e, st, p, "a Release file is cached", pos, "a Release file that is not listed may have been cached for the first time, but no goroutine that refreshes it is started")
	}
}

func paramOf(e *Engine, fn *ssa.Function) *Term {
	for i, a := range fn.Params {
		if i > 0 && a.Type().Underlying().String() == "string" {
			return e.ts.mk(OpParam, a.Name(), a.Type())
		}
	}
	return nil
}

func init() {
	register("K15", "typestate dataflow over the SSA form of the download path and of the goroutines that it starts, with value provenance for the expected checksums",
		"Covers every path of Download, Get and NewCacher and of the goroutines that they start; that a ticker ticks and that IsMeta holds for Release files (A08) is taken for granted. What Download is given is its caller's business."+trust,
		"When a Release or InRelease file is stored and was not known before, a goroutine is started that on every tick of a ticker with the configured interval starts a download of the file, and for Release of its .gpg, or finds one in progress, and that ends only at shutdown; it is not started otherwise, and every wait in it ends at shutdown. A download started by it is never dropped for not matching what is known. Every other download stores only data that match the checksum that was known for the path where it was started.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			if ro == nil {
				return
			}
			set := configured(p, rep, ro)
			configuredAs(rep, ruleRefresh, ro.interval, "CheckInterval", true, ro.newC, set)
			rf := map[int]Tri{}
			var later []pendingSite
			for _, f := range dlRoots(ro) {
				r := &refreshRule{dlBase: dlBase{rep: rep, ro: ro}, fn: f, refreshers: rf, later: &later}
				e := dlEngine(p, rep, ro, r)
				old, oldM := e.keepFact, e.keepMap
				e.keepFact = func(t *Term) bool {
					return old(t) || t.isApp("==") && (t.args[0].isApp("path.Base") || t.args[1].isApp("path.Base")) || t.isApp("path.Base")
				}
				e.keepMap = func(m *Term) bool { return oldM(m) || fieldOf(m) == ro.dl || m.op == OpAlloc && isChanMap(m.typ) }
				e.runRoot(f, nil)
			}
			for _, x := range later {
				ok := false
				for _, s := range x.sites {
					ok = ok || rf[s] == Yes
				}
				rep.check(ok != x.unless, x.rule, x.where, x.pos, x.st, "%s", x.msg)
			}
			rep.floor(ruleRefresh, 5)
			rep.floor(ruleStartsRf, 1)
			rep.floor(ruleReplaces, 1)
			rep.floor(ruleExpects, 2)
			rep.floor(ruleUncond, 1)
		})
}
