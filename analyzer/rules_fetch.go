package main

import (
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- M04, M08, M13, M14: the goroutines that download for a mirror

// fetchRule follows one download. "resp" is the latest response and "url"
// what it was asked from, "fail" what failed since the last request, "cause"
// the reason to try again, "mismatch" that what was received was not what is
// expected, "checked" that cancellation was checked for since the last
// request. "open" are responses that are not closed, "slot" is the slot that
// the download was given.
type fetchRule struct {
	mirBase
	prop     string
	fn       *ssa.Function
	reversed bool
	loops    map[*ssa.BasicBlock][]map[string]int // how the variables of loops with requests change
}

const (
	ruleFetched  = "a result without an error has the complete and verified file, or a status that is not 200"
	ruleExpected = "every download knows what it is to fetch and what to expect"
	ruleStoresOK = "only files that were received or that the previous tree recorded with the same checksums are stored"
	ruleLookup   = "the previous tree offers only files whose recorded checksums match"

	ruleBounded   = "downloads are tried again a bounded number of times"
	ruleTransient = "only transient failures and checksum mismatches are tried again"
	ruleElsewhere = "after a checksum mismatch another location is tried"
	ruleInterrupt = "every attempt begins with a check for cancellation"
	ruleUnderCtx  = "requests are made under the context of the update"
	ruleCancelled = "a cancelled download makes no more requests and reports an error"

	ruleOneResult = "every download delivers exactly one result"
	ruleFirstSend = "the result is delivered before the connection slot is given back"
	ruleTruthful  = "the result of a failed download says so"
	ruleRoom      = "the results of all downloads fit into their channel"
	ruleDrained   = "results are received until all downloads have ended"
	ruleCloseEnd  = "the channel of the results is closed after all downloads have ended"
)

func (r *fetchRule) chk(prop string, ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) bool {
	if !strings.Contains(prop, r.prop) {
		return ok
	}
	return r.rep.check(ok, rule, where, pos, st, format, args...)
}

// resultParts are the fields of a result.
type resultParts struct{ err, status, path, fi, file *Term }

func partsOf(e *Engine, st *State, r *Term) resultParts {
	var x resultParts
	t := deref(r.typ)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return x
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Type()
		v := e.cell(st, r, fieldKey(t, i))
		switch {
		case isError(f):
			x.err = v
		case ptrTo(f, "os.File"):
			x.file = v
		case isFileInfoPtr(f):
			x.fi = v
		default:
			if b, ok := f.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				x.status = v
			} else if ok && b.Info()&types.IsString != 0 {
				x.path = v
			}
		}
	}
	return x
}

// resultPtr says whether a value is a pointer to a result.
func resultPtr(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	p, ok := t.typ.Underlying().(*types.Pointer)
	return ok && isResult(p.Elem())
}

// expected are the descriptions that the download was started with.
func (r *fetchRule) expected(e *Engine, st *State) []*Term {
	var l []*Term
	for i, a := range r.fn.Params {
		if isFileInfoPtr(a.Type()) && !(i == 0 && r.fn.Signature.Recv() != nil) {
			l = append(l, e.ts.mk(OpParam, a.Name(), a.Type()))
		}
	}
	for _, v := range r.fn.FreeVars {
		if isFileInfoPtr(v.Type()) {
			l = append(l, e.ts.mk(OpParam, "free:"+v.Name(), v.Type()))
		} else if p, ok := v.Type().Underlying().(*types.Pointer); ok && isFileInfoPtr(p.Elem()) {
			a := e.ts.mk(OpParam, "free:"+v.Name(), v.Type())
			if x := st.mem[a]; x != nil {
				l = append(l, x)
			} else if e.constCell[a] {
				l = append(l, e.ts.mk(OpParam, "given:"+v.Name(), p.Elem()))
			} else {
				l = append(l, e.ts.mk(OpLoad, "", p.Elem(), a))
			}
		}
	}
	return l
}

// slots says whether t is the channel of the connection slots.
func (ro *mirrorRoles) slots(t *Term) bool { return fromField(t, ro.sem) }

// unlimited says whether there is known to be no limit.
func (ro *mirrorRoles) unlimited(e *Engine, st *State) bool {
	for t := range st.facts {
		if ro.slots(t) && e.nilness(st, t) == Yes {
			return true
		}
	}
	return false
}

// underCtx says whether a request is made under the context that the
// download was started with.
func (r *fetchRule) underCtx(c *Call) bool {
	ctx := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			return x.op == OpParam && x.typ != nil && (typeName(x.typ) == "context.Context" || typeName(deref(x.typ)) == "context.Context")
		})
	}
	t := c.args[len(c.args)-1]
	for t.op == OpApp || t.op == OpSym {
		n := t.name
		if t.op == OpSym {
			n = t.symKind()
		}
		switch n {
		case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
			return ctx(t.args[1])
		case "net/http.NewRequestWithContext":
			return ctx(t.args[0])
		}
		return false
	}
	return false
}

func (r *fetchRule) Call(e *Engine, st *State, c *Call) Action {
	if isRequest(c.name) {
		where, pos := e.inFn(st)+" makes a request", c.pos()
		r.chk("M13", st.mon.flag("checked"), ruleInterrupt, where, pos, st, "there is no check for cancellation since the last request")
		r.chk("M13", r.underCtx(c), ruleUnderCtx, where, pos, st, "the request is not made under the context of the update")
		r.chk("M13", !st.mon.flag("cancelled"), ruleCancelled, where, pos, st, "makes a request although it was cancelled")
		u := requestURL(e, st, c)
		if u != nil && st.mon.get("cause") == e.mark("mismatch") {
			r.chk("M13", st.mon.get("url") != u, ruleElsewhere, where, pos, st, "asks %s again, which answered with other data than expected", u)
		}
		r.chk("M08", st.mon.flag("slot") || st.mon.flag("nolimit"), ruleSlotHeld, where, pos, st, "no connection slot is held, although there may be a limit")
		delete(st.mon, "checked")
		delete(st.mon, "cause")
		delete(st.mon, monSynced)
		delete(st.mon, monFailed)
		delete(st.mon, "resp")
		delete(st.mon, "url")
		if u != nil {
			st.mon.set("url", u)
		}
		st.mon.set("asked", e.ts.True)
	}
	if c.name == "(io.ReadCloser).Close" || c.name == "(io.Closer).Close" {
		if o, f := loadOf(stripConv(c.args[0])); strings.HasSuffix(f, "http.Response.Body") {
			st.mon.del("open", o)
		}
	}
	return r.action(c)
}

func (r *fetchRule) After(e *Engine, st *State, c *Call, res *Term) {
	syncEvents(e, st, c, res)
	if isRequest(c.name) {
		cs := comps(res)
		if e.nilness(st, cs[0]) != Yes {
			st.mon.set("open", cs[0])
			st.mon.set("resp", cs[0])
		}
		if len(cs) == 2 && e.nilness(st, cs[1]) == No {
			st.mon.set("cause", e.mark("transient"))
		}
	}
	if strings.HasSuffix(c.name, "context.Context).Err") {
		if e.nilness(st, res) == No {
			st.mon.set("cancelled", e.ts.True)
		} else {
			st.mon.set("checked", e.ts.True)
		}
		return
	}
	if c.com == nil || c.inlined {
		return
	}
	rt := c.com.Signature().Results()
	n := rt.Len()
	cs := comps(res)
	if n == 0 || !isError(rt.At(n-1).Type()) || len(cs) != n || mayFail[c.name] || pureFuncs[c.name] || purePkgs[pkgOf(c.name)] && !impureInPure[c.name] || strings.Contains(c.name, "cybozu-go/log") || strings.HasPrefix(c.name, "fmt.") {
		return
	}
	if _, ok := c.in.(*ssa.Defer); ok {
		return
	}
	if e.nilness(st, cs[n-1]) != Yes {
		if !st.mon.flag(monFailed) {
			st.mon.add(monFailed, e.ts.mk(OpApp, "fail:"+e.inFn(st)+" calls "+shortName(c.name)+"\x00"+itoa(int(c.pos())), nil))
		}
		for _, a := range c.args {
			if bodyOf(a) != nil {
				st.mon.set("cause", e.mark("transient"))
			}
		}
	}
}

// done says whether a select waits for the cancellation of a context.
func doneCase(e *Engine, st *State, in ssa.Instruction) bool {
	s, ok := in.(*ssa.Select)
	if !ok {
		return false
	}
	for _, x := range s.States {
		if x.Dir == types.RecvOnly && isDone(e.val(st, x.Chan)) {
			return true
		}
	}
	return false
}

func isDone(t *Term) bool {
	return t.isApp("(context.Context).Done") || t.isCall("(context.Context).Done")
}

func (r *fetchRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	switch ev.kind {
	case EvSelect, EvPoll:
		if doneCase(e, st, ev.in) {
			st.mon.set("checked", e.ts.True)
		}
	case EvRecv:
		if isDone(ev.a) {
			st.mon.set("cancelled", e.ts.True)
		}
		if r.ro.slots(ev.a) && r.reversed {
			r.give(e, st, pos)
		}
	case EvAssume, EvTest:
		if r.ro.unlimited(e, st) {
			st.mon.set("nolimit", e.ts.True)
		}
		if ev.a.isApp(aptSame) && !ev.ok {
			if _, _, _, ok := copied(ev.a.args[1]); ok {
				st.mon.set("mismatch", e.ts.True)
				st.mon.set("cause", e.mark("mismatch"))
			}
		}
		if resp := st.mon.get("resp"); resp != nil {
			if lo, _, hl, _ := e.bounds(st, e.loaded(resp, "http.Response.StatusCode")); hl && lo >= 500 {
				st.mon.set("cause", e.mark("transient"))
			}
		}
	case EvSend:
		if r.ro.slots(ev.a) {
			if !r.reversed {
				r.give(e, st, pos)
			}
			return
		}
		if resultPtr(ev.b) {
			r.sent(e, st, ev.b, pos)
		}
	case EvBack:
		r.again(e, st, ev, pos)
	}
	if rootReturn(st, ev) {
		p := r.fn.Pos()
		r.chk("M14", st.mon.flag("sent"), ruleOneResult, e.curRoot+" ends", p, st, "ends without delivering a result")
		r.chk("M08", !st.mon.flag("slot") || st.mon.flag("nolimit"), ruleSlotBack, e.curRoot+" ends", p, st, "ends without giving its connection slot back")
		r.chk("M08", !st.mon.flag("open"), ruleSlotHeld, e.curRoot+" ends", p, st, "ends although a response may still be open")
	}
}

// give: the slot is given back.
func (r *fetchRule) give(e *Engine, st *State, pos token.Pos) {
	where := e.inFn(st) + " gives the slot back"
	r.chk("M08", st.mon.flag("slot"), ruleSlotBack, where, pos, st, "gives a slot back that it does not hold")
	r.chk("M08", !st.mon.flag("open"), ruleSlotHeld, where, pos, st, "gives the slot back although a response may still be open")
	r.chk("M14", st.mon.flag("sent"), ruleFirstSend, where, pos, st, "gives the slot back before the result is delivered")
	delete(st.mon, "slot")
}

// sent: a result is delivered.
func (r *fetchRule) sent(e *Engine, st *State, res *Term, pos token.Pos) {
	where := e.inFn(st) + " delivers a result"
	r.chk("M14", !st.mon.flag("sent"), ruleOneResult, where, pos, st, "a second result is delivered")
	st.mon.set("sent", e.ts.True)
	x := partsOf(e, st, res)
	if x.err != nil && e.nilness(st, x.err) == No {
		r.chk("M04", true, ruleFetched, where+": error", pos, st, "")
		r.chk("M13", true, ruleCancelled, where, pos, st, "")
		r.chk("M14", true, ruleTruthful, where, pos, st, "")
		return
	}
	r.chk("M13", !st.mon.flag("cancelled"), ruleCancelled, where, pos, st, "the result has no error although the download was cancelled")
	for _, f := range st.mon[monFailed] {
		w, p := failWhere(f)
		r.chk("M14", false, ruleTruthful, w, p, st, "fails, but the result has no error")
	}
	resp := st.mon.get("resp")
	r.chk("M14", resp != nil, ruleTruthful, where, pos, st, "the result has no error although there was no response")
	if resp == nil {
		return
	}
	code := e.loaded(resp, "http.Response.StatusCode")
	r.chk("M14", x.status != nil && (x.status == code || e.truth(st, e.eq(x.status, code)) == Yes), ruleTruthful, where+": status", pos, st, "the status of the result (%s) is not that of the latest response", x.status)
	if x.status != nil && e.truth(st, e.eq(x.status, e.ts.Int(200))) == No {
		r.chk("M14", !st.mon.flag("mismatch"), ruleTruthful, where+": mismatch", pos, st, "data that did not match were received, but that is not reported")
		r.chk("M04", true, ruleFetched, where+": another status", pos, st, "")
		return
	}
	r.chk("M04", statusIs(e, st, resp, 200) == Yes, ruleFetched, where+": status", pos, st, "the status of the latest response may be other than 200")
	ok := false
	var dst, src, p *Term
	if x.fi != nil {
		dst, src, p, ok = copied(x.fi)
	}
	if !r.chk("M04", ok, ruleFetched, where+": checksums", pos, st, "the checksums (%s) are not those computed while the file was received", x.fi) || !ok {
		return
	}
	r.chk("M04", bodyOf(src) == resp, ruleFetched, where+": source", pos, st, "the checksums are of %s, not of the whole body of the latest response", src)
	r.chk("M04", x.file == dst, ruleFetched, where+": file", pos, st, "the file (%s) is not the one that the response was copied to (%s)", x.file, dst)
	r.chk("M03M04", st.mon.has(monSynced, dst), ruleSyncFile, where+": flushed", pos, st, "the file has not been synced after its last write")
	expected := r.expected(e, st)
	named := false
	for _, v := range expected {
		good := e.nilness(st, v) == Yes || e.truth(st, e.ts.mk(OpApp, aptSame, nil, v, x.fi)) == Yes
		r.chk("M04", good, ruleFetched, where+": expected checksum", pos, st, "the file may not match the checksum that the index gave for it (%s)", v)
		named = named || p.isApp(aptPath) && p.args[0] == v
	}
	for _, a := range r.fn.Params {
		named = named || p.op == OpParam && p.name == a.Name()
	}
	for _, a := range r.fn.FreeVars {
		v := e.ts.mk(OpParam, "free:"+a.Name(), a.Type())
		named = named || p == v || (p.op == OpLoad || p.op == OpSym && p.symKind() == "load") && len(p.args) > 0 && p.args[0] == v
	}
	r.chk("M04", named, ruleFetched, where+": path", pos, st, "the file is received as %s, which is not what the download is for", p)
	r.chk("M04", x.path == nil || x.path == p, ruleFetched, where+": name", pos, st, "the result is for %s, the file for %s", x.path, p)
}

// ---- retries

// again is called at the end of every round of a loop.
func (r *fetchRule) again(e *Engine, st *State, ev *Event, pos token.Pos) {
	if r.prop != "M13" || ev.block == nil {
		return
	}
	h := ev.block
	fi := e.p.info(h.Parent())
	if !r.asks(fi.loopBody[h]) || isRangeLoop(h) {
		return
	}
	where := fnLabel(h.Parent()) + " tries again"
	if st.mon.flag("asked") {
		r.chk("M13", st.mon.flag("cause") || st.mon.flag("mismatch"), ruleTransient, where, pos, st, "makes another attempt although there was neither a transient failure nor a checksum mismatch")
	}
	fr := st.top()
	rec := fr.loops[h]
	k := -1
	for i, b := range h.Preds {
		if b == ev.in.Block() {
			k = i
		}
	}
	d := map[string]int{}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r.change(e, st, d, itoa(e.p.iid(ph)), rec.phis[ph], e.val(st, ph.Edges[k]), rec.sat)
	}
	for a, v := range rec.mem {
		if a.op != OpApp {
			r.change(e, st, d, "mem"+itoa(a.id), v, st.mem[a], rec.sat)
		}
	}
	r.loops[h] = append(r.loops[h], d)
}

// change notes whether a variable makes progress (1), stays (0) or changes
// otherwise (-1) in one round. Progress is an increasing or decreasing number
// that is known to be bounded, a shorter slice, or a flag being set.
func (r *fetchRule) change(e *Engine, st *State, d map[string]int, k string, old, new *Term, sat bool) {
	if old == nil || new == nil {
		if new != old {
			d[k+"+"], d[k+"-"] = -1, -1
		}
		return
	}
	if old == new {
		return
	}
	up, down := -1, -1
	if a, ok := old.int(); ok {
		if b, ok := new.int(); ok {
			if b > a {
				up = 1
			} else {
				down = 1
			}
		}
	}
	lo, hi, hl, hh := e.bounds(st, new)
	if l, h, okl, okh := e.bounds(st, old); true {
		if !hl {
			lo, hl = l, okl
		}
		if !hh {
			hi, hh = h, okh
		}
	}
	for n := int64(1); n <= 3; n++ {
		if plus(e, old, n) == new && (hh && hi < 1<<40 || r.below(st, new)) {
			up = 1
		}
		if plus(e, old, -n) == new && hl && lo > -1<<40 {
			down = 1
		}
	}
	if old.op == OpSlice && new.op == OpSlice && len(new.args) < len(old.args) {
		down = 1
	}
	if new.isApp("slice") && new.args[0] == old {
		if n, ok := new.args[1].int(); ok && n > 0 {
			down = 1
		}
	}
	if e.truth(st, old) == No && new == e.ts.True {
		up = 1
	}
	d[k+"+"], d[k+"-"] = up, down
}

// below says whether t is known to be below something that does not change.
func (r *fetchRule) below(st *State, t *Term) bool {
	for f, x := range st.facts {
		if f.isApp("<") && x.truth == Yes && f.args[0] == t && !f.args[1].any(func(y *Term) bool {
			return y.op == OpSym && (strings.HasPrefix(y.symKind(), "phi") || strings.HasPrefix(y.symKind(), "memphi"))
		}) {
			return true
		}
	}
	return false
}

// asks says whether a loop makes requests.
func (r *fetchRule) asks(body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if c.Common().IsInvoke() {
				if m := c.Common().Method; isRequest("(" + typeName(c.Common().Value.Type()) + ")." + m.Name()) {
					return true
				}
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil {
				if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
			}
			if g != nil && (isRequest(g.String()) || r.rep.p.requests(g)) {
				return true
			}
			if _, ok := c.Common().Value.(*ssa.Builtin); g == nil && !ok {
				return true // an unknown function
			}
		}
	}
	return false
}

// isRangeLoop says whether a loop walks a map, a string or a channel.
func isRangeLoop(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// endless says whether a loop may go on for ever: there is no order of its
// variables in which every round makes progress in one and leaves those
// before it as they are.
func endless(rounds []map[string]int) bool {
	left := rounds
	for len(left) > 0 {
		ok := map[string]bool{}
		for _, d := range left {
			for k, n := range d {
				if n == 1 {
					ok[k] = true
				}
			}
		}
		for _, d := range left {
			for k, n := range d {
				if n < 0 {
					delete(ok, k)
				}
			}
		}
		var next []map[string]int
		for _, d := range left {
			good := false
			for k := range ok {
				good = good || d[k] == 1
			}
			if !good {
				next = append(next, d)
			}
		}
		if len(next) == len(left) {
			return true
		}
		left = next
	}
	return false
}

func fetchRoots(p *Program, rep *Report, ro *mirrorRoles, prop string, reversed bool) {
	for _, f := range ro.downloads(rep) {
		if o := os.Getenv("APTVERIF_ROOT"); o != "" && !strings.Contains(f.String(), o) {
			continue
		}
		r := &fetchRule{mirBase: mirBase{rep: rep, ro: ro}, prop: prop, fn: f, reversed: reversed, loops: map[*ssa.BasicBlock][]map[string]int{}}
		e := mirEngine(p, rep, ro, r)
		e.follow = nil
		e.joinAt = 24
		e.keepFact = func(t *Term) bool {
			if t.isApp(aptSame) || t.op == OpParam && isFileInfoPtr(t.typ) || ro.slots(t) {
				return true
			}
			_, f := loadOf(t)
			return strings.HasSuffix(f, "http.Response.StatusCode")
		}
		e.runRoot(f, func(st *State, args []*Term) {
			st.mon.set("slot", e.ts.True)
			for _, v := range f.FreeVars {
				a := e.ts.mk(OpParam, "free:"+v.Name(), v.Type())
				if p, ok := v.Type().Underlying().(*types.Pointer); ok && isFileInfoPtr(p.Elem()) && e.constCell[a] {
					st.mem[a] = e.ts.mk(OpParam, "given:"+v.Name(), p.Elem())
				}
			}
		})
		for h, rounds := range r.loops {
			rep.check(!endless(rounds), ruleBounded, fnLabel(h.Parent())+" tries again", h.Instrs[0].Pos(), newState(), "a round of this loop may leave everything that bounds it as it was")
		}
	}
}

// findDownloads finds the functions of the mirror that are started as
// goroutines and make requests.
func findDownloads(p *Program, ro *mirrorRoles) {
	for _, f := range p.funcs {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/mirror") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				_, isGo := in.(*ssa.Go)
				g := com.StaticCallee()
				if isGo && g != nil && p.requests(g) {
					ro.dl[g] = true
				}
				if !isGo && g != nil && !p.inRepo(g) {
					for _, a := range com.Args {
						switch a := a.(type) {
						case *ssa.MakeClosure:
							if h, ok := a.Fn.(*ssa.Function); ok && p.requests(h) {
								ro.dl[h] = true
							}
						case *ssa.Function:
							if p.requests(a) {
								ro.dl[a] = true
							}
						}
					}
				}
			}
		}
	}
}
