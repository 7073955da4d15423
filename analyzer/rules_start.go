package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- M04, M08, M14: how a mirror starts downloads and receives their results

// startRule follows the update. "slot" is a connection slot that was taken
// for the next download. "made" are channels of results, "producing" those
// that goroutines of an environment (channel, environment) may still send to,
// "raw" those that other goroutines send to, "closed" and "drained" those
// that were closed and received to the end.
type startRule struct {
	mirBase
	prop      string
	fn        *ssa.Function
	reversed  bool
	owners    map[*ssa.Function]bool
	slots     slotRule // filling the channel of slots
	got, sent slotRule // results that were received, downloads that were started
}

func (r *startRule) chk(prop string, ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) bool {
	if !strings.Contains(prop, r.prop) {
		return ok
	}
	return r.rep.check(ok, rule, where, pos, st, format, args...)
}

const (
	ruleMirLimit = "there are exactly as many connection slots as configured, or no limit if there is none"
	ruleAllOf    = "the update succeeds only if all of its goroutines do"
	ruleRecorded = "what is recorded for a stored file describes that file"
)

// lookup says whether a call looks up files of the previous tree.
func (ro *mirrorRoles) isLookup(name string) bool {
	for _, m := range ro.methods {
		if m.String() == name && returnsInfo(m) {
			return true
		}
	}
	return false
}

// returnsInfo says whether a method returns a description and a path.
func returnsInfo(m *ssa.Function) bool {
	rt := m.Signature.Results()
	return rt.Len() == 2 && isFileInfoPtr(rt.At(0).Type()) && rt.At(1).Type().Underlying().String() == "string"
}

// storing says whether a call stores a file in a tree, and which one.
func storing(c *Call) bool {
	return c.fn != nil && c.fn.Signature.Recv() != nil && typeName(deref(c.fn.Signature.Recv().Type())) == mirStorage && len(c.args) == 3 && isFileInfoPtr(c.args[1].typ) && c.args[2].typ != nil && c.args[2].typ.Underlying().String() == "string"
}

func storesFile(m *ssa.Function) bool {
	return len(m.Params) == 3 && isFileInfoPtr(m.Params[1].Type()) && m.Params[2].Type().Underlying().String() == "string"
}

func (r *startRule) Call(e *Engine, st *State, c *Call) Action {
	if storing(c) && !(r.fn != r.ro.update && c.fn == r.fn) {
		r.store(e, st, c)
	}
	if (c.fn == r.ro.update || c.fn == r.ro.newM) && c.fn != r.fn {
		return ActOpaque
	}
	act := r.action(c)
	if act == ActPure || c.fn == nil || !r.rep.p.inRepo(c.fn) {
		return act
	}
	if r.prop != "M08" && r.owners[c.fn] && c.fn != r.fn || r.prop != "M04" && !r.rep.p.concurrent(c.fn) {
		// neither uses channels nor starts anything, or is looked at itself
		return ActHavoc
	}
	return act
}

// resultOwners are the functions that make channels of results and use them.
func resultOwners(p *Program) map[*ssa.Function]bool {
	owners := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || owners[f] {
			return
		}
		passed := f.Parent() == nil
		if rt := f.Signature.Results(); passed {
			passed = false
			for i := 0; i < rt.Len(); i++ {
				passed = passed || resultChanType(rt.At(i).Type())
			}
			if !passed {
				owners[f] = true
				return
			}
		} else {
			add(f.Parent())
			return
		}
		n := 0
		for _, g := range p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
						add(g)
						n++
					}
				}
			}
		}
		if n == 0 {
			owners[f] = true
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeChan); ok && resultChanType(m.Type()) {
					add(f)
				}
			}
		}
	}
	return owners
}

func resultChanType(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	p, ok := c.Elem().Underlying().(*types.Pointer)
	return ok && isResult(p.Elem())
}

// concurrent says whether a function, or one that it calls, uses channels or
// starts goroutines.
func (p *Program) concurrent(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if !p.inRepo(f) {
			return pkgOf(f.String()) == "github.com/cybozu-go/well"
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
					return true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						return true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
						return true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

func (r *startRule) store(e *Engine, st *State, c *Call) {
	where, pos := e.inFn(st)+" stores a file", c.pos()
	r.chk("M04", fromField(c.args[0], r.ro.store), ruleStoresOK, where+": tree", pos, st, "stores in %s, which is not the new tree", c.args[0])
	fi, file := c.args[1], c.args[2]
	if fi.op == OpSym && r.ro.isLookup(fi.symKind()) && fi.symIdx() == 0 {
		// taken over from the previous tree
		ok := file.op == OpSym && file.symIdx() == 1 && strings.Replace(file.name, "#1", "#0", 1) == fi.name && len(fi.args) > 0 && fromField(fi.args[0], r.ro.cur)
		r.chk("M04", ok, ruleStoresOK, where+": file", pos, st, "the file %s is not the one that belongs to %s", file, fi)
		r.chk("M04", e.nilness(st, fi) == No, ruleStoresOK, where+": found", pos, st, "it is not known that the previous tree has the file")
		return
	}
	o, _ := resultOf(fi)
	if !r.chk("M04", o != nil, ruleStoresOK, where+": source", pos, st, "what is stored (%s) was neither received from a download nor found in the previous tree", fi) || o == nil {
		return
	}
	var o2 *Term
	if file.isApp("(*os.File).Name") {
		o2, _ = resultOf(file.args[0])
	}
	r.chk("M04", o2 == o, ruleStoresOK, where+": file", pos, st, "the file (%s) is not the one of the same result (%s)", file, fi)
	r.chk("M04", e.labelled(st, o, "errnil"), ruleStoresOK, where+": error", pos, st, "the download may have failed")
	r.chk("M04", e.labelled(st, o, "ok"), ruleStoresOK, where+": status", pos, st, "the status of the download may be other than 200")
}

func (r *startRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.name == wellWait || c.name == envWait {
		env := e.ts.mk(OpApp, "wellenv", nil)
		if c.name == envWait {
			env = c.args[0]
		}
		for _, x := range append([]*Term(nil), st.mon["producing"]...) {
			if x.args[1] == env {
				st.mon.del("producing", x)
			}
		}
	}
	if r.prop == "M08" && strings.HasSuffix(c.name, "context.Context).Err") && e.nilness(st, res) == No {
		st.mon.set("cancelled", e.ts.True)
	}
}

func (r *startRule) resultChan(t *Term) bool {
	return t != nil && t.typ != nil && resultChanType(t.typ)
}

// given are the values that a goroutine is started with.
func given(e *Engine, st *State, ev *Event) []*Term {
	l := append([]*Term(nil), ev.res...)
	if ev.a != nil {
		for _, a := range ev.a.args {
			l = append(l, a)
			if v := st.mem[a]; v != nil {
				l = append(l, v)
			}
		}
	}
	return l
}

// start: a download is started.
func (r *startRule) start(e *Engine, st *State, ev *Event, pos token.Pos) {
	where := e.inFn(st) + " starts a download"
	// the slot
	r.chk("M08", st.mon.flag("slot") || st.mon.flag("nolimit"), ruleSlotHeld, where, pos, st, "no connection slot was taken, although there may be a limit")
	r.chk("M08", !st.mon.flag("cancelled"), ruleSlotHeld, where+": cancelled", pos, st, "a download is started although the update was cancelled")
	delete(st.mon, "slot")
	if r.prop == "M08" {
		return
	}

	var fis, strs, chans []*Term
	for _, t := range given(e, st, ev) {
		switch {
		case t.typ == nil:
		case isFileInfoPtr(t.typ):
			if e.nilness(st, t) != Yes {
				fis = append(fis, t)
			}
		case t.typ.Underlying().String() == "string":
			strs = append(strs, t)
		}
		if r.resultChan(t) && (t.op != OpAlloc || t.typ.Underlying().String() != "") {
			chans = append(chans, t)
		}
	}
	var list, elem *Term
	for _, fi := range fis {
		if l := elemOf(fi); l != nil {
			list, elem = l, fi
		}
		for _, s := range strs {
			if s.isApp(aptPath) {
				r.chk("M04", s.args[0] == fi, ruleExpected, where+": path", pos, st, "fetches the path of %s, but expects %s", s.args[0], fi)
			}
		}
	}
	if len(fis) == 0 {
		for _, s := range strs {
			if l := elemOf(s); l != nil {
				list, elem = l, s
			}
		}
		ok := list != nil && (list.isApp("(*"+modulePath+"/mirror.MirrConfig).ReleaseFiles") || list.isCall("(*"+modulePath+"/mirror.MirrConfig).ReleaseFiles"))
		r.chk("M04", ok, ruleExpected, where+": checksum", pos, st, "nothing is expected of a file that is not a Release file")
	} else {
		r.chk("M04", true, ruleExpected, where+": checksum", pos, st, "")
	}
	if r.prop != "M14" {
		return
	}
	if !r.chk("M14", len(chans) == 1, ruleDrained, where+": channel", pos, st, "the channel that the result is sent to is not known") || len(chans) != 1 {
		return
	}
	ch := chans[0]
	n := st.mem[e.ts.mk(OpApp, "chancap", nil, ch)]
	room := list != nil && n != nil && n == e.length(st, list, list.typ)
	if n != nil && n.isApp("len") && list == nil {
		for _, t := range append(append([]*Term(nil), fis...), strs...) {
			if e.labelled(st, t, elemLabel(n.args[0])) {
				list, room = n.args[0], true
			}
		}
	}
	if n != nil && list == nil {
		// a list whose elements are known
		if k, ok := n.int(); ok {
			done, _ := r.sent.fill(st, ch)
			m := int64(0)
			if done != nil {
				m, ok = done.int()
			}
			room = ok && m < k
		}
	}
	r.chk("M14", room, ruleRoom, where, pos, st, "the capacity of the channel (%s) is not the number of the files in the list that is worked on (%s)", n, list)
	r.chk("M14", elem == nil || st.mon.get("started") != elem, ruleRoom, where+" once", pos, st, "%s is downloaded twice", elem)
	st.mon.set("started", elem)
	r.chk("M14", !st.mon.has("closed", ch), ruleCloseEnd, where, pos, st, "the channel of the results is closed already")
	st.mon.del("drained", ch)
	if f, _ := r.sent.fill(st, ch); f == nil && n != nil && !st.mon.has("sent:full", ch) && (!st.mon.has("raw", ch) && !st.mon.has("begun", ch) || list == nil) {
		r.sent.setFill(e, st, ch, e.ts.Int(0), n)
	}
	if ev.slot == "go" {
		if !st.mon.has("raw", ch) {
			st.mon.add("raw", ch)
		}
	} else {
		if !st.mon.has("begun", ch) {
			st.mon.add("begun", ch)
		}
		t := e.ts.mk(OpApp, "producing", nil, ch, ev.b)
		if !st.mon.has("producing", t) {
			st.mon.add("producing", t)
		}
	}
	r.chk("M14", !st.mon.has("sent:full", ch), ruleRoom, where+": number", pos, st, "more downloads are started than there is room for")
	if n, rest := r.sent.fill(st, ch); n != nil {
		r.sent.count(e, st, ch, n, rest)
	}
}

func (r *startRule) take(e *Engine, st *State, ev *Event, pos token.Pos) {
	where := e.inFn(st) + " waits for a slot"
	r.chk("M08", !st.mon.flag("slot"), ruleSlotBack, where, pos, st, "takes another slot while it holds one for a download")
	st.mon.set("slot", e.ts.True)
}

// mayWait: something waits for a slot, so that there must be a limit.
func (r *startRule) mayWait(e *Engine, st *State, ch *Term, pos token.Pos) {
	r.chk("M08", e.nilness(st, ch) == No, ruleNoLimit, e.inFn(st)+" waits for a slot", pos, st, "waits for a slot although there may be no limit")
}

func (r *startRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	r.slots.counting(e, st, ev)
	if r.prop == "M14" {
		r.got.counting(e, st, ev)
		r.sent.counting(e, st, ev)
		defer r.tidy(e, st, ev)
	}
	if r.prop == "M14" {
		r.channels(e, st, ev, pos)
	} else if r.prop != "M04" {
		r.taking(e, st, ev, pos)
	}
	switch ev.kind {
	case EvAssume, EvTest:
		if r.prop == "M08" && r.ro.unlimited(e, st) {
			st.mon.set("nolimit", e.ts.True)
		}
		if r.prop == "M04" {
			r.learn(e, st, ev)
		}
	case EvSpawn:
		if ev.a != nil && ev.a.fn != nil && r.rep.p.requests(ev.a.fn) {
			r.ro.dl[ev.a.fn] = true
			r.start(e, st, ev, pos)
			return
		}
	case EvSpawnEnter:
		delete(st.mon, "slot")
		delete(st.mon, "cancelled")
		for _, k := range []string{"producing", "raw", "begun", "drained"} {
			delete(st.mon, k)
		}
	case EvSpawnExit:
		if !ev.panics {
			r.end(e, st, ev.b, pos)
		}
	}
	if rootReturn(st, ev) && (r.fn == r.ro.update || r.fn == r.ro.newM || r.owners[r.fn]) {
		r.end(e, st, errOf(ev.fn, ev.a), r.fn.Pos())
	}
}

// tidy forgets what does not matter any more.
func (r *startRule) tidy(e *Engine, st *State, ev *Event) {
	if ev.kind != EvForget && ev.kind != EvAssume && ev.kind != EvTest {
		return
	}
	gone := func(t *Term) bool {
		return t.any(func(x *Term) bool { return x.op == OpOld || ev.kind == EvForget && x == ev.a })
	}
	for _, s := range []*slotRule{&r.got, &r.sent} {
		for _, x := range append([]*Term(nil), st.mon[s.k("fill")]...) {
			if ev.kind == EvForget {
				break // the loop will say what became of it
			}
			n, rest := x.args[1], x.args[2]
			if gone(n) {
				n = e.ts.Nil
			}
			if gone(rest) {
				rest = e.ts.Nil
			}
			if st.mon.has(s.k("full"), x.args[0]) || n.op == OpNil && rest.op == OpNil {
				s.setFill(e, st, x.args[0], nil, nil)
			} else if n != x.args[1] || rest != x.args[2] {
				s.setFill(e, st, x.args[0], n, rest)
			}
		}
	}
	if t := st.mon.get("started"); t != nil && gone(t) {
		delete(st.mon, "started")
	}
}

// taking follows the slots.
func (r *startRule) taking(e *Engine, st *State, ev *Event, pos token.Pos) {
	switch ev.kind {
	case EvMakeChan:
		if r.slots.limitOf(stripConv(ev.b)) {
			r.slots.setFill(e, st, ev.a, e.ts.Int(0), ev.b)
		}
	case EvStore:
		if ev.a.op == OpField && ev.a.name == r.ro.sem {
			r.limit(e, st, ev.b, pos)
		}
	case EvSelect:
		if s, ok := ev.in.(*ssa.Select); ok {
			for _, x := range s.States {
				if t := e.val(st, x.Chan); r.ro.slots(t) && (x.Dir == types.RecvOnly) != r.reversed {
					r.mayWait(e, st, t, pos)
				}
			}
		}
	case EvSend, EvRecv:
		if n, rest := r.slots.fill(st, ev.a); n != nil && ev.kind == EvSend {
			r.slots.any = true
			r.slots.count(e, st, ev.a, n, rest)
		}
		if isDone(ev.a) {
			st.mon.set("cancelled", e.ts.True)
		}
		if r.ro.slots(ev.a) {
			if (ev.kind == EvRecv) == r.reversed {
				r.back(e, st, pos)
				return
			}
			if ev.slot != "select" {
				r.mayWait(e, st, ev.a, pos)
			}
			r.take(e, st, ev, pos)
		}
	}
}

// channels follows the channels of the results.
func (r *startRule) channels(e *Engine, st *State, ev *Event, pos token.Pos) {
	switch ev.kind {
	case EvMakeChan:
		if r.resultChan(ev.a) {
			st.mon.add("made", ev.a)
		}
	case EvRecv:
		r.receive(e, st, ev, pos)
	case EvSpawn:
		if ev.a != nil && ev.a.fn != nil && r.rep.p.requests(ev.a.fn) || ev.slot == "inline" {
			return
		}
		for _, t := range given(e, st, ev) {
			if r.resultChan(t) && !st.mon.has("shared", t) {
				st.mon.add("shared", t)
			}
		}
	case EvClose:
		if r.resultChan(ev.a) {
			where := e.inFn(st) + " closes the channel of the results"
			delete(st.mon, "started")
			running := st.mon.has("raw", ev.a)
			for _, x := range st.mon["producing"] {
				running = running || x.args[0] == ev.a
			}
			r.chk("M14", !running, ruleCloseEnd, where, pos, st, "downloads may still have to deliver their results")
			st.mon.add("closed", ev.a)
		}
	case EvForget:
		for _, ch := range append([]*Term(nil), st.mon["made"]...) {
			if ch == ev.a {
				r.finished(e, st, ch, pos)
				for _, k := range []string{"closed", "drained", "raw", "begun", "shared", "receiving", "counted"} {
					st.mon.del(k, ch)
				}
				r.got.setFill(e, st, ch, nil, nil)
				r.sent.setFill(e, st, ch, nil, nil)
				st.mon.del("got:full", ch)
				st.mon.del("sent:full", ch)
			}
		}
	}
}

// back: a slot is given back outside of a download.
func (r *startRule) back(e *Engine, st *State, pos token.Pos) {
	r.chk("M08", st.mon.flag("slot"), ruleSlotBack, e.inFn(st)+" gives a slot back", pos, st, "gives a slot back that it does not hold")
	delete(st.mon, "slot")
}

// limit: the channel of the slots becomes known.
func (r *startRule) limit(e *Engine, st *State, ch *Term, pos token.Pos) {
	where := e.inFn(st) + " sets the connection slots"
	if e.nilness(st, ch) == Yes {
		r.chk("M08", r.slots.unlimited(e, st) == Yes, ruleMirLimit, where+": none", pos, st, "there is no limit although one may be configured")
		return
	}
	n, _ := r.slots.fill(st, ch)
	if !r.chk("M08", n != nil, ruleMirLimit, where+": capacity", pos, st, "the capacity of the channel (%s) is not the configured limit", ch) || n == nil {
		return
	}
	good := r.slots.isFull(e, st, ch)
	if k, ok := n.int(); r.reversed {
		good = ok && k == 0
	}
	r.chk("M08", good, ruleMirLimit, where+": slots", pos, st, "the channel may not have got as many slots as configured (%s)", n)
	r.chk("M08", r.slots.unlimited(e, st) == No, ruleMirLimit, where+": limit", pos, st, "nothing can be downloaded if the limit is zero")
}

// receive: something is received, possibly a result.
func (r *startRule) receive(e *Engine, st *State, ev *Event, pos token.Pos) {
	ch := ev.a
	if !r.resultChan(ch) {
		return
	}
	where := e.inFn(st) + " receives a result"
	delete(st.mon, "started")
	if ev.c == nil || ev.slot == "select" {
		if st.mon.has("raw", ch) || st.mon.has("begun", ch) {
			r.chk("M14", r.sent.isFull(e, st, ch), ruleDrained, where+": number", pos, st, "waits for the results of as many downloads as there are files, but fewer may have been started")
		}
		r.chk("M14", !st.mon.has("got:full", ch), ruleDrained, where+": too many", pos, st, "waits for more results than there are downloads")
		if m := st.mem[e.ts.mk(OpApp, "chancap", nil, ch)]; m != nil && !st.mon.has("counted", ch) {
			st.mon.add("counted", ch)
			r.got.setFill(e, st, ch, e.ts.Int(0), m)
		}
		if n, rest := r.got.fill(st, ch); n != nil {
			r.got.count(e, st, ch, n, rest)
		}
		return
	}
	if st.mon.has("made", ch) && !st.mon.has("shared", ch) {
		r.chk("M14", st.mon.has("closed", ch), ruleDrained, where+": end", pos, st, "waits for the end of the results although the channel may never be closed")
	}
	if !ev.ok {
		st.mon.add("drained", ch)
	} else {
		st.mon.del("drained", ch)
		if !st.mon.has("receiving", ch) {
			st.mon.add("receiving", ch)
		}
	}
}

// learn notes what is known about a result.
func (r *startRule) learn(e *Engine, st *State, ev *Event) {
	ev.a.each(func(t *Term) {
		o, _ := resultOf(t)
		if o == nil || t.typ == nil {
			return
		}
		if isError(t.typ) {
			if e.nilness(st, t) == Yes {
				e.label(st, o, "errnil")
			}
			return
		}
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && e.truth(st, e.eq(t, e.ts.Int(200))) == Yes {
			e.label(st, o, "ok")
		}
	})
}

// finished checks that the results were received to the end.
func (r *startRule) finished(e *Engine, st *State, ch *Term, pos token.Pos) {
	st.mon.del("made", ch)
	if st.mon.has("shared", ch) || st.mon.flag("cancelled") {
		return
	}
	raw := st.mon.has("raw", ch) || st.mon.has("begun", ch)
	started := raw || st.mon.has("closed", ch)
	for _, x := range st.mon["producing"] {
		started = started || x.args[0] == ch
	}
	if !started {
		return
	}
	ok := st.mon.has("drained", ch) || raw && r.got.isFull(e, st, ch)
	r.chk("M14", ok, ruleDrained, "all results are received", pos, st, "goes on although downloads may not have delivered their results")
	for _, x := range append([]*Term(nil), st.mon["producing"]...) {
		if x.args[0] == ch {
			r.chk("M14", false, ruleDrained, "all downloads have ended", pos, st, "goes on although downloads may still be running")
			st.mon.del("producing", x)
		}
	}
}

// end: the update or a goroutine ends.
func (r *startRule) end(e *Engine, st *State, er *Term, pos token.Pos) {
	where := e.curRoot + " ends"
	r.chk("M08", !st.mon.flag("slot") || st.mon.flag("nolimit"), ruleSlotBack, where, pos, st, "a slot that was taken is neither given to a download nor given back")
	for _, x := range st.mon["producing"] {
		r.chk("M14", false, ruleCloseEnd, where, pos, st, "downloads that send to %s may still be running", x.args[0])
	}
	if er != nil && e.nilness(st, er) == No {
		return
	}
	r.chk("M08", !st.mon.flag("cancelled"), ruleSlotHeld, where+": cancelled", pos, st, "an update that was cancelled while it waited for a slot reports success")
	for _, ch := range append([]*Term(nil), st.mon["made"]...) {
		r.finished(e, st, ch, pos)
	}
	for _, ch := range st.mon["receiving"] {
		if !st.mon.has("made", ch) && !st.frames[0].goro {
			continue
		}
		r.chk("M14", st.mon.has("drained", ch), ruleDrained, "all results are received", pos, st, "stops receiving although downloads may not have delivered their results")
	}
}

// recordRule looks at the operations of the storage: what they record and
// what they hand out.
type recordRule struct {
	mirBase
	fn *ssa.Function
}

func (r *recordRule) param(e *Engine, want func(types.Type) bool) *Term {
	for i, a := range r.fn.Params {
		if i > 0 && want(a.Type()) {
			return e.ts.mk(OpParam, a.Name(), a.Type())
		}
	}
	return nil
}

func (r *recordRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == "os.Link" && storesFile(r.fn) {
		src := r.param(e, func(t types.Type) bool { return t.Underlying().String() == "string" })
		r.rep.check(c.args[0] == src, ruleRecorded, e.inFn(st)+" links a file", c.pos(), st, "links %s, which is not the file that is described", c.args[0])
	}
	return summarise(c)
}

func (r *recordRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvMapUpdate && tableOf(st, ev.a) == r.ro.info {
		fi := r.param(e, isFileInfoPtr)
		r.rep.check(fi != nil && ev.c == fi, ruleRecorded, e.inFn(st)+" records a file", ev.in.Pos(), st, "records %s, which does not describe the file that is stored", ev.c)
	}
	if rootReturn(st, ev) && returnsInfo(r.fn) {
		cs := comps(ev.a)
		if len(cs) != 2 || e.nilness(st, cs[0]) == Yes {
			return
		}
		fi := r.param(e, isFileInfoPtr)
		where := e.curRoot + " finds a file"
		r.rep.check(fi != nil && e.truth(st, e.ts.mk(OpApp, aptSame, nil, fi, cs[0])) == Yes, ruleLookup, where, r.fn.Pos(), st, "the checksums recorded for the file may be others than those that are asked for")
		ok := cs[0].op == OpSym && cs[0].symKind() == "mapval" && tableOf(st, cs[0].args[0]) == r.ro.info && cs[1].any(func(x *Term) bool { return x == cs[0].args[1] })
		r.rep.check(ok, ruleLookup, where+": path", r.fn.Pos(), st, "the path %s is not the one that %s is recorded for", cs[1], cs[0])
	}
}

// startRoots analyses how downloads are started and whether slots are taken
// by sending.
func startRoots(p *Program, rep *Report, ro *mirrorRoles, prop string, reversed bool, fns ...*ssa.Function) bool {
	filled := false
	owners := resultOwners(p)
	for _, f := range fns {
		limit := func(t *Term) bool { _, f := loadOf(t); return strings.HasSuffix(f, "mirror.Config.MaxConns") }
		r := &startRule{mirBase: mirBase{rep: rep, ro: ro}, prop: prop, fn: f, reversed: reversed, owners: owners}
		r.slots = slotRule{limitOf: limit}
		r.got = slotRule{limitOf: limit, tag: "got:"}
		r.sent = slotRule{limitOf: limit, tag: "sent:"}
		e := mirEngine(p, rep, ro, r)
		if f == ro.newM {
			e.joinAt = 24
		}
		if prop != "M14" {
			e.keepFact = func(t *Term) bool { return ro.slots(t) || t.any(limit) }
		}
		if prop == "M14" {
			temp := e.intrinsic
			e.intrinsic = func(t *Term) string {
				s := ""
				if temp != nil {
					s = temp(t)
				}
				if l := elemOf(t); l != nil {
					s += elemLabel(l) + ";"
				}
				return s
			}
		}
		e.runRoot(f, nil)
		filled = filled || r.slots.any
	}
	return filled
}

// mirrorDownloads is the common part of the properties of the downloads of
// a mirror.
func mirrorDownloads(p *Program, rep *Report, id string) *mirrorRoles {
	ro := findMirror(p, rep)
	if ro == nil {
		return nil
	}
	findDownloads(p, ro)
	filled := startRoots(p, newReport(p, rep.prop), ro, "", false, ro.newM)
	switch id {
	case "M08":
		startRoots(p, rep, ro, id, !filled, ro.newM, ro.update)
	case "M04", "M14":
		owners := resultOwners(p)
		if len(owners) == 0 {
			rep.missing("a function that makes a channel of results")
		}
		startRoots(p, rep, ro, id, !filled, sortedFns(owners)...)
		if id == "M04" && !owners[ro.update] {
			startRoots(p, rep, ro, id, !filled, ro.update)
		}
	}
	fetchRoots(p, rep, ro, id, !filled)
	if id == "M04" || id == "M14" {
		capturedVars(p, rep, "mirror")
	}
	return ro
}

func init() {
	register("M04", "typestate dataflow over the SSA form of the mirror's downloads, with what the results that were received and the files of the previous tree are known to say",
		"Covers every path of the goroutines that download, of the functions that start them and receive their results, of Update, and of the operations of the storage."+trust,
		"A download is started with the description of the file that its path belongs to, or with none for a Release file. A result without an error and with status 200 has the checksums that CopyWithFileInfo computed from the whole body of the latest response into the file of the result, which was synced since, and which Same found equal to those expected. What is stored in the new tree is the description and file of one result whose error is known to be nil and whose status is known to be 200, or what Lookup found in the published tree; Lookup returns the path of a recorded description that Same found equal. Operations of the storage record what they link.", func(p *Program, rep *Report) {
			ro := mirrorDownloads(p, rep, "M04")
			if ro == nil {
				return
			}
			for _, m := range ro.methods {
				r := &recordRule{mirBase: mirBase{rep: rep, ro: ro}, fn: m}
				e := newEngine(p, rep, r)
				e.keepFact = func(t *Term) bool { return t.isApp(aptSame) }
				e.runRoot(m, nil)
			}
			for _, m := range ro.methods {
				if storesFile(m) {
					callersSeen(p, rep, m)
				}
			}
			rep.floor(ruleFetched, 5)
			rep.floor(ruleSyncFile, 1)
			rep.floor(ruleExpected, 1)
			rep.floor(ruleStoresOK, 5)
			rep.floor(ruleLookup, 2)
			rep.floor(ruleRecorded, 2)
		})
	register("M08", "typestate dataflow over the SSA form of NewMirror, Update and of the goroutines that download (slots and responses), with counted loops",
		"Covers every path of NewMirror and Update and of the goroutines that download, with and without a limit; a panic ends the process."+trust,
		"A download is started only after a slot was taken for it or when the channel of slots is known to be nil, and not after a cancellation was seen; it gives exactly one slot back on every path, after the response is closed. The channel of slots is nil if the limit is zero and otherwise has the configured limit as its capacity and was filled with as many slots. Nothing waits for a slot unless there is a channel. A slot that was taken is given to a download or back; an update that saw a cancellation does not report success.", func(p *Program, rep *Report) {
			if mirrorDownloads(p, rep, "M08") == nil {
				return
			}
			rep.floor(ruleSlotHeld, 3)
			rep.floor(ruleSlotBack, 3)
			rep.floor(ruleMirLimit, 3)
			rep.floor(ruleNoLimit, 1)
		})
	register("M13", "typestate dataflow over the SSA form of the goroutines that download, with a lexicographic ranking of the variables of every loop that makes requests",
		"Covers every path of the goroutines that download. The pause before an attempt is not interrupted; it is bounded like the attempts."+trust,
		"Every round of a loop that makes requests makes progress in one variable (a number that is known to be bounded grows or falls, a list gets shorter, a flag is set) and leaves those before it in some fixed order as they are. Another round is begun only after a request, a copy of the body or a status of 500 or more failed, or after Same found other data than expected, and then the URL is another one. Between two requests the context is checked for cancellation, requests are made under the context that the download was given, and after a cancellation was seen none is made and the result has an error.", func(p *Program, rep *Report) {
			if mirrorDownloads(p, rep, "M13") == nil {
				return
			}
			rep.floor(ruleBounded, 1)
			rep.floor(ruleTransient, 1)
			rep.floor(ruleElsewhere, 1)
			rep.floor(ruleInterrupt, 1)
			rep.floor(ruleUnderCtx, 1)
			rep.floor(ruleCancelled, 1)
		})
	register("M14", "typestate dataflow over the SSA form of the mirror's downloads and of the functions that own channels of results, with counted loops",
		"Covers every path of the goroutines that download and of the functions that make channels of results with what they start and call. If the update fails or is cancelled, results may be left in a channel that has room for them."+trust,
		"A download sends exactly one result on every path, before it gives its slot back, to a channel whose capacity is the number of the files it works on, each of which is downloaded once. A result has an error if a call of the download failed or if data did not match; its status is that of the latest response. The channel is closed only after the environment of the downloads was waited for; results are received until the channel is closed, or as many as downloads were started, before the owner of the channel returns without an error. Errors of the goroutines make the update fail.", func(p *Program, rep *Report) {
			ro := mirrorDownloads(p, rep, "M14")
			if ro == nil {
				return
			}
			sub := newReport(p, rep.prop)
			publishRoot(p, sub, ro, "M02", ro.update)
			rep.adopt(sub, rulePubFailed, ruleAllOf, func(c string) bool {
				return c == "errors of goroutines" || c == "a download" || strings.HasSuffix(c, " waits for goroutines")
			})
			rep.resultsSeen(p)
			rep.floor(ruleOneResult, 2)
			rep.floor(ruleFirstSend, 1)
			rep.floor(ruleTruthful, 2)
			rep.floor(ruleRoom, 2)
			rep.floor(ruleDrained, 2)
			rep.floor(ruleCloseEnd, 1)
			rep.floor(ruleAllOf, 1)
		})
}

// resultsSeen makes sure that every function that uses a channel of results
// was analysed.
func (rep *Report) resultsSeen(p *Program) {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != nil && resultChanType((*op).Type()) && !rep.fns[shortName(f.String())] {
						rep.violate("anchor", fnLabel(f)+" uses a channel of results", in.Pos(), "this function is reached from none of the entry points that were analysed", nil)
					}
				}
			}
		}
	}
}

// elemLabel marks the elements of a list.
func elemLabel(list *Term) string { return "elem" + itoa(list.id) }
