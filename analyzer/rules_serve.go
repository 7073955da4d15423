package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- K01

type serveRule struct {
	dlBase
	fn *ssa.Function
}

const (
	ruleServed  = "status 200 comes with the file of the known checksum"
	ruleMatched = "a file is handed out only after its checksums were compared"
	ruleSumSrc  = "checksums are calculated from the stored file itself"
	ruleHandOut = "the file handed out is the one stored for the item"
)

func (r *serveRule) On(e *Engine, st *State, ev *Event) {
	if !rootReturn(st, ev) {
		return
	}
	cs := comps(ev.a)
	if len(cs) != 3 {
		return
	}
	status, f := cs[0], cs[1]
	pos := r.fn.Pos()
	if e.truth(st, e.eq(status, e.ts.Int(200))) == No {
		r.rep.oblige(ruleServed, e.curRoot+" returns another status", pos)
		return
	}
	where := e.curRoot + " returns status 200"
	look := f.op == OpSym && f.symIdx() == 0 && f.symKind() == r.ro.lookup.String() && len(f.args) == 2
	if !r.rep.check(look, ruleServed, where, pos, st, "the status may be 200 but the file (%s) is not the result of looking the item up in a store", f) {
		return
	}
	r.rep.check(e.nilness(st, f) == No, ruleServed, where+": found", pos, st, "the look-up may have failed")
	fi := f.args[1]
	p := e.ts.mk(OpParam, r.fn.Params[1].Name(), r.fn.Params[1].Type())
	good := fi.op == OpSym && fi.symKind() == "mapval" && len(fi.args) == 2 && fieldOf(fi.args[0]) == r.ro.info && fi.args[1] == p
	r.rep.check(good, ruleServed, where+": checksum", pos, st, "the item was looked up for %s, which is not what is known for the requested path", fi)
}

// lookupRule decides the same for the store itself.
type lookupRule struct {
	storageBase
	fn     *ssa.Function
	suffix string
}

func (r *lookupRule) locked(st *State) bool {
	for _, l := range st.locks {
		if lockClass(l.lock) == r.ro.mu {
			return true
		}
	}
	return false
}

// openedFor is the path that a file was opened for reading at.
func openedFor(f *Term) *Term {
	switch {
	case f.isCall("os.Open") && len(f.args) == 1:
		return f.args[0]
	case f.isCall("os.OpenFile") && len(f.args) == 3:
		if n, ok := f.args[1].int(); ok && n == 0 {
			return f.args[0]
		}
	}
	return nil
}

// readFrom is the path of the file that data are the contents of.
func readFrom(t *Term) *Term {
	switch {
	case t.op != OpSym || t.symIdx() != 0 || len(t.args) == 0:
		return nil
	case t.isCall("os.ReadFile") || t.isCall("io/ioutil.ReadFile"):
		return t.args[0]
	case t.isCall("io.ReadAll") || t.isCall("io/ioutil.ReadAll"):
		return openedFor(stripConv(t.args[0]))
	}
	return nil
}

func (r *lookupRule) itemFile(e *Engine, st *State, f *Term, fi *Term) bool {
	if f == nil {
		return false
	}
	keys := pathsOf(e, fi)
	for _, x := range st.maps {
		if fieldOf(x.m) == r.ro.cache && x.val != nil && r.infoOf(e, st, x.val) == fi {
			keys = append(keys, x.k)
		}
	}
	for _, t := range st.mon["entry"] {
		if r.infoOf(e, st, t.args[1]) == fi {
			keys = append(keys, t.args[0])
		}
	}
	s, ok := r.fileOf(f, keys)
	return ok && s == r.suffix
}

func (r *lookupRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == fnCalc && len(c.args) == 2 {
		src := readFrom(c.args[1])
		r.rep.check(r.itemFile(e, st, src, c.args[0]) && st.mon.has("read", c.args[1]), ruleSumSrc, e.inFn(st)+" calculates checksums", c.pos(), st, "the data (%s) are not the complete contents of the file of this item", c.args[1])
		for _, t := range append([]*Term(nil), st.mon["same"]...) {
			if t.contains(c.args[0]) {
				st.mon.del("same", t)
			}
		}
		st.mon.add("sums", c.args[0])
	}
	return r.storageBase.Call(e, st, c)
}

func (r *lookupRule) After(e *Engine, st *State, c *Call, res *Term) {
	switch c.name {
	case fnHasSum:
		if len(c.args) == 1 {
			st.mon.add("has", e.ts.mk(OpApp, "has", nil, c.args[0], res))
		}
	case fnSame:
		if len(c.args) == 2 {
			st.mon.add("same", e.ts.mk(OpApp, "same", nil, c.args[0], c.args[1], res))
			ok := r.hasSums(e, st, c.args[1])
			if !ok {
				st.mon.add("early", c.args[1])
			}
		}
	case "os.ReadFile", "io/ioutil.ReadFile", "io.ReadAll", "io/ioutil.ReadAll":
		if cs := comps(res); e.nilness(st, cs[1]) == Yes {
			st.mon.add("read", cs[0])
		}
	case "os.Open", "os.OpenFile":
		if r.locked(st) {
			st.mon.add("locked", comps(res)[0])
		}
	}
}

func (r *lookupRule) hasSums(e *Engine, st *State, fi *Term) bool {
	if st.mon.has("sums", fi) {
		return true
	}
	for _, t := range st.mon["has"] {
		if t.args[0] == fi && e.truth(st, t.args[1]) == Yes {
			return true
		}
	}
	return false
}

func (r *lookupRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvMapLookup:
		if fieldOf(ev.a) == r.ro.cache && ev.c != nil {
			delete(st.mon, "entry")
			st.mon.add("entry", e.ts.mk(OpApp, "entry", nil, ev.b, ev.c))
		}
	case EvLock:
		// what was found before may have changed
		delete(st.mon, "entry")
		delete(st.mon, "same")
		delete(st.mon, "has")
		delete(st.mon, "sums")
	}
	if !rootReturn(st, ev) {
		return
	}
	cs := comps(ev.a)
	pos := r.fn.Pos()
	if len(cs) != 2 || e.nilness(st, cs[0]) == Yes {
		return
	}
	if e.nilness(st, cs[1]) == No && e.nilness(st, cs[0]) != No {
		return
	}
	where := e.curRoot + " returns a file"
	f := cs[0]
	path := openedFor(f)
	if !r.rep.check(path != nil, ruleHandOut, where, pos, st, "returns %s, which is not a file that was opened here for reading", f) {
		return
	}
	want := e.ts.mk(OpParam, r.fn.Params[1].Name(), r.fn.Params[1].Type())
	var fi *Term
	for _, t := range st.mon["same"] {
		if t.args[0] == want && e.truth(st, t.args[2]) == Yes {
			fi = t.args[1]
		}
	}
	if !r.rep.check(fi != nil, ruleMatched, where, pos, st, "it is not established that the stored item matches what was asked for") {
		return
	}
	r.rep.check(r.hasSums(e, st, fi) && !st.mon.has("early", fi), ruleMatched, where+": checksums", pos, st, "the checksums of the stored item may not have been calculated before the comparison")
	r.rep.check(r.itemFile(e, st, path, fi), ruleHandOut, where+": path", pos, st, "opens %s, which is not known to be the file of the item that was compared", path)
	r.rep.check(st.mon.has("locked", f), ruleHandOut, where+": lock", pos, st, "the file is opened without the lock, so that it may be another one than the one compared")
}

// storeSuffix is the suffix that Insert gives to the files of items.
type suffixRule struct {
	storageBase
	got map[string]bool
}

func (r *suffixRule) After(e *Engine, st *State, c *Call, res *Term) {
	if (c.name == "os.Link" || c.name == "os.Rename") && len(c.args) == 2 {
		s := "?"
		l := components(c.args[1])
		if len(l) == 2 && l[1].isApp("concat*") {
			var cs []*Term
			for _, x := range l[1].args {
				cs = append(cs, flattenConcat(x)...)
			}
			l[1] = nil
			if len(cs) == 2 {
				if x, ok := cs[1].str(); ok && cs[0].isApp(fnPath) {
					s = x
				}
			}
		} else if len(l) == 2 {
			if cs := flattenConcat(l[1]); len(cs) == 2 {
				if x, ok := cs[1].str(); ok && cs[0].isApp(fnPath) {
					s = x
				}
			}
		}
		r.got[s] = true
	}
}

func storeSuffix(p *Program, rep *Report, so *storageRoles, insert *ssa.Function) string {
	r := &suffixRule{storageBase{rep: rep, ro: so}, map[string]bool{}}
	storageEngine(p, rep, so, r).runRoot(insert, nil)
	if len(r.got) != 1 || r.got["?"] {
		rep.missing("the path that Storage.Insert keeps an item at: its path with a suffix in the directory of the store")
		return ""
	}
	for s := range r.got {
		return s
	}
	return ""
}

func init() {
	register("K01", "provenance and typestate dataflow over the SSA form of Get and Storage.Lookup",
		"Covers every path of Cacher.Get, with the store taken as the contract of Lookup, and every path of Storage.Lookup; FileInfo.Same is decided by A01."+trust,
		"Cacher.Get returns status 200 only with the file that Lookup returned without error for the entry found in the table of known checksums under the requested path. Storage.Lookup returns only a file opened, under the lock, at the path of the entry of that item, whose FileInfo has checksums (its own, or calculated from the contents of that very file) and for which Same with the argument was true.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			so := findStorage(p, rep)
			if ro == nil || so == nil {
				return
			}
			dlEngine(p, rep, ro, &serveRule{dlBase{rep: rep, ro: ro}, ro.get}).runRoot(ro.get, nil)
			s := storeSuffix(p, rep, so, ro.insert)
			if s == "" {
				return
			}
			e := storageEngine(p, rep, so, &lookupRule{storageBase{rep: rep, ro: so}, ro.lookup, s})
			e.joinAt = 1 << 30
			e.runRoot(ro.lookup, nil)
			rep.floor(ruleServed, 4)
			rep.floor(ruleMatched, 2)
			rep.floor(ruleSumSrc, 1)
			rep.floor(ruleHandOut, 3)
		})
}

// ---- K12

// answerRule follows how a request is answered.
type answerRule struct {
	dlBase
	fn   *ssa.Function
	w, q *Term // the response writer and the request
}

const (
	ruleMethod = "only GET and HEAD are served, others get 501"
	ruleOnce   = "every request gets exactly one answer"
	ruleStatus = "an error is answered with its status"
	ruleBody   = "the body of an item is sent only for status 200 of a GET"
	ruleHead   = "HEAD answers carry the size of the item"
	ruleClosed = "the file is closed after the answer"
	ruleNoItem = "unknown prefixes and unsupported compressions get 404 without contacting anything"
	ruleResult = "Get returns a status, a file for 200 only, and no other combination"
)

func (r *answerRule) method(e *Engine, st *State, m string) Tri {
	return e.truth(st, e.eq(e.loaded(r.q, "http.Request.Method"), e.ts.Str(m)))
}

func (r *answerRule) got(st *State) (status, f, err *Term) {
	if t := st.mon.get("get"); t != nil {
		return t.args[0], t.args[1], t.args[2]
	}
	return nil, nil, nil
}

func (r *answerRule) Call(e *Engine, st *State, c *Call) Action {
	where := e.inFn(st)
	if c.fn == r.ro.get {
		ok := r.method(e, st, "GET") == Yes || r.method(e, st, "HEAD") == Yes
		r.rep.check(ok, ruleMethod, where+" gets an item", c.pos(), st, "an item is looked up for a request of any method")
		r.rep.check(st.mon.get("get") == nil, ruleOnce, where+" gets an item", c.pos(), st, "the item is looked up twice")
		return ActOpaque
	}
	uses := -1
	for i, a := range c.args {
		if stripConv(a) == r.w {
			uses = i
		}
	}
	hdr := len(c.args) > 0 && c.args[0].isCall("(net/http.ResponseWriter).Header")
	switch {
	case hdr && strings.HasPrefix(c.name, "(net/http.Header)."):
		r.header(e, st, c)
	case uses < 0:
	case c.name == "(net/http.ResponseWriter).Header":
		return ActPure
	case c.fn != nil && e.p.inRepo(c.fn):
	case c.name == "net/http.Error" && uses == 0:
		r.answer(e, st, c, c.args[2])
	case c.name == "net/http.NotFound" && uses == 0:
		r.answer(e, st, c, e.ts.Int(404))
	case c.name == "(net/http.ResponseWriter).WriteHeader":
		r.answer(e, st, c, c.args[1])
	case c.name == "net/http.ServeContent" && uses == 0:
		r.answer(e, st, c, e.ts.Int(200))
		r.item(e, st, c, stripConv(c.args[4]))
		st.mon.add("sent", e.ts.True)
	case c.name == "io.Copy" && uses == 0:
		if st.mon.get("answered") == nil {
			r.answer(e, st, c, e.ts.Int(200))
		}
		r.item(e, st, c, stripConv(c.args[1]))
		r.rep.check(r.method(e, st, "GET") == Yes, ruleBody, where+" sends a body", c.pos(), st, "a body is sent in the answer to a request that is not known to be a GET")
		st.mon.add("sent", e.ts.True)
	default:
		r.rep.violate(ruleBody, where+" calls "+shortName(c.name), c.pos(), "writes to the answer in a way that is not understood", st.trace)
	}
	return r.action(c)
}

func (r *answerRule) header(e *Engine, st *State, c *Call) {
	if !strings.HasSuffix(c.name, ".Set") && !strings.HasSuffix(c.name, ".Add") || len(c.args) != 3 {
		return
	}
	k, _ := c.args[1].str()
	if strings.EqualFold(k, "Content-Length") {
		n := c.args[2]
		_, f, _ := r.got(st)
		good := false
		if (n.isApp("strconv.FormatInt") || n.isApp("strconv.Itoa") || n.isApp("strconv.FormatUint")) && (len(n.args) == 1 || isTen(n.args[1])) {
			x := stripConv(n.args[0])
			good = f != nil && x.op != OpConst && isSizeOf(x, f)
		}
		if (n.isApp("fmt.Sprint") || n.isApp("fmt.Sprintf")) && f != nil {
			n.each(func(x *Term) {
				if isSizeOf(x, f) {
					good = true
				}
			})
		}
		r.rep.check(good, ruleHead, e.inFn(st)+" sets the length", c.pos(), st, "the length given (%s) is not the size of the file of the item", n)
		st.mon.add("length", e.ts.True)
	}
}

func isTen(t *Term) bool { n, ok := t.int(); return ok && n == 10 }

// isSizeOf says whether x is the size of file f.
func isSizeOf(x, f *Term) bool {
	if !strings.HasSuffix(x.name, ".Size") && !strings.HasSuffix(x.symKind(), ".Size") || len(x.args) != 1 {
		return false
	}
	s := stripConv(x.args[0])
	return s.isCall("(*os.File).Stat") && len(s.args) > 0 && s.args[0] == f
}

func (r *answerRule) item(e *Engine, st *State, c *Call, f *Term) {
	_, g, _ := r.got(st)
	r.rep.check(g != nil && f == g, ruleBody, e.inFn(st)+" sends the item", c.pos(), st, "sends %s, which is not the file of the item", f)
}

func (r *answerRule) answer(e *Engine, st *State, c *Call, code *Term) {
	where := e.inFn(st) + " answers by " + shortName(c.name)
	pos := c.pos()
	r.rep.check(st.mon.get("answered") == nil, ruleOnce, where, pos, st, "the request has been answered before")
	st.mon.set("answered", code)
	n, isConst := code.int()
	status, _, er := r.got(st)
	if status == nil {
		bad := r.method(e, st, "GET") == No && r.method(e, st, "HEAD") == No
		r.rep.check(bad && isConst && n == 501, ruleMethod, where, pos, st, "answers with status %s before looking for the item, although the method may be GET or HEAD or the status is not 501", code)
		return
	}
	ok200 := e.truth(st, e.eq(status, e.ts.Int(200)))
	if isConst && n == 200 {
		r.rep.check(ok200 == Yes && e.nilness(st, er) == Yes, ruleBody, where+" with 200", pos, st, "answers 200 although the item may not have been obtained")
		if strings.HasSuffix(c.name, ".WriteHeader") {
			if r.method(e, st, "GET") == Yes {
				return
			}
			r.rep.check(st.mon.get("length") != nil, ruleHead, where, pos, st, "answers HEAD without the size of the item")
		}
		return
	}
	switch {
	case code == status:
		good := e.nilness(st, er) == No || ok200 == No
		r.rep.check(good, ruleStatus, where, pos, st, "answers an error with a status that may be 200")
	case isConst && n >= 400:
		same := e.truth(st, e.eq(status, code)) == Yes
		later := ok200 == Yes && e.nilness(st, er) == Yes && st.mon.get("failed") != nil && n >= 500
		r.rep.check(same || later, ruleStatus, where+" with "+itoa(int(n)), pos, st, "answers %d although the status is not known to be that one", n)
	default:
		r.rep.violate(ruleStatus, where, pos, "answers with status "+code.String(), st.trace)
	}
}

func (r *answerRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.fn == r.ro.get {
		if cs := comps(res); len(cs) == 3 {
			st.mon.set("get", e.ts.mk(OpApp, "got", nil, cs...))
		}
		return
	}
	_, f, _ := r.got(st)
	if c.inlined || f == nil || len(c.args) == 0 || c.args[0] != f {
		return
	}
	if c.name == "(*os.File).Close" {
		st.mon.add("closed", e.ts.True)
		return
	}
	if cs := comps(res); e.nilness(st, cs[len(cs)-1]) == No && len(cs) > 1 && c.name == "(*os.File).Stat" && e.nilness(st, cs[0]) != No {
		st.mon.set("failed", e.ts.True)
	}
}

func (r *answerRule) On(e *Engine, st *State, ev *Event) {
	if !rootReturn(st, ev) {
		return
	}
	pos := r.fn.Pos()
	r.rep.check(st.mon.get("answered") != nil, ruleOnce, e.curRoot+" ends", pos, st, "the request is not answered")
	status, f, er := r.got(st)
	if f == nil {
		return
	}
	ok := e.truth(st, e.eq(status, e.ts.Int(200)))
	if ok == No || e.nilness(st, er) == No || e.nilness(st, f) == Yes {
		r.rep.check(st.mon.get("sent") == nil, ruleBody, e.curRoot+" ends", pos, st, "a body is sent although there is no item")
		return
	}
	r.rep.check(st.mon.get("closed") != nil, ruleClosed, e.curRoot+" ends", pos, st, "the file of the item is not closed")
	if a := st.mon.get("answered"); a != nil {
		if n, isC := a.int(); isC && n == 200 && r.method(e, st, "GET") == Yes {
			r.rep.check(st.mon.get("sent") != nil, ruleBody, e.curRoot+" answers GET", pos, st, "a GET request is answered 200 without the item")
		}
	}
}

// getRule decides what Get returns.
type getRule struct {
	dlBase
	fn *ssa.Function
}

func (r *getRule) Call(e *Engine, st *State, c *Call) Action {
	touch := c.fn == r.ro.lookup || c.fn == r.ro.insert || c.fn == r.ro.download || isRequest(c.name)
	if touch {
		r.allowed(e, st, "calls "+shortName(c.name), c.pos())
	}
	if c.fn == r.ro.download {
		return ActOpaque
	}
	return r.action(c)
}

func (r *getRule) p(e *Engine) *Term {
	return e.ts.mk(OpParam, r.fn.Params[1].Name(), r.fn.Params[1].Type())
}

// unknownPrefix says whether the path is under no registered prefix.
func (r *getRule) unknownPrefix(e *Engine, st *State) Tri {
	for t, f := range st.facts {
		if t.isApp(urlmapURL) && len(t.args) == 2 && t.args[1] == r.p(e) && fieldOf(t.args[0]) == r.ro.um {
			if f.isNil != Unknown {
				return f.isNil
			}
		}
	}
	if st.mon.get("prefix") != nil {
		return No
	}
	return Unknown
}

func (r *getRule) unsupported(e *Engine, st *State) Tri {
	p := r.p(e)
	m := e.truth(st, e.ts.mk(OpApp, aptIsMeta, types.Typ[types.Bool], p))
	s := e.truth(st, e.ts.mk(OpApp, aptPkg+".IsSupported", types.Typ[types.Bool], p))
	switch {
	case m == No || s == Yes:
		return No
	case m == Yes && s == No:
		return Yes
	}
	return Unknown
}

func (r *getRule) allowed(e *Engine, st *State, what string, pos token.Pos) {
	where := e.inFn(st) + " " + what
	r.rep.check(r.unknownPrefix(e, st) == No, ruleNoItem, where+": prefix", pos, st, "%s although the path may be under no registered prefix", what)
	r.rep.check(r.unsupported(e, st) == No, ruleNoItem, where+": compression", pos, st, "%s although the path may be an index with an unsupported compression", what)
}

func (r *getRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvSpawn {
		r.allowed(e, st, "starts a goroutine", ev.in.Pos())
	}
	if !rootReturn(st, ev) {
		return
	}
	cs := comps(ev.a)
	if len(cs) != 3 {
		return
	}
	pos := r.fn.Pos()
	status, f, er := cs[0], cs[1], cs[2]
	is404 := e.truth(st, e.eq(status, e.ts.Int(404))) == Yes
	if r.unknownPrefix(e, st) != No {
		r.rep.check(is404 && e.nilness(st, er) == Yes, ruleNoItem, e.curRoot+" without a prefix", pos, st, "returns status %s for a path that may be under no registered prefix", status)
	}
	if r.unsupported(e, st) != No && r.unknownPrefix(e, st) == No {
		r.rep.check(is404 && e.nilness(st, er) == Yes, ruleNoItem, e.curRoot+" for an unsupported index", pos, st, "returns status %s for an index that may have an unsupported compression", status)
	}
	ok200 := e.truth(st, e.eq(status, e.ts.Int(200)))
	n, isC := status.int()
	switch e.nilness(st, er) {
	case No:
		r.rep.check(isC && n >= 400 && e.nilness(st, f) == Yes, ruleResult, e.curRoot+" fails", pos, st, "returns status %s and file %s with an error", status, f)
	case Yes:
		switch ok200 {
		case Yes:
			r.rep.check(e.nilness(st, f) == No, ruleResult, e.curRoot+" succeeds", pos, st, "returns status 200 without a file")
		case No:
			r.rep.check(e.nilness(st, f) == Yes, ruleResult, e.curRoot+" returns another status", pos, st, "returns a file with another status than 200")
		default:
			r.rep.violate(ruleResult, e.curRoot, pos, "returns status "+status.String()+", which may or may not be 200", st.trace)
		}
	default:
		r.rep.violate(ruleResult, e.curRoot, pos, "returns an error that may or may not be nil", st.trace)
	}
}

// handlers are the ServeHTTP methods of the types that are made the handler
// of a server.
func handlers(p *Program) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), "http.Server.Handler") {
					continue
				}
				v := s.Val
				mi, ok := v.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				ms := p.prog.MethodSets.MethodSet(mi.X.Type())
				if sel := ms.Lookup(nil, "ServeHTTP"); sel != nil {
					if g := p.prog.MethodValue(sel); g != nil && p.inRepo(g) {
						l = append(l, g)
					}
				}
			}
		}
	}
	return l
}

func theHandler(p *Program, rep *Report) *ssa.Function {
	l := handlers(p)
	if len(l) != 1 || len(l[0].Blocks) == 0 {
		rep.missing("the one HTTP handler of the cache server")
		return nil
	}
	return l[0]
}

func keepRequest(e *Engine) {
	old := e.keepFact
	e.keepFact = func(t *Term) bool {
		if old != nil && old(t) {
			return true
		}
		return t.any(func(x *Term) bool { return x.op == OpField && strings.HasSuffix(x.name, "http.Request.Method") }) || t.isApp(urlmapURL) || t.isApp(aptPkg+".IsSupported")
	}
}

func init() {
	register("K12", "typestate dataflow over the SSA form of the HTTP handler and of Get",
		"Covers every path of the handler, with Get taken as the contract that the same check decides on every path of Get; net/http is taken to do as documented (ServeContent answers HEAD without a body)."+trust,
		"On every path of the handler there is exactly one answer: 501 exactly for methods other than GET and HEAD, before Get is called; Get's status when it is not 200 or when there is an error; for 200 the file that Get returned through ServeContent, or for HEAD the headers with the size of that file; the file is closed. Get touches stores, starts downloads or goroutines only for paths with a registered prefix that are not unsupported indices, returns 404 for those, and a file exactly with status 200 and no error.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			h := theHandler(p, rep)
			if ro == nil || h == nil {
				return
			}
			r := &answerRule{dlBase: dlBase{rep: rep, ro: ro}, fn: h}
			e := dlEngine(p, rep, ro, r)
			keepRequest(e)
			e.runRoot(h, func(st *State, args []*Term) {
				n := len(args)
				r.w, r.q = args[n-2], args[n-1]
			})
			g := &getRule{dlBase{rep: rep, ro: ro}, ro.get}
			e = dlEngine(p, rep, ro, g)
			keepRequest(e)
			e.runRoot(ro.get, nil)
			rep.floor(ruleMethod, 2)
			rep.floor(ruleOnce, 4)
			rep.floor(ruleStatus, 1)
			rep.floor(ruleBody, 3)
			rep.floor(ruleClosed, 1)
			rep.floor(ruleNoItem, 4)
			rep.floor(ruleResult, 3)
		})
}

// ---- K17

type urlRule struct {
	NopRule
	rep  *Report
	fn   *ssa.Function
	bad  map[*Term]bool // loop variables that are not the path without leading slashes
	good map[*Term]bool
}

const (
	ruleUpstream = "a path is mapped to the upstream of its first component"
	ruleRelative = "the rest of a path is resolved as a relative path"
	ruleRegister = "only valid prefixes are registered, with directories as bases"
	ruleScheme   = "only http and https upstreams are accepted"
	ruleRequest  = "requests go to the upstream of the path"
)

func (r *urlRule) path(e *Engine) *Term {
	return e.ts.mk(OpParam, r.fn.Params[1].Name(), r.fn.Params[1].Type())
}

// trimmed says whether t is the path, possibly without leading slashes.
func (r *urlRule) trimmed(e *Engine, t *Term) bool {
	switch {
	case t == r.path(e) || r.good[t] && !r.bad[t]:
		return true
	case t.isApp("strings.TrimLeft") || t.isApp("strings.TrimPrefix"):
		s, _ := t.args[1].str()
		return s == "/" && r.trimmed(e, t.args[0])
	case t.isApp("slice"):
		n, ok := t.args[1].int()
		return ok && n == 1 && t.args[2].op == OpNil && r.trimmed(e, t.args[0])
	case t.op == OpOld:
		return true
	}
	return false
}

func (r *urlRule) startsWithSlash(e *Engine, st *State, l *Term) bool {
	for _, typ := range []types.Type{types.Typ[types.Byte], types.Typ[types.Uint8]} {
		if v := e.eqOf(st, e.ts.mk(OpApp, "index", typ, l, e.ts.Int(0))); v != nil {
			if n, ok := v.int(); ok && n == '/' {
				return true
			}
		}
	}
	return e.truth(st, e.ts.mk(OpApp, "strings.HasPrefix", types.Typ[types.Bool], l, e.ts.Str("/"))) == Yes
}

func (r *urlRule) On(e *Engine, st *State, ev *Event) {
	pos := r.fn.Pos()
	switch ev.kind {
	case EvWiden:
		if r.trimmed(e, ev.b) {
			r.good[ev.a] = true
		} else if ev.b != ev.a {
			r.bad[ev.a] = true
		}
	case EvIndex:
		if n, ok := ev.b.int(); ev.slot == "slice" && ok && n == 1 && ev.c == nil && ev.a.typ != nil && r.trimmed(e, ev.a) {
			r.rep.check(r.startsWithSlash(e, st, ev.a), ruleUpstream, e.inFn(st)+" drops a character", ev.in.Pos(), st, "drops the first character of the path although it may not be a slash")
		}
	}
	if !rootReturn(st, ev) {
		return
	}
	res := ev.a
	if e.nilness(st, res) == Yes {
		none := false
		for _, x := range st.maps {
			if (x.ok == No || x.val != nil && e.nilness(st, x.val) == Yes) && r.isMap(e, x.m) && r.prefix(e, x.k) {
				none = true
			}
		}
		if res.op == OpSym && res.symKind() == "mapval" {
			none = r.isMap(e, res.args[0]) && r.prefix(e, res.args[1])
		}
		r.rep.check(none, ruleUpstream, e.curRoot+" returns nil", pos, st, "returns nil although there may be an upstream for the first component of the path")
		return
	}
	base := res
	var ref *Term
	args := res.args
	switch {
	case res.isApp("(*net/url.URL).ResolveReference") || res.isCall("(*net/url.URL).ResolveReference"):
		base, ref = args[0], args[1]
	case res.isApp("(*net/url.URL).JoinPath") || res.isCall("(*net/url.URL).JoinPath"):
		base = args[0]
		if len(args) == 2 && args[1].op == OpSlice && len(args[1].args) == 1 {
			ref = args[1].args[0]
		}
	}
	ok := base.op == OpSym && base.symKind() == "mapval" && r.isMap(e, base.args[0]) && r.prefix(e, base.args[1])
	if !r.rep.check(ok, ruleUpstream, e.curRoot+" returns a URL", pos, st, "the URL (%s) is not that of the upstream registered for the first component of the path", base) {
		return
	}
	if ref == nil {
		r.rep.check(r.alone(e, st, base.args[1]), ruleRelative, e.curRoot+" returns the base", pos, st, "returns the base URL although the path may have more components")
		return
	}
	rest := ref
	if ref.op == OpAlloc {
		rest = nil
		for a, v := range st.mem {
			if a.op == OpField && a.args[0] == ref {
				if strings.HasSuffix(a.name, "url.URL.Path") {
					rest = v
				} else if !isZero(v) {
					r.rep.violate(ruleRelative, e.curRoot+" resolves", pos, "the reference has more than a path: "+a.name, st.trace)
				}
			}
		}
	}
	good := false
	if rest != nil {
		s, i := splitAt(rest, "/")
		s0, _ := splitAt(base.args[1], "/")
		good = s != nil && i == 1 && s == s0
	}
	r.rep.check(good, ruleRelative, e.curRoot+" resolves", pos, st, "what is resolved (%v) is not a reference that has only the rest of the path", rest)
}

func isZero(t *Term) bool {
	if t.op == OpNil {
		return true
	}
	if s, ok := t.str(); ok {
		return s == ""
	}
	if n, ok := t.int(); ok {
		return n == 0
	}
	return t.op == OpConst && t.name == "false" || strings.HasPrefix(t.name, "zero:")
}

func (r *urlRule) isMap(e *Engine, m *Term) bool {
	return m == e.ts.mk(OpParam, "recv", nil) || m.op == OpParam && m.name == "recv" || m.contains(e.ts.mk(OpParam, "recv", nil))
}

// prefix says whether k is the first component of the path.
func (r *urlRule) prefix(e *Engine, k *Term) bool {
	s, i := splitAt(k, "/")
	return s != nil && i == 0 && r.trimmed(e, s)
}

// alone says whether the path has no other component than k.
func (r *urlRule) alone(e *Engine, st *State, k *Term) bool {
	s, _ := splitAt(k, "/")
	if s == nil {
		return false
	}
	for t, f := range st.facts {
		if t.isApp("len") && t.args[0].isApp("strings.SplitN") && t.args[0].args[0] == s && f.hasHi && f.hi <= 1 {
			return true
		}
		if t.isApp("len") && f.eq != nil && t.args[0].isApp("strings.SplitN") && t.args[0].args[0] == s {
			if n, ok := f.eq.int(); ok && n <= 1 {
				return true
			}
		}
		if t.isApp("strings.Cut#2") && t.args[0] == s && f.truth == No || t.isApp("strings.Contains") && t.args[0] == s && f.truth == No {
			return true
		}
		if (t.isApp("strings.IndexByte") || t.isApp("strings.Index")) && t.args[0] == s && f.hasHi && f.hi < 0 {
			return true
		}
	}
	for _, t := range []*Term{e.ts.mk(OpApp, "strings.SplitN", types.NewSlice(types.Typ[types.String]), s, e.ts.Str("/"), e.ts.Int(2))} {
		if _, hi, _, hh := e.bounds(st, e.ts.mk(OpApp, "len", types.Typ[types.Int], t)); hh && hi <= 1 {
			return true
		}
	}
	return false
}

type registerRule struct {
	NopRule
	rep *Report
	p   *Program
	fn  *ssa.Function
}

func (r *registerRule) On(e *Engine, st *State, ev *Event) {
	prefix := e.ts.mk(OpParam, r.fn.Params[1].Name(), r.fn.Params[1].Type())
	u := e.ts.mk(OpParam, r.fn.Params[2].Name(), r.fn.Params[2].Type())
	if ev.kind == EvMapUpdate {
		where, pos := e.inFn(st)+" registers", ev.in.Pos()
		r.rep.check(ev.b == prefix && ev.c == u, ruleRegister, where, pos, st, "registers %s for %s", ev.c, ev.b)
		valid := false
		for t, f := range st.facts {
			if t.isApp("(*regexp.Regexp).MatchString") && t.args[1] == prefix && f.truth == Yes {
				valid = oneComponent(constRegexp(r.p, t.args[0]))
			}
		}
		r.rep.check(valid, ruleRegister, where+": prefix", pos, st, "the prefix may be something else than one path component")
		path := e.cell(st, u, "url.URL.Path")
		dir := false
		if path != nil {
			dir = e.truth(st, e.ts.mk(OpApp, "strings.HasSuffix", types.Typ[types.Bool], path, e.ts.Str("/"))) == Yes
			if l := flattenConcat(path); len(l) > 1 {
				s, _ := l[len(l)-1].str()
				dir = dir || strings.HasSuffix(s, "/")
			}
		}
		r.rep.check(dir, ruleRegister, where+": base", pos, st, "the path of the URL (%v) may not end with a slash, so that its last component would be lost", path)
		st.mon.add("done", e.ts.True)
	}
	if rootReturn(st, ev) {
		if er := errOf(r.fn, ev.a); er != nil && e.nilness(st, er) != No {
			r.rep.check(st.mon.get("done") != nil, ruleRegister, e.curRoot+" succeeds", r.fn.Pos(), st, "succeeds without registering the prefix")
		}
	}
}

// constRegexp is the expression a global variable is initialised with.
func constRegexp(p *Program, t *Term) string {
	if len(t.args) == 1 && t.args[0].op == OpGlobal {
		t = t.args[0]
	}
	if t.op != OpGlobal || t.glob == nil {
		return ""
	}
	got := ""
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(t.glob) {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" || got != "" {
					return ""
				}
				k, ok := c.Call.Args[0].(*ssa.Const)
				if !ok {
					return ""
				}
				got, _ = constString(k)
			}
		}
	}
	return got
}

// oneComponent says whether an expression matches only non-empty strings
// without slashes and control characters.
func oneComponent(s string) bool {
	if s == "" {
		return false
	}
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) < 3 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		return false
	}
	good := true
	var min func(re *syntax.Regexp) int
	min = func(re *syntax.Regexp) int {
		switch re.Op {
		case syntax.OpLiteral:
			for _, c := range re.Rune {
				if c == '/' || c < ' ' {
					good = false
				}
			}
			return len(re.Rune)
		case syntax.OpCharClass:
			for i := 0; i+1 < len(re.Rune); i += 2 {
				if re.Rune[i] <= '/' && '/' <= re.Rune[i+1] || re.Rune[i] < ' ' {
					good = false
				}
			}
			return 1
		case syntax.OpCapture, syntax.OpPlus:
			return min(re.Sub[0])
		case syntax.OpStar, syntax.OpQuest:
			min(re.Sub[0])
			return 0
		case syntax.OpRepeat:
			return re.Min * min(re.Sub[0])
		case syntax.OpConcat:
			n := 0
			for _, x := range re.Sub {
				n += min(x)
			}
			return n
		case syntax.OpAlternate:
			n := -1
			for _, x := range re.Sub {
				if m := min(x); n < 0 || m < n {
					n = m
				}
			}
			return n
		case syntax.OpBeginText, syntax.OpEndText, syntax.OpEmptyMatch:
			return 0
		}
		good = false
		return 0
	}
	n := min(re)
	return good && n > 0
}

// mappingRule decides which upstreams NewCacher accepts and where requests go.
type mappingRule struct {
	dlBase
	fn, register *ssa.Function
	ep           *errPolicy
}

func (r *mappingRule) Call(e *Engine, st *State, c *Call) Action {
	if c.fn == r.register && len(c.args) == 3 {
		u := c.args[2]
		where := e.inFn(st) + " registers an upstream"
		scheme := e.loaded(u, "url.URL.Scheme")
		if v := e.cell(st, u, "url.URL.Scheme"); v != nil {
			scheme = v
		}
		ok := false
		for _, s := range []string{"http", "https"} {
			ok = ok || e.truth(st, e.eq(scheme, e.ts.Str(s))) == Yes
		}
		r.rep.check(ok, ruleScheme, where, c.pos(), st, "an upstream is registered whose scheme may be neither http nor https")
		r.rep.check(r.pair(c.args[1], u), ruleUpstream, where, c.pos(), st, "registers %s for the prefix %s, which do not belong together in the configuration", u, c.args[1])
		return ActOpaque
	}
	if isRequest(c.name) {
		u := requestURL(e, st, c)
		ok := u != nil && u.isApp(urlmapURL) && r.isURLMap(st, u.args[0])
		r.rep.check(ok, ruleRequest, e.inFn(st)+" sends a request", c.pos(), st, "sends a request to %v, which is not known to be a URL that a path is mapped to", u)
		t := c.args[len(c.args)-1]
		for t.op == OpApp && t.name == "(*net/http.Request).WithContext" {
			t = t.args[0]
		}
		for a, v := range st.mem {
			if a.op == OpField && a.args[0] == t && strings.HasSuffix(a.name, "http.Request.Host") && !isZero(v) {
				r.rep.violate(ruleRequest, e.inFn(st)+" sends a request", c.pos(), "the request has a Host of its own", st.trace)
			}
		}
	}
	return r.action(c)
}

// pair says whether a prefix and a URL are from the same entry of the
// configured mapping.
func (r *mappingRule) pair(prefix, u *Term) bool {
	if !u.isCall("net/url.Parse") || len(u.args) != 1 {
		return false
	}
	s := u.args[0]
	if s.op == OpSym && s.symKind() == "mapval" && len(s.args) == 2 {
		return s.args[1] == prefix
	}
	k := prefix
	if k.op == OpSym && k.symKind() == "iterkey" && s.op == OpSym && s.symKind() == "iterval" {
		return len(k.args) > 0 && len(s.args) > 0 && k.args[0] == s.args[0]
	}
	return false
}

func (r *mappingRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.fn == r.register || c.name == "net/url.Parse" {
		r.ep.after(e, st, c, res)
	}
}

func (r *mappingRule) On(e *Engine, st *State, ev *Event) {
	if rootReturn(st, ev) && r.fn == r.ro.newC {
		r.ep.exit(e, st, errOf(r.fn, ev.a), "the cacher is created")
	}
}

func init() {
	register("K17", "provenance dataflow over the SSA form, with a decision on the automaton of the prefix expression",
		"Covers every path of URLMap.URL, URLMap.Register, NewCacher, Download and Get; net/url's ResolveReference is taken to keep scheme and host for a reference that has only a path; redirects of upstreams are followed by net/http."+trust,
		"URLMap.URL returns nil only when no upstream is registered for the first component of the path (without leading slashes), the base URL only for a path of one component, and otherwise the base resolved with a reference whose only field is the rest of that path. Register stores the URL under the prefix only after the prefix matched an expression whose language is non-empty strings without slashes, with a path ending with a slash. NewCacher registers each configured URL under its prefix only if the scheme is http or https. Every request is for a URL that URLMap.URL returned.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			uf, rf := need(p, rep, "cacher", "URLMap.URL"), need(p, rep, "cacher", "URLMap.Register")
			if ro == nil || uf == nil || rf == nil {
				return
			}
			e := newEngine(p, rep, &urlRule{rep: rep, fn: uf, bad: map[*Term]bool{}, good: map[*Term]bool{}})
			keepAll(e)
			e.runRoot(uf, nil)
			e = newEngine(p, rep, &registerRule{rep: rep, p: p, fn: rf})
			keepAll(e)
			e.runRoot(rf, nil)
			for _, f := range dlRoots(ro) {
				r := &mappingRule{dlBase: dlBase{rep: rep, ro: ro}, fn: f, register: rf, ep: &errPolicy{rep: rep, rule: ruleScheme}}
				dlEngine(p, rep, ro, r).runRoot(f, nil)
			}
			callersSeen(p, rep, rf)
			// no other function changes the mapping
			for _, f := range p.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if mu, ok := in.(*ssa.MapUpdate); ok && typeName(mu.Map.Type()) == "cacher.URLMap" && f != rf {
							rep.violate(ruleRegister, fnLabel(f)+" changes the mapping", in.Pos(), "changes the mapping of prefixes without Register", nil)
						}
					}
				}
			}
			rep.floor(ruleUpstream, 3)
			rep.floor(ruleRelative, 2)
			rep.floor(ruleRegister, 4)
			rep.floor(ruleScheme, 2)
			rep.floor(ruleRequest, 1)
		})
}

// keepAll is for small functions: nothing is forgotten.
func keepAll(e *Engine) {
	e.joinAt = 1 << 30
	e.keepFact = func(*Term) bool { return true }
	e.keepCell = func(a *Term) bool { return a.op == OpField }
	e.keepMap = func(*Term) bool { return true }
}
