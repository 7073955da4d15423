package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what the rules about downloads have in common

const (
	aptPkg     = modulePath + "/apt"
	aptIsMeta  = aptPkg + ".IsMeta"
	aptExtract = aptPkg + ".ExtractFileInfo"
	aptCopy    = aptPkg + ".CopyWithFileInfo"
	aptPath    = "(*" + aptPkg + ".FileInfo).Path"
	aptSame    = "(*" + aptPkg + ".FileInfo).Same"
	aptAddPfx  = "(*" + aptPkg + ".FileInfo).AddPrefix"
	urlmapURL  = "(" + modulePath + "/cacher.URLMap).URL"
)

type dlBase struct {
	NopRule
	rep *Report
	ro  *cacherRoles
}

func (r *dlBase) Call(e *Engine, st *State, c *Call) Action { return r.action(c) }

// action: the store is seen from outside.
func (r *dlBase) action(c *Call) Action {
	if c.fn != nil && c.fn.Signature.Recv() != nil && typeName(deref(c.fn.Signature.Recv().Type())) == "cacher.Storage" && c.fn.Object() != nil && c.fn.Object().Exported() {
		return ActOpaque
	}
	if c.name == modulePath+"/cacher.NewStorage" {
		return ActOpaque
	}
	return summarise(c)
}

func isRequest(name string) bool {
	switch name {
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Head", "(*net/http.Client).Post", "(*net/http.Client).PostForm",
		"net/http.Get", "net/http.Head", "net/http.Post", "net/http.PostForm", "(*net/http.Transport).RoundTrip", "(net/http.RoundTripper).RoundTrip":
		return true
	}
	return false
}

// requestURL is the URL that a request is made for, nil if unknown.
func requestURL(e *Engine, st *State, c *Call) *Term {
	if strings.HasSuffix(c.name, ".Do") || strings.HasSuffix(c.name, ".RoundTrip") {
		t := c.args[len(c.args)-1]
		for t.op == OpApp && (t.name == "(*net/http.Request).WithContext" || t.name == "(*net/http.Request).Clone") || t.op == OpSym && t.symKind() == "(*net/http.Request).Clone" {
			t = t.args[0]
		}
		if t.op == OpAlloc {
			for a, v := range st.mem {
				if a.op == OpField && a.args[0] == t && strings.HasSuffix(a.name, "http.Request.URL") {
					return v
				}
			}
			return nil
		}
		if t.isCall("net/http.NewRequest") && len(t.args) == 3 {
			return urlOfString(t.args[1])
		}
		if t.isCall("net/http.NewRequestWithContext") && len(t.args) == 4 {
			return urlOfString(t.args[2])
		}
		return nil
	}
	for _, a := range c.args {
		if u := urlOfString(a); u != nil {
			return u
		}
	}
	return nil
}

func urlOfString(t *Term) *Term {
	if t.isApp("(*net/url.URL).String") {
		return t.args[0]
	}
	return nil
}

// loadOf is the object and the field a value was loaded from.
func loadOf(t *Term) (*Term, string) {
	if (t.op == OpLoad || t.op == OpSym && t.symKind() == "load") && len(t.args) == 1 && t.args[0].op == OpField {
		return t.args[0].args[0], t.args[0].name
	}
	return nil, ""
}

// loaded is the term for a never modified field of an object.
func (e *Engine) loaded(obj *Term, field string) *Term {
	return e.ts.mk(OpLoad, "", nil, e.ts.mk(OpField, field, nil, obj))
}

// statusIs says whether the status of a response is n.
func statusIs(e *Engine, st *State, resp *Term, n int64) Tri {
	return e.truth(st, e.eq(e.loaded(resp, "http.Response.StatusCode"), e.ts.Int(n)))
}

// bodyOf is the response that a reader delivers the whole body of.
func bodyOf(t *Term) *Term {
	for t.isApp("io.TeeReader") || t.isApp("io.NopCloser") {
		t = t.args[0]
	}
	if t.isCall("bufio.NewReader") && len(t.args) == 1 {
		t = t.args[0]
	}
	o, f := loadOf(t)
	if strings.HasSuffix(f, "http.Response.Body") {
		return o
	}
	return nil
}

const monSynced = "synced"

// syncEvents keeps the files that were synced after their last write.
func syncEvents(e *Engine, st *State, c *Call, res *Term) {
	switch c.name {
	case "(*os.File).Sync", "syscall.Fsync", "golang.org/x/sys/unix.Fsync":
		if e.nilness(st, comps(res)[0]) == Yes && len(c.args) > 0 {
			f := c.args[0]
			for f.op == OpApp && (f.name == "(*os.File).Fd" || strings.HasPrefix(f.name, "conv:")) {
				f = f.args[0]
			}
			st.mon.add(monSynced, f)
		}
		return
	case "(*os.File).Name", "(*os.File).Close", "(*os.File).Seek", "(*os.File).Stat", "(*os.File).Chmod", "(*os.File).Fd", "(*os.File).Read", aptExtract:
		return
	}
	if c.inlined {
		return
	}
	for _, a := range c.args {
		for _, f := range append([]*Term(nil), st.mon[monSynced]...) {
			if stripConv(a) == f || sinkOf(a, f) {
				st.mon.del(monSynced, f)
			}
		}
	}
}

// sinkOf says whether writing to w writes to f.
func sinkOf(w, f *Term) bool {
	return w.op == OpApp && strings.HasPrefix(w.name, "io.") && w.contains(f)
}

func isFileInfoPtr(t types.Type) bool { return ptrTo(t, "apt.FileInfo") }

// prefixParts recognises the prefix (0) and the rest (1) of a path.
func prefixParts(t *Term) (*Term, int64) {
	p, i := splitAt(t, "/")
	if p != nil {
		p = uncleaned(p)
	}
	return p, i
}

func uncleaned(t *Term) *Term {
	for t.isApp("path.Clean") || t.isApp("path/filepath.Clean") {
		t = t.args[0]
	}
	return t
}

// dlEngine is the engine for the rules about downloads.
func dlEngine(p *Program, rep *Report, ro *cacherRoles, rule Rule) *Engine {
	e := newEngine(p, rep, rule)
	e.joinAt = 40
	e.keepFact = func(t *Term) bool {
		if t.isApp(aptSame) || t.isApp(aptIsMeta) || t.op == OpParam && isFileInfoPtr(t.typ) {
			return true
		}
		if t.isApp("==") {
			return t.any(func(x *Term) bool { return x.op == OpSym && x.symKind() == "mapval" && fieldOf(x.args[0]) == ro.info })
		}
		o, f := loadOf(t)
		return o != nil && (strings.HasSuffix(f, "http.Response.StatusCode") || strings.HasSuffix(f, "url.URL.Scheme"))
	}
	e.keepMap = func(m *Term) bool { return fieldOf(m) == ro.info || m.op == OpAlloc && isInfoMap(m.typ) }
	return e
}

// copied says whether fi describes what was copied, and returns the
// destination, the source and the path.
func copied(fi *Term) (dst, src, p *Term, ok bool) {
	if fi.op == OpSym && fi.symKind() == aptCopy && fi.symIdx() == 0 && len(fi.args) == 3 {
		return stripConv(fi.args[0]), fi.args[1], fi.args[2], true
	}
	return nil, nil, nil, false
}

// infoHeld says whether the lock of the known checksums is held for writing.
func (r *dlBase) infoHeld(st *State) bool {
	for _, l := range st.locks {
		if l.write && lockClass(l.lock) == r.ro.p.guard[r.ro.info] {
			return true
		}
	}
	return false
}

// known is the entry for a path in the table of known checksums: present,
// absent or not looked up.
func (r *dlBase) known(st *State, p *Term) (*Term, Tri) {
	for _, x := range st.maps {
		if fieldOf(x.m) == r.ro.info && (x.k == p || x.k.isApp(aptPath) && pathIs(x.k.args[0], p)) {
			return x.val, x.ok
		}
	}
	return nil, Unknown
}

// pathIs says whether fi is the description of path p.
func pathIs(fi, p *Term) bool {
	_, _, q, ok := copied(fi)
	return ok && q == p
}

// ---- K02

type admitRule struct {
	dlBase
	fn   *ssa.Function
	meta string            // the field of the store of indices
	dirs map[string]string // the configured directory of each store
}

// storeOf is the field of a store.
func (r *admitRule) storeOf(t *Term) string {
	if _, f := loadOf(t); contains(r.ro.storages, f) {
		return f
	}
	if t.isCall(modulePath+"/cacher.NewStorage") && len(t.args) > 0 {
		return storeOfDir(r.dirs, t)
	}
	return ""
}

func storeOfDir(dirs map[string]string, t *Term) string {
	got := ""
	t.args[0].each(func(x *Term) {
		_, f := loadOf(x)
		for s, d := range dirs {
			if f == d && f != "" {
				got = s
			}
		}
	})
	return got
}

const (
	ruleAdmit     = "an item is stored only after a complete and verified download"
	ruleWhichItem = "the item is stored under the path it was requested for"
	ruleWhere     = "indices and only they are kept in the metadata store"
)

func (r *admitRule) Call(e *Engine, st *State, c *Call) Action {
	if c.fn == r.ro.insert {
		r.insert(e, st, c)
	}
	if c.fn == r.ro.lookup {
		r.place(e, st, c, c.args[1])
	}
	return r.action(c)
}

func (r *admitRule) After(e *Engine, st *State, c *Call, res *Term) {
	syncEvents(e, st, c, res)
	if isRequest(c.name) && e.nilness(st, comps(res)[0]) != Yes {
		if u := requestURL(e, st, c); u != nil {
			st.mon.add("resp", e.ts.mk(OpApp, "resp", nil, comps(res)[0], u))
		}
	}
}

// place checks which store is used for an item.
func (r *admitRule) place(e *Engine, st *State, c *Call, fi *Term) {
	f := r.storeOf(c.args[0])
	if f == "" {
		r.rep.violate(ruleWhere, e.inFn(st)+" uses a store", c.pos(), "uses "+c.args[0].String()+", which is not one of the two stores", st.trace)
		return
	}
	want := No
	if f == r.meta {
		want = Yes
	}
	got := Unknown
	if l, _ := lineOf(fi); l != nil && l.isCall(r.ro.listAll.String()) && len(l.args) > 0 && r.storeOf(l.args[0]) == f {
		return // what a store has listed is in it
	}
	for t, x := range st.facts {
		if t.isApp(aptIsMeta) && x.truth != Unknown && r.sameItem(e, st, t.args[0], fi) {
			got = x.truth
		}
	}
	r.rep.check(got == want, ruleWhere, e.inFn(st)+" uses "+f+" for "+c.fn.Name(), c.pos(), st, "uses %s although it is not established whether the item is an index, or it is the other store", f)
}

func (r *dlBase) isURLMap(st *State, t *Term) bool {
	f, _ := contents(st, t)
	return f == r.ro.um || fieldOf(t) == r.ro.um
}

// sameItem says whether path p is the path of fi.
func (r *admitRule) sameItem(e *Engine, st *State, p, fi *Term) bool {
	if p.isApp(aptPath) && p.args[0] == fi || pathIs(fi, p) {
		return true
	}
	// what is known for a path has that path
	if fi.op == OpSym && fi.symKind() == "mapval" && len(fi.args) == 2 && fieldOf(fi.args[0]) == r.ro.info && fi.args[1] == p {
		return true
	}
	return false
}

func (r *admitRule) insert(e *Engine, st *State, c *Call) {
	where := e.inFn(st) + " stores an item"
	pos := c.pos()
	file, fi := c.args[1], c.args[2]
	dst, src, p, ok := copied(fi)
	if !r.rep.check(ok, ruleAdmit, where+": checksums", pos, st, "the checksums stored (%s) are not those computed while the item was copied", fi) {
		return
	}
	r.rep.check(file.isApp("(*os.File).Name") && file.args[0] == dst, ruleAdmit, where+": file", pos, st, "the file stored (%s) is not the one that the item was copied to (%s)", file, dst)
	resp := bodyOf(src)
	r.rep.check(resp != nil && resp.op == OpSym, ruleAdmit, where+": source", pos, st, "the item was not copied from the whole body of a response but from %s", src)
	if resp == nil {
		return
	}
	r.rep.check(statusIs(e, st, resp, 200) == Yes, ruleAdmit, where+": status", pos, st, "the status of the response may be other than 200")
	r.rep.check(st.mon.has(monSynced, dst), ruleAdmit, where+": flushed", pos, st, "the file has not been synced after its last write")
	var u *Term
	for _, x := range st.mon["resp"] {
		if x.args[0] == resp {
			u = x.args[1]
		}
	}
	good := u != nil && u.isApp(urlmapURL) && len(u.args) == 2 && u.args[1] == p && r.isURLMap(st, u.args[0])
	r.rep.check(good, ruleWhichItem, where+": URL", pos, st, "the response is not known to be for the URL that belongs to path %s", p)
	if r.fn == r.ro.download {
		for i, a := range r.fn.Params {
			if i == 0 || !isFileInfoPtr(a.Type()) {
				continue
			}
			v := e.ts.mk(OpParam, a.Name(), a.Type())
			good := e.nilness(st, v) == Yes || e.truth(st, e.ts.mk(OpApp, aptSame, nil, v, fi)) == Yes
			r.rep.check(good, ruleAdmit, where+": expected checksum", pos, st, "the item may not match the checksum that the caller expects")
		}
		for i, a := range r.fn.Params {
			if i > 0 && a.Type().Underlying().String() == "string" {
				r.rep.check(p.op == OpParam && p.name == a.Name(), ruleWhichItem, where+": path", pos, st, "the item is stored as %s instead of the path that was asked for", p)
			}
		}
	}
	r.place(e, st, c, fi)
}

// metaStore finds the store that is created in the directory for indices.
func metaStore(p *Program, rep *Report, ro *cacherRoles) (string, map[string]string) {
	r := &ctorRule{dlBase: dlBase{rep: rep, ro: ro}, dirs: map[string]string{}}
	e := newEngine(p, rep, r)
	e.noSpawn = true
	e.joinAt = 2
	e.runRoot(ro.newC, nil)
	m := ""
	for f, d := range r.dirs {
		if strings.Contains(strings.ToLower(d), "meta") {
			if m != "" {
				m = "?"
			} else {
				m = f
			}
		}
	}
	if m == "" || m == "?" || len(r.dirs) != 2 {
		rep.missing("the store that NewCacher creates in the directory for metadata")
		return "", nil
	}
	return m, r.dirs
}

type ctorRule struct {
	dlBase
	dirs map[string]string
	set  map[string][]*Term // values of the fields
}

// configured finds the fields of the cacher that hold configured numbers by
// what NewCacher puts there, and returns the values.
func configured(p *Program, rep *Report, ro *cacherRoles) map[string][]*Term {
	r := &ctorRule{dlBase: dlBase{rep: rep, ro: ro}, dirs: map[string]string{}, set: map[string][]*Term{}}
	e := newEngine(p, rep, r)
	e.noSpawn = true
	e.joinAt = 2
	e.runRoot(ro.newC, nil)
	for what, dst := range map[string]*string{"CheckInterval": &ro.interval, "CachePeriod": &ro.period, "MaxConns": &ro.maxConns} {
		found := ""
		for f, l := range r.set {
			for _, t := range l {
				if t.any(func(x *Term) bool { _, g := loadOf(x); return strings.HasSuffix(g, "cacher.Config."+what) }) {
					found = f
				}
			}
		}
		if found == "" {
			rep.missing("the field of cacher.Cacher that gets the configured " + what)
			continue
		}
		*dst = found
	}
	return r.set
}

// configuredAs checks that a field always gets a configured number, or that
// many seconds.
func configuredAs(rep *Report, rule, field, what string, seconds bool, fn *ssa.Function, set map[string][]*Term) {
	for _, t := range set[field] {
		v := stripConv(t)
		ok := true
		if seconds {
			n := int64(0)
			if v.isApp("*") && len(v.args) == 2 {
				for i, a := range v.args {
					if m, isC := a.int(); isC {
						n, v = m, stripConv(v.args[1-i])
						break
					}
				}
			}
			ok = n == 1000000000
		}
		_, f := loadOf(v)
		rep.check(ok && strings.HasSuffix(f, "cacher.Config."+what), rule, field+" is the configured "+what, fn.Pos(), newState(), "gets %s", t)
	}
}

func (r *ctorRule) On(e *Engine, st *State, ev *Event) {
	if r.set != nil && ev.kind == EvStore && ev.a.op == OpField && strings.HasPrefix(ev.a.name, "cacher.Cacher.") {
		r.set[ev.a.name] = append(r.set[ev.a.name], ev.b)
	}
	if ev.kind == EvStore && ev.a.op == OpField && contains(r.ro.storages, ev.a.name) && ev.b.isCall(modulePath+"/cacher.NewStorage") && len(ev.b.args) > 0 {
		ev.b.args[0].each(func(x *Term) {
			if _, f := loadOf(x); f != "" {
				r.dirs[ev.a.name] = f
			}
		})
	}
}

func dlRoots(ro *cacherRoles) []*ssa.Function { return []*ssa.Function{ro.download, ro.get, ro.newC} }

func init() {
	register("K02", "typestate and provenance dataflow over the SSA form of the download path (goroutines followed from where they are started)",
		"Covers every path of Download, Get and NewCacher, including the goroutines that they start, with arbitrary responses and failures; the store's methods are taken as their contracts (K05, K13), CopyWithFileInfo as decided by A02."+trust,
		"At every call of Storage.Insert: the checksums are those computed by CopyWithFileInfo, the file is its destination, the source is the body of a response with status 200 to the URL of the same path, the file was synced after its last write, the data match the caller's expected checksum, and the store is the metadata store exactly if apt.IsMeta holds for the path.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			if ro == nil {
				return
			}
			m, dirs := metaStore(p, rep, ro)
			if m == "" {
				return
			}
			for _, f := range dlRoots(ro) {
				r := &admitRule{dlBase: dlBase{rep: rep, ro: ro}, fn: f, meta: m, dirs: dirs}
				dlEngine(p, rep, ro, r).runRoot(f, nil)
			}
			callersSeen(p, rep, ro.insert)
			rep.floor(ruleAdmit, 6)
			rep.floor(ruleWhichItem, 2)
			rep.floor(ruleWhere, 4)
		})
}

// callersSeen makes sure that every function that calls fn was analysed.
func callersSeen(p *Program, rep *Report, fn *ssa.Function) {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				used := false
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(fn) {
						used = true
					}
				}
				if used && !rep.fns[shortName(f.String())] {
					rep.violate("anchor", fnLabel(f)+" calls "+fn.Name(), in.Pos(), "this call is reached from none of the entry points that were analysed", nil)
				}
			}
		}
	}
}

// ---- K04

type obsoleteRule struct{ dlBase }

const ruleObsolete = "downloaded data replace what is known only if they match what is known now"

func (r *obsoleteRule) Call(e *Engine, st *State, c *Call) Action {
	if c.fn == r.ro.insert {
		r.fresh(e, st, e.inFn(st)+" stores an item", c, c.args[2])
	}
	return r.action(c)
}

// remember keeps what was found in the table of known checksums.
func (r *dlBase) remember(e *Engine, st *State, ev *Event) {
	if ev.kind != EvMapLookup || fieldOf(ev.a) != r.ro.info || ev.c == nil {
		return
	}
	k := "found" + strconv.Itoa(int(ev.in.Pos()))
	delete(st.mon, k)
	st.mon.add(k, ev.c)
}

func (r *obsoleteRule) On(e *Engine, st *State, ev *Event) {
	r.remember(e, st, ev)
	if ev.kind == EvMapUpdate && fieldOf(ev.a) == r.ro.info {
		if _, _, _, ok := copied(ev.c); ok && !st.mon.has("stored", ev.c) {
			r.rep.violate(ruleObsolete, e.inFn(st)+" changes what is known", ev.in.Pos(), "the checksum of downloaded data becomes known although they were not stored in this critical section", st.trace)
		}
	}
	if ev.kind == EvUnlock && lockClass(ev.a) == r.ro.p.guard[r.ro.info] {
		delete(st.mon, "stored")
	}
}

func (r *obsoleteRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.fn == r.ro.insert && e.nilness(st, comps(res)[0]) == Yes {
		st.mon.add("stored", c.args[2])
	}
}

func (r *obsoleteRule) fresh(e *Engine, st *State, where string, c *Call, fi *Term) {
	_, _, p, ok := copied(fi)
	if !ok {
		r.rep.violate(ruleObsolete, where, c.pos(), "the data stored are not described by what was computed while they were copied", st.trace)
		return
	}
	r.rep.check(r.infoHeld(st), ruleObsolete, where+": lock", c.pos(), st, "the lock of the known checksums is not held for writing, so that they may change meanwhile")
	val, has := r.known(st, p)
	good := has == No || val != nil && (e.nilness(st, val) == Yes || r.matches(e, st, val, fi))
	r.rep.check(good, ruleObsolete, where+": known checksum", c.pos(), st, "the checksum that is known for %s at this time (%s) may be another one", p, val)
}

// matches says whether fi matches x.
func (r *obsoleteRule) matches(e *Engine, st *State, x, fi *Term) bool {
	for t, f := range st.facts {
		if t.isApp(aptSame) && f.truth == Yes && t.args[1] == fi && (t.args[0] == x || e.truth(st, e.eq(t.args[0], x)) == Yes) {
			return true
		}
	}
	return false
}

func init() {
	register("K04", "path-sensitive dataflow over the SSA form of the download path with the lock regions of the known checksums",
		"Covers every path of Download and Get including the download goroutine; downloads started by the periodic refresh are exempt as the property says."+trust,
		"At every call of Storage.Insert in a download that a request started: the lock of the known checksums is held for writing, and in this critical section the entry of the item was found to be absent, or the downloaded data match it. Checksums of downloaded data become known only after they were stored in the same critical section.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			if ro == nil {
				return
			}
			for _, f := range []*ssa.Function{ro.download, ro.get} {
				dlEngine(p, rep, ro, &obsoleteRule{dlBase{rep: rep, ro: ro}}).runRoot(f, nil)
			}
			rep.floor(ruleObsolete, 2)
		})
}

func isInfoMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isFileInfoPtr(m.Elem())
}
