package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- M12

const (
	ruleMirrConf   = "a configuration of a mirror is accepted only if it is known to be good"
	ruleSuites     = "the kind of every suite is compared with that of the first one"
	ruleNewMirror  = "a mirror is set up only if its ID and configuration are known to be good"
	ruleAllFirst   = "all mirrors are set up before any of them is updated"
	ruleNewCacher  = "a cacher is set up only if its configuration is known to be good"
	ruleMapping    = "every entry of the mapping is checked and registered"
	rulePrefix     = "only valid prefixes are registered"
	ruleCommand    = "a command goes on only with a configuration that was read completely and is valid"
	ruleExitStatus = "a command whose configuration is invalid exits with an error status"
)

// configRule follows what is known of the fields of a configuration when it
// is accepted.
type configRule struct {
	mirBase
	prop     string
	fn       *ssa.Function
	check    *ssa.Function // MirrConfig.Check
	cacherNS *ssa.Function // cacher.NewStorage
	cacherNC *ssa.Function
	w        *walker
}

func (r *configRule) chk(ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) {
	r.rep.check(ok, rule, where, pos, st, format, args...)
}

// confField says whether t is read from a field of a configuration.
func confField(t *Term, field string) bool {
	_, f := loadOf(t)
	return f == field || strings.HasSuffix(f, "."+field)
}

// atLeast says whether a field of a configuration is known to be at least n.
func (r *configRule) atLeast(e *Engine, st *State, field string, n int64) bool {
	ok := false
	r.about(st, func(t *Term) {
		x := stripConv(t)
		if confField(x, field) {
			if lo, _, hl, _ := e.bounds(st, x); hl && lo >= n || e.truth(st, e.lt(x, e.ts.Int(n))) == No {
				ok = true
			}
			if n == 1 && e.truth(st, e.lt(e.ts.Int(0), x)) == Yes {
				ok = true
			}
		}
	})
	return ok
}

// about visits the terms that facts mention.
func (r *configRule) about(st *State, f func(t *Term)) {
	seen := map[*Term]bool{}
	for t := range st.facts {
		t.any(func(x *Term) bool {
			if !seen[x] {
				seen[x] = true
				f(x)
			}
			return false
		})
	}
}

// listLen is what is known of the length of a list in a configuration.
func (r *configRule) listLen(e *Engine, st *State, field string) (empty, filled bool) {
	r.about(st, func(t *Term) {
		if !t.isApp("len") || !confField(t.args[0], field) {
			return
		}
		lo, hi, hl, hh := e.bounds(st, t)
		zero := e.truth(st, e.eq(t, e.ts.Int(0)))
		empty = empty || hh && hi <= 0 || zero == Yes
		filled = filled || hl && lo > 0 || zero == No
	})
	r.about(st, func(t *Term) {
		if confField(t, field) && e.nilness(st, t) == Yes {
			empty = true
		}
	})
	return
}

// flatness is what is known of the kind of a suite.
func flatness(e *Engine, st *State, is func(t *Term) bool) (Tri, *Term) {
	for t := range st.facts {
		for _, x := range append([]*Term{t}, t.args...) {
			if x.isApp("strings.HasSuffix") && is(x.args[0]) {
				if s, ok := x.args[1].str(); ok && s == "/" {
					return e.truth(st, x), x
				}
			}
		}
	}
	return Unknown, nil
}

func (r *configRule) isSuites(t *Term) bool {
	for t.isApp("slice") {
		if n, ok := t.args[1].int(); !ok || n > 1 || t.args[2].op != OpNil {
			return false
		}
		t = t.args[0]
	}
	return confField(t, "MirrConfig.Suites")
}

func (r *configRule) first(t *Term) bool {
	l, i := lineOf(t)
	if l == nil {
		return false
	}
	n, ok := i.int()
	return ok && n == 0 && confField(l, "MirrConfig.Suites")
}

// accepted checks what is known when MirrConfig.Check accepts.
func (r *configRule) accepted(e *Engine, st *State, pos token.Pos) {
	where := e.inFn(st) + " accepts a configuration"
	url := false
	r.about(st, func(t *Term) {
		_, f := loadOf(t)
		if strings.HasSuffix(f, "tomlURL.URL") && e.nilness(st, t) == No {
			url = true
		}
	})
	r.chk(url, ruleMirrConf, where+" with a URL", pos, st, "the URL may be missing")
	_, filled := r.listLen(e, st, "MirrConfig.Suites")
	r.chk(filled, ruleMirrConf, where+" with suites", pos, st, "there may be no suites")
	flat, _ := flatness(e, st, r.first)
	if flat != No {
		for _, f := range []string{"MirrConfig.Sections", "MirrConfig.Architectures"} {
			empty, _ := r.listLen(e, st, f)
			r.chk(empty, ruleMirrConf, where+" of a flat repository without "+f, pos, st, "a flat repository may have %s", f)
		}
	}
	done := false
	for _, c := range st.mon[r.w.k("done")] {
		done = done || r.isSuites(c)
	}
	r.chk(done, ruleSuites, where, pos, st, "suites may be left that were not compared with the first one")
}

func (r *configRule) endSuite(e *Engine, st *State, coll, cur *Term, in ssa.Instruction) {
	if i, ok := cur.args[1].int(); ok && i == 0 && !coll.isApp("slice") {
		return // the first one
	}
	f1, t1 := flatness(e, st, r.first)
	f2, t2 := flatness(e, st, func(t *Term) bool { return isElem(t, cur) })
	ok := f1 != Unknown && f1 == f2 || t1 != nil && t2 != nil && e.truth(st, e.eq(t1, t2)) == Yes
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	r.chk(ok, ruleSuites, e.inFn(st)+" goes on", pos, st, "this suite and the first one may be of different kinds")
}

// goodMirror checks what is known when a mirror is set up.
func (r *configRule) goodMirror(e *Engine, st *State, where string, pos token.Pos) {
	var id *Term
	for _, p := range r.fn.Params {
		if p.Type().Underlying().String() == "string" {
			id = e.ts.mk(OpParam, p.Name(), p.Type())
		}
	}
	r.chk(id != nil && validID(e, st, id), ruleNewMirror, where+": valid ID", pos, st, "the ID may be invalid")
	known := false
	for _, x := range st.maps {
		if confField(x.m, "Config.Mirrors") && x.ok == Yes && e.sameValue(st, x.k, id) == Yes {
			known = true
		}
	}
	r.about(st, func(t *Term) {
		if t.op == OpSym && t.symKind() == "mapval" && len(t.args) == 2 && confField(t.args[0], "Config.Mirrors") && t.args[1] == id && e.nilness(st, t) == No {
			known = true
		}
	})
	r.chk(known, ruleNewMirror, where+": known ID", pos, st, "there may be no mirror of this ID")
	checked := false
	for _, x := range st.mon["checked"] {
		checked = checked || e.nilness(st, x.args[1]) == Yes && r.entryOf(e, st, x.args[0], id)
	}
	r.chk(checked, ruleNewMirror, where+": configuration", pos, st, "the configuration of the mirror may be bad")
	r.chk(r.atLeast(e, st, "Config.MaxConns", 0), ruleNewMirror, where+": connections", pos, st, "the limit of connections may be negative")
}

// entryOf says whether t is the entry of the map of mirrors.
func (r *configRule) entryOf(e *Engine, st *State, t, id *Term) bool {
	for _, x := range st.maps {
		if x.val == t && confField(x.m, "Config.Mirrors") && e.sameValue(st, x.k, id) == Yes {
			return true
		}
	}
	return t.op == OpSym && len(t.args) == 2 && confField(t.args[0], "Config.Mirrors") && t.args[1] == id
}

// goodCacher checks what is known when a cacher is set up or starts
// something.
func (r *configRule) goodCacher(e *Engine, st *State, where string, pos token.Pos) {
	r.chk(r.atLeast(e, st, "Config.CheckInterval", 1), ruleNewCacher, where+": interval", pos, st, "the interval may not be positive")
	r.chk(r.atLeast(e, st, "Config.CacheCapacity", 1), ruleNewCacher, where+": capacity", pos, st, "the capacity may not be positive")
	r.chk(r.atLeast(e, st, "Config.MaxConns", 0), ruleNewCacher, where+": connections", pos, st, "the limit of connections may be negative")
	dirs := st.mon["dir"]
	r.chk(len(dirs) >= 2, ruleNewCacher, where+": storages", pos, st, "%d directories", len(dirs))
	for i, d := range dirs {
		f := ""
		if cleaned(d) != nil {
			_, f = loadOf(cleaned(d))
		}
		r.chk(strings.HasSuffix(f, "Directory"), ruleNewCacher, where+": cleaned "+d.show(2), pos, st, "%s is not the cleaned path of a directory in the configuration", d)
		abs := false
		for t, x := range st.facts {
			if x.truth == Yes && (t.isApp("path/filepath.IsAbs") || t.isApp("path.IsAbs")) && (t.args[0] == d || t.args[0] == cleaned(d)) {
				abs = true
			}
		}
		r.chk(abs, ruleNewCacher, where+": absolute "+d.show(2), pos, st, "%s may be a relative path", d)
		for _, d2 := range dirs[:i] {
			r.chk(d != d2 && e.sameValue(st, d, d2) == No, ruleNewCacher, where+": different", pos, st, "%s and %s may be equal", d, d2)
		}
	}
	done := false
	for _, c := range st.mon[r.w.k("done")] {
		done = done || confField(c, "Config.Mapping")
	}
	r.chk(done, ruleMapping, where, pos, st, "entries of the mapping may not have been checked")
}

func cleaned(t *Term) *Term {
	if t.isApp("path/filepath.Clean") || t.isApp("path.Clean") {
		return t.args[0]
	}
	return nil
}

func (r *configRule) endMapping(e *Engine, st *State, coll, cur *Term, in ssa.Instruction) {
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	ok := false
	for _, x := range st.mon["registered"] {
		if len(cur.args) < 3 || x.args[0] != cur.args[1] || e.nilness(st, x.args[2]) != Yes {
			continue
		}
		u := x.args[1]
		if u.isCall("net/url.Parse") && u.symIdx() == 0 && len(u.args) > 0 && u.args[0] == cur.args[2] {
			ok = true
		}
	}
	r.chk(ok, ruleMapping, e.inFn(st)+" goes on", pos, st, "the entry may not have been registered under its prefix")
	delete(st.mon, "registered")
}

func (r *configRule) Call(e *Engine, st *State, c *Call) Action {
	where, pos := e.inFn(st)+" calls "+shortName(c.name), c.pos()
	switch r.prop {
	case "mirror":
		if _, ok := fsWrites[c.name]; ok || c.fn == r.ro.newStorage || isStorage(c.fn) {
			if ok {
				r.goodMirror(e, st, where, pos)
			}
			return ActOpaque
		}
		if c.fn == r.check {
			return ActOpaque
		}
	case "check":
		return ActDefault
	case "run":
		if c.fn == r.ro.newM {
			r.chk(!st.mon.flag("started"), ruleAllFirst, where, pos, st, "mirrors may be updated already")
			return ActOpaque
		}
		if c.fn == r.ro.update {
			r.start(e, st, where, pos)
			return ActOpaque
		}
		if c.fn != nil && r.rep.p.inRepo(c.fn) && !r.ro.updates(c.fn) {
			return ActHavoc
		}
	case "register":
		return ActDefault
	case "cacher":
		if c.fn == r.cacherNS {
			st.mon.add("dir", c.args[0])
			return ActOpaque
		}
		if c.fn != nil && strings.HasSuffix(c.name, "cacher.URLMap).Register") {
			k, u := c.args[len(c.args)-2], c.args[len(c.args)-1]
			good := false
			for t, x := range st.facts {
				_ = x
				if confField(t, "url.URL.Scheme") {
					s, ok := e.eqOf(st, t).str()
					good = good || ok && (s == "http" || s == "https")
				}
			}
			perr := false
			for _, x := range st.mon["parsed"] {
				perr = perr || x.args[0] == u && e.nilness(st, x.args[1]) == Yes
			}
			r.chk(perr, ruleMapping, where+": parsed", pos, st, "the URL for %s may not have been parsed", k)
			r.chk(good, ruleMapping, where+": scheme", pos, st, "the scheme of the URL for %s may be other than http and https", k)
			return ActOpaque
		}
		if c.fn != nil && r.rep.p.inRepo(c.fn) {
			if r.rep.p.spawns(c.fn) || r.rep.p.requests(c.fn) {
				r.goodCacher(e, st, where, pos)
				return ActHavoc
			}
			if v := c.fn.Signature.Recv(); v != nil && typeName(deref(v.Type())) != "cacher.Config" || c.fn.Pkg == nil || !strings.HasSuffix(c.fn.Pkg.Pkg.Path(), "/cacher") {
				return ActHavoc
			}
		}
	case "command":
		if strings.HasSuffix(c.name, "toml.MetaData).Undecoded") {
			md := c.args[0]
			if st.mem[md] != nil {
				md = st.mem[md]
			}
			st.mon.set("md", md)
		}
		if exits(c.name) {
			if c.name == "os.Exit" {
				if n, ok := c.args[0].int(); !ok || n == 0 {
					r.ended(e, st, where, pos)
				}
			} else if strings.HasPrefix(c.name, "runtime.") {
				r.ended(e, st, where, pos)
			}
			return ActDefault
		}
		if c.fn != nil && r.rep.p.inRepo(c.fn) {
			if c.fn == r.ro.run || c.fn == r.cacherNC || c.fn.Name() == "NewServer" {
				for _, a := range c.args {
					if n := confType(a); n == "mirror.Config" || n == "cacher.Config" {
						r.goodCommand(e, st, a, where, pos)
					}
				}
				return ActOpaque
			}
			if c.fn.Pkg != nil && c.fn.Pkg.Pkg.Name() == "main" {
				return ActDefault
			}
			return ActOpaque
		}
	}
	return r.action(c)
}

// confType is the type of a value, or of what it points to.
func confType(t *Term) string {
	if t.typ == nil {
		return ""
	}
	return typeName(deref(t.typ))
}

// goodCommand: what is known of the configuration when it is used.
func (r *configRule) goodCommand(e *Engine, st *State, cfg *Term, where string, pos token.Pos) {
	decoded := false
	for _, x := range st.mon["decoded"] {
		if e.nilness(st, x.args[1]) != Yes || !(x.args[0] == cfg || x.args[0].op == OpAlloc && st.mem[x.args[0]] == cfg) {
			continue
		}
		decoded = true
		keys := false
		for _, y := range st.mon["undecoded"] {
			keys = keys || y.args[1] == x.args[2] && e.absent(st, y.args[0]) == Yes
		}
		r.chk(keys, ruleCommand, where+": keys", pos, st, "the configuration may have unknown keys")
	}
	r.chk(decoded, ruleCommand, where+": read", pos, st, "the configuration may not have been read without an error")
}

// ended: the command ends with status 0.
func (r *configRule) ended(e *Engine, st *State, where string, pos token.Pos) {
	for _, x := range st.mon["must"] {
		r.chk(e.nilness(st, x.args[0]) == Yes, ruleExitStatus, where+" after "+x.args[1].show(1), pos, st, "the command may end with status 0 although %s failed", x.args[1])
	}
	r.chk(len(st.mon["must"]) > 0, ruleExitStatus, where, pos, st, "the command may end with status 0 without having read its configuration")
	for _, y := range st.mon["undecoded"] {
		r.chk(e.absent(st, y.args[0]) == Yes, ruleExitStatus, where+": keys", pos, st, "the command may end with status 0 although there are unknown keys")
	}
}

func (r *configRule) start(e *Engine, st *State, where string, pos token.Pos) {
	for _, x := range st.mon["ctor"] {
		r.chk(e.nilness(st, x) == Yes, ruleAllFirst, where, pos, st, "setting up a mirror may have failed")
	}
	r.chk(true, ruleAllFirst, where, pos, st, "")
	st.mon.set("started", e.ts.True)
}

func (r *configRule) After(e *Engine, st *State, c *Call, res *Term) {
	l := comps(res)
	must := func(er *Term) {
		if r.prop == "command" {
			st.mon.add("must", e.ts.mk(OpApp, "must", nil, er, e.ts.Str(shortName(c.name))))
		}
	}
	switch {
	case c.fn == r.check && r.check != nil && len(l) == 1:
		st.mon.add("checked", e.ts.mk(OpApp, "checked", nil, c.args[0], l[0]))
	case c.fn == r.ro.newM && len(l) == 2 && r.prop == "run":
		st.mon.add("ctor", l[1])
	case c.name == "net/url.Parse" && len(l) == 2:
		st.mon.set("parsed", e.ts.mk(OpApp, "parsed", nil, l[0], l[1]))
	case c.fn != nil && strings.HasSuffix(c.name, "cacher.URLMap).Register") && len(l) == 1:
		st.mon.set("registered", e.ts.mk(OpApp, "registered", nil, c.args[len(c.args)-2], c.args[len(c.args)-1], l[0]))
	case strings.HasPrefix(c.name, "github.com/BurntSushi/toml.Decode") && len(l) == 2:
		must(l[1])
		st.mon.add("decoded", e.ts.mk(OpApp, "decoded", nil, stripConv(c.args[len(c.args)-1]), l[1], l[0]))
	case strings.HasSuffix(c.name, "toml.MetaData).Undecoded") && len(l) == 1:
		md := st.mon.get("md")
		if md == nil {
			md = c.args[0]
		}
		st.mon.add("undecoded", e.ts.mk(OpApp, "undecoded", nil, l[0], md))
	case strings.HasSuffix(c.name, "well.LogConfig).Apply") && len(l) == 1:
		must(l[0])
	case (c.fn == r.ro.run || c.fn == r.cacherNC) && c.fn != nil && len(l) > 0:
		must(l[len(l)-1])
	}
}

func (r *configRule) On(e *Engine, st *State, ev *Event) {
	if r.w != nil {
		r.w.on(e, st, ev)
	}
	switch ev.kind {
	case EvSpawn:
		switch r.prop {
		case "cacher":
			r.goodCacher(e, st, e.inFn(st)+" starts a goroutine", ev.in.Pos())
		case "run":
			if ev.a != nil && ev.a.fn != nil && r.ro.updates(ev.a.fn) {
				r.start(e, st, e.inFn(st)+" starts updates", ev.in.Pos())
			}
		}
	case EvMapUpdate:
		if r.prop == "register" && typeName(ev.a.typ) == "cacher.URLMap" {
			good := false
			for x, f := range st.facts {
				if f.truth == Yes && x.op == OpApp && strings.HasPrefix(x.name, "(*regexp.Regexp).Match") && len(x.args) == 2 && x.args[1] == ev.b {
					for _, re := range e.p.regexpsOf(x.args[0]) {
						good = good || oneName(re)
					}
				}
			}
			r.chk(good, rulePrefix, e.inFn(st)+" registers a prefix", ev.in.Pos(), st, "%s may not be a name without slashes", ev.b)
		}
	case EvReturn:
		if !rootReturn(st, ev) {
			return
		}
		er := errOf(r.fn, ev.a)
		if er != nil && e.nilness(st, er) == No {
			return
		}
		pos := r.fn.Pos()
		if ev.in != nil {
			pos = ev.in.Pos()
		}
		switch r.prop {
		case "check":
			r.accepted(e, st, pos)
		case "mirror":
			r.goodMirror(e, st, e.inFn(st)+" returns a mirror", pos)
		case "cacher":
			r.goodCacher(e, st, e.inFn(st)+" returns a cacher", pos)
		case "command":
			r.ended(e, st, e.inFn(st)+" returns", pos)
		}
	}
}

// smallest are the functions that reach two others, but call none that does.
func (p *Program) smallest(in string, a, b *ssa.Function) []*ssa.Function {
	to := func(f, g *ssa.Function) bool {
		return p.reaches(f, func(_ ssa.Instruction, h *ssa.Function) bool {
			return h == g || h.Object() != nil && h.Object() == g.Object()
		})
	}
	both := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f != a && f != b && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), in) && f.Parent() == nil && to(f, a) && to(f, b) {
			both[f] = true
		}
	}
	var l []*ssa.Function
	for _, f := range sortedFns(both) {
		if !p.reaches(f, func(_ ssa.Instruction, h *ssa.Function) bool { return both[h] && h != f }) {
			l = append(l, f)
		}
	}
	return l
}

func init() {
	register("M12", "dataflow over the SSA form of the functions that accept configurations (what is known of every field when it is accepted), of the set-up of mirrors and of the commands; regular expressions by their syntax tree",
		"Covers every path of MirrConfig.Check, NewMirror, NewCacher, URLMap.Register, of the function that sets up mirrors and starts their updates, and of the two commands. What toml reports as undecoded is taken from that library."+trust,
		"MirrConfig.Check accepts only where the URL is known to be set, the list of suites not to be empty, the first suite not to be flat or the lists of sections and architectures to be empty, and where a loop over all suites ended in which every round that went on knows the suite to be of the kind of the first. NewMirror changes files and returns a mirror only where the ID is known to be in the configuration and to be a plain name, Check to have accepted, and the limit not to be negative; no mirror is set up after an update began, and no update begins after a set-up failed. NewCacher starts goroutines and returns a cacher only where interval and capacity are known to be positive, the limit not to be negative, both directories to be absolute and, cleaned, to differ, and every entry of the mapping to have been parsed, to be http or https, and to have been registered; Register takes only prefixes known to be names without slashes. The commands use a configuration only after it was decoded without an error and nothing was undecoded, and end with status 0 only if that and the set-up succeeded.", func(p *Program, rep *Report) {
			ro := findMirror(p, rep)
			chk, reg, nc, ns := need(p, rep, "mirror", "MirrConfig.Check"), need(p, rep, "cacher", "URLMap.Register"), need(p, rep, "cacher", "NewCacher"), need(p, rep, "cacher", "NewStorage")
			if ro == nil || chk == nil || reg == nil || nc == nil || ns == nil {
				return
			}
			run := func(prop string, f *ssa.Function) {
				r := &configRule{mirBase: mirBase{rep: rep, ro: ro}, prop: prop, fn: f, check: chk, cacherNS: ns, cacherNC: nc}
				switch prop {
				case "check":
					r.w = &walker{tag: "suite", rule: ruleSuites, rep: rep, end: r.endSuite, from: 1,
						wants: func(e *Engine, st *State, coll *Term) bool { return r.isSuites(coll) }}
				case "cacher":
					r.w = &walker{tag: "map", rule: ruleMapping, rep: rep, end: r.endMapping,
						wants: func(e *Engine, st *State, coll *Term) bool { return confField(coll, "Config.Mapping") }}
				}
				e := newEngine(p, rep, r)
				keepAll(e)
				e.joinAt = 64
				e.noSpawn = true
				e.runRoot(f, nil)
			}
			run("check", chk)
			run("mirror", ro.newM)
			run("register", reg)
			run("cacher", nc)
			starts := p.smallest("/mirror", ro.newM, ro.update)
			if len(starts) == 0 {
				rep.missing("a function that sets up mirrors and updates them")
			}
			for _, f := range starts {
				run("run", f)
			}
			n := 0
			for _, f := range p.funcs {
				if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
					n++
					run("command", f)
				}
			}
			rep.check(n >= 2, ruleCommand, "commands", token.NoPos, newState(), "there are %d commands", n)
			callersSeen(p, rep, ro.newM)
			rep.floor(ruleMirrConf, 4)
			rep.floor(ruleSuites, 2)
			rep.floor(ruleNewMirror, 4)
			rep.floor(ruleAllFirst, 2)
			rep.floor(ruleNewCacher, 6)
			rep.floor(ruleMapping, 3)
			rep.floor(rulePrefix, 1)
			rep.floor(ruleCommand, 4)
			rep.floor(ruleExitStatus, 4)
		})
}
