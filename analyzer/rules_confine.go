package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fsPaths are the arguments of library functions that are paths of files.
var fsPaths = map[string][]int{
	"os.Open": {0}, "os.OpenFile": {0}, "os.Create": {0}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0},
	"os.Stat": {0}, "os.Lstat": {0}, "os.ReadFile": {0}, "os.WriteFile": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Lchown": {0}, "os.Chtimes": {0},
	"os.Truncate": {0}, "os.Readlink": {0}, "os.ReadDir": {0}, "os.Link": {0, 1}, "os.Symlink": {1}, "os.Rename": {0, 1}, "os.CreateTemp": {0}, "os.MkdirTemp": {0}, "os.DirFS": {0}, "os.Chdir": {0},
	"io/ioutil.ReadFile": {0}, "io/ioutil.WriteFile": {0}, "io/ioutil.TempFile": {0}, "io/ioutil.TempDir": {0}, "io/ioutil.ReadDir": {0},
	"path/filepath.Walk": {0}, "path/filepath.WalkDir": {0}, "path/filepath.EvalSymlinks": {0}, "path/filepath.Glob": {0}, "net/http.ServeFile": {2},
	"syscall.Open": {0}, "syscall.Unlink": {0}, "syscall.Link": {0, 1}, "syscall.Rename": {0, 1}, "syscall.Symlink": {1}, "syscall.Mkdir": {0}, "syscall.Rmdir": {0}, "syscall.Truncate": {0},
}

// ---- K13

const (
	ruleConfined = "files are touched only in the directory of the store"
	ruleRefused  = "only clean relative paths that do not go up become paths of items"
	ruleReduced  = "request paths are reduced to clean relative paths"
	ruleNoCrash  = "no path is cut beyond its end"
)

type confineRule struct {
	storageBase
	fn   *ssa.Function
	ctor bool
}

// storeDir says whether t is the directory of the store.
func (r *confineRule) storeDir(t *Term) bool {
	if _, f := loadOf(t); f == r.ro.dir {
		return true
	}
	return r.ctor && t.op == OpParam && t.typ != nil && t.typ.Underlying().String() == "string"
}

// safe says whether k is known to be a clean relative path that neither is
// the directory itself nor goes up.
func safePath(e *Engine, st *State, k *Term) bool {
	b := types.Typ[types.Bool]
	cands := []*Term{k}
	for _, n := range []string{"path/filepath.Clean", "path.Clean"} {
		if x := e.ts.mk(OpApp, n, types.Typ[types.String], k); e.truth(st, e.eq(k, x)) == Yes {
			cands = append(cands, x)
		}
	}
	if len(cands) == 1 {
		return false
	}
	is := func(v Tri, mk func(k *Term) *Term) bool {
		for _, x := range cands {
			if e.truth(st, mk(x)) == v {
				return true
			}
		}
		return false
	}
	app := func(v Tri, name string, more ...*Term) bool {
		return is(v, func(k *Term) *Term { return e.ts.mk(OpApp, name, b, append([]*Term{k}, more...)...) })
	}
	if !is(No, func(k *Term) *Term { return e.eq(k, e.ts.Str(".")) }) {
		return false
	}
	if app(Yes, "path/filepath.IsLocal") {
		return true
	}
	abs := app(No, "path/filepath.IsAbs") || app(No, "path.IsAbs") || app(No, "strings.HasPrefix", e.ts.Str("/"))
	up := is(No, func(k *Term) *Term { return e.eq(k, e.ts.Str("..")) }) && app(No, "strings.HasPrefix", e.ts.Str("../")) ||
		app(No, "strings.HasPrefix", e.ts.Str(".."))
	return abs && up
}

// item says whether k is the path of an item that is or may be in the store.
func (r *confineRule) item(e *Engine, st *State, k *Term) bool {
	if safePath(e, st, k) {
		return true
	}
	for _, x := range st.maps {
		if fieldOf(x.m) == r.ro.cache && x.k == k && x.ok == Yes {
			return true
		}
	}
	if k.isApp(fnPath) {
		// the description of an entry
		if o, f := loadOf(k.args[0]); f == r.ro.info && o.op != OpAlloc {
			return true
		}
	}
	return false
}

func (r *confineRule) confined(e *Engine, st *State, t *Term) (bool, string) {
	for t.isApp("path/filepath.Dir") {
		t = t.args[0]
		if l := components(t); len(l) < 2 {
			return false, "the parent of the directory"
		}
	}
	l := components(t)
	if len(l) == 0 || !r.storeDir(l[0]) {
		return false, "not in the directory of the store"
	}
	if len(l) == 1 {
		return true, ""
	}
	cs := []*Term{}
	if len(l) == 2 {
		if l[1].isApp("concat*") {
			for _, x := range l[1].args {
				cs = append(cs, flattenConcat(x)...)
			}
		} else {
			cs = flattenConcat(l[1])
		}
	}
	if len(cs) == 2 {
		if s, ok := cs[1].str(); ok && s != "" && !strings.Contains(s, "/") {
			if r.item(e, st, cs[0]) {
				return true, ""
			}
			return false, cs[0].String() + " may not be a clean relative path that does not go up, nor the path of an item in the store"
		}
	}
	return false, "not the path of an item with a suffix"
}

func (r *confineRule) Call(e *Engine, st *State, c *Call) Action {
	if idx, ok := fsPaths[c.name]; ok {
		for _, i := range idx {
			where := e.inFn(st) + " calls " + shortName(c.name)
			a := c.args[i]
			if a.isApp("(*os.File).Name") {
				if a.args[0].isCall("io/ioutil.TempFile") || a.args[0].isCall("os.CreateTemp") {
					r.rep.oblige(ruleConfined, where, c.pos())
					continue
				}
			}
			if i == 0 && len(idx) == 2 && a.op == OpParam && !r.ctor {
				continue // the source is the caller's temporary file (K02)
			}
			ok, why := r.confined(e, st, a)
			r.rep.check(ok, ruleConfined, where, c.pos(), st, "touches %s: %s", a, why)
		}
		if c.name == "io/ioutil.TempFile" || c.name == "os.CreateTemp" {
			s, ok := c.args[1].str()
			r.rep.check(ok && !strings.Contains(s, "/"), ruleConfined, e.inFn(st)+" names a temporary file", c.pos(), st, "the name of a temporary file is %s", c.args[1])
		}
	} else if c.fn == nil || !e.p.inRepo(c.fn) {
		if strings.HasPrefix(c.name, "os.") && len(c.args) > 0 && c.args[0].typ != nil && c.args[0].typ.Underlying().String() == "string" || strings.HasPrefix(c.name, "os/exec.") || strings.HasPrefix(c.name, "syscall.") {
			r.rep.violate(ruleConfined, e.inFn(st)+" calls "+shortName(c.name), c.pos(), "calls a function whose effects on files are not known", st.trace)
		}
	}
	return r.storageBase.Call(e, st, c)
}

func (r *confineRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvMapUpdate && fieldOf(ev.a) == r.ro.cache {
		ok := safePath(e, st, ev.b) || r.walked(ev.b)
		r.rep.check(ok, ruleRefused, e.inFn(st)+" adds an item", ev.in.Pos(), st, "the path of the item (%s) may not be a clean relative path that does not go up", ev.b)
		keys := r.keysOf(e, st, ev.c)
		r.rep.check(among(keys, ev.b), ruleRefused, e.inFn(st)+" adds an item under its path", ev.in.Pos(), st, "the item is added under %s, which is not its path", ev.b)
	}
}

// walked says whether k is the path of a file found in the directory,
// relative to it.
func (r *confineRule) walked(k *Term) bool {
	for k.isApp("slice") || k.isApp("strings.TrimSuffix") {
		if k.isApp("slice") {
			if n, ok := k.args[1].int(); !ok || n != 0 {
				return false
			}
		}
		k = k.args[0]
	}
	return k.isCall("path/filepath.Rel") && len(k.args) == 2 && r.storeDir(k.args[0]) && (k.args[1].op == OpSym && strings.Contains(k.args[1].symKind(), "iter") || k.args[1].op == OpSym && strings.Contains(k.args[1].symKind(), "walk"))
}

// reduceRule: what becomes of the path of a request.
type reduceRule struct {
	dlBase
	h *ssa.Function
}

func (r *reduceRule) Call(e *Engine, st *State, c *Call) Action {
	if c.fn == r.ro.get {
		p := c.args[len(c.args)-1]
		r.rep.check(reduced(p), ruleReduced, e.inFn(st)+" gets an item", c.pos(), st, "the path of the request is used as %s, which may not be a clean relative path that does not go up", p)
	}
	if idx, ok := fsPaths[c.name]; ok {
		for _, i := range idx {
			a := c.args[i]
			tmp := a.isApp("(*os.File).Name") && a.args[0].op == OpSym && strings.HasSuffix(a.args[0].symKind(), "cacher.Storage).TempFile")
			r.rep.check(tmp, ruleConfined, e.inFn(st)+" calls "+shortName(c.name), c.pos(), st, "touches %s, which is not a temporary file of a store", a)
		}
	}
	if c.fn != nil && strings.HasSuffix(c.name, "cacher.URLMap).URL") {
		return ActPure
	}
	return r.action(c)
}

// reduced recognises clean relative paths that cannot go up.
func reduced(p *Term) bool {
	rooted := func(t *Term) bool {
		if t.isApp("path.Clean") || t.isApp("path/filepath.Clean") {
			l := flattenConcat(t.args[0])
			s, _ := l[0].str()
			return strings.HasPrefix(s, "/")
		}
		if (t.isApp("path.Join") || t.isApp("path/filepath.Join")) && len(t.args) == 1 && t.args[0].op == OpSlice && len(t.args[0].args) > 0 {
			s, _ := flattenConcat(t.args[0].args[0])[0].str()
			return strings.HasPrefix(s, "/")
		}
		return false
	}
	switch {
	case p.isApp("slice"):
		n, ok := p.args[1].int()
		return ok && n == 1 && p.args[2].op == OpNil && rooted(p.args[0])
	case p.isApp("strings.TrimPrefix"), p.isApp("strings.TrimLeft"):
		s, _ := p.args[1].str()
		return s == "/" && rooted(p.args[0])
	}
	return false
}

func (r *reduceRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvIndex {
		boundsOf(e, st, ev, r.rep)
	}
}

// boundsOf checks that an index or slice expression is within bounds.
func boundsOf(e *Engine, st *State, ev *Event, rep *Report) {
	switch u := ev.typ.Underlying().(type) {
	case *types.Slice:
		// the parts of a string; loops over other lists are bounded by their
		// length
		if !ev.a.any(func(t *Term) bool {
			return t.isApp("strings.Split") || t.isApp("strings.SplitN") || t.isApp("strings.Fields") || t.isApp("strings.SplitAfter") || t.isApp("strings.SplitAfterN") || t.isApp("strings.FieldsFunc")
		}) {
			return
		}
	case *types.Basic:
		if u.Info()&types.IsString == 0 {
			return
		}
	default:
		return
	}
	where := e.inFn(st) + " uses a part of " + shortTerm(ev.a)
	l := e.length(st, ev.a, ev.typ)
	lo := int64(0)
	if n, ok := l.int(); ok {
		lo = n
	} else {
		if b, _, hl, _ := e.bounds(st, l); hl {
			lo = b
		}
		if lo < 1 && neverEmpty(ev.a) {
			lo = 1
		}
		if lo < 1 && ev.a.typ != nil && e.truth(st, e.eq(ev.a, e.ts.Str(""))) == No {
			lo = 1
		}
		for t, f := range st.facts {
			if t.isApp("strings.HasPrefix") && t.args[0] == ev.a && f.truth == Yes {
				if s, ok := t.args[1].str(); ok && int64(len(s)) > lo {
					lo = int64(len(s))
				}
			}
		}
	}
	for n := 0; n < 4 && e.truth(st, e.eq(l, e.ts.Int(lo))) == No; n++ {
		lo++
	}
	need := func(i *Term, d int64) {
		if i == nil {
			return
		}
		if n, ok := i.int(); ok {
			rep.check(n >= 0 && lo >= n+d, ruleNoCrash, where, ev.in.Pos(), st, "uses element %d of %s, which may have fewer", n, ev.a)
			return
		}
	}
	if ev.slot == "slice" {
		need(ev.b, 0)
		need(ev.c, 0)
		return
	}
	need(ev.b, 1)
}

func shortTerm(t *Term) string {
	switch {
	case t.op == OpApp || t.op == OpSym && len(t.args) > 0:
		n := t.name
		if t.op == OpSym {
			n = t.symKind()
		}
		return "the result of " + shortName(n)
	}
	return t.show(2)
}

// neverEmpty says whether a string or slice has at least one element.
func neverEmpty(t *Term) bool {
	switch {
	case t.isApp("path.Clean"), t.isApp("path/filepath.Clean"), t.isApp("path.Base"), t.isApp("path/filepath.Base"), t.isApp("path.Dir"), t.isApp("path/filepath.Dir"):
		return true
	case t.isApp("strings.Split") && len(t.args) == 2:
		s, ok := t.args[1].str()
		return ok && s != ""
	case t.isApp("strings.SplitN") && len(t.args) == 3:
		s, ok := t.args[1].str()
		n, ok2 := t.args[2].int()
		return ok && s != "" && ok2 && n != 0
	case t.isApp("path.Join") && len(t.args) == 1 && t.args[0].op == OpSlice && len(t.args[0].args) > 0:
		s, ok := t.args[0].args[0].str()
		return ok && s != ""
	}
	for _, x := range flattenConcat(t) {
		if s, ok := x.str(); ok && s != "" {
			return true
		}
	}
	return false
}

// indexRule only checks bounds.
type indexRule struct {
	NopRule
	rep *Report
}

func (r *indexRule) Call(e *Engine, st *State, c *Call) Action { return summarise(c) }

func (r *indexRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvIndex {
		boundsOf(e, st, ev, r.rep)
	}
}

func init() {
	register("K13", "path-provenance dataflow over the SSA form of the store, the handler and the download path, with index-bounds facts",
		"Covers every path of every operation of Storage, of NewStorage, of the HTTP handler with all that it starts, and of URLMap.URL; symbolic links inside the cache directories are not followed up."+trust,
		"Every path given to a file-system function is the store's directory, a temporary file in it, or Join(directory, path+suffix) where the path is that of an entry of the item index or is known here to be clean, relative, not \".\" and not going up; the item index only gets such paths, or paths relative to the directory of files found in it. The handler passes on only Clean(\"/\"+path) without its slash. Every index and slice expression with constant bounds on the way of a request is within bounds.", func(p *Program, rep *Report) {
			ro := findCacher(p, rep)
			so := findStorage(p, rep)
			h := theHandler(p, rep)
			uf := need(p, rep, "cacher", "URLMap.URL")
			if ro == nil || so == nil || h == nil || uf == nil {
				return
			}
			for _, f := range append(append([]*ssa.Function{}, so.methods...), sortedFns(so.ctor)...) {
				r := &confineRule{storageBase{rep: rep, ro: so}, f, so.ctor[f]}
				e := storageEngine(p, rep, so, r)
				old := e.keepFact
				e.keepFact = func(t *Term) bool { return old(t) || t.any(func(x *Term) bool { return x.isApp(fnPath) }) }
				e.runRoot(f, nil)
			}
			for _, f := range []*ssa.Function{h, ro.download, ro.newC} {
				r := &reduceRule{dlBase: dlBase{rep: rep, ro: ro}, h: h}
				dlEngine(p, rep, ro, r).runRoot(f, nil)
			}
			e := newEngine(p, rep, &indexRule{rep: rep})
			keepAll(e)
			e.runRoot(uf, nil)
			// every function that touches files was analysed
			rep.filesSeen(p, "cacher")
			rep.floor(ruleConfined, 8)
			rep.floor(ruleRefused, 4)
			rep.floor(ruleReduced, 1)
			rep.floor(ruleNoCrash, 4)
		})
}

// filesSeen makes sure that every function of a package that touches files
// was analysed.
func (rep *Report) filesSeen(p *Program, pkg string) {
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modulePath+"/"+pkg || rep.fns[shortName(f.String())] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				if _, ok := fsPaths[c.Common().StaticCallee().String()]; ok {
					rep.violate("anchor", fnLabel(f)+" touches files", in.Pos(), "this call is reached from none of the entry points that were analysed", nil)
				}
			}
		}
	}
}
