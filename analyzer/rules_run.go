package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- M05, M06

// reaches says whether a function may come to use a library function or one
// of some functions, in itself, in functions that it calls or makes closures
// of, or in goroutines that it starts.
func (p *Program) reaches(f *ssa.Function, want func(in ssa.Instruction, g *ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if want(in, g) || (p.inRepo(g) || len(g.Blocks) > 0 && g.Synthetic != "") && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

// touches says whether a function may change files.
func (p *Program) touches(f *ssa.Function) bool {
	if p.touchFns == nil {
		p.touchFns = map[*ssa.Function]Tri{}
	}
	if r := p.touchFns[f]; r != Unknown {
		return r == Yes
	}
	ok := p.reaches(f, func(in ssa.Instruction, g *ssa.Function) bool {
		if _, ok := fsWrites[g.String()]; !ok {
			return false
		}
		return !(strings.HasSuffix(g.String(), ".OpenFile") && readsOnly(in))
	})
	p.touchFns[f] = tri(ok)
	return ok
}

func readsOnly(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) < 2 {
		return false
	}
	k, ok := c.Common().Args[1].(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == 0
}

// spawns says whether a function may start goroutines, or wait for them.
func (p *Program) spawns(f *ssa.Function) bool {
	isSpawn := func(in ssa.Instruction, g *ssa.Function) bool {
		if _, ok := in.(*ssa.Go); ok {
			return true
		}
		n := g.String()
		return pkgOf(n) == "github.com/cybozu-go/well" || strings.HasPrefix(n, "(*sync.WaitGroup)") || n == "time.AfterFunc"
	}
	if p.reaches(f, isSpawn) {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	return false
}

// removesTrees says whether a function may remove whole directories.
func (p *Program) removesTrees(f *ssa.Function) bool {
	return p.reaches(f, func(_ ssa.Instruction, g *ssa.Function) bool { return g.String() == "os.RemoveAll" })
}

func (ro *mirrorRoles) updates(f *ssa.Function) bool {
	if f == ro.update || f == ro.newM {
		return true
	}
	return ro.p.reaches(f, func(_ ssa.Instruction, g *ssa.Function) bool {
		return g == ro.update || g == ro.newM || g.Object() != nil && g.Object() == ro.update.Object()
	})
}

const (
	ruleLockFirst = "nothing is created, changed or removed before the lock is held"
	ruleLockExcl  = "the lock is an exclusive lock of the lock file, and is not waited for"
	ruleLockErr   = "a run that does not get the lock fails"
	ruleLockLong  = "the lock is held until everything that was started has ended"
	ruleLockFile  = "the lock file is neither removed nor replaced"
	ruleWaited    = "a function returns only after the goroutines that it started and that change files"
	ruleOnlyRun   = "commands update mirrors only through Run"

	ruleGCNames   = "no symbolic link is removed"
	ruleGCTargets = "no directory that a symbolic link leads to is removed"
	ruleGCLock    = "the lock file is not removed"
	ruleGCEntry   = "only entries of the mirror directory are removed"
	ruleGCFail    = "nothing is removed if the directory could not be read or a link could not be resolved"
	ruleGCAfter   = "the clean-up runs after all updates"
)

const (
	flockFn  = "syscall.Flock"
	evalLink = "path/filepath.EvalSymlinks"
)

// runRule follows Run (M05: the lock, M06: the clean-up) or a function that
// starts goroutines. "running" are goroutines that may be running
// (environment, function), "cleaning" those of them that remove trees.
type runRule struct {
	mirBase
	prop     string
	fn       *ssa.Function
	lockName *Term
	locks    int
	removals int
	w        *walker
}

func (r *runRule) chk(prop string, ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) bool {
	if prop != r.prop {
		return ok
	}
	return r.rep.check(ok, rule, where, pos, st, format, args...)
}

func isEntryList(t *Term) bool {
	if t.op != OpSym {
		return false
	}
	switch t.symKind() {
	case "io/ioutil.ReadDir", "os.ReadDir", "(*os.File).Readdir", "(*os.File).ReadDir":
		return t.symIdx() == 0
	}
	return false
}

// entryName is the entry that t is the name of.
func entryName(t *Term) *Term {
	if t.op == OpApp && len(t.args) == 1 && (strings.HasSuffix(t.name, "FileInfo).Name") || strings.HasSuffix(t.name, "DirEntry).Name")) {
		return t.args[0]
	}
	return nil
}

func (r *runRule) topDir(t *Term) bool {
	l := components(t)
	if len(l) != 1 {
		return false
	}
	_, f := loadOf(l[0])
	return strings.HasSuffix(f, "mirror.Config.Dir") || f == r.ro.top
}

// inTop is the last component of a path right below the mirror directory.
func (r *runRule) inTop(t *Term) *Term {
	l := components(t)
	if len(l) == 2 && r.topDir(l[0]) {
		return l[1]
	}
	return nil
}

func (r *runRule) isLockPath(t *Term) bool {
	n := r.inTop(t)
	if n == nil {
		return false
	}
	_, ok := n.str()
	return ok
}

func (r *runRule) Call(e *Engine, st *State, c *Call) Action {
	where, pos := e.inFn(st)+" calls "+shortName(c.name), c.pos()
	if idx, ok := fsWrites[c.name]; ok && !(strings.HasSuffix(c.name, ".OpenFile") && !openForWriting(e, c)) {
		lockFile := false
		for _, i := range idx {
			lockFile = lockFile || r.isLockPath(c.args[i])
		}
		if lockFile {
			r.chk("M05", c.name == "os.OpenFile" || c.name == "os.Create", ruleLockFile, where, pos, st, "changes or removes %s", c.args[idx[0]])
			if !st.mon.flag("locked") {
				st.mon.add("created", c.args[idx[0]])
			}
		} else {
			r.touch(e, st, where, pos)
		}
	}
	if c.name == "os.RemoveAll" {
		r.remove(e, st, c)
	}
	if c.name == flockFn {
		return ActDefault
	}
	if c.name == "(*os.File).Close" && len(c.args) > 0 && st.mon.get("locked") == c.args[0] {
		r.unlock(e, st, where, pos)
	}
	if c.fn == nil || !r.rep.p.inRepo(c.fn) {
		return r.action(c)
	}
	if r.fn != r.ro.run {
		// what functions of this kind guarantee is decided for themselves
		if c.fn != r.fn && (!r.rep.p.spawns(c.fn) || c.fn.Parent() == nil && !hasEnvParam(c.fn)) {
			return ActHavoc
		}
		return ActDefault
	}
	up := r.ro.updates(c.fn)
	if r.rep.p.touches(c.fn) && up {
		r.chk("M06", !st.mon.flag("cleaning") && !st.mon.flag("cleaned"), ruleGCAfter, where, pos, st, "an update may run while or after unused entries are removed")
	}
	if up && !r.rep.p.removesTrees(c.fn) {
		r.touch(e, st, where, pos)
		return ActHavoc
	}
	if r.prop == "M05" && !r.rep.p.spawns(c.fn) && !r.locking(c.fn) {
		if r.rep.p.touches(c.fn) {
			r.touch(e, st, where, pos)
		}
		return ActHavoc
	}
	return ActDefault
}

// locking says whether a function opens or locks the lock file.
func (r *runRule) locking(f *ssa.Function) bool {
	return r.rep.p.reaches(f, func(_ ssa.Instruction, g *ssa.Function) bool {
		s := g.String()
		return s == flockFn || s == "(*os.File).Close" && !r.rep.p.touches(f) || (s == "os.Open" || s == "os.OpenFile" || s == "os.Create") && returnsFile(f)
	})
}

func returnsFile(f *ssa.Function) bool {
	rt := f.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		if ptrTo(rt.At(i).Type(), "os.File") || strings.Contains(rt.At(i).Type().String(), "mirror.") || strings.HasPrefix(rt.At(i).Type().String(), "func(") {
			return true
		}
	}
	return false
}

func hasEnvParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if ptrTo(p.Type(), "well.Environment") || ptrTo(p.Type(), "sync.WaitGroup") {
			return true
		}
	}
	return false
}

func (r *runRule) touch(e *Engine, st *State, where string, pos token.Pos) {
	if r.fn == r.ro.run {
		r.chk("M05", st.mon.flag("locked"), ruleLockFirst, where, pos, st, "the lock of the mirror directory may not be held")
	}
}

func (r *runRule) unlock(e *Engine, st *State, where string, pos token.Pos) {
	for _, x := range st.mon["running"] {
		r.chk("M05", false, ruleLockLong, where, pos, st, "the lock is released while %s may be running", x.args[1])
	}
	r.chk("M05", !st.mon.flag("running"), ruleLockLong, where, pos, st, "goroutines may be running")
	delete(st.mon, "locked")
}

// fdOf is the file of a descriptor.
func fdOf(t *Term) *Term {
	t = stripConv(t)
	if t.isApp("(*os.File).Fd") {
		return t.args[0]
	}
	return nil
}

func (r *runRule) After(e *Engine, st *State, c *Call, res *Term) {
	where, pos := e.inFn(st)+" calls "+shortName(c.name), c.pos()
	switch c.name {
	case flockFn:
		how, ok := c.args[1].int()
		if ok && how&8 != 0 {
			if st.mon.get("locked") == fdOf(c.args[0]) {
				r.unlock(e, st, where, pos)
			}
			return
		}
		r.locks++
		r.chk("M05", ok && how&2 != 0, ruleLockExcl, where+": exclusive", pos, st, "the lock is not exclusive")
		r.chk("M05", ok && how&4 != 0, ruleLockExcl, where+": waiting", pos, st, "the run may wait for the lock instead of failing")
		f := fdOf(c.args[0])
		var path *Term
		if f != nil {
			path = openedPath(f)
			if path == nil && f.isCall("os.Create") && len(f.args) > 0 {
				path = f.args[0]
			}
		}
		if !r.chk("M05", path != nil && r.isLockPath(path), ruleLockExcl, where+": file", pos, st, "it is not known that what is locked (%s) is a file of fixed name in the mirror directory", c.args[0]) || path == nil {
			return
		}
		n, _ := r.inTop(path).str()
		if r.lockName != nil {
			o, _ := r.lockName.str()
			r.chk("M05", o == n, ruleLockExcl, where+": name", pos, st, "different files are locked")
		}
		r.lockName = e.ts.Str(n)
		for _, x := range st.mon["created"] {
			r.chk("M05", x == path, ruleLockFirst, where+": created", pos, st, "%s was created before the lock was held", x)
		}
		if e.nilness(st, res) == Yes {
			st.mon.set("locked", f)
		} else {
			st.mon.set("refused", e.ts.True)
		}
	case wellWait, envWait:
		env := e.ts.mk(OpApp, "wellenv", nil)
		if c.name == envWait {
			env = c.args[0]
		}
		r.waited(e, st, env)
	case "(*sync.WaitGroup).Wait":
		r.waited(e, st, nil)
	case "io/ioutil.ReadDir", "os.ReadDir", "(*os.File).Readdir", "(*os.File).ReadDir":
		if cs := comps(res); len(cs) == 2 && e.nilness(st, cs[1]) != Yes {
			st.mon.set("unread", e.ts.True)
		}
	case evalLink:
		if cs := comps(res); len(cs) == 2 && e.nilness(st, cs[1]) != Yes {
			st.mon.set("unresolved", e.ts.True)
		}
	}
}

// waited: env is nil for all goroutines that belong to no environment.
func (r *runRule) waited(e *Engine, st *State, env *Term) {
	for _, k := range []string{"running", "cleaning"} {
		for _, x := range append([]*Term(nil), st.mon[k]...) {
			if x.args[0] == env || env == nil && x.args[0].op == OpNil {
				st.mon.del(k, x)
			}
		}
	}
}

func (r *runRule) left(st *State, x *Term, where string, pos token.Pos) {
	n, _ := x.args[1].str()
	r.chk("M05", false, ruleWaited, where, pos, st, "%s may still be running and changing files", n)
}

func (r *runRule) On(e *Engine, st *State, ev *Event) {
	if r.prop == "M06" && r.fn == r.ro.run {
		r.w.on(e, st, ev)
	}
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	switch ev.kind {
	case EvSpawn:
		if ev.slot == "dropped" {
			return
		}
		env, f := ev.b, ev.a
		if env == nil || ev.slot == "timer" {
			env = e.ts.Nil
		}
		if f != nil && f.fn != nil && !r.rep.p.touches(f.fn) {
			return
		}
		where := e.inFn(st) + " starts a goroutine"
		if ev.slot != "inline" {
			r.touch(e, st, where, pos)
		}
		if f == nil {
			f = e.ts.Str("?")
		}
		t := e.ts.mk(OpApp, "running", nil, env, e.ts.Str(shortName(f.name)), e.ts.Int(int64(e.p.iid(ev.in))))
		rem := f.fn == nil || r.rep.p.removesTrees(f.fn)
		if r.fn == r.ro.run && r.prop == "M06" {
			if f.fn == nil || r.ro.updates(f.fn) {
				r.chk("M06", !st.mon.flag("cleaning") && !st.mon.flag("cleaned"), ruleGCAfter, where, pos, st, "an update may run while or after unused entries are removed")
			}
			if rem {
				r.chk("M06", !st.mon.flag("running") && !st.mon.flag("cleaning"), ruleGCAfter, where, pos, st, "the clean-up is started while %s may be running", f)
			}
		}
		if ev.slot == "inline" {
			return
		}
		st.mon.add("running", t)
		if rem {
			st.mon.add("cleaning", t)
		}
	case EvSpawnEnter:
		id := e.ts.Int(int64(e.p.iid(ev.in)))
		for _, k := range []string{"running", "cleaning"} {
			for _, x := range append([]*Term(nil), st.mon[k]...) {
				st.mon.del(k, x)
				if x.args[2] != id {
					st.mon.add("outer", x)
				}
			}
		}
	case EvReturn:
		if !rootReturn(st, ev) {
			return
		}
		where := fnLabel(r.fn) + " returns"
		pos = r.fn.Pos()
		if r.fn == r.ro.run {
			er := errOf(r.fn, ev.a)
			if st.mon.flag("refused") {
				r.chk("M05", er != nil && e.nilness(st, er) == No, ruleLockErr, where, pos, st, "the lock was refused, but no error is returned (%s)", er)
			}
			r.chk("M05", !st.mon.flag("running"), ruleLockLong, where, pos, st, "goroutines may be running")
			r.chk("M05", !st.mon.flag("locked"), ruleLockLong, where+": release", pos, st, "nothing keeps the lock file open until here")
			return
		}
		for _, x := range st.mon["running"] {
			env := x.args[0]
			if env.op == OpParam || (env.op == OpLoad || env.op == OpSym && env.symKind() == "load") && len(env.args) > 0 && env.args[0].op == OpParam {
				continue // the caller's
			}
			r.left(st, x, where, pos)
		}
		r.chk("M05", true, ruleWaited, where, pos, st, "")
	case EvSpawnExit:
		if r.fn != r.ro.run || ev.panics {
			return
		}
		for _, x := range st.mon["running"] {
			if !x.args[0].isApp("wellenv") {
				r.left(st, x, e.inFn(st)+" starts a goroutine: end", pos)
			}
		}
	case EvMapUpdate:
		if r.prop == "M06" && r.fn == r.ro.run && r.lockName != nil {
			r.mark(e, st, ev)
		}
	case EvMapDelete:
		if r.prop == "M06" && r.fn == r.ro.run {
			st.mon.add("spoiled", ev.a)
		}
	case EvAssume, EvTest:
		if r.lockName != nil && ev.a.isApp("==") && !ev.ok {
			for k := 0; k < 2; k++ {
				s, ok := ev.a.args[k].str()
				if n, _ := r.lockName.str(); ok && s == n && entryName(ev.a.args[1-k]) != nil {
					st.mon.set("notlock", ev.a.args[1-k])
				}
			}
		}
		for _, c := range st.mon[r.w.k("cur")] {
			if plainFact(e, ev.a, Fact{truth: tri(ev.ok)}, func(y *Term) bool { return isElem(y, c) }) {
				st.mon.add("plain", c.args[0])
			}
		}
	case EvForget:
		for _, k := range []string{"fixed", "spoiled", "mark", "created", "notlock"} {
			for _, x := range append([]*Term(nil), st.mon[k]...) {
				if x.any(func(y *Term) bool { return y == ev.a }) {
					st.mon.del(k, x)
				}
			}
		}
	}
}

// ---- the clean-up

// elem is the entry being processed, from any of its operations.
func (r *runRule) elem(st *State, y *Term) *Term {
	for _, c := range st.mon[r.w.k("cur")] {
		if isElem(y, c) {
			return c
		}
	}
	return nil
}

// linkOf is the entry whose resolved link t is.
func (r *runRule) linkOf(t *Term) *Term {
	if !t.isCall(evalLink) || t.symIdx() != 0 || len(t.args) == 0 {
		return nil
	}
	n := r.inTop(t.args[0])
	if n == nil {
		return nil
	}
	return entryName(n)
}

func isBoolMap(t *Term) bool {
	if t.typ == nil {
		return true
	}
	m, ok := t.typ.Underlying().(*types.Map)
	return ok && m.Elem().Underlying() == types.Typ[types.Bool]
}

// mark notes that an entry, or what it leads to, is put in a map.
func (r *runRule) mark(e *Engine, st *State, ev *Event) {
	if isBoolMap(ev.a) && e.truth(st, ev.c) != Yes {
		st.mon.add("spoiled", ev.a)
		return
	}
	if s, ok := ev.b.str(); ok {
		if n, _ := r.lockName.str(); n != s {
			return
		}
		st.mon.add("fixed", e.ts.mk(OpApp, "fixed", nil, ev.a, e.ts.Str(s)))
		return
	}
	if y := entryName(ev.b); y != nil {
		if c := r.elem(st, y); c != nil {
			st.mon.add("mark", e.ts.mk(OpApp, "name", nil, ev.a, c.args[0]))
		}
	}
	k := ev.b
	isBase := func(t *Term) bool { return t.isApp("path/filepath.Base") || t.isApp("path.Base") }
	isDir := func(t *Term) bool { return t.isApp("path/filepath.Dir") || t.isApp("path.Dir") }
	if isBase(k) && isDir(k.args[0]) {
		if y := r.linkOf(k.args[0].args[0]); y != nil {
			if c := r.elem(st, y); c != nil {
				st.mon.add("mark", e.ts.mk(OpApp, "target", nil, ev.a, c.args[0]))
			}
		}
	}
}

// plain says whether an entry is known not to be a symbolic link.
func plainEntry(e *Engine, st *State, same func(y *Term) bool) bool {
	for t, f := range st.facts {
		if f.truth != Yes && f.truth != No && f.eq == nil {
			continue
		}
		if plainFact(e, t, f, same) {
			return true
		}
	}
	return false
}

func modeOf(t *Term) *Term {
	t = stripConv(t)
	if t.op == OpApp && len(t.args) == 1 && (strings.HasSuffix(t.name, "FileInfo).Mode") || strings.HasSuffix(t.name, "DirEntry).Type")) {
		return t.args[0]
	}
	if t.op == OpApp && len(t.args) == 1 && strings.HasSuffix(t.name, "FileMode).Type") {
		return modeOf(t.args[0])
	}
	return nil
}

func plainFact(e *Engine, t *Term, f Fact, same func(y *Term) bool) bool {
	is := func(x *Term) bool { y := modeOf(x); return y != nil && same(y) }
	const symlink = 1 << 27
	masked := func(x *Term) bool {
		if !x.isApp("&") {
			return false
		}
		for k := 0; k < 2; k++ {
			if n, ok := x.args[k].int(); ok && n == symlink && is(x.args[1-k]) {
				return true
			}
		}
		return false
	}
	if f.eq != nil && masked(t) {
		n, ok := f.eq.int()
		return ok && n == 0
	}
	if f.truth == Yes && t.op == OpApp && len(t.args) == 1 {
		if strings.HasSuffix(t.name, "FileMode).IsRegular") || strings.HasSuffix(t.name, "FileMode).IsDir") {
			return is(t.args[0])
		}
		if strings.HasSuffix(t.name, "FileInfo).IsDir") || strings.HasSuffix(t.name, "DirEntry).IsDir") {
			return same(t.args[0])
		}
	}
	if t.isApp("==") {
		for k := 0; k < 2; k++ {
			n, ok := t.args[k].int()
			if ok && masked(t.args[1-k]) && (n == 0 && f.truth == Yes || n == symlink && f.truth == No) {
				return true
			}
		}
	}
	return false
}

func (r *runRule) endEntry(e *Engine, st *State, coll, cur *Term, in ssa.Instruction) {
	plain := st.mon.has("plain", coll) || plainEntry(e, st, func(y *Term) bool { return isElem(y, cur) })
	for _, k := range []string{"name", "target"} {
		var marks []*Term
		for _, m := range st.mon["mark"] {
			if m.name == k && m.args[1] == coll {
				marks = append(marks, m.args[0])
			}
		}
		if plain {
			continue
		}
		if !st.mon.flag("cand:" + k) {
			st.mon.set("cand:"+k, e.ts.Nil)
			for _, m := range marks {
				st.mon.add("cand:"+k, m)
			}
			continue
		}
		for _, m := range append([]*Term(nil), st.mon["cand:"+k]...) {
			keep := m.op == OpNil
			for _, x := range marks {
				keep = keep || x == m
			}
			if !keep {
				st.mon.del("cand:"+k, m)
			}
		}
	}
	delete(st.mon, "mark")
	st.mon.del("plain", coll)
}

func (r *runRule) finishEntries(e *Engine, st *State, coll *Term, in ssa.Instruction) {
	for _, k := range []string{"name", "target"} {
		if !st.mon.flag("cand:" + k) {
			st.mon.set("all:"+k, e.ts.True) // there was no link
		}
		for _, m := range st.mon["cand:"+k] {
			if m.op != OpNil {
				st.mon.add("all:"+k, m)
			}
		}
		delete(st.mon, "cand:"+k)
	}
}

// notIn says whether a name is known not to be in a map.
func notIn(e *Engine, st *State, m, k *Term) bool {
	if i := st.findMap(m, k); i >= 0 {
		x := st.maps[i]
		if x.ok == No || x.val != nil && e.truth(st, x.val) == No {
			return true
		}
	}
	for t, f := range st.facts {
		if f.truth == No && t.op == OpSym && (t.symKind() == "mapval" || t.symKind() == "mapok") && len(t.args) == 2 && t.args[0] == m && t.args[1] == k {
			return true
		}
	}
	return false
}

func (r *runRule) remove(e *Engine, st *State, c *Call) {
	if r.prop != "M06" {
		return
	}
	r.removals++
	where, pos := e.inFn(st)+" removes an entry", c.pos()
	st.mon.set("cleaned", e.ts.True)
	n := r.inTop(c.args[0])
	var y *Term
	if n != nil {
		y = entryName(n)
	}
	ok := y != nil && (elemOf(y) != nil && isEntryList(elemOf(y)) || r.elem(st, y) != nil)
	if !r.chk("M06", ok, ruleGCEntry, where, pos, st, "what is removed (%s) is not an entry that was found in the mirror directory", c.args[0]) || !ok {
		return
	}
	r.chk("M06", !st.mon.flag("unread"), ruleGCFail, where+": read", pos, st, "the directory could not be read")
	r.chk("M06", !st.mon.flag("unresolved"), ruleGCFail, where+": links", pos, st, "a link could not be resolved")
	r.chk("M06", !st.mon.flag("running") && !st.mon.flag("outer"), ruleGCAfter, where, pos, st, "an update may be running")
	absent := func(k string) bool {
		for _, m := range st.mon["all:"+k] {
			if m == e.ts.True {
				return true
			}
			if !st.mon.has("spoiled", m) && notIn(e, st, m, n) {
				return true
			}
		}
		return false
	}
	plain := plainEntry(e, st, func(x *Term) bool { return x == y })
	r.chk("M06", plain || absent("name"), ruleGCNames, where, pos, st, "the entry may be a symbolic link")
	r.chk("M06", absent("target"), ruleGCTargets, where, pos, st, "a symbolic link may lead into the entry")
	if r.lockName == nil {
		return
	}
	lock := false
	ln, _ := r.lockName.str()
	for _, x := range st.mon["fixed"] {
		if s, _ := x.args[1].str(); s == ln && !st.mon.has("spoiled", x.args[0]) && notIn(e, st, x.args[0], n) {
			lock = true
		}
	}
	lock = lock || st.mon.get("notlock") == n
	r.chk("M06", lock, ruleGCLock, where, pos, st, "the entry may be the lock file")
}

func (ro *mirrorRoles) runRoot(p *Program, rep *Report, prop string, fn *ssa.Function, lock *Term) *runRule {
	r := &runRule{mirBase: mirBase{rep: rep, ro: ro}, prop: prop, fn: fn, lockName: lock}
	r.w = &walker{tag: "dir", rule: ruleGCNames, rep: rep,
		wants:  func(e *Engine, st *State, coll *Term) bool { return isEntryList(coll) },
		end:    r.endEntry,
		finish: r.finishEntries}
	e := mirEngine(p, rep, ro, r)
	e.joinAt = 8
	e.follow = func(f *ssa.Function) bool { return !strings.HasPrefix(f.String(), ro.update.String()) }
	if fn != ro.run {
		e.noSpawn = true
	}
	e.runRoot(fn, nil)
	return r
}

func init() {
	register("M05", "typestate dataflow over the SSA form of Run (the lock), and of every function of the mirror that starts goroutines (they are waited for); effect analysis over the call graph (what may change files)",
		"Covers every path of Run and of every function of the mirror package that starts goroutines, and every call from the commands into the mirror package. That flock(2) excludes other processes, and that os.File.Fd gives the descriptor of the file, is taken from the platform."+trust,
		"Every call that may change files, other than opening the lock file, and every start of a goroutine that may, is made while the file of fixed name in the mirror directory is known to be locked exclusively, by a call that does not wait; a refused lock makes Run fail. The lock is released only when all goroutines that may change files were waited for, by every function that started one, and the lock file is never removed.", func(p *Program, rep *Report) {
			ro := findMirror(p, rep)
			if ro == nil {
				return
			}
			r := ro.runRoot(p, rep, "M05", ro.run, nil)
			if r.locks == 0 {
				rep.missing("a call of flock")
			}
			st := p.starters()
			for _, f := range p.funcs {
				if f == ro.run || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/mirror") || !p.touches(f) {
					continue
				}
				starts := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						_, isGo := in.(*ssa.Go)
						_, isStart := st[calleeName(c.Common())]
						starts = starts || isGo || isStart
					}
				}
				if starts && f.Parent() != ro.run {
					ro.runRoot(p, rep, "M05", f, nil)
				}
			}
			for _, f := range p.funcs {
				if f.Pkg == nil || strings.HasSuffix(f.Pkg.Pkg.Path(), "/mirror") {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							g, ok := (*op).(*ssa.Function)
							if !ok || g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), modulePath+"/mirror") {
								continue
							}
							rep.check(g == ro.run || !p.touches(g), ruleOnlyRun, fnLabel(f)+" calls "+g.Name(), in.Pos(), newState(), "changes mirrors without the lock that Run takes")
						}
					}
				}
			}
			rep.floor(ruleOnlyRun, 1)
			rep.floor(ruleWaited, 2)
			rep.floor(ruleLockFirst, 1)
		})
	register("M06", "dataflow over the SSA form of Run and the clean-up, following which entries of the mirror directory are put in the set of those to be kept",
		"Covers every path of Run with the functions that it calls, other than the updates themselves. The entries are taken to be those that ReadDir returned; that no other process changes the directory is M05."+trust,
		"An entry is removed only if it is an element of a list of entries of the mirror directory that was read completely; a walk over all of them put the name of every entry not known to be no symbolic link, and the name of the directory that it leads to, in maps that the name of the entry is known not to be in, after every link was resolved; the name is known not to be that of the lock file; and no update runs then or later.", func(p *Program, rep *Report) {
			ro := findMirror(p, rep)
			if ro == nil {
				return
			}
			l := ro.runRoot(p, newReport(p, rep.prop), "M05", ro.run, nil)
			if l.lockName == nil {
				rep.missing("the lock file")
				return
			}
			r := ro.runRoot(p, rep, "M06", ro.run, l.lockName)
			if r.removals == 0 {
				rep.missing("a clean-up that removes entries of the mirror directory")
			}
		})
}
