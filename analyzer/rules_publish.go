package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fsWrites are the arguments of library functions that are paths that may be
// created, changed or removed.
var fsWrites = map[string][]int{
	"os.OpenFile": {0}, "os.Create": {0}, "os.Remove": {0}, "os.RemoveAll": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0},
	"os.WriteFile": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Lchown": {0}, "os.Chtimes": {0}, "os.Truncate": {0},
	"os.Link": {1}, "os.Symlink": {1}, "os.Rename": {0, 1}, "os.CreateTemp": {0}, "os.MkdirTemp": {0},
	"io/ioutil.WriteFile": {0}, "io/ioutil.TempFile": {0}, "io/ioutil.TempDir": {0},
	"syscall.Open": {0}, "syscall.Unlink": {0}, "syscall.Link": {1}, "syscall.Rename": {0, 1}, "syscall.Symlink": {1}, "syscall.Mkdir": {0}, "syscall.Rmdir": {0}, "syscall.Truncate": {0},
}

// ---- M01, M02, M03

// publishRule follows an update up to the switch of the public name. "link"
// are fresh symbolic links (path, target), "failed" what has failed.
type publishRule struct {
	mirBase
	prop string
	fn   *ssa.Function
}

const (
	rulePubSwitch = "the public name changes only by renaming a fresh symbolic link to the new tree over it"
	rulePubOther  = "nothing else touches the public name"

	rulePubFailed  = "a failure keeps the new tree from being published and is reported"
	rulePubResults = "the result of every download is checked before the new tree is published"
	rulePubSuites  = "every suite is processed before the new tree is published"
	rulePubSaved   = "the list of the stored files is saved before the new tree is published"
	rulePubDone    = "an update succeeds only if the new tree was published"

	ruleSyncList = "the saved list of files is synced before the switch"
	ruleSyncTree = "every directory of the new tree is synced before the switch"
	ruleSyncDirs = "every directory that is met is synced"
	ruleSyncLink = "the directory of the new symbolic link is synced before the switch"
	ruleSyncPub  = "the directory of the public name is synced after the switch"
	ruleSyncFile = "downloaded files are synced after their last write"
)

func (r *publishRule) chk(prop string, ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) bool {
	if prop != r.prop {
		return ok
	}
	return r.rep.check(ok, rule, where, pos, st, format, args...)
}

func fromField(t *Term, field string) bool {
	_, f := loadOf(t)
	return f == field
}

// public says whether t is the public name of the mirror.
func (ro *mirrorRoles) public(t *Term) bool {
	l := components(t)
	return len(l) == 2 && fromField(l[0], ro.top) && fromField(l[1], ro.id)
}

// newTree says whether t is the directory of the new storage, or below it.
func (ro *mirrorRoles) newTree(t *Term) bool {
	l := components(t)
	o, f := loadOf(l[0])
	return f == ro.dir && fromField(o, ro.store)
}

// tempName says whether t is the name of a temporary file.
func (r *publishRule) tempName(e *Engine, st *State, t *Term) bool {
	if !t.isApp("(*os.File).Name") {
		return false
	}
	f := t.args[0]
	if o, _ := resultOf(f); o != nil {
		return true // what is sent is checked by M04
	}
	return f.op != OpNil && e.labelled(st, f, "temp")
}

// distinct says whether a name differs from every valid ID.
func distinct(t *Term) bool {
	odd := func(s string) bool {
		for _, c := range s {
			if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
				return true
			}
		}
		return s == ""
	}
	if s, ok := t.str(); ok {
		return odd(s)
	}
	l := flattenConcat(t)
	if t.isApp("concat*") {
		l = t.args
	}
	for _, x := range l {
		if s, ok := x.str(); ok && s != "" && odd(s) {
			return true
		}
	}
	return false
}

// notPublic says whether t cannot be the public name of a mirror or something
// below it.
func (r *publishRule) notPublic(e *Engine, st *State, t *Term) bool {
	if r.tempName(e, st, t) || e.labelled(st, t, "np") {
		return true
	}
	for t.isApp("path/filepath.Dir") || t.isApp("path.Dir") {
		t = t.args[0]
		if len(components(t)) < 2 && elemOf(t) == nil {
			return false
		}
	}
	if l := elemOf(t); l != nil {
		return e.labelled(st, l, "np")
	}
	return r.otherPath(t)
}

func (r *publishRule) otherPath(t *Term) bool {
	l := components(t)
	if fromField(l[0], r.ro.dir) {
		// the directory of some storage, seen from its methods
		return r.fn != r.ro.update || !fromField(l[0].args[0].args[0], r.ro.cur)
	}
	if fromField(l[0], r.ro.top) || strings.HasSuffix(l[0].String(), ".Dir") {
		return len(l) > 1 && distinct(l[1])
	}
	return false
}

// elemOf is the list that t is an element of, if it is one.
func elemOf(t *Term) *Term {
	if (t.op == OpLoad || t.op == OpSym && t.symKind() == "load") && len(t.args) > 0 && t.args[0].op == OpIndex {
		return t.args[0].args[0]
	}
	if t.isApp("index") {
		return t.args[0]
	}
	return nil
}

func openForWriting(e *Engine, c *Call) bool {
	n, ok := c.args[1].int()
	return !ok || n != 0
}

func (r *publishRule) goro(st *State) bool { return st.frames[0].goro }

func (r *publishRule) Call(e *Engine, st *State, c *Call) Action {
	if idx, ok := fsWrites[c.name]; ok && !(strings.HasSuffix(c.name, ".OpenFile") && !openForWriting(e, c)) {
		where := e.inFn(st) + " calls " + shortName(c.name)
		for _, i := range idx {
			if c.name == "os.Rename" && i == 1 && r.ro.public(c.args[1]) {
				r.publish(e, st, c)
				continue
			}
			if c.name == "os.RemoveAll" && nameOfEntry(c.args[0]) {
				continue // the clean-up (M06)
			}
			r.chk("M01", r.notPublic(e, st, c.args[i]), rulePubOther, where, c.pos(), st, "may change or remove the public name of a mirror: %s", c.args[i])
		}
		r.touched(e, st, c)
	}
	if (c.fn == r.ro.update || c.fn == r.ro.newM) && c.fn != r.fn {
		return ActOpaque // an entry point of its own
	}
	return r.action(c)
}

// nameOfEntry says whether t is the path of an entry found in a directory.
func nameOfEntry(t *Term) bool {
	l := components(t)
	n := l[len(l)-1]
	return n.op == OpApp && (strings.HasSuffix(n.name, "FileInfo).Name") || strings.HasSuffix(n.name, "DirEntry).Name"))
}

func (r *publishRule) link(st *State, path *Term) *Term {
	for _, l := range st.mon["link"] {
		if l.args[0] == path {
			return l.args[1]
		}
	}
	return nil
}

// publish is called when the public name is about to be switched.
func (r *publishRule) publish(e *Engine, st *State, c *Call) {
	where := e.inFn(st) + " switches the public name"
	tgt := r.link(st, c.args[0])
	r.chk("M01", tgt != nil, rulePubSwitch, where, c.pos(), st, "what is renamed (%s) is not known to be a symbolic link made by this update", c.args[0])
	if tgt != nil {
		l := components(tgt)
		ok := len(l) == 2 && r.ro.newTree(l[0]) && (fromField(l[1], r.ro.id) || fromField(l[1], r.ro.prefix))
		r.chk("M01", ok, rulePubSwitch, where+": target", c.pos(), st, "the symbolic link leads to %s, not to the new tree", tgt)
	}
	r.chk("M01", !r.goro(st) && !st.mon.flag("public"), rulePubSwitch, where+" once", c.pos(), st, "the public name may be switched more than once")

	for _, f := range st.mon[monFailed] {
		w, p := failWhere(f)
		r.chk("M02", false, rulePubFailed, w, p, st, "fails, but the new tree is published")
	}
	r.chk("M02", st.mon.flag("saved"), rulePubSaved, where, c.pos(), st, "the new tree is published without saving the list of the stored files")
	r.chk("M02", st.mon.flag("suites"), rulePubSuites, where, c.pos(), st, "the new tree is published although suites may be left")
	if r.prop == "M02" {
		r.settleAll(e, st, c.pos())
		r.waited(e, st, nil, c.pos())
	}

	r.chk("M03", st.mon.flag("list"), ruleSyncList, where, c.pos(), st, "the saved list of files may not have reached the disk")
	r.chk("M03", st.mon.flag("tree"), ruleSyncTree, where, c.pos(), st, "the directories of the new tree may not have reached the disk")
	r.chk("M03", tgt != nil && r.dirSynced(st, c.args[0]), ruleSyncLink, where, c.pos(), st, "the symbolic link may not have reached the disk")
}

// dirSynced says whether the directory of a path was synced after the last
// change in it.
func (r *publishRule) dirSynced(st *State, t *Term) bool {
	l := components(t)
	return len(l) == 2 && st.mon.has("dirsync", l[0])
}

// touched forgets what is known to be on disk.
func (r *publishRule) touched(e *Engine, st *State, c *Call) {
	if r.prop != "M03" || r.goro(st) {
		return
	}
	switch c.name {
	case "os.Chmod", "os.Chtimes", "os.Truncate":
		return
	case "os.Remove":
		if r.tempName(e, st, c.args[0]) {
			return // a crash may leave a temporary file
		}
	}
	idx := fsWrites[c.name]
	for _, i := range idx {
		l := components(c.args[i])
		st.mon.del("dirsync", l[0])
		if r.ro.newTree(c.args[i]) {
			delete(st.mon, "tree")
		}
	}
}

// stores are the calls that add a file to the new tree.
func (r *publishRule) stores(c *Call) bool {
	return c.fn != nil && c.fn.Signature.Recv() != nil && typeName(deref(c.fn.Signature.Recv().Type())) == mirStorage && len(c.args) == 3 && isFileInfoPtr(c.args[1].typ) && fromField(c.args[0], r.ro.store) && !c.inlined
}

var mayFail = map[string]bool{
	"os.Remove": true, "(*os.File).Close": true, "(io.Closer).Close": true, "(io.ReadCloser).Close": true, "io.Copy": true,
	"(*os.File).Seek": false,
}

func (r *publishRule) After(e *Engine, st *State, c *Call, res *Term) {
	er := (*Term)(nil)
	if c.com != nil {
		rt := c.com.Signature().Results()
		if n := rt.Len(); n > 0 && isError(rt.At(n-1).Type()) {
			if cs := comps(res); len(cs) == n {
				er = cs[n-1]
			}
		}
	}
	okd := er == nil || e.nilness(st, er) == Yes
	if r.prop == "M02" && er != nil && !c.inlined {
		r.outcome(e, st, c, er)
	}
	if c.name == "os.Symlink" && okd && er != nil {
		st.mon.set("link", e.ts.mk(OpApp, "link", nil, c.args[1], c.args[0]))
	}
	if c.name == "os.Rename" && r.ro.public(c.args[1]) {
		delete(st.mon, "link")
		if okd {
			st.mon.set("public", e.ts.True)
			delete(st.mon, "dirsync")
		}
	}
	if r.prop == "M01" {
		return
	}
	switch {
	case r.stores(c) && !r.goro(st):
		delete(st.mon, "tree")
		delete(st.mon, "list")
		delete(st.mon, "saved")
		if okd && r.prop == "M02" {
			o, _ := resultOf(c.args[1])
			if o != nil && c.args[2].isApp("(*os.File).Name") {
				if o2, _ := resultOf(c.args[2].args[0]); o2 == o {
					r.good(e, st, o, "good")
				}
			}
		}
	case c.name == "(*encoding/json.Encoder).Encode" && okd && r.isInfo(c.args[1]):
		if n := c.args[0]; n.isCall("encoding/json.NewEncoder") && len(n.args) == 1 {
			r.wrote(e, st, stripConv(n.args[0]))
		}
	case c.name == "(*os.File).Write" && okd:
		if b := c.args[1]; (b.isCall("encoding/json.Marshal") || b.isCall("encoding/json.MarshalIndent")) && r.isInfo(b.args[0]) {
			r.wrote(e, st, c.args[0])
		}
	case (c.name == "(*os.File).Sync" || c.name == "syscall.Fsync") && okd && er != nil:
		f := c.args[0]
		for f.op == OpApp && (f.name == "(*os.File).Fd" || strings.HasPrefix(f.name, "conv:")) {
			f = f.args[0]
		}
		if st.mon.has("wrote", f) {
			st.mon.set("list", e.ts.True)
		}
		// directories are opened to be synced
		if p := openedPath(f); p != nil {
			if _, f := loadOf(components(p)[0]); r.prop == "M03" && len(components(p)) == 1 && f != "" && !st.mon.flag("dir:cur") {
				st.mon.add("dirsync", components(p)[0])
			}
			if st.mon.get("dir:cur") == p {
				st.mon.set("dir:ok", p)
			}
		}
	case c.name == "os.OpenFile" && okd && openForWriting(e, c) && r.ro.newTree(c.args[0]):
		st.mon.add("file", comps(res)[0])
	}
}

// openedPath is the path that a file was opened with.
func openedPath(f *Term) *Term {
	if (f.isCall("os.Open") || f.isCall("os.OpenFile")) && len(f.args) > 0 {
		return f.args[0]
	}
	return nil
}

// isInfo says whether t is the index of the new tree.
func (r *publishRule) isInfo(t *Term) bool {
	o, f := loadOf(stripConv(t))
	return f == r.ro.info && fromField(o, r.ro.store)
}

// wrote notes that the list was written to a file of the new tree.
func (r *publishRule) wrote(e *Engine, st *State, f *Term) {
	p := openedPath(f)
	if p == nil && f.isCall("os.Create") && len(f.args) > 0 {
		p = f.args[0]
	}
	if p == nil || !r.ro.newTree(p) || len(components(p)) != 2 {
		return
	}
	st.mon.add("wrote", f)
	st.mon.set("saved", e.ts.True)
	delete(st.mon, "list")
	delete(st.mon, "tree")
}

// ---- results of downloads

func resultOf(t *Term) (*Term, string) {
	o, f := loadOf(t)
	if o != nil && o.op == OpSym && o.symKind() == "recv" {
		return o, f
	}
	return nil, ""
}

// good notes something about a result; it is settled if it has no error and
// its file was stored or is missing on the server.
func (r *publishRule) good(e *Engine, st *State, res *Term, what string) {
	if !st.mon.has("res", res) {
		return
	}
	e.label(st, res, what)
	if e.labelled(st, res, "errnil") && e.labelled(st, res, "good") {
		st.mon.del("res", res)
		r.rep.oblige(rulePubResults, "the error of a download", token.NoPos)
		r.rep.oblige(rulePubResults, "the outcome of a download", token.NoPos)
	}
}

// settle checks that what was received has been looked at.
func (r *publishRule) settle(e *Engine, st *State, res *Term, pos token.Pos) {
	st.mon.del("res", res)
	if st.mon.flag(monFailed) {
		return
	}
	r.chk("M02", e.labelled(st, res, "errnil"), rulePubResults, "the error of a download", pos, st, "the result of a download is dropped without making sure that it has no error")
	r.chk("M02", e.labelled(st, res, "good"), rulePubResults, "the outcome of a download", pos, st, "the result of a download is dropped although the file was neither stored nor missing on the server")
}

// fail notes that something failed.
func (r *publishRule) fail(e *Engine, st *State, where string, pos token.Pos, er ...*Term) {
	if !st.mon.flag(monFailed) {
		st.mon.add(monFailed, e.ts.mk(OpApp, "fail:"+where+"\x00"+itoa(int(pos)), nil, er...))
	}
}

// tolerated are the errors that may be told from failures.
func tolerated(c *Call) bool {
	switch c.name {
	case "os.Link", "os.Open", "os.OpenFile", "os.Stat", "os.Lstat", "path/filepath.EvalSymlinks", "os.Readlink":
		return true
	}
	return false
}

// outcome follows the error of a call.
func (r *publishRule) outcome(e *Engine, st *State, c *Call, er *Term) {
	if mayFail[c.name] || pureFuncs[c.name] || purePkgs[pkgOf(c.name)] && !impureInPure[c.name] || strings.HasSuffix(c.name, "context.Context).Err") || strings.Contains(c.name, "cybozu-go/log") || strings.HasPrefix(c.name, "fmt.") {
		return
	}
	if c.name == wellWait || c.name == envWait {
		if e.nilness(st, er) != Yes {
			st.mon.add("wait", er)
		}
		return
	}
	for _, f := range st.frames {
		if _, ok := f.site.(*ssa.Defer); ok {
			return // nothing can be done about it
		}
	}
	if _, ok := c.in.(*ssa.Defer); ok {
		return
	}
	where := e.inFn(st) + " calls " + shortName(c.name)
	switch e.nilness(st, er) {
	case Yes:
		r.rep.oblige(rulePubFailed, where, c.pos())
	case Unknown:
		r.rep.violate(rulePubFailed, where, c.pos(), "the error of "+shortName(c.name)+" is ignored", st.trace)
	case No:
		if tolerated(c) {
			r.fail(e, st, where, c.pos(), er)
		} else {
			r.fail(e, st, where, c.pos())
		}
	}
}

func (r *publishRule) settleAll(e *Engine, st *State, pos token.Pos) {
	for _, x := range append([]*Term(nil), st.mon["res"]...) {
		r.settle(e, st, x, pos)
	}
}

func (r *publishRule) isSuites(t *Term) bool {
	_, f := loadOf(t)
	return strings.HasSuffix(f, "mirror.MirrConfig.Suites")
}

func (r *publishRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	if r.prop == "M01" {
		return
	}
	if r.prop == "M02" {
		r.results(e, st, ev, pos)
	} else {
		r.synced(e, st, ev, pos)
	}
	if ev.kind == EvSpawnEnter {
		delete(st.mon, monFailed)
		delete(st.mon, "res")
		delete(st.mon, "wait")
	}
	if rootReturn(st, ev) {
		er := errOf(ev.fn, ev.a)
		r.end(e, st, er, pos)
		if r.fn == r.ro.update && (er == nil || e.nilness(st, er) != No) {
			r.chk("M02", st.mon.flag("public"), rulePubDone, "Update returns nil", pos, st, "success is reported although the new tree was not published")
			r.chk("M03", r.topSynced(st), ruleSyncPub, "Update returns nil", pos, st, "success is reported although the switch may not have reached the disk")
		}
	}
	if ev.kind == EvSpawnExit && !ev.panics {
		r.end(e, st, ev.b, pos)
	}
	if r.fn == r.ro.update && !r.goro(st) && r.prop == "M02" {
		w := walker{tag: "suites", rep: r.rep, wants: func(e *Engine, st *State, coll *Term) bool { return r.isSuites(coll) },
			finish: func(e *Engine, st *State, coll *Term, in ssa.Instruction) { st.mon.set("suites", e.ts.True) }}
		w.on(e, st, ev)
	}
}

// end: an operation or goroutine ends, with an error or nil.
func (r *publishRule) end(e *Engine, st *State, er *Term, pos token.Pos) {
	failed := er != nil && e.nilness(st, er) == No
	r.waited(e, st, er, pos)
	for _, f := range st.mon[monFailed] {
		w, p := failWhere(f)
		r.chk("M02", failed, rulePubFailed, w, p, st, "fails, but that is not reported")
	}
	if !failed {
		r.settleAll(e, st, pos)
	}
}

// waited: the errors of goroutines were looked at or are returned.
func (r *publishRule) waited(e *Engine, st *State, er *Term, pos token.Pos) {
	for _, t := range append([]*Term(nil), st.mon["wait"]...) {
		st.mon.del("wait", t)
		ok := t == er || er != nil && er.any(func(x *Term) bool { return x == t }) || er != nil && e.nilness(st, er) == No
		r.chk("M02", ok, rulePubFailed, "errors of goroutines", pos, st, "the errors of goroutines are ignored")
	}
}

// results follows the results of downloads.
func (r *publishRule) results(e *Engine, st *State, ev *Event, pos token.Pos) {
	switch ev.kind {
	case EvForget:
		for _, x := range append([]*Term(nil), st.mon["res"]...) {
			if x == ev.a || x.any(func(y *Term) bool { return y == ev.a }) {
				r.settle(e, st, x, pos)
			}
		}
	case EvRecv:
		if ev.a != nil && ev.a.isApp("(context.Context).Done") {
			r.fail(e, st, e.inFn(st)+" is cancelled", pos)
		}
		if ev.b == nil || !ev.ok || ev.b.typ == nil {
			return
		}
		if p, ok := ev.b.typ.(*types.Pointer); ok && isResult(p.Elem()) {
			st.mon.add("res", ev.b)
		}
	case EvAssume:
		for _, t := range append([]*Term(nil), st.mon["wait"]...) {
			switch e.nilness(st, t) {
			case No:
				r.fail(e, st, e.inFn(st)+" waits for goroutines", pos)
				st.mon.del("wait", t)
			case Yes:
				st.mon.del("wait", t)
			}
		}
		if ev.ok && len(ev.a.args) == 1 {
			for _, f := range append([]*Term(nil), st.mon[monFailed]...) {
				if len(f.args) == 1 && f.args[0] == ev.a.args[0] && (ev.a.isApp("os.IsExist") && strings.Contains(f.name, "os.Link\x00") || ev.a.isApp("os.IsNotExist") && !strings.Contains(f.name, "os.Link\x00")) {
					st.mon.del(monFailed, f)
				}
			}
		}
		ev.a.each(func(t *Term) {
			o, _ := resultOf(t)
			if o == nil || !st.mon.has("res", o) || t.typ == nil {
				return
			}
			if isError(t.typ) {
				switch e.nilness(st, t) {
				case Yes:
					r.good(e, st, o, "errnil")
				case No:
					r.fail(e, st, "a download", pos)
				}
				return
			}
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				lo, hi, hl, hh := e.bounds(st, t)
				if hl && hh && lo >= 400 && hi <= 499 {
					r.good(e, st, o, "good")
				}
			}
		})
	}
}

// synced follows the walk that syncs directories.
func (r *publishRule) synced(e *Engine, st *State, ev *Event, pos token.Pos) {
	switch ev.kind {
	case EvAssume:
		if cur := st.mon.get("dir:cur"); cur != nil && !ev.ok && ev.a.op == OpApp && strings.HasSuffix(ev.a.name, ".IsDir") && aboutMode(ev.a, cur) {
			st.mon.set("dir:ok", cur)
		}
	case EvIter:
		if ev.a.isApp("walk") {
			st.mon.set("dir:cur", ev.b)
			delete(st.mon, "dir:ok")
			if components(ev.a.args[0])[0] == ev.a.args[0] && r.ro.newTree(ev.a.args[0]) {
				st.mon.set("walking", ev.a)
			}
		}
	case EvBack:
		if ev.a != nil && ev.a.isApp("walk") {
			cur := st.mon.get("dir:cur")
			ok := cur != nil && st.mon.get("dir:ok") == cur && ev.slot != "skip"
			r.chk("M03", ok, ruleSyncDirs, "walk of the new tree", pos, st, "a directory may be left out")
			delete(st.mon, "dir:cur")
			delete(st.mon, "dir:ok")
		}
	case EvIterEnd:
		if ev.a.isApp("walk") && r.ro.newTree(ev.a.args[0]) && len(components(ev.a.args[0])) == 1 {
			st.mon.set("tree", e.ts.True)
			delete(st.mon, "dir:cur")
		}
	}
}

func (r *publishRule) topSynced(st *State) bool {
	for _, t := range st.mon["dirsync"] {
		if fromField(t, r.ro.top) {
			return true
		}
	}
	return false
}

// isResult recognises the type of the results of downloads.
func isResult(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	var er, file, fi bool
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Type()
		er = er || isError(f)
		file = file || ptrTo(f, "os.File")
		fi = fi || isFileInfoPtr(f)
	}
	return er && file && fi
}

// aboutMode says whether t is about the mode of what a walk found.
func aboutMode(t, cur *Term) bool {
	return t.any(func(x *Term) bool {
		return x.op == OpSym && x.symKind() == "walkinfo" && len(x.args) > 0 && x.args[0] == cur
	})
}

func publishRoots(p *Program, rep *Report, prop string) *mirrorRoles {
	ro := findMirror(p, rep)
	if ro == nil {
		return nil
	}
	publishRoot(p, rep, ro, prop, ro.update)
	return ro
}

func publishRoot(p *Program, rep *Report, ro *mirrorRoles, prop string, f *ssa.Function) {
	r := &publishRule{mirBase: mirBase{rep: rep, ro: ro, open: map[string]bool{}}, prop: prop, fn: f}
	for _, m := range ro.methods {
		if prop != "M01" && p.callsAny(m, func(g string) bool {
			return strings.HasPrefix(g, "encoding/json.Marshal") || strings.HasSuffix(g, "json.Encoder).Encode")
		}) {
			r.open[m.Name()] = true
		}
	}
	e := mirEngine(p, rep, ro, r)
	temp := e.intrinsic
	e.intrinsic = func(t *Term) string {
		// a list of paths is harmless if all of them are
		if prop == "M01" && t.op == OpSlice && len(t.args) > 0 {
			for _, x := range t.args {
				if x.typ == nil || x.typ.Underlying().String() != "string" || !r.otherPath(x) {
					return ""
				}
			}
			return "np;"
		}
		return temp(t)
	}
	e.runRoot(f, nil)
}

func init() {
	register("M03", "typestate dataflow over the SSA form of the mirror (what has reached the disk; directory walks)",
		"Covers every path of Update. That downloaded files are synced after their last write and before they are handed over is the contract of the download, decided on every path of the goroutines that download."+trust,
		"At the switch: the file that holds the saved list was synced after it was written, a walk of the new tree that syncs every directory it meets ended without an error after the last file and the list were stored, the directory of the symbolic link was synced after the link was made; Update returns nil only after a sync of the directory of the public name that follows the switch. Every result that a download sends without an error and with status 200 has a file that was synced after its last write.", func(p *Program, rep *Report) {
			ro := publishRoots(p, rep, "M03")
			if ro == nil {
				return
			}
			mirrorDownloads(p, rep, "M03")
			rep.floor(ruleSyncFile, 1)
			rep.floor(ruleSyncList, 1)
			rep.floor(ruleSyncTree, 1)
			rep.floor(ruleSyncDirs, 1)
			rep.floor(ruleSyncLink, 1)
			rep.floor(ruleSyncPub, 1)
		})
	register("M02", "typestate dataflow over the SSA form of the mirror (errors of calls, results received from downloads, saved list; goroutines followed from where they are started)",
		"Covers every path of Run, NewMirror, Update and of the operations of the storage up to the switch of the public name. What the results of downloads say is covered by M04 and M14, which files are fetched by M07."+trust,
		"On every path to the switch: no call that failed (other than closing files, removing temporary ones, and errors told by os.IsExist of a link or os.IsNotExist of an opening), no cancellation seen, every result received from a download known to have no error and either stored or answered with 4xx, the list of suites walked to its end, and the index of the new tree written after the last file was stored. Every such failure makes the operation, and the goroutine it happens in, return an error; Update returns nil only after the switch.", func(p *Program, rep *Report) {
			ro := publishRoots(p, rep, "M02")
			if ro == nil {
				return
			}
			for _, f := range append([]*ssa.Function{ro.newM, ro.run, ro.newStorage}, ro.methods...) {
				publishRoot(p, rep, ro, "M02", f)
			}
			for _, f := range ro.downloads(rep) {
				rep.fns[shortName(f.String())] = true // an entry point of M04 and M14
				for _, g := range sortedFns(p.reach(f)) {
					rep.fns[shortName(g.String())] = true
				}
			}
			rep.filesSeen(p, "mirror")
			rep.floor(rulePubFailed, 15)
			rep.floor(rulePubResults, 2)
			rep.floor(rulePubSuites, 1)
			rep.floor(rulePubSaved, 1)
			rep.floor(rulePubDone, 1)
		})
	register("M01", "path-provenance and typestate dataflow over the SSA form of the mirror (goroutines followed from where they are started)",
		"Covers every path of Run, NewMirror, Update and of the operations of the storage."+trust,
		"The only call that changes the public name (directory of the mirror / ID) is a rename in Update of a symbolic link that the same update made, whose target is the new storage's directory / ID; every other call that creates, changes or removes a file gets a path in the directory of a storage, the name of a temporary file, or a name in the directory of the mirror that is not a valid ID. The clean-up is decided by M06.", func(p *Program, rep *Report) {
			ro := publishRoots(p, rep, "M01")
			if ro == nil {
				return
			}
			for _, f := range append(append([]*ssa.Function{ro.newM, ro.run, ro.newStorage}, ro.methods...), ro.downloads(rep)...) {
				publishRoot(p, rep, ro, "M01", f)
			}
			rep.filesSeen(p, "mirror")
			rep.floor(rulePubSwitch, 3)
			rep.floor(rulePubOther, 5)
		})
}
