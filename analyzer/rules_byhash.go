package main

import (
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- M11

const (
	ruleHashLinks = "a file that is stored for by-hash retrieval is linked at the locations of all three digests"
	ruleHashCanon = "it is linked at its canonical path, too, unless that is taken"
	ruleHashUse   = "files of a suite are stored for by-hash retrieval if and only if the suite supports it"
	ruleHashAll   = "by-hash is supported only if every Release file that was stored says so"
	ruleHashDiff  = "without by-hash support, different checksums for one path are an error"
	ruleHashList  = "every file that a Release file lists is added to the list of its path, or is there already"
	ruleHashTaken = "a file is not stored at a path that is taken"

	aptByHash = modulePath + "/apt.SupportByHash"
)

var hashPathFns = []string{"MD5SumPath", "SHA1Path", "SHA256Path"}

// byHashRule: "link" follows an operation that stores a file, "suite" the
// processing of a suite, "release" that of its Release files.
type byHashRule struct {
	mirBase
	prop    string
	fn      *ssa.Function
	sources map[*ssa.Function]bool // functions that decide whether by-hash is supported
	w       *walker
	cells   map[ssa.Value]bool // what the decision is kept in
	single  bool
}

func (r *byHashRule) chk(ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) {
	r.rep.check(ok, rule, where, pos, st, format, args...)
}

// asks says whether a function asks if a Release file supports by-hash.
func (p *Program) asksByHash(f *ssa.Function) bool {
	return p.reaches(f, func(_ ssa.Instruction, g *ssa.Function) bool { return g.String() == aptByHash })
}

func isListMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	return ok && isFileInfoPtr(s.Elem())
}

// storesHashed says whether an operation of the storage stores files for
// by-hash retrieval.
func (r *byHashRule) storesHashed(f *ssa.Function) bool {
	return r.rep.p.reaches(f, func(_ ssa.Instruction, g *ssa.Function) bool {
		return strings.HasSuffix(g.String(), "apt.FileInfo).SHA256Path")
	})
}

func (r *byHashRule) Call(e *Engine, st *State, c *Call) Action {
	where, pos := e.inFn(st)+" calls "+shortName(c.name), c.pos()
	inRepo := c.fn != nil && r.rep.p.inRepo(c.fn)
	switch r.prop {
	case "link":
		if inRepo && strings.Contains(c.name, "apt.FileInfo).") {
			return ActPure
		}
		return ActDefault
	case "suite":
		if inRepo && r.sources[c.fn] {
			return ActOpaque
		}
		if storing(c) && isStorage(c.fn) {
			for _, b := range st.mon["suite"] {
				v := e.truth(st, b)
				if r.storesHashed(c.fn) {
					r.chk(v == Yes, ruleHashUse, where, pos, st, "the suite may not support by-hash")
				} else {
					r.chk(v == No, ruleHashUse, where, pos, st, "the suite may support by-hash")
				}
			}
			return ActOpaque
		}
		if isStorage(c.fn) && token.IsExported(c.fn.Name()) {
			return ActOpaque
		}
		if inRepo && !r.rep.p.reaches(c.fn, func(_ ssa.Instruction, g *ssa.Function) bool { return isStorage(g) && storesFile(g) }) {
			return ActHavoc
		}
	case "release":
		if storing(c) && isStorage(c.fn) {
			st.mon.add("pending", c.args[1])
			return ActOpaque
		}
		if isStorage(c.fn) && token.IsExported(c.fn.Name()) {
			return ActOpaque
		}
		if inRepo && strings.HasSuffix(c.name, "apt.ExtractFileInfo") {
			return ActOpaque
		}
		if c.name == aptByHash || inRepo && strings.Contains(c.name, "apt.FileInfo).") {
			return ActPure
		}
		if inRepo && (c.fn.Pkg == nil || !strings.HasSuffix(c.fn.Pkg.Pkg.Path(), "/mirror") || r.rep.p.requests(c.fn)) {
			return ActHavoc
		}
		if inRepo && !r.rep.p.asksByHash(c.fn) && !usesLists(c.fn) {
			if v := c.fn.Signature.Recv(); v != nil && typeName(deref(v.Type())) == "mirror.MirrConfig" && r.rep.p.readOnly(c.fn) {
				return ActPure
			}
			return ActHavoc
		}
	}
	return r.action(c)
}

func usesLists(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isListMap(p.Type()) || isFileInfoPtr(p.Type()) {
			return true
		}
	}
	return false
}

func (r *byHashRule) After(e *Engine, st *State, c *Call, res *Term) {
	l := comps(res)
	switch r.prop {
	case "link":
		if c.name == "os.Link" {
			fi := r.given(e)
			for _, k := range append([]string{"Path"}, hashPathFns...) {
				if hashOf(c.args[1], k, fi) {
					st.mon.set("link:"+k, res)
				}
			}
			r.links(e, st)
		}
	case "suite":
		if c.fn != nil && r.sources[c.fn] {
			for _, x := range l {
				if x.typ != nil && x.typ.Underlying().String() == "bool" {
					st.mon.set("suite", x)
				}
			}
		}
	case "release":
		if strings.HasSuffix(c.name, "apt.ExtractFileInfo") && len(l) == 3 {
			st.mon.set("list", l[0])
			st.mon.set("said", e.ts.mk(OpApp, "said", nil, l[1], c.args[0], l[2]))
		}
		if storing(c) && isStorage(c.fn) && len(l) == 1 {
			st.mon.set("stored", l[0])
		}
	}
}

// hashOf says whether a path is that of fi for a digest, or its own.
func hashOf(t *Term, kind string, fi *Term) bool {
	return t.any(func(x *Term) bool {
		return x.op == OpApp && strings.HasSuffix(x.name, "apt.FileInfo)."+kind) && len(x.args) == 1 && x.args[0] == fi
	})
}

// links notes the links that are known to be there.
func (r *byHashRule) links(e *Engine, st *State) {
	for _, k := range append([]string{"Path"}, hashPathFns...) {
		er := st.mon.get("link:" + k)
		if er == nil {
			continue
		}
		ok := e.nilness(st, er) == Yes
		for t, f := range st.facts {
			ok = ok || f.truth == Yes && (t.isApp("os.IsExist") || t.isApp("errors.Is")) && t.args[0] == er
		}
		if ok {
			st.mon.set("at:"+k, e.ts.True)
		}
	}
}

// decision is the value that the decision has at the end of a round.
func (r *byHashRule) decision(e *Engine, st *State, succ, pred *ssa.BasicBlock) []*Term {
	var l []*Term
	for v := range r.cells {
		switch v := v.(type) {
		case *ssa.Alloc:
			if a, ok := st.top().env[v]; ok {
				if x := st.mem[a]; x != nil {
					l = append(l, x)
				}
			}
		case *ssa.Phi:
			if v.Block() != succ {
				continue
			}
			for k, p := range succ.Preds {
				if p == pred {
					l = append(l, e.val(st, v.Edges[k]))
				}
			}
		}
	}
	return l
}

// change checks that the decision does not become yes again.
func (r *byHashRule) change(e *Engine, st *State, old, b *Term, pos token.Pos) {
	if old == nil || b == nil {
		return
	}
	ok := b == old || e.truth(st, b) == No || e.truth(st, old) == Yes || b.isApp("and") && (b.args[0] == old || b.args[1] == old)
	r.chk(ok, ruleHashAll, e.inFn(st)+" changes the decision", pos, st, "the suite may be taken to support by-hash although an earlier Release file does not: %s %s", old, b)
}

// settle checks that the decision b takes into account what the Release file
// that was processed last says.
func (r *byHashRule) settle(e *Engine, st *State, b *Term, where string, pos token.Pos) {
	if !st.mon.flag("pending") {
		return
	}
	r.chk(r.agrees(e, st, b), ruleHashAll, where, pos, st, "the suite may be taken to support by-hash although this Release file may not say so")
	r.settled(st)
}

func (r *byHashRule) agreed(st *State) {
	if st.mon.flag("pending") {
		r.chk(true, ruleHashAll, fnLabel(r.fn)+" processes a Release file", r.fn.Pos(), st, "")
	}
	r.settled(st)
}

func (r *byHashRule) settled(st *State) {
	delete(st.mon, "pending")
	delete(st.mon, "said")
	delete(st.mon, "stored")
}

// agrees says whether the decision b takes what the Release file says into
// account.
func (r *byHashRule) agrees(e *Engine, st *State, b *Term) bool {
	if e.truth(st, b) == No {
		return true
	}
	if x := st.mon.get("said"); x != nil {
		s := e.ts.mk(OpApp, aptByHash, types.Typ[types.Bool], x.args[0])
		if b == s || b.isApp("and") && (b.args[0] == s || b.args[1] == s) || e.truth(st, s) == Yes {
			return true
		}
		for _, n := range []string{"path.Base", "path/filepath.Base"} {
			if e.sameValue(st, e.ts.mk(OpApp, n, types.Typ[types.String], x.args[1]), e.ts.Str("Release.gpg")) == Yes {
				return true
			}
		}
	}
	e0 := st.mon.get("stored")
	return e0 != nil && e.nilness(st, e0) == No
}

func (r *byHashRule) isRelease(t *Term) bool {
	return t.op == OpSym && strings.HasSuffix(t.symKind(), "apt.ExtractFileInfo") && t.symIdx() == 0
}

func (r *byHashRule) endListed(e *Engine, st *State, coll, cur *Term, in ssa.Instruction) {
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	ok := st.mon.flag("put")
	delete(st.mon, "put")
	r.chk(ok, ruleHashList, e.inFn(st)+" goes on", pos, st, "a file that a Release file lists may be left out")
}

func (r *byHashRule) On(e *Engine, st *State, ev *Event) {
	if r.w != nil {
		r.w.on(e, st, ev)
	}
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	switch ev.kind {
	case EvForget:
		if b := st.mon.get("suite"); b == ev.a {
			delete(st.mon, "suite")
		}
		for _, k := range append([]string{"Path"}, hashPathFns...) {
			if st.mon.get("link:"+k) == ev.a {
				delete(st.mon, "link:"+k)
			}
		}
	case EvBack:
		if r.prop == "release" && len(st.frames) == 2 {
			if r.extracts(e, ev.block) {
				r.listDone(e, st, fnLabel(r.fn)+" goes on with the next Release file", pos)
			}
			for _, in := range ev.block.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok || !r.cells[ph] {
					continue
				}
				for k, p := range ev.block.Preds {
					if p == ev.in.Block() {
						r.change(e, st, st.top().env[ph], e.val(st, ph.Edges[k]), pos)
					}
				}
			}
			for _, b := range r.decision(e, st, ev.block, ev.in.Block()) {
				r.settle(e, st, b, fnLabel(r.fn)+" processes a Release file", pos)
			}
		}
	case EvAssume, EvTest:
		if r.prop == "release" {
			r.signature(e, st, ev.a, ev.ok)
			for _, b := range r.now(e, st) {
				if e.truth(st, b) == No {
					r.agreed(st)
				}
			}
			if st.mon.flag("said") && r.agrees(e, st, e.ts.True) {
				r.agreed(st)
			}
			for t, f := range st.facts {
				if f.truth == Yes && t.isApp(aptSame) && len(t.args) == 2 {
					r.handled(e, st, t.args[0])
					r.handled(e, st, t.args[1])
				}
			}
		}
		if r.prop != "link" {
			break
		}
		r.known(e, st)
		r.links(e, st)
	case EvStore:
		if r.prop != "release" {
			break
		}
		for v := range r.cells {
			if _, ok := v.(*ssa.Alloc); ok && st.frames[1].env[v] == ev.a {
				r.change(e, st, st.mem[ev.a], ev.b, pos)
				if st.mon.flag("pending") && r.agrees(e, st, ev.b) {
					r.agreed(st)
				}
			}
		}
	case EvMapUpdate:
		if r.prop == "link" && isInfoMap(ev.a.typ) {
			r.known(e, st)
			st.mon.set("added", e.ts.Str("added"))
		}
		if r.prop != "release" || !isListMap(ev.a.typ) {
			break
		}
		r.put(e, st, ev, pos)
	}
	if !rootReturn(st, ev) {
		return
	}
	er := errOf(r.fn, ev.a)
	if er != nil && e.nilness(st, er) == No {
		return
	}
	if pos == token.NoPos {
		pos = r.fn.Pos()
	}
	switch r.prop {
	case "link":
		canon := st.mon.flag("at:Path")
		if !r.single {
			for _, k := range hashPathFns {
				r.chk(st.mon.flag("at:"+k), ruleHashLinks, fnLabel(r.fn)+" returns no error: "+k, pos, st, "the file may not be at its location of by-hash retrieval")
			}
			r.chk(canon || st.mon.flag("taken"), ruleHashCanon, fnLabel(r.fn)+" returns no error", pos, st, "the file may not be at its canonical path, although that is not taken")
			return
		}
		r.chk(st.mon.flag("free") && canon, ruleHashTaken, fnLabel(r.fn)+" returns no error", pos, st, "another file may have been stored at the path before")
	case "release":
		r.listDone(e, st, fnLabel(r.fn)+" returns no error", pos)
		for i, x := range comps(ev.a) {
			if r.fn.Signature.Results().At(i).Type().Underlying().String() == "bool" {
				r.settle(e, st, x, fnLabel(r.fn)+" returns", pos)
			}
		}
	}
}

// signature notes that the file that was processed is a signature, which says
// nothing.
func (r *byHashRule) signature(e *Engine, st *State, t *Term, yes bool) {
	for t.isApp("!") {
		t, yes = t.args[0], !yes
	}
	x := st.mon.get("said")
	if x == nil || !yes || !t.isApp("==") {
		return
	}
	for i := range t.args {
		n, ok := t.args[i].str()
		o := t.args[1-i]
		if ok && n == "Release.gpg" && (o.isApp("path.Base") || o.isApp("path/filepath.Base")) && o.args[0] == x.args[1] {
			r.agreed(st)
			return
		}
	}
}

// present says whether a key is in a map.
func (r *byHashRule) present(e *Engine, st *State, m, k *Term) Tri {
	i := st.findMap(m, k)
	if i < 0 {
		if st.mem[e.ts.mk(OpApp, "mapempty", nil, m)] == e.ts.True {
			return No
		}
		return Unknown
	}
	x := st.maps[i]
	if x.ok == Unknown && x.okT != nil {
		return e.truth(st, x.okT)
	}
	return x.ok
}

// given is the description of the file to be stored.
func (r *byHashRule) given(e *Engine) *Term {
	for _, a := range r.fn.Params {
		if isFileInfoPtr(a.Type()) {
			return e.ts.mk(OpParam, a.Name(), a.Type())
		}
	}
	return nil
}

// known notes whether the path of the file is in the index, before anything is
// added to it.
func (r *byHashRule) known(e *Engine, st *State) {
	if st.mon.flag("added") {
		return
	}
	fi := r.given(e)
	for _, x := range st.maps {
		if isInfoMap(x.m.typ) && x.k.isApp(fnPath) && x.k.args[0] == fi {
			switch r.present(e, st, x.m, x.k) {
			case Yes:
				st.mon.set("taken", fi)
			case No:
				st.mon.set("free", fi)
			}
		}
	}
}

// handled notes that a file is in the list of its path, if it is the one that is
// being processed.
func (r *byHashRule) handled(e *Engine, st *State, fi *Term) {
	for _, c := range st.mon[r.w.k("cur")] {
		if isElem(fi, c) {
			st.mon.set("put", e.ts.True)
		}
	}
}

// endList notes that all files of a list were processed.
func (r *byHashRule) endList(e *Engine, st *State, coll *Term, in ssa.Instruction) {
	delete(st.mon, r.w.k("done"))
	if st.mon.get("list") == coll {
		delete(st.mon, "list")
	}
}

// extracts says whether a loop extracts what Release files list.
func (r *byHashRule) extracts(e *Engine, h *ssa.BasicBlock) bool {
	for b := range e.p.info(h.Parent()).loopBody[h] {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f != nil && (strings.HasSuffix(f.String(), "apt.ExtractFileInfo") || r.rep.p.asksByHash(f)) {
				return true
			}
		}
	}
	return false
}

// listDone checks that all that a Release file lists was processed.
func (r *byHashRule) listDone(e *Engine, st *State, where string, pos token.Pos) {
	x := st.mon.get("list")
	if x == nil {
		return
	}
	delete(st.mon, "list")
	r.chk(e.absent(st, x) == Yes, ruleHashList, where, pos, st, "files that a Release file lists may be left out")
}

// put checks what is put into the list of a path.
func (r *byHashRule) put(e *Engine, st *State, ev *Event, pos token.Pos) {
	where := e.inFn(st) + " adds to a list"
	v := ev.c
	var added, old *Term
	switch {
	case v.op == OpSlice && len(v.args) > 0:
		added = v.args[len(v.args)-1]
		if len(v.args) > 1 {
			old = v
		}
	case v.isApp("append") && v.args[1].op == OpSlice && len(v.args[1].args) == 1:
		old, added = v.args[0], v.args[1].args[0]
	}
	if added == nil {
		r.chk(false, ruleHashList, where, pos, st, "it is not known what the list of %s becomes: %s", ev.b, v)
		return
	}
	path := ev.b.isApp(fnPath) && ev.b.args[0] == added
	r.chk(path, ruleHashList, where+": path", pos, st, "%s is added under %s, which is not its path", added, ev.b)
	r.handled(e, st, added)
	if r.present(e, st, ev.a, ev.b) == No || old != nil && e.nilness(st, old) == Yes || old != nil && e.absent(st, old) == Yes {
		r.chk(true, ruleHashDiff, where+": first", pos, st, "")
		return
	}
	if old == nil {
		r.chk(false, ruleHashList, where+": others", pos, st, "other files of the path may be left out")
		return
	}
	yes := false
	for _, b := range r.now(e, st) {
		yes = yes || e.truth(st, b) == Yes
	}
	r.chk(yes, ruleHashDiff, where+": second", pos, st, "a second file of the path is taken although by-hash may not be supported")
}

// now is the decision so far.
func (r *byHashRule) now(e *Engine, st *State) []*Term {
	var l []*Term
	fr := st.frames[1]
	for v := range r.cells {
		switch v.(type) {
		case *ssa.Alloc:
			if a, ok := fr.env[v]; ok && st.mem[a] != nil {
				l = append(l, st.mem[a])
			}
		default:
			if x, ok := fr.env[v]; ok {
				l = append(l, x)
			}
		}
	}
	return l
}

// decisionCells are what a function may keep the bool that it returns in.
func decisionCells(f *ssa.Function) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if m[v] {
			return
		}
		switch v := v.(type) {
		case *ssa.Phi:
			m[v] = true
			for _, x := range v.Edges {
				visit(x)
			}
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && !m[a] {
				m[a] = true
				for _, in := range *a.Referrers() {
					if w, ok := in.(*ssa.Store); ok && w.Addr == a {
						visit(w.Val)
					}
				}
			}
		case *ssa.Call, *ssa.Extract, *ssa.BinOp:
			m[v] = true
		}
	}
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, x := range rt.Results {
				if x.Type().Underlying().String() == "bool" {
					visit(x)
				}
			}
		}
	}
	return m
}

func init() {
	register("M11", "typestate and provenance dataflow over the SSA form of the mirror (links made, the decision on by-hash, lists of files per path)",
		"Covers every path of the operations that store files, of the function that decides whether a suite supports by-hash, and of the functions that call it, with the goroutines that they start. What a Release file says is SupportByHash of its first paragraph (A04); the locations are those of A06."+trust,
		"An operation of the storage that stores a file for by-hash retrieval returns nil only after a link for each of the three digests was made or existed, and one at the canonical path unless the path is known to be in the index already; the other one only if the path was not. In processing a suite, the former is called only where the decision for that suite is known to be yes, the latter only where it is known to be no. The decision is never changed from no to yes, and after each Release file that was stored, other than a signature, is no or what SupportByHash says of that file. A list of files of a path starts with one file and gets others only where the decision so far is known to be yes; every listed file is added or known to be the same as one already there.", func(p *Program, rep *Report) {
			ro := findMirror(p, rep)
			if ro == nil {
				return
			}
			// the functions that decide
			sources := map[*ssa.Function]bool{}
			for _, f := range p.funcs {
				if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/mirror") || f.Parent() != nil || !p.asksByHash(f) {
					continue
				}
				bools, lists := false, false
				for i := 0; i < f.Signature.Results().Len(); i++ {
					t := f.Signature.Results().At(i).Type()
					bools = bools || t.Underlying().String() == "bool"
					lists = lists || isListMap(t)
				}
				if bools && lists {
					sources[f] = true
				}
			}
			if len(sources) == 0 {
				rep.missing("a function that decides whether a suite supports by-hash")
				return
			}
			run := func(prop string, f *ssa.Function, single bool) {
				if o := os.Getenv("APTVERIF_ROOT"); o != "" && !strings.Contains(f.String(), o) {
					return
				}
				r := &byHashRule{mirBase: mirBase{rep: rep, ro: ro}, prop: prop, fn: f, sources: sources, single: single}
				e := mirEngine(p, rep, ro, r)
				switch prop {
				case "link":
					keepAll(e)
					e.undecK = 40 // one file, a handful of links
				case "release":
					r.cells = decisionCells(f)
					e.keepMap = func(m *Term) bool { return isListMap(m.typ) }
					e.keepFact = func(t *Term) bool {
						return t.isApp(aptSame) || t.isApp("len") && t.args[0].isApp("mapval") || t.isApp("len") && t.args[0].op == OpSym && t.args[0].symKind() == "mapval"
					}
					r.w = &walker{tag: "listed", rule: ruleHashList, rep: rep, end: r.endListed, finish: r.endList,
						wants: func(e *Engine, st *State, coll *Term) bool { return r.isRelease(coll) }}
					e.noSpawn = true
				case "suite":
					e.joinAt = 8
				}
				e.runRoot(f, nil)
			}
			hashed := 0
			for _, m := range ro.methods {
				if !storesFile(m) {
					continue
				}
				r := &byHashRule{mirBase: mirBase{rep: rep, ro: ro}}
				h := r.storesHashed(m)
				if h {
					hashed++
				}
				run("link", m, !h)
			}
			if hashed == 0 {
				rep.missing("an operation that stores files for by-hash retrieval")
			}
			callers := map[*ssa.Function]bool{}
			for _, f := range sortedFns(sources) {
				run("release", f, false)
				for _, g := range p.funcs {
					if sources[g] {
						continue
					}
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
								callers[g] = true
							}
						}
					}
				}
			}
			for _, g := range sortedFns(callers) {
				run("suite", g, false)
			}
			rep.floor(ruleHashLinks, 3)
			rep.floor(ruleHashCanon, 1)
			rep.floor(ruleHashTaken, 1)
			rep.floor(ruleHashUse, 2)
			rep.floor(ruleHashAll, 1)
			rep.floor(ruleHashDiff, 2)
			rep.floor(ruleHashList, 1)
		})
}
