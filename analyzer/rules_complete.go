package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- A06

// completeRule follows every listed line of an index into the list returned.
//
// The line under consideration is the token "elem" (list, index); "next" has
// the index expected next for each list being traversed and "done" the lists
// that have been traversed. Maps that entries were put in are "coll", the
// lists of entries that have to be carried to the result are "lists".
type completeRule struct {
	NopRule
	rep  *Report
	fn   *ssa.Function
	kind *indexKind
	dir  string
}

const (
	ruleAllLines  = "every line has an entry"
	ruleAllLists  = "every list of lines is traversed to its end"
	ruleAllVals   = "every entry is carried to the result"
	ruleParas     = "every paragraph has an entry"
	ruleNoDeletes = "only the entries of Release files themselves are removed"
)

func (r *completeRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == parserRead {
		r.endPara(e, st, c.in)
		return ActOpaque
	}
	return ActDefault
}

func (r *completeRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.name != parserRead {
		return
	}
	if e.nilness(st, comps(res)[1]) == Yes {
		st.mon.set("para", comps(res)[0])
	}
}

// derived says whether t is made from the line (list, i).
func derived(t, list, i *Term) bool {
	return t.any(func(x *Term) bool {
		l, j := lineOf(x)
		if l == nil && x.isApp("index") && len(x.args) == 2 {
			l, j = x.args[0], x.args[1]
		}
		return l == list && j == i
	})
}

// ownName says whether k is one of the names that a Release file may list
// for itself.
func (r *completeRule) ownName(e *Engine, st *State, k *Term) bool {
	if r.kind.name != "Release" {
		return false
	}
	is := func(t *Term) bool {
		s, ok := t.str()
		return ok && (s == r.dir+"Release" || s == r.dir+"Release.gpg" || s == r.dir+"InRelease")
	}
	if is(k) {
		return true
	}
	if x := e.eqOf(st, k); x != nil && is(x) {
		return true
	}
	for t, f := range st.facts {
		if f.truth == Yes && t.isApp("==") && (t.args[0] == k && is(t.args[1]) || t.args[1] == k && is(t.args[0])) {
			return true
		}
	}
	return false
}

func (r *completeRule) elemDone(e *Engine, st *State) bool {
	el := st.mon.get("elem")
	if el == nil || st.mon.flag("ok") {
		return true
	}
	for _, x := range st.maps {
		if x.ok == Yes && st.mon.has("coll", x.m) && derived(x.k, el.args[0], el.args[1]) {
			return true
		}
	}
	own := false
	seen := func(t *Term) {
		if derived(t, el.args[0], el.args[1]) && r.ownName(e, st, t) {
			own = true
		}
	}
	for t, f := range st.facts {
		if f.truth == Yes && t.isApp("==") || f.eq != nil {
			seen(t)
			for _, a := range t.args {
				seen(a)
			}
		}
	}
	return own
}

func (r *completeRule) endElem(e *Engine, st *State, in ssa.Instruction) {
	el := st.mon.get("elem")
	if el == nil {
		return
	}
	r.rep.check(r.elemDone(e, st), ruleAllLines, "field "+paraKey(el.args[0]), in.Pos(), st, "goes on although the line may have no entry")
	delete(st.mon, "elem")
	delete(st.mon, "ok")
}

// covered says whether all lines of field k of the paragraph are done.
func (r *completeRule) covered(e *Engine, st *State, k string) bool {
	p := st.mon.get("para")
	for _, x := range st.mon["done"] {
		if paraKey(x) == k && x.args[0] == p {
			return true
		}
	}
	if st.mon.has("none", e.ts.Str(k)) {
		return true
	}
	for _, x := range st.maps {
		if s, _ := x.k.str(); x.m == p && s == k {
			if x.ok == No || x.val != nil && (x.val.op == OpNil || e.nilness(st, x.val) == Yes) {
				return true
			}
			if x.val != nil {
				n := e.length(st, x.val, x.val.typ)
				if e.truth(st, e.eq(n, e.ts.Int(0))) == Yes {
					return true
				}
				if _, hi, _, hh := e.bounds(st, n); hh && hi <= 0 {
					return true
				}
			}
		}
	}
	return false
}

// endPara decides whether everything of the paragraph read last is carried.
func (r *completeRule) endPara(e *Engine, st *State, in ssa.Instruction) {
	pos := r.fn.Pos()
	if in != nil {
		pos = in.Pos()
		r.endElem(e, st, in)
	}
	if st.mon.get("para") == nil {
		return
	}
	if r.kind.list {
		for _, k := range sortedKeys(r.kind.digest) {
			r.rep.check(r.covered(e, st, k), ruleAllLists, "field "+k, pos, st, "the lines of field %s may not all have been read", k)
		}
		r.rep.check(!st.mon.flag("open") && !st.mon.flag("coll"), ruleAllVals, "entries by name", pos, st, "the entries are not all added to the result")
	} else {
		r.rep.check(st.mon.flag("entry"), ruleParas, r.kind.name, pos, st, "a paragraph is dropped")
	}
	for _, k := range []string{"para", "entry", "done", "next", "coll", "open", "none"} {
		delete(st.mon, k)
	}
}

func sortedKeys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func isEntry(t *Term) bool {
	return t != nil && t.typ != nil && strings.HasSuffix(t.typ.String(), "apt.FileInfo") && strings.HasPrefix(t.typ.String(), "*")
}

func (r *completeRule) category(st *State) string {
	var sb strings.Builder
	for _, k := range []string{"elem", "ok", "entry", "coll", "open", "lists", "para"} {
		if st.mon.flag(k) {
			sb.WriteString(k)
		}
	}
	for _, t := range st.mon["done"] {
		sb.WriteString("," + paraKey(t))
	}
	for _, t := range st.mon["none"] {
		sb.WriteString(",-" + t.String())
	}
	return sb.String()
}

func plus(e *Engine, t *Term, n int64) *Term {
	if n == 0 {
		return t
	}
	if m, ok := t.int(); ok {
		return e.ts.Int(m + n)
	}
	if t.isApp("+") && len(t.args) == 2 {
		if m, ok := t.args[1].int(); ok {
			if m+n == 0 {
				return t.args[0]
			}
			return e.ts.mk(OpApp, "+", t.typ, t.args[0], e.ts.Int(m+n))
		}
	}
	return e.ts.mk(OpApp, "+", t.typ, t, e.ts.Int(n))
}

// nextOf is the index of list expected next.
func (r *completeRule) nextOf(e *Engine, st *State, list *Term) *Term {
	for _, x := range st.mon["next"] {
		if x.args[0] == list {
			return x.args[1]
		}
	}
	return e.ts.Int(0)
}

func (r *completeRule) setNext(e *Engine, st *State, list, i *Term) {
	for _, x := range st.mon["next"] {
		if x.args[0] == list {
			st.mon.del("next", x)
			break
		}
	}
	if i != nil {
		st.mon.add("next", e.ts.mk(OpApp, "next", nil, list, i))
	}
}

func (r *completeRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvWiden:
		for _, x := range append([]*Term(nil), st.mon["next"]...) {
			for d := int64(0); d <= 1; d++ {
				if plus(e, ev.b, d) == x.args[1] {
					r.setNext(e, st, x.args[0], plus(e, ev.a, d))
					break
				}
			}
		}
		for _, k := range []string{"lists", "coll"} {
			if st.mon.has(k, ev.b) {
				st.mon.del(k, ev.b)
				st.mon.add(k, ev.a)
			}
		}
	case EvMapLookup:
		if k, ok := ev.b.str(); ok && ev.a == st.mon.get("para") {
			if i := st.findMap(ev.a, ev.b); i >= 0 && st.maps[i].ok == No {
				st.mon.add("none", e.ts.Str(k))
			}
		}
		if el := st.mon.get("elem"); el != nil && st.mon.has("coll", ev.a) && derived(ev.b, el.args[0], el.args[1]) {
			if i := st.findMap(ev.a, ev.b); i >= 0 && st.maps[i].ok == Yes {
				st.mon.set("ok", e.ts.True)
			}
		}
	case EvStore:
		if el := st.mon.get("elem"); el != nil && ev.a.op == OpField && len(ev.a.args) == 1 {
			if x := ev.a.args[0]; x.op == OpSym && x.symKind() == "mapval" && len(x.args) == 2 && st.mon.has("coll", x.args[0]) && derived(x.args[1], el.args[0], el.args[1]) {
				st.mon.set("ok", e.ts.True)
			}
		}
	case EvAssume:
		if ev.a.isApp("==") && ev.ok {
			for k := 0; k < 2; k++ {
				n, ok := ev.a.args[k].int()
				if x := ev.a.args[1-k]; ok && n == 0 && x.isApp("len") && paraKey(x.args[0]) != "" {
					st.mon.add("none", e.ts.Str(paraKey(x.args[0])))
				}
				if x := ev.a.args[1-k]; ev.a.args[k].op == OpNil && paraKey(x) != "" {
					st.mon.add("none", e.ts.Str(paraKey(x)))
				}
			}
		}
		if !ev.a.isApp("<") || !ev.a.args[1].isApp("len") {
			return
		}
		list, i := ev.a.args[1].args[0], ev.a.args[0]
		if paraKey(list) == "" || r.kind.digest[paraKey(list)] == "" {
			return
		}
		if !r.kind.list {
			return
		}
		r.endElem(e, st, ev.in)
		want := r.nextOf(e, st, list)
		r.rep.check(i == want, ruleAllLists, "field "+paraKey(list), ev.in.Pos(), st, "goes to line %s of the list although %s is the next one", i, want)
		if ev.ok {
			st.mon.set("elem", e.ts.mk(OpApp, "elem", nil, list, i))
			delete(st.mon, "ok")
			r.setNext(e, st, list, plus(e, i, 1))
		} else {
			r.setNext(e, st, list, nil)
			st.mon.add("done", list)
		}
	case EvMapUpdate:
		if !isEntry(ev.c) {
			return
		}
		st.mon.add("coll", ev.a)
		st.mon.del("open", ev.a)
		if el := st.mon.get("elem"); el != nil && derived(ev.b, el.args[0], el.args[1]) {
			st.mon.set("ok", e.ts.True)
		}
	case EvMapDelete:
		if st.mon.has("coll", ev.a) || ev.a.typ != nil && strings.HasSuffix(ev.a.typ.Underlying().String(), "apt.FileInfo") {
			r.rep.check(r.ownName(e, st, ev.b), ruleNoDeletes, r.kind.name, ev.in.Pos(), st, "removes entry %s", ev.b)
		}
	case EvIter:
		if !st.mon.has("coll", ev.a) {
			return
		}
		r.endVal(e, st, ev.in)
		st.mon.add("open", ev.a)
		st.mon.set("val", e.ts.mk(OpApp, "val", nil, ev.b, ev.c))
	case EvIterEnd:
		if !st.mon.has("coll", ev.a) {
			return
		}
		r.endVal(e, st, ev.in)
		st.mon.del("open", ev.a)
		st.mon.del("coll", ev.a)
	case EvAppend:
		var entries []*Term
		from := false
		if ev.b.op == OpSlice {
			for _, x := range ev.b.args {
				if isEntry(x) {
					entries = append(entries, x)
				}
			}
		} else if st.mon.has("lists", ev.b) {
			from = true
			st.mon.del("lists", ev.b)
		}
		if len(entries) == 0 && !from && !st.mon.has("lists", ev.a) {
			return
		}
		st.mon.del("lists", ev.a)
		st.mon.add("lists", ev.c)
		for _, x := range entries {
			if v := st.mon.get("val"); v != nil && (v.args[1] == x || e.sameValue(st, v.args[1], x) == Yes || x.op == OpSym && x.symKind() == "mapval" && len(x.args) == 2 && x.args[1] == v.args[0]) {
				delete(st.mon, "val")
			}
			if st.mon.flag("elem") {
				st.mon.set("ok", e.ts.True)
			}
			st.mon.set("entry", e.ts.True)
		}
	}
	if !rootReturn(st, ev) {
		return
	}
	er := errOf(r.fn, ev.a)
	if er == nil || e.nilness(st, er) == No {
		return
	}
	if st.mon.flag("elem") {
		r.rep.check(r.elemDone(e, st), ruleAllLines, "at the end", r.fn.Pos(), st, "ends although the line read last may have no entry")
	}
	r.endPara(e, st, nil)
	res := comps(ev.a)[0]
	for _, l := range st.mon["lists"] {
		r.rep.check(l == res, ruleAllVals, "result", r.fn.Pos(), st, "returns another list than the one with the entries")
	}
}

func (r *completeRule) endVal(e *Engine, st *State, in ssa.Instruction) {
	v := st.mon.get("val")
	if v == nil {
		return
	}
	r.rep.check(r.ownName(e, st, v.args[0]), ruleAllVals, "entries by name", in.Pos(), st, "an entry is not added to the result")
	delete(st.mon, "val")
}

func init() {
	register("A06", "traversal-obligation typestate dataflow over the SSA form of the index readers",
		"Covers every path of ExtractFileInfo for every kind of index with arbitrary paragraphs; loops are summarised with widened counters. Parser.Read is decided by A07."+trust,
		"On every successful path of ExtractFileInfo, for each kind of index: the lines of every checksum field are visited from the first to the last without gaps, every line has put an entry in the collection, every paragraph read has led to entries, every member of the collection is appended to the list, the list returned carries all appends, and only Release, Release.gpg and InRelease in the own directory of a Release file are left out.", func(p *Program, rep *Report) {
			if !checkFileInfo(p, rep) {
				return
			}
			for _, k := range indexKinds {
				for _, b := range k.bases {
					for _, dir := range []string{"dists/stable/"} {
						r := &completeRule{rep: rep, kind: k, fn: p.fn("apt", "ExtractFileInfo"), dir: dir}
						fn := need(p, rep, "apt", "ExtractFileInfo")
						if fn == nil {
							return
						}
						e := aptEngine(p, rep, r)
						e.coarseExtra = r.category
						e.runRoot(fn, func(st *State, args []*Term) { args[0] = e.ts.Str(dir + b) })
					}
				}
			}
			rep.floor(ruleAllLines, 6)
			rep.floor(ruleAllLists, 6)
			rep.floor(ruleAllVals, 2)
			rep.floor(ruleParas, 1)
			rep.floor(ruleNoDeletes, 1)
		})
}
