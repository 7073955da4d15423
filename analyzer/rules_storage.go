package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- roles of the fields of the cache storage

// storageRoles names the fields of the storage and its entries by what they
// are for.
type storageRoles struct {
	dir, capacity, mu, used, cache, lru, clock string
	info, atime, index                         string
	methods                                    []*ssa.Function // operations, without those for container/heap
	heapIf                                     map[string]*ssa.Function
	ctor                                       map[*ssa.Function]bool
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

func ptrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == name
}

func findStorage(p *Program, rep *Report) *storageRoles {
	t := p.typ("cacher", "Storage")
	if t == nil {
		rep.missing("cacher.Storage")
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		rep.missing("cacher.Storage as a struct")
		return nil
	}
	r := &storageRoles{heapIf: map[string]*ssa.Function{}, ctor: map[*ssa.Function]bool{}}
	var ints []string
	var ent types.Type
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		k := fieldKey(t, i)
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			r.cache = k
			ent = u.Elem()
		case *types.Slice:
			r.lru = k
		case *types.Basic:
			if u.Kind() == types.String {
				r.dir = k
			}
			if isUint64(f.Type()) {
				ints = append(ints, k)
			}
		case *types.Struct:
			if n := typeName(f.Type()); n == "sync.Mutex" || n == "sync.RWMutex" {
				r.mu = k
			}
		}
	}
	// the total is what is compared with the capacity, which never changes
	loadOf := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fieldKey(fa.X.Type(), fa.Field)
			}
		}
		return ""
	}
	has := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				x, y := loadOf(bo.X), loadOf(bo.Y)
				if x == y || !has(ints, x) || !has(ints, y) {
					continue
				}
				if p.mutField[x] && !p.mutField[y] {
					r.used, r.capacity = x, y
				}
				if p.mutField[y] && !p.mutField[x] {
					r.used, r.capacity = y, x
				}
			}
		}
	}
	for _, k := range ints {
		if k != r.used && k != r.capacity {
			if r.clock != "" {
				r.clock = ""
				break
			}
			r.clock = k
		}
	}
	if ent != nil {
		if pt, ok := ent.Underlying().(*types.Pointer); ok {
			if es, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < es.NumFields(); i++ {
					f := es.Field(i)
					switch {
					case ptrTo(f.Type(), "apt.FileInfo"):
						r.info = fieldKey(pt.Elem(), i)
					case isUint64(f.Type()):
						r.atime = fieldKey(pt.Elem(), i)
					default:
						if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
							r.index = fieldKey(pt.Elem(), i)
						}
					}
				}
			}
		}
	}
	for what, k := range map[string]string{"directory": r.dir, "capacity": r.capacity, "lock": r.mu, "total size": r.used, "item index": r.cache, "eviction queue": r.lru,
		"use clock": r.clock, "file information of an item": r.info, "last use of an item": r.atime, "queue position of an item": r.index} {
		if k == "" {
			rep.missing("the " + what + " of cacher.Storage")
			return nil
		}
	}
	hn := map[string]bool{"Len": true, "Less": true, "Swap": true, "Push": true, "Pop": true}
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Parent() != nil || f.Synthetic != "" || f.Pkg.Pkg.Path() != modulePath+"/cacher" {
			continue
		}
		rc := f.Signature.Recv()
		if rc != nil && ptrTo(rc.Type(), "cacher.Storage") {
			if hn[f.Name()] {
				r.heapIf[f.Name()] = f
			} else if token.IsExported(f.Name()) {
				r.methods = append(r.methods, f)
			}
			continue
		}
		if rc == nil && f.Signature.Results().Len() >= 1 && ptrTo(f.Signature.Results().At(0).Type(), "cacher.Storage") {
			r.ctor[f] = true
		}
	}
	sort.Slice(r.methods, func(i, j int) bool { return r.methods[i].String() < r.methods[j].String() })
	return r
}

const (
	fnPath   = "(*" + modulePath + "/apt.FileInfo).Path"
	fnSize   = "(*" + modulePath + "/apt.FileInfo).Size"
	fnNoSum  = modulePath + "/apt.MakeFileInfoNoChecksum"
	fnSame   = "(*" + modulePath + "/apt.FileInfo).Same"
	fnHasSum = "(*" + modulePath + "/apt.FileInfo).HasChecksum"
	fnCalc   = "(*" + modulePath + "/apt.FileInfo).CalcChecksums"
)

// base has what the storage rules share.
type storageBase struct {
	NopRule
	rep *Report
	ro  *storageRoles
}

func (r *storageBase) Call(e *Engine, st *State, c *Call) Action { return summarise(c) }

// pathsOf are the terms for the path of file information.
func pathsOf(e *Engine, fi *Term) []*Term {
	l := []*Term{e.ts.mk(OpApp, fnPath, types.Typ[types.String], fi)}
	if fi.isCall(fnNoSum) && len(fi.args) == 2 {
		l = append(l, fi.args[0])
	}
	return l
}

func sizesOf(e *Engine, fi *Term) []*Term {
	l := []*Term{e.ts.mk(OpApp, fnSize, types.Typ[types.Uint64], fi)}
	if fi.isCall(fnNoSum) && len(fi.args) == 2 {
		l = append(l, fi.args[1])
	}
	return l
}

// infoOf is the file information of an entry.
func (r *storageBase) infoOf(e *Engine, st *State, ent *Term) *Term {
	return e.cell(st, ent, r.ro.info)
}

// keysOf are the terms for the path of an entry.
func (r *storageBase) keysOf(e *Engine, st *State, ent *Term) []*Term {
	var l []*Term
	if fi := r.infoOf(e, st, ent); fi != nil {
		l = pathsOf(e, fi)
	}
	if ent.op == OpSym && ent.symKind() == "mapval" && len(ent.args) == 2 && fieldOf(ent.args[0]) == r.ro.cache {
		l = append(l, ent.args[1])
	}
	return l
}

func among(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// fileOf says whether f is the path of the cache file with the given path.
func (r *storageBase) fileOf(f *Term, keys []*Term) (suffix string, ok bool) {
	l := components(f)
	if len(l) != 2 || !(l[0].op == OpLoad && len(l[0].args) == 1 && l[0].args[0].op == OpField && l[0].args[0].name == r.ro.dir) {
		return "", false
	}
	var cs []*Term
	if l[1].isApp("concat*") {
		for _, x := range l[1].args {
			cs = append(cs, flattenConcat(x)...)
		}
	} else {
		cs = flattenConcat(l[1])
	}
	if len(cs) != 2 || !among(keys, cs[0]) {
		return "", false
	}
	s, ok := cs[1].str()
	return s, ok && s != ""
}

// field says whether a is a field of the storage or an entry.
func fieldIs(a *Term, name string) bool { return a.op == OpField && a.name == name }

// writers checks that no other function changes the fields.
func (r *storageBase) writers(p *Program, fields map[string]bool, seen map[*ssa.Function]bool, rule string) {
	for _, f := range p.funcs {
		if seen[f] || r.ro.ctor[f] || f.Blocks == nil {
			continue
		}
		isHeap := false
		for _, h := range r.ro.heapIf {
			if h == f {
				isHeap = true
			}
		}
		if isHeap || f.Parent() != nil && seen[f.Parent()] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k := ""
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						k = fieldKey(fa.X.Type(), fa.Field)
					}
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							k = fieldKey(fa.X.Type(), fa.Field)
						}
					}
				}
				if fields[k] {
					r.rep.violate(rule, fnLabel(f)+" changes "+k, in.Pos(), "changes the state of a storage outside of its operations", nil)
				}
			}
		}
	}
}

func storageEngine(p *Program, rep *Report, ro *storageRoles, rule Rule) *Engine {
	e := newEngine(p, rep, rule)
	e.joinAt = 100
	mut := map[string]bool{ro.used: true, ro.clock: true, ro.atime: true, ro.index: true, ro.lru: true}
	e.keepCell = func(a *Term) bool { return a.op == OpField && mut[a.name] }
	e.keepFact = func(t *Term) bool {
		return t.any(func(x *Term) bool { return x.op == OpField && x.name == ro.capacity })
	}
	return e
}

// heapOp is the operation on the queue and the storage it is called for.
func heapOp(c *Call) string {
	if strings.HasPrefix(c.name, "container/heap.") && len(c.args) > 0 {
		return strings.TrimPrefix(c.name, "container/heap.")
	}
	return ""
}

// ---- K05

// accountRule keeps what each critical section changes as tokens until the
// changes of an item are complete.
type accountRule struct {
	storageBase
	suffix map[string]bool
}

const (
	ruleBooks  = "the total, the index, the queue and the file of an item change together"
	ruleLimit  = "the total is within the capacity afterwards"
	ruleAbsent = "an item is only added when there is none of its path"
	ruleNeeded = "items are evicted only over the capacity"
)

func (r *accountRule) tok(e *Engine, st *State, what string, args ...*Term) {
	st.mon.add("d", e.ts.mk(OpApp, what, nil, args...))
}

func (r *accountRule) take(st *State, f func(t *Term) bool) *Term {
	for _, t := range st.mon["d"] {
		if f(t) {
			return t
		}
	}
	return nil
}

func (r *accountRule) After(e *Engine, st *State, c *Call, res *Term) {
	switch heapOp(c) {
	case "Push":
		if len(c.args) == 2 {
			r.tok(e, st, "+heap", stripConv(c.args[1]))
		}
	case "Pop":
		r.tok(e, st, "-heap", entryOf(e, res))
		over := r.over(e, st)
		r.rep.check(over == Yes, ruleNeeded, e.inFn(st), c.pos(), st, "evicts an item although the total may be within the capacity, or the capacity zero")
	case "Remove":
		x := stripConv(c.args[1])
		ent := r.owner(x)
		if n, isN := x.int(); isN && n == 0 || ent != nil && r.isFirst(ent) {
			r.rep.check(r.over(e, st) == Yes, ruleNeeded, e.inFn(st), c.pos(), st, "evicts an item although the total may be within the capacity, or the capacity zero")
			if isN {
				r.tok(e, st, "-heap", entryOf(e, res))
				r.settle(e, st)
				return
			}
		}
		if ent == nil || e.cellBefore(st, c, ent, r.ro.index) != x {
			r.rep.violate(ruleBooks, e.inFn(st)+" removes from the queue", c.pos(), "removes something from the queue that is not known to be at this position", st.trace)
			return
		}
		r.tok(e, st, "-heap", ent)
		r.settle(e, st)
	case "Fix":
	}
	switch c.name {
	case "os.Link", "os.Rename":
		if e.nilness(st, res) == Yes {
			r.tok(e, st, "+file", c.args[1])
		}
	case "os.Remove", "os.RemoveAll":
		switch e.nilness(st, res) {
		case Yes:
			r.tok(e, st, "-file", c.args[0])
		default:
			r.tok(e, st, "-file?", c.args[0])
		}
	}
	r.settle(e, st)
}

// isFirst says whether an entry was loaded from the front of the queue.
func (r *storageBase) isFirst(ent *Term) bool {
	if l, i := lineOf(ent); l != nil && fieldOf(l) == r.ro.lru {
		n, ok := i.int()
		return ok && n == 0
	}
	return false
}

// owner is the entry whose queue position t was loaded from.
func (r *storageBase) owner(t *Term) *Term {
	if (t.op == OpSym && t.symKind() == "load" || t.op == OpLoad) && len(t.args) == 1 && fieldIs(t.args[0], r.ro.index) {
		return t.args[0].args[0]
	}
	return nil
}

// cellBefore is the value of a cell when the call was made; the call itself
// may have changed it.
func (e *Engine) cellBefore(st *State, c *Call, obj *Term, field string) *Term {
	if t := st.mon.get("pre:" + field); t != nil && t.args[0] == obj {
		return t.args[1]
	}
	return nil
}

// entryOf is the entry that an interface value returned by the queue holds.
func entryOf(e *Engine, t *Term) *Term { return stripConv(t) }

func (r *accountRule) Call(e *Engine, st *State, c *Call) Action {
	noteIndex(e, st, c, r.ro)
	return r.storageBase.Call(e, st, c)
}

// noteIndex remembers the queue position of an entry before a queue operation
// that takes a position.
func noteIndex(e *Engine, st *State, c *Call, ro *storageRoles) {
	delete(st.mon, "pre:"+ro.index)
	if op := heapOp(c); (op == "Remove" || op == "Fix") && len(c.args) == 2 {
		b := storageBase{ro: ro}
		if ent := b.owner(stripConv(c.args[1])); ent != nil {
			if v := e.cell(st, ent, ro.index); v != nil {
				st.mon.set("pre:"+ro.index, e.ts.mk(OpApp, "pre", nil, ent, v))
			}
		}
	}
}

// over says whether the total is known to be over a capacity other than zero.
func (r *accountRule) over(e *Engine, st *State) Tri {
	recv := e.ts.mk(OpParam, "recv", nil)
	capa := e.ts.mk(OpLoad, "", types.Typ[types.Uint64], e.ts.mk(OpField, r.ro.capacity, nil, recv))
	used := e.cell(st, recv, r.ro.used)
	zero := e.truth(st, e.eq(capa, e.ts.Int(0)))
	if lo, hi, hl, hh := e.bounds(st, capa); zero == Unknown {
		if hl && lo > 0 {
			zero = No
		}
		if hh && hi <= 0 {
			zero = Yes
		}
	}
	if zero == Unknown {
		if t := e.truth(st, e.lt(e.ts.Int(0), capa)); t != Unknown {
			zero = t.not()
		}
	}
	if zero == Yes {
		return No
	}
	if used == nil {
		return Unknown
	}
	ov := e.truth(st, e.lt(capa, used))
	switch {
	case ov == No:
		return No
	case ov == Yes && zero == No:
		return Yes
	}
	return Unknown
}

func (r *accountRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvStore:
		if ev.a.op != OpField || root(ev.a).op == OpAlloc && ev.a.name != r.ro.used {
			return
		}
		switch ev.a.name {
		case r.ro.used:
			if root(ev.a).op == OpAlloc {
				return
			}
			cur := st.mem[ev.a]
			var x *Term
			what := ""
			if v := ev.b; cur != nil && v.op == OpApp && len(v.args) == 2 {
				switch {
				case v.name == "+" && v.args[0] == cur:
					x, what = v.args[1], "+used"
				case v.name == "+" && v.args[1] == cur:
					x, what = v.args[0], "+used"
				case v.name == "-" && v.args[0] == cur:
					x, what = v.args[1], "-used"
				}
			}
			if x == nil {
				r.rep.violate(ruleBooks, e.inFn(st)+" sets the total", ev.in.Pos(), "sets the total to something else than what it was plus or minus the size of an item", st.trace)
				return
			}
			r.tok(e, st, what, x)
			r.settle(e, st)
		case r.ro.cache:
			r.rep.violate(ruleBooks, e.inFn(st)+" replaces the index", ev.in.Pos(), "replaces the whole index of items", st.trace)
		case r.ro.lru:
			// an append was noted before
			if ap := st.mon.get("append"); ap != nil && ap.args[0] == ev.b && ap.args[1] == st.mem[ev.a] {
				r.tok(e, st, "+heap", ap.args[2])
				delete(st.mon, "append")
				r.settle(e, st)
				return
			}
			r.rep.violate(ruleBooks, e.inFn(st)+" replaces the queue", ev.in.Pos(), "changes the queue in another way than adding one item", st.trace)
		}
	case EvAppend:
		if ev.b.op == OpSlice && len(ev.b.args) == 1 {
			st.mon.set("append", e.ts.mk(OpApp, "append", nil, ev.c, ev.a, ev.b.args[0]))
		}
	case EvMapLookup:
		if fieldOf(ev.a) == r.ro.cache {
			if i := st.findMap(ev.a, ev.b); i >= 0 && st.maps[i].ok == No {
				st.mon.add("absent", ev.b)
			}
		}
	case EvMapUpdate:
		if fieldOf(ev.a) != r.ro.cache {
			return
		}
		gone := st.mon.has("absent", ev.b)
		for _, t := range st.mon["d"] {
			if t.name == "-cache" && t.args[0] == ev.b {
				gone = true
			}
		}
		r.rep.check(gone, ruleAbsent, e.inFn(st), ev.in.Pos(), st, "replaces an item of the same path without removing it first")
		st.mon.del("absent", ev.b)
		r.tok(e, st, "+cache", ev.b, ev.c)
		r.settle(e, st)
	case EvMapDelete:
		if fieldOf(ev.a) != r.ro.cache {
			return
		}
		r.tok(e, st, "-cache", ev.b)
		r.settle(e, st)
	case EvForget:
		for _, t := range append([]*Term(nil), st.mon["d"]...) {
			if t.contains(ev.a) {
				st.mon.del("d", t)
				r.leftover(e, st, t)
			}
		}
		for _, t := range append([]*Term(nil), st.mon["absent"]...) {
			if t.contains(ev.a) {
				st.mon.del("absent", t)
			}
		}
	case EvUnlock:
		if fieldIs(ev.a, r.ro.mu) {
			r.end(e, st)
		}
	case EvReturn:
		if rootReturn(st, ev) {
			r.end(e, st)
			if er := errOf(ev.fn, ev.a); er == nil || e.nilness(st, er) != No {
				r.rep.check(!st.mon.flag("overfull"), ruleLimit, e.curRoot, token.NoPos, st, "the total may be over the capacity after loading")
			}
		}
	}
}

func (r *accountRule) end(e *Engine, st *State) {
	r.settle(e, st)
	for _, t := range st.mon["d"] {
		r.leftover(e, st, t)
	}
	if st.mon.flag("grown") {
		r.rep.check(r.over(e, st) == No, ruleLimit, e.curRoot, token.NoPos, st, "the total may be over the capacity when the operation ends")
	}
	if st.mon.flag("loaded") && r.over(e, st) != No {
		st.mon.set("overfull", e.ts.True)
	}
	for _, k := range []string{"d", "absent", "grown", "loaded"} {
		delete(st.mon, k)
	}
}

func (r *accountRule) leftover(e *Engine, st *State, t *Term) {
	msg := ""
	switch t.name {
	case "-file?":
		return
	case "-file", "+file":
		if l := components(t.args[0]); len(l) == 0 || !l[0].any(func(x *Term) bool { return x.op == OpField && x.name == r.ro.dir }) {
			return
		}
		msg = "a cache file changes but the books do not"
	case "+used", "-used":
		msg = "the total changes by " + t.args[0].show(3) + " without an item of that size being added or removed"
	case "+cache", "-cache":
		msg = "the index changes but not the rest of the books"
	case "+heap", "-heap":
		msg = "the queue changes but not the rest of the books"
	}
	r.rep.violate(ruleBooks, e.curRoot+" "+t.name, token.NoPos, msg, st.trace)
}

// settle removes the tokens of items whose changes are complete.
func (r *accountRule) settle(e *Engine, st *State) {
	for again := true; again; {
		again = false
		for _, h := range st.mon["d"] {
			if h.name != "+heap" && h.name != "-heap" {
				continue
			}
			ent := h.args[0]
			fi := r.infoOf(e, st, ent)
			if fi == nil {
				continue
			}
			keys, sizes := r.keysOf(e, st, ent), sizesOf(e, fi)
			sign := h.name[:1]
			used := r.take(st, func(t *Term) bool { return t.name == sign+"used" && among(sizes, t.args[0]) })
			cache := r.take(st, func(t *Term) bool {
				if t.name != sign+"cache" {
					return false
				}
				return sign == "+" && t.args[1] == ent && among(keys, t.args[0]) || sign == "-" && among(keys, t.args[0])
			})
			suf := ""
			file := r.take(st, func(t *Term) bool {
				if t.name == sign+"file" || sign == "-" && t.name == "-file?" {
					s, ok := r.fileOf(t.args[0], keys)
					suf = s
					return ok
				}
				return false
			})
			if file == nil && sign == "+" {
				// found in the directory
				for _, k := range keys {
					if k.any(func(x *Term) bool { return x.op == OpSym && x.symKind() == "walkpath" }) {
						file = h
					}
				}
			}
			if used == nil || cache == nil || file == nil {
				continue
			}
			for _, t := range []*Term{h, used, cache, file} {
				st.mon.del("d", t)
			}
			if sign == "+" && file == h {
				st.mon.set("loaded", e.ts.True)
			} else if sign == "+" {
				st.mon.set("grown", e.ts.True)
			} else {
				for _, k := range keys {
					st.mon.add("absent", k)
				}
			}
			if suf != "" {
				r.suffix[suf] = true
			}
			r.rep.oblige(ruleBooks, e.curRoot+" "+map[string]string{"+": "adds", "-": "removes"}[sign], token.NoPos)
			again = true
			break
		}
	}
}

func init() {
	register("K05", "token-balance typestate dataflow over the SSA form of the storage operations",
		"Covers every path of every operation of the storage; container/heap calls are taken to add or remove exactly the item (its interface methods are decided in K06), and a failure to remove a file of an evicted item is tolerated. 64-bit sizes are taken not to overflow."+trust,
		"In every critical section of the storage, every addition to the queue is matched by an index entry under the item's own path, an increase of the total by its own size and its file, every removal by the opposite four, an item is added only where its path is known to be absent, the total changes in no other way, no other function changes these fields, and whenever items were added the section ends only where the total is known not to exceed the capacity or the capacity is zero; eviction happens only where the total is known to exceed a non-zero capacity.", func(p *Program, rep *Report) {
			ro := findStorage(p, rep)
			if ro == nil {
				return
			}
			r := &accountRule{storageBase: storageBase{rep: rep, ro: ro}, suffix: map[string]bool{}}
			seen := map[*ssa.Function]bool{}
			for _, f := range ro.methods {
				e := storageEngine(p, rep, ro, r)
				e.runRoot(f, nil)
				for g := range e.fnsSeen {
					seen[g] = true
				}
			}
			r.writers(p, map[string]bool{ro.used: true, ro.cache: true, ro.lru: true}, seen, ruleBooks)
			rep.check(len(r.suffix) == 1, ruleBooks, "one suffix of cache files", token.NoPos, nil, "cache files do not all have the same suffix: %v", fmt.Sprint(r.suffix))
			rep.floor(ruleBooks, 5)
			rep.floor(ruleLimit, 2)
			rep.floor(ruleAbsent, 2)
			rep.floor(ruleNeeded, 1)
		})
}

// ---- K06

type lruRule struct {
	storageBase
	pre, post map[string]token.Pos // how operations order taking a stamp and advancing the clock
}

const (
	ruleStamp  = "insertions and successful lookups make the item the most recently used"
	ruleClock  = "no two items get the same time of use"
	ruleFix    = "the queue is rearranged after a change"
	ruleOldest = "only the item used the longest ago is evicted"
	ruleSlots  = "items know their positions in the queue"
)

func (r *lruRule) Call(e *Engine, st *State, c *Call) Action {
	noteIndex(e, st, c, r.ro)
	return r.storageBase.Call(e, st, c)
}

func (r *lruRule) After(e *Engine, st *State, c *Call, res *Term) {
	switch op := heapOp(c); op {
	case "Push":
		ent := stripConv(c.args[1])
		r.rep.check(st.mon.has("stamped", ent), ruleStamp, e.inFn(st)+" adds an item", c.pos(), st, "an item is added that did not get the current time of use")
	case "Remove", "Fix":
		x := stripConv(c.args[1])
		ent := r.owner(x)
		ok := ent != nil && e.cellBefore(st, c, ent, r.ro.index) == x
		if n, isN := x.int(); isN && n == 0 && op == "Remove" {
			r.rep.check(!st.mon.flag("fix") && !st.mon.flag("init"), ruleOldest, e.inFn(st)+" evicts an item", c.pos(), st, "evicts from a queue that has not been rearranged after a change")
			return
		}
		r.rep.check(ok, ruleSlots, e.inFn(st)+" calls heap."+op, c.pos(), st, "passes a position that is not known to be the one the item has now")
		if ent == nil {
			return
		}
		if op == "Fix" {
			st.mon.del("fix", ent)
		} else {
			// items are removed by path or by eviction only
			known := ent.op == OpSym && ent.symKind() == "mapval" && fieldOf(ent.args[0]) == r.ro.cache
			if r.isFirst(ent) {
				known = !st.mon.flag("fix") && !st.mon.flag("init")
			}
			r.rep.check(known, ruleOldest, e.inFn(st)+" removes an item", c.pos(), st, "removes an item that was neither looked up by its path nor is the one used the longest ago")
			st.mon.del("fix", ent)
		}
	case "Pop":
		r.rep.check(!st.mon.flag("fix") && !st.mon.flag("init"), ruleOldest, e.inFn(st)+" evicts an item", c.pos(), st, "evicts from a queue that has not been rearranged after a change")
	case "Init":
		delete(st.mon, "fix")
		delete(st.mon, "init")
	case "":
	}
	if c.name == "path/filepath.Walk" && e.nilness(st, res) != Yes {
		st.mon.set("walkfailed", e.ts.True)
	}
	if c.name == "os.Open" && e.nilness(st, comps(res)[1]) == Yes {
		st.mon.set("opened", comps(res)[0])
	}
}

func (r *lruRule) stamp(e *Engine, st *State, ent, v *Term, pos token.Pos) {
	recv := e.ts.mk(OpParam, "recv", nil)
	cur := e.cell(st, recv, r.ro.clock)
	where := e.inFn(st) + " sets the time of use"
	if prev := st.mon.get("prev"); prev != nil && v == prev && st.mon.flag("bumped") {
		// the clock was advanced after it was read
		delete(st.mon, "bumped")
		delete(st.mon, "prev")
		st.mon.add("stamped", ent)
		r.post[e.curRoot] = pos
		r.rep.oblige(ruleStamp, where, pos)
		r.rep.oblige(ruleClock, where, pos)
		return
	}
	if !r.rep.check(cur != nil && v == cur, ruleStamp, where, pos, st, "the time of use is not set to the current clock") {
		return
	}
	st.mon.add("stamped", ent)
	if st.mon.flag("bumped") {
		// the clock was advanced before
		delete(st.mon, "bumped")
		r.pre[e.curRoot] = pos
		r.rep.oblige(ruleClock, where, pos)
		return
	}
	r.rep.check(!st.mon.flag("due"), ruleClock, where, pos, st, "two items get the same time of use")
	st.mon.set("due", e.ts.True)
}

func (r *lruRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvStore:
		if ev.a.op != OpField {
			return
		}
		switch ev.a.name {
		case r.ro.atime:
			ent := ev.a.args[0]
			r.stamp(e, st, ent, ev.b, ev.in.Pos())
			if ent.op != OpAlloc {
				st.mon.add("fix", ent)
			}
		case r.ro.clock:
			if root(ev.a).op == OpAlloc {
				return
			}
			cur := st.mem[ev.a]
			ok := cur != nil && ev.b == plus(e, cur, 1)
			if !ok && cur != nil && ev.b.isApp("+") && ev.b.args[0] == cur {
				n, isN := ev.b.args[1].int()
				ok = isN && n > 0
			}
			r.rep.check(ok, ruleClock, e.inFn(st)+" sets the clock", ev.in.Pos(), st, "the clock is set to something else than what it was plus one")
			if st.mon.flag("due") {
				delete(st.mon, "due")
				r.post[e.curRoot] = ev.in.Pos()
			} else {
				st.mon.set("bumped", e.ts.True)
				st.mon.set("prev", cur)
			}
		case r.ro.index:
			if ent := ev.a.args[0]; ent.op == OpAlloc {
				st.mon.set("slot", e.ts.mk(OpApp, "slot", nil, ent, ev.b))
				return
			}
			r.rep.violate(ruleSlots, e.inFn(st)+" sets a position", ev.in.Pos(), "changes the position of an item outside of the queue operations", st.trace)
		case r.ro.lru:
			if root(ev.a).op == OpAlloc {
				return
			}
			cur := st.mem[ev.a]
			ap, sl := st.mon.get("append"), st.mon.get("slot")
			ok := ap != nil && ap.args[0] == ev.b && ap.args[1] == cur
			if r.rep.check(ok, ruleSlots, e.inFn(st)+" changes the queue", ev.in.Pos(), st, "changes the queue in another way than adding one item at its end") {
				ent := ap.args[2]
				n := e.length(st, cur, cur.typ)
				idx := e.cell(st, ent, r.ro.index)
				r.rep.check(sl != nil && sl.args[0] == ent && (sl.args[1] == n || idx == n), ruleSlots, e.inFn(st)+" adds an item at the end", ev.in.Pos(), st, "the position of the item is not the end of the queue")
				r.rep.check(st.mon.has("stamped", ent), ruleStamp, e.inFn(st)+" adds an item", ev.in.Pos(), st, "an item is added that did not get the current time of use")
				st.mon.set("init", e.ts.True)
			}
			delete(st.mon, "append")
			delete(st.mon, "slot")
		}
		if ev.a.op == OpIndex {
			r.element(e, st, ev)
		}
	case EvAppend:
		if ev.b.op == OpSlice && len(ev.b.args) == 1 {
			st.mon.set("append", e.ts.mk(OpApp, "append", nil, ev.c, ev.a, ev.b.args[0]))
		}
	case EvForget:
		for _, k := range []string{"stamped", "fix"} {
			for _, t := range append([]*Term(nil), st.mon[k]...) {
				if t.contains(ev.a) {
					st.mon.del(k, t)
					if k == "fix" {
						r.rep.violate(ruleFix, e.curRoot, token.NoPos, "the queue is not rearranged after the time of use of an item changed", st.trace)
					}
				}
			}
		}
	case EvUnlock:
		if fieldIs(ev.a, r.ro.mu) {
			r.end(e, st, ev)
		}
	}
	if rootReturn(st, ev) {
		r.end(e, st, ev)
		// what a lookup hands over was stamped
		if f := st.mon.get("opened"); f != nil && len(comps(ev.a)) > 0 && comps(ev.a)[0] == f {
			ok := false
			name := f.args[0]
			for _, ent := range st.mon["used"] {
				keys := r.keysOf(e, st, ent)
				if _, is := r.fileOf(name, keys); is {
					ok = true
				}
			}
			r.rep.check(ok, ruleStamp, e.curRoot+" hands over an item", token.NoPos, st, "hands over an item without giving it the current time of use")
		}
	}
}

// element checks stores to elements of the queue.
func (r *lruRule) element(e *Engine, st *State, ev *Event) {
	b := ev.a.args[0]
	if fieldOf(b) == r.ro.lru {
		r.rep.violate(ruleSlots, e.inFn(st)+" changes the queue", ev.in.Pos(), "moves an item in the queue outside of the queue operations", st.trace)
	}
}

func (r *lruRule) end(e *Engine, st *State, ev *Event) {
	r.rep.check(!st.mon.flag("due"), ruleClock, e.curRoot, token.NoPos, st, "the clock is not advanced after an item got its time of use")
	r.rep.check(!st.mon.flag("fix") && !st.mon.flag("init") || st.mon.flag("walkfailed"), ruleFix, e.curRoot, token.NoPos, st, "the queue is not rearranged after the time of use of an item changed")
	for _, ent := range st.mon["stamped"] {
		st.mon.add("used", ent)
	}
	for _, k := range []string{"due", "bumped", "prev", "fix", "init", "stamped"} {
		delete(st.mon, k)
	}
}

// ---- the interface for container/heap

type heapRule struct {
	storageBase
	what string
}

func (r *heapRule) queue(e *Engine, t *Term) bool {
	return t != nil && (t.op == OpSym && t.symKind() == "load" || t.op == OpLoad) && fieldIs(t.args[0], r.ro.lru)
}

// slotOf is the position that t was loaded from, and whether the load was
// made after both slots had been exchanged.
func (r *heapRule) slotOf(t *Term) *Term {
	if (t.op == OpSym && t.symKind() == "load" || t.op == OpLoad) && t.args[0].op == OpIndex {
		return t.args[0].args[1]
	}
	return nil
}

func (r *heapRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvStore:
		switch {
		case ev.a.op == OpIndex && r.queue(e, ev.a.args[0]):
			st.mon.push("slots", e.ts.mk(OpApp, "put", nil, ev.a.args[1], ev.b))
		case fieldIs(ev.a, r.ro.index):
			st.mon.push("slots", e.ts.mk(OpApp, "pos", nil, ev.a.args[0], ev.b))
		case fieldIs(ev.a, r.ro.lru):
			st.mon.push("slots", e.ts.mk(OpApp, "queue", nil, ev.b, st.mem[ev.a]))
		case ev.a.op == OpField && (ev.a.name == r.ro.atime || ev.a.name == r.ro.used || ev.a.name == r.ro.clock || ev.a.name == r.ro.info):
			r.rep.violate(ruleSlots, r.what+" changes "+ev.a.name, ev.in.Pos(), "a queue operation changes more than the queue", st.trace)
		}
	case EvLoad:
		if ev.a.op == OpIndex {
			// remember how many slots had been written at the load
			n := 0
			for _, t := range st.mon["slots"] {
				if t.name == "put" {
					n++
				}
			}
			t := e.ts.mk(OpApp, "at", nil, ev.b, e.ts.Int(int64(n)))
			if !st.mon.has("loads", t) {
				first := true
				for _, x := range st.mon["loads"] {
					if x.args[0] == ev.b {
						first = false
					}
				}
				if first {
					st.mon.add("loads", t)
				}
			}
		}
	case EvAppend:
		if ev.b.op == OpSlice && len(ev.b.args) == 1 {
			st.mon.set("append", e.ts.mk(OpApp, "append", nil, ev.c, ev.a, ev.b.args[0]))
		}
	}
	if !rootReturn(st, ev) {
		return
	}
	fn := ev.fn
	pos := fn.Pos()
	recv := e.ts.mk(OpParam, "recv", nil)
	par := func(i int) *Term {
		return e.ts.mk(OpParam, fn.Params[i].Name(), fn.Params[i].Type())
	}
	slots := st.mon["slots"]
	switch r.what {
	case "Len":
		t := comps(ev.a)[0]
		r.rep.check(t.isApp("len") && r.queue(e, t.args[0]) && len(slots) == 0, ruleSlots, "Len", pos, st, "Len is not the length of the queue")
	case "Less":
		cond := comps(ev.a)[0]
		neg := false
		if cond.isApp("!") {
			cond, neg = cond.args[0], true
		}
		at := func(t *Term) *Term {
			if (t.op == OpSym && t.symKind() == "load" || t.op == OpLoad) && fieldIs(t.args[0], r.ro.atime) {
				return r.slotOf(t.args[0].args[0])
			}
			return nil
		}
		ok := false
		if cond.isApp("<") {
			x, y := at(cond.args[0]), at(cond.args[1])
			if neg {
				x, y = y, x
			}
			ok = x == par(1) && y == par(2)
		}
		r.rep.check(ok && len(slots) == 0, ruleOldest, "Less", pos, st, "Less does not order items by their time of use, the oldest first")
	case "Swap":
		i, j := par(1), par(2)
		put := map[*Term]*Term{}
		nput := 0
		loadedAt := func(t *Term) int64 {
			for _, x := range st.mon["loads"] {
				if x.args[0] == t {
					n, _ := x.args[1].int()
					return n
				}
			}
			return 0
		}
		ok := true
		posOf := map[*Term]bool{}
		for _, s := range slots {
			switch s.name {
			case "put":
				put[s.args[0]] = s.args[1]
				nput++
				ok = ok && loadedAt(s.args[1]) == 0
			case "pos":
				ent, n := s.args[0], s.args[1]
				from := r.slotOf(ent)
				at := loadedAt(ent)
				switch {
				case from == nil:
					ok = false
				case at >= 2 && from == n, at == 0 && (from == i && n == j || from == j && n == i):
					posOf[n] = true
				default:
					ok = false
				}
			default:
				ok = false
			}
		}
		ok = ok && nput == 2 && put[i] != nil && put[j] != nil && r.slotOf(put[i]) == j && r.slotOf(put[j]) == i && posOf[i] && posOf[j]
		r.rep.check(ok, ruleSlots, "Swap", pos, st, "Swap does not exchange two items and their positions")
	case "Push":
		if ev.panics {
			return
		}
		ap := st.mon.get("append")
		ok := ap != nil
		var put, idx bool
		x := par(1)
		for _, s := range slots {
			switch s.name {
			case "queue":
				put = ap != nil && s.args[0] == ap.args[0] && s.args[1] == ap.args[1] && r.queue(e, ap.args[1]) && stripConv(ap.args[2]).contains(x)
				ok = ok && put
			case "pos":
				n := s.args[1]
				idx = n.isApp("len") && r.queue(e, n.args[0]) && stripConv(s.args[0]).contains(x)
				if !idx && n.isApp("+") && len(n.args) == 2 {
					// len(queue) - 1 after the append
					if k, isK := n.args[1].int(); isK && k == -1 && ap != nil && n.args[0].isApp("len") && n.args[0].args[0] == ap.args[0] {
						idx = stripConv(s.args[0]).contains(x)
					}
				}
				ok = ok && idx
			default:
				ok = false
			}
		}
		r.rep.check(ok && put && idx, ruleSlots, "Push", pos, st, "Push does not add the item at the end of the queue with that position")
	case "Pop":
		res := stripConv(comps(ev.a)[0])
		from := r.slotOf(res)
		last := func(n *Term) bool {
			if !n.isApp("+") || len(n.args) != 2 {
				return false
			}
			k, isK := n.args[1].int()
			return isK && k == -1 && n.args[0].isApp("len") && r.queue(e, n.args[0].args[0])
		}
		ok := from != nil && last(from)
		cut := false
		for _, s := range slots {
			switch s.name {
			case "queue":
				q := s.args[0]
				cut = q.isApp("slice") && r.queue(e, q.args[0]) && last(q.args[2])
				if n, isN := q.args[1].int(); cut && (!isN || n != 0) {
					cut = false
				}
				ok = ok && cut
			case "pos":
				ok = ok && s.args[0] == res
			case "put":
				// clearing the last slot is fine
				ok = ok && last(s.args[0]) && s.args[1].op == OpNil
			}
		}
		r.rep.check(ok && cut, ruleSlots, "Pop", pos, st, "Pop does not remove and return the last item of the queue")
	}
	_ = recv
}

func init() {
	register("K06", "typestate dataflow over the SSA form of the storage operations and its heap interface",
		"Covers every path of every operation of the storage and of the five methods for container/heap; given these, container/heap keeps the item with the smallest time of use first. The 64-bit clock is taken not to overflow."+trust,
		"Every item added to the queue and every item whose file is handed over has got the current clock value, the clock is advanced between any two such stamps, heap.Fix, heap.Init or removal follows every change of a stamp of a queued item before the section ends, heap.Remove and heap.Fix are passed the position the item has at that moment, items leave the queue only through heap.Pop or when they were looked up by path, and Len, Less, Swap, Push and Pop implement a queue of items ordered by stamp that records positions.", func(p *Program, rep *Report) {
			ro := findStorage(p, rep)
			if ro == nil {
				return
			}
			r := &lruRule{storageBase: storageBase{rep: rep, ro: ro}, pre: map[string]token.Pos{}, post: map[string]token.Pos{}}
			seen := map[*ssa.Function]bool{}
			for _, f := range ro.methods {
				e := storageEngine(p, rep, ro, r)
				e.runRoot(f, nil)
				for g := range e.fnsSeen {
					seen[g] = true
				}
			}
			r.writers(p, map[string]bool{ro.clock: true, ro.atime: true, ro.index: true, ro.lru: true}, seen, ruleSlots)
			rep.check(len(r.pre) == 0 || len(r.post) == 0, ruleClock, "all operations", token.NoPos, nil, "some operations advance the clock before and some after taking the time of use: %v %v", len(r.pre), len(r.post))
			for _, n := range []string{"Len", "Less", "Swap", "Push", "Pop"} {
				f := ro.heapIf[n]
				if f == nil {
					rep.missing("cacher.Storage." + n)
					continue
				}
				h := &heapRule{storageBase: storageBase{rep: rep, ro: ro}, what: n}
				e := storageEngine(p, rep, ro, h)
				e.runRoot(f, nil)
			}
			rep.floor(ruleStamp, 4)
			rep.floor(ruleClock, 4)
			rep.floor(ruleFix, 3)
			rep.floor(ruleOldest, 3)
			rep.floor(ruleSlots, 6)
		})
}
