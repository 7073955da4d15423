package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---- K07

// access is one place where a shared field is accessed.
type access struct {
	where string
	pos   token.Pos
	write bool
	locks map[string]bool // lock class -> held exclusively
	tr    *Trace
}

type raceRule struct {
	NopRule
	rep     *Report
	owner   map[string]string // field -> struct with a lock, or ""
	locksOf map[string]bool   // lock fields
	acc     map[string]map[string]*access
	lits    map[string]bool // structs that hold locks
}

const ruleGuard = "every access is made with the lock of the state held"

// shared collects the structs that have a lock, and the structs whose
// instances they keep.
func (r *raceRule) shared(p *Program) {
	for _, path := range []string{"cacher", "mirror"} {
		pkg := p.typesPkg(path)
		if pkg == nil {
			r.rep.missing("package " + path)
			continue
		}
		for _, n := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			name := typeName(tn.Type())
			has := false
			for i := 0; i < s.NumFields(); i++ {
				if t := typeName(s.Field(i).Type()); t == "sync.Mutex" || t == "sync.RWMutex" {
					r.locksOf[fieldKey(tn.Type(), i)] = true
					has = true
				}
			}
			if !has {
				continue
			}
			r.lits[name] = true
			for i := 0; i < s.NumFields(); i++ {
				k := fieldKey(tn.Type(), i)
				if r.locksOf[k] {
					continue
				}
				r.owner[k] = name
				r.elems(s.Field(i).Type(), pkg)
			}
		}
	}
}

// elems adds the fields of the structs that a container of shared state
// keeps pointers to.
func (r *raceRule) elems(t types.Type, pkg *types.Package) {
	var el types.Type
	switch u := t.Underlying().(type) {
	case *types.Map:
		el = u.Elem()
	case *types.Slice:
		el = u.Elem()
	default:
		return
	}
	pt, ok := el.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() != pkg {
		return
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		k := fieldKey(n, i)
		if _, dup := r.owner[k]; !dup {
			r.owner[k] = ""
		}
	}
}

func (r *raceRule) access(e *Engine, st *State, field string, obj *Term, write bool, pos token.Pos) {
	own, ok := r.owner[field]
	if !ok {
		return
	}
	if rt := root(obj); rt.op == OpAlloc && !st.esc[rt] {
		return
	}
	locks := map[string]bool{}
	for _, h := range st.locks {
		cl := lockClass(h.lock)
		if !r.locksOf[cl] {
			continue
		}
		if own != "" && strings.HasPrefix(cl, own+".") && h.lock.op == OpField && h.lock.args[0] != obj {
			continue // the lock of another object
		}
		locks[cl] = h.write
	}
	var ls []string
	for l, w := range locks {
		ls = append(ls, fmt.Sprint(l, w))
	}
	sort.Strings(ls)
	where := e.inFn(st)
	if r.acc[field] == nil {
		r.acc[field] = map[string]*access{}
	}
	k := fmt.Sprint(where, write, ls)
	if r.acc[field][k] == nil {
		r.acc[field][k] = &access{where, pos, write, locks, st.trace}
	}
}

// contents is the field that a map or slice is kept in, and its object.
func contents(st *State, t *Term) (string, *Term) {
	for t != nil && t.isApp("slice") {
		t = t.args[0]
	}
	if t == nil {
		return "", nil
	}
	if (t.op == OpLoad || t.op == OpSym && t.symKind() == "load") && len(t.args) == 1 && t.args[0].op == OpField {
		return t.args[0].name, t.args[0].args[0]
	}
	if t.op == OpAlloc {
		var best *Term
		for a, v := range st.mem {
			if v == t && a.op == OpField && (best == nil || a.id < best.id) {
				best = a
			}
		}
		if best != nil {
			return best.name, best.args[0]
		}
	}
	return "", nil
}

func (r *raceRule) container(e *Engine, st *State, t *Term, write bool, pos token.Pos) {
	if f, obj := contents(st, t); f != "" {
		r.access(e, st, f, obj, write, pos)
	}
}

func (r *raceRule) Call(e *Engine, st *State, c *Call) Action {
	if op := heapOp(c); op != "" {
		// rearranges the queue through the interface methods
		obj := stripConv(c.args[0])
		for f, own := range r.owner {
			if own != "" && e.p.mutField[f] && strings.HasSuffix(typeName(obj.typ), own) || own == "" && e.p.mutField[f] && strings.HasPrefix(f, "cacher.") {
				if r.heapField(e, c, f) {
					r.access(e, st, f, obj, true, c.pos())
				}
			}
		}
	}
	act := summarise(c)
	if c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == modulePath+"/apt" && c.fn.Signature.Recv() != nil {
		// the checksums of a stored item may still have to be calculated
		switch c.fn.Name() {
		case "CalcChecksums", "HasChecksum", "Same":
			for _, a := range c.args {
				f, obj := contents(st, a)
				if own, ok := r.owner[f]; ok {
					k := f + " (checksums)"
					r.owner[k] = own
					r.access(e, st, k, obj, c.fn.Name() == "CalcChecksums", c.pos())
				}
			}
		}
	}
	if act == ActDefault && c.fn != nil && e.p.inRepo(c.fn) && len(c.fn.Blocks) > 0 || strings.HasPrefix(c.name, "(*sync.") || heapOp(c) != "" {
		return act
	}
	// what a library function gets the address of, it changes
	for _, a := range c.args {
		a = stripConv(a)
		if a.op == OpField {
			r.access(e, st, a.name, a.args[0], true, c.pos())
			continue
		}
		r.container(e, st, a, false, c.pos())
	}
	return act
}

// heapField says whether the interface methods of a queue access a field.
func (r *raceRule) heapField(e *Engine, c *Call, f string) bool {
	return e.p.ifaceFields(c)[f]
}

func (r *raceRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	switch ev.kind {
	case EvLoad, EvStore:
		if ev.a.op == OpField && (ev.kind == EvStore || e.p.mutField[ev.a.name]) {
			if ev.kind == EvStore && !e.p.mutField[ev.a.name] {
				return // construction
			}
			r.access(e, st, ev.a.name, ev.a.args[0], ev.kind == EvStore, pos)
		}
		if ev.a.op == OpIndex {
			r.container(e, st, ev.a.args[0], ev.kind == EvStore, pos)
		}
	case EvMapLookup, EvIter, EvMapLen:
		r.container(e, st, ev.a, false, pos)
	case EvMapUpdate, EvMapDelete:
		r.container(e, st, ev.a, true, pos)
	case EvAppend:
		r.container(e, st, ev.a, true, pos)
	}
}

func (r *raceRule) done() {
	var fields []string
	for f := range r.acc {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	for _, f := range fields {
		wr := false
		var l []*access
		var keys []string
		for k, a := range r.acc[f] {
			wr = wr || a.write
			keys = append(keys, k)
		}
		if !wr {
			continue
		}
		sort.Strings(keys)
		for _, k := range keys {
			l = append(l, r.acc[f][k])
		}
		// the lock held at most accesses
		best, n := "", -1
		var cands []string
		for lk := range r.locksOf {
			cands = append(cands, lk)
		}
		sort.Strings(cands)
		for _, lk := range cands {
			own := r.owner[f]
			if own != "" && !strings.HasPrefix(lk, own+".") {
				continue
			}
			c := 0
			for _, a := range l {
				if w, ok := a.locks[lk]; ok && (w || !a.write) {
					c++
				}
			}
			if c > n {
				best, n = lk, c
			}
		}
		for _, a := range l {
			w, ok := a.locks[best]
			how := "reads"
			if a.write {
				how = "changes"
			}
			good := ok && (w || !a.write)
			o := r.rep.oblige(ruleGuard, a.where+" "+how+" "+f, a.pos)
			_ = o
			if !good {
				msg := fmt.Sprintf("%s %s without holding %s, which guards it elsewhere", how, f, best)
				if ok {
					msg = fmt.Sprintf("changes %s while %s is only held for reading", f, best)
				}
				r.rep.violate(ruleGuard, a.where+" "+how+" "+f, a.pos, msg, a.tr)
			}
		}
		r.rep.fact("%s is guarded by %s (%d places)", f, best, len(l))
	}
}

func init() {
	register("K07", "lockset dataflow over the SSA form (all accesses of a field must share a lock)",
		"Covers all paths of all entry points of the cacher and mirror packages and of all goroutines they start; locks and shared fields are identified by struct field, and by object for fields of the struct that has the lock. Objects are taken as unshared until they escape from their constructor; file information is taken as immutable once its checksums are known; the methods for container/heap are taken to be called through container/heap only."+trust,
		"For every field of a struct with a lock that changes after construction, for the contents of the maps and slices in such fields, and for the items they hold, there is one lock of that struct that is held at every access on every path, exclusively at every change.", func(p *Program, rep *Report) {
			r := &raceRule{rep: rep, owner: map[string]string{}, locksOf: map[string]bool{}, acc: map[string]map[string]*access{}, lits: map[string]bool{}}
			r.shared(p)
			roots := p.entryPoints("cacher", "mirror")
			j := 0
			heapM := map[string]bool{"Len": true, "Less": true, "Swap": true, "Push": true, "Pop": true}
			for _, f := range roots {
				if rc := f.Signature.Recv(); rc != nil && heapM[f.Name()] && p.implementsHeap(rc.Type()) {
					continue
				}
				roots[j] = f
				j++
			}
			runAllRoots(p, rep, r, roots[:j])
			r.done()
			capturedVars(p, rep, "cacher", "mirror", "go-apt-mirror", "go-apt-cacher")
			rep.floor(ruleGuard, 20)
			if len(r.locksOf) < 4 {
				rep.violate("floor", "locks", token.NoPos, fmt.Sprintf("only %d locks found", len(r.locksOf)), nil)
			}
		})
}
