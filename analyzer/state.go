package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tri is a three-valued truth value.
type Tri int8

const (
	Unknown Tri = iota
	Yes
	No
)

func tri(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

func (t Tri) not() Tri {
	switch t {
	case Yes:
		return No
	case No:
		return Yes
	}
	return Unknown
}

// Fact is what branches have established about a term.
type Fact struct {
	truth  Tri   // boolean terms
	isNil  Tri   // pointer-like terms
	eq     *Term // equal to this constant or sentinel
	ne     []*Term
	lo, hi int64
	hasLo  bool
	hasHi  bool
	labels string // what a rule noted about the value, in order, each ended by ';'; '*' for a value that is nil
}

func (f Fact) key(sb *strings.Builder) {
	sb.WriteByte('0' + byte(f.truth))
	sb.WriteByte('0' + byte(f.isNil))
	if f.eq != nil {
		sb.WriteByte('=')
		sb.WriteString(strconv.Itoa(f.eq.id))
	}
	for _, n := range f.ne {
		sb.WriteByte('!')
		sb.WriteString(strconv.Itoa(n.id))
	}
	if f.hasLo {
		sb.WriteByte('<')
		sb.WriteString(strconv.FormatInt(f.lo, 10))
	}
	if f.hasHi {
		sb.WriteByte('>')
		sb.WriteString(strconv.FormatInt(f.hi, 10))
	}
	if f.labels != "" {
		sb.WriteByte('#')
		sb.WriteString(f.labels)
	}
}

type loopRec struct {
	undec int // iterations whose exit test was not decided
	dec   int // iterations whose exit test was decided
	sat   bool
	phis  map[*ssa.Phi]*Term
	mem   map[*Term]*Term
}

// deferred is a deferred call with its evaluated operands.
type deferred struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
}

// Frame is one activation in the (inlined) call stack.
type Frame struct {
	fn     *ssa.Function
	ctx    int
	env    map[ssa.Value]*Term
	defers []deferred
	loops  map[*ssa.BasicBlock]loopRec
	site   ssa.Instruction // call site in the caller
	goro   bool            // bottom of a goroutine
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, ctx: f.ctx, site: f.site, goro: f.goro}
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.loops = make(map[*ssa.BasicBlock]loopRec, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return n
}

// mapEnt is what is known about one key of a map object.
type mapEnt struct {
	m, k *Term
	val  *Term
	ok   Tri
	okT  *Term // symbolic presence
}

// lockHeld is a held lock.
type lockHeld struct {
	lock  *Term
	write bool
}

// Trace is a persistent list of steps for reports.
type Trace struct {
	up   *Trace
	note string
	pos  token.Pos
	n    int
}

// Mon is the automaton state of a property: sets of terms under string keys.
type Mon map[string][]*Term

// State is one abstract state.
type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	maps   []mapEnt
	facts  map[*Term]Fact
	esc    map[*Term]bool // objects whose unbound cells are unknown rather than zero
	locks  []lockHeld
	mon    Mon
	trace  *Trace
	chain  []int // spawn sites that led here
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]Fact{}, esc: map[*Term]bool{}, mon: Mon{}}
}

func (s *State) clone() *State {
	n := &State{trace: s.trace, chain: s.chain}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.maps = append([]mapEnt(nil), s.maps...)
	n.facts = make(map[*Term]Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.esc = make(map[*Term]bool, len(s.esc))
	for k := range s.esc {
		n.esc[k] = true
	}
	n.locks = append([]lockHeld(nil), s.locks...)
	n.mon = make(Mon, len(s.mon))
	for k, v := range s.mon {
		n.mon[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---- monitor state helpers; lists are kept sorted and unique

func (m Mon) has(key string, t *Term) bool {
	for _, x := range m[key] {
		if x == t {
			return true
		}
	}
	return false
}

func (m Mon) add(key string, t *Term) {
	if m.has(key, t) {
		return
	}
	l := append(append([]*Term(nil), m[key]...), t)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	m[key] = l
}

func (m Mon) del(key string, t *Term) {
	if !m.has(key, t) {
		return
	}
	var l []*Term
	for _, x := range m[key] {
		if x != t {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		delete(m, key)
		return
	}
	m[key] = l
}

// push appends t to the ordered list under key.
func (m Mon) push(key string, t *Term) {
	m[key] = append(append([]*Term(nil), m[key]...), t)
}

func (m Mon) set(key string, t *Term) {
	if t == nil {
		delete(m, key)
		return
	}
	m[key] = []*Term{t}
}

func (m Mon) get(key string) *Term {
	if l := m[key]; len(l) == 1 {
		return l[0]
	}
	return nil
}

func (m Mon) flag(key string) bool { return m[key] != nil }

// ---- canonical key

func (s *State) key() string {
	var sb strings.Builder
	for _, f := range s.frames {
		sb.WriteByte('F')
		sb.WriteString(strconv.Itoa(f.ctx))
		ids := make([]string, 0, len(f.env))
		for v, t := range f.env {
			ids = append(ids, v.Name()+"="+strconv.Itoa(t.id))
		}
		sort.Strings(ids)
		sb.WriteString(strings.Join(ids, " "))
		for _, d := range f.defers {
			sb.WriteByte('D')
			sb.WriteString(strconv.Itoa(int(d.in.Pos())))
			if d.fn != nil {
				sb.WriteString("f" + strconv.Itoa(d.fn.id))
			}
			for _, a := range d.args {
				sb.WriteString("," + strconv.Itoa(a.id))
			}
		}
		var ls []string
		for h, r := range f.loops {
			ls = append(ls, strconv.Itoa(h.Index)+":"+strconv.Itoa(r.undec)+strconv.FormatBool(r.sat))
		}
		sort.Strings(ls)
		sb.WriteString("L" + strings.Join(ls, " "))
	}
	ids := make([]string, 0, len(s.mem))
	for a, v := range s.mem {
		ids = append(ids, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ids)
	sb.WriteString("M" + strings.Join(ids, " "))
	ids = ids[:0]
	for _, e := range s.maps {
		x := strconv.Itoa(e.m.id) + "[" + strconv.Itoa(e.k.id) + "]" + strconv.Itoa(int(e.ok))
		if e.val != nil {
			x += "=" + strconv.Itoa(e.val.id)
		}
		if e.okT != nil {
			x += "?" + strconv.Itoa(e.okT.id)
		}
		ids = append(ids, x)
	}
	sort.Strings(ids)
	sb.WriteString("P" + strings.Join(ids, " "))
	ids = ids[:0]
	for t, f := range s.facts {
		var fb strings.Builder
		fb.WriteString(strconv.Itoa(t.id))
		fb.WriteByte(':')
		f.key(&fb)
		ids = append(ids, fb.String())
	}
	sort.Strings(ids)
	sb.WriteString("T" + strings.Join(ids, " "))
	ids = ids[:0]
	for t := range s.esc {
		ids = append(ids, strconv.Itoa(t.id))
	}
	sort.Strings(ids)
	sb.WriteString("E" + strings.Join(ids, " "))
	ids = ids[:0]
	for _, l := range s.locks {
		ids = append(ids, strconv.Itoa(l.lock.id)+strconv.FormatBool(l.write))
	}
	sort.Strings(ids)
	sb.WriteString("K" + strings.Join(ids, " "))
	ids = ids[:0]
	for k, l := range s.mon {
		x := k + "="
		for _, t := range l {
			x += strconv.Itoa(t.id) + ","
		}
		ids = append(ids, x)
	}
	sort.Strings(ids)
	sb.WriteString("N" + strings.Join(ids, " "))
	return sb.String()
}

// rename replaces every occurrence of a leaf by another one.
func (s *State) rename(ts *Terms, from, to *Term) {
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return ts.subst(t, from, to)
	}
	for _, f := range s.frames {
		for v, t := range f.env {
			if n := sub(t); n != t {
				f.env[v] = n
			}
		}
		for i, d := range f.defers {
			d.fn = sub(d.fn)
			as := make([]*Term, len(d.args))
			for j, a := range d.args {
				as[j] = sub(a)
			}
			d.args = as
			f.defers[i] = d
		}
		for h, r := range f.loops {
			np := make(map[*ssa.Phi]*Term, len(r.phis))
			for k, v := range r.phis {
				np[k] = sub(v)
			}
			r.phis = np
			nm := make(map[*Term]*Term, len(r.mem))
			for k, v := range r.mem {
				nm[sub(k)] = sub(v)
			}
			r.mem = nm
			f.loops[h] = r
		}
	}
	nm := make(map[*Term]*Term, len(s.mem))
	bad := map[*Term]bool{}
	for a, v := range s.mem {
		na, nv := sub(a), sub(v)
		if old, dup := nm[na]; dup && old != nv {
			bad[na] = true
		}
		if na != a { // merged summary cells are weak
			if old, had := s.mem[na]; had && old != nv {
				bad[na] = true
			}
		}
		nm[na] = nv
	}
	for a := range bad {
		delete(nm, a)
	}
	s.mem = nm
	var mp []mapEnt
	for _, e := range s.maps {
		ne := mapEnt{sub(e.m), sub(e.k), sub(e.val), e.ok, sub(e.okT)}
		dup := false
		for i, o := range mp {
			if o.m == ne.m && o.k == ne.k {
				dup = true
				if o != ne {
					mp[i].val, mp[i].ok, mp[i].okT = nil, Unknown, nil
				}
			}
		}
		if !dup {
			mp = append(mp, ne)
		}
	}
	// drop entries that merged into nothing
	var mp2 []mapEnt
	var lost []*Term
	for _, e := range mp {
		if e.val == nil && e.ok == Unknown {
			lost = append(lost, e.m)
			continue
		}
		mp2 = append(mp2, e)
	}
	s.maps = mp2
	nf := make(map[*Term]Fact, len(s.facts))
	for t, f := range s.facts {
		n := sub(t)
		f.eq = sub(f.eq)
		if len(f.ne) > 0 {
			l := make([]*Term, len(f.ne))
			for i, x := range f.ne {
				l[i] = sub(x)
			}
			f.ne = l
		}
		if n != t {
			if of, dup := s.facts[n]; dup {
				f = joinFact(f, of)
			}
		}
		if of, dup := nf[n]; dup {
			f = joinFact(f, of)
		}
		nf[n] = f
	}
	s.facts = nf
	ne := make(map[*Term]bool, len(s.esc))
	for t := range s.esc {
		ne[sub(t)] = true
	}
	s.esc = ne
	for _, m := range lost {
		if m.op == OpAlloc {
			s.esc[m] = true
		}
	}
	if to.op == OpOld {
		s.esc[to] = true
	}
	for i := range s.locks {
		s.locks[i].lock = sub(s.locks[i].lock)
	}
	for k, l := range s.mon {
		n := make([]*Term, 0, len(l))
		ch := false
		for _, t := range l {
			x := sub(t)
			if x != t {
				ch = true
			}
			n = append(n, x)
		}
		if ch {
			s.mon[k] = n
		}
	}
}

func joinFact(a, b Fact) Fact {
	var r Fact
	if a.truth == b.truth {
		r.truth = a.truth
	}
	if a.isNil == b.isNil {
		r.isNil = a.isNil
	}
	if a.eq == b.eq {
		r.eq = a.eq
	}
	for _, x := range a.ne {
		for _, y := range b.ne {
			if x == y {
				r.ne = append(r.ne, x)
			}
		}
	}
	if a.hasLo && b.hasLo {
		r.hasLo = true
		r.lo = min(a.lo, b.lo)
	}
	if a.hasHi && b.hasHi {
		r.hasHi = true
		r.hi = max(a.hi, b.hi)
	}
	r.labels = joinLabels(a.labelSet(), b.labelSet())
	return r
}

func (f Fact) empty() bool {
	return f.truth == Unknown && f.isNil == Unknown && f.eq == nil && len(f.ne) == 0 && !f.hasLo && !f.hasHi && f.labels == ""
}

// labelSet: what is nil has every label.
func (f Fact) labelSet() string {
	if f.isNil == Yes {
		return "*"
	}
	return f.labels
}

func joinLabels(a, b string) string {
	switch {
	case a == b || b == "*":
		return a
	case a == "*":
		return b
	case a == "" || b == "":
		return ""
	}
	var sb strings.Builder
	for _, l := range strings.SplitAfter(a, ";") {
		if l != "" && hasLabel(b, l) {
			sb.WriteString(l)
		}
	}
	return sb.String()
}

func addLabels(a, b string) string {
	if a == "*" || b == "*" {
		return "*"
	}
	set := map[string]bool{}
	for _, l := range strings.SplitAfter(a+b, ";") {
		if l != "" {
			set[l] = true
		}
	}
	var l []string
	for x := range set {
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

func hasLabel(set, l string) bool {
	return set == "*" || strings.HasPrefix(set, l) || strings.Contains(set, ";"+l)
}

// labels are the labels of a value, those it has by its origin included.
func (e *Engine) labels(st *State, t *Term) string {
	if e.nilness(st, t) == Yes {
		return "*"
	}
	l := st.facts[t].labels
	if e.intrinsic != nil {
		if x := e.intrinsic(t); x != "" {
			l = addLabels(l, x)
		}
		if _, ok := sliceType(t); ok && l != "*" {
			// labels of lists are about all their elements
			switch {
			case t.op == OpSlice && len(t.args) == 0:
				return "*"
			case t.isApp("slice"):
				l = addLabels(l, e.labels(st, t.args[0]))
			case t.isApp("append"):
				l = addLabels(l, joinLabels(e.labels(st, t.args[0]), e.labels(st, t.args[1])))
			}
		}
	}
	return l
}

func sliceType(t *Term) (*types.Slice, bool) {
	if t.typ == nil {
		return nil, false
	}
	s, ok := t.typ.Underlying().(*types.Slice)
	return s, ok
}

// label adds a label to a value.
func (e *Engine) label(st *State, t *Term, l string) {
	e.upd(st, t, func(f *Fact) { f.labels = addLabels(f.labels, l+";") })
}

func (e *Engine) labelled(st *State, t *Term, l string) bool {
	return hasLabel(e.labels(st, t), l+";")
}

// reachable says whether all leaves of t are live.
func reachable(t *Term, live map[*Term]bool) bool {
	for _, l := range t.leafs {
		if !live[l] {
			return false
		}
	}
	return true
}

// cachedLoad says whether a cell only remembers what was read from it.
func (s *State) cachedLoad(a, v *Term) bool {
	if v.op != OpSym || len(v.args) != 1 || v.args[0] != a {
		return false
	}
	r := root(a)
	return r.op != OpAlloc || s.esc[r]
}

// gc drops everything that no live value mentions, and facts that the
// property does not ask for.
func (e *Engine) gc(s *State) {
	keepFact, keepMap := e.keepFact, e.keepMap
	live := map[*Term]bool{}  // leaves
	terms := map[*Term]bool{} // subterms of live values
	var addTerm func(t *Term)
	addTerm = func(t *Term) {
		if t == nil || terms[t] {
			return
		}
		terms[t] = true
		if t.op == OpAlloc || t.op == OpSym || t.op == OpOld {
			live[t] = true
		}
		for _, a := range t.args {
			addTerm(a)
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			addTerm(t)
		}
		for _, d := range f.defers {
			addTerm(d.fn)
			for _, a := range d.args {
				addTerm(a)
			}
		}
	}
	for _, l := range s.locks {
		addTerm(l.lock)
	}
	for _, l := range s.mon {
		for _, t := range l {
			addTerm(t)
		}
	}
	kept := map[*Term]bool{}
	keptMap := make([]bool, len(s.maps))
	for changed := true; changed; {
		changed = false
		for a, v := range s.mem {
			if kept[a] || !reachable(a, live) {
				continue
			}
			if s.cachedLoad(a, v) && !terms[v] && (e.keepCell == nil || !e.keepCell(a)) {
				continue
			}
			kept[a] = true
			changed = true
			addTerm(a)
			addTerm(v)
		}
		for i, e := range s.maps {
			if keptMap[i] || !reachable(e.m, live) {
				continue
			}
			shared := e.m.op != OpAlloc || s.esc[e.m]
			if shared && (keepMap == nil || !keepMap(e.m)) && !terms[e.val] && (e.val == nil || e.val.op == OpSym && (e.val.symKind() == "mapval" || e.val.symKind() == "iterval")) {
				continue
			}
			if shared && !reachable(e.k, live) {
				continue
			}
			keptMap[i] = true
			changed = true
			addTerm(e.m)
			addTerm(e.k)
			addTerm(e.val)
			addTerm(e.okT)
		}
	}
	for a := range s.mem {
		if !kept[a] {
			delete(s.mem, a)
		}
	}
	j := 0
	for i, e := range s.maps {
		if keptMap[i] {
			s.maps[j] = e
			j++
		}
	}
	s.maps = s.maps[:j]
	for t := range s.facts {
		if terms[t] || t.isApp("ctxdone") && terms[t.args[0]] {
			continue
		}
		if keepFact != nil && reachable(t, live) && keepFact(t) {
			continue
		}
		delete(s.facts, t)
	}
	for t := range s.esc {
		if !live[t] {
			delete(s.esc, t)
		}
	}
}

// occurs says which leaves with the given name occur in the state.
func (s *State) occurs(name string) []*Term {
	found := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leafs {
			if l.name == name && l.op != OpOld {
				found[l] = true
			}
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			add(t)
		}
		for _, d := range f.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
		for _, r := range f.loops {
			for _, t := range r.phis {
				add(t)
			}
		}
	}
	for a, v := range s.mem {
		add(a)
		add(v)
	}
	for _, e := range s.maps {
		add(e.m)
		add(e.k)
		add(e.val)
		add(e.okT)
	}
	for t, f := range s.facts {
		add(t)
		add(f.eq)
	}
	for t := range s.esc {
		add(t)
	}
	for _, l := range s.locks {
		add(l.lock)
	}
	for _, l := range s.mon {
		for _, t := range l {
			add(t)
		}
	}
	var r []*Term
	for t := range found {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (s *State) note(pos token.Pos, note string) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{up: s.trace, note: note, pos: pos, n: n}
}
