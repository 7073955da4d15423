package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// EvKind is the kind of an event reported to a rule.
type EvKind int

const (
	EvLoad EvKind = iota
	EvStore
	EvMapLookup
	EvMapUpdate
	EvMapDelete
	EvSend
	EvRecv
	EvClose
	EvSelect // a blocking select begins
	EvPoll   // a select that does not block begins
	EvLock
	EvUnlock
	EvAssume
	EvSpawn
	EvSpawnEnter
	EvSpawnExit
	EvIter
	EvIterEnd
	EvBack
	EvAppend
	EvForget // the values of a site are about to become old
	EvEnter
	EvReturn
	EvMakeChan
	EvMakeMap
	EvExit   // the root ends
	EvWiden  // a loop variable is widened: a new value, b incoming value
	EvMapLen // the length of a map is taken
	EvIndex  // indexing or slicing: a operand, b index or low, c high
	EvTest   // a condition whose outcome is known is tested: a, ok
)

// Event is something a path does.
type Event struct {
	kind   EvKind
	in     ssa.Instruction
	a, b   *Term // address/value, map/key, channel/value, ...
	c      *Term
	ok     bool // outcome of a condition; write mode of a lock; ...
	typ    types.Type
	fn     *ssa.Function
	res    []*Term
	panics bool
	held   []lockHeld // unlock: locks held before
	block  *ssa.BasicBlock
	slot   string // spawn kind
}

// Call is a call about to be made or just made.
type Call struct {
	name string // full name of the callee; "" if unknown
	fn   *ssa.Function
	args []*Term
	in   ssa.Instruction
	com  *ssa.CallCommon
	defr bool
	ctx  int
	clos *Term

	inlined bool // the body of the callee was analysed
}

func (c *Call) pos() token.Pos {
	if c.in != nil {
		if c.com != nil && c.com.Pos().IsValid() {
			return c.com.Pos()
		}
		return c.in.Pos()
	}
	return token.NoPos
}

// Action says how a call is analysed.
type Action int

const (
	ActDefault Action = iota
	ActOpaque         // results unknown, no effects
	ActPure           // results are a function of the arguments
	ActCut            // the path ends here
	ActNil            // returns no error / zero values
	ActHavoc          // results unknown, may change whatever it can reach
)

// Rule is the automaton of a property.
type Rule interface {
	Call(e *Engine, st *State, c *Call) Action
	After(e *Engine, st *State, c *Call, res *Term)
	On(e *Engine, st *State, ev *Event)
}

// NopRule does nothing; rules embed it.
type NopRule struct{}

func (NopRule) Call(*Engine, *State, *Call) Action  { return ActDefault }
func (NopRule) After(*Engine, *State, *Call, *Term) {}
func (NopRule) On(e *Engine, st *State, ev *Event)  {}

type undecided struct{ msg string }

// Engine runs the dataflow analysis of one rule.
type Engine struct {
	p    *Program
	ts   *Terms
	rule Rule
	rep  *Report

	ctxs        map[string]int
	steps       int
	stepLimit   int
	deadline    time.Time
	inlineWell  bool // analyse well.Go like env.Go (structured)
	noSpawn     bool // do not follow goroutines
	follow      func(fn *ssa.Function) bool
	intrinsic   func(*Term) string     // labels of a value by its origin; enables labels
	spawnRoots  map[*ssa.Function]bool // collect goroutine bodies instead of following them
	keepFact    func(*Term) bool
	keepMap     func(*Term) bool // maps whose entries are remembered
	keepCell    func(*Term) bool // cells whose contents are remembered
	curIf       *ssa.If
	liveAfter   map[ssa.Instruction]map[ssa.Value]bool
	fnsSeen     map[*ssa.Function]bool
	callsSeen   map[ssa.Instruction]bool
	curRoot     string
	maxBlock    int
	noEager     bool
	walkAt      map[*Term]map[*ssa.BasicBlock]bool // where collections are walked
	undecK      int
	spawnMemo   map[string]bool
	constCell   map[*Term]bool // variables assigned once
	stats       *stateStats
	joinAt      int // states with the same coarse part that are kept apart
	coarseExtra func(*State) string
}

func newEngine(p *Program, rep *Report, rule Rule) *Engine {
	return &Engine{p: p, ts: newTerms(), rule: rule, rep: rep, ctxs: map[string]int{}, stepLimit: 6000000,
		deadline:  runDeadline,
		liveAfter: map[ssa.Instruction]map[ssa.Value]bool{}, fnsSeen: map[*ssa.Function]bool{}, callsSeen: map[ssa.Instruction]bool{}, undecK: 1, constCell: map[*Term]bool{}, spawnMemo: map[string]bool{}, stats: newStats(), joinAt: defaultJoin()}
}

func (e *Engine) ctx(parent int, site int) int {
	k := strconv.Itoa(parent) + "/" + strconv.Itoa(site)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := len(e.ctxs) + 1
	e.ctxs[k] = c
	return c
}

// ---- values

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.ts.False
		case u.Info()&types.IsString != 0:
			return e.ts.Str("")
		case u.Info()&types.IsInteger != 0:
			return e.ts.Int(0)
		case u.Kind() == types.UntypedNil:
			return e.ts.Nil
		}
		return e.ts.Const(constant.MakeInt64(0))
	case *types.Struct:
		if !e.expand(t) {
			return e.ts.mk(OpApp, "zero:"+typeName(t), t)
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return e.ts.mk(OpStruct, typeName(t), t, fs...)
	case *types.Array:
		return e.ts.mk(OpApp, "zero:"+typeName(t), t)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, e.zero(u.At(i).Type()))
		}
		return e.ts.mk(OpTuple, "", nil, fs...)
	}
	return e.ts.Nil
}

// expand says whether values of struct type t are tracked field by field.
func (e *Engine) expand(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modulePath)
	}
	return true
}

func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return e.zero(v.Type())
		}
		return e.ts.Const(v.Value)
	case *ssa.Global:
		t := e.ts.mk(OpGlobal, v.String(), v.Type())
		t.glob = v
		return t
	case *ssa.Function:
		t := e.ts.mk(OpFunc, v.String(), v.Type())
		t.fn = v
		return t
	case *ssa.Builtin:
		return e.ts.mk(OpFunc, "builtin "+v.Name(), nil)
	}
	if t := st.top().env[v]; t != nil {
		return t
	}
	return e.ts.mk(OpSym, "unset:"+v.Name()+"@"+strconv.Itoa(st.top().ctx), v.Type())
}

// fresh makes the symbol of a site, renaming what the site made before.
func (e *Engine) fresh(st *State, op Op, kind string, in ssa.Instruction, typ types.Type, args ...*Term) *Term {
	name := kind + "@" + strconv.Itoa(e.p.iid(in)) + "." + strconv.Itoa(st.top().ctx)
	e.forget(st, name)
	for _, a := range args {
		if a.depth > 13 {
			args = nil
			break
		}
	}
	return e.ts.mk(op, name, typ, args...)
}

func (e *Engine) forget(st *State, name string) {
	for _, l := range st.occurs(name) {
		e.rule.On(e, st, &Event{kind: EvForget, a: l})
		old := e.ts.mk(OpOld, l.name, l.typ)
		st.rename(e.ts, l, old)
		st.esc[old] = true
		// facts about the new value must not be inherited
	}
}

func root(t *Term) *Term {
	for t.op == OpField || t.op == OpIndex {
		t = t.args[0]
	}
	return t
}

func (e *Engine) local(st *State, t *Term) bool {
	r := root(t)
	return r.op == OpAlloc && !st.esc[r]
}

func (e *Engine) load(st *State, addr *Term, typ types.Type, in ssa.Instruction) *Term {
	if e.expand(typ) {
		u := typ.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fa := e.ts.mk(OpField, typeName(typ)+"."+u.Field(i).Name(), nil, addr)
			fs = append(fs, e.load(st, fa, u.Field(i).Type(), in))
		}
		return e.ts.mk(OpStruct, typeName(typ), typ, fs...)
	}
	if v := st.mem[addr]; v != nil {
		return v
	}
	if addr.op == OpIndex {
		b, i := addr.args[0], addr.args[1]
		if b.op == OpSlice {
			if n, ok := i.int(); ok && n >= 0 && int(n) < len(b.args) {
				return b.args[n]
			}
		}
		if b.op == OpAlloc && !st.esc[b] {
			if w := st.mem[b]; w != nil {
				return e.ts.mk(OpApp, "index", typ, w, i)
			}
		}
	}
	if addr.op == OpField {
		// field of an opaque struct value stored as a whole
		if w := st.mem[addr.args[0]]; w != nil {
			return e.ts.mk(OpApp, "field:"+addr.name, typ, w)
		}
	}
	if e.local(st, addr) {
		return e.zero(typ)
	}
	if addr.op == OpGlobal {
		if addr.glob != nil && !e.p.mutGlobal[addr.glob] {
			t := e.ts.mk(OpLoad, "", typ, addr)
			return t
		}
	}
	if addr.op == OpField && !e.p.mutField[addr.name] {
		return e.ts.mk(OpLoad, "", typ, addr)
	}
	if addr.op == OpIndex && !e.p.mutElem[typeName(typ)] {
		return e.ts.mk(OpLoad, "", typ, addr)
	}
	s := e.fresh(st, OpSym, "load", in, typ, addr)
	st.mem[addr] = s
	return s
}

func (e *Engine) store(st *State, addr, v *Term, typ types.Type, in ssa.Instruction, quiet bool) {
	if e.expand(typ) {
		u := typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			fk := typeName(typ) + "." + u.Field(i).Name()
			fa := e.ts.mk(OpField, fk, nil, addr)
			var fv *Term
			if v.op == OpStruct && i < len(v.args) {
				fv = v.args[i]
			} else {
				fv = e.ts.mk(OpApp, "field:"+fk, u.Field(i).Type(), v)
			}
			e.store(st, fa, fv, u.Field(i).Type(), in, true)
		}
		if !quiet {
			e.rule.On(e, st, &Event{kind: EvStore, in: in, a: addr, b: v, typ: typ})
		}
		return
	}
	if !quiet {
		e.rule.On(e, st, &Event{kind: EvStore, in: in, a: addr, b: v, typ: typ})
	}
	// invalidate what may alias
	for k := range st.mem {
		if k != addr && e.mayAlias(st, k, addr) {
			delete(st.mem, k)
			if r := root(k); r.op == OpAlloc {
				st.esc[r] = true
			}
		}
	}
	r := root(addr)
	if r.op != OpAlloc || st.esc[r] {
		e.escape(st, v)
	}
	if r.op == OpOld {
		delete(st.mem, addr)
		return
	}
	st.mem[addr] = v
}

// escape marks the objects v leads to as possibly shared.
func (e *Engine) escape(st *State, v *Term) {
	if v == nil {
		return
	}
	for _, l := range v.leafs {
		if l.op == OpAlloc && !st.esc[l] {
			// materialise zero cells: unbound cells become unknown, so
			// nothing needs to be done for bound ones.
			e.bindZero(st, l)
			st.esc[l] = true
			for a, w := range st.mem {
				if root(a) == l {
					e.escape(st, w)
				}
			}
		}
	}
}

// bindZero binds the still unbound fields of a fresh struct to zero.
func (e *Engine) bindZero(st *State, l *Term) {
	if l.typ == nil {
		return
	}
	pt, ok := l.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	t := pt.Elem()
	if !e.expand(t) {
		return
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if _, isStruct := ft.Underlying().(*types.Struct); isStruct {
			continue
		}
		fa := e.ts.mk(OpField, typeName(t)+"."+u.Field(i).Name(), nil, l)
		if _, ok := st.mem[fa]; !ok {
			st.mem[fa] = e.zero(ft)
		}
	}
}

func (e *Engine) mayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		return false
	}
	switch a.op {
	case OpField:
		if a.name != b.name {
			return false
		}
		return e.mayAliasBase(st, a.args[0], b.args[0])
	case OpIndex:
		if x, ok := a.args[1].int(); ok {
			if y, ok := b.args[1].int(); ok && x != y {
				return false
			}
		}
		if a.args[0] == b.args[0] {
			return true
		}
		return e.mayAliasBase(st, a.args[0], b.args[0])
	case OpSym, OpLoad, OpApp:
		return false
	}
	return false
}

func (e *Engine) mayAliasBase(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := root(a), root(b)
	if ra.op == OpAlloc && rb.op == OpAlloc {
		return ra == rb && a.op == b.op && e.mayAlias(st, a, b)
	}
	if (ra.op == OpAlloc && !st.esc[ra]) || (rb.op == OpAlloc && !st.esc[rb]) {
		return false
	}
	if ra.op == OpSlice || rb.op == OpSlice {
		return false
	}
	if a.op == OpField && b.op == OpField && a.name != b.name {
		return false
	}
	if a.typ != nil && b.typ != nil && !types.Identical(a.typ, b.typ) {
		return false
	}
	return true
}

// havoc forgets shared memory that another goroutine may have changed:
// everything except what a lock that is held guards.
func (e *Engine) havoc(st *State) {
	guarded := func(field string, base *Term) bool {
		g := e.p.guard[field]
		if g == "" {
			return false
		}
		for _, l := range st.locks {
			if l.lock.op == OpField && l.lock.name == g {
				if strings.HasPrefix(field, g[:strings.LastIndexByte(g, '.')+1]) && base != nil && base != l.lock.args[0] {
					continue
				}
				return true
			}
		}
		return false
	}
	for a := range st.mem {
		r := root(a)
		if r.op == OpAlloc && !st.esc[r] || e.constCell[a] {
			continue
		}
		if a.op == OpField && !e.p.mutField[a.name] {
			continue
		}
		if a.op == OpApp { // bookkeeping cells
			continue
		}
		if a.op == OpField && guarded(a.name, a.args[0]) {
			continue
		}
		if a.op == OpIndex {
			if f := fieldOf(a.args[0]); f != "" && guarded(f, nil) {
				continue
			}
		}
		delete(st.mem, a)
	}
	j := 0
	for _, m := range st.maps {
		keep := m.m.op == OpAlloc && !st.esc[m.m]
		if f := fieldOf(m.m); f != "" && guarded(f, m.m.args[0].args[0]) {
			keep = true
		}
		if keep {
			st.maps[j] = m
			j++
		}
	}
	st.maps = st.maps[:j]
}

// ---- facts

func (e *Engine) isSentinel(t *Term) bool {
	if t.op != OpLoad || t.args[0].op != OpGlobal {
		return false
	}
	g := t.args[0].glob
	if g == nil {
		return false
	}
	if e.p.sentinel[g] {
		return true
	}
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modulePath) && isError(deref(g.Type())) {
		return true // io.EOF, http.ErrHandlerTimeout, ...
	}
	return false
}

var nonNilCtors = map[string]bool{
	"errors.New": true, "github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true, "fmt.Errorf": true,
}

// wrapNil: functions whose result is nil exactly if their first argument is.
var wrapNil = map[string]bool{
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true, "github.com/pkg/errors.WithMessage": true,
	"github.com/pkg/errors.WithStack": true, "github.com/pkg/errors.Cause": true,
}

func (e *Engine) nilness(st *State, t *Term) Tri {
	switch t.op {
	case OpNil:
		return Yes
	case OpConst, OpGlobal, OpFunc, OpClosure, OpAlloc, OpField, OpIndex, OpStruct:
		return No
	case OpSlice:
		if len(t.args) > 0 {
			return No
		}
	case OpLoad:
		if e.isSentinel(t) {
			return No
		}
	case OpApp:
		if nonNilCtors[t.name] {
			return No
		}
		if wrapNil[t.name] && len(t.args) > 0 {
			return e.nilness(st, t.args[0])
		}
		if t.name == "os.NewSyscallError" && len(t.args) == 2 {
			return e.nilness(st, t.args[1])
		}
		if t.name == "allnil" {
			all := Yes
			for _, a := range t.args {
				switch e.nilness(st, a) {
				case No:
					return No
				case Unknown:
					all = Unknown
				}
			}
			if all == Yes {
				return Yes
			}
		}
		if t.name == "append" {
			return No
		}
	}
	f, ok := st.facts[t]
	if ok {
		if f.isNil != Unknown {
			return f.isNil
		}
		if f.eq != nil {
			return e.nilness(st, f.eq)
		}
	}
	return Unknown
}

func (e *Engine) eqOf(st *State, t *Term) *Term {
	if t.op == OpConst || t.op == OpNil || e.isSentinel(t) {
		return t
	}
	if f, ok := st.facts[t]; ok && f.eq != nil {
		return f.eq
	}
	return nil
}

func (e *Engine) bounds(st *State, t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if n, ok := t.int(); ok {
		return n, n, true, true
	}
	if f, ok := st.facts[t]; ok {
		lo, hi, hasLo, hasHi = f.lo, f.hi, f.hasLo, f.hasHi
		if f.eq != nil {
			if n, ok := f.eq.int(); ok {
				return n, n, true, true
			}
		}
	}
	if t.isApp("len") && (!hasLo || lo < 0) {
		lo, hasLo = 0, true
	}
	if t.isApp("+") && len(t.args) == 2 {
		// numbers do not get as large as to overflow
		if n, ok := t.args[1].int(); ok && (n > 0 || !isUnsigned(t.typ)) {
			l, h, hl, hh := e.bounds(st, t.args[0])
			if hl && (!hasLo || l+n > lo) {
				lo, hasLo = l+n, true
			}
			if hh && (!hasHi || h+n < hi) {
				hi, hasHi = h+n, true
			}
		}
	}
	if t.op != OpApp && isUnsigned(t.typ) && (!hasLo || lo < 0) {
		lo, hasLo = 0, true
	}
	return
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// truth evaluates a boolean term.
// endsDiffer says whether two strings differ at their ends.
func endsDiffer(a, b *Term) bool {
	end := func(t *Term) (string, bool) {
		if s, ok := t.str(); ok {
			return s, true
		}
		base := t.isApp("path.Base")
		if base {
			t = t.args[0]
		}
		if !t.isApp("concat") {
			return "", false
		}
		s, _ := t.args[len(t.args)-1].str()
		return s, s != "" && !(base && strings.Contains(s, "/"))
	}
	x, ok := end(a)
	y, ok2 := end(b)
	if !ok || !ok2 || a.op == OpConst && b.op == OpConst {
		return false
	}
	n := min(len(x), len(y))
	if a.op == OpConst && len(x) < len(y) || b.op == OpConst && len(y) < len(x) {
		return true
	}
	return x[len(x)-n:] != y[len(y)-n:]
}

func (e *Engine) truth(st *State, t *Term) Tri {
	if t == e.ts.True {
		return Yes
	}
	if t == e.ts.False {
		return No
	}
	if t.op == OpApp {
		switch t.name {
		case "!":
			return e.truth(st, t.args[0]).not()
		case "==":
			a, b := t.args[0], t.args[1]
			if a == b && !hasOld(a) {
				return Yes
			}
			if b.op == OpNil {
				a, b = b, a
			}
			if a.op == OpNil {
				if r := e.nilness(st, b); r != Unknown {
					return r
				}
			}
			na, nb := e.nilness(st, a), e.nilness(st, b)
			if (na == Yes && nb == No) || (na == No && nb == Yes) {
				return No
			}
			if na == Yes && nb == Yes {
				return Yes
			}
			ea, eb := e.eqOf(st, a), e.eqOf(st, b)
			if endsDiffer(a, b) {
				return No
			}
			if ea != nil && eb != nil {
				if ea == eb {
					return Yes
				}
				if ea.op == OpConst && eb.op == OpConst {
					return No
				}
				if ea != eb && (ea.op == OpNil || e.isSentinel(ea)) && (eb.op == OpNil || e.isSentinel(eb)) {
					return No
				}
			}
			if eb != nil {
				if f, ok := st.facts[a]; ok {
					for _, x := range f.ne {
						if x == eb {
							return No
						}
					}
				}
				if n, ok := eb.int(); ok {
					lo, hi, hl, hh := e.bounds(st, a)
					if (hl && n < lo) || (hh && n > hi) {
						return No
					}
				}
			}
			if ea != nil {
				if f, ok := st.facts[b]; ok {
					for _, x := range f.ne {
						if x == ea {
							return No
						}
					}
				}
				if n, ok := ea.int(); ok {
					lo, hi, hl, hh := e.bounds(st, b)
					if (hl && n < lo) || (hh && n > hi) {
						return No
					}
				}
			}
			// fresh objects differ from everything else
			if a.op == OpAlloc && b.op == OpAlloc && a != b {
				return No
			}
			// a non-empty string against ""
		case "<":
			a, b := t.args[0], t.args[1]
			if a == b && !hasOld(a) {
				return No
			}
			alo, ahi, ahl, ahh := e.bounds(st, a)
			blo, bhi, bhl, bhh := e.bounds(st, b)
			if ahh && bhl && ahi < blo {
				return Yes
			}
			if ahl && bhh && alo >= bhi {
				return No
			}
		}
	}
	if f, ok := st.facts[t]; ok && f.truth != Unknown {
		return f.truth
	}
	if f, ok := st.facts[t]; ok && f.eq != nil {
		return e.truth(st, f.eq)
	}
	return Unknown
}

func hasOld(t *Term) bool {
	for _, l := range t.leafs {
		if l.op == OpOld {
			return true
		}
	}
	return false
}

func (e *Engine) upd(st *State, t *Term, f func(*Fact)) {
	if t.op == OpConst || t.op == OpNil {
		return
	}
	x := st.facts[t]
	f(&x)
	st.facts[t] = x
	if t.isApp("+") && len(t.args) == 2 && (x.hasLo || x.hasHi) {
		if n, ok := t.args[1].int(); ok && (n > 0 || !isUnsigned(t.typ)) {
			e.upd(st, t.args[0], func(f *Fact) {
				if x.hasHi && (!f.hasHi || x.hi-n < f.hi) {
					f.hasHi, f.hi = true, x.hi-n
				}
				if x.hasLo && (!f.hasLo || x.lo-n > f.lo) {
					f.hasLo, f.lo = true, x.lo-n
				}
			})
		}
	}
}

// assume adds the fact that cond is v; it says whether that is feasible.
func (e *Engine) assume(st *State, cond *Term, v bool) bool {
	switch e.truth(st, cond) {
	case Yes:
		return v
	case No:
		return !v
	}
	if cond.op == OpApp {
		switch cond.name {
		case "!":
			return e.assume(st, cond.args[0], !v)
		case "==":
			a, b := cond.args[0], cond.args[1]
			if a.op == OpNil {
				a, b = b, a
			}
			if b.op == OpNil {
				return e.assumeNil(st, a, v)
			}
			if e.eqOf(st, b) == nil {
				a, b = b, a
			}
			if eb := e.eqOf(st, b); eb != nil {
				if v {
					if eb.op == OpNil {
						return e.assumeNil(st, a, true)
					}
					e.upd(st, a, func(f *Fact) { f.eq = eb })
					if e.isSentinel(eb) {
						if !e.assumeNil(st, a, false) {
							return false
						}
					}
				} else {
					e.upd(st, a, func(f *Fact) {
						f.ne = append(append([]*Term(nil), f.ne...), eb)
						sort.Slice(f.ne, func(i, j int) bool { return f.ne[i].id < f.ne[j].id })
						if n, ok := eb.int(); ok {
							if f.hasLo && f.lo == n {
								f.lo++
							}
							if f.hasHi && f.hi == n {
								f.hi--
							}
							if a.isApp("len") && n == 0 && !f.hasLo {
								f.hasLo, f.lo = true, 1
							}
						}
					})
				}
			} else {
				e.upd(st, cond, func(f *Fact) { f.truth = tri(v) })
				if v {
					// pointers: equal values share nilness
					if n := e.nilness(st, a); n != Unknown && e.nilness(st, b) == Unknown {
						e.upd(st, b, func(f *Fact) { f.isNil = n })
					} else if n := e.nilness(st, b); n != Unknown && e.nilness(st, a) == Unknown {
						e.upd(st, a, func(f *Fact) { f.isNil = n })
					}
				}
			}
		case "<":
			a, b := cond.args[0], cond.args[1]
			if n, ok := b.int(); ok {
				e.upd(st, a, func(f *Fact) {
					if v {
						if !f.hasHi || f.hi > n-1 {
							f.hasHi, f.hi = true, n-1
						}
					} else if !f.hasLo || f.lo < n {
						f.hasLo, f.lo = true, n
					}
				})
			} else if n, ok := a.int(); ok {
				e.upd(st, b, func(f *Fact) {
					if v {
						if !f.hasLo || f.lo < n+1 {
							f.hasLo, f.lo = true, n+1
						}
					} else if !f.hasHi || f.hi > n {
						f.hasHi, f.hi = true, n
					}
				})
			} else {
				e.upd(st, cond, func(f *Fact) { f.truth = tri(v) })
			}
		default:
			e.upd(st, cond, func(f *Fact) { f.truth = tri(v) })
			e.implied(st, cond, v)
		}
	} else {
		e.upd(st, cond, func(f *Fact) { f.truth = tri(v) })
	}
	e.rule.On(e, st, &Event{kind: EvAssume, a: cond, ok: v, in: e.assumeIn()})
	return true
}

func (e *Engine) assumeIn() ssa.Instruction {
	if e.curIf == nil {
		return nil
	}
	return e.curIf
}

// implied adds facts that follow from a predicate call.
func (e *Engine) implied(st *State, cond *Term, v bool) {
	if !v {
		return
	}
	switch cond.name {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.Is", "errors.As", "github.com/pkg/errors.Is":
		e.assumeNil(st, cond.args[0], false)
	}
}

func (e *Engine) assumeNil(st *State, t *Term, v bool) bool {
	switch e.nilness(st, t) {
	case Yes:
		return v
	case No:
		return !v
	}
	if t.op == OpApp {
		if wrapNil[t.name] {
			return e.assumeNil(st, t.args[0], v)
		}
		if t.name == "os.NewSyscallError" {
			return e.assumeNil(st, t.args[1], v)
		}
		if t.name == "allnil" && v {
			for _, a := range t.args {
				if !e.assumeNil(st, a, true) {
					return false
				}
			}
			return true
		}
	}
	e.upd(st, t, func(f *Fact) { f.isNil = tri(v) })
	e.rule.On(e, st, &Event{kind: EvAssume, a: e.eq(t, e.ts.Nil), ok: v, in: e.assumeIn()})
	return true
}

func (e *Engine) eq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return e.ts.mk(OpApp, "==", types.Typ[types.Bool], a, b)
}

func (e *Engine) not(t *Term) *Term {
	switch {
	case t == e.ts.True:
		return e.ts.False
	case t == e.ts.False:
		return e.ts.True
	case t.isApp("!"):
		return t.args[0]
	}
	return e.ts.mk(OpApp, "!", types.Typ[types.Bool], t)
}

func (e *Engine) lt(a, b *Term) *Term {
	return e.ts.mk(OpApp, "<", types.Typ[types.Bool], a, b)
}

// ---- running functions

type outcome struct {
	st     *State
	res    *Term
	panics bool
}

type pending struct {
	b  *ssa.BasicBlock
	st *State
}

// runFunc analyses an activation of fn from st.
func (e *Engine) runFunc(st *State, fn *ssa.Function, args, free []*Term, site ssa.Instruction, goro bool) (ret []outcome) {
	e.fnsSeen[fn] = true
	pctx := 0
	if len(st.frames) > 0 {
		pctx = st.top().ctx
	}
	sid := 0
	if site != nil {
		sid = e.p.iid(site)
	}
	fr := &Frame{fn: fn, ctx: e.ctx(pctx, sid*1000000+int(fn.Pos())%1000000), env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]loopRec{}, site: site, goro: goro}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			fr.env[fv] = free[i]
		}
	}
	place := "r" + strconv.Itoa(sid) + "." + strconv.Itoa(fr.ctx)
	st.frames = append(st.frames, fr)
	if len(st.frames) > 40 {
		panic(undecided{"call depth"})
	}
	e.rule.On(e, st, &Event{kind: EvEnter, fn: fn, res: args})

	fi := e.p.info(fn)
	var outs []outcome
	outKeys := map[string]bool{}
	seen := map[*ssa.BasicBlock]map[string]bool{}
	queue := map[*ssa.BasicBlock][]*State{}
	groups := map[*ssa.BasicBlock]map[string]*group{}
	add := func(b *ssa.BasicBlock, s *State) {
		m := seen[b]
		if m == nil {
			m = map[string]bool{}
			seen[b] = m
		}
		if len(b.Preds) > 1 || len(b.Succs) == 0 {
			k := s.key()
			if m[k] {
				return
			}
			gs := groups[b]
			if gs == nil {
				gs = map[string]*group{}
				groups[b] = gs
			}
			ck := e.coarse(s)
			g := gs[ck]
			if g == nil {
				g = &group{}
				gs[ck] = g
			}
			g.n++
			if g.n > e.joinAt {
				if g.acc != nil {
					s = e.join(g.acc, s, strconv.Itoa(e.p.iid(b.Instrs[0]))+"."+strconv.Itoa(fr.ctx))
					e.gc(s)
					k = s.key()
					if k == g.key {
						return
					}
					for i, q := range queue[b] {
						if q == g.q {
							queue[b] = append(queue[b][:i:i], queue[b][i+1:]...)
							break
						}
					}
				}
				g.key, g.q, g.acc = k, s, s.clone()
			}
			m[k] = true
			if len(m) > e.maxBlock {
				e.maxBlock = len(m)
			}
			if e.stats != nil {
				e.stats.add(fn, b, s)
			}
			if len(m) > 60000 {
				panic(undecided{fmt.Sprintf("too many states in %s", fn)})
			}
		}
		queue[b] = append(queue[b], s)
	}
	finish := func(s *State, res *Term, panics bool) {
		e.rule.On(e, s, &Event{kind: EvReturn, fn: fn, a: res, panics: panics})
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) > 0 {
			// keep the result alive across gc by leaving it to the caller
			s.mon["\x00ret"] = []*Term{res}
			e.gc(s)
			delete(s.mon, "\x00ret")
			k := s.key() + "R" + strconv.Itoa(res.id) + strconv.FormatBool(panics)
			if outKeys[k] {
				return
			}
			outKeys[k] = true
		}
		outs = append(outs, outcome{s, res, panics})
	}
	if len(st.frames) > 1 {
		defer func() { ret = e.joinOuts(ret, place) }()
	}
	add(fn.Blocks[0], st)
	for {
		var best *ssa.BasicBlock
		for b, q := range queue {
			if len(q) > 0 && (best == nil || fi.rpo[b] < fi.rpo[best]) {
				best = b
			}
		}
		if best == nil {
			break
		}
		q := queue[best]
		s := q[len(q)-1]
		queue[best] = q[:len(q)-1]
		e.rep.block(best)
		e.runBlock(s, best, fi, add, finish)
	}
	return outs
}

func (e *Engine) tick() {
	e.steps++
	if e.steps > e.stepLimit {
		panic(undecided{"step limit"})
	}
	if e.steps&1023 == 0 && time.Now().After(e.deadline) {
		panic(undecided{"time limit"})
	}
}

func (e *Engine) runBlock(st0 *State, b *ssa.BasicBlock, fi *funcInfo, add func(*ssa.BasicBlock, *State), finish func(*State, *Term, bool)) {
	type item struct {
		st *State
		i  int
	}
	work := []item{{st0, 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st, i := it.st, it.i
		for i < len(b.Instrs) {
			e.tick()
			in := b.Instrs[i]
			i++
			switch in := in.(type) {
			case *ssa.Phi:
				continue // set at the edge
			case *ssa.If:
				cond := e.val(st, in.Cond)
				r := e.truth(st, cond)
				hs := fi.loopOf[b]
				for _, h := range hs {
					body := fi.loopBody[h]
					if !body[b.Succs[0]] || !body[b.Succs[1]] {
						rec := st.top().loops[h]
						if r == Unknown {
							rec.undec++
							if rec.undec > e.undecK {
								rec.undec = e.undecK + 1
								rec.sat = true
							}
						} else {
							rec.dec++
							if rec.dec > 80 {
								rec.sat = true
							}
						}
						st.top().loops[h] = rec
					}
				}
				if r != Unknown && !cond.isConst() {
					c, v := cond, r == Yes
					for c.isApp("!") {
						c, v = c.args[0], !v
					}
					e.curIf = in
					e.rule.On(e, st, &Event{kind: EvTest, in: in, a: c, ok: v})
				}
				switch r {
				case Yes:
					e.edge(st, b, b.Succs[0], fi, add)
				case No:
					e.edge(st, b, b.Succs[1], fi, add)
				default:
					s2 := st.clone()
					e.curIf = in
					if e.assume(st, cond, true) {
						st.note(condPos(in), "true: "+cond.show(5))
						e.edge(st, b, b.Succs[0], fi, add)
					}
					e.curIf = in
					if e.assume(s2, cond, false) {
						s2.note(condPos(in), "false: "+cond.show(5))
						e.edge(s2, b, b.Succs[1], fi, add)
					}
				}
				st = nil
			case *ssa.Jump:
				e.edge(st, b, b.Succs[0], fi, add)
				st = nil
			case *ssa.Return:
				var res *Term
				switch len(in.Results) {
				case 0:
					res = e.ts.Nil
				case 1:
					res = e.val(st, in.Results[0])
				default:
					var l []*Term
					for _, r := range in.Results {
						l = append(l, e.val(st, r))
					}
					res = e.ts.mk(OpTuple, "", nil, l...)
				}
				finish(st, res, false)
				st = nil
			case *ssa.Panic:
				for _, s := range e.runDefers(st) {
					finish(s, e.ts.Nil, true)
				}
				st = nil
			case *ssa.RunDefers:
				outs := e.runDefers(st)
				for _, s := range outs {
					work = append(work, item{s, i})
				}
				st = nil
			default:
				outs := e.step(st, in)
				if len(outs) == 1 && !outs[0].panics {
					st = outs[0].st
					continue
				}
				for _, o := range outs {
					if o.panics {
						for _, s := range e.runDefers(o.st) {
							finish(s, e.ts.Nil, true)
						}
						continue
					}
					work = append(work, item{o.st, i})
				}
				st = nil
			}
			if st == nil {
				break
			}
		}
	}
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos().IsValid() {
		return in.Cond.Pos()
	}
	// position of an operand
	if v, ok := in.Cond.(ssa.Instruction); ok {
		for _, op := range v.Operands(nil) {
			if (*op) != nil && (*op).Pos().IsValid() {
				return (*op).Pos()
			}
		}
	}
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return token.NoPos
}

func (e *Engine) runDefers(st *State) []*State {
	states := []*State{st}
	var done []*State
	for len(states) > 0 {
		s := states[len(states)-1]
		states = states[:len(states)-1]
		fr := s.top()
		if len(fr.defers) == 0 {
			done = append(done, s)
			continue
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		for _, o := range e.call(s, d.in, d.in.Common(), d.fn, d.args, true) {
			states = append(states, o.st)
		}
	}
	return done
}

// edge moves st from b to succ.
func (e *Engine) edge(st *State, b, succ *ssa.BasicBlock, fi *funcInfo, add func(*ssa.BasicBlock, *State)) {
	fr := st.top()
	pi := -1
	for k, p := range succ.Preds {
		if p == b {
			pi = k
			// a block may be listed twice (if c {} with equal targets)
			break
		}
	}
	body, isHeader := fi.loopBody[succ]
	back := isHeader && body[b]
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range succ.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(st, ph.Edges[pi]))
	}
	if back {
		e.rule.On(e, st, &Event{kind: EvBack, in: b.Instrs[len(b.Instrs)-1], block: succ})
		// values may have been renamed by the rule
		for k, ph := range phis {
			vals[k] = e.val(st, ph.Edges[pi])
		}
		rec := fr.loops[succ]
		if rec.sat {
			for k, ph := range phis {
				if v := vals[k]; v != rec.phis[ph] && v != e.ts.True && v != e.ts.False && v.op != OpNil {
					vals[k] = nil
				}
			}
			for a, v := range st.mem {
				if rec.mem[a] == v || a.op == OpApp {
					continue
				}
				// only growing values need to be widened
				if _, had := rec.mem[a]; had && (v.op == OpConst && growing(v) || v.op == OpApp || v.op == OpSlice) {
					s := e.ts.mk(OpSym, "memphi:"+strconv.Itoa(a.id)+"@"+strconv.Itoa(succ.Index)+"."+strconv.Itoa(fr.ctx), a.typ)
					if v != s {
						e.forget(st, s.name)
						v = st.mem[a]
						st.mem[a] = s
						delete(st.facts, s)
						e.widenLabels(st, s, v)
						e.rule.On(e, st, &Event{kind: EvWiden, a: s, b: v, block: succ})
					}
				}
			}
		}
	} else if isHeader {
		fr.loops[succ] = loopRec{}
	}
	// leave loops
	for h := range fr.loops {
		if !fi.loopBody[h][succ] {
			delete(fr.loops, h)
		}
	}
	// widened phis
	for k, ph := range phis {
		if vals[k] == nil {
			inc := e.val(st, ph.Edges[pi])
			name := "phi:" + ph.Name() + "@" + strconv.Itoa(e.p.iid(ph)) + "." + strconv.Itoa(fr.ctx)
			// first rename old occurrences (other phi values may mention it)
			olds := st.occurs(name)
			for _, l := range olds {
				e.rule.On(e, st, &Event{kind: EvForget, a: l})
				old := e.ts.mk(OpOld, l.name, l.typ)
				nonneg := false
				if lo, _, hl, _ := e.bounds(st, l); hl && lo >= 0 {
					nonneg = true
				}
				st.rename(e.ts, l, old)
				st.esc[old] = true
				for j := range vals {
					if vals[j] != nil {
						vals[j] = e.ts.subst(vals[j], l, old)
					}
				}
				inc = e.ts.subst(inc, l, old)
				_ = nonneg
			}
			vals[k] = e.ts.mk(OpSym, name, ph.Type())
			e.widenLabels(st, vals[k], inc)
			e.rule.On(e, st, &Event{kind: EvWiden, a: vals[k], b: inc, block: succ})
			// counters that only grow stay non-negative
			if isIncr(ph) {
				e.upd(st, vals[k], func(f *Fact) { f.hasLo, f.lo = true, incrLo(ph) })
			}
		}
	}
	for k, ph := range phis {
		fr.env[ph] = vals[k]
	}
	// prune
	live := fi.liveIn[succ.Index]
	for v := range fr.env {
		if !live[v] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == succ {
				continue
			}
			delete(fr.env, v)
		}
	}
	if len(succ.Preds) > 1 {
		e.gc(st)
	}
	if isHeader {
		rec := fr.loops[succ]
		rec.phis = map[*ssa.Phi]*Term{}
		for k, ph := range phis {
			rec.phis[ph] = vals[k]
		}
		rec.mem = make(map[*Term]*Term, len(st.mem))
		for a, v := range st.mem {
			rec.mem[a] = v
		}
		fr.loops[succ] = rec
	}
	add(succ, st)
}

// growing says whether a constant may be one of unboundedly many.
func growing(c *Term) bool {
	if s, ok := c.str(); ok {
		return s != ""
	}
	_, ok := c.int()
	return ok
}

// isIncr says whether a phi is a counter that starts at a constant and is
// only incremented.
func isIncr(ph *ssa.Phi) bool {
	inc := false
	for _, ed := range ph.Edges {
		if c, ok := ed.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			continue
		}
		b, ok := ed.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || constant.Sign(c.Value) < 0 {
			return false
		}
		inc = true
	}
	return inc
}

func incrLo(ph *ssa.Phi) int64 {
	first := true
	var lo int64
	for _, ed := range ph.Edges {
		if c, ok := ed.(*ssa.Const); ok && c.Value != nil {
			n, _ := constant.Int64Val(c.Value)
			if first || n < lo {
				lo, first = n, false
			}
		}
	}
	return lo
}

func (e *Engine) liveAt(in ssa.Instruction) map[ssa.Value]bool {
	if l := e.liveAfter[in]; l != nil {
		return l
	}
	b := in.Block()
	fi := e.p.info(b.Parent())
	live := map[ssa.Value]bool{}
	for v := range fi.liveOut[b.Index] {
		live[v] = true
	}
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		x := b.Instrs[k]
		if x == in {
			break
		}
		if v, ok := x.(ssa.Value); ok {
			delete(live, v)
		}
		if _, ok := x.(*ssa.Phi); ok {
			continue
		}
		for _, op := range x.Operands(nil) {
			if *op != nil && trackable(*op) {
				live[*op] = true
			}
		}
	}
	e.liveAfter[in] = live
	return live
}

func one(st *State) []outcome { return []outcome{{st: st}} }

// step executes one non-terminator instruction.
func (e *Engine) step(st *State, in ssa.Instruction) []outcome {
	fr := st.top()
	set := func(v ssa.Value, t *Term) []outcome {
		fr.env[v] = t
		return one(st)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		t := e.fresh(st, OpAlloc, "obj", in, in.Type())
		if e.p.assignedOnce(in) {
			e.constCell[t] = true
		}
		return set(in, t)
	case *ssa.FieldAddr:
		return set(in, e.ts.mk(OpField, fieldKey(in.X.Type(), in.Field), in.Type(), e.val(st, in.X)))
	case *ssa.Field:
		x := e.val(st, in.X)
		if x.op == OpStruct && in.Field < len(x.args) {
			return set(in, x.args[in.Field])
		}
		return set(in, e.ts.mk(OpApp, "field:"+fieldKey(in.X.Type(), in.Field), in.Type(), x))
	case *ssa.IndexAddr:
		e.rule.On(e, st, &Event{kind: EvIndex, in: in, a: e.val(st, in.X), b: e.val(st, in.Index), typ: in.X.Type()})
		return set(in, e.ts.mk(OpIndex, "", in.Type(), e.val(st, in.X), e.val(st, in.Index)))
	case *ssa.Index:
		e.rule.On(e, st, &Event{kind: EvIndex, in: in, a: e.val(st, in.X), b: e.val(st, in.Index), typ: in.X.Type()})
		return set(in, e.index(in.Type(), e.val(st, in.X), e.val(st, in.Index)))
	case *ssa.Lookup:
		return e.lookup(st, in)
	case *ssa.UnOp:
		return e.unop(st, in)
	case *ssa.BinOp:
		return set(in, e.binop(st, in, in.Op, e.val(st, in.X), e.val(st, in.Y), in.X.Type()))
	case *ssa.Store:
		e.store(st, e.val(st, in.Addr), e.val(st, in.Val), in.Val.Type(), in, false)
		return one(st)
	case *ssa.MapUpdate:
		e.mapUpdate(st, in, e.val(st, in.Map), e.val(st, in.Key), e.val(st, in.Value))
		return one(st)
	case *ssa.MakeInterface:
		return set(in, e.val(st, in.X))
	case *ssa.ChangeInterface:
		return set(in, e.val(st, in.X))
	case *ssa.ChangeType:
		return set(in, e.val(st, in.X))
	case *ssa.Convert:
		return set(in, e.convert(in, e.val(st, in.X)))
	case *ssa.MultiConvert:
		return set(in, e.val(st, in.X))
	case *ssa.SliceToArrayPointer:
		return set(in, e.ts.mk(OpApp, "toarray", in.Type(), e.val(st, in.X)))
	case *ssa.TypeAssert:
		x := e.val(st, in.X)
		if in.CommaOk {
			okT := e.fresh(st, OpSym, "typeok", in, types.Typ[types.Bool], x)
			return set(in, e.ts.mk(OpTuple, "", nil, x, okT))
		}
		return set(in, x)
	case *ssa.Extract:
		x := e.val(st, in.Tuple)
		if x.op == OpTuple && in.Index < len(x.args) {
			return set(in, x.args[in.Index])
		}
		return set(in, e.ts.mk(OpApp, "extract"+strconv.Itoa(in.Index), in.Type(), x))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.val(st, b))
		}
		f := in.Fn.(*ssa.Function)
		t := e.ts.mk(OpClosure, f.String()+"~"+strconv.Itoa(int(f.Pos())), in.Type(), bs...)
		t.fn = f
		return set(in, t)
	case *ssa.MakeMap:
		t := e.fresh(st, OpAlloc, "map", in, in.Type())
		fr.env[in] = t
		st.mem[e.ts.mk(OpApp, "mapempty", nil, t)] = e.ts.True
		e.rule.On(e, st, &Event{kind: EvMakeMap, in: in, a: t})
		return one(st)
	case *ssa.MakeChan:
		t := e.fresh(st, OpAlloc, "chan", in, in.Type())
		fr.env[in] = t
		sz := e.val(st, in.Size)
		st.mem[e.ts.mk(OpApp, "chancap", nil, t)] = sz
		e.rule.On(e, st, &Event{kind: EvMakeChan, in: in, a: t, b: sz})
		return one(st)
	case *ssa.MakeSlice:
		l := e.val(st, in.Len)
		if n, ok := l.int(); ok && n == 0 {
			return set(in, e.ts.mk(OpSlice, "", in.Type()))
		}
		t := e.fresh(st, OpAlloc, "slice", in, in.Type())
		st.esc[t] = true
		st.mem[e.ts.mk(OpApp, "slicelen", nil, t)] = l
		return set(in, t)
	case *ssa.Slice:
		return set(in, e.slice(st, in))
	case *ssa.Range:
		return set(in, e.ts.mk(OpApp, "range", nil, e.val(st, in.X)))
	case *ssa.Next:
		return e.next(st, in)
	case *ssa.Send:
		ch, v := e.val(st, in.Chan), e.val(st, in.X)
		e.rule.On(e, st, &Event{kind: EvSend, in: in, a: ch, b: v, ok: true})
		e.escape(st, v)
		return one(st)
	case *ssa.Select:
		return e.selectStmt(st, in)
	case *ssa.Go:
		return e.spawn(st, in, in.Common())
	case *ssa.Defer:
		fn, args := e.callOperands(st, in.Common())
		fr.defers = append(fr.defers, deferred{in, fn, args})
		if len(fr.defers) > 12 {
			// defers in a loop: keep distinct ones only
			var l []deferred
			for _, d := range fr.defers {
				dup := false
				for _, o := range l {
					if o.in == d.in {
						dup = true
					}
				}
				if !dup {
					l = append(l, d)
				}
			}
			fr.defers = l
		}
		return one(st)
	case *ssa.Call:
		fn, args := e.callOperands(st, in.Common())
		live := e.liveAt(in)
		for v := range fr.env {
			if !live[v] || v == ssa.Value(in) {
				delete(fr.env, v)
			}
		}
		outs := e.call(st, in, in.Common(), fn, args, false)
		for _, o := range outs {
			if !o.panics && live[in] {
				o.st.top().env[in] = o.res
			}
		}
		return outs
	}
	panic(undecided{fmt.Sprintf("instruction %T", in)})
}

func (e *Engine) index(typ types.Type, x, i *Term) *Term {
	if s, ok := x.str(); ok {
		if n, ok := i.int(); ok && n >= 0 && int(n) < len(s) {
			return e.ts.Int(int64(s[n]))
		}
	}
	if x.op == OpSlice {
		if n, ok := i.int(); ok && n >= 0 && int(n) < len(x.args) {
			return x.args[n]
		}
	}
	return e.ts.mk(OpApp, "index", typ, x, i)
}

func (e *Engine) convert(in *ssa.Convert, x *Term) *Term {
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if intBits(tb) < intBits(fb) && !x.isConst() {
			// two values that differ can agree after a narrowing conversion
			return e.ts.mk(OpApp, "narrow:"+typeName(in.Type()), in.Type(), x)
		}
		return x
	}
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return x
	}
	if x.isConst() && ok2 && tb.Info()&types.IsString != 0 {
		if n, ok := x.int(); ok {
			return e.ts.Str(string(rune(n)))
		}
	}
	// string <-> []byte keep the contents
	return e.ts.mk(OpApp, "conv:"+typeName(in.Type()), in.Type(), x)
}

// intBits is the width of an integer type (on a 64-bit machine).
func intBits(b *types.Basic) int64 {
	return 8 * types.SizesFor("gc", "amd64").Sizeof(b)
}

func (e *Engine) binop(st *State, in ssa.Instruction, op token.Token, x, y *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return e.fold(st, e.eq(x, y))
	case token.NEQ:
		return e.not(e.fold(st, e.eq(x, y)))
	}
	if x.cval != nil && y.cval != nil {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return e.ts.Bool(constant.Compare(x.cval, op, y.cval))
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y.cval); ok && n < 512 {
				return e.ts.Const(constant.Shift(x.cval, op, uint(n)))
			}
		case token.QUO:
			if constant.Sign(y.cval) != 0 && x.cval.Kind() == constant.Int {
				return e.ts.Const(constant.BinaryOp(x.cval, token.QUO_ASSIGN, y.cval))
			}
		case token.REM:
			if constant.Sign(y.cval) != 0 {
				return e.ts.Const(constant.BinaryOp(x.cval, op, y.cval))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return e.ts.Const(constant.BinaryOp(x.cval, op, y.cval))
		}
	}
	switch op {
	case token.LSS:
		return e.lt(x, y)
	case token.GTR:
		return e.lt(y, x)
	case token.LEQ:
		return e.not(e.lt(y, x))
	case token.GEQ:
		return e.not(e.lt(x, y))
	}
	// small identities
	if n, ok := y.int(); ok && n == 0 && (op == token.ADD || op == token.SUB) {
		return x
	}
	// (a + c1) + c2
	if n, ok := y.int(); ok && (op == token.ADD || op == token.SUB) && x.isApp("+") {
		if m, ok := x.args[1].int(); ok {
			if op == token.SUB {
				n = -n
			}
			if m+n == 0 {
				return x.args[0]
			}
			return e.ts.mk(OpApp, "+", typ, x.args[0], e.ts.Int(m+n))
		}
	}
	if op == token.SUB {
		if n, ok := y.int(); ok {
			return e.ts.mk(OpApp, "+", typ, x, e.ts.Int(-n))
		}
		// len(a) - len(b) kept as is
	}
	if op == token.ADD && x.isConst() && !y.isConst() {
		if _, isStr := x.str(); !isStr {
			x, y = y, x
		}
	}
	name := op.String()
	if op == token.ADD {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			name = "concat"
			// flatten constants on the right: (a . "x") . "y"
			if s2, ok := y.str(); ok {
				if s2 == "" {
					return x
				}
				if x.isApp("concat") {
					if s1, ok := x.args[1].str(); ok {
						return e.ts.mk(OpApp, "concat", typ, x.args[0], e.ts.Str(s1+s2))
					}
				}
			}
		}
	}
	t := e.ts.mk(OpApp, name, typ, x, y)
	if t.depth > 14 {
		return e.fresh(st, OpSym, "deep", in, typ)
	}
	return t
}

// fold replaces a decided condition by its value.
func (e *Engine) fold(st *State, c *Term) *Term {
	if c.isApp("==") && c.args[0].isConst() && c.args[1].isConst() {
		return e.ts.Bool(c.args[0] == c.args[1])
	}
	return c
}

func (e *Engine) unop(st *State, in *ssa.UnOp) []outcome {
	fr := st.top()
	x := e.val(st, in.X)
	switch in.Op {
	case token.MUL:
		v := e.load(st, x, in.Type(), in)
		fr.env[in] = v
		e.rule.On(e, st, &Event{kind: EvLoad, in: in, a: x, b: v, typ: in.Type()})
		return one(st)
	case token.NOT:
		fr.env[in] = e.not(x)
	case token.ARROW:
		return e.recv(st, in, x, in.CommaOk, in.Type())
	case token.SUB:
		if x.cval != nil {
			fr.env[in] = e.ts.Const(constant.UnaryOp(token.SUB, x.cval, 0))
		} else {
			fr.env[in] = e.ts.mk(OpApp, "neg", in.Type(), x)
		}
	default:
		fr.env[in] = e.ts.mk(OpApp, "unop"+in.Op.String(), in.Type(), x)
	}
	return one(st)
}

func (e *Engine) recv(st *State, in *ssa.UnOp, ch *Term, commaOk bool, typ types.Type) []outcome {
	if !commaOk {
		v := e.fresh(st, OpSym, "recv", in, typ, ch)
		st.top().env[in] = v
		e.doneRecv(st, ch)
		e.rule.On(e, st, &Event{kind: EvRecv, in: in, a: ch, b: v, ok: true})
		return one(st)
	}
	et := typ.(*types.Tuple).At(0).Type()
	s2 := st.clone()
	v := e.fresh(st, OpSym, "recv", in, et, ch)
	st.top().env[in] = e.ts.mk(OpTuple, "", nil, v, e.ts.True)
	st.note(in.Pos(), "received "+ch.show(3))
	e.rule.On(e, st, &Event{kind: EvRecv, in: in, a: ch, b: v, ok: true, c: e.ts.True})
	s2.top().env[in] = e.ts.mk(OpTuple, "", nil, e.zero(et), e.ts.False)
	s2.note(in.Pos(), "closed "+ch.show(3))
	e.rule.On(e, s2, &Event{kind: EvRecv, in: in, a: ch, b: e.zero(et), ok: false, c: e.ts.False})
	return []outcome{{st: st}, {st: s2}}
}

// doneRecv notes that a context has ended.
func (e *Engine) doneRecv(st *State, ch *Term) {
	if ch.isCall("(context.Context).Done") && len(ch.args) > 0 {
		e.upd(st, e.ts.mk(OpApp, "ctxdone", nil, ch.args[0]), func(f *Fact) { f.truth = Yes })
	}
}

func (e *Engine) selectStmt(st *State, in *ssa.Select) []outcome {
	var outs []outcome
	tup := in.Type().(*types.Tuple)
	if in.Blocking {
		e.rule.On(e, st, &Event{kind: EvSelect, in: in})
	} else {
		e.rule.On(e, st, &Event{kind: EvPoll, in: in})
	}
	emit := func(s *State, idx int) {
		l := []*Term{e.ts.Int(int64(idx)), e.ts.True}
		r := 0
		for k, sst := range in.States {
			if sst.Dir == types.RecvOnly {
				et := tup.At(2 + r).Type()
				if k == idx {
					ch := e.val(s, sst.Chan)
					v := e.fresh(s, OpSym, "recv"+strconv.Itoa(k), in, et, ch)
					l = append(l, v)
					e.doneRecv(s, ch)
					e.rule.On(e, s, &Event{kind: EvRecv, in: in, a: ch, b: v, ok: true, slot: "select"})
				} else {
					l = append(l, e.zero(et))
				}
				r++
			} else if k == idx {
				e.rule.On(e, s, &Event{kind: EvSend, in: in, a: e.val(s, sst.Chan), b: e.val(s, sst.Send), ok: true, slot: "select"})
			}
		}
		s.top().env[in] = e.ts.mk(OpTuple, "", nil, l...)
		outs = append(outs, outcome{st: s})
	}
	n := len(in.States)
	for k := 0; k < n; k++ {
		if e.nilness(st, e.val(st, in.States[k].Chan)) == Yes {
			continue // a nil channel is never ready
		}
		s := st.clone()
		s.note(in.Pos(), "select case "+e.val(s, in.States[k].Chan).show(3))
		emit(s, k)
	}
	if !in.Blocking {
		s := st.clone()
		s.note(in.Pos(), "select default")
		emit(s, -1)
	}
	return outs
}

func (e *Engine) findMap(st *State, m, k *Term) int {
	for i, x := range st.maps {
		if x.m == m && x.k == k {
			return i
		}
	}
	return -1
}

func (e *Engine) lookup(st *State, in *ssa.Lookup) []outcome {
	fr := st.top()
	m, k := e.val(st, in.X), e.val(st, in.Index)
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	if !isMap {
		e.rule.On(e, st, &Event{kind: EvIndex, in: in, a: m, b: k, typ: in.X.Type()})
		fr.env[in] = e.index(in.Type(), m, k)
		return one(st)
	}
	et := mt.Elem()
	give := func(s *State, v *Term, ok Tri, okT *Term) {
		if in.CommaOk {
			o := okT
			if ok == Yes {
				o = e.ts.True
			} else if ok == No {
				o = e.ts.False
			}
			s.top().env[in] = e.ts.mk(OpTuple, "", nil, v, o)
		} else {
			s.top().env[in] = v
		}
		e.rule.On(e, s, &Event{kind: EvMapLookup, in: in, a: m, b: k, c: v})
	}
	i := e.findMap(st, m, k)
	if i < 0 && !hasOld(k) {
		// absent from a fresh map?
		if m.op == OpNil || (m.op == OpAlloc && !st.esc[m]) {
			absent := true
			for _, x := range st.maps {
				if x.m == m && !(x.k.isConst() && k.isConst()) {
					absent = false
				}
			}
			if absent {
				give(st, e.zero(et), No, nil)
				return one(st)
			}
		}
	}
	if i >= 0 {
		x := st.maps[i]
		if x.ok == No {
			give(st, e.zero(et), No, nil)
			return one(st)
		}
		if x.ok == Yes && x.val != nil {
			give(st, x.val, Yes, nil)
			return one(st)
		}
		if x.val != nil && !in.CommaOk {
			give(st, x.val, x.ok, nil)
			return one(st)
		}
	}
	var v *Term
	if i >= 0 && st.maps[i].val != nil {
		v = st.maps[i].val
	} else {
		v = e.fresh(st, OpSym, "mapval", in, et, m, k)
		// fresh may have renamed k or m
		m, k = e.val(st, in.X), e.val(st, in.Index)
	}
	setEnt := func(s *State, ok Tri, val *Term) {
		j := e.findMap(s, m, k)
		ent := mapEnt{m: m, k: k, val: val, ok: ok}
		if j >= 0 {
			s.maps[j] = ent
		} else {
			s.maps = append(s.maps, ent)
		}
	}
	if i >= 0 && st.maps[i].ok == Yes {
		setEnt(st, Yes, v)
		give(st, v, Yes, nil)
		return one(st)
	}
	if !in.CommaOk {
		setEnt(st, Unknown, v)
		give(st, v, Unknown, nil)
		return one(st)
	}
	s2 := st.clone()
	setEnt(st, Yes, v)
	st.note(in.Pos(), "present in map "+m.show(3))
	give(st, v, Yes, nil)
	setEnt(s2, No, nil)
	s2.note(in.Pos(), "absent from map "+m.show(3))
	give(s2, e.zero(et), No, nil)
	return []outcome{{st: st}, {st: s2}}
}

func (e *Engine) mapMayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OpAlloc || b.op == OpAlloc {
		if a.op == OpAlloc && b.op == OpAlloc {
			return false
		}
		if a.op == OpAlloc && !st.esc[a] || b.op == OpAlloc && !st.esc[b] {
			return false
		}
	}
	fa, fb := fieldOf(a), fieldOf(b)
	if fa != "" && fb != "" && fa != fb {
		return false
	}
	if a.typ != nil && b.typ != nil && !types.Identical(a.typ, b.typ) {
		return false
	}
	return true
}

// fieldOf is the field a value was loaded from.
func fieldOf(t *Term) string {
	if t.op == OpLoad && t.args[0].op == OpField {
		return t.args[0].name
	}
	if t.op == OpSym && t.symKind() == "load" && len(t.args) == 1 && t.args[0].op == OpField {
		return t.args[0].name
	}
	return ""
}

// killLen makes known lengths of a map old.
func (e *Engine) killLen(st *State, m *Term) {
	var l []*Term
	seen := map[*Term]bool{}
	st.eachTerm(func(t *Term) {
		t.any(func(x *Term) bool {
			if x.isApp("maplen") && len(x.args) == 1 && !seen[x] && e.mapMayAlias(st, x.args[0], m) {
				seen[x] = true
				l = append(l, x)
			}
			return false
		})
	})
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, x := range l {
		st.rename(e.ts, x, e.ts.mk(OpOld, "maplen:"+strconv.Itoa(x.id), x.typ))
	}
}

func (e *Engine) killMap(st *State, m, k *Term) {
	e.killLen(st, m)
	j := 0
	for _, x := range st.maps {
		keep := true
		if e.mapMayAlias(st, x.m, m) {
			if x.m == m && x.k.isConst() && k.isConst() && x.k != k {
				keep = true
			} else {
				keep = false
				if x.m.op == OpAlloc && x.k != k {
					st.esc[x.m] = true
				}
			}
		}
		if keep {
			st.maps[j] = x
			j++
		}
	}
	st.maps = st.maps[:j]
}

func (e *Engine) mapUpdate(st *State, in ssa.Instruction, m, k, v *Term) {
	e.rule.On(e, st, &Event{kind: EvMapUpdate, in: in, a: m, b: k, c: v})
	// what was present stays present, whatever its value is now
	var present []mapEnt
	for _, x := range st.maps {
		if x.ok == Yes && x.k != k && e.mapMayAlias(st, x.m, m) && !(x.m.op == OpAlloc && !st.esc[x.m]) {
			present = append(present, mapEnt{m: x.m, k: x.k, ok: Yes})
		}
	}
	e.killMap(st, m, k)
	for _, x := range present {
		if e.findMap(st, x.m, x.k) < 0 {
			st.maps = append(st.maps, x)
		}
	}
	for _, x := range m.leafs {
		delete(st.mem, e.ts.mk(OpApp, "mapempty", nil, x))
	}
	st.maps = append(st.maps, mapEnt{m: m, k: k, val: v, ok: Yes})
	e.upd(st, e.ts.mk(OpApp, "maplen", types.Typ[types.Int], m), func(f *Fact) { f.hasLo, f.lo = true, 1 })
	if m.op != OpAlloc || st.esc[m] {
		e.escape(st, v)
	}
}

func (e *Engine) mapDelete(st *State, in ssa.Instruction, m, k *Term) {
	e.rule.On(e, st, &Event{kind: EvMapDelete, in: in, a: m, b: k})
	e.killMap(st, m, k)
	st.maps = append(st.maps, mapEnt{m: m, k: k, ok: No})
}

func (e *Engine) next(st *State, in *ssa.Next) []outcome {
	it := e.val(st, in.Iter)
	coll := it
	if it.isApp("range") {
		coll = it.args[0]
	}
	tup := in.Type().(*types.Tuple)
	s2 := st.clone()
	if !in.IsString && coll.op == OpAlloc && !st.esc[coll] {
		if st.mem[e.ts.mk(OpApp, "mapempty", nil, coll)] != nil {
			st = nil
		}
	}
	var outs []outcome
	if st != nil {
		k := e.fresh(st, OpSym, "iterkey", in, tup.At(1).Type(), coll)
		v := e.fresh(st, OpSym, "iterval", in, tup.At(2).Type(), coll, k)
		st.top().env[in] = e.ts.mk(OpTuple, "", nil, e.ts.True, k, v)
		st.note(in.Pos(), "next element of "+coll.show(3))
		if !in.IsString {
			st.maps = append(st.maps, mapEnt{m: coll, k: k, val: v, ok: Yes})
		}
		e.rule.On(e, st, &Event{kind: EvIter, in: in, a: coll, b: k, c: v})
		outs = append(outs, outcome{st: st})
	}
	s2.top().env[in] = e.ts.mk(OpTuple, "", nil, e.ts.False, e.zeroOrNil(tup.At(1).Type()), e.zeroOrNil(tup.At(2).Type()))
	s2.note(in.Pos(), "no more elements in "+coll.show(3))
	e.rule.On(e, s2, &Event{kind: EvIterEnd, in: in, a: coll})
	outs = append(outs, outcome{st: s2})
	if fi := e.p.info(in.Parent()); true {
		// the iteration test is never decided by constants
		for _, o := range outs {
			for _, h := range fi.loopOf[in.Block()] {
				rec := o.st.top().loops[h]
				if rec.undec <= e.undecK {
					rec.undec++
				}
				if rec.undec > e.undecK {
					rec.sat = true
				}
				o.st.top().loops[h] = rec
				_ = h
			}
		}
	}
	return outs
}

func (e *Engine) zeroOrNil(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.ts.Nil
	}
	return e.zero(t)
}

func (e *Engine) slice(st *State, in *ssa.Slice) *Term {
	x := e.val(st, in.X)
	var lo, hi *Term
	lo = e.ts.Int(0)
	if in.Low != nil {
		lo = e.val(st, in.Low)
	}
	if in.High != nil {
		hi = e.val(st, in.High)
	}
	e.rule.On(e, st, &Event{kind: EvIndex, in: in, a: x, b: lo, c: hi, typ: in.X.Type(), slot: "slice"})
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		arr, ok := pt.Elem().Underlying().(*types.Array)
		if ok {
			if w := st.mem[x]; w != nil {
				return e.sliceTerm(in.Type(), w, lo, hi)
			}
			if x.op == OpAlloc && arr.Len() <= 64 {
				var l []*Term
				for i := int64(0); i < arr.Len(); i++ {
					ia := e.ts.mk(OpIndex, "", nil, x, e.ts.Int(i))
					l = append(l, e.load(st, ia, arr.Elem(), in))
				}
				x = e.ts.mk(OpSlice, "", in.Type(), l...)
			}
		}
	}
	return e.sliceTerm(in.Type(), x, lo, hi)
}

func (e *Engine) sliceTerm(typ types.Type, x, lo, hi *Term) *Term {
	l, lok := lo.int()
	if lok && l == 0 && hi == nil {
		if x.op != OpApp || !strings.HasPrefix(x.name, "zero:") {
			return x
		}
	}
	if x.op == OpSlice && lok {
		h := int64(len(x.args))
		hok := true
		if hi != nil {
			h, hok = hi.int()
		}
		if hok && l >= 0 && l <= h && h <= int64(len(x.args)) {
			return e.ts.mk(OpSlice, "", typ, x.args[l:h]...)
		}
	}
	if s, ok := x.str(); ok && lok {
		h := int64(len(s))
		hok := true
		if hi != nil {
			h, hok = hi.int()
		}
		if hok && l >= 0 && l <= h && h <= int64(len(s)) {
			return e.ts.Str(s[l:h])
		}
	}
	if hi == nil {
		hi = e.ts.Nil
	}
	t := e.ts.mk(OpApp, "slice", typ, x, lo, hi)
	return t
}

// widenLabels: the new value has the labels of the one it stands for.
func (e *Engine) widenLabels(st *State, s, v *Term) {
	if e.intrinsic == nil {
		return
	}
	if l := e.labels(st, v); l != "" {
		e.upd(st, s, func(f *Fact) { f.labels = l })
	}
}
