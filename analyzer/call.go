package main

import (
	"go/constant"
	"go/types"
	"net/url"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callOperands evaluates the operands of a call, go or defer instruction.
// For an interface method call, the receiver is the first argument.
func (e *Engine) callOperands(st *State, com *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if com.IsInvoke() {
		fn := e.ts.mk(OpFunc, "invoke:"+com.Method.FullName(), nil)
		args = append(args, e.val(st, com.Value))
		for _, a := range com.Args {
			args = append(args, e.val(st, a))
		}
		return fn, args
	}
	for _, a := range com.Args {
		args = append(args, e.val(st, a))
	}
	return e.val(st, com.Value), args
}

// concrete finds the method that an interface call leads to.
func (e *Engine) concrete(recv *Term, m *types.Func) *ssa.Function {
	if recv.typ == nil || types.IsInterface(recv.typ) {
		return nil
	}
	ms := e.p.prog.MethodSets.MethodSet(recv.typ)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := e.p.prog.MethodValue(sel)
	if f == nil || !e.p.inRepo(f) || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

const keyRecovered = "\x00recovered"

// call analyses a call from st; deferred calls have no result.
func (e *Engine) call(st *State, in ssa.Instruction, com *ssa.CallCommon, fn *Term, args []*Term, defr bool) []outcome {
	c := &Call{args: args, in: in, com: com, defr: defr, clos: fn, ctx: st.top().ctx}
	var free []*Term
	if fn != nil {
		switch {
		case strings.HasPrefix(fn.name, "builtin ") && fn.op == OpFunc:
			return e.builtin(st, in, com, fn.name[len("builtin "):], args)
		case strings.HasPrefix(fn.name, "invoke:") && fn.op == OpFunc:
			c.name = fn.name[len("invoke:"):]
			if f := e.concrete(args[0], com.Method); f != nil {
				c.fn = f
				c.name = funcName(f)
			}
		case fn.op == OpFunc || fn.op == OpClosure:
			c.fn = fn.fn
			c.name = funcName(fn.fn)
			free = fn.args
			if c.fn != nil && c.fn.Origin() != nil {
				c.name = funcName(c.fn.Origin())
			}
		}
	}
	e.callsSeen[in] = true
	sig := com.Signature()
	rt := sig.Results()

	act := e.rule.Call(e, st, c)
	switch act {
	case ActCut:
		return nil
	case ActNil:
		res := e.results(rt, func(i int, t types.Type) *Term { return e.zero(t) })
		e.rule.After(e, st, c, res)
		return []outcome{{st: st, res: res}}
	case ActPure:
		return e.pure(st, c, rt)
	case ActOpaque:
		return e.opaque(st, c, rt)
	case ActHavoc:
		for _, a := range append([]*Term(nil), c.args...) {
			e.havocArg(st, a)
		}
		for _, a := range free {
			e.havocArg(st, a)
		}
		e.havocAll(st)
		return e.opaque(st, c, rt)
	}

	if c.fn != nil && e.p.inRepo(c.fn) && len(c.fn.Blocks) > 0 {
		rec := 0
		for _, f := range st.frames {
			if f.fn == c.fn {
				rec++
			}
		}
		if rec < 2 {
			base := len(st.frames)
			outs := e.runFunc(st, c.fn, c.args, free, in, false)
			for i, o := range outs {
				if o.panics && o.st.mon.flag(keyRecovered) {
					delete(o.st.mon, keyRecovered)
					outs[i].panics = false
					outs[i].res = e.results(rt, func(i int, t types.Type) *Term { return e.zero(t) })
				}
				if len(o.st.frames) != base {
					panic(undecided{"frame mismatch in " + c.name})
				}
				if !outs[i].panics {
					c.inlined = true
					e.rule.After(e, o.st, c, outs[i].res)
				}
			}
			return outs
		}
		// recursion: results and effects unknown
		e.havocAll(st)
		return e.opaque(st, c, rt)
	}
	return e.library(st, c, rt)
}

// results builds the result term of a call from its components.
func (e *Engine) results(rt *types.Tuple, f func(i int, t types.Type) *Term) *Term {
	switch rt.Len() {
	case 0:
		return e.ts.Nil
	case 1:
		return f(0, rt.At(0).Type())
	}
	var l []*Term
	for i := 0; i < rt.Len(); i++ {
		l = append(l, f(i, rt.At(i).Type()))
	}
	return e.ts.mk(OpTuple, "", nil, l...)
}

// resultUsed says whether result i of the call is used.
func resultUsed(in ssa.Instruction, rt *types.Tuple, i int) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return false // go, defer
	}
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	if rt.Len() == 1 {
		return len(*refs) > 0
	}
	for _, r := range *refs {
		x, ok := r.(*ssa.Extract)
		if !ok {
			return true
		}
		if x.Index == i && x.Referrers() != nil && len(*x.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// pure: the results are functions of the arguments.
func (e *Engine) pure(st *State, c *Call, rt *types.Tuple) []outcome {
	mk := func(i int, t types.Type) *Term {
		n := c.name
		if i > 0 {
			n += "#" + strconv.Itoa(i)
		}
		x := e.ts.mk(OpApp, n, t, c.args...)
		if x.depth > 14 {
			x = e.fresh(st, OpSym, n, c.in, t)
		}
		return x
	}
	return e.split(st, c, rt, mk, false)
}

// opaque: the results are unknown.
func (e *Engine) opaque(st *State, c *Call, rt *types.Tuple) []outcome {
	// renaming must precede building any of the results
	n := rt.Len()
	for i := 0; i < n; i++ {
		e.forget(st, e.symName(st, c, i))
	}
	args := c.args
	for i, a := range args {
		// arguments may mention renamed symbols; use what the frame has now
		if na := e.reval(st, c, i); na != nil {
			args[i] = na
			a = na
		}
		if a.depth > 13 {
			args = nil
			break
		}
	}
	mk := func(i int, t types.Type) *Term {
		return e.ts.mk(OpSym, e.symName(st, c, i), t, args...)
	}
	return e.split(st, c, rt, mk, true)
}

func (e *Engine) symName(st *State, c *Call, i int) string {
	return c.name + "#" + strconv.Itoa(i) + "@" + strconv.Itoa(e.p.iid(c.in)) + "." + strconv.Itoa(st.top().ctx)
}

// reval evaluates an operand of a call again.
func (e *Engine) reval(st *State, c *Call, i int) *Term {
	if c.defr || c.com == nil {
		return nil
	}
	ops := c.com.Args
	if c.com.IsInvoke() {
		if i == 0 {
			return e.revalue(st, c.com.Value)
		}
		i--
	}
	if i < len(ops) {
		return e.revalue(st, ops[i])
	}
	return nil
}

func (e *Engine) revalue(st *State, v ssa.Value) *Term {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return e.val(st, v)
	}
	return st.top().env[v]
}

// split makes one outcome without and one with an error, if the call
// returns an error and the caller looks at it.
func (e *Engine) split(st *State, c *Call, rt *types.Tuple, mk func(int, types.Type) *Term, opq bool) []outcome {
	n := rt.Len()
	ei := -1
	if n > 0 && isError(rt.At(n-1).Type()) {
		ei = n - 1
	}
	if ei < 0 || e.noEager || !resultUsed(c.in, rt, ei) {
		res := e.results(rt, mk)
		e.rule.After(e, st, c, res)
		return []outcome{{st: st, res: res}}
	}
	// by convention, either the error or the other results are nil; functions
	// of this repository need not follow it
	errT := mk(ei, rt.At(ei).Type())
	known := e.nilness(st, errT)
	var outs []outcome
	if known != No {
		s := st
		if known == Unknown {
			s = st.clone()
		}
		res := e.results(rt, func(i int, t types.Type) *Term {
			if i == ei {
				return e.ts.Nil
			}
			x := mk(i, t)
			if nillable(t) && e.p.convention(c.fn, i).success && e.nilness(s, x) == Unknown {
				e.upd(s, x, func(f *Fact) { f.isNil = No })
			}
			return x
		})
		s.note(c.pos(), "succeeds: "+shortName(c.name))
		e.rule.After(e, s, c, res)
		outs = append(outs, outcome{st: s, res: res})
	}
	if known != Yes {
		res := e.results(rt, func(i int, t types.Type) *Term {
			if i == ei {
				return errT
			}
			if nillable(t) && e.p.convention(c.fn, i).failure {
				return e.zero(t)
			}
			return mk(i, t)
		})
		e.upd(st, errT, func(f *Fact) { f.isNil = No })
		st.note(c.pos(), "fails: "+shortName(c.name))
		e.rule.After(e, st, c, res)
		outs = append(outs, outcome{st: st, res: res})
	}
	return outs
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, modulePath+"/", "")
	n = strings.ReplaceAll(n, "github.com/", "")
	return n
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (e *Engine) havocAll(st *State) {
	for a := range st.mem {
		if a.op == OpApp || e.constCell[a] {
			continue
		}
		r := root(a)
		if r.op == OpAlloc && !st.esc[r] {
			continue
		}
		if a.op == OpField && !e.p.mutField[a.name] {
			continue
		}
		delete(st.mem, a)
	}
	for a := range st.mem {
		if a.isApp("mapempty") && st.esc[root(a.args[0])] {
			delete(st.mem, a)
		}
	}
	j := 0
	for _, m := range st.maps {
		if m.m.op == OpAlloc && !st.esc[m.m] {
			st.maps[j] = m
			j++
		}
	}
	st.maps = st.maps[:j]
}

// havocArg forgets what an argument points to.
func (e *Engine) havocArg(st *State, a *Term) {
	if a.op == OpConst || a.op == OpNil || a.op == OpFunc {
		return
	}
	e.escape(st, a)
	for k := range st.mem {
		if k == a || (k.op != OpApp && root(k) == root(a)) {
			delete(st.mem, k)
		}
	}
	if r := root(a); r.op == OpAlloc {
		st.esc[r] = true
	}
	e.killMapObj(st, a)
}

func (e *Engine) killMapObj(st *State, m *Term) {
	delete(st.mem, e.ts.mk(OpApp, "mapempty", nil, m))
	if m.typ != nil {
		if _, ok := m.typ.Underlying().(*types.Map); ok {
			e.killLen(st, m)
		}
	}
	j := 0
	for _, x := range st.maps {
		if x.m != m {
			st.maps[j] = x
			j++
		}
	}
	st.maps = st.maps[:j]
}

// ---- builtins

func (e *Engine) builtin(st *State, in ssa.Instruction, com *ssa.CallCommon, name string, args []*Term) []outcome {
	ret := func(t *Term) []outcome { return []outcome{{st: st, res: t}} }
	typ := types.Type(types.Typ[types.Int])
	if v, ok := in.(ssa.Value); ok {
		typ = v.Type()
	}
	switch name {
	case "append":
		x, y := args[0], e.ts.Nil
		if len(args) > 1 {
			y = args[1]
		}
		var r *Term
		if y.op == OpNil || (y.op == OpSlice && len(y.args) == 0) {
			return ret(x)
		}
		if (x.op == OpNil || x.op == OpSlice) && y.op == OpSlice && len(x.args)+len(y.args) <= 24 {
			r = e.ts.mk(OpSlice, "", typ, append(append([]*Term(nil), x.args...), y.args...)...)
		} else {
			e.escape(st, y)
			e.escape(st, x)
			r = e.ts.mk(OpApp, "append", typ, x, y)
			if r.depth > 12 {
				all := ""
				if e.intrinsic != nil {
					all = e.labels(st, r)
				}
				r = e.fresh(st, OpSym, "append", in, typ)
				e.upd(st, r, func(f *Fact) { f.isNil, f.labels = No, all })
			}
		}
		e.rule.On(e, st, &Event{kind: EvAppend, in: in, a: x, b: y, c: r, typ: typ})
		return ret(r)
	case "len", "cap":
		if _, isChan := com.Args[0].Type().Underlying().(*types.Chan); isChan {
			if name == "len" {
				return ret(e.fresh(st, OpSym, "chanlen", in, typ, args[0]))
			}
			if v := st.mem[e.ts.mk(OpApp, "chancap", nil, args[0])]; v != nil {
				return ret(v)
			}
			return ret(e.ts.mk(OpApp, "cap", typ, args[0]))
		}
		if name == "cap" {
			return ret(e.fresh(st, OpSym, "cap", in, typ, args[0]))
		}
		if _, isMap := com.Args[0].Type().Underlying().(*types.Map); isMap {
			e.rule.On(e, st, &Event{kind: EvMapLen, in: in, a: args[0]})
		}
		return ret(e.length(st, args[0], com.Args[0].Type()))
	case "copy":
		e.havocArg(st, args[0])
		return ret(e.fresh(st, OpSym, "copy", in, typ))
	case "delete":
		e.mapDelete(st, in, args[0], args[1])
		return ret(e.ts.Nil)
	case "clear":
		e.rule.On(e, st, &Event{kind: EvMapDelete, in: in, a: args[0], b: e.ts.mk(OpSym, "anykey", nil)})
		e.killLen(st, args[0])
		e.killMapObj(st, args[0])
		return ret(e.ts.Nil)
	case "close":
		st.note(in.Pos(), "close "+args[0].show(3))
		e.rule.On(e, st, &Event{kind: EvClose, in: in, a: args[0]})
		return ret(e.ts.Nil)
	case "recover":
		st.mon[keyRecovered] = []*Term{e.ts.True}
		return ret(e.fresh(st, OpSym, "recover", in, typ))
	case "min", "max":
		return ret(e.ts.mk(OpApp, name, typ, args...))
	case "ssa:wrapnilchk":
		return ret(args[0])
	}
	return ret(e.fresh(st, OpSym, name, in, typ))
}

func (e *Engine) length(st *State, x *Term, typ types.Type) *Term {
	if s, ok := x.str(); ok {
		return e.ts.Int(int64(len(s)))
	}
	switch x.op {
	case OpNil:
		return e.ts.Int(0)
	case OpSlice:
		return e.ts.Int(int64(len(x.args)))
	case OpAlloc:
		if l := st.mem[e.ts.mk(OpApp, "slicelen", nil, x)]; l != nil {
			return l
		}
		if !st.esc[x] {
			if st.mem[e.ts.mk(OpApp, "mapempty", nil, x)] != nil {
				return e.ts.Int(0)
			}
		}
	}
	if eq := e.eqOf(st, x); eq != nil && eq != x {
		if s, ok := eq.str(); ok {
			return e.ts.Int(int64(len(s)))
		}
	}
	if f, ok := st.facts[x]; ok && f.isNil == Yes {
		return e.ts.Int(0)
	}
	// the length of shared, changing objects is not a function of the object
	if _, isMap := typ.Underlying().(*types.Map); isMap {
		return e.ts.mk(OpApp, "maplen", types.Typ[types.Int], x)
	}
	return e.ts.mk(OpApp, "len", types.Typ[types.Int], x)
}

// ---- goroutines

const (
	wellGo     = "github.com/cybozu-go/well.Go"
	wellStop   = "github.com/cybozu-go/well.Stop"
	wellWait   = "github.com/cybozu-go/well.Wait"
	wellCancel = "github.com/cybozu-go/well.Cancel"
	envNew     = "github.com/cybozu-go/well.NewEnvironment"
	envGo      = "(*github.com/cybozu-go/well.Environment).Go"
	envStop    = "(*github.com/cybozu-go/well.Environment).Stop"
	envWait    = "(*github.com/cybozu-go/well.Environment).Wait"
	envCancel  = "(*github.com/cybozu-go/well.Environment).Cancel"
)

// spawn analyses a go statement.
func (e *Engine) spawn(st *State, in ssa.Instruction, com *ssa.CallCommon) []outcome {
	fn, args := e.callOperands(st, com)
	e.goroutine(st, in, com, fn, args, "go", nil)
	return one(st)
}

// goroutine runs the body of a goroutine on a copy of the state and returns
// whether it always returns nil.
func (e *Engine) goroutine(st *State, in ssa.Instruction, com *ssa.CallCommon, fn *Term, args []*Term, slot string, env *Term) bool {
	e.rule.On(e, st, &Event{kind: EvSpawn, in: in, a: fn, b: env, slot: slot, res: args})
	st.note(in.Pos(), "starts a goroutine")
	if fn != nil {
		e.escape(st, fn)
	}
	for _, a := range args {
		e.escape(st, a)
	}
	site := e.p.iid(in)
	if e.spawnRoots != nil && fn != nil && fn.fn != nil {
		e.spawnRoots[fn.fn] = true
		return false
	}
	if e.noSpawn {
		return false
	}
	if e.follow != nil && fn != nil && fn.fn != nil && !e.follow(fn.fn) {
		return returnsNil(fn.fn)
	}
	for _, x := range st.chain {
		if x == site { // the same goroutine further out is analysed already
			return true
		}
	}
	s := st.clone()
	s.chain = append(append([]int(nil), st.chain...), site)
	// the goroutine starts with nothing but what it captured
	base := &Frame{fn: in.Parent(), ctx: e.ctx(0, site), env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]loopRec{}, goro: true}
	s.frames = []*Frame{base}
	s.locks = nil
	e.havoc(s)
	s.mon["\x00keep"] = append([]*Term{}, args...)
	if fn != nil {
		s.mon["\x00keep"] = append(s.mon["\x00keep"], fn)
	}
	e.rule.On(e, s, &Event{kind: EvSpawnEnter, in: in, a: fn, b: env, slot: slot, res: args})
	// of what is known, keep only what concerns the captured values
	caps := map[*Term]bool{}
	for _, t := range s.mon["\x00keep"] {
		caps[t] = true
		for _, a := range t.args {
			caps[a] = true
			if v := s.mem[a]; v != nil {
				caps[v] = true
			}
		}
	}
	for t := range s.facts {
		if !caps[t] && (e.keepFact == nil || !e.keepFact(t)) {
			delete(s.facts, t)
		}
	}
	e.gc(s)
	delete(s.mon, "\x00keep")
	key := strconv.Itoa(e.p.iid(in)) + ":" + s.key()
	if fn != nil {
		key += "f" + strconv.Itoa(fn.id)
	}
	if r, ok := e.spawnMemo[key]; ok {
		return r
	}
	e.spawnMemo[key] = true
	allNil := true
	if slot == "go" {
		for _, o := range e.call(s, in, com, fn, args, true) {
			e.rule.On(e, o.st, &Event{kind: EvSpawnExit, in: in, a: fn, slot: slot, panics: o.panics})
		}
		return true
	}
	var body *ssa.Function
	var free []*Term
	if fn != nil {
		body, free = fn.fn, fn.args
	}
	if body == nil || len(body.Blocks) == 0 {
		e.spawnMemo[key] = false
		return false
	}
	for _, o := range e.runFunc(s, body, args, free, in, true) {
		if !o.panics && e.nilness(o.st, o.res) != Yes {
			allNil = false
		}
		e.rule.On(e, o.st, &Event{kind: EvSpawnExit, in: in, a: fn, b: o.res, slot: slot, panics: o.panics})
	}
	e.spawnMemo[key] = allNil
	return allNil
}

// returnsNil says whether a function returns nothing but nil.
func returnsNil(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				for _, x := range r.Results {
					if k, ok := x.(*ssa.Const); !ok || !k.IsNil() {
						return false
					}
				}
			}
		}
	}
	return len(f.Blocks) > 0
}

// writesCaptured says whether a closure assigns variables it captured.
func writesCaptured(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				a := in.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					break
				}
				if _, ok := a.(*ssa.FreeVar); ok {
					return true
				}
			case *ssa.MapUpdate:
				if u, ok := in.Map.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.FreeVar); ok {
						return true
					}
				}
			case *ssa.MakeClosure:
				for _, bd := range in.Bindings {
					if _, ok := bd.(*ssa.FreeVar); ok && writesCaptured(in.Fn.(*ssa.Function)) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (e *Engine) envKey(env *Term) *Term  { return e.ts.mk(OpApp, "envpend", nil, env) }
func (e *Engine) stopKey(env *Term) *Term { return e.ts.mk(OpApp, "envstop", nil, env) }

func (e *Engine) pendErr(st *State, env, err *Term) {
	if e.nilness(st, err) == Yes {
		return
	}
	k := e.envKey(env)
	if e.nilness(st, err) == No {
		// which error it is does not matter
		st.mem[k] = e.ts.mk(OpApp, "allnil", errType, e.ts.mk(OpApp, "errors.New", errType, e.ts.Str("a goroutine failed")))
		return
	}
	old := st.mem[k]
	if old != nil && e.nilness(st, old) == No {
		return
	}
	var l []*Term
	if old != nil {
		l = append(l, old.args...)
	}
	for _, x := range l {
		if x == err {
			return
		}
	}
	l = append(l, err)
	if len(l) > 8 {
		l = l[len(l)-8:]
	}
	st.mem[k] = e.ts.mk(OpApp, "allnil", errType, l...)
}

// envGoCall models well.Go and Environment.Go.
func (e *Engine) envGoCall(st *State, c *Call, env, clos *Term) []outcome {
	if st.mem[e.stopKey(env)] != nil {
		e.rule.On(e, st, &Event{kind: EvSpawn, in: c.in, a: clos, b: env, slot: "dropped"})
		return []outcome{{st: st, res: e.ts.Nil}}
	}
	ctx := e.ts.mk(OpApp, "envctx", nil, env)
	slot := "env"
	if c.name == wellGo {
		slot = "well"
	}
	if e.inlineWell && clos != nil && clos.fn != nil && len(clos.fn.Blocks) > 0 && writesCaptured(clos.fn) {
		e.rule.On(e, st, &Event{kind: EvSpawn, in: c.in, a: clos, b: env, slot: "inline"})
		var outs []outcome
		for _, o := range e.runFunc(st, clos.fn, []*Term{ctx}, clos.args, c.in, false) {
			if o.panics {
				continue
			}
			e.pendErr(o.st, env, o.res)
			outs = append(outs, outcome{st: o.st, res: e.ts.Nil})
		}
		return outs
	}
	allNil := e.goroutine(st, c.in, c.com, clos, []*Term{ctx}, slot, env)
	if !allNil {
		// one unknown error says as much as several
		known := false
		if old := st.mem[e.envKey(env)]; old != nil {
			for _, x := range old.args {
				known = known || x.op == OpSym && x.symKind() == "goerr"
			}
		}
		if !known {
			er := e.fresh(st, OpSym, "goerr", c.in, errType)
			e.pendErr(st, env, er)
		}
	}
	if clos != nil && clos.fn != nil && writesCaptured(clos.fn) {
		for _, b := range clos.args {
			e.havocArg(st, b)
		}
	}
	return []outcome{{st: st, res: e.ts.Nil}}
}

// ---- libraries

var purePkgs = map[string]bool{
	"strings": true, "path": true, "path/filepath": true, "strconv": true, "bytes": true, "errors": true,
	"github.com/pkg/errors": true, "encoding/hex": true, "unicode": true, "unicode/utf8": true, "mime": true,
	"math": true, "slices": true, "maps": true, "cmp": true, "encoding/base64": true, "math/bits": true,
}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"os.NewSyscallError": true, "(error).Error": true,
	"(*os.File).Name": true, "(*os.File).Fd": true,
	"(*net/url.URL).ResolveReference": true, "(*net/url.URL).String": true, "(*net/url.URL).JoinPath": true,
	"(*net/url.URL).EscapedPath": true, "(*net/url.URL).Hostname": true, "(*net/url.URL).IsAbs": true, "(*net/url.URL).Parse": true,
	"(*net/http.Request).WithContext": true, "(*net/http.Request).Context": true, "(*net/http.Request).Clone": true,
	"(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).FindString": true,
	"(context.Context).Done": true, "net/http.StatusText": true,
	"crypto/md5.Sum": true, "crypto/sha1.Sum": true, "crypto/sha256.Sum256": true, "crypto/sha256.Sum224": true, "crypto/sha512.Sum512": true,
	"(io/fs.FileInfo).Mode": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).IsDir": true,
	"(os.FileInfo).Mode": true, "(os.FileInfo).Size": true, "(os.FileInfo).Name": true, "(os.FileInfo).IsDir": true,
	"(io/fs.FileMode).IsRegular": true, "(io/fs.FileMode).IsDir": true, "(io/fs.FileMode).Type": true, "(io/fs.FileMode).Perm": true,
	"(io/fs.DirEntry).Name": true, "(io/fs.DirEntry).Type": true, "(io/fs.DirEntry).IsDir": true,
	"(time.Time).Sub": true, "(time.Time).Format": true, "(time.Time).Add": true, "(time.Time).After": true, "(time.Time).Before": true,
	"(time.Duration).Seconds": true, "(time.Duration).String": true,
	"(net/http.ResponseWriter).Header": true,
	"io.MultiWriter":                   true, "io.TeeReader": true, "io.LimitReader": true, "io.NopCloser": true,
	"context.WithValue": true, "context.WithCancel": false,
}

var impureInPure = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.EvalSymlinks": true, "path/filepath.Glob": true, "path/filepath.Abs": true,
	"bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.NewBufferString": true, "strings.NewReader": true, "strings.NewReplacer": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "slices.SortStableFunc": true, "maps.Copy": true, "maps.DeleteFunc": true,
	"errors.As": true, "github.com/pkg/errors.As": true, "strings.Map": true, "strings.FieldsFunc": true, "strings.IndexFunc": true,
}

// noEffectPkgs: calls do not change memory the analysis tracks.
var noEffectPkgs = map[string]bool{
	"os": true, "io": true, "io/ioutil": true, "net/http": true, "net/url": true, "time": true, "context": true,
	"github.com/cybozu-go/log": true, "github.com/cybozu-go/well": true, "fmt": true, "bufio": true, "regexp": true,
	"crypto/md5": true, "crypto/sha1": true, "crypto/sha256": true, "hash": true, "crypto": true,
	"compress/gzip": true, "compress/bzip2": true, "github.com/ulikunitz/xz": true, "syscall": true, "io/fs": true,
	"mime": true, "runtime": true, "log": true, "path/filepath": true, "bytes": true, "strings": true, "math/rand": true, "flag": true,
	"encoding/hex": true, "golang.org/x/sys/unix": true, "errors": true,
}

// pkgOf is the package path in a full function name.
func pkgOf(name string) string {
	n := name
	if strings.HasPrefix(n, "(") {
		n = strings.TrimPrefix(n[1:], "*")
		if i := strings.IndexByte(n, ')'); i >= 0 {
			n = n[:i]
		}
	}
	s := strings.LastIndexByte(n, '/')
	d := strings.IndexByte(n[s+1:], '.')
	if d < 0 {
		return n
	}
	return n[:s+1+d]
}

// exits says whether a function ends the process.
func exits(name string) bool {
	switch name {
	case "os.Exit", "github.com/cybozu-go/log.ErrorExit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit":
		return true
	}
	return false
}

func (e *Engine) library(st *State, c *Call, rt *types.Tuple) []outcome {
	name, args := c.name, c.args
	ret := func(t *Term) []outcome {
		e.rule.After(e, st, c, t)
		return []outcome{{st: st, res: t}}
	}
	if exits(name) {
		e.rule.On(e, st, &Event{kind: EvExit, in: c.in, slot: name, res: args})
		return nil
	}
	switch name {
	case "":
		// unknown function value
		if c.clos != nil && c.clos.isCall("context.WithTimeout") || c.com.Value != nil && strings.HasSuffix(typeName(c.com.Value.Type()), "context.CancelFunc") {
			return ret(e.ts.Nil)
		}
		for _, a := range args {
			e.havocArg(st, a)
		}
		e.havocAll(st)
		return e.opaque(st, c, rt)
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return e.lock(st, c, args[0], true)
	case "(*sync.RWMutex).RLock":
		return e.lock(st, c, args[0], false)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return e.unlock(st, c, args[0], true)
	case "(*sync.RWMutex).RUnlock":
		return e.unlock(st, c, args[0], false)
	case "(*sync.Once).Do":
		if args[1].fn != nil && len(args[1].fn.Blocks) > 0 {
			s2 := st.clone()
			var outs []outcome
			for _, o := range e.runFunc(st, args[1].fn, nil, args[1].args, c.in, false) {
				outs = append(outs, outcome{st: o.st, res: e.ts.Nil, panics: o.panics})
			}
			return append(outs, outcome{st: s2, res: e.ts.Nil})
		}
	case "time.AfterFunc":
		if len(args) == 2 && args[1].fn != nil {
			e.goroutine(st, c.in, c.com, args[1], nil, "timer", args[0])
		}
	case wellGo:
		return e.envGoCall(st, c, e.ts.mk(OpApp, "wellenv", nil), args[0])
	case envGo:
		return e.envGoCall(st, c, args[0], args[1])
	case wellStop, envStop, wellCancel, envCancel:
		env := e.ts.mk(OpApp, "wellenv", nil)
		i := 0
		if name == envStop || name == envCancel {
			env = args[0]
			i = 1
		}
		st.mem[e.stopKey(env)] = e.ts.True
		if name == wellCancel || name == envCancel {
			e.pendErr(st, env, args[i])
			return ret(e.ts.True)
		}
		return ret(e.ts.Nil)
	case wellWait, envWait:
		env := e.ts.mk(OpApp, "wellenv", nil)
		if name == envWait {
			env = args[0]
		}
		r := st.mem[e.envKey(env)]
		if r == nil {
			r = e.ts.Nil
		}
		if name == wellWait {
			// signals
			sig := e.fresh(st, OpSym, "wellsignal", c.in, errType)
			l := []*Term{sig}
			if r.isApp("allnil") {
				l = append(l, r.args...)
			}
			r = e.ts.mk(OpApp, "allnil", errType, l...)
		}
		e.havoc(st)
		return ret(r)
	case "(context.Context).Err":
		t := e.ts.mk(OpApp, name, errType, args[0])
		if e.truth(st, e.ts.mk(OpApp, "ctxdone", nil, args[0])) == Yes {
			e.upd(st, t, func(f *Fact) { f.isNil = No })
			return ret(t)
		}
		return e.split(st, c, rt, func(i int, _ types.Type) *Term {
			return e.ts.mk(OpApp, name, errType, args[0])
		}, true)
	case "context.WithTimeout", "context.WithDeadline", "context.WithCancel":
		ctx := e.ts.mk(OpApp, name, nil, args...)
		return ret(e.ts.mk(OpTuple, "", nil, ctx, e.fresh(st, OpSym, "cancelfunc", c.in, nil)))
	case "path/filepath.Walk", "path/filepath.WalkDir":
		return e.walk(st, c)
	case "encoding/json.Unmarshal":
		e.havocArg(st, args[1])
		return e.opaque(st, c, rt)
	}
	pkg := pkgOf(name)
	if pkg == "container/heap" {
		e.havocIface(st, c)
		return e.opaque(st, c, rt)
	}
	if (purePkgs[pkg] && !strings.HasPrefix(name, "(*") && !impureInPure[name]) || pureFuncs[name] {
		if t := e.constFold(name, args); t != nil {
			return ret(t)
		}
		return e.pure(st, c, rt)
	}
	if noEffectPkgs[pkg] {
		for _, a := range args {
			e.escape(st, a)
		}
		return e.opaque(st, c, rt)
	}
	for _, a := range args {
		e.havocArg(st, a)
	}
	return e.opaque(st, c, rt)
}

// havocIface forgets what methods of an object passed as an interface to a
// library may change.
func (e *Engine) havocIface(st *State, c *Call) {
	muts := map[string]bool{}
	elems := false
	for _, a := range c.com.Args {
		mi, ok := a.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		it, ok := a.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			sel := e.p.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(it.Method(i).Pkg(), it.Method(i).Name())
			if sel == nil {
				continue
			}
			f := e.p.prog.MethodValue(sel)
			for fn := range e.p.reach(f) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok {
							switch x := s.Addr.(type) {
							case *ssa.FieldAddr:
								muts[fieldKey(x.X.Type(), x.Field)] = true
							case *ssa.IndexAddr:
								elems = true
							}
						}
					}
				}
			}
		}
	}
	for _, a := range c.args {
		e.escape(st, a) // the methods may keep it and reach what it points to
	}
	for k := range st.mem {
		if (k.op == OpField && muts[k.name] || k.op == OpIndex && elems) && !e.local(st, k) {
			delete(st.mem, k)
		}
	}
}

// reach is the set of repository functions statically reachable from f.
func (p *Program) reach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					rec(c.Common().StaticCallee())
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						rec(fn)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	rec(f)
	return seen
}

func (e *Engine) lock(st *State, c *Call, l *Term, w bool) []outcome {
	e.rule.On(e, st, &Event{kind: EvLock, in: c.in, a: l, ok: w, held: append([]lockHeld(nil), st.locks...)})
	n := 0
	for _, h := range st.locks {
		if h.lock != l {
			continue
		}
		if n++; w || h.write || n > 1 {
			return nil // waits forever
		}
	}
	e.havoc(st)
	st.locks = append(st.locks, lockHeld{l, w})
	st.note(c.pos(), "locks "+l.show(3))
	return []outcome{{st: st, res: e.ts.Nil}}
}

func (e *Engine) unlock(st *State, c *Call, l *Term, w bool) []outcome {
	held := append([]lockHeld(nil), st.locks...)
	found := false
	for i := len(st.locks) - 1; i >= 0; i-- {
		if st.locks[i].lock == l && st.locks[i].write == w {
			st.locks = append(append([]lockHeld(nil), st.locks[:i]...), st.locks[i+1:]...)
			found = true
			break
		}
	}
	st.note(c.pos(), "unlocks "+l.show(3))
	e.rule.On(e, st, &Event{kind: EvUnlock, in: c.in, a: l, ok: found, held: held})
	return []outcome{{st: st, res: e.ts.Nil}}
}

// walk models filepath.Walk: the callback runs any number of times.
func (e *Engine) walk(st *State, c *Call) []outcome {
	rootT, cb := c.args[0], c.args[1]
	if cb.fn == nil || len(cb.fn.Blocks) == 0 {
		panic(undecided{"filepath.Walk with unknown callback"})
	}
	sig := cb.fn.Signature.Params()
	np := cb.fn.Signature.Params().Len()
	if np != 3 {
		panic(undecided{"filepath.Walk callback"})
	}
	coll := e.ts.mk(OpApp, "walk", nil, rootT)
	seen := map[string]bool{}
	var outs []outcome
	type item struct {
		st   *State
		iter int
	}
	work := []item{{st, 0}}
	for n := 0; len(work) > 0; n++ {
		if n > 2000 {
			panic(undecided{"filepath.Walk does not converge"})
		}
		it := work[len(work)-1]
		s := it.st
		work = work[:len(work)-1]
		e.gc(s)
		k := s.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		// end of the walk
		done := s.clone()
		done.note(c.pos(), "end of the walk")
		e.rule.On(e, done, &Event{kind: EvIterEnd, in: c.in, a: coll})
		e.rule.After(e, done, c, e.ts.Nil)
		outs = append(outs, outcome{st: done, res: e.ts.Nil})
		for _, fail := range []bool{false, true} {
			x := s.clone()
			pth := e.fresh(x, OpSym, "walkpath", c.in, sig.At(0).Type(), rootT)
			info := e.fresh(x, OpSym, "walkinfo", c.in, sig.At(1).Type(), pth)
			er := e.ts.Nil
			if fail {
				er = e.fresh(x, OpSym, "walkerr", c.in, errType, pth)
				e.upd(x, er, func(f *Fact) { f.isNil = No })
				x.note(c.pos(), "the walk fails for a file")
			} else {
				e.upd(x, info, func(f *Fact) { f.isNil = No })
				x.note(c.pos(), "the walk visits a file")
			}
			e.rule.On(e, x, &Event{kind: EvIter, in: c.in, a: coll, b: pth, c: info})
			before := make(map[*Term]*Term, len(x.mem))
			for a, v := range x.mem {
				before[a] = v
			}
			for _, o := range e.runFunc(x, cb.fn, []*Term{pth, info, er}, cb.args, c.in, false) {
				if o.panics {
					outs = append(outs, o)
					continue
				}
				n := e.nilness(o.st, o.res)
				slot := ""
				if o.res.op == OpLoad && o.res.args[0].op == OpGlobal && (strings.HasSuffix(o.res.args[0].name, ".SkipDir") || strings.HasSuffix(o.res.args[0].name, ".SkipAll")) {
					// a part of the tree is left out
					n, slot = Yes, "skip"
				}
				if n != Yes {
					b := o.st.clone()
					if n == Unknown {
						e.assumeNil(b, o.res, false)
					}
					e.rule.After(e, b, c, o.res)
					outs = append(outs, outcome{st: b, res: o.res})
				}
				if n != No {
					if n == Unknown && !e.assumeNil(o.st, o.res, true) {
						continue
					}
					e.rule.On(e, o.st, &Event{kind: EvBack, in: c.in, a: coll, slot: slot})
					if it.iter >= 1 {
						for a, v := range o.st.mem {
							if old, had := before[a]; had && old != v && a.op != OpApp {
								w := e.ts.mk(OpSym, "memphi:"+strconv.Itoa(a.id)+"@w"+strconv.Itoa(e.p.iid(c.in)), a.typ)
								e.forget(o.st, w.name)
								o.st.mem[a] = w
							}
						}
					}
					work = append(work, item{o.st, it.iter + 1})
				}
			}
		}
	}
	return outs
}

// constFold evaluates pure functions of constants.
func (e *Engine) constFold(name string, args []*Term) *Term {
	var ss []string
	all := true
	for _, a := range args {
		s, ok := a.str()
		if !ok {
			all = false
		}
		ss = append(ss, s)
	}
	switch name {
	case "path.Join", "path/filepath.Join":
		if len(args) == 1 && args[0].op == OpSlice {
			ss = nil
			for _, a := range args[0].args {
				s, ok := a.str()
				if !ok {
					return nil
				}
				ss = append(ss, s)
			}
			if name == "path.Join" {
				return e.ts.Str(path.Join(ss...))
			}
			return e.ts.Str(filepath.Join(ss...))
		}
		return nil
	}
	if !all || len(ss) == 0 {
		return nil
	}
	switch name {
	case "path.Base":
		return e.ts.Str(path.Base(ss[0]))
	case "path.Ext":
		return e.ts.Str(path.Ext(ss[0]))
	case "path.Dir":
		return e.ts.Str(path.Dir(ss[0]))
	case "path.Clean":
		return e.ts.Str(path.Clean(ss[0]))
	case "path/filepath.Base":
		return e.ts.Str(filepath.Base(ss[0]))
	case "path/filepath.Ext":
		return e.ts.Str(filepath.Ext(ss[0]))
	case "path/filepath.Dir":
		return e.ts.Str(filepath.Dir(ss[0]))
	case "path/filepath.Clean":
		return e.ts.Str(filepath.Clean(ss[0]))
	case "strings.HasSuffix":
		return e.ts.Bool(strings.HasSuffix(ss[0], ss[1]))
	case "strings.HasPrefix":
		return e.ts.Bool(strings.HasPrefix(ss[0], ss[1]))
	case "strings.Contains":
		return e.ts.Bool(strings.Contains(ss[0], ss[1]))
	case "strings.TrimSuffix":
		return e.ts.Str(strings.TrimSuffix(ss[0], ss[1]))
	case "strings.TrimPrefix":
		return e.ts.Str(strings.TrimPrefix(ss[0], ss[1]))
	case "strings.Index":
		return e.ts.Int(int64(strings.Index(ss[0], ss[1])))
	case "strings.LastIndex":
		return e.ts.Int(int64(strings.LastIndex(ss[0], ss[1])))
	case "strings.EqualFold":
		return e.ts.Bool(strings.EqualFold(ss[0], ss[1]))
	case "strings.ToLower":
		return e.ts.Str(strings.ToLower(ss[0]))
	case "strings.TrimSpace":
		return e.ts.Str(strings.TrimSpace(ss[0]))
	case "strings.Trim":
		return e.ts.Str(strings.Trim(ss[0], ss[1]))
	case "strings.TrimLeft":
		return e.ts.Str(strings.TrimLeft(ss[0], ss[1]))
	case "strings.TrimRight":
		return e.ts.Str(strings.TrimRight(ss[0], ss[1]))
	}
	return nil
}

var _ = constant.MakeBool
var _ = url.Parse
var _ = sort.Strings

// runRoot analyses fn as an entry point; its parameters are unknown.
func (e *Engine) runRoot(fn *ssa.Function, prep func(st *State, args []*Term)) (outs []outcome) {
	defer func() {
		if e.stats != nil {
			e.stats.print()
		}
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				e.rep.violate("undecided", shortName(funcName(fn)), fn.Pos(), "the analysis could not decide: "+u.msg, nil)
				outs = nil
				return
			}
			panic(x)
		}
	}()
	e.curRoot = shortName(funcName(fn))
	e.rep.root(e.curRoot)
	e.spawnMemo = map[string]bool{}
	st := newState()
	base := &Frame{fn: fn, ctx: 0, env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]loopRec{}}
	st.frames = []*Frame{base}
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			n = "recv"
		}
		t := e.ts.mk(OpParam, n, p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.facts[t] = Fact{isNil: No}
			}
		}
		args = append(args, t)
	}
	var free []*Term
	for _, fv := range fn.FreeVars {
		t := e.ts.mk(OpParam, "free:"+fv.Name(), fv.Type())
		if a := capturedVar(fv); a != nil && e.p.assignedOnce(a) {
			e.constCell[t] = true
		}
		free = append(free, t)
	}
	if prep != nil {
		prep(st, args)
	}
	outs = e.runFunc(st, fn, args, free, nil, false)
	for _, o := range outs {
		e.rule.On(e, o.st, &Event{kind: EvExit, a: o.res, panics: o.panics, fn: fn, slot: "return"})
	}
	for f := range e.fnsSeen {
		e.rep.fn(f)
	}
	e.rep.steps += e.steps
	e.steps = 0
	return outs
}

// capturedVar finds the variable that a closure captured.
func capturedVar(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				switch v := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					return v
				case *ssa.FreeVar:
					return capturedVar(v)
				}
			}
		}
	}
	return nil
}
