package main

import (
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Joining of abstract states: states at the same place that agree on the
// state of the property, on pending goroutine errors and on the outcome of
// the error and boolean values that are still in use are merged once there
// are too many of them; everything else becomes what holds in all of them.

// coarse is the part of a state that joining never loses.
func (e *Engine) coarse(s *State) string {
	var sb strings.Builder
	for _, f := range s.frames {
		sb.WriteString("F" + strconv.Itoa(f.ctx))
		for _, d := range f.defers {
			sb.WriteString("D" + strconv.Itoa(int(d.in.Pos())))
			if d.fn != nil {
				sb.WriteString("f" + strconv.Itoa(d.fn.id))
			}
		}
		var ls []string
		for h, r := range f.loops {
			ls = append(ls, strconv.Itoa(h.Index)+":"+strconv.Itoa(r.undec)+strconv.FormatBool(r.sat))
		}
		for v, t := range f.env {
			switch u := v.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsBoolean != 0 {
					if x := e.truth(s, t); x != Unknown {
						ls = append(ls, v.Name()+"t"+strconv.Itoa(int(x)))
					}
				}
			case *types.Interface:
				if isError(v.Type()) {
					if x := e.nilness(s, t); x != Unknown {
						ls = append(ls, v.Name()+"n"+strconv.Itoa(int(x)))
					}
				}
			case *types.Tuple:
				if t.op == OpTuple {
					for i, a := range t.args {
						if i < u.Len() && isError(u.At(i).Type()) {
							ls = append(ls, v.Name()+strconv.Itoa(i)+"n"+strconv.Itoa(int(e.nilness(s, a))))
						}
						if x := e.truth(s, a); x != Unknown && a.isConst() {
							ls = append(ls, v.Name()+strconv.Itoa(i)+"t"+strconv.Itoa(int(x)))
						}
					}
				}
			}
		}
		sort.Strings(ls)
		sb.WriteString("L" + strings.Join(ls, " "))
	}
	var ids []string
	for a, v := range s.mem {
		if a.op == OpApp && a.name != "chancap" && a.name != "slicelen" && a.name != "mapempty" {
			ids = append(ids, strconv.Itoa(a.id)+"="+strconv.Itoa(v.id))
		}
	}
	sort.Strings(ids)
	sb.WriteString("M" + strings.Join(ids, " "))
	ids = ids[:0]
	for _, l := range s.locks {
		ids = append(ids, strconv.Itoa(l.lock.id)+strconv.FormatBool(l.write))
	}
	sort.Strings(ids)
	sb.WriteString("K" + strings.Join(ids, " "))
	ids = ids[:0]
	for k, l := range s.mon {
		x := k + "="
		for _, t := range l {
			x += strconv.Itoa(t.id) + ","
		}
		ids = append(ids, x)
	}
	sort.Strings(ids)
	sb.WriteString("N" + strings.Join(ids, " "))
	if e.keepFact != nil {
		ids = ids[:0]
		for t, f := range s.facts {
			if e.keepFact(t) {
				var fb strings.Builder
				fb.WriteString(strconv.Itoa(t.id))
				fb.WriteByte(':')
				f.key(&fb)
				ids = append(ids, fb.String())
			}
		}
		sort.Strings(ids)
		sb.WriteString("T" + strings.Join(ids, " "))
	}
	if e.keepMap != nil {
		ids = ids[:0]
		for _, x := range s.maps {
			if e.keepMap(x.m) {
				ids = append(ids, strconv.Itoa(x.m.id)+"["+strconv.Itoa(x.k.id)+"]"+strconv.Itoa(int(x.ok)))
			}
		}
		sort.Strings(ids)
		sb.WriteString("P" + strings.Join(ids, " "))
	}
	if e.coarseExtra != nil {
		sb.WriteString("X" + e.coarseExtra(s))
	}
	return sb.String()
}

type termPair struct{ a, b *Term }

type joiner struct {
	e      *Engine
	a, b   *State
	prefix string
	memo   map[termPair]*Term
	syms   map[*Term]termPair
	keepJ  map[*Term]bool
	escs   []*Term
}

// term is the least general term that covers ta in state a and tb in b.
func (j *joiner) term(ta, tb *Term, slot string) *Term {
	if ta == tb || ta == nil || tb == nil {
		if ta == nil || tb == nil {
			return nil
		}
		return ta
	}
	k := termPair{ta, tb}
	if r, ok := j.memo[k]; ok {
		return r
	}
	var r *Term
	if ta.op == tb.op && ta.name == tb.name && len(ta.args) == len(tb.args) && len(ta.args) > 0 {
		switch ta.op {
		case OpField, OpIndex, OpLoad, OpApp, OpTuple, OpStruct, OpSlice, OpClosure:
			args := make([]*Term, len(ta.args))
			for i := range args {
				args[i] = j.term(ta.args[i], tb.args[i], slot+"."+strconv.Itoa(i))
			}
			r = j.e.ts.mk(ta.op, ta.name, ta.typ, args...)
			if r.fn == nil {
				r.fn = ta.fn
			}
			if r.glob == nil {
				r.glob = ta.glob
			}
		}
	}
	if r == nil {
		if ta.op == OpSym && strings.HasPrefix(ta.name, j.prefix) {
			r = ta
		} else {
			r = j.e.ts.mk(OpSym, j.prefix+slot, ta.typ)
		}
		if p, ok := j.syms[r]; ok && p != k {
			// one symbol stands for two pairs: use another one
			r = j.e.ts.mk(OpSym, j.prefix+slot+"/"+strconv.Itoa(ta.id), ta.typ)
		}
		if p, ok := j.syms[r]; ok && p != k {
			r = j.e.ts.mk(OpSym, j.prefix+slot+"/"+strconv.Itoa(ta.id)+"/"+strconv.Itoa(tb.id), ta.typ)
		}
		j.syms[r] = k
		j.escs = append(j.escs, ta.leafs...)
		j.escs = append(j.escs, tb.leafs...)
	}
	j.memo[k] = r
	return r
}

// join merges b into a; both have the same coarse part.
func (e *Engine) join(a, b *State, place string) *State {
	prefix := "join@" + place + "."
	// what b calls a join symbol of this place is an earlier one
	olds := map[*Term]bool{}
	b.eachTerm(func(t *Term) {
		for _, l := range t.leafs {
			if l.op == OpSym && strings.HasPrefix(l.name, prefix) {
				olds[l] = true
			}
		}
	})
	if len(olds) > 0 {
		var l []*Term
		for t := range olds {
			l = append(l, t)
		}
		sort.Slice(l, func(x, y int) bool { return l[x].id < l[y].id })
		for _, t := range l {
			e.rule.On(e, b, &Event{kind: EvForget, a: t})
			old := e.ts.mk(OpOld, t.name, t.typ)
			b.rename(e.ts, t, old)
		}
	}
	j := &joiner{e: e, a: a, b: b, prefix: prefix, memo: map[termPair]*Term{}, syms: map[*Term]termPair{}}
	n := &State{trace: a.trace, chain: a.chain, locks: a.locks, mon: a.mon, mem: map[*Term]*Term{}, facts: map[*Term]Fact{}, esc: map[*Term]bool{}}
	for i, fa := range a.frames {
		fb := b.frames[i]
		f := &Frame{fn: fa.fn, ctx: fa.ctx, site: fa.site, goro: fa.goro, defers: append([]deferred(nil), fa.defers...), env: map[ssa.Value]*Term{}, loops: map[*ssa.BasicBlock]loopRec{}}
		for k, r := range fa.loops {
			f.loops[k] = r
		}
		for k := range f.defers {
			d := f.defers[k]
			if k < len(fb.defers) {
				args := make([]*Term, len(d.args))
				for m := range d.args {
					args[m] = d.args[m]
					if m < len(fb.defers[k].args) {
						args[m] = j.term(d.args[m], fb.defers[k].args[m], "d"+strconv.Itoa(i)+"."+strconv.Itoa(k)+"."+strconv.Itoa(m))
					}
				}
				d.args = args
			}
			f.defers[k] = d
		}
		var vs []ssa.Value
		for v := range fa.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(x, y int) bool { return vs[x].Name() < vs[y].Name() })
		for _, v := range vs {
			if t := j.term(fa.env[v], fb.env[v], strconv.Itoa(i)+":"+v.Name()); t != nil {
				f.env[v] = t
			}
		}
		n.frames = append(n.frames, f)
	}
	for t := range a.esc {
		n.esc[t] = true
	}
	for t := range b.esc {
		n.esc[t] = true
	}
	for i, fa := range a.frames {
		var hs []*ssa.BasicBlock
		for h := range fa.loops {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(x, y int) bool { return hs[x].Index < hs[y].Index })
		for _, h := range hs {
			r, o := fa.loops[h], b.frames[i].loops[h]
			phis := map[*ssa.Phi]*Term{}
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if t := j.term(r.phis[ph], o.phis[ph], "l"+strconv.Itoa(i)+":"+ph.Name()); t != nil {
					phis[ph] = t
				}
			}
			r.phis = phis
			n.frames[i].loops[h] = r
		}
	}
	var as []*Term
	for x := range a.mem {
		as = append(as, x)
	}
	sort.Slice(as, func(x, y int) bool { return as[x].id < as[y].id })
	defer func() {
		for i, fa := range a.frames {
			for h, r := range n.frames[i].loops {
				o := b.frames[i].loops[h]
				mem := map[*Term]*Term{}
				for x, v := range fa.loops[h].mem {
					w := o.mem[x]
					if v == w && v != nil {
						mem[x] = v
					} else if t := j.memo[termPair{v, w}]; t != nil {
						mem[x] = t
					}
				}
				r.mem = mem
				n.frames[i].loops[h] = r
			}
		}
	}()
	for _, x := range as {
		va, vb := a.mem[x], b.mem[x]
		if vb == nil {
			vb = e.unbound(b, x)
		}
		if t := j.term(va, vb, "m"+strconv.Itoa(x.id)); t != nil {
			n.mem[x] = t
		} else if r := root(x); r.op == OpAlloc && x.op != OpApp {
			j.escs = append(j.escs, r)
		}
	}
	for x := range b.mem {
		if a.mem[x] == nil {
			if va := e.unbound(a, x); va != nil {
				n.mem[x] = j.term(va, b.mem[x], "m"+strconv.Itoa(x.id))
				continue
			}
			if r := root(x); r.op == OpAlloc && x.op != OpApp {
				j.escs = append(j.escs, r)
			}
		}
	}
	drop := func(m *Term) {
		if m.op == OpAlloc {
			j.escs = append(j.escs, m)
		}
	}
	for _, x := range a.maps {
		k := b.findMap(x.m, x.k)
		if k < 0 || b.maps[k].ok != x.ok || b.maps[k].okT != x.okT {
			drop(x.m)
			continue
		}
		y := b.maps[k]
		if (x.val == nil) != (y.val == nil) {
			drop(x.m)
			continue
		}
		ne := x
		if x.val != nil {
			ne.val = j.term(x.val, y.val, "p"+strconv.Itoa(x.m.id)+"."+strconv.Itoa(x.k.id))
		}
		n.maps = append(n.maps, ne)
	}
	for _, y := range b.maps {
		if a.findMap(y.m, y.k) < 0 {
			drop(y.m)
		}
	}
	for t, fa := range a.facts {
		if fb, ok := b.facts[t]; ok {
			if f := joinFact(fa, fb); !f.empty() {
				n.facts[t] = f
			}
		}
	}
	for p, t := range j.memo {
		if t == p.a || t == p.b {
			if _, isSym := j.syms[t]; !isSym {
				continue
			}
		}
		fa, fb := e.factOf(a, p.a), e.factOf(b, p.b)
		f := joinFact(fa, fb)
		if f.empty() {
			delete(n.facts, t)
		} else {
			n.facts[t] = f
		}
	}
	for _, l := range j.escs {
		if l.op == OpAlloc && !n.esc[l] {
			n.esc[l] = true
		}
	}
	return n
}

// unbound is the value of a cell of a local object that was never assigned.
func (e *Engine) unbound(s *State, x *Term) *Term {
	r := root(x)
	if r.op != OpAlloc || s.esc[r] || x.typ == nil || x.op == OpApp {
		return nil
	}
	pt, ok := x.typ.Underlying().(*types.Pointer)
	if !ok || x.op == OpIndex {
		return nil
	}
	if _, isArr := pt.Elem().Underlying().(*types.Array); isArr {
		return nil
	}
	return e.zero(pt.Elem())
}

// factOf is everything a state knows about a term.
func (e *Engine) factOf(s *State, t *Term) Fact {
	f := s.facts[t]
	if f.isNil == Unknown && t.op != OpConst {
		f.isNil = e.nilness(s, t)
	}
	if f.truth == Unknown {
		f.truth = e.truth(s, t)
	}
	if e.intrinsic != nil {
		f.labels = e.labels(s, t)
	}
	if f.eq == nil && t.op == OpConst {
		f.eq = t
	}
	if n, ok := t.int(); ok {
		f.hasLo, f.lo, f.hasHi, f.hi = true, n, true, n
	}
	return f
}

func (s *State) findMap(m, k *Term) int {
	for i, x := range s.maps {
		if x.m == m && x.k == k {
			return i
		}
	}
	return -1
}

// eachTerm visits the terms a state mentions.
func (s *State) eachTerm(add func(*Term)) {
	for _, f := range s.frames {
		for _, t := range f.env {
			add(t)
		}
		for _, d := range f.defers {
			if d.fn != nil {
				add(d.fn)
			}
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for a, v := range s.mem {
		add(a)
		add(v)
	}
	for _, e := range s.maps {
		add(e.m)
		add(e.k)
		if e.val != nil {
			add(e.val)
		}
	}
	for t := range s.facts {
		add(t)
	}
	for t := range s.esc {
		add(t)
	}
	for _, l := range s.mon {
		for _, t := range l {
			add(t)
		}
	}
}

// group is the states that were joined at one place.
type group struct {
	n   int
	acc *State // what was joined so far
	q   *State // the copy of it that was queued
	key string
}

// joinOuts merges the outcomes of a call that agree on the coarse part and
// on the outcome of the call.
func (e *Engine) joinOuts(outs []outcome, place string) []outcome {
	if len(outs) <= e.joinAt {
		return outs
	}
	type grp struct {
		n   int
		acc int
	}
	gs := map[string]*grp{}
	var r []outcome
	resVal := ssa.Value(ssa.NewConst(nil, errType))
	for _, o := range outs {
		k := e.coarse(o.st) + "P" + strconv.FormatBool(o.panics)
		if o.res.op == OpTuple {
			for _, a := range o.res.args {
				k += "," + strconv.Itoa(int(e.nilness(o.st, a))) + strconv.Itoa(int(e.truth(o.st, a)))
			}
		} else {
			k += "," + strconv.Itoa(int(e.nilness(o.st, o.res))) + strconv.Itoa(int(e.truth(o.st, o.res)))
		}
		g := gs[k]
		if g == nil {
			g = &grp{acc: -1}
			gs[k] = g
		}
		g.n++
		if g.n <= e.joinAt {
			r = append(r, o)
			continue
		}
		if g.acc < 0 {
			g.acc = len(r)
			r = append(r, o)
			continue
		}
		p := r[g.acc]
		p.st.top().env[resVal], o.st.top().env[resVal] = p.res, o.res
		s := e.join(p.st, o.st, place)
		res := s.top().env[resVal]
		delete(s.top().env, resVal)
		r[g.acc] = outcome{st: s, res: res, panics: o.panics}
	}
	return r
}

func defaultJoin() int {
	if n, err := strconv.Atoi(os.Getenv("APTVERIF_JOIN")); err == nil {
		return n
	}
	if thorough {
		return 24
	}
	return 8
}
