package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// comps are the components of the result of a function.
func comps(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.op == OpTuple {
		return t.args
	}
	return []*Term{t}
}

// errOf is the error a function returned, if its last result is one.
func errOf(fn *ssa.Function, res *Term) *Term {
	rt := fn.Signature.Results()
	n := rt.Len()
	if n == 0 || !isError(rt.At(n-1).Type()) {
		return nil
	}
	cs := comps(res)
	if len(cs) != n {
		return nil
	}
	return cs[n-1]
}

// rootReturn says whether an event is the return of the analysed entry point.
func rootReturn(st *State, ev *Event) bool {
	return ev.kind == EvReturn && len(st.frames) == 2 && !st.frames[0].goro && !ev.panics
}

// appOf looks through conversions between strings and byte slices.
func stripConv(t *Term) *Term {
	for t.op == OpApp && strings.HasPrefix(t.name, "conv:") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// sameValue says whether two byte strings or scalars are known to be equal.
func (e *Engine) sameValue(st *State, a, b *Term) Tri {
	if a == b {
		return Yes
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		for _, n := range []string{"bytes.Equal", "slices.Equal"} {
			t := e.ts.mk(OpApp, n, types.Typ[types.Bool], p[0], p[1])
			if r := e.truth(st, t); r != Unknown {
				return r
			}
		}
		for _, n := range []string{"bytes.Compare", "slices.Compare", "strings.Compare"} {
			t := e.eq(e.ts.mk(OpApp, n, types.Typ[types.Int], p[0], p[1]), e.ts.Int(0))
			if r := e.truth(st, t); r != Unknown {
				return r
			}
		}
		for _, n := range []string{"conv:string", "encoding/hex.EncodeToString"} {
			t := e.eq(e.ts.mk(OpApp, n, types.Typ[types.String], p[0]), e.ts.mk(OpApp, n, types.Typ[types.String], p[1]))
			if r := e.truth(st, t); r != Unknown {
				return r
			}
		}
	}
	return e.truth(st, e.eq(a, b))
}

// absent says whether a byte string is nil or empty.
func (e *Engine) absent(st *State, a *Term) Tri {
	if r := e.nilness(st, a); r == Yes {
		return Yes
	}
	l := e.length(st, a, types.NewSlice(types.Typ[types.Byte]))
	if n, ok := l.int(); ok {
		return tri(n == 0)
	}
	lo, hi, hl, hh := e.bounds(st, l)
	if hh && hi <= 0 {
		return Yes
	}
	if hl && lo > 0 {
		return No
	}
	if e.truth(st, e.eq(l, e.ts.Int(0))) == Yes {
		return Yes
	}
	if r := e.nilness(st, a); r == No {
		return No
	}
	return Unknown
}

// cell reads a field of an object without side effects; nil if unknown.
func (e *Engine) cell(st *State, obj *Term, field string) *Term {
	a := e.ts.mk(OpField, field, nil, obj)
	if v := st.mem[a]; v != nil {
		return v
	}
	if e.local(st, a) {
		return nil
	}
	if !e.p.mutField[field] {
		return e.ts.mk(OpLoad, "", nil, a)
	}
	return nil
}

// components splits a path expression at slashes, looking through Join and
// Clean; unknown parts are single components.
func components(t *Term) []*Term {
	if s, ok := t.str(); ok {
		var l []*Term
		for _, c := range strings.Split(s, "/") {
			if c != "" && c != "." {
				l = append(l, strTerm(c))
			}
		}
		if strings.HasPrefix(s, "/") {
			l = append([]*Term{strTerm("/")}, l...)
		}
		return l
	}
	if t.op == OpApp {
		switch t.name {
		case "path.Join", "path/filepath.Join":
			var l []*Term
			if len(t.args) == 1 && t.args[0].op == OpSlice {
				for _, a := range t.args[0].args {
					l = append(l, components(a)...)
				}
				return l
			}
		case "path.Clean", "path/filepath.Clean", "path/filepath.ToSlash", "path/filepath.FromSlash":
			return components(t.args[0])
		case "concat":
			// x + "/" + y
			l := flattenConcat(t)
			var parts [][]*Term
			cur := []*Term{}
			for _, x := range l {
				if s, ok := x.str(); ok && strings.Contains(s, "/") {
					ps := strings.Split(s, "/")
					for i, p := range ps {
						if i > 0 {
							parts = append(parts, cur)
							cur = nil
						}
						if p != "" {
							cur = append(cur, strTerm(p))
						}
					}
					continue
				}
				cur = append(cur, x)
			}
			if len(parts) == 0 && len(cur) > 1 {
				// a path with a suffix
				if f := cur[0]; f.isApp("path/filepath.Join") || f.isApp("path.Join") {
					if cs := components(f); len(cs) > 1 {
						last := cs[len(cs)-1]
						for _, x := range cur[1:] {
							last = &Term{op: OpApp, name: "concat", args: []*Term{last, x}}
						}
						return append(append([]*Term(nil), cs[:len(cs)-1]...), last)
					}
				}
			}
			parts = append(parts, cur)
			if len(parts) > 1 {
				var r []*Term
				for _, p := range parts {
					if len(p) == 1 {
						r = append(r, components(p[0])...)
					} else if len(p) > 1 {
						r = append(r, &Term{op: OpApp, name: "concat*", args: p})
					}
				}
				return r
			}
		}
	}
	return []*Term{t}
}

func flattenConcat(t *Term) []*Term {
	if t.isApp("concat") {
		return append(flattenConcat(t.args[0]), flattenConcat(t.args[1])...)
	}
	if l := formatted(t); l != nil {
		return l
	}
	return []*Term{t}
}

// formatted is what Sprintf concatenates, if it is only strings and numbers.
func formatted(t *Term) []*Term {
	if !t.isApp("fmt.Sprintf") || len(t.args) != 2 || t.args[1].op != OpSlice {
		return nil
	}
	f, ok := t.args[0].str()
	if !ok {
		return nil
	}
	var l []*Term
	n := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			return append(l, strTerm(f))
		}
		if i > 0 {
			l = append(l, strTerm(f[:i]))
		}
		if i+1 == len(f) {
			return nil
		}
		verb := f[i+1]
		f = f[i+2:]
		if verb == '%' {
			l = append(l, strTerm("%"))
			continue
		}
		if n >= len(t.args[1].args) {
			return nil
		}
		x := stripConv(t.args[1].args[n])
		n++
		b, ok := types.Type(nil), false
		if x.typ != nil {
			b, ok = x.typ.Underlying(), true
		}
		switch {
		case !ok:
			return nil
		case (verb == 's' || verb == 'v') && b.String() == "string" && x.typ.String() == "string":
			l = append(l, x)
		case verb == 'd':
			l = append(l, &Term{op: OpApp, name: "strconv.Itoa", args: []*Term{x}, typ: types.Typ[types.String]})
		default:
			return nil
		}
	}
	return l
}

// strTerm makes a helper term that never enters a state.
func strTerm(s string) *Term {
	return &Term{op: OpConst, name: strconv.Quote(s), cval: constant.MakeString(s)}
}

// sameComponents compares a path with expected components: a string is a
// constant component, a *Term that very term.
func sameComponents(t *Term, want ...any) bool {
	l := components(t)
	if len(l) != len(want) {
		return false
	}
	for i, w := range want {
		switch w := w.(type) {
		case string:
			s, ok := l[i].str()
			if !ok || s != w {
				return false
			}
		case *Term:
			if l[i] != w {
				return false
			}
		case func(*Term) bool:
			if !w(l[i]) {
				return false
			}
		}
	}
	return true
}

// errPolicy is what a property says about failing calls: a call that failed
// must make the operation fail.
type errPolicy struct {
	rep    *Report
	rule   string
	exempt func(e *Engine, st *State, c *Call) bool
}

const monFailed = "failed"

// after records the outcome of a call.
func (r *errPolicy) after(e *Engine, st *State, c *Call, res *Term) {
	if c.inlined || c.com == nil {
		return
	}
	rt := c.com.Signature().Results()
	n := rt.Len()
	if n == 0 || !isError(rt.At(n-1).Type()) {
		return
	}
	if r.exempt != nil && r.exempt(e, st, c) {
		return
	}
	where := e.inFn(st) + " calls " + shortName(c.name)
	cs := comps(res)
	if len(cs) != n {
		return
	}
	er := cs[n-1]
	switch e.nilness(st, er) {
	case Yes:
		r.rep.oblige(r.rule, where, c.pos())
		return
	case Unknown:
		r.rep.violate(r.rule, where, c.pos(), "the error of "+shortName(c.name)+" is ignored", st.trace)
		return
	}
	st.mon.add(monFailed, e.ts.mk(OpApp, "fail:"+where+"\x00"+strconv.Itoa(int(c.pos())), nil))
}

// exit checks that an operation that ends without an error had no failures.
func (r *errPolicy) exit(e *Engine, st *State, er *Term, what string) {
	if er != nil && e.nilness(st, er) == No {
		for _, f := range st.mon[monFailed] {
			w, p := failWhere(f)
			r.rep.oblige(r.rule, w, p)
		}
		return
	}
	for _, f := range st.mon[monFailed] {
		w, p := failWhere(f)
		r.rep.violate(r.rule, w, p, "fails, but "+what, st.trace)
	}
}

func failWhere(f *Term) (string, token.Pos) {
	w, p, _ := strings.Cut(strings.TrimPrefix(f.name, "fail:"), "\x00")
	n, _ := strconv.Atoi(p)
	return w, token.Pos(n)
}

// mark is a bookkeeping term without leaves.
func (e *Engine) mark(s string) *Term { return e.ts.mk(OpApp, "mark:"+s, nil) }

func itoa(n int) string { return strconv.Itoa(n) }

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// need finds a function or reports it as a missing anchor.
func need(p *Program, rep *Report, pkg, name string) *ssa.Function {
	f := p.fn(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		rep.missing(pkg + "." + name)
		return nil
	}
	return f
}

func constString(k *ssa.Const) (string, bool) {
	if k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}
