package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a provenance term.
type Op uint8

const (
	OpConst   Op = iota // name: value
	OpNil               // the nil value of any type
	OpParam             // name
	OpGlobal            // address of a package variable
	OpFunc              // function value
	OpClosure           // args: bindings
	OpAlloc             // object made at a site (leaf)
	OpSym               // opaque value made at a site (leaf); args: what it was made from
	OpOld               // summary of values a site made before
	OpField             // address of a field: args[0] base
	OpIndex             // address of an element: args base, index
	OpLoad              // contents of never modified memory: args address
	OpApp               // pure operation: name, args
	OpTuple
	OpStruct // struct value; args: fields
	OpSlice  // slice with known elements
)

// Term is a hash-consed provenance term.
type Term struct {
	id    int
	op    Op
	name  string
	args  []*Term
	typ   types.Type
	fn    *ssa.Function
	depth int
	leafs []*Term // site-made leaves (Alloc, Sym, Old) in the term, itself included
	glob  *ssa.Global
	cval  constant.Value
}

// Terms is the hash-consing table.
type Terms struct {
	tab              map[string]*Term
	n                int
	Nil, True, False *Term
}

func newTerms() *Terms {
	t := &Terms{tab: map[string]*Term{}}
	t.Nil = t.mk(OpNil, "nil", nil)
	t.True = t.mk(OpConst, "true", nil)
	t.True.cval = constant.MakeBool(true)
	t.False = t.mk(OpConst, "false", nil)
	t.False.cval = constant.MakeBool(false)
	return t
}

func (ts *Terms) mk(op Op, name string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('a' + op))
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if t := ts.tab[key]; t != nil {
		return t
	}
	ts.n++
	t := &Term{id: ts.n, op: op, name: name, args: args, typ: typ}
	for _, a := range args {
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	leafs := map[*Term]bool{}
	for _, a := range args {
		for _, l := range a.leafs {
			leafs[l] = true
		}
	}
	if op == OpAlloc || op == OpSym || op == OpOld {
		leafs[t] = true
	}
	for l := range leafs {
		t.leafs = append(t.leafs, l)
	}
	sort.Slice(t.leafs, func(i, j int) bool { return t.leafs[i].id < t.leafs[j].id })
	ts.tab[key] = t
	return t
}

func (ts *Terms) Int(i int64) *Term {
	t := ts.mk(OpConst, strconv.FormatInt(i, 10), nil)
	t.cval = constant.MakeInt64(i)
	return t
}

func (ts *Terms) Str(s string) *Term {
	t := ts.mk(OpConst, strconv.Quote(s), nil)
	t.cval = constant.MakeString(s)
	return t
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (ts *Terms) Const(c constant.Value) *Term {
	if c.Kind() == constant.Bool {
		return ts.Bool(constant.BoolVal(c))
	}
	if c.Kind() == constant.String {
		return ts.Str(constant.StringVal(c))
	}
	t := ts.mk(OpConst, c.ExactString(), nil)
	t.cval = c
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (t *Term) str() (string, bool) {
	if t.op == OpConst && t.cval != nil && t.cval.Kind() == constant.String {
		return constant.StringVal(t.cval), true
	}
	return "", false
}

func (t *Term) int() (int64, bool) {
	if t.op == OpConst && t.cval != nil && t.cval.Kind() == constant.Int {
		return constant.Int64Val(t.cval)
	}
	return 0, false
}

// contains says whether x occurs in t.
func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

// any says whether f holds for a subterm.
func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(f) {
			return true
		}
	}
	return false
}

// each visits all subterms.
func (t *Term) each(f func(*Term)) {
	f(t)
	for _, a := range t.args {
		a.each(f)
	}
}

func (t *Term) isApp(name string) bool { return t.op == OpApp && t.name == name }

// isCall says whether t is (a component of) the result of a call of the
// named function, whether modelled as pure or as opaque.
func (t *Term) isCall(name string) bool {
	switch t.op {
	case OpApp:
		return t.name == name
	case OpSym:
		return t.symKind() == name
	case OpOld:
		return t.symKind() == name
	}
	return false
}

// symKind is the part of the name of a symbol that precedes its site.
func (t *Term) symKind() string {
	if i := strings.IndexByte(t.name, '@'); i >= 0 {
		k := t.name[:i]
		if j := strings.IndexByte(k, '#'); j >= 0 {
			k = k[:j]
		}
		return k
	}
	return t.name
}

// symIdx is the index of the result a symbol denotes.
func (t *Term) symIdx() int {
	i := strings.IndexByte(t.name, '@')
	if i < 0 {
		return 0
	}
	if j := strings.IndexByte(t.name[:i], '#'); j >= 0 {
		n, _ := strconv.Atoi(t.name[j+1 : i])
		return n
	}
	return 0
}

func (t *Term) String() string { return t.show(6) }

func (t *Term) show(d int) string {
	if d == 0 {
		return "…"
	}
	as := func() string {
		var l []string
		for _, a := range t.args {
			l = append(l, a.show(d-1))
		}
		return strings.Join(l, ", ")
	}
	short := func(s string) string {
		if i := strings.LastIndexByte(s, '/'); i >= 0 && !strings.HasPrefix(s, "\"") {
			if strings.HasPrefix(s, "(*") {
				return "(*" + s[i+1:]
			}
			if strings.HasPrefix(s, "(") {
				return "(" + s[i+1:]
			}
			return s[i+1:]
		}
		return s
	}
	switch t.op {
	case OpConst, OpNil:
		return t.name
	case OpParam:
		return t.name
	case OpGlobal:
		return "&" + t.name
	case OpFunc:
		return short(t.name)
	case OpClosure:
		return "closure " + short(t.name)
	case OpAlloc:
		n := t.name
		if i := strings.IndexByte(n, '@'); i >= 0 {
			n = n[:i]
		}
		return "new:" + n + "~" + strconv.Itoa(t.id)
	case OpSym:
		n := t.name
		if i := strings.IndexByte(n, '@'); i >= 0 {
			n = n[:i]
		}
		if len(t.args) > 0 {
			return short(n) + "(" + as() + ")~" + strconv.Itoa(t.id)
		}
		return short(n) + "~" + strconv.Itoa(t.id)
	case OpOld:
		return "old " + short(t.symKind()) + "~" + strconv.Itoa(t.id)
	case OpField:
		n := t.name
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			n = n[i:]
		}
		return "&" + t.args[0].show(d-1) + n
	case OpIndex:
		return "&" + t.args[0].show(d-1) + "[" + t.args[1].show(d-1) + "]"
	case OpLoad:
		return "*" + t.args[0].show(d-1)
	case OpApp:
		return short(t.name) + "(" + as() + ")"
	case OpTuple:
		return "(" + as() + ")"
	case OpStruct:
		return "{" + as() + "}"
	case OpSlice:
		return "[" + as() + "]"
	}
	return fmt.Sprint(t.op)
}

// subst replaces from by to in t.
func (ts *Terms) subst(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	found := false
	for _, l := range t.leafs {
		if l == from {
			found = true
			break
		}
	}
	if !found {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = ts.subst(a, from, to)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	n := ts.mk(t.op, t.name, t.typ, args...)
	if n.fn == nil {
		n.fn = t.fn
	}
	if n.glob == nil {
		n.glob = t.glob
	}
	return n
}
