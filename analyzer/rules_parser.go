package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- A07

const (
	scanText  = "(*bufio.Scanner).Text"
	pgpSigned = "-----BEGIN PGP SIGNED MESSAGE-----"
	pgpSig    = "-----BEGIN PGP SIGNATURE-----"
)

type parserRule struct {
	NopRule
	rep  *Report
	fn   *ssa.Function
	last string   // field with the name of the latest field
	flag []string // boolean fields
}

const (
	ruleLines = "every line is accounted for"
	ruleOrder = "values are added to their own field in order"
	ruleEnds  = "a paragraph ends at an empty line or at the end of the input"
	ruleEOF   = "io.EOF means the end of the input"
)

func (r *parserRule) recv(e *Engine) *Term { return e.ts.mk(OpParam, "recv", nil) }

func (r *parserRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == scanCall {
		r.judge(e, st, c.in, false)
		r.compact(e, st)
	}
	return ActDefault
}

// compact drops what is known about the lines that are done with.
func (r *parserRule) compact(e *Engine, st *State) {
	for t := range st.facts {
		if t.any(func(x *Term) bool { return x.op == OpOld || x.isCall(scanText) || x.isCall(scanCall) }) {
			delete(st.facts, t)
		}
	}
	if m := st.mon.get("ret"); m != nil {
		j := 0
		for _, x := range st.maps {
			if x.m != m {
				st.maps[j] = x
				j++
			}
		}
		st.maps = st.maps[:j]
		st.esc[m] = true
	}
	lf, cur := r.lastField(e, st), e.cell(st, r.recv(e), r.last)
	delete(st.mon, "widened")
	if lf == nil || cur.isConst() {
		return
	}
	for a, v := range st.mem {
		if a.op == OpField && a.name == r.last && v == cur {
			if e.emptyString(st, lf) {
				st.mem[a] = e.ts.Str("")
				continue
			}
			n := "lastfield"
			if e.knownNonEmpty(st, lf) {
				n = "lastfield:set"
			}
			y := e.ts.mk(OpSym, n, lf.typ)
			if n == "lastfield:set" {
				e.upd(st, y, func(f *Fact) { f.ne = []*Term{e.ts.Str("")} })
			}
			st.mem[a] = y
		}
	}
}

func (r *parserRule) After(e *Engine, st *State, c *Call, res *Term) {
	switch c.name {
	case scanCall:
		if st.mon.flag("ended") {
			// the scanner stays at the end of its input
			e.upd(st, res, func(f *Fact) { f.truth = No })
		}
	case scanText:
		if st.mon.flag("line") {
			st.mon.set("text", res)
		}
	case scanErr:
		if e.nilness(st, res) == Yes {
			st.mon.set("errnil", e.ts.True)
		}
	}
}

// startsWith says whether the first character of l is known to be one of cs.
func (r *parserRule) startsWith(e *Engine, st *State, l *Term, cs string) bool {
	for _, name := range []string{"index"} {
		for _, typ := range []types.Type{types.Typ[types.Byte], types.Typ[types.Uint8]} {
			x := e.ts.mk(OpApp, name, typ, l, e.ts.Int(0))
			if v := e.eqOf(st, x); v != nil {
				if n, ok := v.int(); ok && n < 128 && strings.ContainsRune(cs, rune(n)) {
					return true
				}
			}
		}
	}
	for _, c := range cs {
		if e.truth(st, e.ts.mk(OpApp, "strings.HasPrefix", types.Typ[types.Bool], l, e.ts.Str(string(c)))) == Yes {
			return true
		}
	}
	return false
}

func (r *parserRule) isEmpty(e *Engine, st *State, l *Term) Tri {
	if e.emptyString(st, l) {
		return Yes
	}
	if e.knownNonEmpty(st, l) {
		return No
	}
	if x := e.eqOf(st, l); x != nil {
		if s, ok := x.str(); ok {
			return tri(s == "")
		}
	}
	if e.truth(st, e.eq(e.ts.mk(OpApp, "len", types.Typ[types.Int], l), e.ts.Int(0))) == No {
		return No
	}
	return Unknown
}

func (r *parserRule) retLen(e *Engine, st *State) Tri {
	m := st.mon.get("ret")
	if m == nil {
		return Unknown
	}
	n := e.length(st, m, m.typ)
	switch e.truth(st, e.eq(n, e.ts.Int(0))) {
	case Yes:
		return Yes
	case No:
		return No
	}
	lo, hi, hl, hh := e.bounds(st, n)
	if hl && lo >= 1 {
		return No
	}
	if hh && hi <= 0 {
		return Yes
	}
	return Unknown
}

// keyOf says whether k is the name of the field on line l.
func keyOf(k, l *Term) bool {
	s, i := splitPart(k)
	if s == l && i == 0 {
		return true
	}
	return false
}

// splitPart recognises the parts of a line cut at its first colon.
func splitPart(t *Term) (*Term, int64) { return splitAt(t, ":") }

// splitAt recognises the parts of a string cut at the first separator.
func splitAt(t *Term, by string) (*Term, int64) {
	var arr, idx *Term
	if t.isApp("index") {
		arr, idx = t.args[0], t.args[1]
	} else {
		arr, idx = lineOf(t)
	}
	if arr != nil && arr.isApp("strings.SplitN") && len(arr.args) == 3 {
		sep, _ := arr.args[1].str()
		n, _ := arr.args[2].int()
		i, ok := idx.int()
		if sep == by && n == 2 && ok {
			return arr.args[0], i
		}
	}
	if t.op == OpApp && (t.name == "strings.Cut" || t.name == "strings.Cut#1") {
		if sep, _ := t.args[1].str(); sep == by {
			if t.name == "strings.Cut" {
				return t.args[0], 0
			}
			return t.args[0], 1
		}
	}
	colon := func(x, s *Term) bool {
		if x == nil || len(x.args) != 2 || x.args[0] != s {
			return false
		}
		if x.isApp("strings.Index") || x.isApp("strings.IndexRune") || x.isApp("strings.IndexByte") {
			if c, ok := x.args[1].str(); ok {
				return c == by
			}
			n, ok := x.args[1].int()
			return ok && n == int64(by[0])
		}
		return false
	}
	if t.isApp("slice") {
		s, lo, hi := t.args[0], t.args[1], t.args[2]
		if n, ok := lo.int(); ok && n == 0 && colon(hi, s) {
			return s, 0
		}
		if hi.op == OpNil && lo.isApp("+") {
			for k := 0; k < 2; k++ {
				if n, ok := lo.args[k].int(); ok && n == 1 && colon(lo.args[1-k], s) {
					return s, 1
				}
			}
		}
	}
	return nil, -1
}

// trimmed looks through the removal of blanks around a value.
func trimmed(t *Term) (*Term, bool) {
	any := false
	for t.op == OpApp {
		switch t.name {
		case "strings.TrimSpace":
			t, any = t.args[0], true
			continue
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
			cs, ok := t.args[1].str()
			if !ok || strings.Trim(cs, " \t\r\n") != "" {
				return t, any
			}
			t, any = t.args[0], true
			continue
		}
		break
	}
	return t, any
}

// category keeps states apart that judge treats differently.
func (r *parserRule) category(e *Engine, st *State) string {
	var sb strings.Builder
	add := func(b bool) {
		if b {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	for _, k := range []string{"line", "ended", "errnil", "kept", "ret"} {
		add(st.mon.flag(k))
	}
	for _, k := range []string{"kept", "mode"} {
		if t := st.mon.get(k); t != nil {
			sb.WriteString(t.name)
		}
	}
	sb.WriteByte('0' + byte(r.retLen(e, st)))
	lf := r.lastField(e, st)
	add(lf != nil && e.emptyString(st, lf))
	add(lf != nil && e.knownNonEmpty(st, lf))
	if l := st.mon.get("text"); l != nil {
		sb.WriteByte('0' + byte(r.isEmpty(e, st, l)))
		add(r.startsWith(e, st, l, "#"))
		add(r.startsWith(e, st, l, " \t"))
		sb.WriteByte('0' + byte(e.truth(st, e.eq(l, e.ts.Str(pgpSigned)))))
		sb.WriteByte('0' + byte(e.truth(st, e.eq(l, e.ts.Str(pgpSig)))))
		add(lf != nil && keyOf(lf, l))
		add(r.emptyValue(e, st, l))
	}
	return sb.String()
}

func (r *parserRule) lastField(e *Engine, st *State) *Term {
	lf := e.cell(st, r.recv(e), r.last)
	if w := st.mon.get("widened"); w != nil && w.args[0] == lf {
		return w.args[1]
	}
	return lf
}

// judge decides whether the line read last was accounted for.
func (r *parserRule) judge(e *Engine, st *State, in ssa.Instruction, exit bool) {
	pos := r.fn.Pos()
	if in != nil {
		pos = in.Pos()
	}
	if !st.mon.flag("line") {
		return
	}
	l := st.mon.get("text")
	kept := st.mon.get("kept")
	mode := st.mon.get("mode")
	for _, k := range []string{"line", "text", "kept", "append", "lookup"} {
		delete(st.mon, k)
	}
	if mode == e.mark("sig") {
		r.rep.oblige(ruleLines, "signature lines", pos)
		return
	}
	if l == nil {
		r.rep.violate(ruleLines, "unread line", pos, "a line is skipped without looking at it", st.trace)
		return
	}
	if mode == e.mark("hdr") {
		switch r.isEmpty(e, st, l) {
		case Yes:
			delete(st.mon, "mode")
		case Unknown:
			r.rep.violate(ruleLines, "PGP header", pos, "a line after the PGP header is skipped without knowing that it is a part of the header", st.trace)
		}
		r.rep.oblige(ruleLines, "PGP header", pos)
		return
	}
	lf := r.lastField(e, st)
	switch {
	case kept != nil && kept.name == "cont":
		r.rep.oblige(ruleLines, "continuation", pos)
	case kept != nil:
		r.rep.check(lf == kept.args[0], ruleLines, "field", pos, st, "the latest field is not remembered after a new field")
	case r.isEmpty(e, st, l) == Yes:
		if exit {
			r.rep.oblige(ruleLines, "empty line", pos)
			return
		}
		n := r.retLen(e, st)
		r.rep.check(n == Yes, ruleLines, "empty line", pos, st, "goes on reading after an empty line although the paragraph may have fields")
		s, ok := "?", false
		if lf != nil {
			s, ok = lf.str()
		}
		r.rep.check(ok && s == "" || lf != nil && e.emptyString(st, lf), ruleLines, "empty line forgets the latest field", pos, st, "the latest field is still remembered after an empty line")
	case r.startsWith(e, st, l, "#"):
		r.rep.oblige(ruleLines, "comment", pos)
	case e.truth(st, e.eq(l, e.ts.Str(pgpSigned))) == Yes:
		st.mon.set("mode", e.mark("hdr"))
		ok := false
		for _, f := range r.flag {
			v := e.cell(st, r.recv(e), f)
			if v != nil && e.truth(st, v) == Yes {
				ok = true
			}
		}
		r.rep.check(ok, ruleLines, "PGP message", pos, st, "a PGP message is not remembered")
	case e.truth(st, e.eq(l, e.ts.Str(pgpSig))) == Yes:
		ok := false
		for _, f := range r.flag {
			v := e.cell(st, r.recv(e), f)
			if v != nil && e.truth(st, v) == Yes {
				ok = true
			}
		}
		r.rep.check(ok, ruleLines, "PGP signature", pos, st, "a signature is skipped outside of a PGP message")
		st.mon.set("mode", e.mark("sig"))
	default:
		// a field with an empty value
		ok := false
		if lf != nil && keyOf(lf, l) {
			for _, f := range st.facts {
				_ = f
			}
			ok = r.emptyValue(e, st, l)
		}
		r.rep.check(ok, ruleLines, "other line", pos, st, "a line is dropped")
	}
}

// emptyValue says whether the value on line l is known to be empty.
func (r *parserRule) emptyValue(e *Engine, st *State, l *Term) bool {
	for t := range st.facts {
		for _, x := range append([]*Term{t}, t.args...) {
			y, trim := trimmed(x)
			if !trim {
				continue
			}
			if s, i := splitPart(y); s == l && i == 1 && e.emptyString(st, x) {
				return true
			}
		}
	}
	return false
}

func (r *parserRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvMakeMap:
		if typeName(ev.a.typ) == "apt.Paragraph" || strings.HasSuffix(ev.a.typ.Underlying().String(), "map[string][]string") {
			if st.mon.flag("ret") {
				r.rep.violate(ruleOrder, "paragraph", ev.in.Pos(), "more than one paragraph is built", st.trace)
			}
			st.mon.set("ret", ev.a)
		}
	case EvAssume:
		if ev.a.isCall(scanCall) {
			if ev.ok {
				st.mon.set("line", e.ts.True)
			} else {
				st.mon.set("ended", e.ts.True)
			}
		}
	case EvWiden:
		if ev.a == e.cell(st, r.recv(e), r.last) {
			st.mon.set("widened", e.ts.mk(OpApp, "widened", nil, ev.a, ev.b))
		}
	case EvMapLookup:
		if ev.a == st.mon.get("ret") {
			st.mon.set("lookup", e.ts.mk(OpApp, "lookup", nil, ev.b, ev.c))
		}
	case EvAppend:
		if ev.b.op == OpSlice && len(ev.b.args) == 1 {
			st.mon.set("append", e.ts.mk(OpApp, "appended", nil, ev.c, ev.a, ev.b.args[0]))
		}
	case EvMapDelete:
		if ev.a == st.mon.get("ret") {
			r.rep.violate(ruleOrder, "delete", ev.in.Pos(), "a field is removed", st.trace)
		}
	case EvMapUpdate:
		if ev.a != st.mon.get("ret") {
			return
		}
		l := st.mon.get("text")
		lk := st.mon.get("lookup")
		if l == nil || st.mon.flag("kept") {
			r.rep.violate(ruleOrder, "field values", ev.in.Pos(), "a value is added that is not from a new line", st.trace)
			return
		}
		// the value is appended to what the field had
		var v *Term
		if lk != nil && lk.args[0] == ev.b {
			old := lk.args[1]
			if ap := st.mon.get("append"); ap != nil && ap.args[0] == ev.c && ap.args[1] == old {
				v = ap.args[2]
			} else if ev.c.op == OpSlice && old.op == OpNil && len(ev.c.args) == 1 {
				v = ev.c.args[0]
			}
		}
		if !r.rep.check(v != nil, ruleOrder, "field values", ev.in.Pos(), st, "a value is not added at the end of the values of its field") {
			return
		}
		x, trim := trimmed(v)
		if s, i := splitPart(x); trim && s == l && i == 1 {
			r.rep.check(keyOf(ev.b, l), ruleOrder, "field name", ev.in.Pos(), st, "the value of a field is added to field %s", ev.b)
			st.mon.set("kept", e.ts.mk(OpApp, "field", nil, ev.b))
			return
		}
		ok := trim && x == l && ev.b == r.lastField(e, st) && e.knownNonEmpty(st, ev.b) && r.startsWith(e, st, l, " \t")
		r.rep.check(ok, ruleOrder, "continuation", ev.in.Pos(), st, "a continuation line is added to field %s, which may not be the latest field", ev.b)
		st.mon.set("kept", e.ts.mk(OpApp, "cont", nil))
	}
	if !rootReturn(st, ev) {
		return
	}
	er := errOf(r.fn, ev.a)
	if er == nil {
		return
	}
	pos := r.fn.Pos()
	ended := st.mon.flag("ended")
	if ended && (e.nilness(st, er) == Yes || isEOF(er)) {
		r.rep.check(st.mon.flag("errnil"), ruleEOF, "scanner error", pos, st, "takes a failure to read a line for the end of the input")
	}
	switch {
	case e.nilness(st, er) == Yes:
		empty := false
		if l := st.mon.get("text"); l != nil && st.mon.get("mode") == nil && !st.mon.flag("kept") && r.isEmpty(e, st, l) == Yes {
			empty = true
		}
		r.judge(e, st, nil, true)
		r.rep.check(comps(ev.a)[0] == st.mon.get("ret"), ruleEnds, "result", pos, st, "returns another paragraph than the one that was read")
		r.rep.check(r.retLen(e, st) == No, ruleEnds, "no empty paragraph", pos, st, "returns a paragraph that may be empty")
		r.rep.check(ended || empty, ruleEnds, "end of paragraph", pos, st, "ends a paragraph before an empty line or the end of the input")
		if st.mon.get("mode") == e.mark("sig") {
			r.rep.check(ended, ruleEnds, "end of signature", pos, st, "ends before the end of the signature")
		}
		lf := r.lastField(e, st)
		ok := lf != nil && e.emptyString(st, lf)
		if lf != nil {
			if s, isS := lf.str(); isS && s == "" {
				ok = true
			}
		}
		r.rep.check(ok, ruleLines, "the latest field is forgotten at the end", pos, st, "a continuation at the beginning of the next paragraph would be added to a field of this one")
	case isEOF(er):
		r.judge(e, st, nil, true)
		r.rep.check(ended, ruleEOF, "input", pos, st, "reports io.EOF before the input has ended")
		r.rep.check(r.retLen(e, st) == Yes, ruleEOF, "paragraph", pos, st, "drops a paragraph at the end of the input")
	}
}

func init() {
	register("A07", "line-accounting typestate dataflow over the SSA form of the parser",
		"Covers every path of Parser.Read with arbitrary line contents and parser state; bufio.Scanner is taken at its word."+trust,
		"On every path of Parser.Read each line got from the scanner is, by the facts established about it, a comment, an empty line (before any field, or ending the paragraph), PGP armor, a field whose value is appended to its own name's values, a continuation appended to the remembered latest field, or leads to an error; a paragraph is returned only at an empty line or the end, io.EOF only at the end of the input with no field read.", func(p *Program, rep *Report) {
			fn := need(p, rep, "apt", "Parser.Read")
			t := p.typ("apt", "Parser")
			if fn == nil || t == nil {
				rep.missing("apt.Parser")
				return
			}
			r := &parserRule{rep: rep, fn: fn}
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					b, ok := s.Field(i).Type().Underlying().(*types.Basic)
					switch {
					case ok && b.Kind() == types.String:
						r.last = "apt.Parser." + s.Field(i).Name()
					case ok && b.Kind() == types.Bool:
						r.flag = append(r.flag, "apt.Parser."+s.Field(i).Name())
					}
				}
			}
			if r.last == "" {
				rep.missing("the latest field kept in apt.Parser")
				return
			}
			e := newEngine(p, rep, r)
			e.joinAt = 400
			e.coarseExtra = func(st *State) string { return r.category(e, st) }
			e.keepCell = func(a *Term) bool { return a.op == OpField && strings.HasPrefix(a.name, "apt.Parser.") }
			e.keepFact = func(t *Term) bool {
				return t.any(func(x *Term) bool { return x.isCall(scanText) || x.isApp("maplen") })
			}
			e.runRoot(fn, nil)
			rep.floor(ruleLines, 7)
			rep.floor(ruleOrder, 3)
			rep.floor(ruleEnds, 3)
			rep.floor(ruleEOF, 2)
		})
}
