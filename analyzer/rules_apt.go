package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fiPath   = "apt.FileInfo.path"
	fiSize   = "apt.FileInfo.size"
	fiMD5    = "apt.FileInfo.md5sum"
	fiSHA1   = "apt.FileInfo.sha1sum"
	fiSHA256 = "apt.FileInfo.sha256sum"
)

// fiFields maps the roles of FileInfo's fields to their names.
var digestFields = []string{fiMD5, fiSHA1, fiSHA256}

// checkFileInfo makes sure that the fields the apt rules are about exist.
func checkFileInfo(p *Program, rep *Report) bool {
	t := p.typ("apt", "FileInfo")
	if t == nil {
		rep.missing("apt.FileInfo")
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		rep.missing("apt.FileInfo")
		return false
	}
	have := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		have["apt.FileInfo."+st.Field(i).Name()] = true
	}
	for _, f := range append([]string{fiPath, fiSize}, digestFields...) {
		if !have[f] {
			rep.missing(f)
			return false
		}
	}
	return true
}

// aptEngine is an engine that keeps what it reads from descriptors.
func aptEngine(p *Program, rep *Report, rule Rule) *Engine {
	e := newEngine(p, rep, rule)
	e.joinAt = 400
	e.keepCell = func(a *Term) bool { return a.op == OpField && strings.HasPrefix(a.name, "apt.FileInfo.") }
	e.keepFact = func(t *Term) bool {
		return t.any(func(x *Term) bool {
			return x.op == OpField && strings.HasPrefix(x.name, "apt.FileInfo.") || x.isApp("strings.Fields")
		})
	}
	return e
}

// ---- A01

type sameRule struct {
	NopRule
	rep *Report
	fn  *ssa.Function
}

func (r *sameRule) On(e *Engine, st *State, ev *Event) {
	if !rootReturn(st, ev) {
		return
	}
	cs := comps(ev.a)
	if len(cs) != 1 {
		return
	}
	res := cs[0]
	switch e.truth(st, res) {
	case Yes:
		r.yes(e, st)
	case No:
		r.no(e, st)
	default:
		s2 := st.clone()
		if e.assume(st, res, true) {
			r.yes(e, st)
		}
		if e.assume(s2, res, false) {
			r.no(e, s2)
		}
	}
}

func (r *sameRule) val(e *Engine, st *State, obj, f string) *Term {
	o := e.ts.mk(OpParam, obj, nil)
	a := e.ts.mk(OpField, f, nil, o)
	if v := st.mem[a]; v != nil {
		return v
	}
	if !e.p.mutField[f] {
		return e.ts.mk(OpLoad, "", nil, a)
	}
	return nil
}

func (r *sameRule) params() (string, string) {
	return "recv", r.fn.Params[1].Name()
}

func (r *sameRule) yes(e *Engine, st *State) {
	x, y := r.params()
	if e.truth(st, e.eq(e.ts.mk(OpParam, x, nil), e.ts.mk(OpParam, y, nil))) == Yes {
		r.rep.oblige("a match is only reported for equal descriptors", "identical objects", r.fn.Pos())
		return
	}
	for _, f := range []string{fiPath, fiSize} {
		a, b := r.val(e, st, x, f), r.val(e, st, y, f)
		ok := a != nil && b != nil && e.sameValue(st, a, b) == Yes
		r.rep.check(ok, "a match is only reported for equal descriptors", f, r.fn.Pos(), st, "reports a match although %s may differ", f)
	}
	for _, f := range digestFields {
		a, b := r.val(e, st, x, f), r.val(e, st, y, f)
		ok := a != nil && (e.absent(st, a) == Yes || b != nil && e.sameValue(st, a, b) == Yes)
		r.rep.check(ok, "a match is only reported for equal descriptors", f, r.fn.Pos(), st, "reports a match although the expected %s may be present and differ", f)
	}
}

func (r *sameRule) no(e *Engine, st *State) {
	x, y := r.params()
	ok := false
	for _, f := range []string{fiPath, fiSize} {
		a, b := r.val(e, st, x, f), r.val(e, st, y, f)
		if a != nil && b != nil && e.sameValue(st, a, b) == No {
			ok = true
		}
	}
	for _, f := range digestFields {
		a, b := r.val(e, st, x, f), r.val(e, st, y, f)
		if a != nil && b != nil && e.absent(st, a) == No && e.sameValue(st, a, b) == No {
			ok = true
		}
		// a present and an absent digest differ
		if a != nil && b != nil && e.absent(st, a) == No && e.absent(st, b) == Yes {
			ok = true
		}
	}
	if e.nilness(st, e.ts.mk(OpParam, y, nil)) == Yes {
		ok = true // no descriptor at all
	}
	r.rep.check(ok, "a mismatch is only reported for differing descriptors", "result false", r.fn.Pos(), st, "reports a mismatch although nothing is known to differ")
}

func init() {
	register("A01", "path-sensitive dataflow over the SSA form of FileInfo.Same with per-exit obligations",
		"Covers every path of Same; comparisons are recognised as bytes.Equal, bytes.Compare, string and scalar equality."+trust,
		"For every path through FileInfo.Same: an exit with true is reached only after path, size and each digest that is not absent in the receiver were established equal; an exit with false only after one of them was established to differ.", func(p *Program, rep *Report) {
			if !checkFileInfo(p, rep) {
				return
			}
			fn := need(p, rep, "apt", "FileInfo.Same")
			if fn == nil {
				return
			}
			e := aptEngine(p, rep, &sameRule{rep: rep, fn: fn})
			e.joinAt = 1 << 30
			e.runRoot(fn, nil)
			rep.floor("a match is only reported for equal descriptors", 5)
			rep.floor("a mismatch is only reported for differing descriptors", 1)
		})
}

// ---- A02

// hashKinds maps constructors to the field their digest belongs in.
var hashKinds = map[string]string{"crypto/md5.New": fiMD5, "crypto/sha1.New": fiSHA1, "crypto/sha256.New": fiSHA256}
var sumKinds = map[string]string{"crypto/md5.Sum": fiMD5, "crypto/sha1.Sum": fiSHA1, "crypto/sha256.Sum256": fiSHA256}

type copyRule struct {
	NopRule
	rep *Report
	fn  *ssa.Function
	ep  *errPolicy
}

// sinks are the writers that data written to w reach.
func sinks(w *Term) []*Term {
	if w.isCall("io.MultiWriter") && len(w.args) == 1 {
		if w.args[0].op == OpSlice {
			var l []*Term
			for _, a := range w.args[0].args {
				l = append(l, sinks(a)...)
			}
			return l
		}
	}
	return []*Term{w}
}

// source is the reader behind r and the writers that see what is read.
func source(r *Term) (*Term, []*Term) {
	if r.isCall("io.TeeReader") && len(r.args) == 2 {
		s, l := source(r.args[0])
		return s, append(l, sinks(r.args[1])...)
	}
	return r, nil
}

func (r *copyRule) After(e *Engine, st *State, c *Call, res *Term) {
	r.ep.after(e, st, c, res)
	switch c.name {
	case "io.Copy", "io.CopyBuffer":
		if e.nilness(st, comps(res)[1]) != Yes {
			return
		}
		src, tees := source(c.args[1])
		for _, w := range append(sinks(c.args[0]), tees...) {
			fed := e.ts.mk(OpApp, "fed", nil, w, src)
			if st.mon.has("fed", fed) {
				st.mon.add("twice", w)
			}
			st.mon.add("fed", fed)
		}
		st.mon.set("copied", e.ts.mk(OpApp, "n", nil, comps(res)[0], src))
	case "(hash.Hash).Write", "(io.Writer).Write":
		st.mon.add("fed", e.ts.mk(OpApp, "fed", nil, c.args[0], c.args[1]))
	case "(hash.Hash).Sum":
		// what the hash had seen when it was asked
		if e.nilness(st, c.args[1]) == Yes {
			for _, f := range st.mon["fed"] {
				if f.args[0] == c.args[0] && !st.mon.has("twice", c.args[0]) {
					st.mon.add("sum", e.ts.mk(OpApp, "sum", nil, comps(res)[0], c.args[0], f.args[1]))
				}
			}
		}
	}
}

func (r *copyRule) On(e *Engine, st *State, ev *Event) {
	if !rootReturn(st, ev) {
		return
	}
	er := errOf(r.fn, ev.a)
	r.ep.exit(e, st, er, "a descriptor is returned without an error")
	if er == nil {
		return
	}
	fi := comps(ev.a)[0]
	if e.nilness(st, er) == No {
		r.rep.check(e.nilness(st, fi) == Yes, "a failed copy produces no descriptor", "error return", r.fn.Pos(), st, "returns a descriptor along with an error")
		return
	}
	dst := e.ts.mk(OpParam, r.fn.Params[0].Name(), nil)
	src := e.ts.mk(OpParam, r.fn.Params[1].Name(), nil)
	pth := e.ts.mk(OpParam, r.fn.Params[2].Name(), nil)
	rule := "a descriptor describes what was copied"
	get := func(f string) *Term { return e.cell(st, fi, f) }
	r.rep.check(get(fiPath) == pth, rule, fiPath, r.fn.Pos(), st, "the path is not the given one")
	n := st.mon.get("copied")
	r.rep.check(n != nil && n.args[1] == src && get(fiSize) == n.args[0], rule, fiSize, r.fn.Pos(), st, "the size is not the number of bytes copied from the source")
	okDst := st.mon.has("fed", e.ts.mk(OpApp, "fed", nil, dst, src)) && !st.mon.has("twice", dst)
	r.rep.check(okDst, rule, "destination", r.fn.Pos(), st, "the destination does not receive exactly the source")
	for _, f := range digestFields {
		v := get(f)
		ok := false
		if v != nil {
			for _, s := range st.mon["sum"] {
				if s.args[0] == v && s.args[2] == src {
					for k, kf := range hashKinds {
						if s.args[1].isCall(k) && kf == f {
							ok = true
						}
					}
				}
			}
		}
		r.rep.check(ok, rule, f, r.fn.Pos(), st, "%s is not the digest of exactly the copied data", f)
	}
}

type calcRule struct {
	NopRule
	rep *Report
	fn  *ssa.Function
	cp  *copyRule
}

func (r *calcRule) After(e *Engine, st *State, c *Call, res *Term) {
	switch c.name {
	case "(hash.Hash).Write", "(hash.Hash).Sum":
		r.cp.After(e, st, c, res)
	}
}

func (r *calcRule) On(e *Engine, st *State, ev *Event) {
	if !rootReturn(st, ev) {
		return
	}
	recv := e.ts.mk(OpParam, "recv", nil)
	data := e.ts.mk(OpParam, r.fn.Params[1].Name(), nil)
	rule := "checksums of data in memory are computed from that data"
	sz := e.cell(st, recv, fiSize)
	r.rep.check(sz != nil && sz.isApp("len") && sz.args[0] == data, rule, fiSize, r.fn.Pos(), st, "the size is not the length of the data")
	for _, f := range digestFields {
		v := e.cell(st, recv, f)
		ok := false
		if v != nil {
			for k, kf := range sumKinds {
				if v.isApp(k) && kf == f && v.args[0] == data {
					ok = true
				}
			}
			for _, s := range st.mon["sum"] {
				if s.args[0] == v && s.args[2] == data {
					for k, kf := range hashKinds {
						if s.args[1].isCall(k) && kf == f {
							ok = true
						}
					}
				}
			}
		}
		r.rep.check(ok, rule, f, r.fn.Pos(), st, "%s is not the digest of the data", f)
	}
}

func init() {
	register("A02", "path-sensitive provenance dataflow (which hash saw which bytes) over the SSA form",
		"Covers every path of CopyWithFileInfo and CalcChecksums; io.Copy, io.MultiWriter, io.TeeReader and the hash packages are taken at their word."+trust,
		"Every path of CopyWithFileInfo that returns no error returns a descriptor with the given path, the byte count of the one copy of the source, and digests asked of hashes of the right kind after exactly that copy fed them, and the destination was fed the same; every failure of a call is reported without a descriptor. CalcChecksums sets size and digests from its argument.", func(p *Program, rep *Report) {
			if !checkFileInfo(p, rep) {
				return
			}
			fn := need(p, rep, "apt", "CopyWithFileInfo")
			if fn != nil {
				r := &copyRule{rep: rep, fn: fn}
				r.ep = &errPolicy{rep: rep, rule: "a failing call makes the copy fail", exempt: func(_ *Engine, _ *State, c *Call) bool {
					return strings.HasPrefix(c.name, "(hash.Hash)")
				}}
				aptEngine(p, rep, r).runRoot(fn, nil)
			}
			fn = need(p, rep, "apt", "FileInfo.CalcChecksums")
			if fn != nil {
				aptEngine(p, rep, &calcRule{rep: rep, fn: fn, cp: &copyRule{rep: rep, fn: fn, ep: &errPolicy{rep: rep, rule: "-", exempt: func(*Engine, *State, *Call) bool { return true }}}}).runRoot(fn, nil)
			}
			rep.floor("a descriptor describes what was copied", 6)
			rep.floor("checksums of data in memory are computed from that data", 4)
			rep.floor("a failed copy produces no descriptor", 1)
		})
}

// ---- A04

type jsonRule struct {
	NopRule
	rep  *Report
	fn   *ssa.Function
	ep   *errPolicy
	dec  bool
	maps map[string]string // descriptor field -> JSON name (encoding); reverse for decoding
	bad  bool
}

// jsonName is the name a struct field has in JSON; "" if it is not encoded.
func jsonName(t types.Type, field string) string {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != field || !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		n, _, _ := strings.Cut(tag, ",")
		if n == "-" {
			return ""
		}
		if n != "" {
			return n
		}
		return field
	}
	return ""
}

func fieldName(key string) string { return key[strings.LastIndexByte(key, '.')+1:] }

// fiOf is the descriptor field of recv that a value was read from.
func fiOf(t *Term) string {
	var a *Term
	switch {
	case t.op == OpLoad:
		a = t.args[0]
	case t.op == OpSym && t.symKind() == "load" && len(t.args) == 1:
		a = t.args[0]
	default:
		return ""
	}
	if a.op == OpField && strings.HasPrefix(a.name, "apt.FileInfo.") && a.args[0].op == OpParam && a.args[0].name == "recv" {
		return a.name
	}
	return ""
}

func (r *jsonRule) Call(e *Engine, st *State, c *Call) Action {
	if r.dec || (c.name != "encoding/json.Marshal" && c.name != "encoding/json.MarshalIndent") {
		return ActDefault
	}
	obj := c.args[0]
	if obj.typ == nil {
		return ActDefault
	}
	s, ok := deref(obj.typ).Underlying().(*types.Struct)
	if !ok {
		return ActDefault
	}
	st.mon.set("marshalled", e.ts.True)
	rule := "encoding keeps every field in its own place"
	for i := 0; i < s.NumFields(); i++ {
		fk := typeName(deref(obj.typ)) + "." + s.Field(i).Name()
		var v *Term
		if obj.op == OpStruct {
			v = obj.args[i]
		} else {
			v = e.cell(st, obj, fk)
			if v == nil && e.local(st, e.ts.mk(OpField, fk, nil, obj)) {
				v = e.zero(s.Field(i).Type())
			}
		}
		if v == nil {
			continue
		}
		n := jsonName(obj.typ, s.Field(i).Name())
		src := ""
		switch {
		case v.isApp("encoding/hex.EncodeToString"):
			src = fiOf(v.args[0])
		case fiOf(v) != "":
			src = fiOf(v)
		default:
			if str, ok := v.str(); ok && str == "" {
				continue // absent: checked below
			}
		}
		r.rep.check(src != "" && n != "", rule, fk, c.pos(), st, "%s is encoded from %s", fk, v)
		if src == "" || n == "" {
			continue
		}
		if old, ok := r.maps[src]; ok && old != n {
			r.rep.violate(rule, src, c.pos(), src+" is encoded under two names", st.trace)
		}
		r.maps[src] = n
		st.mon.add("enc", e.mark(src))
	}
	for _, f := range digestFields {
		if st.mon.has("enc", e.mark(f)) {
			r.rep.oblige("present digests are encoded", f, c.pos())
			continue
		}
		v := e.cell(st, e.ts.mk(OpParam, "recv", nil), f)
		r.rep.check(v != nil && e.absent(st, v) == Yes, "present digests are encoded", f, c.pos(), st, "%s may be present but is not encoded", f)
	}
	for _, f := range []string{fiPath, fiSize} {
		r.rep.check(st.mon.has("enc", e.mark(f)), "present digests are encoded", f, c.pos(), st, "%s is not encoded", f)
	}
	return ActDefault
}

func (r *jsonRule) After(e *Engine, st *State, c *Call, res *Term) {
	r.ep.after(e, st, c, res)
	if r.dec && c.name == "encoding/json.Unmarshal" {
		if len(c.args) == 2 && c.args[0].op == OpParam {
			st.mon.set("decoded", c.args[1])
		}
	}
	if !r.dec && strings.HasPrefix(c.name, "encoding/json.Marshal") {
		st.mon.set("data", comps(res)[0])
	}
}

func (r *jsonRule) On(e *Engine, st *State, ev *Event) {
	if !rootReturn(st, ev) {
		return
	}
	er := errOf(r.fn, ev.a)
	r.ep.exit(e, st, er, "no error is returned")
	if er == nil || e.nilness(st, er) == No {
		return
	}
	if !r.dec {
		d := st.mon.get("data")
		r.rep.check(d != nil && comps(ev.a)[0] == d, "the result is the encoded structure", "result", r.fn.Pos(), st, "returns something else than what json.Marshal produced")
		return
	}
	obj := st.mon.get("decoded")
	if !r.rep.check(obj != nil, "decoding restores every field from its own place", "data", r.fn.Pos(), st, "succeeds without decoding the data") {
		return
	}
	recv := e.ts.mk(OpParam, "recv", nil)
	// jsonOf is the JSON name a value was read from
	jsonOf := func(t *Term) string {
		if t.op == OpSym && t.symKind() == "load" && len(t.args) == 1 && t.args[0].op == OpField && t.args[0].args[0] == obj {
			return jsonName(obj.typ, fieldName(t.args[0].name))
		}
		if t.op == OpLoad && t.args[0].op == OpField && t.args[0].args[0] == obj {
			return jsonName(obj.typ, fieldName(t.args[0].name))
		}
		return ""
	}
	for _, f := range append([]string{fiPath, fiSize}, digestFields...) {
		v := e.cell(st, recv, f)
		rule := "decoding restores every field from its own place"
		if v == nil {
			r.rep.violate(rule, f, r.fn.Pos(), f+" is not restored", st.trace)
			continue
		}
		n := jsonOf(v)
		if n == "" && v.isApp("encoding/hex.DecodeString") {
			n = jsonOf(v.args[0])
			s := v.args[0]
			r.rep.check(e.absent(st, s) != Yes && e.knownNonEmpty(st, s), "an absent digest stays absent", f, r.fn.Pos(), st, "an empty string is decoded to a digest that is present")
		} else if n == "" && e.nilness(st, v) == Yes {
			// absent: the string must be known to be empty
			ok := false
			if js, isStruct := deref(obj.typ).Underlying().(*types.Struct); isStruct {
				for i := 0; i < js.NumFields(); i++ {
					nm := js.Field(i).Name()
					if jsonName(obj.typ, nm) != r.maps[f] {
						continue
					}
					w := e.cell(st, obj, typeName(deref(obj.typ))+"."+nm)
					ok = ok || w != nil && e.emptyString(st, w)
				}
			}
			r.rep.check(ok, "an absent digest stays absent", f, r.fn.Pos(), st, "%s is dropped although it may be present", f)
			continue
		}
		want := r.maps[f]
		r.rep.check(n != "" && n == want, rule, f, r.fn.Pos(), st, "%s is encoded as %q but restored from %s", f, want, v)
	}
}

// knownNonEmpty says whether a string was tested for not being empty.
func (e *Engine) knownNonEmpty(st *State, s *Term) bool {
	lo, _, hl, _ := e.bounds(st, e.ts.mk(OpApp, "len", nil, s))
	if hl && lo > 0 {
		return true
	}
	if f, ok := st.facts[s]; ok {
		for _, x := range f.ne {
			if y, ok := x.str(); ok && y == "" {
				return true
			}
		}
	}
	return false
}

func (e *Engine) emptyString(st *State, s *Term) bool {
	if e.truth(st, e.eq(s, e.ts.Str(""))) == Yes {
		return true
	}
	_, hi, _, hh := e.bounds(st, e.ts.mk(OpApp, "len", nil, s))
	if hh && hi <= 0 {
		return true
	}
	if x := e.eqOf(st, s); x != nil {
		if y, ok := x.str(); ok && y == "" {
			return true
		}
	}
	return false
}

func init() {
	register("A04", "path-sensitive provenance dataflow over the SSA form, encoder and decoder composed field by field",
		"Covers every path of MarshalJSON and UnmarshalJSON; encoding/json and encoding/hex are taken at their word."+trust,
		"The mapping of descriptor fields to JSON names that MarshalJSON uses and the one UnmarshalJSON uses are inverse to each other on every path; digests pass through hex encoding and decoding, the empty string stands for an absent one in both directions, and every failing call makes decoding fail.", func(p *Program, rep *Report) {
			if !checkFileInfo(p, rep) {
				return
			}
			maps := map[string]string{}
			for _, n := range []string{"FileInfo.MarshalJSON", "FileInfo.UnmarshalJSON"} {
				fn := need(p, rep, "apt", n)
				if fn == nil {
					return
				}
				r := &jsonRule{rep: rep, fn: fn, dec: strings.Contains(n, "Un"), maps: maps}
				r.ep = &errPolicy{rep: rep, rule: "malformed data are an error"}
				e := aptEngine(p, rep, r)
				e.joinAt = 1 << 30
				e.keepCell = func(a *Term) bool { return a.op == OpField }
				e.keepFact = func(t *Term) bool { return true }
				e.runRoot(fn, nil)
			}
			used := map[string]string{}
			for f, n := range maps {
				if g := used[n]; g != "" {
					rep.violate("encoding keeps every field in its own place", n, token.NoPos, f+" and "+g+" are encoded under the same name", nil)
				}
				used[n] = f
			}
			rep.floor("encoding keeps every field in its own place", 5)
			rep.floor("decoding restores every field from its own place", 5)
			rep.floor("malformed data are an error", 2)
			rep.floor("an absent digest stays absent", 3)
		})
}
