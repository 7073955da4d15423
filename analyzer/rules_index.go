package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- index kinds, shared by A03, A05, A06 and A08

// indexKind describes how entries are written in a kind of index.
type indexKind struct {
	name  string
	bases []string
	// paragraph keys
	digest map[string]string // key -> descriptor field
	list   bool              // digest fields are lists of "digest size path" lines
	dirKey string            // key of the directory of entries, for lists
	path   string            // keys of single-valued fields
	size   string
	many   bool // more than one paragraph
}

var indexKinds = []*indexKind{
	{name: "Release", bases: []string{"Release", "InRelease", "Index"}, list: true,
		digest: map[string]string{"MD5Sum": fiMD5, "SHA1": fiSHA1, "SHA256": fiSHA256}},
	{name: "Packages", bases: []string{"Packages"}, many: true, path: "Filename", size: "Size",
		digest: map[string]string{"MD5sum": fiMD5, "SHA1": fiSHA1, "SHA256": fiSHA256}},
	{name: "Sources", bases: []string{"Sources"}, many: true, list: true, dirKey: "Directory",
		digest: map[string]string{"Files": fiMD5, "Checksums-Sha1": fiSHA1, "Checksums-Sha256": fiSHA256}},
}

func (k *indexKind) mandatory(key string) bool {
	return key != "" && (key == k.path || key == k.size || key == k.dirKey)
}

const (
	parserRead = "(*" + modulePath + "/apt.Parser).Read"
	scanCall   = "(*bufio.Scanner).Scan"
	scanErr    = "(*bufio.Scanner).Err"
)

// paragraph says whether t is (part of) what Parser.Read returned.
func isParagraph(t *Term) bool { return t.isCall(parserRead) && t.symIdx() == 0 }

// paraKey is the constant key of a paragraph that a list of lines was looked
// up with.
func paraKey(t *Term) string {
	if t.op == OpSym && t.symKind() == "mapval" && len(t.args) == 2 && isParagraph(t.args[0]) {
		s, _ := t.args[1].str()
		return s
	}
	return ""
}

// lineOf is the list and the index of a line of a paragraph.
func lineOf(t *Term) (*Term, *Term) {
	if t.op == OpSym && t.symKind() == "load" && len(t.args) == 1 && t.args[0].op == OpIndex {
		return t.args[0].args[0], t.args[0].args[1]
	}
	if t.op == OpLoad && t.args[0].op == OpIndex {
		return t.args[0].args[0], t.args[0].args[1]
	}
	return nil, nil
}

// extractEngine runs ExtractFileInfo for one file name.
func runExtract(p *Program, rep *Report, rule Rule, name string) *ssa.Function {
	fn := need(p, rep, "apt", "ExtractFileInfo")
	if fn == nil {
		return nil
	}
	e := aptEngine(p, rep, rule)
	e.runRoot(fn, func(st *State, args []*Term) { args[0] = e.ts.Str(name) })
	return fn
}

// ---- A05

type damageRule struct {
	NopRule
	rep  *Report
	fn   *ssa.Function
	kind *indexKind
	ep   *errPolicy
}

func (r *damageRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == parserRead {
		return ActOpaque
	}
	return ActDefault
}

func (r *damageRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.name == parserRead && r.kind.many {
		er := comps(res)[1]
		if e.nilness(st, er) == Yes {
			r.rep.oblige("failures are errors", e.inFn(st)+" calls Parser.Read", c.pos())
		} else {
			st.mon.set("readerr", er)
			r.rep.oblige("failures are errors", e.inFn(st)+" calls Parser.Read", c.pos())
		}
		return
	}
	r.ep.after(e, st, c, res)
}

func isEOF(t *Term) bool {
	return t != nil && (t.op == OpLoad || t.op == OpSym && t.symKind() == "load") && t.args[0].op == OpGlobal && t.args[0].name == "io.EOF"
}

func (r *damageRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvMapLookup:
		if k, ok := ev.b.str(); ok && isParagraph(ev.a) && r.kind.mandatory(k) {
			if i := st.findMap(ev.a, ev.b); i >= 0 && st.maps[i].ok == No {
				st.mon.add(monFailed, e.ts.mk(OpApp, "fail:mandatory field "+k+"\x00"+itoa(int(ev.in.Pos())), nil))
			}
		}
	case EvIndex:
		if ev.slot == "slice" {
			return
		}
		if k := paraKey(ev.a); k != "" && ev.b.isConst() {
			i := st.findMap(ev.a.args[0], ev.a.args[1])
			ok := i >= 0 && st.maps[i].ok == Yes
			n, _ := ev.b.int()
			if n > 0 {
				ok = r.known(e, st, ev.a, n)
			}
			r.rep.check(ok || r.known(e, st, ev.a, n), "fields are present before they are used", "field "+k, ev.in.Pos(), st, "uses field %s of a paragraph that may not have it", k)
		}
		if ev.a.isApp("strings.Fields") && ev.b.isConst() {
			n, _ := ev.b.int()
			r.rep.check(r.known(e, st, ev.a, n), "fields are present before they are used", "checksum line", ev.in.Pos(), st, "uses part %d of a line that may have fewer", n)
		}
	case EvStore:
		if ev.a.op == OpField && (ev.a.name == fiMD5 || ev.a.name == fiSHA1 || ev.a.name == fiSHA256) && r.kind.list {
			ev.b.any(func(t *Term) bool {
				if t.isApp("strings.Fields") {
					lo, hi, hl, hh := e.bounds(st, e.ts.mk(OpApp, "len", nil, t))
					r.rep.check(hl && hh && lo == 3 && hi == 3, "checksum lines have three parts", ev.a.name, ev.in.Pos(), st, "an entry is made of a line that may not have exactly three parts")
				}
				return false
			})
		}
	}
	if !rootReturn(st, ev) {
		return
	}
	er := errOf(r.fn, ev.a)
	r.ep.exit(e, st, er, "no error is reported")
	if er != nil && e.nilness(st, er) == No {
		return
	}
	if re := st.mon.get("readerr"); re != nil {
		x := e.eqOf(st, re)
		r.rep.check(isEOF(x) || isEOF(re), "failures are errors", r.kind.name+" ends", r.fn.Pos(), st, "no error is reported although reading a paragraph may have failed with another error than io.EOF")
	}
}

func (r *damageRule) known(e *Engine, st *State, list *Term, n int64) bool {
	lo, _, hl, _ := e.bounds(st, e.ts.mk(OpApp, "len", nil, list))
	return hl && lo > n
}

// scanRule: the end of the input is distinguished from a failure to read.
type scanRule struct {
	NopRule
	rep *Report
	fn  *ssa.Function
}

func (r *scanRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.name == scanErr {
		if e.nilness(st, res) == Yes {
			st.mon.del("ended", e.ts.True)
		} else {
			st.mon.add("scanerr", e.ts.True)
		}
	}
	if c.name == scanCall {
		st.mon.set("scan", res)
	}
}

func (r *scanRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvAssume && !ev.ok && ev.a.isCall(scanCall) {
		st.mon.add("ended", e.ts.True)
	}
	if ev.kind == EvReturn && st.top().fn.Signature.Results().Len() == 0 {
		return
	}
	if !rootReturn(st, ev) {
		return
	}
	er := errOf(r.fn, ev.a)
	if er == nil {
		return
	}
	if n := e.nilness(st, er); n == No && !isEOF(er) {
		return
	}
	r.rep.check(!st.mon.flag("ended") && !st.mon.flag("scanerr"), "the end of the input is not confused with a failure", "Parser.Read", r.fn.Pos(), st,
		"returns %s after the input ended without making sure that reading it did not fail", er.show(3))
}

func init() {
	register("A05", "error-flow typestate dataflow over the SSA form (pending failures must surface)",
		"Covers every path of ExtractFileInfo and Parser.Read for every kind and compression of index; bufio.Scanner, compress/*, strconv and encoding/hex are taken to report their failures."+trust,
		"On every path of ExtractFileInfo, for each kind and compression of index: a failing call, an absent mandatory field or a checksum line without exactly three parts leads to an error exit; Packages and Sources end without an error only when Parser.Read returned io.EOF. Parser.Read returns a paragraph or io.EOF after the scanner stopped only if its Err was nil.", func(p *Program, rep *Report) {
			if !checkFileInfo(p, rep) {
				return
			}
			for _, k := range indexKinds {
				for _, b := range k.bases {
					for _, ext := range []string{"", ".gz", ".bz2", ".xz"} {
						r := &damageRule{rep: rep, kind: k, fn: p.fn("apt", "ExtractFileInfo")}
						r.ep = &errPolicy{rep: rep, rule: "failures are errors", exempt: func(_ *Engine, _ *State, c *Call) bool {
							return strings.HasSuffix(c.name, ").Close") || strings.HasPrefix(c.name, "github.com/pkg/errors.") || strings.HasPrefix(c.name, "errors.") || c.name == "fmt.Errorf"
						}}
						if runExtract(p, rep, r, "dists/stable/"+b+ext) == nil {
							return
						}
					}
				}
			}
			if fn := need(p, rep, "apt", "Parser.Read"); fn != nil {
				e := aptEngine(p, rep, &scanRule{rep: rep, fn: fn})
				e.runRoot(fn, nil)
			}
			rep.floor("failures are errors", 8)
			rep.floor("fields are present before they are used", 5)
			rep.floor("checksum lines have three parts", 3)
			rep.floor("the end of the input is not confused with a failure", 1)
		})
}

// ---- A08

type tableRule struct {
	NopRule
	rep     *Report
	readers map[*Term]bool
	keys    map[string]bool
}

func (r *tableRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == parserRead {
		return ActOpaque
	}
	if c.name == "bufio.NewScanner" {
		r.readers[c.args[0]] = true
	}
	return ActDefault
}

func (r *tableRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvMapLookup && isParagraph(ev.a) {
		if k, ok := ev.b.str(); ok {
			r.keys[k] = true
		} else {
			r.keys["?"] = true
		}
	}
}

// decoders maps extensions to the function that decodes them.
var decoders = map[string]string{"": "", ".gz": "compress/gzip.NewReader", ".bz2": "compress/bzip2.NewReader", ".xz": "github.com/ulikunitz/xz.NewReader"}

func boolOuts(e *Engine, outs []outcome) Tri {
	r := Unknown
	for i, o := range outs {
		if o.panics || o.res == nil {
			return Unknown
		}
		t := e.truth(o.st, o.res)
		if i > 0 && t != r {
			return Unknown
		}
		r = t
	}
	return r
}

func init() {
	register("A08", "abstract evaluation of the name-handling functions over the finite partition of index names, with dataflow of the reader",
		"The partition has every base name and extension of the repository format, foreign names and several directories; names outside it differ from these only in components that path.Base and path.Ext cut off."+trust,
		"For every class of file names, IsMeta and IsSupported evaluate statically to the required constants, ExtractFileInfo reads paragraphs from the input through exactly the decoder of the extension with the fields of the base name's format, and returns an error on every path for unsupported compressions and for names that are not indices.", func(p *Program, rep *Report) {
			isMeta, isSup, ext := need(p, rep, "apt", "IsMeta"), need(p, rep, "apt", "IsSupported"), need(p, rep, "apt", "ExtractFileInfo")
			if isMeta == nil || isSup == nil || ext == nil || !checkFileInfo(p, rep) {
				return
			}
			kinds := map[string]*indexKind{"Release.gpg": nil}
			for _, k := range indexKinds {
				for _, b := range k.bases {
					kinds[b] = k
				}
			}
			eval := func(fn *ssa.Function, name string) Tri {
				e := aptEngine(p, rep, &tableRule{rep: rep, readers: map[*Term]bool{}, keys: map[string]bool{}})
				return boolOuts(e, e.runRoot(fn, func(st *State, args []*Term) { args[0] = e.ts.Str(name) }))
			}
			for _, b := range []string{"Release", "Release.gpg", "InRelease", "Packages", "Sources", "Index",
				"foo.deb", "packages", "Release.txt", "Contents-amd64", "Packages.diff", "Translation-en", "xPackages", "Release.gz.gz", "Sources.zst", "InRelease.gpg", ".gz", "a", "Packagesgz", "Sources_"} {
				for _, x := range []string{"", ".gz", ".bz2", ".xz", ".lzma", ".lz"} {
					for _, dir := range []string{"", "dists/stable/", "a.gz/b.d/", "Packages/", "../", "ubuntu/dists/x.lz/main/"} {
						if b == "" || x != "" && strings.HasPrefix(b, ".") {
							continue
						}
						name := dir + b + x
						k, meta := kinds[b]
						if b == "Release.gz.gz" || b == ".gz" {
							meta = false
						}
						what := "names like " + b + x
						rep.check(eval(isMeta, name) == tri(meta), "indices are recognized", what, isMeta.Pos(), nil, "IsMeta(%q) is not %v", name, meta)
						dec, sup := decoders[x]
						if meta {
							rep.check(eval(isSup, name) == tri(sup), "supported compressions are recognized", what, isSup.Pos(), nil, "IsSupported(%q) is not %v", name, sup)
						}
						if dir != "" && dir != "a.gz/b.d/" {
							continue
						}
						r := &tableRule{rep: rep, readers: map[*Term]bool{}, keys: map[string]bool{}}
						e := aptEngine(p, rep, r)
						e.joinAt = 40
						outs := e.runRoot(ext, func(st *State, args []*Term) { args[0] = e.ts.Str(name) })
						input := e.ts.mk(OpParam, ext.Params[1].Name(), nil)
						if !meta || !sup {
							ok := len(outs) > 0 && len(r.readers) == 0
							for _, o := range outs {
								er := errOf(ext, o.res)
								if o.panics || er == nil || e.nilness(o.st, er) != No {
									ok = false
								}
							}
							rep.check(ok, "other files are refused", what, ext.Pos(), nil, "ExtractFileInfo(%q) does not always fail", name)
							continue
						}
						if k == nil {
							rep.check(len(r.keys) == 0, "indices are parsed by their kind", what, ext.Pos(), nil, "signatures are parsed as an index")
							continue
						}
						ok := len(r.readers) == 1
						for rd := range r.readers {
							if dec == "" {
								ok = ok && rd == input
							} else {
								ok = ok && rd.isCall(dec) && len(rd.args) >= 1 && rd.args[0] == input
							}
						}
						rep.check(ok, "indices are decoded by their extension", what, ext.Pos(), nil, "%q is not read through %s of the input", name, dec)
						ok = true
						for key := range k.digest {
							ok = ok && r.keys[key]
						}
						for key := range r.keys {
							if k.digest[key] == "" && !k.mandatory(key) {
								ok = false
							}
						}
						rep.check(ok, "indices are parsed by their kind", what, ext.Pos(), nil, "%q is not parsed by the fields of %s files", name, k.name)
					}
				}
			}
			rep.floor("indices are recognized", 50)
			rep.floor("supported compressions are recognized", 30)
			rep.floor("indices are decoded by their extension", 20)
			rep.floor("indices are parsed by their kind", 20)
			rep.floor("other files are refused", 40)
		})
}

var _ = token.NoPos

// ---- A03

// linePart finds the line and the index of a part of it split at blanks.
func linePart(t *Term) (*Term, int64) {
	l, i := lineOf(t)
	if l == nil && t.isApp("index") && len(t.args) == 2 {
		l, i = t.args[0], t.args[1]
	}
	if l == nil || !l.isApp("strings.Fields") {
		return nil, -1
	}
	n, ok := i.int()
	if !ok {
		return nil, -1
	}
	return l.args[0], n
}

// fieldValue is the key and the index of a value of a paragraph.
func fieldValue(t *Term) (*Term, string, *Term) {
	l, i := lineOf(t)
	if l == nil {
		return nil, "", nil
	}
	if k := paraKey(l); k != "" {
		return l.args[0], k, i
	}
	return nil, "", nil
}

type entryRule struct {
	NopRule
	rep  *Report
	kind *indexKind
	dir  []string
}

func (r *entryRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == parserRead {
		return ActOpaque
	}
	return ActDefault
}

const entryOwn = "entries take every value from its own field"

// unit is what a value of an entry was read from: a line of a list, or a
// paragraph; part is the position or the key.
func (r *entryRule) digestOf(v *Term) (unit *Term, key string, ok bool) {
	if !v.isCall("encoding/hex.DecodeString") {
		return nil, "", false
	}
	x := v.args[0]
	if r.kind.list {
		line, n := linePart(x)
		if line == nil || n != 0 {
			return nil, "", false
		}
		_, k, _ := fieldValue(line)
		return line, k, k != ""
	}
	para, k, i := fieldValue(x)
	if para == nil {
		return nil, "", false
	}
	n, isC := i.int()
	return para, k, isC && n == 0
}

func (r *entryRule) sizeOf(v *Term) (unit *Term, ok bool) {
	if !v.isCall("strconv.ParseUint") || len(v.args) != 3 {
		return nil, false
	}
	if b, _ := v.args[1].int(); b != 10 {
		return nil, false
	}
	if b, _ := v.args[2].int(); b != 64 {
		return nil, false
	}
	if r.kind.list {
		line, n := linePart(v.args[0])
		return line, line != nil && n == 1
	}
	para, k, i := fieldValue(v.args[0])
	if para == nil || k != r.kind.size {
		return nil, false
	}
	n, isC := i.int()
	return para, isC && n == 0
}

func (r *entryRule) pathOf(v *Term) (unit *Term, ok bool) {
	cs := components(v)
	if !r.kind.list {
		if len(cs) != 1 {
			return nil, false
		}
		para, k, i := fieldValue(cs[0])
		if para == nil || k != r.kind.path {
			return nil, false
		}
		n, isC := i.int()
		return para, isC && n == 0
	}
	if len(cs) == 0 {
		return nil, false
	}
	line, n := linePart(cs[len(cs)-1])
	if line == nil || n != 2 {
		return nil, false
	}
	cs = cs[:len(cs)-1]
	if r.kind.dirKey != "" {
		if len(cs) != 1 {
			return nil, false
		}
		_, k, i := fieldValue(cs[0])
		if k != r.kind.dirKey {
			return nil, false
		}
		n, isC := i.int()
		return line, isC && n == 0
	}
	if len(cs) != len(r.dir) {
		return nil, false
	}
	for i, d := range r.dir {
		if s, isS := cs[i].str(); !isS || s != d {
			return nil, false
		}
	}
	return line, true
}

// assign checks a value that becomes part of an entry.
func (r *entryRule) assign(e *Engine, st *State, obj *Term, f string, v *Term, in ssa.Instruction) {
	what := r.kind.name + ": " + f
	var unit *Term
	ok := true
	switch f {
	case fiPath:
		unit, ok = r.pathOf(v)
	case fiSize:
		unit, ok = r.sizeOf(v)
	case fiMD5, fiSHA1, fiSHA256:
		if v.op == OpNil {
			return
		}
		var k string
		unit, k, ok = r.digestOf(v)
		if ok && r.kind.digest[k] != f {
			r.rep.violate(entryOwn, what, in.Pos(), f+" is set from field "+k, st.trace)
			return
		}
	default:
		return
	}
	if !r.rep.check(ok, entryOwn, what, in.Pos(), st, "%s is set from %s", f, v) {
		return
	}
	if obj.op == OpAlloc {
		for _, u := range st.mon["unit"] {
			if u.args[0] == obj {
				r.rep.check(u.args[1] == unit, entryOwn, what, in.Pos(), st, "%s and other values of an entry are taken from different places", f)
			}
		}
		st.mon.add("unit", e.ts.mk(OpApp, "unit:"+f, nil, obj, unit))
		return
	}
	if obj.op == OpSym && obj.symKind() == "mapval" && len(obj.args) == 2 {
		u, ok := r.pathOf(obj.args[1])
		r.rep.check(ok && u == unit, entryOwn, what, in.Pos(), st, "%s is added to an entry that was looked up with %s", f, obj.args[1])
		return
	}
	r.rep.violate(entryOwn, what, in.Pos(), "an entry of unknown origin is changed: "+obj.String(), st.trace)
}

// entry checks a new entry that is put in a map or a list.
func (r *entryRule) entry(e *Engine, st *State, obj, key *Term, in ssa.Instruction) {
	if obj.op != OpAlloc {
		return
	}
	have := map[string]*Term{}
	for _, u := range st.mon["unit"] {
		if u.args[0] == obj {
			have[strings.TrimPrefix(u.name, "unit:")] = u.args[1]
		}
	}
	for _, f := range []string{fiPath, fiSize} {
		r.rep.check(have[f] != nil, entryOwn, r.kind.name+": "+f, in.Pos(), st, "an entry is listed without %s", f)
	}
	if key != nil && have[fiPath] != nil {
		u, ok := r.pathOf(key)
		r.rep.check(ok && u == have[fiPath], entryOwn, r.kind.name+": key", in.Pos(), st, "an entry is kept under %s instead of its path", key)
	}
}

func (r *entryRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvStore:
		if ev.a.op == OpField && strings.HasPrefix(ev.a.name, "apt.FileInfo.") {
			r.assign(e, st, ev.a.args[0], ev.a.name, ev.b, ev.in)
		} else if ev.b.op == OpStruct && typeName(ev.typ) == "apt.FileInfo" {
			t := ev.typ.Underlying().(*types.Struct)
			for i, v := range ev.b.args {
				if z, ok := v.int(); ok && z == 0 {
					continue
				}
				r.assign(e, st, ev.a, "apt.FileInfo."+t.Field(i).Name(), v, ev.in)
			}
		}
	case EvForget:
		var l []*Term
		for _, u := range st.mon["unit"] {
			if !u.contains(ev.a) {
				l = append(l, u)
			}
		}
		if len(l) == 0 {
			delete(st.mon, "unit")
		} else {
			st.mon["unit"] = l
		}
	case EvMapUpdate:
		if isFileInfo(ev.c) {
			r.entry(e, st, ev.c, ev.b, ev.in)
		}
	case EvAppend:
		if ev.b.op == OpSlice {
			for _, x := range ev.b.args {
				if isFileInfo(x) {
					r.entry(e, st, x, nil, ev.in)
				}
			}
		}
	}
}

func isFileInfo(t *Term) bool {
	return t != nil && t.typ != nil && typeName(deref(t.typ)) == "apt.FileInfo"
}

// hashPathRule: the location of a digest.
type hashPathRule struct {
	NopRule
	rep   *Report
	fn    *ssa.Function
	field string
	kind  string
}

func (r *hashPathRule) On(e *Engine, st *State, ev *Event) {
	if !rootReturn(st, ev) {
		return
	}
	rule := "by-hash locations are those of the digest's kind"
	recv := e.ts.mk(OpParam, "recv", nil)
	d := e.cell(st, recv, r.field)
	p := e.cell(st, recv, fiPath)
	if d == nil || p == nil {
		r.rep.violate(rule, fnLabel(r.fn), r.fn.Pos(), "changes the descriptor", st.trace)
		return
	}
	res := comps(ev.a)[0]
	if s, ok := res.str(); ok && s == "" {
		r.rep.check(e.absent(st, d) == Yes, rule, fnLabel(r.fn)+" is empty", r.fn.Pos(), st, "there is no location although the digest may be present")
		return
	}
	ok := sameComponents(res, func(t *Term) bool { return (t.isApp("path.Dir") || t.isApp("path/filepath.Dir")) && t.args[0] == p }, "by-hash", r.kind,
		func(t *Term) bool { return t.isApp("encoding/hex.EncodeToString") && t.args[0] == d })
	r.rep.check(ok, rule, fnLabel(r.fn), r.fn.Pos(), st, "the location is %s", res)
	r.rep.check(e.absent(st, d) == No || e.nilness(st, d) == No, rule, fnLabel(r.fn)+" of a present digest", r.fn.Pos(), st, "an absent digest has a location")
}

func init() {
	register("A03", "path-sensitive provenance dataflow over the SSA form (source key of every value of every entry)",
		"Covers every path of ExtractFileInfo for each kind of index, with paragraphs as unknown maps, and of the by-hash location methods; strconv, strings.Fields and encoding/hex are taken at their word."+trust,
		"Every entry that ExtractFileInfo puts into its maps and lists has its path, size and digests read from the fields (or the parts of one checksum line) that the format of the index defines for them; digests added to an existing entry come from a line with the path under which the entry was found. By-hash locations are the directory of the path, by-hash, the kind of the digest and its hex form.", func(p *Program, rep *Report) {
			if !checkFileInfo(p, rep) {
				return
			}
			for _, k := range indexKinds {
				for _, b := range k.bases {
					if runExtract(p, rep, &entryRule{rep: rep, kind: k, dir: []string{"dists", "stable"}}, "dists/stable/"+b) == nil {
						return
					}
				}
				for _, f := range append([]string{fiPath, fiSize}, digestFields...) {
					if rep.obl[key(entryOwn, k.name+": "+f)] == nil {
						rep.violate(entryOwn, k.name+": "+f, token.NoPos, "entries of "+k.name+" files never get "+f, nil)
					}
				}
			}
			for _, h := range [][3]string{{"FileInfo.MD5SumPath", fiMD5, "MD5Sum"}, {"FileInfo.SHA1Path", fiSHA1, "SHA1"}, {"FileInfo.SHA256Path", fiSHA256, "SHA256"}} {
				if fn := need(p, rep, "apt", h[0]); fn != nil {
					aptEngine(p, rep, &hashPathRule{rep: rep, fn: fn, field: h[1], kind: h[2]}).runRoot(fn, nil)
				}
			}
			rep.floor(entryOwn, 15)
			rep.floor("by-hash locations are those of the digest's kind", 9)
		})
}
