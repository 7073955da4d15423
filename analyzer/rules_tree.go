package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- M09, M10

const (
	ruleInTree    = "files are touched only in the directory of the mirror, and items only below the tree of their storage"
	rulePlainID   = "only IDs that are known to be plain names become parts of paths"
	ruleLookupDir = "the paths of items that are handed out are below the tree of their storage"
	ruleLinkFrom  = "what is stored is a temporary file or an item of a storage"

	ruleStoreNew  = "operations that change files are used only on the new storage"
	ruleOnlyAdd   = "operations of a storage add files and directories, and change no item"
	ruleOnlyTemp  = "an update changes files only while they are its own temporary files"
	ruleTopNames  = "other than that an update changes only names in the directory of the mirror"
	ruleNewTree   = "the new storage is in a directory that did not exist before"
	ruleHandleUse = "a file is written only by who created it, before it is handed over"
)

// treeRule classifies the paths and the file handles that functions of the
// mirror use.
type treeRule struct {
	mirBase
	prop string
	fn   *ssa.Function
}

func (r *treeRule) chk(prop string, ok bool, rule, where string, pos token.Pos, st *State, format string, args ...any) bool {
	if prop != r.prop {
		return ok
	}
	return r.rep.check(ok, rule, where, pos, st, format, args...)
}

// rooted says whether t is a cleaned path that starts with a slash, so that
// it does not go up.
func rooted(t *Term) bool {
	if t.isApp("path/filepath.FromSlash") || t.isApp("path/filepath.ToSlash") {
		return rooted(t.args[0])
	}
	if t.isApp("path.Clean") || t.isApp("path/filepath.Clean") {
		if rooted(t.args[0]) {
			return true
		}
		l := flattenConcat(t.args[0])
		s, _ := l[0].str()
		return strings.HasPrefix(s, "/")
	}
	if (t.isApp("path.Join") || t.isApp("path/filepath.Join")) && len(t.args) == 1 && t.args[0].op == OpSlice && len(t.args[0].args) > 0 {
		s, _ := flattenConcat(t.args[0].args[0])[0].str()
		return strings.HasPrefix(s, "/")
	}
	return false
}

// pathParts are the parts that a path is joined of; cleaned rooted paths are
// one part.
func pathParts(t *Term) []*Term {
	if rooted(t) {
		return []*Term{t}
	}
	switch {
	case (t.isApp("path.Join") || t.isApp("path/filepath.Join")) && len(t.args) == 1 && t.args[0].op == OpSlice:
		var l []*Term
		for _, a := range t.args[0].args {
			l = append(l, pathParts(a)...)
		}
		return l
	case t.isApp("path.Clean"), t.isApp("path/filepath.Clean"), t.isApp("path/filepath.FromSlash"), t.isApp("path/filepath.ToSlash"):
		return pathParts(t.args[0])
	case t.isApp("concat"), formatted(t) != nil:
		// x + "/" + y
		var l []*Term
		var cur []*Term
		flush := func() {
			if len(cur) == 1 {
				l = append(l, pathParts(cur[0])...)
			} else if len(cur) > 1 && len(pathParts(cur[0])) > 1 {
				cs := pathParts(cur[0])
				// a path with a suffix
				l = append(l, cs[:len(cs)-1]...)
				l = append(l, &Term{op: OpApp, name: "concat*", args: append([]*Term{cs[len(cs)-1]}, cur[1:]...), typ: t.typ})
			} else if len(cur) > 1 {
				l = append(l, &Term{op: OpApp, name: "concat*", args: cur, typ: t.typ})
			}
			cur = nil
		}
		for i, x := range flattenConcat(t) {
			if i > 0 && rooted(x) && len(cur) > 0 {
				flush()
				l = append(l, x)
				continue
			}
			s, ok := x.str()
			if !ok || !strings.Contains(s, "/") {
				cur = append(cur, x)
				continue
			}
			if strings.HasPrefix(s, "/") && i == 0 {
				cur = append(cur, x)
				continue
			}
			for j, p := range strings.Split(s, "/") {
				if j > 0 {
					flush()
				}
				if p != "" {
					cur = append(cur, strTerm(p))
				}
			}
		}
		flush()
		return l
	}
	if s, ok := t.str(); ok && strings.Contains(s, "/") && !strings.HasPrefix(s, "/") {
		var l []*Term
		for _, p := range strings.Split(s, "/") {
			if p != "" && p != "." {
				l = append(l, strTerm(p))
			}
		}
		return l
	}
	return []*Term{t}
}

// isID says whether t is the ID of a mirror that was found valid.
func (r *treeRule) isID(e *Engine, st *State, t *Term) bool {
	if fromField(t, r.ro.id) || fromField(t, r.ro.prefix) {
		return true
	}
	return st != nil && validID(e, st, t)
}

// validID says whether t is known to match a regular expression that only
// plain names match.
func validID(e *Engine, st *State, t *Term) bool {
	for x, f := range st.facts {
		if f.truth == Yes && x.op == OpApp && strings.HasPrefix(x.name, "(*regexp.Regexp).Match") && len(x.args) == 2 && x.args[1] == t {
			for _, re := range e.p.regexpsOf(x.args[0]) {
				if plainNames(re) {
					return true
				}
			}
		}
	}
	return false
}

// regexpsOf is the regular expression that a variable that is set only once
// is compiled from.
func (p *Program) regexpsOf(t *Term) []string {
	t = stripConv(t)
	if t.isApp("regexp.MustCompile") || t.isCall("regexp.MustCompile") {
		if s, ok := t.args[0].str(); ok {
			return []string{s}
		}
	}
	name := ""
	if t.op == OpSym && len(t.args) > 0 && t.args[0].op == OpGlobal {
		name = t.args[0].name
	}
	if name == "" {
		t.any(func(x *Term) bool {
			if x.op == OpGlobal {
				name = x.name
			}
			return false
		})
	}
	if name == "" {
		return nil
	}
	var l []string
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || g.String() != name && g.Name() != name && !strings.HasSuffix(name, "."+g.Name()) {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || calleeName(c.Common()) != "regexp.MustCompile" {
					return nil
				}
				k, ok := c.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil {
					return nil
				}
				l = append(l, constant.StringVal(k.Value))
			}
		}
	}
	if len(l) != 1 {
		return nil
	}
	return l
}

// oneName says whether every string that matches re is not empty and has no
// slash.
func oneName(re string) bool {
	x, err := syntax.Parse("^(x"+strings.TrimSuffix(strings.TrimPrefix(re, "^"), "$")+")$", syntax.Perl)
	_, err2 := syntax.Parse(re, syntax.Perl)
	if err != nil || err2 != nil || !strings.HasPrefix(re, "^") || !strings.HasSuffix(re, "$") || strings.Contains(re, "|") {
		return false
	}
	y, err := syntax.Parse(re, syntax.Perl)
	if err != nil || minLen(y.Simplify()) < 1 {
		return false
	}
	return plainNames(x.String())
}

// plainNames says whether every string that matches re is a name without
// slashes other than "." and "..".
func plainNames(re string) bool {
	x, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return false
	}
	x = x.Simplify()
	if x.Op != syntax.OpConcat || len(x.Sub) < 3 || x.Sub[0].Op != syntax.OpBeginText || x.Sub[len(x.Sub)-1].Op != syntax.OpEndText {
		return false
	}
	dots := true
	var chars func(x *syntax.Regexp) bool
	chars = func(x *syntax.Regexp) bool {
		switch x.Op {
		case syntax.OpLiteral:
			for _, c := range x.Rune {
				if c == '/' || c == 0 {
					return false
				}
				if c != '.' {
					dots = false
				}
			}
			return true
		case syntax.OpCharClass:
			has := func(c rune) bool {
				for i := 0; i < len(x.Rune); i += 2 {
					if x.Rune[i] <= c && c <= x.Rune[i+1] {
						return true
					}
				}
				return false
			}
			dots = dots && has('.')
			return !has('/') && !has(0)
		case syntax.OpPlus, syntax.OpCapture, syntax.OpConcat:
			for _, s := range x.Sub {
				if !chars(s) {
					return false
				}
			}
			return true
		case syntax.OpAlternate, syntax.OpStar, syntax.OpQuest, syntax.OpRepeat:
			d, all := dots, true
			for _, s := range x.Sub {
				dots = true
				if !chars(s) {
					return false
				}
				all = all && !dots
			}
			dots = d && !(all && minLen(x) > 0)
			return true
		case syntax.OpEmptyMatch:
			return true
		}
		return false
	}
	named := false
	for _, s := range x.Sub[1 : len(x.Sub)-1] {
		dots = true
		if !chars(s) {
			return false
		}
		named = named || !dots && minLen(s) > 0
	}
	return named
}

func minLen(x *syntax.Regexp) int {
	switch x.Op {
	case syntax.OpLiteral:
		return len(x.Rune)
	case syntax.OpCharClass:
		return 1
	case syntax.OpPlus, syntax.OpCapture:
		return minLen(x.Sub[0])
	case syntax.OpRepeat:
		return x.Min * minLen(x.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range x.Sub {
			n += minLen(s)
		}
		return n
	case syntax.OpAlternate:
		n := minLen(x.Sub[0])
		for _, s := range x.Sub {
			n = min(n, minLen(s))
		}
		return n
	}
	return 0
}

// plain says whether a part of a path is a name without slashes other than
// "." and "..".
func (r *treeRule) plain(e *Engine, st *State, t *Term) bool {
	piece := func(x *Term) bool {
		if s, ok := x.str(); ok {
			return !strings.Contains(s, "/")
		}
		if x.op == OpApp && x.name == "(time.Time).Format" {
			s, ok := x.args[1].str()
			return ok && !strings.Contains(s, "/")
		}
		return r.isID(e, st, x) || entryName(x) != nil || x.isApp("strconv.Itoa") || x.isApp("strconv.FormatInt")
	}
	if s, ok := t.str(); ok {
		return s != "" && s != "." && s != ".." && !strings.Contains(s, "/")
	}
	l := flattenConcat(t)
	if t.isApp("concat*") {
		l = nil
		for _, x := range t.args {
			l = append(l, flattenConcat(x)...)
		}
	}
	named := false
	for _, x := range l {
		if !piece(x) {
			return false
		}
		if s, ok := x.str(); ok {
			named = named || strings.Trim(s, ".") != "" || len(s) > 2
		} else {
			named = named || !x.isApp("(time.Time).Format")
		}
	}
	return named
}

// pathClass is what a path is known to lead to.
type pathClass struct {
	kind string // "" unknown, "top": below the directory of the mirror, "dir": below that of a storage, "temp": a temporary file
	n    int    // number of parts below it
	item bool   // below the tree
	base *Term
	last *Term
	why  string
}

func (r *treeRule) class(e *Engine, st *State, t *Term) pathClass {
	up := 0
	for t.isApp("path/filepath.Dir") || t.isApp("path.Dir") {
		t = t.args[0]
		up++
	}
	if t.isApp("(*os.File).Name") {
		return pathClass{kind: "temp", base: t.args[0]}
	}
	l := pathParts(t)
	if len(l) == 0 {
		return pathClass{why: "it is empty"}
	}
	c := pathClass{base: l[0]}
	o, f := loadOf(l[0])
	switch {
	case f == r.ro.dir:
		c.kind, c.base = "dir", o
	case f == r.ro.top, strings.HasSuffix(f, "mirror.Config.Dir"):
		c.kind = "top"
	default:
		return pathClass{why: "it is not known to be in the directory of the mirror"}
	}
	for i, x := range l[1:] {
		switch {
		case r.plain(e, st, x):
			c.item = c.item || i == 0 && c.kind == "dir" && (fromField(x, r.ro.prefix) || fromField(x, r.ro.id))
		case i >= 1 && rooted(x) && c.item:
		default:
			return pathClass{why: x.String() + " is neither a plain name nor a cleaned path below the tree"}
		}
		c.last = x
	}
	c.n = len(l) - 1
	if up > 0 {
		// the parent of a path below the tree is in the directory at least
		if c.n < up+1 && !(c.n >= up) {
			return pathClass{why: "it is the parent of the directory"}
		}
		c.n -= up
		c.item = c.item && c.n >= 1
	}
	return c
}

// within says whether a path or an element of a list of paths is known to be
// in the directory of the mirror.
func (r *treeRule) within(e *Engine, st *State, t *Term) (bool, string) {
	if e.labelled(st, t, "in") {
		return true, ""
	}
	x := t
	for x.isApp("path/filepath.Dir") || x.isApp("path.Dir") {
		x = x.args[0]
	}
	if x != t {
		if l := elemOf(x); l != nil && e.labelled(st, l, "below") || e.labelled(st, x, "below") {
			return true, ""
		}
	}
	if l := elemOf(t); l != nil && e.labelled(st, l, "in") {
		return true, ""
	}
	if x.op == OpSym && (strings.Contains(x.symKind(), "walk") || strings.Contains(x.symKind(), "iter")) && len(x.args) > 0 {
		return r.within(e, st, x.args[0])
	}
	c := r.class(e, st, t)
	return c.kind != "", c.why
}

// labels of paths and lists of paths: "in" the directory of the mirror,
// "below" it, so that the parent is in it, too.
func (r *treeRule) labels(e *Engine, t *Term) string {
	str := func(x *Term) bool { return x.typ != nil && x.typ.Underlying().String() == "string" }
	one := func(x *Term) (bool, bool) {
		c := r.class(e, nil, x)
		return c.kind == "dir" || c.kind == "top", c.kind != "temp" && c.n >= 1
	}
	in, below := false, false
	switch {
	case t.op == OpSlice && len(t.args) > 0:
		in, below = true, true
		for _, x := range t.args {
			if !str(x) {
				return ""
			}
			i, b := one(x)
			in, below = in && i, below && i && b
		}
	case t.op == OpApp && str(t):
		in, below = one(t)
		below = in && below
	}
	s := ""
	if in {
		s += "in;"
	}
	if below {
		s += "below;"
	}
	return s
}

func isStorage(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() != nil && typeName(deref(f.Signature.Recv().Type())) == mirStorage
}

func (r *treeRule) Call(e *Engine, st *State, c *Call) Action {
	where, pos := e.inFn(st)+" calls "+shortName(c.name), c.pos()
	if idx, ok := fsPaths[c.name]; ok {
		r.paths(e, st, c, idx, where, pos)
	}
	if idx, ok := fsWrites[c.name]; ok && !(strings.HasSuffix(c.name, ".OpenFile") && !openForWriting(e, c)) {
		r.changes(e, st, c, idx, where, pos)
	}
	r.handles(e, st, c, where, pos)
	if c.fn == nil || !r.rep.p.inRepo(c.fn) {
		_, known := fsPaths[c.name]
		_, known2 := fsWrites[c.name]
		if strings.HasPrefix(c.name, "os/exec.") || !known && !known2 && (strings.HasPrefix(c.name, "syscall.") && c.name != flockFn || strings.HasPrefix(c.name, "os.") && len(c.args) > 0 && c.args[0].typ != nil && c.args[0].typ.Underlying().String() == "string") && !harmless[c.name] {
			r.chk("M10", false, ruleInTree, where, pos, st, "calls a function whose effects on files are not known")
			r.chk("M09", false, ruleOnlyTemp, where, pos, st, "calls a function whose effects on files are not known")
		}
		return r.action(c)
	}
	if c.fn == r.ro.newStorage && len(st.frames) > 0 && r.fn != c.fn {
		d := c.args[0]
		if d.isApp("path/filepath.Dir") && d.args[0].any(func(x *Term) bool { return x.isCall(evalLink) }) {
			x := d.args[0]
			ok := x.isCall(evalLink) && len(x.args) > 0
			if ok {
				cl := r.class(e, st, x.args[0])
				ok = cl.kind == "top" && cl.n == 1 && r.isID(e, st, cl.last)
			}
			r.chk("M10", ok, ruleInTree, where+": published tree", pos, st, "it is not known that %s is where the public name of the mirror leads to", d)
		} else {
			cl := r.class(e, st, d)
			r.chk("M10", cl.kind == "top" && cl.n == 1, ruleInTree, where+": directory", pos, st, "the directory of the storage is %s: %s", d, cl.why)
		}
		r.chk("M10", r.isID(e, st, c.args[1]), rulePlainID, where+": prefix", pos, st, "%s is not known to be a plain name", c.args[1])
		return ActOpaque
	}
	if c.fn == r.ro.update || c.fn == r.ro.newM {
		if c.fn != r.fn {
			return ActOpaque
		}
		return ActDefault
	}
	if isStorage(c.fn) && token.IsExported(c.fn.Name()) && !isStorage(r.fn) && r.fn != r.ro.newStorage {
		if r.rep.p.touches(c.fn) {
			r.chk("M09", fromField(c.args[0], r.ro.store), ruleStoreNew, where, pos, st, "changes files through %s, which may be the published tree", c.args[0])
		}
		if storing(c) {
			s := c.args[len(c.args)-1]
			ok := s.isApp("(*os.File).Name") || s.op == OpSym && r.ro.isLookup(s.symKind()) && s.symIdx() == 1
			r.chk("M10", ok, ruleLinkFrom, where, pos, st, "%s is neither the name of a temporary file nor the path of an item", s)
		}
		if !r.rep.p.readOnly(c.fn) {
			return ActOpaque
		}
		return r.action(c)
	}
	if !r.relevant(c.fn) {
		return ActHavoc
	}
	return r.action(c)
}

var harmless = map[string]bool{"os.IsNotExist": true, "os.IsExist": true, "os.NewSyscallError": true, "os.Getenv": true}

// relevant functions touch files, use storages, or hand files on.
func (r *treeRule) relevant(f *ssa.Function) bool {
	for _, p := range f.Params {
		if strings.Contains(p.Type().String(), "os.File") {
			return true
		}
		if it, ok := p.Type().Underlying().(*types.Interface); ok && hasMethod(it, "Write") {
			return true
		}
	}
	return returnsFile(f) || stringsFn(f) || r.rep.p.reaches(f, func(in ssa.Instruction, g *ssa.Function) bool {
		_, ok := fsPaths[g.String()]
		_, ok2 := fsWrites[g.String()]
		return ok || ok2 || isStorage(g) || strings.HasPrefix(g.String(), "(*os.File).") || strings.HasPrefix(g.String(), "(*regexp.Regexp)")
	})
}

// stringsFn says whether a function returns strings.
func stringsFn(f *ssa.Function) bool {
	rt := f.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		if s := rt.At(i).Type().Underlying().String(); s == "string" || s == "[]string" {
			return true
		}
	}
	return false
}

func (r *treeRule) paths(e *Engine, st *State, c *Call, idx []int, where string, pos token.Pos) {
	for _, i := range idx {
		a := c.args[i]
		if a.op == OpParam && a.name != "recv" {
			if i == 0 && len(idx) == 2 && isStorage(r.fn) {
				continue // what is stored: checked where it is called
			}
			if r.fn == r.ro.newStorage {
				continue
			}
		}
		if r.fn == r.ro.newStorage && a.isApp("path/filepath.Clean") && a.args[0].op == OpParam && fsWrites[c.name] == nil {
			continue
		}
		ok, why := r.within(e, st, a)
		r.chk("M10", ok, ruleInTree, where, pos, st, "touches %s: %s", a, why)
		if isStorage(r.fn) && ok && !e.labelled(st, a, "in") && c.name != "os.MkdirAll" {
			// items are below the tree, other files of fixed names
			if cl := r.class(e, st, a); cl.kind == "dir" && cl.n > 0 {
				_, fixed := cl.last.str()
				r.chk("M10", cl.item || fixed && cl.n == 1, ruleInTree, where+": tree", pos, st, "touches %s, which is not below the tree of the storage", a)
			}
		}
	}
	if c.name == "io/ioutil.TempFile" || c.name == "os.CreateTemp" || c.name == "io/ioutil.TempDir" || c.name == "os.MkdirTemp" {
		s, ok := c.args[1].str()
		r.chk("M10", ok && !strings.Contains(s, "/"), ruleInTree, where+": name", pos, st, "the name of a temporary file is %s", c.args[1])
	}
	if c.name == "os.Symlink" {
		ok, why := r.within(e, st, c.args[0])
		r.chk("M10", ok, ruleInTree, where+": target", pos, st, "makes a link to %s: %s", c.args[0], why)
	}
}

// ownTemp says whether f is a temporary file that this function, or a
// function that it calls, created.
func (r *treeRule) ownTemp(e *Engine, st *State, f *Term) bool {
	return r.ro.tempFile(f) || f.op != OpNil && e.labelled(st, f, "temp")
}

func (r *treeRule) changes(e *Engine, st *State, c *Call, idx []int, where string, pos token.Pos) {
	if r.prop != "M09" {
		return
	}
	for _, i := range idx {
		a := c.args[i]
		cl := r.class(e, st, a)
		switch {
		case cl.kind == "temp":
			own := r.ownTemp(e, st, cl.base) && !st.mon.flag("sent")
			ok := c.name == "os.Remove" || own
			r.chk("M09", ok, ruleOnlyTemp, where, pos, st, "changes %s, which may have been linked into a tree", a)
		case isStorage(r.fn) || cl.kind == "dir":
			ok := false
			switch c.name {
			case "os.Mkdir", "os.MkdirAll", "io/ioutil.TempFile", "os.CreateTemp":
				ok = true
			case "os.Link":
				ok = i == 1
				if i == 0 && len(idx) == 2 {
					continue
				}
			case "os.OpenFile", "os.Create", "io/ioutil.WriteFile", "os.WriteFile":
				ok = cl.kind == "dir" && cl.n == 1 && !cl.item
			}
			if ok && cl.kind == "dir" && !isStorage(r.fn) {
				ok = fromField(cl.base, r.ro.store)
			}
			r.chk("M09", ok, ruleOnlyAdd, where, pos, st, "changes or removes %s", a)
		case cl.kind == "top" && cl.n == 1:
			_, fixed := cl.last.str()
			ok := r.fn == r.ro.newM && c.name == "os.Mkdir" || r.fn == r.ro.update || fixed || entryName(cl.last) != nil
			r.chk("M09", ok, ruleTopNames, where, pos, st, "changes or removes %s", a)
		default:
			r.chk("M09", false, ruleOnlyTemp, where, pos, st, "may change or remove items of a tree: %s", a)
		}
	}
}

var fileChanges = map[string]bool{"Write": true, "WriteString": true, "WriteAt": true, "ReadFrom": true, "Truncate": true, "Chmod": true, "Chown": true}

// handles checks what is written through file handles.
func (r *treeRule) handles(e *Engine, st *State, c *Call, where string, pos token.Pos) {
	if r.prop != "M09" {
		return
	}
	var files []*Term
	add := func(t *Term) {
		t.any(func(x *Term) bool {
			if x.typ != nil && ptrTo(x.typ, "os.File") && x.op != OpNil {
				files = append(files, x)
				return false
			}
			return false
		})
	}
	switch {
	case strings.HasPrefix(c.name, "(*os.File)."):
		if fileChanges[strings.TrimPrefix(c.name, "(*os.File).")] {
			add(c.args[0])
			if len(files) == 0 {
				files = append(files, c.args[0])
			}
		}
	default:
		if c.com == nil {
			return
		}
		sig := c.com.Signature()
		off := len(c.args) - sig.Params().Len()
		for i := 0; i < sig.Params().Len(); i++ {
			pt := sig.Params().At(i).Type()
			if s, ok := pt.Underlying().(*types.Slice); ok {
				pt = s.Elem()
			}
			if it, ok := pt.Underlying().(*types.Interface); ok && hasMethod(it, "Write") && off+i < len(c.args) {
				add(c.args[off+i])
			}
		}
	}
	for _, f := range files {
		ok := false
		p := openedPath(f)
		switch {
		case p != nil:
			cl := r.class(e, st, p)
			fixed := false
			if cl.last != nil {
				_, fixed = cl.last.str()
			}
			ok = (cl.kind == "dir" || cl.kind == "top") && cl.n == 1 && !cl.item && fixed
		case r.ownTemp(e, st, f):
			ok = !st.mon.flag("sent")
		case strings.HasPrefix(f.String(), "os.Open#") || f.isCall("os.Open"):
			ok = true
		}
		r.chk("M09", ok, ruleHandleUse, where, pos, st, "writes %s, which may be part of a tree", f)
	}
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func (r *treeRule) After(e *Engine, st *State, c *Call, res *Term) {
	if c.name == "os.Mkdir" && r.fn == r.ro.newM {
		st.mon.set("mkdir", c.args[0])
		st.mon.set("mkdirerr", res)
	}
}

func (r *treeRule) On(e *Engine, st *State, ev *Event) {
	switch ev.kind {
	case EvSend:
		if t := ev.b.typ; t != nil && isResult(t) {
			st.mon.set("sent", e.ts.True)
		}
	case EvReturn:
		if !rootReturn(st, ev) || !isStorage(r.fn) || ev.a == nil {
			break
		}
		// the paths that are handed out
		rt := r.fn.Signature.Results()
		for i, x := range comps(ev.a) {
			if i >= rt.Len() || rt.At(i).Type().String() != "string" {
				continue
			}
			if s, ok := x.str(); ok && s == "" {
				continue
			}
			cl := r.class(e, st, x)
			in := cl.kind == "dir" && (cl.n == 0 || cl.item) || e.labelled(st, x, "in")
			r.chk("M10", in, ruleLookupDir, e.inFn(st)+" returns a path", r.fn.Pos(), st, "returns %s: %s", x, cl.why)
		}
	}
	if ev.kind == EvStore && ev.a.op == OpField {
		switch ev.a.name {
		case r.ro.id:
			r.chk("M10", r.isID(e, st, ev.b), rulePlainID, e.inFn(st)+" sets the ID of a mirror", ev.in.Pos(), st, "%s is not known to be a plain name", ev.b)
		case r.ro.prefix, r.ro.dir:
			r.chk("M10", r.fn == r.ro.newStorage, rulePlainID, e.inFn(st)+" sets a field of a storage", ev.in.Pos(), st, "changes where a storage is")
		case r.ro.store:
			if ev.b.isCall(newStorage) && len(ev.b.args) > 0 {
				m := st.mon.get("mkdir")
				er := st.mon.get("mkdirerr")
				ok := m == ev.b.args[0] && er != nil && e.nilness(st, er) == Yes
				r.chk("M09", ok, ruleNewTree, e.inFn(st)+" sets the new storage", ev.in.Pos(), st, "it is not known that the directory of the new storage (%s) was created just now", ev.b.args[0])
			} else {
				r.chk("M09", false, ruleNewTree, e.inFn(st)+" sets the new storage", ev.in.Pos(), st, "the new storage is %s", ev.b)
			}
		}
	}
}

func treeRoots(p *Program, rep *Report, prop string) {
	ro := findMirror(p, rep)
	if ro == nil {
		return
	}
	findDownloads(p, ro)
	roots := append([]*ssa.Function{ro.newM, ro.run, ro.newStorage, ro.update}, ro.methods...)
	for _, f := range append(roots, ro.downloads(rep)...) {
		r := &treeRule{mirBase: mirBase{rep: rep, ro: ro}, prop: prop, fn: f}
		e := mirEngine(p, rep, ro, r)
		temp := e.intrinsic
		e.intrinsic = func(t *Term) string { return r.labels(e, t) + temp(t) }
		keep := e.keepFact
		e.keepFact = func(t *Term) bool {
			return keep != nil && keep(t) || t.op == OpApp && strings.HasPrefix(t.name, "(*regexp.Regexp)")
		}
		e.runRoot(f, nil)
	}
	rep.filesSeen(p, "mirror")
}

func init() {
	const scope = "Covers every path of Run, NewMirror, Update, NewStorage, of every operation of the storage and of the goroutines that download. Symbolic links inside the directory of the mirror are taken to be those that the mirror made."
	register("M10", "path-provenance dataflow over the SSA form of the mirror (what every path is joined of; regular expressions by their syntax tree)",
		scope+trust,
		"Every path given to a file-system function is the directory of the mirror or of a storage joined with plain names (constants, the ID, formatted times, names of entries), the name of a temporary file created there, or the directory and the ID joined with a path cleaned as a rooted one, so that it cannot go up; the parent of such a path only where it is still inside. IDs become parts of paths only where they are known to match a regular expression that no name with a slash, and neither \".\" nor \"..\", matches. What Lookup hands out is such a path, and only temporary files and such paths are stored.", func(p *Program, rep *Report) {
			treeRoots(p, rep, "M10")
			rep.floor(ruleInTree, 8)
			rep.floor(rulePlainID, 2)
			rep.floor(ruleLookupDir, 1)
			rep.floor(ruleLinkFrom, 1)
		})
	register("M09", "effect and path-provenance dataflow over the SSA form of the mirror (which calls may change which files, through paths and handles)",
		scope+trust,
		"Operations of a storage that change files are called only on the new storage, whose directory was made by a Mkdir that succeeded; such operations only make directories and temporary files, hard-link items, and write files of fixed name outside of the tree. Other than that, Update and the downloads change only temporary files: they write, truncate or change the mode of one only between its creation and the sending of the result that hands it over, and afterwards only remove its name; and names in the directory of the mirror.", func(p *Program, rep *Report) {
			treeRoots(p, rep, "M09")
			rep.floor(ruleStoreNew, 2)
			rep.floor(ruleOnlyAdd, 2)
			rep.floor(ruleOnlyTemp, 1)
			rep.floor(ruleTopNames, 2)
			rep.floor(ruleNewTree, 1)
			rep.floor(ruleHandleUse, 1)
		})
}
