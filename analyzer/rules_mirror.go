package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what the rules about mirrors have in common

// mirrorRoles names the fields of Mirror and its Storage by what they are
// for.
type mirrorRoles struct {
	p                        *Program
	update, newM, run        *ssa.Function
	dir, prefix, info        string // of Storage
	id, top, store, cur, sem string // of Mirror
	client                   string
	set                      map[string][]*Term // what the constructors store in fields
	newDir                   []*Term            // what the new storage is made of
	methods                  []*ssa.Function    // of Storage
	newStorage               *ssa.Function
	dl                       map[*ssa.Function]bool // bodies of the goroutines that download
}

const (
	mirStorage = "mirror.Storage"
	newStorage = modulePath + "/mirror.NewStorage"
)

type mirCtorRule struct {
	mirBase
	set map[string][]*Term
}

func (r *mirCtorRule) Call(e *Engine, st *State, c *Call) Action {
	if c.name == newStorage && len(st.frames) > 1 {
		return ActOpaque
	}
	return r.action(c)
}

func (r *mirCtorRule) On(e *Engine, st *State, ev *Event) {
	if ev.kind == EvStore && ev.a.op == OpField && (strings.HasPrefix(ev.a.name, "mirror.Mirror.") || strings.HasPrefix(ev.a.name, mirStorage+".")) {
		for _, t := range r.set[ev.a.name] {
			if t == ev.b {
				return
			}
		}
		r.set[ev.a.name] = append(r.set[ev.a.name], ev.b)
	}
}

// findMirror finds the entry points and fields of the mirror.
func findMirror(p *Program, rep *Report) *mirrorRoles {
	ro := &mirrorRoles{p: p, set: map[string][]*Term{}, dl: map[*ssa.Function]bool{}}
	ro.update, ro.newM, ro.run = need(p, rep, "mirror", "Mirror.Update"), need(p, rep, "mirror", "NewMirror"), need(p, rep, "mirror", "Run")
	ns := need(p, rep, "mirror", "NewStorage")
	ro.newStorage = ns
	if ro.update == nil || ro.newM == nil || ro.run == nil || ns == nil {
		return nil
	}
	for _, f := range p.funcs {
		if v := f.Signature.Recv(); v != nil && typeName(deref(v.Type())) == mirStorage && f.Parent() == nil && token.IsExported(f.Name()) {
			ro.methods = append(ro.methods, f)
		}
	}
	scratch := newReport(p, rep.prop)
	for _, f := range []*ssa.Function{ns, ro.newM} {
		e := newEngine(p, scratch, &mirCtorRule{mirBase: mirBase{rep: scratch, ro: ro}, set: ro.set})
		e.joinAt = 24
		e.noSpawn = true
		e.runRoot(f, nil)
	}
	for f, l := range ro.set {
		for _, t := range l {
			cs := components(t)
			last := cs[len(cs)-1]
			switch {
			case strings.HasPrefix(f, mirStorage+"."):
				if last.op == OpParam && last.name == ns.Params[0].Name() {
					ro.dir = f
				}
				if last.op == OpParam && last.name == ns.Params[1].Name() {
					ro.prefix = f
				}
				if isInfoMap(t.typ) {
					ro.info = f
				}
			case t.isCall(newStorage) && len(t.args) > 0:
				if t.args[0].any(func(x *Term) bool { return x.isCall("path/filepath.EvalSymlinks") }) {
					ro.cur = f
				} else {
					ro.store = f
				}
			default:
				if t.op == OpParam && t.typ != nil && t.typ.Underlying().String() == "string" {
					ro.id = f
				}
				if _, g := loadOf(last); len(cs) == 1 && strings.HasSuffix(g, "mirror.Config.Dir") {
					ro.top = f
				}
			}
		}
	}
	if t := p.typ("mirror", "Mirror"); t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
					ro.sem = fieldKey(t, i)
				}
				if ptrTo(s.Field(i).Type(), "http.Client") {
					ro.client = fieldKey(t, i)
				}
			}
		}
	}
	for what, k := range map[string]string{"directory of mirror.Storage": ro.dir, "prefix of mirror.Storage": ro.prefix, "item index of mirror.Storage": ro.info,
		"ID of mirror.Mirror": ro.id, "directory of mirror.Mirror": ro.top, "new storage of mirror.Mirror": ro.store, "published storage of mirror.Mirror": ro.cur, "slots of mirror.Mirror": ro.sem} {
		if k == "" {
			rep.missing("the " + what)
			return nil
		}
	}
	return ro
}

// mirEngine is the engine for the rules about mirrors. The goroutines that
// make requests are entry points of their own.
func mirEngine(p *Program, rep *Report, ro *mirrorRoles, rule Rule) *Engine {
	e := newEngine(p, rep, rule)
	e.joinAt = 2
	e.inlineWell = true
	e.intrinsic = func(t *Term) string {
		if ro.tempFile(t) {
			return "temp;"
		}
		return ""
	}
	e.follow = func(f *ssa.Function) bool {
		if p.requests(f) {
			ro.dl[f] = true
			return false
		}
		return !strings.HasPrefix(f.String(), ro.update.String())
	}
	return e
}

// tempFile says whether t was opened as a temporary file.
func (ro *mirrorRoles) tempFile(t *Term) bool {
	return t.isCall("io/ioutil.TempFile") || t.isCall("os.CreateTemp") || t.isCall("(*"+modulePath+"/mirror.Storage).TempFile")
}

// requests says whether a function makes requests, in itself or in functions
// that it calls.
func (p *Program) requests(f *ssa.Function) bool { return p.callsAny(f, isRequest) }

// callsAny says whether a function calls a library function, in itself or in
// functions that it calls.
func (p *Program) callsAny(f *ssa.Function, want func(name string) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] || !p.inRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if c.Common().IsInvoke() {
					if m := c.Common().Method; m.Pkg() != nil && want("("+typeName(c.Common().Value.Type())+")."+m.Name()) {
						return true
					}
					continue
				}
				if g := c.Common().StaticCallee(); g != nil && (want(g.String()) || visit(g)) {
					return true
				}
			}
		}
		return false
	}
	return visit(f)
}

// downloads are the goroutines that download, in a fixed order; they are
// known after Update was analysed.
func (ro *mirrorRoles) downloads(rep *Report) []*ssa.Function {
	if len(ro.dl) == 0 {
		rep.missing("a goroutine that downloads")
	}
	return sortedFns(ro.dl)
}

type mirBase struct {
	NopRule
	rep  *Report
	ro   *mirrorRoles
	open map[string]bool // operations of the storage that are looked into
}

func (r *mirBase) Call(e *Engine, st *State, c *Call) Action { return r.action(c) }

// action: questions about the configuration of a mirror are not looked into.
func (r *mirBase) action(c *Call) Action {
	if c.fn != nil && c.fn.Signature.Recv() != nil && typeName(deref(c.fn.Signature.Recv().Type())) == "mirror.MirrConfig" && r.rep.p.readOnly(c.fn) {
		return ActPure
	}
	if c.fn != nil && c.fn.Signature.Recv() != nil && typeName(deref(c.fn.Signature.Recv().Type())) == "mirror.Storage" && token.IsExported(c.fn.Name()) {
		if !r.rep.p.readOnly(c.fn) && !r.open[c.fn.Name()] {
			return ActOpaque
		}
	}
	return summarise(c)
}

// readOnly says whether the result of a function depends only on its
// arguments and on fields that never change, and nothing else does on it.
func (p *Program) readOnly(f *ssa.Function) bool {
	if p.pureFns == nil {
		p.pureFns = map[*ssa.Function]Tri{}
	}
	if r := p.pureFns[f]; r != Unknown {
		return r == Yes
	}
	p.pureFns[f] = No // recursion
	ok := f.Signature.Results().Len() > 0 && len(f.Blocks) > 0 && len(f.FreeVars) == 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ok = ok && p.readOnlyIn(f, in)
		}
	}
	p.pureFns[f] = tri(ok)
	return ok
}

func (p *Program) readOnlyIn(f *ssa.Function, in ssa.Instruction) bool {
	fresh := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				v = x.X
				continue
			case *ssa.Slice:
				v = x.X
				continue
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
				return true
			}
			return false
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		return fresh(in.Addr)
	case *ssa.MapUpdate:
		return fresh(in.Map)
	case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.MakeClosure, *ssa.MakeChan, *ssa.Panic:
		return false
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return false
		}
		if in.Op == token.MUL {
			switch a := in.X.(type) {
			case *ssa.FieldAddr:
				return fresh(a) || !p.mutField[fieldKey(a.X.Type(), a.Field)]
			case *ssa.Global:
				return true
			}
		}
	case *ssa.Range:
		_, isMap := in.X.Type().Underlying().(*types.Map)
		return !isMap
	case ssa.CallInstruction:
		com := in.Common()
		if com.IsInvoke() {
			return false
		}
		if _, ok := com.Value.(*ssa.Builtin); ok {
			return true
		}
		g := com.StaticCallee()
		if g == nil {
			return false
		}
		if p.inRepo(g) {
			return p.readOnly(g)
		}
		n := funcName(g)
		return pureFuncs[n] || g.Pkg != nil && purePkgs[g.Pkg.Pkg.Path()] && !impureInPure[n]
	}
	return true
}
