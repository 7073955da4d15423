package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- variables that goroutines capture

const ruleCaptured = "a variable that a started goroutine uses is not changed until the goroutine was waited for"

// starters are the functions that start one of their arguments as a
// goroutine: the index of the argument by function name.
func (p *Program) starters() map[string]int {
	m := map[string]int{wellGo: 0, envGo: 1, "(*github.com/cybozu-go/well.Environment).GoWithID": 1, "github.com/cybozu-go/well.GoWithID": 0, "time.AfterFunc": 1, "(*sync.WaitGroup).Go": 1}
	for changed := true; changed; {
		changed = false
		for _, f := range p.funcs {
			if _, ok := m[f.String()]; ok {
				continue
			}
			for i, pa := range f.Params {
				for _, ref := range *pa.Referrers() {
					if g, ok := ref.(*ssa.Go); ok && g.Call.Value == pa {
						m[f.String()], changed = i, true
					}
					if c, ok := ref.(ssa.CallInstruction); ok {
						if j, ok := m[calleeName(c.Common())]; ok && j < len(c.Common().Args) && c.Common().Args[j] == pa {
							m[f.String()], changed = i, true
						}
					}
				}
			}
		}
	}
	return m
}

func calleeName(c *ssa.CallCommon) string {
	if g := c.StaticCallee(); g != nil {
		return g.String()
	}
	return ""
}

// started are the closures that an instruction starts as goroutines.
func started(in ssa.Instruction, starters map[string]int) []*ssa.MakeClosure {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if _, ok := in.(*ssa.Defer); ok {
		return nil
	}
	com := c.Common()
	var v ssa.Value
	if _, ok := in.(*ssa.Go); ok {
		v = com.Value
	} else if i, ok := starters[calleeName(com)]; ok && i < len(com.Args) {
		v = com.Args[i]
	}
	var l []*ssa.MakeClosure
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeClosure:
			l = append(l, v)
		case *ssa.Phi:
			for _, x := range v.Edges {
				visit(x)
			}
		case *ssa.ChangeType:
			visit(v.X)
		case *ssa.UnOp:
			// a variable that holds the closure
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						visit(s.Val)
					}
				}
			}
		}
	}
	visit(v)
	return l
}

// cellUse says how a function uses a variable, in itself and in closures
// that it makes.
func cellUse(v ssa.Value, depth int) (reads, writes bool) {
	if v.Referrers() == nil || depth > 6 {
		return true, true
	}
	for _, ref := range *v.Referrers() {
		r, w := useIn(ref, v, depth)
		reads, writes = reads || r, writes || w
	}
	return
}

func useIn(ref ssa.Instruction, v ssa.Value, depth int) (reads, writes bool) {
	switch x := ref.(type) {
	case *ssa.Store:
		if x.Addr == v {
			return false, true
		}
	case *ssa.UnOp:
		return true, false
	case *ssa.FieldAddr:
		return cellUse(x, depth+1)
	case *ssa.IndexAddr:
		return cellUse(x, depth+1)
	case *ssa.MakeClosure:
		g, _ := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v && g != nil && i < len(g.FreeVars) {
				r, w := cellUse(g.FreeVars[i], depth+1)
				reads, writes = reads || r, writes || w
			}
		}
	}
	return
}

// syncs says whether an instruction waits for other goroutines.
func (p *Program) syncs(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return true
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Go); ok {
			return false
		}
		n := calleeName(x.Common())
		if isWait(n) {
			return true
		}
		if g := x.Common().StaticCallee(); g != nil && p.inRepo(g) {
			return p.waits(g)
		}
		return x.Common().StaticCallee() == nil && !x.Common().IsInvoke()
	}
	return false
}

func isWait(n string) bool {
	switch n {
	case wellWait, envWait, "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		return true
	}
	return false
}

// waits says whether a function may wait for other goroutines.
func (p *Program) waits(f *ssa.Function) bool {
	if p.callsAny(f, isWait) {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				return true
			}
		}
	}
	return false
}

// capturedVars decides ruleCaptured for the functions of some packages.
func capturedVars(p *Program, rep *Report, pkgs ...string) {
	starters := p.starters()
	n := 0
	for _, f := range p.funcs {
		in := false
		for _, k := range pkgs {
			in = in || f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/"+k)
		}
		if !in {
			continue
		}
		for _, b := range f.Blocks {
			for i, ins := range b.Instrs {
				for _, mc := range started(ins, starters) {
					g, _ := mc.Fn.(*ssa.Function)
					if g == nil {
						continue
					}
					for k, cell := range mc.Bindings {
						switch cell.(type) {
						case *ssa.Alloc, *ssa.FreeVar:
						default:
							continue // a value
						}
						n++
						reads, writes := cellUse(g.FreeVars[k], 0)
						bad := p.usedAfter(cell, b, i+1, reads, writes)
						where := fnLabel(f) + " starts a goroutine that uses " + g.FreeVars[k].Name()
						pos := ins.Pos()
						o := ""
						if bad != nil {
							o = p.fset.Position(bad.Pos()).String()
							if j := strings.LastIndex(o, "/"); j >= 0 {
								o = o[j+1:]
							}
						}
						rep.check(bad == nil, ruleCaptured, where, pos, newState(), "the variable may be used at %s while the goroutine runs, and one of them changes it", o)
					}
				}
			}
		}
	}
	rep.fact("%d captured variables of started goroutines", n)
}

// usedAfter finds an instruction after the start of a goroutine that
// conflicts with what the goroutine does with a variable.
func (p *Program) usedAfter(cell ssa.Value, b *ssa.BasicBlock, i int, reads, writes bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var bad ssa.Instruction
	var visit func(b *ssa.BasicBlock, i int)
	visit = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if bad != nil || isValue(in, cell) || p.syncs(in) {
				return
			}
			if _, ok := in.(*ssa.Defer); ok {
				continue
			}
			uses := false
			for _, op := range in.Operands(nil) {
				uses = uses || *op == cell
			}
			if !uses {
				continue
			}
			r, w := useIn(in, cell, 0)
			if _, ok := in.(*ssa.MakeClosure); ok && !w {
				continue
			}
			if w && (reads || writes) || r && writes {
				bad = in
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				visit(s, 0)
			}
		}
	}
	visit(b, i)
	return bad
}

func isValue(in ssa.Instruction, v ssa.Value) bool {
	x, ok := in.(ssa.Value)
	return ok && x == v
}
