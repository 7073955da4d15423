package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// ---- what the results of functions of the repository say about each other

// convention says, of one result of a function whose last result is an error,
// whether it is never nil without and always nil with an error.
type convention struct{ success, failure bool }

type convKey struct {
	fn *ssa.Function
	i  int
}

// convention reads off the returns of f what can be said about result i.
func (p *Program) convention(f *ssa.Function, i int) convention {
	if f == nil || !p.inRepo(f) {
		return convention{true, true}
	}
	k := convKey{f, i}
	if c, ok := p.convs[k]; ok {
		return c
	}
	if p.convs == nil {
		p.convs = map[convKey]convention{}
	}
	p.convs[k] = convention{}
	c := convention{true, true}
	n := f.Signature.Results().Len()
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 || b == f.Recover && !recovers(f) {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != n {
			continue
		}
		p.returned(&c, spilled(ret.Results[i], b), spilled(ret.Results[n-1], b), b, map[ssa.Value]bool{})
	}
	if len(f.Blocks) == 0 {
		c = convention{}
	}
	p.convs[k] = c
	return c
}

// returned notes what one pair of results means.
func (p *Program) returned(c *convention, v, err ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) {
	// the results of a call are passed on
	if x, ok := v.(*ssa.Extract); ok {
		if y, ok := err.(*ssa.Extract); ok && x.Tuple == y.Tuple {
			if call, ok := x.Tuple.(*ssa.Call); ok && (call.Call.StaticCallee() != nil || call.Call.IsInvoke()) && y.Index == call.Call.Signature().Results().Len()-1 {
				d := p.convention(call.Call.StaticCallee(), x.Index)
				c.success = c.success && d.success
				c.failure = c.failure && d.failure
				return
			}
		}
	}
	if ph, ok := err.(*ssa.Phi); ok && !seen[ph] && ph.Block() == b {
		seen[ph] = true
		w, same := v.(*ssa.Phi)
		same = same && w.Block() == b
		for k, e := range ph.Edges {
			x := v
			if same {
				x = w.Edges[k]
			}
			p.returned(c, x, e, b.Preds[k], seen)
		}
		return
	}
	switch p.nilKnown(err, b) {
	case Yes:
		c.success = c.success && p.notNil(v, b, map[ssa.Value]bool{})
	case No:
		c.failure = c.failure && isNilConst(v)
	default:
		c.success = c.success && p.notNil(v, b, map[ssa.Value]bool{})
		c.failure = c.failure && isNilConst(v)
	}
}

// spilled is the value that a block has stored in a result variable, which
// functions with deferred calls have.
func spilled(v ssa.Value, b *ssa.BasicBlock) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	a, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a {
				return v
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return v
		}
	}
	var last ssa.Value
	for _, in := range b.Instrs {
		if in == ssa.Instruction(ld) {
			break
		}
		if s, ok := in.(*ssa.Store); ok && s.Addr == a {
			last = s.Val
		}
	}
	if last != nil {
		return last
	}
	return v
}

// recovers says whether f may go on after a panic.
func recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				g, _ = mc.Fn.(*ssa.Function)
			}
			if g == nil {
				return !d.Call.IsInvoke()
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if x, ok := c.Call.Value.(*ssa.Builtin); ok && x.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// nilKnown says whether an error is nil wherever control is in b.
func (p *Program) nilKnown(v ssa.Value, b *ssa.BasicBlock) Tri {
	switch x := v.(type) {
	case *ssa.Const:
		return tri(x.IsNil())
	case *ssa.MakeInterface:
		return No
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && p.sentinel[g] {
			return No
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && neverNil[g.String()] {
			return No
		} else if g != nil && wrapsError[g.String()] && p.nilKnown(x.Call.Args[0], b) == No {
			return No
		}
	}
	for _, d := range b.Parent().Blocks {
		if len(d.Instrs) == 0 {
			continue
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, ok := br.Cond.(*ssa.BinOp)
		if !ok || cond.Op != token.EQL && cond.Op != token.NEQ || !(cond.X == v && isNilConst(cond.Y) || cond.Y == v && isNilConst(cond.X)) {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				return tri((k == 0) == (cond.Op == token.EQL))
			}
		}
	}
	return Unknown
}

// neverNil are functions that always return an error.
var neverNil = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
	"github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
}

// notNil says whether a value is never nil wherever control is in b.
func (p *Program) notNil(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.MakeInterface, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.Global:
		return true
	case *ssa.ChangeType:
		return p.notNil(x.X, b, seen)
	case *ssa.ChangeInterface:
		return p.notNil(x.X, b, seen)
	case *ssa.Phi:
		for k, e := range x.Edges {
			if !p.notNil(e, x.Block().Preds[k], seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			break
		}
		rt := call.Call.Signature().Results()
		if !isError(rt.At(rt.Len()-1).Type()) || call.Call.StaticCallee() == nil && !call.Call.IsInvoke() || !p.convention(call.Call.StaticCallee(), x.Index).success {
			break
		}
		for _, r := range *call.Referrers() {
			if y, ok := r.(*ssa.Extract); ok && y.Index == rt.Len()-1 && p.nilKnown(y, b) == Yes {
				return true
			}
		}
	}
	return p.nilKnown(v, b) == No
}

// wrapsError are functions that return an error if they are given one.
var wrapsError = map[string]bool{
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true,
	"github.com/pkg/errors.WithMessage": true, "github.com/pkg/errors.WithStack": true,
}
