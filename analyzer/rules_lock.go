package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// inFn names the repository function an event happens in.
func (e *Engine) inFn(st *State) string {
	if len(st.frames) == 0 {
		return e.curRoot
	}
	return fnLabel(st.top().fn)
}

func fnLabel(f *ssa.Function) string {
	n := shortName(f.String())
	return n
}

// entryPoints returns the functions other packages, net/http or goroutines
// may call: exported functions and methods, methods that implement foreign
// interfaces, and main functions.
func (p *Program) entryPoints(pkgs ...string) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range p.funcs {
		if f.Parent() != nil || f.Synthetic != "" || f.Pkg == nil {
			continue
		}
		short := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modulePath), "/")
		ok := false
		for _, q := range pkgs {
			if q == short {
				ok = true
			}
		}
		if !ok {
			continue
		}
		if f.Name() == "main" && f.Pkg.Pkg.Name() == "main" && f.Signature.Recv() == nil || token.IsExported(f.Name()) {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// lockClass names the field a lock lives in.
func lockClass(l *Term) string {
	if l.op == OpField {
		return l.name
	}
	if l.op == OpGlobal {
		return l.name
	}
	return l.show(3)
}

// chanClass names where a channel is kept.
func chanClass(t *Term) string {
	if f := fieldOf(t); f != "" {
		return f
	}
	if t.op == OpSym && (t.symKind() == "mapval" || t.symKind() == "iterval") && len(t.args) > 0 {
		return chanClass(t.args[0])
	}
	if t.op == OpSym && t.symKind() == "load" && len(t.args) > 0 && t.args[0].op == OpIndex {
		return chanClass(t.args[0].args[0])
	}
	return ""
}

// blockingCall says whether a library call may wait for the network, a
// timer or another goroutine.
func blockingCall(name string) bool {
	switch name {
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Head", "(*net/http.Client).Post", "(*net/http.Client).PostForm",
		"net/http.Get", "net/http.Head", "net/http.Post",
		"(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip",
		"time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", wellWait, envWait,
		"net/http.ServeContent", "net/http.ServeFile", "net/http.Error", "net/http.NotFound",
		"(net/http.ResponseWriter).Write", "net.Dial", "net.DialTimeout", "net.LookupHost":
		return true
	}
	return false
}

// fromNetwork says whether a term comes from an upstream response.
func fromNetwork(t *Term) bool {
	return t.any(func(x *Term) bool {
		return x.isCall("(*net/http.Client).Do") || x.isCall("(*net/http.Client).Get") || x.isCall("net/http.Get") ||
			x.op == OpField && strings.HasPrefix(x.name, "http.Response.")
	})
}

type lockRule struct {
	NopRule
	rep     *Report
	edges   map[string]map[string]token.Pos
	classes map[string]bool
	sends   map[string][]sendUnder // channel class -> sends under a lock
	makes   map[string][]chanMake
}

type sendUnder struct {
	fn  string
	pos token.Pos
	tr  *State
}

type chanMake struct {
	zero bool
	pos  token.Pos
}

func (r *lockRule) On(e *Engine, st *State, ev *Event) {
	pos := token.NoPos
	if ev.in != nil {
		pos = ev.in.Pos()
	}
	switch ev.kind {
	case EvLock:
		cl := lockClass(ev.a)
		r.classes[cl] = true
		where := e.inFn(st) + " locks " + cl
		bad := ""
		for _, h := range ev.held {
			hc := lockClass(h.lock)
			if hc == cl {
				bad = "a lock of " + cl + " is already held"
				continue
			}
			if r.edges[hc] == nil {
				r.edges[hc] = map[string]token.Pos{}
			}
			if _, ok := r.edges[hc][cl]; !ok {
				r.edges[hc][cl] = pos
			}
		}
		r.rep.check(bad == "", "no lock is acquired twice", where, pos, st, "%s", bad)
	case EvUnlock:
		r.rep.check(ev.ok, "only held locks are released", e.inFn(st)+" unlocks "+lockClass(ev.a), pos, st, "%s is unlocked but it is not held in that mode here", ev.a.show(3))
	case EvRecv:
		if ev.slot == "select" {
			return
		}
		r.noLock(e, st, "receives from a channel", pos)
	case EvSelect:
		r.noLock(e, st, "waits in select", pos)
	case EvSend:
		if ev.slot == "select" {
			return
		}
		if len(st.locks) == 0 {
			r.rep.oblige("no waiting while a lock is held", e.inFn(st)+" sends to a channel", pos)
			return
		}
		if ev.a.op == OpAlloc {
			r.rep.check(!r.unbuffered(e, st, ev.a), "no waiting while a lock is held", e.inFn(st)+" sends to a channel", pos, st, "sends to an unbuffered channel while a lock is held")
			return
		}
		cl := chanClass(ev.a)
		r.sends[cl] = append(r.sends[cl], sendUnder{e.inFn(st), pos, st})
		r.sends[cl][len(r.sends[cl])-1].tr = &State{trace: st.trace, locks: append([]lockHeld(nil), st.locks...)}
	case EvMapUpdate:
		if isChan(ev.c) {
			cl := fieldOf(ev.a)
			r.makes[cl] = append(r.makes[cl], chanMake{r.unbuffered(e, st, ev.c), pos})
		}
	case EvStore:
		if isChan(ev.b) && ev.a.op == OpField {
			r.makes[ev.a.name] = append(r.makes[ev.a.name], chanMake{r.unbuffered(e, st, ev.b), pos})
		}
	case EvExit, EvSpawnExit:
		if ev.panics || (ev.kind == EvExit && ev.fn == nil) {
			return
		}
		name := e.curRoot
		p := token.NoPos
		if ev.kind == EvSpawnExit {
			if ev.a != nil && ev.a.fn != nil {
				name = fnLabel(ev.a.fn)
				p = ev.a.fn.Pos()
			}
		} else {
			p = ev.fn.Pos()
		}
		if len(st.locks) == 0 {
			r.rep.oblige("locks are released on every exit", name, p)
			return
		}
		var l []string
		for _, h := range st.locks {
			l = append(l, lockClass(h.lock))
		}
		r.rep.violate("locks are released on every exit", name, p, "still holds "+strings.Join(l, ", ")+" when it ends", st.trace)
	}
}

func isChan(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Chan)
	return ok
}

func (r *lockRule) unbuffered(e *Engine, st *State, ch *Term) bool {
	sz := st.mem[e.ts.mk(OpApp, "chancap", nil, ch)]
	if sz == nil {
		return false
	}
	n, ok := sz.int()
	return ok && n == 0
}

func (r *lockRule) noLock(e *Engine, st *State, what string, pos token.Pos) {
	where := e.inFn(st) + " " + what
	if len(st.locks) == 0 {
		r.rep.oblige("no waiting while a lock is held", where, pos)
		return
	}
	r.rep.violate("no waiting while a lock is held", where, pos, what+" while holding "+lockClass(st.locks[len(st.locks)-1].lock), st.trace)
}

func (r *lockRule) Call(e *Engine, st *State, c *Call) Action {
	if blockingCall(c.name) {
		r.noLock(e, st, "calls "+shortName(c.name), c.pos())
	}
	if a := summarise(c); a != ActDefault {
		return a
	}
	switch c.name {
	case "io.Copy", "io.CopyBuffer", "io.CopyN", "io.ReadAll", "io/ioutil.ReadAll":
		for _, a := range c.args {
			if fromNetwork(a) {
				r.noLock(e, st, "reads a response", c.pos())
				break
			}
		}
	}
	return ActDefault
}

// aptPure are functions of the apt package whose results depend only on
// their arguments; the properties of the apt package are decided separately.
func summarise(c *Call) Action {
	if c.fn == nil || c.fn.Pkg == nil {
		return ActDefault
	}
	if c.fn.Pkg.Pkg.Path() == modulePath+"/apt" && c.fn.Parent() == nil {
		switch c.fn.Name() {
		case "CalcChecksums", "CopyWithFileInfo", "ExtractFileInfo", "MakeFileInfoNoChecksum", "HasChecksum":
			return ActOpaque
		}
		if token.IsExported(c.fn.Name()) {
			return ActPure
		}
	}
	if c.name == "("+modulePath+"/cacher.URLMap).URL" {
		return ActPure
	}
	return ActDefault
}

func (r *lockRule) done() {
	// sends to buffered semaphores cannot wait as slots are balanced (K10, M08)
	for cl, l := range r.sends {
		ok := cl != "" && len(r.makes[cl]) > 0
		for _, m := range r.makes[cl] {
			if m.zero {
				ok = false
			}
		}
		for _, s := range l {
			r.rep.check(ok, "no waiting while a lock is held", s.fn+" sends to a channel", s.pos, s.tr, "sends to a channel that is not a buffered semaphore while holding a lock")
		}
	}
	// the acquisition order must have no cycle
	for a, m := range r.edges {
		for b, pos := range m {
			cyc := r.path(b, a, map[string]bool{})
			r.rep.check(!cyc, "lock order has no cycle", a+" then "+b, pos, nil, "%s is acquired while %s is held, and the other way around elsewhere", b, a)
		}
	}
}

func (r *lockRule) path(from, to string, seen map[string]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for n := range r.edges[from] {
		if r.path(n, to, seen) {
			return true
		}
	}
	return false
}

func init() {
	register("K08", "lock typestate dataflow over the SSA form, with lock-order graph",
		"Covers all paths of all entry points and goroutines up to joining of states; locks are identified by the struct field they live in, sends to buffered channels are taken as non-blocking (K10, M08 decide the balance)."+trust,
		"Path-sensitive lock typestate over all entry points of the cacher and mirror packages and all goroutines they start, with callees inlined: every lock is released at every normal exit, no lock class is acquired while it is held, no channel operation, network call or timer wait happens under a lock (sends to buffered semaphores excepted), and the lock acquisition graph is acyclic.", func(p *Program, rep *Report) {
			r := &lockRule{rep: rep, edges: map[string]map[string]token.Pos{}, classes: map[string]bool{}, sends: map[string][]sendUnder{}, makes: map[string][]chanMake{}}
			runAllRoots(p, rep, r, p.entryPoints("cacher", "mirror"))
			r.done()
			rep.floor("no lock is acquired twice", 6)
			rep.floor("locks are released on every exit", 20)
			rep.floor("no waiting while a lock is held", 4)
			if len(r.classes) < 4 {
				rep.violate("floor", "lock classes", token.NoPos, fmt.Sprintf("only %d lock classes found", len(r.classes)), nil)
			}
		})
}

// runAllRoots analyses the entry points and, as roots of their own, the
// bodies of all goroutines that are started.
func runAllRoots(p *Program, rep *Report, rule Rule, roots []*ssa.Function) {
	spawned := map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	for len(roots) > 0 {
		f := roots[0]
		roots = roots[1:]
		if o := os.Getenv("APTVERIF_ROOT"); o != "" && !strings.Contains(f.String(), o) {
			continue
		}
		if done[f] || len(f.Blocks) == 0 {
			continue
		}
		done[f] = true
		e := newEngine(p, rep, rule)
		e.spawnRoots = spawned
		e.joinAt = 2
		t := time.Now()
		e.runRoot(f, nil)
		if debugDump {
			fmt.Printf("root %s %.2fs max %d\n", f, time.Since(t).Seconds(), e.maxBlock)
		}
		if len(roots) == 0 {
			for g := range spawned {
				if !done[g] {
					roots = append(roots, g)
				}
			}
			sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
		}
	}
}
