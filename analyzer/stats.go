package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stateStats helps to find out why there are many states.
type stateStats struct {
	n     map[*ssa.BasicBlock]int
	comps map[*ssa.BasicBlock]map[string]map[string]int
}

func newStats() *stateStats {
	if os.Getenv("APTVERIF_STATS") == "" {
		return nil
	}
	return &stateStats{map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]map[string]map[string]int{}}
}

func (x *stateStats) add(fn *ssa.Function, b *ssa.BasicBlock, s *State) {
	x.n[b]++
	c := x.comps[b]
	if c == nil {
		c = map[string]map[string]int{}
		x.comps[b] = c
	}
	put := func(comp, v string) {
		if c[comp] == nil {
			c[comp] = map[string]int{}
		}
		c[comp][v]++
	}
	for i, f := range s.frames {
		for v, t := range f.env {
			put(fmt.Sprintf("env %d:%s:%s", i, f.fn.Name(), v.Name()), t.show(4))
		}
		put(fmt.Sprintf("frame %d %s", i, f.fn.Name()), strconv.Itoa(f.ctx))
		var ls []string
		for h, r := range f.loops {
			ls = append(ls, strconv.Itoa(h.Index)+":"+strconv.Itoa(r.undec)+strconv.FormatBool(r.sat))
		}
		sort.Strings(ls)
		put(fmt.Sprintf("loops %d", i), strings.Join(ls, " "))
		put(fmt.Sprintf("defers %d", i), strconv.Itoa(len(f.defers)))
	}
	for a, v := range s.mem {
		put("mem "+a.show(4)+" "+strconv.Itoa(a.id), v.show(4))
	}
	for _, e := range s.maps {
		v := ""
		if e.val != nil {
			v = e.val.show(3)
		}
		put("map "+e.m.show(3)+"["+e.k.show(3)+"]", v+fmt.Sprint(e.ok))
	}
	for t, f := range s.facts {
		var fb strings.Builder
		f.key(&fb)
		put("fact "+t.show(4)+" "+strconv.Itoa(t.id), fb.String())
	}
	for t := range s.esc {
		put("esc "+t.show(3)+strconv.Itoa(t.id), "1")
	}
	for k, l := range s.mon {
		v := ""
		for _, t := range l {
			v += t.show(3) + ","
		}
		put("mon "+k, v)
	}
	for _, l := range s.locks {
		put("lock "+l.lock.show(3), "1")
	}
}

func (x *stateStats) print() {
	var bs []*ssa.BasicBlock
	for b := range x.n {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return x.n[bs[i]] > x.n[bs[j]] })
	for i, b := range bs {
		if i > 14 {
			break
		}
		fmt.Fprintf(os.Stderr, "%d %s block %d %s\n", x.n[b], b.Parent(), b.Index, b.Comment)
		if i > 4 {
			continue
		}
		var cs []string
		for c, m := range x.comps[b] {
			t := 0
			for _, n := range m {
				t += n
			}
			if len(m) > 1 || t < x.n[b] {
				s := fmt.Sprintf("    %s: %d values in %d", c, len(m), t)
				k := 0
				for v, n := range m {
					if k > 3 {
						break
					}
					k++
					s += fmt.Sprintf(" | %.60s x%d", v, n)
				}
				cs = append(cs, s)
			}
		}
		sort.Strings(cs)
		for _, c := range cs {
			fmt.Fprintln(os.Stderr, c)
		}
	}
}
