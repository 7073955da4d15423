package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a rule applied to one construct of the source.
type Obligation struct {
	Rule      string
	Construct string
	Pos       string
	Count     int // paths on which it was checked
	Failed    bool
}

// Violation is a broken obligation.
type Violation struct {
	Rule      string
	Construct string
	Pos       string
	Msg       string
	Trace     []string
}

// Report collects the results of the analysis of one property.
type Report struct {
	p        *Program
	prop     string
	desc     string
	obl      map[string]*Obligation
	viol     map[string]*Violation
	order    []string
	roots    map[string]bool
	fns      map[string]bool
	calls    int
	steps    int
	floors   []floor
	facts    []string
	findings []string // known findings that were met
	known    []knownFinding
	blocks   map[*ssa.BasicBlock]bool
}

type floor struct {
	rule string
	min  int
}

type knownFinding struct {
	prop, rule, construct, text string
}

func newReport(p *Program, prop string) *Report {
	return &Report{p: p, prop: prop, obl: map[string]*Obligation{}, viol: map[string]*Violation{}, roots: map[string]bool{}, fns: map[string]bool{}, blocks: map[*ssa.BasicBlock]bool{}}
}

func (r *Report) root(n string)           { r.roots[n] = true }
func (r *Report) fn(f *ssa.Function)      { r.fns[shortName(f.String())] = true }
func (r *Report) block(b *ssa.BasicBlock) { r.blocks[b] = true }

// unreached lists the blocks of analysed functions that no path led to.
func (r *Report) unreached() []string {
	fns := map[*ssa.Function]bool{}
	for b := range r.blocks {
		fns[b.Parent()] = true
	}
	var l []string
	for _, f := range sortedFns(fns) {
		for _, b := range f.Blocks {
			if r.blocks[b] || b == f.Recover {
				continue
			}
			pos := token.NoPos
			for _, in := range b.Instrs {
				if in.Pos() != token.NoPos {
					pos = in.Pos()
					break
				}
			}
			l = append(l, fmt.Sprintf("%s block %d %s %s", shortName(f.String()), b.Index, b.Comment, r.p.pos(pos)))
		}
	}
	return l
}

func (r *Report) fact(f string, a ...any) { r.facts = append(r.facts, fmt.Sprintf(f, a...)) }

// adopt takes over what another report says about some constructs.
func (r *Report) adopt(from *Report, rule, as string, which func(construct string) bool) {
	ks := make([]string, 0, len(from.obl))
	for k := range from.obl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := from.obl[k]
		if o.Rule != "undecided" && (o.Rule != rule || !which(o.Construct)) {
			continue
		}
		c := *o
		if c.Rule == rule {
			c.Rule = as
		}
		n := key(c.Rule, c.Construct)
		r.obl[n] = &c
		if v := from.viol[k]; v != nil {
			w := *v
			w.Rule = c.Rule
			r.viol[n] = &w
			r.order = append(r.order, n)
		}
	}
	for f := range from.fns {
		r.fns[f] = true
	}
	r.calls += from.calls
	r.steps += from.steps
}

func key(rule, construct string) string { return rule + "\x00" + construct }

// oblige records that the rule was checked for the construct.
func (r *Report) oblige(rule, construct string, pos token.Pos) *Obligation {
	k := key(rule, construct)
	o := r.obl[k]
	if o == nil {
		o = &Obligation{Rule: rule, Construct: construct, Pos: r.p.pos(pos)}
		r.obl[k] = o
	}
	o.Count++
	return o
}

// violate records a broken rule.
func (r *Report) violate(rule, construct string, pos token.Pos, msg string, tr *Trace) {
	o := r.oblige(rule, construct, pos)
	o.Failed = true
	k := key(rule, construct)
	if old, dup := r.viol[k]; dup {
		// keep the shortest path
		n := 0
		if tr != nil {
			n = tr.n + 1
		}
		if n >= len(old.Trace) {
			return
		}
	} else {
		r.order = append(r.order, k)
	}
	v := &Violation{Rule: rule, Construct: construct, Pos: r.p.pos(pos), Msg: msg}
	for t := tr; t != nil; t = t.up {
		v.Trace = append(v.Trace, r.p.pos(t.pos)+": "+t.note)
	}
	for i, j := 0, len(v.Trace)-1; i < j; i, j = i+1, j-1 {
		v.Trace[i], v.Trace[j] = v.Trace[j], v.Trace[i]
	}
	r.viol[k] = v
}

// check is oblige, and violate unless ok.
func (r *Report) check(ok bool, rule, construct string, pos token.Pos, st *State, msg string, a ...any) bool {
	if ok {
		r.oblige(rule, construct, pos)
		return true
	}
	var tr *Trace
	if st != nil {
		tr = st.trace
	}
	r.violate(rule, construct, pos, fmt.Sprintf(msg, a...), tr)
	return false
}

// floor demands a minimum number of constructs for a rule.
func (r *Report) floor(rule string, min int) { r.floors = append(r.floors, floor{rule, min}) }

func (r *Report) count(rule string) int {
	n := 0
	for _, o := range r.obl {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

// missing reports an anchor that cannot be resolved.
func (r *Report) missing(what string) {
	r.violate("anchor", what, token.NoPos, "cannot find "+what+", which the property is anchored on", nil)
}

func (r *Report) finish() {
	for _, f := range r.floors {
		n := r.count(f.rule)
		if n < f.min {
			r.violate("floor", f.rule, token.NoPos, fmt.Sprintf("rule %q applied to %d constructs, expected at least %d", f.rule, n, f.min), nil)
		}
	}
}

// loadKnown reads the known findings.
func (r *Report) loadKnown(file string) error {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=ID rule=R construct=C | text
		head, text, _ := strings.Cut(l[len("finding:"):], "|")
		k := knownFinding{text: strings.TrimSpace(text)}
		for _, part := range strings.Split(head, ";") {
			n, v, _ := strings.Cut(strings.TrimSpace(part), "=")
			switch n {
			case "property":
				k.prop = v
			case "rule":
				k.rule = v
			case "construct":
				k.construct = v
			}
		}
		r.known = append(r.known, k)
	}
	return nil
}

// emit prints the outcome and writes the evidence; it returns the exit code.
func (r *Report) emit(dir, tier string, seed int, start time.Time) int {
	r.finish()
	var viol []*Violation
	for _, k := range r.order {
		v := r.viol[k]
		known := false
		for _, f := range r.known {
			if f.prop == r.prop && f.rule == v.Rule && f.construct == v.Construct {
				known = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", r.prop, f.text, v.Rule, v.Pos)
				r.findings = append(r.findings, f.text)
			}
		}
		if !known {
			viol = append(viol, v)
		}
	}
	var obl []*Obligation
	for _, o := range r.obl {
		obl = append(obl, o)
	}
	sort.Slice(obl, func(i, j int) bool {
		if obl[i].Rule != obl[j].Rule {
			return obl[i].Rule < obl[j].Rule
		}
		return obl[i].Construct < obl[j].Construct
	})
	discharged := 0
	var samples []string
	byRule := map[string]int{}
	for _, o := range obl {
		if !o.Failed {
			discharged++
		}
		byRule[o.Rule]++
		if len(samples) < 60 {
			samples = append(samples, fmt.Sprintf("%s: %s (%s; %d paths)", o.Rule, o.Construct, o.Pos, o.Count))
		}
	}
	keys := func(m map[string]bool) []string {
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	ev := map[string]any{
		"property": r.prop,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"wall_s":   time.Since(start).Seconds(),
		"coverage": map[string]any{
			"explanation":          r.desc,
			"obligations":          len(obl),
			"discharged":           discharged,
			"constructs_by_rule":   byRule,
			"samples":              samples,
			"entry_points":         keys(r.roots),
			"functions_analysed":   keys(r.fns),
			"instructions_visited": r.steps,
			"files":                r.p.files,
			"notes":                r.facts,
			"blocks_reached":       len(r.blocks),
			"blocks_not_reached":   r.unreached(),
			"known_findings":       r.findings,
		},
		"assumptions": []string{
			"library functions behave as documented (models in analyzer/call.go)",
			"shared fields change only while their lock is held, which K07 checks separately",
		},
		"violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", r.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	replay := filepath.Join(dir, "evidence", r.prop+".violations.txt")
	if len(viol) == 0 {
		os.Remove(replay)
		fmt.Printf("%s: %d obligations over %d functions hold\n", r.prop, len(obl), len(r.fns))
		return 0
	}
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "property %s, rule %q, instance %s\n  %s: %s\n", r.prop, v.Rule, v.Construct, v.Pos, v.Msg)
		for _, t := range v.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	os.WriteFile(replay, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
	return 1
}
