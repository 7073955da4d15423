// Command aptverif decides properties of aptutil from its source code.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

// property is a property and the analysis that decides it.
type property struct {
	desc string // the rule, for the evidence
	tech string // the deciding method
	note string // assurance and assumptions
	run  func(p *Program, rep *Report)
}

var properties = map[string]property{}

func register(id, tech, note, desc string, run func(p *Program, rep *Report)) {
	properties[id] = property{desc, tech, note, run}
}

const trust = " Trusts the type checker and go/ssa, the models of library functions in analyzer/call.go, and that shared fields change only under their lock (K07)."

var verifDir string
var thorough bool

func sumFile() string { return filepath.Join(verifDir, "analyzer", "aptutil.sum") }

func main() {
	prop := flag.String("property", "", "property to decide; \"all\" for all")
	repo := flag.String("repo", "/repo", "source tree")
	flag.StringVar(&verifDir, "verif", "/verif", "directory of the framework")
	out := flag.String("out", "", "directory for evidence (default: -verif)")
	flag.BoolVar(&debugDump, "dump", false, "print all obligations")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	if *list {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\t%s\n", id, properties[id].tech, properties[id].note)
		}
		return
	}
	if *out == "" {
		*out = verifDir
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	runtime.GOMAXPROCS(8)

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	thorough = tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	var ids []string
	if *prop == "all" {
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		if _, ok := properties[*prop]; !ok {
			fmt.Fprintln(os.Stderr, "no such property:", *prop)
			os.Exit(2)
		}
		ids = []string{*prop}
	}
	start := time.Now()
	p, loadErr := loadProgram(*repo)
	code := 0
	for _, id := range ids {
		t := time.Now()
		if len(ids) == 1 {
			t = start
		}
		if c := decide(p, loadErr, id, *repo, *out, tier, seed, t); c > code {
			code = c
		}
		if len(ids) > 1 {
			fmt.Printf("   [%s %.1fs]\n", id, time.Since(t).Seconds())
		}
	}
	os.Exit(code)
}

var debugDump bool

// runDeadline is when the analysis of the current property gives up.
var runDeadline time.Time

func decide(p *Program, loadErr error, id, repo, out, tier string, seed int, start time.Time) int {
	if p == nil {
		p = &Program{repo: repo}
	}
	rep := newReport(p, id)
	rep.desc = properties[id].desc
	if err := rep.loadKnown(filepath.Join(verifDir, "known-findings.txt")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if loadErr != nil {
		rep.violate("load", repo, 0, loadErr.Error(), nil)
		return rep.emit(out, tier, seed, start)
	}
	runDeadline = time.Now().Add(500 * time.Second)
	if n, err := strconv.Atoi(os.Getenv("APTVERIF_TIME")); err == nil {
		runDeadline = time.Now().Add(time.Duration(n) * time.Second)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(undecided); ok {
					rep.violate("undecided", id, 0, "the analysis could not decide: "+u.msg, nil)
					return
				}
				rep.violate("undecided", id, 0, fmt.Sprintf("the analysis failed: %v\n%s", x, debug.Stack()), nil)
			}
		}()
		properties[id].run(p, rep)
	}()
	if os.Getenv("APTVERIF_UNREACHED") != "" {
		for _, l := range rep.unreached() {
			fmt.Println("  unreached", l)
		}
	}
	if debugDump {
		var l []string
		for _, o := range rep.obl {
			l = append(l, fmt.Sprintf("  %v %s | %s | %s | %d", !o.Failed, o.Rule, o.Construct, o.Pos, o.Count))
		}
		sort.Strings(l)
		for _, x := range l {
			fmt.Println(x)
		}
	}
	return rep.emit(out, tier, seed, start)
}
