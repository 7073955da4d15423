package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// modulePath is the module under analysis.
const modulePath = "github.com/cybozu-go/aptutil"

// Program is the type-checked SSA form of the repository.
type Program struct {
	repo  string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by short name: apt, cacher, mirror, cmd/...
	tpkgs []*packages.Package
	funcs []*ssa.Function // every function of the repository with a body

	instrID   map[ssa.Instruction]int
	finfo     map[*ssa.Function]*funcInfo
	mutField  map[string]bool // struct fields stored to outside of construction
	mutElem   map[string]bool // slice element types that are stored to
	mutGlobal map[*ssa.Global]bool
	sentinel  map[*ssa.Global]bool // error globals initialised once with a new error
	mutMapTyp map[string]bool
	once      map[*ssa.Alloc]bool
	pureFns   map[*ssa.Function]Tri
	touchFns  map[*ssa.Function]Tri
	guard     map[string]string // field -> mutex field that guards it, by position in the struct
	files     int
	convs     map[convKey]convention
}

// loadProgram loads all non-test packages of the repository.
func loadProgram(repo string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "aptverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)

	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	modfile := filepath.Join(tmp, "aptutil.mod")
	if err := os.WriteFile(modfile, mod, 0644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(sumFile())
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "aptutil.sum"), sum, 0644); err != nil {
		return nil, err
	}
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOWORK", "GOOS", "GOARCH":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+modfile, "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off", "GOSUMDB=off")

	p := &Program{
		repo:      repo,
		fset:      token.NewFileSet(),
		pkgs:      map[string]*ssa.Package{},
		instrID:   map[ssa.Instruction]int{},
		finfo:     map[*ssa.Function]*funcInfo{},
		mutField:  map[string]bool{},
		mutElem:   map[string]bool{},
		mutGlobal: map[*ssa.Global]bool{},
		sentinel:  map[*ssa.Global]bool{},
		mutMapTyp: map[string]bool{},
		guard:     map[string]string{},
		once:      map[*ssa.Alloc]bool{},
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  env,
		Fset: p.fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, repo+"/") {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, ip := range initial {
		for _, e := range ip.Errors {
			errs = append(errs, e.Error())
		}
		p.files += len(ip.CompiledGoFiles)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot type-check %s: %s", repo, strings.Join(errs, "; "))
	}
	p.tpkgs = initial
	packages.Visit(initial, nil, func(ip *packages.Package) {
		// errors in other packages only come from dropping function bodies
		ip.IllTyped = false
	})
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for i, sp := range pkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		short := strings.TrimPrefix(strings.TrimPrefix(initial[i].PkgPath, modulePath), "/")
		p.pkgs[short] = sp
	}

	all := ssautil.AllFunctions(prog)
	for f := range all {
		if p.inRepo(f) && len(f.Blocks) > 0 {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n++
				p.instrID[in] = n
			}
		}
	}
	p.classify()
	p.guards()
	return p, nil
}

func (p *Program) inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	pk := f.Pkg
	if pk == nil {
		// wrappers, bound methods, instances
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modulePath)
		}
		if f.Parent() != nil {
			return p.inRepo(f.Parent())
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modulePath)
}

// fn finds a function by package and name ("T.M" for methods).
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := sp.Pkg.Scope().Lookup(name[:i])
		if t == nil {
			return nil
		}
		for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := p.prog.MethodSets.MethodSet(typ)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == name[i+1:] {
					f := p.prog.MethodValue(ms.At(k))
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// fieldKey names a struct field by its type.
func fieldKey(structPtr types.Type, i int) string {
	t := structPtr.Underlying()
	var named types.Type = structPtr
	if pt, ok := t.(*types.Pointer); ok {
		named = pt.Elem()
		t = pt.Elem().Underlying()
	}
	st := t.(*types.Struct)
	return typeName(named) + "." + st.Field(i).Name()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return p.Name()
	})
}

// classify computes flow-insensitive facts: which fields, element types,
// globals and map types are ever modified outside of the construction of a
// fresh object.
func (p *Program) classify() {
	gstores := map[*ssa.Global][]ssa.Value{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						if !freshBase(a.X) && f.Name() != "UnmarshalJSON" && f.Name() != "UnmarshalText" {
							p.mutField[fieldKey(a.X.Type(), a.Field)] = true
						}
					case *ssa.IndexAddr:
						if _, isArr := deref(a.X.Type()).Underlying().(*types.Array); !isArr {
							p.mutElem[typeName(in.Val.Type())] = true
						}
					case *ssa.Global:
						gstores[a] = append(gstores[a], in.Val)
						if f.Name() != "init" {
							p.mutGlobal[a] = true
						}
					}
				case *ssa.MapUpdate:
					p.mutMapTyp[typeName(in.Map.Type())] = true
				}
				// address of a global or field passed elsewhere
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if x.Val == g {
								p.mutGlobal[g] = true
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
						default:
							p.mutGlobal[g] = true
						}
					}
				}
			}
		}
	}
	for g, vals := range gstores {
		if len(vals) == 1 && !p.mutGlobal[g] && isError(deref(g.Type())) {
			if c, ok := vals[0].(*ssa.Call); ok {
				if cal := c.Common().StaticCallee(); cal != nil && isErrCtor(funcName(cal)) {
					p.sentinel[g] = true
				}
			}
		}
	}
}

// guards infers which mutex guards which fields: a mutex guards the fields
// declared between it and the next mutex, and the fields of structures of the
// same package that those refer to.
func (p *Program) guards() {
	for _, sp := range p.pkgs {
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			cur := ""
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				k := typeName(tn.Type()) + "." + f.Name()
				if isMutex(f.Type()) {
					cur = k
					continue
				}
				if cur == "" {
					continue
				}
				p.guard[k] = cur
				el := f.Type()
				for {
					if s, ok := el.Underlying().(*types.Slice); ok {
						el = s.Elem()
					} else if m, ok := el.Underlying().(*types.Map); ok {
						el = m.Elem()
					} else if q, ok := el.Underlying().(*types.Pointer); ok {
						el = q.Elem()
					} else {
						break
					}
				}
				if nt, ok := el.(*types.Named); ok && nt.Obj().Pkg() == sp.Pkg {
					if es, ok := nt.Underlying().(*types.Struct); ok && !hasMutex(es) {
						for j := 0; j < es.NumFields(); j++ {
							p.guard[typeName(nt)+"."+es.Field(j).Name()] = cur
						}
					}
				}
			}
		}
	}
}

func isMutex(t types.Type) bool {
	switch types.TypeString(deref(t), nil) {
	case "sync.Mutex", "sync.RWMutex":
		return true
	}
	return false
}

func hasMutex(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if isMutex(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func isErrCtor(n string) bool {
	switch n {
	case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "fmt.Errorf":
		return true
	}
	return false
}

func freshBase(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshBase(v.X)
	}
	return false
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

var errType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return t != nil && types.Identical(t, errType) }

// funcName is the full name of a function: path.Func or (path.T).M / (*path.T).M.
func funcName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o, ok := f.Object().(*types.Func); ok && f.Parent() == nil {
		return o.FullName()
	}
	return f.String()
}

func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() || p.fset == nil {
		return "-"
	}
	ps := p.fset.Position(x)
	fn := ps.Filename
	if r, err := filepath.Rel(p.repo, fn); err == nil && !strings.HasPrefix(r, "..") {
		fn = r
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

// ---- per-function information

type funcInfo struct {
	fn       *ssa.Function
	rpo      map[*ssa.BasicBlock]int
	loopOf   map[*ssa.BasicBlock][]*ssa.BasicBlock        // headers of loops containing the block, outermost first
	loopBody map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	liveIn   []map[ssa.Value]bool
	liveOut  []map[ssa.Value]bool
}

func (p *Program) info(f *ssa.Function) *funcInfo {
	if fi := p.finfo[f]; fi != nil {
		return fi
	}
	fi := &funcInfo{fn: f, rpo: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, loopBody: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	p.finfo[f] = fi
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i, b := range post {
		fi.rpo[b] = len(post) - i
	}
	// natural loops
	for _, b := range f.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loopBody[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loopBody[s] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, q := range x.Preds {
						if seen[q] {
							up(q)
						}
					}
				}
				up(b)
			}
		}
	}
	for h, body := range fi.loopBody {
		for b := range body {
			fi.loopOf[b] = append(fi.loopOf[b], h)
		}
	}
	for b := range fi.loopOf {
		hs := fi.loopOf[b]
		sort.Slice(hs, func(i, j int) bool { return fi.rpo[hs[i]] < fi.rpo[hs[j]] })
	}
	// liveness of SSA values
	n := len(f.Blocks)
	fi.liveIn = make([]map[ssa.Value]bool, n)
	fi.liveOut = make([]map[ssa.Value]bool, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
		fi.liveOut[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := fi.liveOut[i]
			for _, s := range b.Succs {
				for v := range fi.liveIn[s.Index] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := -1
				for k, q := range s.Preds {
					if q == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// all edges from b
					for k, q := range s.Preds {
						if q == b {
							if v := ph.Edges[k]; trackable(v) && !out[v] {
								out[v] = true
								changed = true
							}
						}
					}
				}
				_ = pi
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && trackable(*op) {
						in[*op] = true
					}
				}
			}
			for v := range in {
				if !fi.liveIn[i][v] {
					fi.liveIn[i][v] = true
					changed = true
				}
			}
		}
	}
	return fi
}

// trackable says whether v is kept in a frame's environment.
func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return v != nil
}

// iid numbers an instruction.
func (p *Program) iid(in ssa.Instruction) int {
	if n, ok := p.instrID[in]; ok {
		return n
	}
	n := len(p.instrID) + 1
	p.instrID[in] = n
	return n
}

// assignedOnce says whether a variable that closures capture is assigned in
// one place only and its address goes nowhere else.
func (p *Program) assignedOnce(a *ssa.Alloc) bool {
	if r, ok := p.once[a]; ok {
		return r
	}
	stores := 0
	bad := false
	var follow func(v ssa.Value, d int)
	follow = func(v ssa.Value, d int) {
		refs := v.Referrers()
		if refs == nil || d > 6 {
			bad = true
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v && r.Val != v {
					stores++
				} else {
					bad = true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						follow(fn.FreeVars[i], d+1)
					}
				}
			default:
				bad = true
			}
		}
	}
	follow(a, 0)
	ok := !bad && stores == 1
	p.once[a] = ok
	return ok
}

// typesPkg is the type information of a package of the repository.
func (p *Program) typesPkg(short string) *types.Package {
	for _, f := range p.funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modulePath+"/"+short {
			return f.Pkg.Pkg
		}
	}
	return nil
}

// implementsHeap says whether a type has the methods of container/heap.
func (p *Program) implementsHeap(t types.Type) bool {
	ms := p.prog.MethodSets.MethodSet(t)
	for _, n := range []string{"Len", "Less", "Swap", "Push", "Pop"} {
		if ms.Lookup(nil, n) == nil {
			return false
		}
	}
	return true
}

// ifaceFields are the fields that the methods of an interface value passed
// to a call access.
func (p *Program) ifaceFields(c *Call) map[string]bool {
	m := map[string]bool{}
	for _, a := range c.com.Args {
		mi, ok := a.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		it, ok := a.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			sel := p.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(it.Method(i).Pkg(), it.Method(i).Name())
			if sel == nil {
				continue
			}
			for fn := range p.reach(p.prog.MethodValue(sel)) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if fa, ok := in.(*ssa.FieldAddr); ok {
							m[fieldKey(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
		}
	}
	return m
}
