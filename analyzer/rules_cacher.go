package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- roles in the cacher

type cacherRoles struct {
	p                       *Program
	info, results, dl, sem  string // maps
	storages                []string
	um, client, maxConns    string
	interval, period        string
	insert, lookup, listAll *ssa.Function
	get, download, newC     *ssa.Function
}

func findCacher(p *Program, rep *Report) *cacherRoles {
	t := p.typ("cacher", "Cacher")
	if t == nil {
		rep.missing("cacher.Cacher")
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		rep.missing("cacher.Cacher as a struct")
		return nil
	}
	r := &cacherRoles{p: p}
	var chans, durs []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		k := fieldKey(t, i)
		if typeName(f.Type()) == "cacher.URLMap" {
			r.um = k
			continue
		}
		if typeName(f.Type()) == "time.Duration" {
			durs = append(durs, k)
			continue
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Map:
			el := u.Elem().Underlying()
			switch el := el.(type) {
			case *types.Pointer:
				if ptrTo(u.Elem(), "apt.FileInfo") {
					r.info = k
				}
			case *types.Chan:
				chans = append(chans, k)
			case *types.Basic:
				if el.Kind() == types.Int {
					r.results = k
				}
			}
		case *types.Pointer:
			switch typeName(u.Elem()) {
			case "cacher.Storage":
				r.storages = append(r.storages, k)
			case "http.Client", "net/http.Client":
				r.client = k
			}
		case *types.Basic:
			if u.Kind() == types.Int {
				r.maxConns = k
			}
		}
	}
	// what is stored in the tables of channels tells them apart
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					mc, ok := in.Value.(*ssa.MakeChan)
					if !ok {
						continue
					}
					k := fieldLoaded(in.Map)
					if c, ok := mc.Size.(*ssa.Const); ok && c.Int64() == 0 {
						if contains(chans, k) {
							r.dl = k
						}
					} else if contains(chans, k) {
						r.sem = k
					}
				case *ssa.Call:
					switch callee := in.Call.StaticCallee(); {
					case callee == nil || len(in.Call.Args) == 0:
					case callee.String() == "time.NewTicker" || callee.String() == "time.Tick":
						if k := fieldLoaded(in.Call.Args[0]); contains(durs, k) {
							r.interval = k
						}
					case callee.String() == "time.After" || callee.String() == "time.NewTimer":
						if k := fieldLoaded(in.Call.Args[0]); contains(durs, k) {
							r.period = k
						}
					}
				}
			}
		}
	}
	other := func(a string, l []string) string {
		for _, x := range l {
			if x != a {
				return x
			}
		}
		return ""
	}
	if len(chans) == 2 {
		if r.dl == "" && r.sem != "" {
			r.dl = other(r.sem, chans)
		}
		if r.sem == "" && r.dl != "" {
			r.sem = other(r.dl, chans)
		}
	}
	if len(durs) == 2 {
		if r.interval == "" && r.period != "" {
			r.interval = other(r.period, durs)
		}
		if r.period == "" && r.interval != "" {
			r.period = other(r.interval, durs)
		}
	}
	good := true
	for what, k := range map[string]string{"known checksums": r.info, "results of downloads": r.results, "ongoing downloads": r.dl, "connection slots": r.sem,
		"URL map": r.um, "HTTP client": r.client, "connection limit": r.maxConns, "refresh interval": r.interval, "period of results": r.period} {
		if k == "" {
			rep.missing("the " + what + " of cacher.Cacher")
			good = false
		}
	}
	if len(r.storages) != 2 {
		rep.missing("the two stores of cacher.Cacher")
		good = false
	}
	r.insert = need(p, rep, "cacher", "Storage.Insert")
	r.lookup = need(p, rep, "cacher", "Storage.Lookup")
	r.listAll = need(p, rep, "cacher", "Storage.ListAll")
	r.get = need(p, rep, "cacher", "Cacher.Get")
	r.download = need(p, rep, "cacher", "Cacher.Download")
	r.newC = need(p, rep, "cacher", "NewCacher")
	if !good || r.insert == nil || r.lookup == nil || r.listAll == nil || r.get == nil || r.download == nil || r.newC == nil {
		return nil
	}
	return r
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y && x != "" {
			return true
		}
	}
	return false
}

// fieldLoaded is the field that a value was loaded from.
func fieldLoaded(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldKey(fa.X.Type(), fa.Field)
		}
	}
	return ""
}
