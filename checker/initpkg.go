package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// allFuncs lists every function and method of a package, with closures.
func allFuncs(prog *ssa.Program, sp *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg != sp {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, n := range memberNames(sp) {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if types.IsInterface(m.Type()) {
				continue
			}
			for _, tt := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if fo, ok := ms.At(i).Obj().(*types.Func); ok {
						add(prog.FuncValue(fo))
					}
				}
			}
		}
	}
	return r
}

func memberNames(sp *ssa.Package) []string {
	m := map[string]bool{}
	for n := range sp.Members {
		m[n] = true
	}
	return sortedKeys(m)
}

// rootOf follows address arithmetic to its base.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// globalsChangedAfterInit returns the package variables which may be changed
// (assigned, or their address handed out) outside of the package initialiser.
func globalsChangedAfterInit(prog *ssa.Program, sp *ssa.Package) map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	init := sp.Func("init")
	for _, f := range allFuncs(prog, sp) {
		if f == init || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := rootOf(x.Addr).(*ssa.Global); ok {
						r[g] = true
					}
					if g, ok := rootOf(x.Val).(*ssa.Global); ok {
						r[g] = true
					}
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Slice:
				default:
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if g, ok := rootOf(*op).(*ssa.Global); ok {
							r[g] = true
						}
					}
				}
			}
		}
	}
	return r
}

// initPackage interprets the package initialiser. Variables which may change
// later on are unknown afterwards.
func initPackage(p *Prog, ex *Engine, st *State, sp *ssa.Package) (*State, error) {
	for _, n := range memberNames(sp) {
		if g, ok := sp.Members[n].(*ssa.Global); ok {
			ex.global(g).Sym = false
		}
	}
	for path, o := range p.SPkg {
		if o != nil && o != sp {
			ex.Opaque[o.Func("init").String()] = true
			_ = path
		}
	}
	outs, err := ex.Run(sp.Func("init"), nil, st)
	if err != nil {
		return nil, err
	}
	var res *State
	for _, o := range outs {
		if o.Returns() {
			res = o.St
		}
	}
	if res == nil {
		return nil, errUndecided
	}
	for g := range globalsChangedAfterInit(p.SSA, sp) {
		o := ex.global(g)
		t := g.Type().(*types.Pointer).Elem()
		if strings.Contains(t.String(), "sync.") {
			continue
		}
		o.Sym = true
		res.Smash(o)
	}
	res.trace = nil
	return res, nil
}

// initProgram interprets the initialisers of some packages, in this order,
// as at the start of the program.
func initProgram(p *Prog, ex *Engine, pkgs []string) (*State, error) {
	st := ex.NewState()
	in := map[*ssa.Package]bool{}
	for _, n := range pkgs {
		sp := p.SPkg[n]
		if sp == nil {
			return nil, errUndecided
		}
		in[sp] = true
		for _, n := range memberNames(sp) {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				ex.global(g).Sym = false
			}
		}
	}
	for _, o := range p.SPkg {
		if o != nil {
			ex.Opaque[o.Func("init").String()] = true
			if !in[o] {
				for _, n := range memberNames(o) {
					if g, ok := o.Members[n].(*ssa.Global); ok {
						ex.global(g)
					}
				}
			}
		}
	}
	for _, n := range pkgs {
		outs, err := ex.Run(p.SPkg[n].Func("init"), nil, st)
		if err != nil {
			return nil, err
		}
		st = nil
		for _, o := range outs {
			if o.Returns() {
				st = o.St
			}
		}
		if st == nil {
			return nil, errUndecided
		}
	}
	st.trace = nil
	return st, nil
}
