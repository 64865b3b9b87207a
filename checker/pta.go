package main

// A field-sensitive, flow- and context-insensitive points-to analysis
// (Andersen's) over the SSA form of the module's packages. Objects are
// allocation sites, package variables and functions; code outside of the
// module is opaque: its results are objects of their own, functions given to
// it are called.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pobj struct {
	id     int
	kind   string // alloc, global, func, box, extern, param
	typ    types.Type
	pos    token.Pos
	name   string
	fn     *ssa.Function
	fnBind []ssa.Value
	glob   *ssa.Global
	where  *ssa.Function
	ctx    int
}

// ploc is a location: an object and a path inside of it.
type ploc struct {
	o    *pobj
	path string
}

func (l ploc) String() string { return l.o.name + l.path }

type locset map[ploc]bool

type pnode struct {
	key   interface{}
	pts   locset
	delta []ploc
	succ  map[*pnode]bool
	cons  []func(ploc) // complex constraints, run for every new target
}

type nodeKey struct {
	v    interface{} // ssa.Value, or ploc (contents), or *ssa.Function (results)
	path string
}

type PTA struct {
	p       *Prog
	nodes   map[nodeKey]*pnode
	objs    []*pobj
	work    []*pnode
	allocs  map[interface{}]*pobj
	funcs   map[*ssa.Function]*pobj
	globals map[*ssa.Global]*pobj
	done    map[cfn]bool
	todo    []cfn
	edges   map[ccall]map[*ssa.Function]bool
	live    map[cblk]bool // blocks taken into account
	gos     map[ssa.Instruction]int
	entries []entryParam
}

func isModFn(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil && f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	if pk == nil && f.Parent() != nil {
		return isModFn(f.Parent())
	}
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func NewPTA(p *Prog) *PTA {
	return &PTA{p: p, nodes: map[nodeKey]*pnode{}, allocs: map[interface{}]*pobj{}, funcs: map[*ssa.Function]*pobj{},
		globals: map[*ssa.Global]*pobj{}, done: map[cfn]bool{}, edges: map[ccall]map[*ssa.Function]bool{},
		live: map[cblk]bool{}, gos: map[ssa.Instruction]int{}}
}

type entryParam struct {
	n *pnode
	t types.Type
}

// pctx is the analysis in the context of a thread: functions are analysed
// once per context, and allocation sites are told apart by it.
type pctx struct {
	*PTA
	c int
}

type cval struct {
	v interface{}
	c int
}

type cfn struct {
	f *ssa.Function
	c int
}

type cblk struct {
	b *ssa.BasicBlock
	c int
}

type ccall struct {
	ci ssa.CallInstruction
	c  int
}

func (a *PTA) obj(kind string, t types.Type, pos token.Pos, name string) *pobj {
	o := &pobj{id: len(a.objs), kind: kind, typ: t, pos: pos, name: name}
	a.objs = append(a.objs, o)
	return o
}

func (a pctx) key(v interface{}) interface{} {
	switch v.(type) {
	case *ssa.Global, *ssa.Const, *ssa.FreeVar, *pobj:
		return v
	case *ssa.Function:
		// as a value: the function; its results have a path
		return cval{v, a.c}
	}
	return cval{v, a.c}
}

func (a pctx) node(v interface{}, path string) *pnode {
	k := nodeKey{a.key(v), path}
	n := a.nodes[k]
	if n == nil {
		n = &pnode{key: k, pts: locset{}, succ: map[*pnode]bool{}}
		a.nodes[k] = n
		if sv, ok := v.(ssa.Value); ok && path == "" {
			switch x := sv.(type) {
			case *ssa.Global:
				a.add(n, ploc{a.global(x), ""})
			case *ssa.Function:
				a.add(n, ploc{a.fun(x), ""})
			}
		}
	}
	return n
}

func (a *PTA) global(g *ssa.Global) *pobj {
	o := a.globals[g]
	if o == nil {
		nm := g.Name()
		if g.Pkg != nil {
			nm = g.Pkg.Pkg.Name() + "." + nm
		}
		o = a.obj("global", g.Type().(*types.Pointer).Elem(), g.Pos(), nm)
		o.glob = g
		a.globals[g] = o
	}
	return o
}

func (a *PTA) fun(f *ssa.Function) *pobj {
	o := a.funcs[f]
	if o == nil {
		o = a.obj("func", f.Signature, f.Pos(), f.String())
		o.fn = f
		a.funcs[f] = o
	}
	return o
}

func (a *PTA) add(n *pnode, l ploc) {
	if n.pts[l] {
		return
	}
	n.pts[l] = true
	if len(n.delta) == 0 {
		a.work = append(a.work, n)
	}
	n.delta = append(n.delta, l)
}

func (a *PTA) copyN(dst, src *pnode) {
	if dst == src || src.succ[dst] {
		return
	}
	src.succ[dst] = true
	for l := range src.pts {
		a.add(dst, l)
	}
}

func (a *PTA) on(n *pnode, f func(ploc)) {
	n.cons = append(n.cons, f)
	var ls []ploc
	for l := range n.pts {
		ls = append(ls, l)
	}
	for _, l := range ls {
		f(l)
	}
}

// leaves gives the paths of the pointer-like parts of a type.
func leaves(t types.Type) []string {
	var r []string
	var walk func(t types.Type, p string, depth int)
	walk = func(t types.Type, p string, depth int) {
		if depth > 8 {
			return
		}
		switch x := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				walk(x.Field(i).Type(), p+"."+x.Field(i).Name(), depth+1)
			}
		case *types.Array:
			walk(x.Elem(), p+"[]", depth+1)
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			r = append(r, p)
		case *types.Basic:
			if x.Kind() == types.UnsafePointer {
				r = append(r, p)
			}
		case *types.Tuple:
			for i := 0; i < x.Len(); i++ {
				walk(x.At(i).Type(), fmt.Sprintf("%s#%d", p, i), depth+1)
			}
		}
	}
	walk(t, "", 0)
	return r
}

func fieldName(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		return "." + st.Field(i).Name()
	}
	return fmt.Sprintf(".%d", i)
}

func (a pctx) copyVal(dst interface{}, dp string, src interface{}, sp string, t types.Type) {
	for _, l := range leaves(t) {
		a.copyN(a.node(dst, dp+l), a.node(src, sp+l))
	}
}

func (a pctx) load(dst interface{}, dp string, addr ssa.Value, ap string, t types.Type) {
	ls := leaves(t)
	if len(ls) == 0 {
		return
	}
	a.on(a.node(addr, ap), func(l ploc) {
		if l.o.kind == "func" {
			return
		}
		for _, p := range ls {
			a.copyN(a.node(dst, dp+p), a.node(l.o, l.path+p))
		}
	})
}

func (a pctx) elemLoad(dst interface{}, dp string, base ssa.Value, elem string, t types.Type) {
	ls := leaves(t)
	if len(ls) == 0 {
		return
	}
	a.on(a.node(base, ""), func(l ploc) {
		if l.o.kind == "func" {
			return
		}
		for _, p := range ls {
			a.copyN(a.node(dst, dp+p), a.node(l.o, l.path+elem+p))
		}
	})
}

func (a pctx) elemStore(base ssa.Value, elem string, val ssa.Value, t types.Type) {
	ls := leaves(t)
	if len(ls) == 0 {
		return
	}
	a.on(a.node(base, ""), func(l ploc) {
		if l.o.kind == "func" {
			return
		}
		for _, p := range ls {
			a.copyN(a.node(l.o, l.path+elem+p), a.node(val, p))
		}
	})
}

// Reach makes a function (and what it calls) part of the program.
func (a pctx) Reach(f *ssa.Function) {
	if f == nil || a.done[cfn{f, a.c}] || !isModFn(f) {
		return
	}
	a.done[cfn{f, a.c}] = true
	a.todo = append(a.todo, cfn{f, a.c})
}

// Entry is a function called by clients: its pointer parameters point to
// objects of the client.
func (a pctx) Entry(f *ssa.Function) {
	a.Reach(f)
	for _, pr := range f.Params {
		for _, l := range leaves(pr.Type()) {
			if l != "" {
				continue
			}
			var et types.Type
			switch x := pr.Type().Underlying().(type) {
			case *types.Pointer:
				et = x.Elem()
			case *types.Slice:
				et = types.NewArray(x.Elem(), 1)
			default:
				continue
			}
			// one client object per type
			key := "param:" + types.TypeString(et, nil)
			o := a.allocs[key]
			if o == nil {
				o = a.obj("param", et, pr.Pos(), "client's "+types.TypeString(et, func(p *types.Package) string { return p.Name() }))
				a.allocs[key] = o
			}
			a.add(a.node(pr, ""), ploc{o, ""})
			a.entries = append(a.entries, entryParam{a.node(pr, ""), et})
		}
	}
}

// SolveClosed solves with the parameters of entries pointing to any object of
// their type, too.
func (a *PTA) SolveClosed() {
	a.Solve()
	for n := -1; n != len(a.objs); {
		n = len(a.objs)
		var gl []*pobj
		for _, o := range a.objs {
			if o.kind == "global" {
				gl = append(gl, o)
			}
		}
		hidden := a.Escaped(gl) // what package variables refer to is not the client's
		for _, e := range a.entries {
			for _, o := range a.objs {
				if o.kind == "alloc" && !hidden[o] && types.Identical(o.typ, e.t) {
					a.add(e.n, ploc{o, ""})
				}
			}
		}
		a.Solve()
	}
}

func (a *PTA) Solve() {
	for len(a.todo) > 0 || len(a.work) > 0 {
		for len(a.todo) > 0 {
			f := a.todo[len(a.todo)-1]
			a.todo = a.todo[:len(a.todo)-1]
			pctx{a, f.c}.genFunc(f.f)
		}
		for len(a.work) > 0 && len(a.todo) == 0 {
			n := a.work[len(a.work)-1]
			a.work = a.work[:len(a.work)-1]
			d := n.delta
			n.delta = nil
			for s := range n.succ {
				for _, l := range d {
					a.add(s, l)
				}
			}
			for i := 0; i < len(n.cons); i++ {
				for _, l := range d {
					n.cons[i](l)
				}
			}
		}
	}
}

func (a pctx) site(in ssa.Instruction, tag string, kind string, t types.Type) *pobj {
	k := struct {
		in  ssa.Instruction
		tag string
		c   int
	}{in, tag, a.c}
	o := a.allocs[k]
	if o == nil {
		nm := types.TypeString(t, func(p *types.Package) string { return p.Name() })
		o = a.obj(kind, t, in.Pos(), fmt.Sprintf("%s(%s in %s)", kind, nm, in.Parent().Name()))
		o.where = in.Parent()
		o.ctx = a.c
		a.allocs[k] = o
	}
	return o
}

// guards are slices known not to be empty in a block.
func guards(b *ssa.BasicBlock) []ssa.Value {
	var r []ssa.Value
	for x := b; x != nil; x = x.Idom() {
		if len(x.Preds) != 1 {
			continue
		}
		p := x.Preds[0]
		if len(p.Instrs) == 0 || len(p.Succs) != 2 || p.Succs[0] != x || p.Succs[1] == x {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var l ssa.Value
		switch bo.Op {
		case token.LSS:
			l = bo.Y
		case token.GTR:
			l = bo.X
		}
		c, ok := l.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if _, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); ok {
				r = append(r, c.Call.Args[0])
			}
		}
	}
	return r
}

func (a pctx) genFunc(f *ssa.Function) {
	for _, b := range f.Blocks {
		b := b
		gen := func() {
			a.live[cblk{b, a.c}] = true
			for _, in := range b.Instrs {
				a.genInstr(f, in)
			}
		}
		gs := guards(b)
		if a.c == 0 || len(gs) == 0 {
			gen()
			continue
		}
		left := len(gs)
		for _, g := range gs {
			seen := false
			a.on(a.node(g, ""), func(ploc) {
				if !seen {
					seen = true
					if left--; left == 0 {
						gen()
					}
				}
			})
		}
	}
}

func constNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (a pctx) genInstr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.add(a.node(x, ""), ploc{a.site(x, "", "alloc", x.Type().(*types.Pointer).Elem()), ""})
	case *ssa.MakeSlice:
		a.add(a.node(x, ""), ploc{a.site(x, "", "alloc", types.NewArray(x.Type().Underlying().(*types.Slice).Elem(), 1)), ""})
	case *ssa.MakeMap:
		a.add(a.node(x, ""), ploc{a.site(x, "", "alloc", x.Type()), ""})
	case *ssa.MakeChan:
		a.add(a.node(x, ""), ploc{a.site(x, "", "alloc", x.Type()), ""})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		a.add(a.node(x, ""), ploc{a.fun(fn), ""})
		for i, b := range x.Bindings {
			a.copyVal(fn.FreeVars[i], "", b, "", b.Type())
		}
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			a.copyN(a.node(x, ""), a.node(x.X, ""))
		} else {
			o := a.site(x, "", "box", x.X.Type())
			a.add(a.node(x, ""), ploc{o, ""})
			a.copyVal(o, "", x.X, "", x.X.Type())
		}
	case *ssa.ChangeInterface:
		a.copyVal(x, "", x.X, "", x.Type())
	case *ssa.ChangeType:
		a.copyVal(x, "", x.X, "", x.Type())
	case *ssa.Convert:
		if len(leaves(x.Type())) > 0 {
			if len(leaves(x.X.Type())) > 0 {
				a.copyN(a.node(x, ""), a.node(x.X, ""))
			} else if st, ok := x.Type().Underlying().(*types.Slice); ok { // []byte(string)
				a.add(a.node(x, ""), ploc{a.site(x, "", "alloc", types.NewArray(st.Elem(), 1)), ""})
			}
		}
	case *ssa.SliceToArrayPointer:
		a.copyN(a.node(x, ""), a.node(x.X, ""))
	case *ssa.TypeAssert:
		t := x.AssertedType
		dp := ""
		if x.CommaOk {
			dp = "#0"
		}
		if types.IsInterface(t) {
			a.copyN(a.node(x, dp), a.node(x.X, ""))
		} else if pt, ok := t.Underlying().(*types.Pointer); ok {
			a.on(a.node(x.X, ""), func(l ploc) {
				if l.o.kind != "box" && (l.o.kind == "extern" || l.path != "" || types.Identical(l.o.typ, pt.Elem())) {
					a.add(a.node(x, dp), l)
				}
			})
		} else {
			a.on(a.node(x.X, ""), func(l ploc) {
				if l.o.kind == "box" && types.Identical(l.o.typ, t) {
					a.copyVal(x, dp, l.o, l.path, t)
				}
			})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(x, "", e, "", x.Type())
		}
	case *ssa.FieldAddr:
		fn := fieldName(x.X.Type(), x.Field)
		a.on(a.node(x.X, ""), func(l ploc) {
			if l.o.kind != "func" {
				a.add(a.node(x, ""), ploc{l.o, l.path + fn})
			}
		})
	case *ssa.Field:
		a.copyVal(x, "", x.X, fieldName(x.X.Type(), x.Field), x.Type())
	case *ssa.IndexAddr:
		a.on(a.node(x.X, ""), func(l ploc) {
			if l.o.kind != "func" && len(l.path) < 60 {
				a.add(a.node(x, ""), ploc{l.o, l.path + "[]"})
			}
		})
	case *ssa.Index:
		a.copyVal(x, "", x.X, "[]", x.Type())
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
			a.copyN(a.node(x, ""), a.node(x.X, ""))
		}
	case *ssa.Extract:
		a.copyVal(x, "", x.Tuple, fmt.Sprintf("#%d", x.Index), x.Type())
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.load(x, "", x.X, "", x.Type())
		} else if x.Op == token.ARROW {
			if x.CommaOk {
				a.elemLoad(x, "#0", x.X, "[]", x.Type().(*types.Tuple).At(0).Type())
			} else {
				a.elemLoad(x, "", x.X, "[]", x.Type())
			}
		}
	case *ssa.Store:
		a.elemStore(x.Addr, "", x.Val, x.Val.Type())
	case *ssa.Send:
		a.elemStore(x.Chan, "[]", x.X, x.X.Type())
	case *ssa.Select:
		for i, s := range x.States {
			if s.Dir == types.SendOnly {
				a.elemStore(s.Chan, "[]", s.Send, s.Send.Type())
			} else {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				n := 0
				for j := 0; j < i; j++ {
					if x.States[j].Dir == types.RecvOnly {
						n++
					}
				}
				a.elemLoad(x, fmt.Sprintf("#%d", 2+n), s.Chan, "[]", et)
			}
		}
	case *ssa.MapUpdate:
		a.elemStore(x.Map, "[k]", x.Key, x.Key.Type())
		a.elemStore(x.Map, "[v]", x.Value, x.Value.Type())
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			if x.CommaOk {
				a.elemLoad(x, "#0", x.X, "[v]", mt.Elem())
			} else {
				a.elemLoad(x, "", x.X, "[v]", mt.Elem())
			}
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.copyN(a.node(x, ""), a.node(x.X, ""))
		}
	case *ssa.Next:
		if !x.IsString {
			if rg, ok := x.Iter.(*ssa.Range); ok {
				if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
					a.elemLoad(x, "#1", rg, "[k]", mt.Key())
					a.elemLoad(x, "#2", rg, "[v]", mt.Elem())
				}
			}
		}
	case *ssa.Return:
		for i, rv := range x.Results {
			p := ""
			if len(x.Results) > 1 {
				p = fmt.Sprintf("#%d", i)
			}
			a.copyVal(f, "ret"+p, rv, "", rv.Type())
		}
	case ssa.CallInstruction:
		a.genCall(f, x)
	}
}

func (a pctx) genCall(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v := ci.Value()
		switch b.Name() {
		case "append":
			if v == nil {
				return
			}
			st, ok := v.Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			a.copyN(a.node(v, ""), a.node(c.Args[0], ""))
			o := a.site(ci, "append", "alloc", types.NewArray(st.Elem(), 1))
			a.add(a.node(v, ""), ploc{o, ""})
			if len(leaves(st.Elem())) > 0 {
				// what was in there is copied, too
				a.on(a.node(c.Args[0], ""), func(l ploc) {
					a.copyVal(o, "[]", l.o, l.path+"[]", st.Elem())
				})
				if len(c.Args) > 1 && !constNil(c.Args[1]) {
					if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
						a.on(a.node(c.Args[1], ""), func(s ploc) {
							a.copyVal(o, "[]", s.o, s.path+"[]", st.Elem())
							a.on(a.node(c.Args[0], ""), func(d ploc) {
								a.copyVal(d.o, d.path+"[]", s.o, s.path+"[]", st.Elem())
							})
						})
					}
				}
			}
		case "copy":
			if st, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && len(leaves(st.Elem())) > 0 {
				a.on(a.node(c.Args[1], ""), func(s ploc) {
					a.on(a.node(c.Args[0], ""), func(d ploc) {
						a.copyVal(d.o, d.path+"[]", s.o, s.path+"[]", st.Elem())
					})
				})
			}
		}
		return
	}
	if c.IsInvoke() {
		a.on(a.node(c.Value, ""), func(l ploc) {
			if l.o.kind == "func" {
				return
			}
			t := l.o.typ
			if l.o.kind == "box" {
				// value receiver
			} else if l.path == "" && t != nil {
				t = types.NewPointer(t)
			} else {
				return
			}
			if fn := a.p.lookupMethod(t, c.Method); fn != nil {
				a.callEdge(ci, fn, true)
			}
		})
		a.externResult(ci) // an implementation outside of the module
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		a.callEdge(ci, fn, false)
		return
	}
	a.on(a.node(c.Value, ""), func(l ploc) {
		if l.o.kind == "func" {
			a.callEdge(ci, l.o.fn, false)
		}
	})
}

func (p *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

func (a pctx) externResult(ci ssa.CallInstruction) {
	v := ci.Value()
	if v == nil {
		return
	}
	for _, l := range leaves(v.Type()) {
		lt := leafType(v.Type(), l)
		var et types.Type
		switch x := lt.Underlying().(type) {
		case *types.Pointer:
			et = x.Elem()
		case *types.Slice:
			et = types.NewArray(x.Elem(), 1)
		case *types.Map, *types.Chan:
			et = lt
		default:
			continue
		}
		a.add(a.node(v, l), ploc{a.site(ci, "extern"+l, "extern", et), ""})
	}
}

func leafType(t types.Type, path string) types.Type {
	for path != "" {
		switch {
		case strings.HasPrefix(path, "[]"):
			t, path = t.Underlying().(*types.Array).Elem(), path[2:]
		case path[0] == '#':
			i, n := 0, 1
			for n < len(path) && path[n] >= '0' && path[n] <= '9' {
				i, n = i*10+int(path[n]-'0'), n+1
			}
			t, path = t.(*types.Tuple).At(i).Type(), path[n:]
		case path[0] == '.':
			e := strings.IndexAny(path[1:], ".[#")
			nm := path[1:]
			if e >= 0 {
				nm = path[1 : 1+e]
			}
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == nm {
					t = st.Field(i).Type()
					break
				}
			}
			path = path[1+len(nm):]
		}
	}
	return t
}

func (a pctx) callEdge(ci ssa.CallInstruction, fn *ssa.Function, invoke bool) {
	m := a.edges[ccall{ci, a.c}]
	if m == nil {
		m = map[*ssa.Function]bool{}
		a.edges[ccall{ci, a.c}] = m
	}
	if m[fn] {
		return
	}
	m[fn] = true
	c := ci.Common()
	if !isModFn(fn) || len(fn.Blocks) == 0 {
		a.externResult(ci)
		for _, arg := range c.Args { // functions given to external code are called
			if _, ok := arg.Type().Underlying().(*types.Signature); ok {
				a.on(a.node(arg, ""), func(l ploc) {
					if l.o.kind == "func" {
						m[l.o.fn] = true
						a.Reach(l.o.fn)
					}
				})
			}
		}
		return
	}
	to := a // context of the callee
	if g, ok := ci.(*ssa.Go); ok {
		if a.gos[g] == 0 {
			a.gos[g] = len(a.gos) + 1
		}
		to.c = a.gos[g]
	}
	to.Reach(fn)
	args := c.Args
	if invoke {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	for i, pr := range fn.Params {
		if i >= len(args) {
			break
		}
		if invoke && i == 0 {
			if _, ok := pr.Type().Underlying().(*types.Pointer); ok {
				a.on(a.node(args[0], ""), func(l ploc) {
					if l.o.kind != "box" && l.o.kind != "func" && types.Identical(l.o.typ, pr.Type().Underlying().(*types.Pointer).Elem()) {
						a.add(to.node(pr, ""), l)
					}
				})
			} else {
				a.on(a.node(args[0], ""), func(l ploc) {
					if l.o.kind == "box" && types.Identical(l.o.typ, pr.Type()) {
						to.copyVal(pr, "", l.o, "", pr.Type())
					}
				})
			}
			continue
		}
		for _, l := range leaves(pr.Type()) {
			a.copyN(to.node(pr, l), a.node(args[i], l))
		}
	}
	if v := ci.Value(); v != nil {
		a.copyVal(v, "", fn, "ret", v.Type())
	}
}

// Callees of a call instruction inside of the module.
func (a pctx) Callees(ci ssa.CallInstruction) []*ssa.Function {
	var r []*ssa.Function
	for f := range a.edges[ccall{ci, a.c}] {
		if isModFn(f) && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// Pts are the locations a value may point to.
func (a pctx) Pts(v ssa.Value) []ploc {
	n := a.nodes[nodeKey{a.key(v), ""}]
	var r []ploc
	switch x := v.(type) {
	case *ssa.Global:
		return []ploc{{a.global(x), ""}}
	}
	if n == nil {
		return nil
	}
	for l := range n.pts {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].o.id != r[j].o.id {
			return r[i].o.id < r[j].o.id
		}
		return r[i].path < r[j].path
	})
	return r
}

// Escaped marks all objects reachable from the given ones.
// Channels are not followed: what is sent belongs to the receiver.
func (a *PTA) Escaped(roots []*pobj) map[*pobj]bool {
	cont := map[*pobj][]*pobj{}
	for k, n := range a.nodes {
		if o, ok := k.v.(*pobj); ok {
			if _, ok := o.typ.Underlying().(*types.Chan); ok {
				continue
			}
			for l := range n.pts {
				cont[o] = append(cont[o], l.o)
			}
		}
		if fv, ok := k.v.(*ssa.FreeVar); ok {
			fo := a.fun(fv.Parent())
			for l := range n.pts {
				cont[fo] = append(cont[fo], l.o)
			}
		}
	}
	seen := map[*pobj]bool{}
	var walk func(o *pobj)
	walk = func(o *pobj) {
		if seen[o] {
			return
		}
		seen[o] = true
		for _, x := range cont[o] {
			walk(x)
		}
	}
	for _, o := range roots {
		walk(o)
	}
	return seen
}
