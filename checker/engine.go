package main

// Abstract interpreter over go/ssa with trace partitioning: unknown branch
// conditions are explored on both sides, loops whose exit is not decided by
// constants are summarised by forgetting everything the loop may write.

import (
	"errors"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	St     *State
	Ret    []Value
	Panic  bool // ended in a panic
	PanicV Value
	PanicI ssa.Instruction
	Loop   bool // one iteration of a summarised loop, cut at its back edge
	LoopH  string
}

func (o *Outcome) Returns() bool { return !o.Panic && !o.Loop }

type Hook func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome

type Engine struct {
	names          map[*ssa.Function]string
	prog           *ssa.Program
	repo           string // module path prefix whose functions are inlined
	Hooks          map[string]Hook
	Opaque         map[string]bool
	noWrapUnsigned bool

	nonneg     map[string]bool
	bnd        map[string][2]int64 // bounds of symbols
	symTerm    map[string]*Term
	nobj       int
	nepoch     int
	globals    map[ssa.Value]*Obj
	symObjs    map[string]*Obj
	loops      map[*ssa.Function]*loopInfo
	steps      int
	maxStep    int
	outs       int
	outs0      int
	steps0     int
	maxOuts    int
	maxDep     int
	Inlined    map[string]bool // functions analysed
	lookups    int
	ncap       int
	unrollFork int // unroll this many iterations even if the exit is not decided by a constant

	// interaction points of a reactive machine (machine.go)
	OnRecv    func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.UnOp) []Outcome
	OnSend    func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.Send, v Value) []Outcome
	OnGo      func(fr *frame, st *State, x *ssa.Go, f Value, args []Value) // a goroutine is started
	OnClose   func(st *State, site ssa.CallInstruction, ch Value)
	OnUnknown func(fr *frame, st *State, c Value, in ssa.Instruction) bool // cut the path?
	OnIter    func(fr *frame, st *State, blk *ssa.BasicBlock, iter int) []Outcome
	OnCall    func(fr *frame, st *State, fn *ssa.Function)
	CallPoint func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.Call) []Outcome
	maxRec    int
	Text      bool // evaluate strings and byte slices with known content (text.go)
}

type tooComplex struct{ msg string }

var errUndecided = errors.New("undecided")

func NewEngine(prog *ssa.Program) *Engine {
	return &Engine{prog: prog, repo: modPath, Hooks: map[string]Hook{}, Opaque: map[string]bool{},
		nonneg: map[string]bool{}, symTerm: map[string]*Term{}, globals: map[ssa.Value]*Obj{}, symObjs: map[string]*Obj{},
		loops: map[*ssa.Function]*loopInfo{}, maxStep: 3000000, maxOuts: 20000, maxDep: 40, maxRec: 2, Inlined: map[string]bool{}}
}

type frame struct {
	site   ssa.CallInstruction // the call of this frame in its parent
	curBlk *ssa.BasicBlock
	curI   int
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	depth  int
	stack  string
	acts   []*activation
	parent *frame
	defers []deferred
	recur  map[*ssa.Function]int
}
type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

func (f *frame) clone() *frame {
	n := *f
	n.regs = make(map[ssa.Value]Value, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.acts = append([]*activation(nil), f.acts...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

type activation struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	havoc  bool
	iter   int
	constX bool // an exit of the loop was decided by a constant in this iteration
	startN int  // trace length at entry
	startT *traceNode
}
type restartHavoc struct {
	header *ssa.BasicBlock
	fr     int
}

func (ex *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := ex.loops[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := li.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.headers[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	ex.loops[fn] = li
	return li
}

// Run interprets fn on args from st.
func (ex *Engine) Run(fn *ssa.Function, args []Value, st *State) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if tc, ok := r.(tooComplex); ok {
				err = fmt.Errorf("undecided: %s", tc.msg)
				return
			}
			panic(r)
		}
	}()
	ex.outs0, ex.steps0 = ex.outs, ex.steps
	return ex.call(nil, nil, fn, nil, args, st), nil
}

func (ex *Engine) fnName(fn *ssa.Function) string {
	n, ok := ex.names[fn]
	if !ok {
		n = fn.String()
		if ex.names == nil {
			ex.names = map[*ssa.Function]string{}
		}
		ex.names[fn] = n
	}
	return n
}

func (ex *Engine) call(parent *frame, site ssa.CallInstruction, fn *ssa.Function, bind []Value, args []Value, st *State) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(tooComplex{"no body: " + fn.String()})
	}
	fr := &frame{fn: fn, site: site, regs: map[ssa.Value]Value{}, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.stack = parent.stack + ">" + fn.Name()
	} else {
		fr.stack = fn.Name()
	}
	if fr.depth > ex.maxDep {
		panic(tooComplex{"call depth at " + fn.String()})
	}
	ex.Inlined[ex.fnName(fn)] = true
	if ex.OnCall != nil {
		ex.OnCall(fr, st, fn)
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		} else {
			fr.regs[p] = ex.SymOf(p.Name(), p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.regs[f] = bind[i]
		} else {
			fr.regs[f] = ex.SymOf("free:"+f.Name(), f.Type())
		}
	}
	return ex.block(fr, st, fn.Blocks[0], nil)
}

// edge enters blk coming from prev.
func (ex *Engine) block(fr *frame, st *State, blk, prev *ssa.BasicBlock) []Outcome {
	li := ex.loopsOf(fr.fn)
	// leaving loops
	for len(fr.acts) > 0 {
		a := fr.acts[len(fr.acts)-1]
		if a.body[blk] {
			break
		}
		fr.acts = append([]*activation(nil), fr.acts[:len(fr.acts)-1]...)
		if a.havoc {
			st.Emit(Event{Kind: "loopexit", Name: loopName(fr.fn, a.header), Stack: fr.stack})
		}
	}
	if body, ok := li.headers[blk]; ok {
		if prev != nil && body[prev] && len(fr.acts) > 0 && fr.acts[len(fr.acts)-1].header == blk {
			a := fr.acts[len(fr.acts)-1]
			if a.havoc {
				st.Emit(Event{Kind: "loopend", Name: loopName(fr.fn, blk), Stack: fr.stack})
				// evaluate phis so that the caller can see induction values
				ex.outs++
				return []Outcome{{St: st, Loop: true, LoopH: loopName(fr.fn, blk), Ret: ex.phiVals(fr, blk, prev)}}
			}
			lim := 200000
			if a.iter >= lim || !a.constX && a.iter >= ex.unrollFork {
				panic(restartHavoc{blk, fr.depth})
			}
			if ex.OnIter != nil {
				if outs := ex.OnIter(fr, st, blk, a.iter); outs != nil {
					return outs
				}
			}
			na := *a
			na.iter++
			na.constX = false
			fr.acts[len(fr.acts)-1] = &na
			ex.phis(fr, st, blk, prev)
			return ex.instrs(fr, st, blk, phiCount(blk))
		}
		return ex.enterLoop(fr, st, blk, prev, body)
	}
	ex.phis(fr, st, blk, prev)
	return ex.instrs(fr, st, blk, phiCount(blk))
}

func loopName(fn *ssa.Function, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s:b%d", fn.Name(), h.Index)
}

func (ex *Engine) phiVals(fr *frame, blk, prev *ssa.BasicBlock) []Value {
	var r []Value
	pi := -1
	for i, p := range blk.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range blk.Instrs {
		if phi, ok := in.(*ssa.Phi); ok && pi >= 0 {
			r = append(r, ex.val(fr, phi.Edges[pi]))
		}
	}
	return r
}

func phiCount(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (ex *Engine) phis(fr *frame, st *State, blk, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range blk.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, ex.val(fr, phi.Edges[pi]))
	}
	for i, p := range phis {
		fr.regs[p] = vals[i]
	}
}

func (ex *Engine) enterLoop(fr *frame, st *State, blk, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (outs []Outcome) {
	// 1. unrolling
	var res []Outcome
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if rh, is := r.(restartHavoc); is && rh.header == blk && rh.fr == fr.depth {
					ok = false
					return
				}
				panic(r)
			}
		}()
		f2, s2 := fr.clone(), st.Clone()
		o0 := ex.outs
		f2.acts = append(f2.acts, &activation{header: blk, body: body})
		ex.phis(f2, s2, blk, prev)
		res = ex.instrs(f2, s2, blk, phiCount(blk))
		_ = o0
		return true
	}()
	if ok {
		return res
	}
	// 2. summarise
	type hloc struct {
		o *Obj
		p []pe
	}
	havoc := map[string]hloc{}
	for round := 0; ; round++ {
		if round > 12 {
			panic(tooComplex{"loop summary does not converge in " + fr.fn.String()})
		}
		f2, s2 := fr.clone(), st.Clone()
		ex.phis(f2, s2, blk, prev)
		init := map[*ssa.Phi]Value{}
		hid := fmt.Sprintf("%s@%d", loopName(fr.fn, blk), s2.n)
		for i, in := range blk.Instrs {
			phi, isPhi := in.(*ssa.Phi)
			if !isPhi {
				break
			}
			init[phi] = f2.regs[phi]
			// loop-invariant phi?
			inv := true
			for j, p := range blk.Preds {
				if body[p] && phi.Edges[j] != ssa.Value(phi) {
					inv = false
				}
			}
			if inv {
				continue
			}
			name := fmt.Sprintf("φ%d{%s}%s", i, phi.Comment, hid)
			iv, isLin := init[phi].(*Lin)
			v := ex.SymOf(name, phi.Type())
			f2.regs[phi] = v
			if lv, okk := v.(*Lin); okk && isLin {
				up, down := true, true
				for j, p := range blk.Preds {
					if !body[p] {
						continue
					}
					d, known := ex.stepOf(phi, phi.Edges[j], body, 0)
					if !known || d < 0 {
						up = false
					}
					if !known || d > 0 {
						down = false
					}
				}
				if up {
					s2.assume(le0(linAdd(iv, lv, -1)), true)
				}
				if down {
					s2.assume(le0(linAdd(lv, iv, -1)), true)
				}
			}
		}
		var keys []string
		for k := range havoc {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			h := havoc[k]
			if h.p == nil {
				s2.Smash(h.o)
			} else {
				t := typeAt(h.o, h.p)
				s2.Set(h.o, h.p, ex.SymOf("hv:"+hid+":"+h.o.Name+fieldPathName(h.o, h.p), t))
			}
		}
		maxID := ex.nobj
		act := &activation{header: blk, body: body, havoc: true, startT: s2.trace}
		s2.Emit(Event{Kind: "loop", Name: loopName(fr.fn, blk), Stack: fr.stack})
		f2.acts = append(f2.acts, act)
		res = ex.instrs(f2, s2, blk, phiCount(blk))
		// collect writes on iterations
		grew := false
		for _, o := range res {
			if !o.Loop || o.LoopH != loopName(fr.fn, blk) {
				continue
			}
			for t := o.St.trace; t != nil && t != act.startT; t = t.prev {
				ev := t.ev
				if (ev.Kind == "store" || ev.Kind == "mapstore" || ev.Kind == "smash") && ev.P != nil && ev.P.O.ID <= maxID {
					if st.at(ev.P.O.ID) == nil && !ev.P.O.Sym {
						continue
					}
					k := ev.P.O.String() + pathKey(ev.P.Path)
					p := ev.P.Path
					if ev.Kind != "store" || !pathConst(p) || ev.P.O.Arr {
						k = ev.P.O.String()
						p = nil
					}
					if len(p) == 0 && !(typeIsScalar(ev.P.O.T)) {
						p = nil
					}
					if p == nil && typeIsScalar(ev.P.O.T) && !ev.P.O.Arr && !ev.P.O.Map {
						p = []pe{}
					}
					if _, ok := havoc[k]; ok {
						continue
					}
					if _, ok := havoc[ev.P.O.String()]; ok {
						continue
					}
					havoc[k] = hloc{ev.P.O, p}
					grew = true
				}
			}
		}
		if !grew {
			return res
		}
	}
}

func typeIsScalar(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

// stepOf: v = phi + d along the back edge, if syntactically evident.
func (ex *Engine) stepOf(phi *ssa.Phi, v ssa.Value, body map[*ssa.BasicBlock]bool, depth int) (int64, bool) {
	if v == ssa.Value(phi) {
		return 0, true
	}
	if depth > 6 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && (x.Op == token.ADD || x.Op == token.SUB) && isInt(x.Type()) {
			d, ok := ex.stepOf(phi, x.X, body, depth+1)
			k := c.Int64()
			if x.Op == token.SUB {
				k = -k
			}
			return d + k, ok
		}
	case *ssa.Phi:
		var sgn int64
		for i, e := range x.Edges {
			d, ok := ex.stepOf(phi, e, body, depth+1)
			if !ok {
				return 0, false
			}
			if i == 0 {
				sgn = d
			} else if d != sgn {
				if d >= 0 && sgn >= 0 {
					if d < sgn {
						sgn = d
					}
				} else if d <= 0 && sgn <= 0 {
					if d > sgn {
						sgn = d
					}
				} else {
					return 0, false
				}
			}
		}
		return sgn, true
	}
	return 0, false
}

// instrs executes blk from instruction i on.
func (ex *Engine) instrs(fr *frame, st *State, blk *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(blk.Instrs); i++ {
		ex.steps++
		if ex.steps-ex.steps0 > ex.maxStep {
			panic(tooComplex{"step limit in " + fr.fn.String()})
		}
		in := blk.Instrs[i]
		switch x := in.(type) {
		case *ssa.If:
			return ex.branch(fr, st, blk, x)
		case *ssa.Jump:
			return ex.block(fr, st, blk.Succs[0], blk)
		case *ssa.Return:
			var r []Value
			for _, v := range x.Results {
				r = append(r, ex.val(fr, v))
			}
			ex.outs++
			if ex.outs-ex.outs0 > ex.maxOuts {
				panic(tooComplex{"too many paths in " + fr.fn.String()})
			}
			// havoc loops left by return
			return []Outcome{{St: st, Ret: r}}
		case *ssa.Panic:
			st.Emit(Event{Kind: "panic", Args: []Value{ex.val(fr, x.X)}, Instr: x, Stack: fr.stack})
			return []Outcome{{St: st, Panic: true, PanicV: ex.val(fr, x.X), PanicI: x}}
		case *ssa.Call:
			fr.curBlk, fr.curI = blk, i
			if ex.CallPoint != nil {
				if outs := ex.CallPoint(fr, st, blk, i, x); outs != nil {
					return ex.resume(fr, outs, blk, i, x)
				}
			}
			outs := ex.doCall(fr, st, x, x.Common())
			return ex.resume(fr, outs, blk, i, x)
		case *ssa.RunDefers:
			fr.curBlk, fr.curI = blk, i
			ds := fr.defers
			fr.defers = nil
			outs := []Outcome{{St: st}}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []Outcome
				for _, o := range outs {
					if !o.Returns() {
						next = append(next, o)
						continue
					}
					next = append(next, ex.applyValue(fr, o.St, ds[k].call, ds[k].fn, ds[k].args, ds[k].call.Common())...)
				}
				outs = next
			}
			return ex.resume(fr, outs, blk, i, nil)
		default:
			if x, ok := in.(*ssa.UnOp); ok && x.Op == token.ARROW && ex.OnRecv != nil {
				return ex.resume(fr, ex.OnRecv(fr, st, blk, i, x), blk, i, x)
			}
			if x, ok := in.(*ssa.Send); ok && ex.OnSend != nil {
				if outs := ex.OnSend(fr, st, blk, i, x, ex.val(fr, x.X)); outs != nil {
					return ex.resume(fr, outs, blk, i, nil)
				}
			}
			if outs := ex.step(fr, st, in); outs != nil {
				return ex.resume(fr, outs, blk, i, nil)
			}
		}
	}
	panic("block without terminator")
}

func (ex *Engine) resume(fr *frame, outs []Outcome, blk *ssa.BasicBlock, i int, call ssa.Value) []Outcome {
	var res []Outcome
	n := 0
	for _, o := range outs {
		if o.Returns() {
			n++
		}
	}
	for _, o := range outs {
		if !o.Returns() {
			res = append(res, o)
			continue
		}
		f := fr
		if n > 1 {
			f = fr.clone()
		}
		if call != nil {
			f.regs[call] = packRet(o.Ret)
		}
		res = append(res, ex.instrs(f, o.St, blk, i+1)...)
	}
	return res
}

func packRet(r []Value) Value {
	switch len(r) {
	case 0:
		return &TupleV{}
	case 1:
		return r[0]
	}
	return &TupleV{r}
}

func (ex *Engine) branch(fr *frame, st *State, blk *ssa.BasicBlock, x *ssa.If) []Outcome {
	c := ex.val(fr, x.Cond)
	known, v := st.query(c)
	_, isc := asBool(c)
	for k, a := range fr.acts {
		if a.body[blk] && (!a.body[blk.Succs[0]] || !a.body[blk.Succs[1]]) {
			if isc && known {
				na := *a
				na.constX = true
				fr.acts[k] = &na
			}
		}
	}
	if known {
		if v {
			return ex.block(fr, st, blk.Succs[0], blk)
		}
		return ex.block(fr, st, blk.Succs[1], blk)
	}
	if ex.OnUnknown != nil && ex.OnUnknown(fr, st, c, x) {
		return nil
	}
	var res []Outcome
	f2, s2 := fr.clone(), st.Clone()
	if s2.assume(c, true) {
		res = append(res, ex.block(f2, s2, blk.Succs[0], blk)...)
	}
	if st.assume(c, false) {
		res = append(res, ex.block(fr, st, blk.Succs[1], blk)...)
	}
	return res
}

// ---- values -------------------------------------------------------------

func (ex *Engine) global(g *ssa.Global) *Obj {
	if o, ok := ex.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	name := g.String()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		name = "global-error:" + name
	}
	o := ex.NewObj(name, t, true)
	ex.globals[g] = o
	return o
}

func (ex *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.Zero(t)
	}
	switch {
	case isInt(t):
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return linConst(v)
		}
		return linSym("bigconst:" + c.Value.ExactString())
	}
	if isInt(t.Underlying()) {
		return linConst(c.Int64())
	}
	return &Const{c.Value, t}
}

func (ex *Engine) val(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Global:
		return &Ptr{O: ex.global(x)}
	case *ssa.Builtin:
		return &Sym{"builtin:" + x.Name(), nil}
	}
	if r, ok := fr.regs[v]; ok {
		return r
	}
	return ex.SymOf("undef:"+fr.fn.Name()+"."+v.Name(), v.Type())
}

// asPtr gives the object a pointer value points to.
func (ex *Engine) asPtr(v Value, t types.Type) *Ptr {
	switch x := v.(type) {
	case *Ptr:
		return x
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	k := "*" + v.Key()
	o, ok := ex.symObjs[k]
	if !ok {
		o = ex.NewObj(v.Key(), pt.Elem(), true)
		ex.symObjs[k] = o
	}
	return &Ptr{O: o}
}

// asSlice views v as a slice.
func (ex *Engine) asSlice(v Value, t types.Type) *SliceV {
	switch x := v.(type) {
	case *SliceV:
		return x
	case *Nil:
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		return &SliceV{O: ex.NewArr("nilslice", st.Elem(), false), Off: linConst(0), Len: linConst(0), Cap: linConst(0), T: t}
	}
	st, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	k := "[]" + v.Key()
	o, ok := ex.symObjs[k]
	if !ok {
		o = ex.NewArr(v.Key(), st.Elem(), true)
		ex.symObjs[k] = o
	}
	return &SliceV{O: o, Off: linConst(0), Len: linSym("len(" + v.Key() + ")"), Cap: linSym("cap(" + v.Key() + ")"), T: t}
}

func (ex *Engine) linOf(v Value) *Lin {
	switch x := v.(type) {
	case *Lin:
		return x
	case *Term:
		ex.symTerm[x.Key()] = x
		return linSym(x.Key())
	case *Sym:
		return linSym(x.Name)
	}
	return linSym("?" + v.Key())
}

func (ex *Engine) lenOf(st *State, v Value, t types.Type) *Lin {
	switch x := v.(type) {
	case *SliceV:
		return x.Len
	case *Nil:
		return linConst(0)
	case *Const:
		if s, ok := asStr(v); ok {
			return linConst(int64(len(s)))
		}
	case *Term:
		if x.Op == "substr" {
			return linAdd(x.Args[2].(*Lin), x.Args[1].(*Lin), -1)
		}
		if x.Op == "concat" {
			return linAdd(ex.lenOf(st, x.Args[0], t), ex.lenOf(st, x.Args[1], t), 1)
		}
		if (x.Op == "conv:string" || x.Op == "conv:[]byte") && len(x.Args) == 1 {
			return ex.lenOf(st, x.Args[0], t)
		}
	case *Ptr:
		if o := x.O; o.Map {
			return linSym("len(" + o.String() + ")")
		}
	}
	if t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return linConst(a.Len())
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return linConst(a.Len())
			}
		}
	}
	return linSym("len(" + v.Key() + ")")
}

func (ex *Engine) binop(st *State, op token.Token, a, b Value, t types.Type, xt types.Type) Value {
	switch op {
	case token.EQL:
		return ex.equal(st, a, b, xt)
	case token.NEQ:
		return notV(ex.equal(st, a, b, xt))
	}
	if isInt(xt) {
		la, lb := ex.linOf(a), ex.linOf(b)
		switch op {
		case token.ADD:
			return wrapInt(linAdd(la, lb, 1), t)
		case token.SUB:
			return wrapInt(linAdd(la, lb, -1), t)
		case token.LSS:
			if ka, c := la.Const(); c {
				if kb, c := lb.Const(); c {
					return boolConst(ka < kb)
				}
			}
			return le0(linAddSat(linAddSat(la, lb, -1), linConst(1), 1))
		case token.LEQ:
			return le0(linAddSat(la, lb, -1))
		case token.GTR:
			if ka, c := la.Const(); c {
				if kb, c := lb.Const(); c {
					return boolConst(ka > kb)
				}
			}
			return le0(linAddSat(linAddSat(lb, la, -1), linConst(1), 1))
		case token.GEQ:
			return le0(linAddSat(lb, la, -1))
		}
		ka, ca := la.Const()
		kb, cb := lb.Const()
		if op == token.MUL {
			if ca {
				return wrapInt(linScale(lb, ka), t)
			}
			if cb {
				return wrapInt(linScale(la, kb), t)
			}
		}
		if op == token.SHL && cb && kb >= 0 && kb < 62 {
			return wrapInt(linScale(la, 1<<uint(kb)), t)
		}
		if ca && cb {
			r := int64(0)
			ok := true
			switch op {
			case token.QUO:
				if kb == 0 {
					ok = false
				} else {
					r = ka / kb
				}
			case token.REM:
				if kb == 0 {
					ok = false
				} else {
					r = ka % kb
				}
			case token.AND:
				r = ka & kb
			case token.OR:
				r = ka | kb
			case token.XOR:
				r = ka ^ kb
			case token.AND_NOT:
				r = ka &^ kb
			case token.SHR:
				if kb < 0 || kb > 63 {
					ok = false
				} else {
					r = ka >> uint(kb)
				}
			default:
				ok = false
			}
			if ok {
				return wrapInt(linConst(r), t)
			}
		}
		switch op { // identities
		case token.AND:
			if ca && ka == 0 || cb && kb == 0 {
				return linConst(0)
			}
			if la.Key() == lb.Key() {
				return la
			}
		case token.OR:
			if ca && ka == 0 {
				return lb
			}
			if cb && kb == 0 {
				return la
			}
			if la.Key() == lb.Key() {
				return la
			}
		case token.QUO, token.SHR:
			if cb && (op == token.QUO && kb == 1 || op == token.SHR && kb == 0) {
				return la
			}
		}
		x, y := Value(la), Value(lb)
		switch op {
		case token.AND, token.OR, token.XOR, token.MUL:
			if x.Key() > y.Key() {
				x, y = y, x
			}
		}
		tm := &Term{Op: op.String(), Args: []Value{x, y}, T: t}
		ex.symTerm[tm.Key()] = tm
		if isUnsigned(t) || (op == token.AND && (ca && ka >= 0 || cb && kb >= 0)) {
			ex.nonneg[tm.Key()] = true
		}
		return linSym(tm.Key())
	}
	if isString(xt) {
		sa, oka := asStr(a)
		sb, okb := asStr(b)
		if op == token.ADD {
			if oka && okb {
				return strConst(sa + sb)
			}
			if oka && sa == "" {
				return b
			}
			if okb && sb == "" {
				return a
			}
			return &Term{Op: "concat", Args: []Value{a, b}, T: t}
		}
		if oka && okb {
			return boolConst(constant.Compare(constant.MakeString(sa), op, constant.MakeString(sb)))
		}
	}
	if ca, ok := a.(*Const); ok {
		if cb, ok := b.(*Const); ok && ca.V.Kind() != constant.Bool && cb.V.Kind() != constant.Bool {
			if isBool(t) {
				return boolConst(constant.Compare(ca.V, op, cb.V))
			}
			return &Const{constant.BinaryOp(ca.V, op, cb.V), t}
		}
	}
	return &Term{Op: op.String(), Args: []Value{a, b}, T: t}
}

func wrapInt(l *Lin, t types.Type) *Lin {
	k, ok := l.Const()
	if !ok {
		return l
	}
	b, okb := t.Underlying().(*types.Basic)
	if !okb {
		return l
	}
	switch b.Kind() {
	case types.Uint8:
		k = int64(uint8(k))
	case types.Uint16:
		k = int64(uint16(k))
	case types.Uint32:
		k = int64(uint32(k))
	case types.Int8:
		k = int64(int8(k))
	case types.Int16:
		k = int64(int16(k))
	case types.Int32:
		k = int64(int32(k))
	}
	return linConst(k)
}

func (ex *Engine) equal(st *State, a, b Value, t types.Type) Value {
	if la, ok := a.(*Lin); ok {
		if lb, ok := b.(*Lin); ok {
			return eq0(linAdd(la, lb, -1))
		}
	}
	if t != nil && isInt(t) {
		return eq0(linAdd(ex.linOf(a), ex.linOf(b), -1))
	}
	if a.Key() == b.Key() {
		return boolConst(true)
	}
	_, na := a.(*Nil)
	_, nb := b.(*Nil)
	if na && nb {
		return boolConst(true)
	}
	if na != nb {
		o := a
		if na {
			o = b
		}
		switch x := o.(type) {
		case *Ptr, *FuncV, *IfaceV:
			return boolConst(false)
		case *SliceV:
			if x.O.Name == "nilslice" {
				return boolConst(true)
			}
			if x.O.Sym {
				return &Term{Op: "eq", Args: []Value{&Sym{x.O.Name, nil}, &Nil{}}, T: types.Typ[types.Bool]}
			}
			return boolConst(false)
		}
	}
	if ca, ok := a.(*Const); ok {
		if cb, ok := b.(*Const); ok {
			return boolConst(ca.Key() == cb.Key())
		}
	}
	if pa, ok := a.(*Ptr); ok {
		if pb, ok := b.(*Ptr); ok {
			if pa.O != pb.O && (!pa.O.Sym || !pb.O.Sym) {
				return boolConst(false)
			}
		}
	}
	if fa, ok := a.(*FuncV); ok {
		if fb, ok := b.(*FuncV); ok {
			return boolConst(fa.Fn == fb.Fn)
		}
	}
	if ia, ok := a.(*IfaceV); ok {
		if ib, ok := b.(*IfaceV); ok {
			if !types.Identical(ia.Dyn, ib.Dyn) {
				return boolConst(false)
			}
			return ex.equal(st, ia.V, ib.V, ia.Dyn)
		}
	}
	var ts []types.Type
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				ts = append(ts, u.Field(i).Type())
			}
			sa, ok1 := st.explode(a, t).(*StructV)
			sb, ok2 := st.explode(b, t).(*StructV)
			if ok1 && ok2 {
				and := &Term{Op: "and", T: types.Typ[types.Bool]}
				for i := range sa.F {
					e := ex.equal(st, sa.F[i], sb.F[i], ts[i])
					if v, ok := asBool(e); ok {
						if !v {
							return e
						}
						continue
					}
					and.Args = append(and.Args, e)
				}
				if len(and.Args) == 0 {
					return boolConst(true)
				}
				if len(and.Args) == 1 {
					return and.Args[0]
				}
				return and
			}
		}
	}
	x, y := a, b
	if x.Key() > y.Key() {
		x, y = y, x
	}
	if definitelyDifferent(x, y) {
		return boolConst(false)
	}
	return &Term{Op: "eq", Args: []Value{x, y}, T: types.Typ[types.Bool]}
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return -1 << 63, 1<<63 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 1<<63 - 1, true
	}
	return
}

func (ex *Engine) convert(st *State, v Value, from, to types.Type) Value {
	if isInt(from) && isInt(to) {
		l := ex.linOf(v)
		if k, ok := l.Const(); ok {
			return wrapInt(linConst(k), to)
		}
		flo, fhi, _ := intRange(from)
		tlo, thi, _ := intRange(to)
		if tlo <= flo && thi >= fhi {
			return l
		}
		// does it fit by the facts?
		if st.implied(linAdd(l, linConst(thi), -1)) && st.implied(linAdd(linConst(tlo), l, -1)) {
			return l
		}
		if thi >= fhi && tlo == 0 && ex.noWrapUnsigned {
			return l
		}
		tm := &Term{Op: "conv:" + shortType(to), Args: []Value{l}, T: to}
		ex.symTerm[tm.Key()] = tm
		if isUnsigned(to) {
			ex.nonneg[tm.Key()] = true
		}
		return linSym(tm.Key())
	}
	if isString(to) && isString(from) {
		return v
	}
	if isInt(from) && isFloat(to) {
		if k, ok := ex.linOf(v).Const(); ok {
			return &Const{constant.ToFloat(constant.MakeInt64(k)), to}
		}
	}
	if isFloat(from) && isInt(to) {
		if c, ok := v.(*Const); ok {
			if f, _ := constant.Float64Val(c.V); f == f && f > -9e15 && f < 9e15 {
				return wrapInt(linConst(int64(f)), to)
			}
		}
	}
	if ts, ok := to.Underlying().(*types.Slice); ok {
		if fs, ok := from.Underlying().(*types.Slice); ok && types.Identical(ts, fs) {
			return v
		}
	}
	if c, ok := v.(*Const); ok && !isString(from) && !isString(to) {
		return &Const{c.V, to}
	}
	if ex.Text {
		if r := ex.convertText(st, v, from, to); r != nil {
			return r
		}
	}
	return &Term{Op: "conv:" + shortType(to.Underlying()), Args: []Value{v}, T: to}
}

// ---- instructions ---------------------------------------------------------

func (ex *Engine) step(fr *frame, st *State, in ssa.Instruction) []Outcome {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := ex.NewObj("alloc:"+x.Comment, t, false)
		o.Site = x
		fr.regs[x] = &Ptr{O: o}
	case *ssa.BinOp:
		fr.regs[x] = ex.binop(st, x.Op, ex.val(fr, x.X), ex.val(fr, x.Y), x.Type(), x.X.Type())
	case *ssa.UnOp:
		v := ex.val(fr, x.X)
		switch x.Op {
		case token.NOT:
			fr.regs[x] = notV(v)
		case token.SUB:
			if isInt(x.Type()) {
				fr.regs[x] = wrapInt(linScale(ex.linOf(v), -1), x.Type())
			} else {
				fr.regs[x] = &Term{Op: "neg", Args: []Value{v}, T: x.Type()}
			}
		case token.XOR:
			if k, ok := asInt(v); ok {
				fr.regs[x] = wrapInt(linConst(^k), x.Type())
			} else {
				fr.regs[x] = ex.linOf(&Term{Op: "compl", Args: []Value{v}, T: x.Type()})
			}
		case token.MUL:
			p := ex.asPtr(v, x.X.Type())
			if _, isNil := v.(*Nil); isNil {
				st.Emit(Event{Kind: "nilderef", Instr: x, Stack: fr.stack})
				return []Outcome{{St: st, Panic: true, PanicI: x, PanicV: strConst("nil dereference")}}
			}
			fr.regs[x] = st.Load(p.O, p.Path)
		case token.ARROW:
			res := st.Fresh("recv:"+v.Key(), x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				res = &TupleV{[]Value{res, st.Fresh("recvok", types.Typ[types.Bool])}}
			}
			st.Emit(Event{Kind: "recv", Args: []Value{v}, Res: res, Instr: x, Stack: fr.stack})
			fr.regs[x] = res
		}
	case *ssa.ChangeType:
		fr.regs[x] = ex.val(fr, x.X)
	case *ssa.Convert:
		fr.regs[x] = ex.convert(st, ex.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.regs[x] = ex.convert(st, ex.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		fr.regs[x] = ex.val(fr, x.X)
	case *ssa.MakeInterface:
		fr.regs[x] = &IfaceV{Dyn: x.X.Type(), V: ex.val(fr, x.X)}
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, ex.val(fr, b))
		}
		fr.regs[x] = f
	case *ssa.MakeMap:
		o := ex.NewObj("map", x.Type(), false)
		o.Map = true
		o.Site = x
		fr.regs[x] = &Ptr{O: o}
	case *ssa.MakeChan:
		o := ex.NewObj("chan", x.Type(), false)
		o.Chan = true
		o.Site = x
		st.Emit(Event{Kind: "makechan", Args: []Value{ex.val(fr, x.Size)}, Instr: x, Stack: fr.stack})
		fr.regs[x] = &Ptr{O: o}
	case *ssa.MakeSlice:
		o := ex.NewArr("make", x.Type().Underlying().(*types.Slice).Elem(), false)
		o.Site = x
		l, c := ex.linOf(ex.val(fr, x.Len)), ex.linOf(ex.val(fr, x.Cap))
		fr.regs[x] = &SliceV{O: o, Off: linConst(0), Len: l, Cap: c, T: x.Type()}
	case *ssa.Slice:
		n0 := st.trace
		fr.regs[x] = ex.slice(fr, st, x)
		if ex.Text {
			for t := st.trace; t != n0 && t != nil; t = t.prev {
				if t.ev.Kind == "unproved-slice" && len(t.ev.Args) == 4 {
					if known, ok := asBool(t.ev.Args[3]); ok && known {
						return []Outcome{{St: st, Panic: true, PanicI: x, PanicV: strConst("slice bounds out of range")}}
					}
				}
			}
		}
	case *ssa.FieldAddr:
		v := ex.val(fr, x.X)
		if _, isNil := v.(*Nil); isNil {
			st.Emit(Event{Kind: "nilderef", Instr: x, Stack: fr.stack})
			return []Outcome{{St: st, Panic: true, PanicI: x, PanicV: strConst("nil dereference")}}
		}
		p := ex.asPtr(v, x.X.Type())
		fr.regs[x] = &Ptr{O: p.O, Path: appendPE(p.Path, pe{Field: x.Field})}
	case *ssa.Field:
		v := st.explode(ex.val(fr, x.X), x.X.Type())
		if sv, ok := v.(*StructV); ok {
			fr.regs[x] = sv.F[x.Field]
		} else {
			fr.regs[x] = st.Fresh("field", x.Type())
		}
	case *ssa.IndexAddr:
		idx := ex.linOf(ex.val(fr, x.Index))
		v := ex.val(fr, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			if outs := ex.boundsCheck(fr, st, x, idx, ex.lenOf(st, v, x.X.Type())); outs != nil {
				return outs
			}
			s := ex.asSlice(v, x.X.Type())
			fr.regs[x] = &Ptr{O: s.O, Path: appendPE(s.Path, pe{Field: -1, Idx: linAdd(s.Off, idx, 1)})}
		} else {
			p := ex.asPtr(v, x.X.Type())
			fr.regs[x] = &Ptr{O: p.O, Path: appendPE(p.Path, pe{Field: -1, Idx: idx})}
		}
	case *ssa.Index:
		v := ex.val(fr, x.X)
		i := ex.val(fr, x.Index)
		fr.regs[x] = ex.index(st, v, ex.linOf(i), x.Type(), x.X.Type())
	case *ssa.Lookup:
		v := ex.val(fr, x.X)
		if isString(x.X.Type()) {
			if k, ok := ex.linOf(ex.val(fr, x.Index)).Const(); ok && ex.Text {
				if s, ok := asStr(v); ok && (k < 0 || int(k) >= len(s)) {
					return []Outcome{{St: st, Panic: true, PanicI: x, PanicV: strConst("index out of range")}}
				}
			}
			fr.regs[x] = ex.index(st, v, ex.linOf(ex.val(fr, x.Index)), x.Type(), x.X.Type())
			break
		}
		fr.regs[x] = ex.mapLookup(st, v, ex.val(fr, x.Index), x)
	case *ssa.MapUpdate:
		m := ex.val(fr, x.Map)
		k, v := ex.val(fr, x.Key), ex.val(fr, x.Value)
		o := ex.mapObj(m, x.Map.Type())
		if o != nil {
			w := st.wobj(o)
			kk := k.Key()
			if !isConstKey(k) {
				w.closed = false
				for lk, l := range w.leaves {
					if lk != kk {
						if mv, ok := l.val.(*mapEntry); ok && !definitelyDifferent(mv.K, k) {
							w.leaves[lk] = leaf{nil, &mapEntry{mv.K, st.Fresh("mapmaybe", x.Value.Type()), nil}}
						}
					}
				}
			}
			if _, ok := w.leaves[kk]; !ok {
				w.order = append(w.order, kk)
			}
			w.leaves[kk] = leaf{nil, &mapEntry{k, v, boolConst(true)}}
			st.Emit(Event{Kind: "mapstore", P: &Ptr{O: o}, Args: []Value{m, k, v}, Instr: x, Stack: fr.stack})
		}
	case *ssa.Range:
		st.n++
		it := &IterV{Over: ex.val(fr, x.X), ID: st.n}
		if _, ok := asStr(it.Over); ok && ex.Text {
			it.Pos = ex.NewObj("iter", types.Typ[types.Int], false)
			st.Set(it.Pos, nil, linConst(0))
		}
		fr.regs[x] = it
	case *ssa.Next:
		it := ex.val(fr, x.Iter)
		if t := ex.nextText(st, it); t != nil {
			fr.regs[x] = t
			break
		}
		tt := x.Type().(*types.Tuple)
		mk := func(i int) Value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return &Nil{t}
			}
			return st.Fresh(fmt.Sprintf("next%d:%s", i, it.Key()), t)
		}
		fr.regs[x] = &TupleV{[]Value{mk(0), mk(1), mk(2)}}
	case *ssa.TypeAssert:
		fr.regs[x] = ex.typeAssert(fr, st, x)
	case *ssa.Extract:
		v := ex.val(fr, x.Tuple)
		if tv, ok := v.(*TupleV); ok && x.Index < len(tv.E) {
			fr.regs[x] = tv.E[x.Index]
		} else {
			fr.regs[x] = ex.SymOf(fmt.Sprintf("%s.%d", v.Key(), x.Index), x.Type())
		}
	case *ssa.Store:
		a := ex.val(fr, x.Addr)
		if _, isNil := a.(*Nil); isNil {
			st.Emit(Event{Kind: "nilderef", Instr: x, Stack: fr.stack})
			return []Outcome{{St: st, Panic: true, PanicI: x, PanicV: strConst("nil dereference")}}
		}
		p := ex.asPtr(a, x.Addr.Type())
		v := ex.val(fr, x.Val)
		st.Emit(Event{Kind: "store", P: p, Args: []Value{v}, Instr: x, Stack: fr.stack})
		st.Set(p.O, p.Path, v)
	case *ssa.Send:
		st.Emit(Event{Kind: "send", Args: []Value{ex.val(fr, x.Chan), ex.val(fr, x.X)}, Instr: x, Stack: fr.stack})
	case *ssa.Go:
		fv, args := ex.callee(fr, x.Common())
		st.Emit(Event{Kind: "go", Name: nameOf(fv, x.Common()), Args: args, Instr: x, Stack: fr.stack})
		if ex.OnGo != nil {
			ex.OnGo(fr, st, x, fv, args)
		}
	case *ssa.Defer:
		fv, args := ex.callee(fr, x.Common())
		fr.defers = append(fr.defers, deferred{x, fv, args})
	case *ssa.Select:
		st.Emit(Event{Kind: "select", Instr: x, Stack: fr.stack})
		fr.regs[x] = st.Fresh("select", x.Type())
	case *ssa.SliceToArrayPointer:
		fr.regs[x] = st.Fresh("s2a", x.Type())
	default:
		panic(tooComplex{fmt.Sprintf("instruction %T in %s", in, fr.fn)})
	}
	return nil
}

// boundsCheck forks an index-out-of-range panic when it is certain.
func (ex *Engine) boundsCheck(fr *frame, st *State, in ssa.Instruction, idx, ln *Lin) []Outcome {
	k, v := st.query(le0(linAdd(linAdd(idx, ln, -1), linConst(1), 1)))
	k2, v2 := st.query(le0(linScale(idx, -1)))
	if (k && !v) || (k2 && !v2) {
		st.Emit(Event{Kind: "oob", Instr: in, Args: []Value{idx, ln}, Stack: fr.stack})
		return []Outcome{{St: st, Panic: true, PanicI: in, PanicV: strConst("index out of range")}}
	}
	if !k || !k2 {
		st.Emit(Event{Kind: "unproved-index", Instr: in, Args: []Value{idx, ln}, Stack: fr.stack})
	}
	return nil
}

type mapEntry struct{ K, V, Ok Value }

func (m *mapEntry) Key() string { return m.K.Key() + "→" + m.V.Key() }

func isConstKey(k Value) bool {
	switch x := k.(type) {
	case *Const:
		return true
	case *Lin:
		_, ok := x.Const()
		return ok
	}
	return false
}

func (ex *Engine) mapObj(m Value, t types.Type) *Obj {
	if p, ok := m.(*Ptr); ok {
		return p.O
	}
	if _, ok := m.(*Nil); ok {
		return nil
	}
	k := "map*" + m.Key()
	o, ok := ex.symObjs[k]
	if !ok {
		o = ex.NewObj(m.Key(), t, true)
		o.Map = true
		ex.symObjs[k] = o
	}
	return o
}

func (ex *Engine) mapLookup(st *State, m, k Value, x *ssa.Lookup) Value {
	mt := x.X.Type().Underlying().(*types.Map)
	v, ok := ex.mapGet(st, m, k, mt)
	if x.CommaOk {
		return &TupleV{[]Value{v, ok}}
	}
	return v
}

func (ex *Engine) mapGet(st *State, m, k Value, mt *types.Map) (Value, Value) {
	o := ex.mapObj(m, mt)
	if o == nil {
		return ex.Zero(mt.Elem()), boolConst(false)
	}
	os := st.obj(o)
	if l, ok := os.leaves[k.Key()]; ok {
		e := l.val.(*mapEntry)
		okv := e.Ok
		if okv == nil {
			okv = st.ex.SymOf("has:"+o.String()+":"+k.Key(), types.Typ[types.Bool])
		}
		return e.V, okv
	}
	if os.closed && isConstKey(k) {
		allConst := true
		for _, l := range os.leaves {
			if !isConstKey(l.val.(*mapEntry).K) {
				allConst = false
			}
		}
		if allConst {
			return ex.Zero(mt.Elem()), boolConst(false)
		}
	}
	name := fmt.Sprintf("%s'%d[%s]", o.Name, os.epoch, k.Key())
	return ex.SymOf(name, mt.Elem()), ex.SymOf("has:"+name, types.Typ[types.Bool])
}

func (ex *Engine) index(st *State, v Value, i *Lin, t, ct types.Type) Value {
	if av, ok := st.explode(v, ct).(*ArrayV); ok {
		if k, ok := i.Const(); ok && k >= 0 && int(k) < len(av.E) {
			return av.E[k]
		}
	}
	if s, ok := asStr(v); ok {
		if k, ok := i.Const(); ok && k >= 0 && int(k) < len(s) {
			return linConst(int64(s[k]))
		}
	}
	if tm, ok := v.(*Term); ok && tm.Op == "substr" {
		return ex.index(st, tm.Args[0], linAdd(tm.Args[1].(*Lin), i, 1), t, ct)
	}
	return ex.SymOf(v.Key()+"["+i.Key()+"]", t)
}

func (ex *Engine) slice(fr *frame, st *State, x *ssa.Slice) Value {
	v := ex.val(fr, x.X)
	lo := linConst(0)
	if x.Low != nil {
		lo = ex.linOf(ex.val(fr, x.Low))
	}
	if isString(x.X.Type()) {
		hi := ex.lenOf(st, v, x.X.Type())
		if x.High != nil {
			hi = ex.linOf(ex.val(fr, x.High))
		}
		ex.sliceCheck(fr, st, x, lo, hi, ex.lenOf(st, v, x.X.Type()))
		if s, ok := asStr(v); ok {
			l, ok1 := lo.Const()
			h, ok2 := hi.Const()
			if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(s) {
				return strConst(s[l:h])
			}
		}
		if k, ok := lo.Const(); ok && k == 0 && hi.Key() == ex.lenOf(st, v, x.X.Type()).Key() {
			return v
		}
		base := v
		if t, ok := v.(*Term); ok && t.Op == "substr" {
			base = t.Args[0]
			l0 := t.Args[1].(*Lin)
			lo, hi = linAdd(l0, lo, 1), linAdd(l0, hi, 1)
		}
		return &Term{Op: "substr", Args: []Value{base, lo, hi}, T: x.Type()}
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok { // array
		p := ex.asPtr(v, x.X.Type())
		at := pt.Elem().Underlying().(*types.Array)
		hi := linConst(at.Len())
		if x.High != nil {
			hi = ex.linOf(ex.val(fr, x.High))
		}
		return &SliceV{O: p.O, Path: p.Path, Off: lo, Len: linAdd(hi, lo, -1), Cap: linAdd(linConst(at.Len()), lo, -1), T: x.Type()}
	}
	if n, ok := v.(*Nil); ok {
		return n
	}
	s := ex.asSlice(v, x.X.Type())
	hi := s.Len
	if x.High != nil {
		hi = ex.linOf(ex.val(fr, x.High))
	}
	ex.sliceCheck(fr, st, x, lo, hi, s.Cap)
	cp := linAdd(s.Cap, lo, -1)
	if x.Max != nil {
		cp = linAdd(ex.linOf(ex.val(fr, x.Max)), lo, -1)
	}
	return &SliceV{O: s.O, Path: s.Path, Off: linAdd(s.Off, lo, 1), Len: linAdd(hi, lo, -1), Cap: cp, T: x.Type()}
}

func (ex *Engine) sliceCheck(fr *frame, st *State, x *ssa.Slice, lo, hi, lim *Lin) {
	chk := func(d *Lin, what string) {
		if k, v := st.query(le0(d)); !k || !v {
			st.Emit(Event{Kind: "unproved-slice", Name: what, Instr: x, Args: []Value{lo, hi, lim, boolConst(k)}, Stack: fr.stack})
		}
	}
	chk(linScale(lo, -1), "low>=0")
	chk(linAdd(lo, hi, -1), "low<=high")
}

func (ex *Engine) typeAssert(fr *frame, st *State, x *ssa.TypeAssert) Value {
	v := ex.val(fr, x.X)
	t := x.AssertedType
	if iv, ok := v.(*IfaceV); ok {
		match := false
		if it, isI := t.Underlying().(*types.Interface); isI {
			match = types.Implements(iv.Dyn, it)
			if match && !x.CommaOk {
				return v
			}
			if x.CommaOk {
				if match {
					return &TupleV{[]Value{v, boolConst(true)}}
				}
				return &TupleV{[]Value{&Nil{t}, boolConst(false)}}
			}
		} else {
			match = types.Identical(iv.Dyn, t)
		}
		if x.CommaOk {
			if match {
				return &TupleV{[]Value{iv.V, boolConst(true)}}
			}
			return &TupleV{[]Value{ex.Zero(t), boolConst(false)}}
		}
		if match {
			return iv.V
		}
		st.Emit(Event{Kind: "badassert", Instr: x, Stack: fr.stack})
		return ex.SymOf("badassert", t)
	}
	r := ex.SymOf("assert("+v.Key()+","+shortType(t)+")", t)
	if x.CommaOk {
		return &TupleV{[]Value{r, ex.SymOf("is("+v.Key()+","+shortType(t)+")", types.Typ[types.Bool])}}
	}
	st.Emit(Event{Kind: "assert", Args: []Value{v}, Instr: x, Stack: fr.stack})
	return r
}

// ---- calls -----------------------------------------------------------------

func (ex *Engine) callee(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := ex.val(fr, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, ex.val(fr, a))
		}
		if iv, ok := recv.(*IfaceV); ok {
			if m := ex.prog.LookupMethod(iv.Dyn, c.Method.Pkg(), c.Method.Name()); m != nil {
				args[0] = iv.V
				return &FuncV{Fn: m}, args
			}
		}
		return &Sym{"invoke:" + shortType(c.Value.Type()) + "." + c.Method.Name(), nil}, args
	}
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	return ex.val(fr, c.Value), args
}

func nameOf(fv Value, c *ssa.CallCommon) string {
	switch x := fv.(type) {
	case *FuncV:
		return x.Fn.String()
	case *Sym:
		return x.Name
	}
	return "dyn:" + fv.Key()
}

func (ex *Engine) doCall(fr *frame, st *State, x *ssa.Call, c *ssa.CallCommon) []Outcome {
	fv, args := ex.callee(fr, c)
	return ex.applyValue(fr, st, x, fv, args, c)
}

func (ex *Engine) applyValue(fr *frame, st *State, site ssa.CallInstruction, fv Value, args []Value, c *ssa.CallCommon) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, site, b.Name(), args, c)
	}
	if f, ok := fv.(*FuncV); ok {
		return ex.Apply(fr, st, site, f, args)
	}
	name := nameOf(fv, c)
	if _, isNil := fv.(*Nil); isNil {
		st.Emit(Event{Kind: "nilcall", Instr: site, Stack: fr.stack})
		return []Outcome{{St: st, Panic: true, PanicI: site, PanicV: strConst("nil function call")}}
	}
	if h, ok := ex.Hooks[name]; ok {
		return h(ex, st, site, args)
	}
	if h, ok := ex.Hooks["dyn"]; ok && !strings.HasPrefix(name, "invoke:") {
		return h(ex, st, site, append([]Value{fv}, args...))
	}
	if strings.HasPrefix(name, "invoke:tracing.Trace.") {
		return []Outcome{{St: st, Ret: resultsOf(c, func(i int, t types.Type) Value { return ex.SymOf("trace", t) })}}
	}
	return ex.opaque(st, site, name, args, c.Signature().Results(), fr.stack)
}

func resultsOf(c *ssa.CallCommon, f func(i int, t types.Type) Value) []Value {
	rs := c.Signature().Results()
	var r []Value
	for i := 0; i < rs.Len(); i++ {
		r = append(r, f(i, rs.At(i).Type()))
	}
	return r
}

func (ex *Engine) opaque(st *State, site ssa.CallInstruction, name string, args []Value, rs *types.Tuple, stack string) []Outcome {
	var r []Value
	st.n++
	for i := 0; i < rs.Len(); i++ {
		r = append(r, ex.SymOf(fmt.Sprintf("%s~%d.%d", shortName(name), st.n, i), rs.At(i).Type()))
	}
	st.Emit(Event{Kind: "call", Name: name, Args: args, Res: packRet(r), Instr: site, Stack: stack})
	return []Outcome{{St: st, Ret: r}}
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// Apply calls a known function.
func (ex *Engine) Apply(fr *frame, st *State, site ssa.CallInstruction, f *FuncV, args []Value) []Outcome {
	name := ex.fnName(f.Fn)
	if h, ok := ex.Hooks[name]; ok {
		return h(ex, st, site, append(append([]Value(nil), args...), f.Bind...))
	}
	stack := ""
	if fr != nil {
		stack = fr.stack
	}
	rs := f.Fn.Signature.Results()
	if ex.Opaque[name] {
		return ex.opaque(st, site, name, args, rs, stack)
	}
	if h, ok := stdHooks[name]; ok {
		return h(ex, st, site, args, fr)
	}
	inRepo := inModule(f.Fn, ex.repo)
	if len(f.Fn.Blocks) == 0 || !inRepo {
		if isPure(name) {
			t := &Term{Op: name, Args: args, T: rs}
			var r []Value
			for i := 0; i < rs.Len(); i++ {
				nm := t.Key()
				if rs.Len() > 1 {
					nm = fmt.Sprintf("%s.%d", nm, i)
				}
				ex.symTerm[nm] = t
				r = append(r, ex.SymOf(nm, rs.At(i).Type()))
			}
			return []Outcome{{St: st, Ret: r}}
		}
		return ex.opaque(st, site, name, args, rs, stack)
	}
	for p, n := fr, 0; p != nil; p = p.parent {
		if p.fn == f.Fn {
			n++
			if n >= ex.maxRec {
				outs := ex.opaque(st, site, name, args, rs, stack)
				outs[0].St.trace.ev.Kind = "recursion"
				return outs
			}
		}
	}
	return ex.call(fr, site, f.Fn, f.Bind, args, st)
}

func inModule(f *ssa.Function, mod string) bool {
	if f.Pkg == nil {
		if o := f.Origin(); o != nil && o.Pkg != nil {
			f = o
		} else if f.Parent() != nil {
			return inModule(f.Parent(), mod)
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), mod)
		} else {
			return f.Synthetic != "" && len(f.Blocks) > 0
		}
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), mod)
}

var pureFuncs = map[string]bool{}

func isPure(name string) bool {
	for _, p := range []string{"unicode.", "unicode/utf8.", "strings.Has", "strings.Index", "strings.Contains", "strings.Trim", "strings.ToL", "strings.ToU", "strings.Repeat", "strconv.", "fmt.Sprint", "fmt.Errorf",
		"errors.Is", "(golang.org/x/text/unicode/bidi.Properties).", "golang.org/x/text/unicode/bidi.Lookup", "(golang.org/x/text/width.Properties).", "golang.org/x/text/width.Lookup", "golang.org/x/text/language.", "(golang.org/x/text/language.", "bytes.Has", "math."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

type stdHook func(ex *Engine, st *State, site ssa.CallInstruction, args []Value, fr *frame) []Outcome

var stdHooks = map[string]stdHook{}

func init() {
	stdHooks["strings.HasPrefix"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value, fr *frame) []Outcome {
		a, ok1 := asStr(args[0])
		b, ok2 := asStr(args[1])
		if ok1 && ok2 {
			return []Outcome{{St: st, Ret: []Value{boolConst(strings.HasPrefix(a, b))}}}
		}
		return []Outcome{{St: st, Ret: []Value{&Term{Op: "strings.HasPrefix", Args: args, T: types.Typ[types.Bool]}}}}
	}
	stdHooks["github.com/npillmayer/schuko/tracing.Select"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value, fr *frame) []Outcome {
		return []Outcome{{St: st, Ret: []Value{&Sym{"tracer", nil}}}}
	}
	stdHooks["math.Round"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value, fr *frame) []Outcome {
		if c, ok := args[0].(*Const); ok {
			f, _ := constant.Float64Val(constant.ToFloat(c.V))
			return []Outcome{{St: st, Ret: []Value{&Const{constant.MakeFloat64(math.Round(f)), types.Typ[types.Float64]}}}}
		}
		return []Outcome{{St: st, Ret: []Value{&Term{Op: "math.Round", Args: args, T: types.Typ[types.Float64]}}}}
	}
	stdHooks["(*sync.Once).Do"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value, fr *frame) []Outcome {
		st.Emit(Event{Kind: "oncedo", Args: args, Instr: site})
		if f, ok := args[1].(*FuncV); ok {
			var res []Outcome
			for _, o := range ex.Apply(fr, st, site, f, nil) {
				if o.Returns() {
					o.Ret = nil
					o.St.Emit(Event{Kind: "oncedone", Instr: site})
				}
				res = append(res, o)
			}
			return res
		}
		return []Outcome{{St: st}}
	}
	ev := func(kind string) stdHook {
		return func(ex *Engine, st *State, site ssa.CallInstruction, args []Value, fr *frame) []Outcome {
			stack := ""
			if fr != nil {
				stack = fr.stack
			}
			st.Emit(Event{Kind: kind, Args: args, Instr: site, Stack: stack})
			return []Outcome{{St: st}}
		}
	}
	stdHooks["(*sync.Mutex).Lock"] = ev("lock")
	stdHooks["(*sync.Mutex).Unlock"] = ev("unlock")
	stdHooks["(*sync.RWMutex).Lock"] = ev("lock")
	stdHooks["(*sync.RWMutex).Unlock"] = ev("unlock")
	stdHooks["(*sync.RWMutex).RLock"] = ev("lock")
	stdHooks["(*sync.RWMutex).RUnlock"] = ev("unlock")
	stdHooks["errors.New"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value, fr *frame) []Outcome {
		st.n++
		return []Outcome{{St: st, Ret: []Value{&Sym{fmt.Sprintf("global-error:new~%d(%s)", st.n, args[0].Key()), nil}}}}
	}
	stdHooks["fmt.Errorf"] = stdHooks["errors.New"]
}

func (ex *Engine) builtin(fr *frame, st *State, site ssa.CallInstruction, name string, args []Value, c *ssa.CallCommon) []Outcome {
	ret := func(v ...Value) []Outcome { return []Outcome{{St: st, Ret: v}} }
	switch name {
	case "len":
		return ret(ex.lenOf(st, args[0], c.Args[0].Type()))
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			return ret(s.Cap)
		}
		if _, ok := args[0].(*Nil); ok {
			return ret(linConst(0))
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return ret(ex.lenOf(st, args[0], c.Args[0].Type()))
		}
		return ret(linSym("cap(" + args[0].Key() + ")"))
	case "append":
		return ret(ex.appendV(fr, st, site, args, c))
	case "copy":
		if s, ok := asStr(args[1]); ok && ex.Text {
			args = []Value{args[0], ex.bytesOf(st, s)}
		}
		d := ex.asSlice(args[0], c.Args[0].Type())
		var n *Lin
		sl := ex.lenOf(st, args[1], c.Args[1].Type())
		st.Emit(Event{Kind: "copy", P: &Ptr{O: d.O, Path: d.Path}, Args: args, Instr: site, Stack: fr.stack})
		if k, v := st.query(le0(linAdd(sl, d.Len, -1))); k && v {
			n = sl
		} else if k {
			n = d.Len
		} else {
			st.n++
			n = linSym(fmt.Sprintf("copyn~%d", st.n))
			ex.nonneg[n.Key()] = true
		}
		if s, ok := args[1].(*SliceV); ok {
			if k, ok := n.Const(); ok && k <= 4096 {
				var vals []Value
				for i := int64(0); i < k; i++ {
					vals = append(vals, st.Load(s.O, appendPE(s.Path, pe{Field: -1, Idx: linAdd(s.Off, linConst(i), 1)})))
				}
				for i := int64(0); i < k; i++ {
					p := appendPE(d.Path, pe{Field: -1, Idx: linAdd(d.Off, linConst(i), 1)})
					st.Set(d.O, p, vals[i])
					st.Emit(Event{Kind: "store", P: &Ptr{O: d.O, Path: p}, Args: []Value{vals[i]}, Instr: site, Stack: fr.stack})
				}
				return ret(n)
			}
		}
		st.Smash(d.O)
		st.Emit(Event{Kind: "smash", P: &Ptr{O: d.O}, Args: args, Instr: site, Stack: fr.stack})
		return ret(n)
	case "delete":
		if o := ex.mapObj(args[0], c.Args[0].Type()); o != nil {
			w := st.wobj(o)
			if isConstKey(args[1]) {
				w.leaves[args[1].Key()] = leaf{nil, &mapEntry{args[1], ex.Zero(c.Args[0].Type().Underlying().(*types.Map).Elem()), boolConst(false)}}
			} else {
				st.Smash(o)
			}
			st.Emit(Event{Kind: "mapstore", P: &Ptr{O: o}, Args: args, Instr: site, Stack: fr.stack})
		}
		return ret()
	case "close":
		st.Emit(Event{Kind: "close", Args: args, Instr: site, Stack: fr.stack})
		if ex.OnClose != nil {
			ex.OnClose(st, site, args[0])
		}
		return ret()
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			la, lb := ex.linOf(r), ex.linOf(b)
			k, v := st.query(le0(linAdd(la, lb, -1)))
			if k {
				if v == (name == "min") {
					r = la
				} else {
					r = lb
				}
			} else {
				x, y := Value(la), Value(lb)
				if x.Key() > y.Key() {
					x, y = y, x
				}
				r = ex.linOf(&Term{Op: name, Args: []Value{x, y}})
			}
		}
		return ret(r)
	case "print", "println":
		return ret()
	case "recover":
		return ret(&Nil{})
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "panic":
		st.Emit(Event{Kind: "panic", Args: args, Instr: site, Stack: fr.stack})
		return []Outcome{{St: st, Panic: true, PanicI: site, PanicV: args[0]}}
	}
	return ex.opaque(st, site, "builtin:"+name, args, c.Signature().Results(), fr.stack)
}

// appendV models append: the result is a new backing array holding the old
// elements followed by the new ones.
func (ex *Engine) appendV(fr *frame, st *State, site ssa.CallInstruction, args []Value, c *ssa.CallCommon) Value {
	t := c.Args[0].Type()
	elem := t.Underlying().(*types.Slice).Elem()
	a := ex.asSlice(args[0], t)
	if _, ok := args[1].(*Nil); ok {
		return args[0]
	}
	var bl *Lin
	var b *SliceV
	if s, ok := asStr(args[1]); ok && ex.Text {
		args = []Value{args[0], ex.bytesOf(st, s)}
		b = args[1].(*SliceV)
		bl = b.Len
	} else if isString(c.Args[1].Type()) {
		bl = ex.lenOf(st, args[1], c.Args[1].Type())
	} else {
		b = ex.asSlice(args[1], c.Args[1].Type())
		bl = b.Len
	}
	if k, ok := bl.Const(); ok && k == 0 {
		return args[0]
	}
	st.Emit(Event{Kind: "append", P: &Ptr{O: a.O, Path: a.Path}, Args: args, Instr: site, Stack: fr.stack})
	newLen := linAdd(a.Len, bl, 1)
	ex.ncap++
	var newCap *Lin
	if k, ok := bl.Const(); ok && b != nil && k <= 20000 && st.implied(linAdd(newLen, a.Cap, -1)) { // in place
		var vals []Value
		for i := int64(0); i < k; i++ {
			vals = append(vals, st.Load(b.O, appendPE(b.Path, pe{Field: -1, Idx: linAdd(b.Off, linConst(i), 1)})))
		}
		for i, v := range vals {
			st.Set(a.O, appendPE(a.Path, pe{Field: -1, Idx: linAdd(linAdd(a.Off, a.Len, 1), linConst(int64(i)), 1)}), v)
		}
		return &SliceV{O: a.O, Path: a.Path, Off: a.Off, Len: newLen, Cap: a.Cap, T: t}
	}
	if _, ok := a.Cap.Const(); ok {
		if _, ok := newLen.Const(); ok {
			newCap = linSym(fmt.Sprintf("cap(append#%d)", ex.ncap))
			st.assume(le0(linAdd(newLen, newCap, -1)), true)
		}
	}
	no := ex.NewArr("append:"+a.O.Name, elem, false)
	// old content
	oa := st.obj(a.O)
	no.Sym = a.O.Sym || oa.sym
	offZero := a.Off.Key() == "0" && len(a.Path) == 0 && oa.epoch == 0
	if no.Sym && offZero {
		no.Name = a.O.Name
	}
	w := st.wobj(no)
	_ = w
	al, alConst := a.Len.Const()
	if alConst && al <= 20000 {
		for i := int64(0); i < al; i++ {
			v := st.Load(a.O, appendPE(a.Path, pe{Field: -1, Idx: linAdd(a.Off, linConst(i), 1)}))
			st.Set(no, []pe{{Field: -1, Idx: linConst(i)}}, v)
		}
	} else {
		if !offZero {
			no.Name = fmt.Sprintf("%s@%s", a.O.Name, a.Off.Key())
		}
		for _, lk := range oa.order {
			l, ok := oa.leaves[lk]
			if !ok || len(l.path) != len(a.Path)+1 && len(l.path) < len(a.Path)+1 {
				continue
			}
			idx := l.path[len(a.Path)].Idx
			if idx == nil {
				continue
			}
			np := append([]pe{{Field: -1, Idx: linAdd(idx, a.Off, -1)}}, l.path[len(a.Path)+1:]...)
			st.Set(no, np, l.val)
		}
	}
	if b != nil {
		if k, ok := bl.Const(); ok && k <= 20000 {
			for i := int64(0); i < k; i++ {
				v := st.Load(b.O, appendPE(b.Path, pe{Field: -1, Idx: linAdd(b.Off, linConst(i), 1)}))
				st.Set(no, []pe{{Field: -1, Idx: linAdd(a.Len, linConst(i), 1)}}, v)
			}
		} else {
			st.Smash(no)
		}
	} else {
		st.Smash(no)
	}
	st.n++
	cp := newCap
	if cp == nil {
		cp = linSym(fmt.Sprintf("cap(append~%d)", st.n))
		if ex.bnd != nil {
			st.assume(le0(linAdd(newLen, cp, -1)), true)
		}
	}
	return &SliceV{O: no, Off: linConst(0), Len: newLen, Cap: cp, T: t}
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
