package main

// Extraction of the break rules of a UnicodeBreaker from its source: the rule
// tables and the start/step behaviour of every rule state function are read
// off the SSA form by conditional constant propagation, one code-point class
// at a time, with the match registers of the recognizer kept symbolic.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type env struct {
	ints  map[string]int64
	bools map[string]bool
}

type evalErr struct{ msg string }

func evalInt(v Value, e *env) int64 {
	switch x := v.(type) {
	case *Lin:
		s := x.K
		for _, t := range x.Terms {
			k, ok := e.ints[t.Sym]
			if !ok {
				panic(evalErr{"value depends on " + t.Sym})
			}
			s += k * t.Coef
		}
		return s
	}
	panic(evalErr{"not an integer expression: " + v.Key()})
}

func evalBool(v Value, e *env) bool {
	if b, ok := asBool(v); ok {
		return b
	}
	switch x := v.(type) {
	case *Sym:
		if b, ok := e.bools[x.Name]; ok {
			return b
		}
		panic(evalErr{"condition depends on " + x.Name})
	case *Term:
		switch x.Op {
		case "not":
			return !evalBool(x.Args[0], e)
		case "le0":
			return evalInt(x.Args[0], e) <= 0
		case "eq0":
			return evalInt(x.Args[0], e) == 0
		case "and":
			for _, a := range x.Args {
				if !evalBool(a, e) {
					return false
				}
			}
			return true
		case "eq":
			if b, ok := asBool(x.Args[0]); ok {
				return evalBool(x.Args[1], e) == b
			}
			if b, ok := asBool(x.Args[1]); ok {
				return evalBool(x.Args[0], e) == b
			}
		}
	}
	panic(evalErr{"condition depends on " + v.Key()})
}

// guardHolds evaluates the path condition of an outcome.
func guardHolds(st *State, e *env) bool {
	for _, l := range st.le {
		if evalInt(l, e) > 0 {
			return false
		}
	}
	for _, l := range st.eq {
		if evalInt(l, e) != 0 {
			return false
		}
	}
	for _, l := range st.ne {
		if evalInt(l, e) == 0 {
			return false
		}
	}
	for k, v := range st.bf {
		if evalBool(st.bfv[k], e) != v {
			return false
		}
	}
	return true
}

// evalIntSlice evaluates a slice-of-int value: replays the stores.
func evalIntSlice(st *State, v Value, e *env) []int64 {
	switch x := v.(type) {
	case *Nil:
		return nil
	case *SliceV:
		n := evalInt(x.Len, e)
		if n < 0 || n > 4096 {
			panic(evalErr{fmt.Sprintf("slice length %d", n)})
		}
		off := evalInt(x.Off, e)
		arr := map[int64]int64{}
		if x.O.Sym || len(x.Path) != 0 && x.O.Sym {
			for i := int64(0); i < off+n; i++ {
				k, ok := e.ints[fmt.Sprintf("%s[%d]", x.O.Name, i)]
				if ok {
					arr[i] = k
				}
			}
		}
		for _, l := range evOfObj(st, x) {
			i := evalInt(l.P.Path[len(l.P.Path)-1].Idx, e)
			arr[i] = evalInt(l.Args[0], e)
		}
		// leaves carried over by append (no store event)
		if os := st.at(x.O.ID); os != nil && !hasEv(st, x) {
			for _, lf := range os.leaves {
				if len(lf.path) == 1 && lf.path[0].Idx != nil {
					arr[evalInt(lf.path[0].Idx, e)] = evalInt(lf.val, e)
				}
			}
		}
		r := make([]int64, n)
		for i := range r {
			r[i] = arr[off+int64(i)]
		}
		return r
	}
	panic(evalErr{"not a slice: " + v.Key()})
}

func evOfObj(st *State, s *SliceV) []Event {
	var r []Event
	for _, ev := range st.Events() {
		if ev.Kind == "store" && ev.P != nil && ev.P.O == s.O && len(ev.P.Path) == len(s.Path)+1 {
			r = append(r, ev)
		}
	}
	return r
}
func hasEv(st *State, s *SliceV) bool { return len(evOfObj(st, s)) > 0 }

// ---- the extracted breaker ----------------------------------------------

type recSpec struct { // a started recognizer
	fn     *ssa.Function
	m, e   Value
	extraE Value
}

type startOut struct {
	st   *State
	recs []recSpec
	upd  []fieldUpd
}
type fieldUpd struct {
	name string // env name
	val  Value
}
type stepOut struct {
	st   *State
	next *ssa.Function
	m, e Value
	pen  Value // penalties contributed
	upd  []fieldUpd
}

type breakerModel struct {
	p        *Prog
	pkg      string
	ex       *Engine
	gbT      types.Type // struct type of the breaker
	recT     types.Type
	base     *State // after the constructor
	gb       *Obj
	classes  map[string]int64
	names    map[int64]string
	ctor     *ssa.Function
	mStart   *ssa.Function
	mProceed *ssa.Function
	mLongest *ssa.Function
	mPen     *ssa.Function
	runeEv   *ssa.Function
	starts   map[int64][]startOut
	steps    map[string][]stepOut
	initEnv  map[string]int64
	initB    map[string]bool
	fieldTyp map[string]types.Type
	scalar   []string
	procs    map[int][]Outcome
	procUpd  map[int][][]fieldUpd
	procSym  map[int]*Obj
	fns      map[string]*ssa.Function
	mapObjs  map[string]bool
}

func tcPanic(format string, a ...interface{}) {
	panic(tooComplex{fmt.Sprintf(format, a...)})
}

func interpInits(p *Prog, ex *Engine, st *State, pkgs ...string) {
	// constants and package variables initialised to constants
	for _, pk := range pkgs {
		sp := p.SPkg[pk]
		if sp == nil {
			continue
		}
		setConstGlobals(ex, st, sp)
	}
}

// setConstGlobals gives package variables of basic type that are assigned
// only in the package initialiser their initial value.
func setConstGlobals(ex *Engine, st *State, sp *ssa.Package) {
	init := sp.Func("init")
	if init == nil {
		return
	}
	written := map[ssa.Value]int{}
	var addrTaken = map[ssa.Value]bool{}
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok {
			scanGlobals(f, init, written, addrTaken)
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := ex.prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					if f := ex.prog.MethodValue(ms.At(i)); f != nil {
						scanGlobals(f, init, written, addrTaken)
					}
				}
			}
		}
	}
	var walk func(b *ssa.BasicBlock)
	vals := map[ssa.Value]Value{}
	_ = walk
	fr := &frame{fn: init, regs: vals, stack: "init"}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				g, ok := x.Addr.(*ssa.Global)
				if !ok || written[g] > 0 || addrTaken[g] {
					continue
				}
				t := g.Type().(*types.Pointer).Elem()
				if !typeIsScalar(t) {
					continue
				}
				if _, isB := t.Underlying().(*types.Basic); !isB {
					continue
				}
				v := constEval(ex, st, fr, x.Val, 0)
				if v != nil {
					st.Set(ex.global(g), nil, v)
				}
			}
		}
	}
	// variables never assigned at all keep their zero value
}

func constEval(ex *Engine, st *State, fr *frame, v ssa.Value, d int) Value {
	if d > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.BinOp:
		a, b := constEval(ex, st, fr, x.X, d+1), constEval(ex, st, fr, x.Y, d+1)
		if a == nil || b == nil {
			return nil
		}
		r := ex.binop(st, x.Op, a, b, x.Type(), x.X.Type())
		switch r.(type) {
		case *Const, *Lin:
			return r
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			if os := st.at(ex.global(g).ID); os != nil {
				if l, ok := os.leaves[""]; ok {
					return l.val
				}
			}
		}
		if x.Op.String() == "-" {
			if a, ok := constEval(ex, st, fr, x.X, d+1).(*Lin); ok {
				return linScale(a, -1)
			}
		}
	case *ssa.Convert:
		if a := constEval(ex, st, fr, x.X, d+1); a != nil {
			return ex.convert(st, a, x.X.Type(), x.Type())
		}
	case *ssa.ChangeType:
		return constEval(ex, st, fr, x.X, d+1)
	}
	return nil
}

func scanGlobals(f, init *ssa.Function, written map[ssa.Value]int, addr map[ssa.Value]bool) {
	if f == nil || f == init {
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					written[g]++
				}
				if g, ok := s.Val.(*ssa.Global); ok {
					addr[g] = true
				}
				continue
			}
			if u, ok := in.(*ssa.UnOp); ok {
				if _, ok := u.X.(*ssa.Global); ok {
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					addr[g] = true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		scanGlobals(a, init, written, addr)
	}
}

// classConsts enumerates the package-level constants of type tn.
func classConsts(pk *types.Package, tn string) map[string]int64 {
	r := map[string]int64{}
	sc := pk.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		nm, ok := c.Type().(*types.Named)
		if !ok || nm.Obj().Name() != tn {
			continue
		}
		if v, ok := constant.Int64Val(c.Val()); ok {
			r[n] = v
		}
	}
	return r
}

func newBreakerModel(p *Prog, pkg, ctor, classType string) *breakerModel {
	m := &breakerModel{p: p, pkg: pkg, starts: map[int64][]startOut{}, steps: map[string][]stepOut{},
		initEnv: map[string]int64{}, initB: map[string]bool{}, fieldTyp: map[string]types.Type{}, procs: map[int][]Outcome{},
		procUpd: map[int][][]fieldUpd{}, procSym: map[int]*Obj{}, fns: map[string]*ssa.Function{}, mapObjs: map[string]bool{}}
	m.ctor = p.Func(pkg, ctor)
	if m.ctor == nil {
		tcPanic("constructor %s.%s not found", pkg, ctor)
	}
	rt := m.ctor.Signature.Results().At(0).Type()
	pt, ok := rt.(*types.Pointer)
	if !ok {
		tcPanic("constructor %s does not return a pointer", ctor)
	}
	m.gbT = pt.Elem()
	m.mStart = p.Method(m.gbT, "StartRulesFor")
	m.mProceed = p.Method(m.gbT, "ProceedWithRune")
	m.mLongest = p.Method(m.gbT, "LongestActiveMatch")
	m.mPen = p.Method(m.gbT, "Penalties")
	m.runeEv = p.Func("", "Recognizer.RuneEvent")
	if m.mStart == nil || m.mProceed == nil || m.mLongest == nil || m.mPen == nil || m.runeEv == nil {
		tcPanic("breaker methods not found")
	}
	m.recT = m.runeEv.Signature.Recv().Type().(*types.Pointer).Elem()
	m.classes = classConsts(p.Pkgs[pkg].Types, classType)
	m.names = map[int64]string{}
	for n, v := range m.classes {
		m.names[v] = n
	}
	ex := NewEngine(p.SSA)
	m.ex = ex
	ex.Hooks["(*github.com/jolestar/go-commons-pool.ObjectPool).BorrowObject"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
		o := ex.NewObj("rec", m.recT, false)
		return []Outcome{{St: st, Ret: []Value{&IfaceV{Dyn: types.NewPointer(m.recT), V: &Ptr{O: o}}, &Nil{}}}}
	}
	sub := func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
		st.Emit(Event{Kind: "subscribe", Args: args, Instr: site})
		return []Outcome{{St: st, Ret: []Value{args[0]}}}
	}
	ex.Hooks["(*"+modPath+".DefaultRunePublisher).SubscribeMe"] = sub
	ex.Hooks["invoke:uax.RunePublisher.SubscribeMe"] = sub
	// class tables and their set-up are the business of other rules
	ex.Hooks[modPath+"/emoji.SetupEmojisClasses"] = noop
	ex.Hooks[modPath+"/grapheme.SetupGraphemeClasses"] = noop
	ex.Hooks[modPath+"/uax29.SetupUAX29Classes"] = noop
	st := ex.NewState()
	interpInits(p, ex, st, "", pkg)
	outs, err := ex.Run(m.ctor, []Value{linConst(1)}, st)
	if err != nil {
		tcPanic("%v", err)
	}
	var ok2 bool
	for _, o := range outs {
		if !o.Returns() {
			continue
		}
		gp, isP := o.Ret[0].(*Ptr)
		if !isP {
			tcPanic("constructor result is not a new object")
		}
		if ok2 {
			// several paths: must agree on the breaker
			if m.gb.T != gp.O.T {
				tcPanic("constructor paths differ")
			}
			if k1, k2 := gbKey(m.base, m.gb), gbKey(o.St, gp.O); k1 != k2 {
				tcPanic("constructor has paths with different rule sets")
			}
			continue
		}
		m.base, m.gb, ok2 = o.St, gp.O, true
	}
	if !ok2 {
		tcPanic("constructor never returns")
	}
	m.base.trace = nil
	m.base.le, m.base.eq, m.base.ne = nil, nil, nil
	m.base.bf, m.base.bfv = map[string]bool{}, map[string]Value{}
	m.symbolise()
	return m
}

func noop(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
	return []Outcome{{St: st, Ret: resultsOf(site.Common(), func(i int, t types.Type) Value { return ex.Zero(t) })}}
}

// gbKey renders the content of the breaker object (maps included).
func gbKey(st *State, o *Obj) string {
	v := st.Load(o, nil)
	return deepKey(st, v, 0)
}
func deepKey(st *State, v Value, d int) string {
	if d > 5 {
		return "…"
	}
	switch x := v.(type) {
	case *StructV:
		var r []string
		for _, f := range x.F {
			r = append(r, deepKey(st, f, d+1))
		}
		return "{" + strings.Join(r, ",") + "}"
	case *Ptr:
		if x.O.Map {
			var r []string
			for k, l := range st.obj(x.O).leaves {
				r = append(r, k+":"+deepKey(st, l.val.(*mapEntry).V, d+1))
			}
			sort.Strings(r)
			return "map{" + strings.Join(r, ",") + "}"
		}
		if x.O.T != nil && !x.O.Sym {
			return "&" + deepKey(st, st.Load(x.O, x.Path), d+1)
		}
	case *IfaceV:
		return "i:" + deepKey(st, x.V, d+1)
	case *SliceV:
		if n, ok := x.Len.Const(); ok && n < 100 {
			var r []string
			for i := int64(0); i < n; i++ {
				r = append(r, deepKey(st, st.Load(x.O, appendPE(x.Path, pe{Field: -1, Idx: linAdd(x.Off, linConst(i), 1)})), d+1))
			}
			return "[" + strings.Join(r, ",") + "]"
		}
	}
	return v.Key()
}

// symbolise replaces the mutable scalar fields of the breaker by symbols and
// remembers their initial values.
func (m *breakerModel) symbolise() {
	su := m.gbT.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		name := "gb." + f.Name()
		p := []pe{{Field: i}}
		v := m.base.Load(m.gb, p)
		switch {
		case isInt(f.Type()):
			k, ok := asInt(v)
			if !ok {
				tcPanic("initial value of %s is not constant: %s", name, v.Key())
			}
			m.initEnv[name] = k
			m.base.Set(m.gb, p, linSym(name))
			m.scalar = append(m.scalar, name)
		case isBool(f.Type()):
			b, ok := asBool(v)
			if !ok {
				tcPanic("initial value of %s is not constant", name)
			}
			m.initB[name] = b
			m.base.Set(m.gb, p, &Sym{name, f.Type()})
			m.scalar = append(m.scalar, name)
		}
		if mt, ok := f.Type().Underlying().(*types.Map); ok {
			if mp, ok := v.(*Ptr); ok && mp.O.Map && (isBool(mt.Elem()) || isInt(mt.Elem())) {
				// a map of flags: symbolic per key
				os := m.base.wobj(mp.O)
				for _, l := range os.leaves {
					me := l.val.(*mapEntry)
					if b, ok := asBool(me.V); ok {
						m.initB[name+"["+me.K.Key()+"]"] = b
					}
					if k, ok := asInt(me.V); ok {
						m.initEnv[name+"["+me.K.Key()+"]"] = k
					}
				}
				os.leaves = map[string]leaf{}
				os.closed = false
				for cn, c := range m.classes {
					_ = cn
					k := linConst(c)
					n := name + "[" + k.Key() + "]"
					os.leaves[k.Key()] = leaf{nil, &mapEntry{k, m.ex.SymOf(n, mt.Elem()), &Sym{"has:" + n, types.Typ[types.Bool]}}}
					if isBool(mt.Elem()) {
						if _, ok := m.initB[n]; !ok {
							m.initB[n] = false
						}
						m.initB["has:"+n] = false
					} else if _, ok := m.initEnv[n]; !ok {
						m.initEnv[n] = 0
					}
				}
				m.mapObjs[name] = true
			}
		}
	}
}

// updates reads the changes of the breaker's scalar state in st.
func (m *breakerModel) updates(st *State) []fieldUpd {
	var r []fieldUpd
	su := m.gbT.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		name := "gb." + f.Name()
		v := st.Load(m.gb, []pe{{Field: i}})
		if _, ok := m.initEnv[name]; ok && v.Key() != "("+name+")" {
			r = append(r, fieldUpd{name, v})
		}
		if _, ok := m.initB[name]; ok && v.Key() != name {
			r = append(r, fieldUpd{name, v})
		}
		if m.mapObjs[name] {
			mp, ok := v.(*Ptr)
			if !ok || !mp.O.Map {
				tcPanic("%s is replaced", name)
			}
			os := st.obj(mp.O)
			if os.epoch > 0 {
				tcPanic("%s is written with unknown keys", name)
			}
			for k, l := range os.leaves {
				me := l.val.(*mapEntry)
				n := name + "[" + k + "]"
				if !isConstKey(me.K) {
					tcPanic("%s is written with a key that is not a class constant: %s", name, k)
				}
				if me.V.Key() != n && me.V.Key() != "("+n+")" {
					r = append(r, fieldUpd{n, me.V})
				}
				if me.Ok != nil {
					if b, isc := asBool(me.Ok); isc {
						r = append(r, fieldUpd{"has:" + n, boolConst(b)})
					}
				}
			}
		}
	}
	return r
}

// Start gives the recognizers started for class c.
func (m *breakerModel) Start(c int64) []startOut {
	if r, ok := m.starts[c]; ok {
		return r
	}
	st := m.base.Clone()
	outs, err := m.ex.Run(m.mStart, []Value{&Ptr{O: m.gb}, linSym("rune"), linConst(c)}, st)
	if err != nil {
		tcPanic("StartRulesFor(%s): %v", m.names[c], err)
	}
	var res []startOut
	for _, o := range outs {
		if !o.Returns() {
			tcPanic("StartRulesFor(%s) does not always return", m.names[c])
		}
		so := startOut{st: o.St, upd: m.updates(o.St)}
		for _, ev := range o.St.Events() {
			switch ev.Kind {
			case "subscribe":
				rv := ev.Args[len(ev.Args)-1]
				if iv, ok := rv.(*IfaceV); ok {
					rv = iv.V
				}
				rp, ok := rv.(*Ptr)
				if !ok || !types.Identical(rp.O.T, m.recT) {
					tcPanic("StartRulesFor(%s) subscribes something that is not a Recognizer", m.names[c])
				}
				rs := recSpec{}
				fv := m.recField(o.St, rp.O, "nextStep")
				f, ok := fv.(*FuncV)
				if !ok {
					tcPanic("recognizer for %s starts with unknown function %s", m.names[c], fv.Key())
				}
				rs.fn = f.Fn
				m.fns[f.Fn.String()] = f.Fn
				rs.m = m.recField(o.St, rp.O, "MatchLen")
				rs.e = m.recField(o.St, rp.O, "Expect")
				ud := m.recField(o.St, rp.O, "UserData")
				if iv, ok := ud.(*IfaceV); ok {
					if up, ok := iv.V.(*Ptr); !ok || up.O != m.gb {
						tcPanic("recognizer user data is not the breaker")
					}
				} else {
					rs.extraE = ud // nil: rules must not use it
				}
				so.recs = append(so.recs, rs)
			}
		}
		res = append(res, so)
	}
	m.starts[c] = res
	return res
}

func fieldIdx(t types.Type, name string) int {
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (m *breakerModel) recField(st *State, o *Obj, name string) Value {
	i := fieldIdx(m.recT, name)
	if i < 0 {
		tcPanic("Recognizer has no field %s", name)
	}
	return st.Load(o, []pe{{Field: i}})
}

// Step gives the effect of delivering class c to a recognizer in state fn.
func (m *breakerModel) Step(fn *ssa.Function, c int64, hasGB bool) []stepOut {
	k := fmt.Sprintf("%s/%d/%v", fn.String(), c, hasGB)
	if r, ok := m.steps[k]; ok {
		return r
	}
	st := m.base.Clone()
	o := m.ex.NewObj("rec", m.recT, false)
	setF := func(n string, v Value) { st.Set(o, []pe{{Field: fieldIdx(m.recT, n)}}, v) }
	setF("MatchLen", linSym("m"))
	setF("Expect", linSym("e"))
	setF("nextStep", &FuncV{Fn: fn})
	if hasGB {
		setF("UserData", &IfaceV{Dyn: types.NewPointer(m.gbT), V: &Ptr{O: m.gb}})
	}
	st.assume(le0(linScale(linSym("m"), -1)), true)
	outs, err := m.ex.Run(m.runeEv, []Value{&Ptr{O: o}, linSym("rune"), linConst(c)}, st)
	if err != nil {
		tcPanic("rule %s on %s: %v", fn.Name(), m.names[c], err)
	}
	var res []stepOut
	for _, oc := range outs {
		if !oc.Returns() {
			tcPanic("rule %s on %s has a path that panics or loops", fn.Name(), m.names[c])
		}
		so := stepOut{st: oc.St, m: m.recField(oc.St, o, "MatchLen"), e: m.recField(oc.St, o, "Expect"), pen: oc.Ret[0], upd: m.updates(oc.St)}
		switch nv := m.recField(oc.St, o, "nextStep").(type) {
		case *Nil:
		case *FuncV:
			so.next = nv.Fn
			m.fns[nv.Fn.String()] = nv.Fn
		default:
			tcPanic("rule %s on %s continues with an unknown function", fn.Name(), m.names[c])
		}
		if ud, ok := m.recField(oc.St, o, "UserData").(*IfaceV); hasGB && (!ok || ud.V.Key() != (&Ptr{O: m.gb}).Key()) {
			tcPanic("rule %s changes UserData", fn.Name())
		}
		res = append(res, so)
	}
	m.steps[k] = res
	return res
}

// Proceed: outcome table of ProceedWithRune for a published penalty slice of
// the given length with symbolic elements.
func (m *breakerModel) proceed(n int, c int64) ([]Outcome, [][]fieldUpd) {
	key := n*100000 + int(c)
	if r, ok := m.procs[key]; ok {
		return r, m.procUpd[key]
	}
	st := m.base.Clone()
	arr := m.ex.NewArr("pub", types.Typ[types.Int], true)
	sl := &SliceV{O: arr, Off: linConst(0), Len: linConst(int64(n)), Cap: linSym("cap(pub)"), T: types.NewSlice(types.Typ[types.Int])}
	pub := func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
		st.Emit(Event{Kind: "publish", Args: args, Instr: site})
		return []Outcome{{St: st, Ret: []Value{linSym("longest"), sl}}}
	}
	m.ex.Hooks["(*"+modPath+".DefaultRunePublisher).PublishRuneEvent"] = pub
	m.ex.Hooks["invoke:uax.RunePublisher.PublishRuneEvent"] = pub
	outs, err := m.ex.Run(m.mProceed, []Value{&Ptr{O: m.gb}, linSym("rune"), linConst(c)}, st)
	if err != nil {
		tcPanic("ProceedWithRune: %v", err)
	}
	var us [][]fieldUpd
	for _, o := range outs {
		if !o.Returns() {
			tcPanic("ProceedWithRune(%s) has a path that panics", m.names[c])
		}
		np := 0
		for _, ev := range o.St.Events() {
			if ev.Kind == "publish" {
				np++
				if ev.Args[2].Key() != linConst(c).Key() || ev.Args[1].Key() != linSym("rune").Key() {
					tcPanic("ProceedWithRune(%s) publishes %s/%s instead of the rune it received", m.names[c], ev.Args[1].Key(), ev.Args[2].Key())
				}
			}
		}
		if np != 1 {
			tcPanic("ProceedWithRune(%s) publishes the rune %d times", m.names[c], np)
		}
		us = append(us, m.updates(o.St))
	}
	m.procs[key], m.procUpd[key] = outs, us
	return outs, us
}

func constOf(pk *types.Package, name string) (int64, bool) {
	c, ok := pk.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}
