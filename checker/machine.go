package main

// Exploration of a reactive program as a finite machine: the program is
// interpreted up to a point where it asks its environment for input. There
// the continuation (frames and abstract state) is identified by a canonical
// key, and is explored for every input only if no continuation with the same
// key has been explored. The keys abstract from positions, from dead values
// and from whatever the analysis of a program chooses to forget.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- liveness ---------------------------------------------------------------

type liveInfo struct {
	out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func liveness(fn *ssa.Function) *liveInfo {
	li := &liveInfo{out: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		li.out[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			in := li.before(b, 0)
			for j, p := range b.Preds {
				o := li.out[p]
				for v := range in {
					if !o[v] {
						o[v] = true
						ch = true
					}
				}
				for _, i := range b.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					if v := phi.Edges[j]; isReg(v) && !o[v] {
						o[v] = true
						ch = true
					}
				}
			}
		}
	}
	return li
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

// before lists the values live before instruction i of b.
func (li *liveInfo) before(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for v := range li.out[b] {
		l[v] = true
	}
	for k := len(b.Instrs) - 1; k >= i; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(l, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && isReg(*op) {
				l[*op] = true
			}
		}
	}
	return l
}

// exposed lists the values which may be used after instruction i of b, given
// the constants held by the registers.
func (m *Machine) exposed(fr *frame, b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	use := func(v ssa.Value) {
		if isReg(v) {
			live[v] = true
		}
	}
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					use(*op)
				}
			}
		}
		succ := b.Succs
		if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if k, ok := fr.regs[c.Cond]; ok && c.Cond.(ssa.Instruction).Block() != b {
				if t, ok := asBool(k); ok {
					if t {
						succ = succ[:1]
					} else {
						succ = succ[1:]
					}
				}
			}
		}
		for _, s := range succ {
			for j, p := range s.Preds {
				if p != b {
					continue
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					use(phi.Edges[j])
				}
			}
			if _, ok := s.Instrs[0].(*ssa.Phi); ok || len(s.Preds) > 1 {
				// the constants may change from here on
				for v := range m.liveAt(fr.fn, s, 0) {
					use(v)
				}
				continue
			}
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	walk(b, i)
	all := m.liveAt(fr.fn, b, i)
	for v := range live {
		if !all[v] {
			delete(live, v)
		}
	}
	return live
}

// ---- continuations --------------------------------------------------------------

type cont struct {
	fr  *frame
	st  *State
	blk *ssa.BasicBlock
	i   int       // instruction which asked for input
	reg ssa.Value // receives the input
	pt  string    // kind of the interaction point
}

func cloneChain(fr *frame) *frame {
	if fr == nil {
		return nil
	}
	n := fr.clone()
	n.parent = cloneChain(fr.parent)
	return n
}

// Machine explores a program from a root call.
type Machine struct {
	p       *Prog
	mu      sync.Mutex
	cond    *sync.Cond
	visited map[string]bool
	queue   []*cont
	busy    int
	engines []*Engine
	live    map[*ssa.Function]*liveInfo
	limit   int
	over    bool
	stop    atomic.Bool
	late    time.Time
	err     error
	States  int
	Trans   int

	Key   func(m *Machine, ex *Engine, c *cont) (string, bool)                // canonical key; false: forget this path
	Input func(m *Machine, ex *Engine, c *cont) []func(c *cont) (Value, bool) // the environment's moves; false: retry the instruction
	Final func(m *Machine, ex *Engine, o Outcome)
	Setup func(m *Machine, ex *Engine)

	// Deadlock is called for programs of two threads if one of them cannot go on.
	Deadlock func(m *Machine, st *State, what, pos string)
}

func (m *Machine) liveAt(fn *ssa.Function, b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	m.mu.Lock()
	li := m.live[fn]
	m.mu.Unlock()
	if li == nil {
		li = liveness(fn)
		m.mu.Lock()
		m.live[fn] = li
		m.mu.Unlock()
	}
	return li.before(b, i)
}

// Suspend is called by the hooks at an interaction point.
func (m *Machine) Suspend(ex *Engine, fr *frame, st *State, blk *ssa.BasicBlock, i int, reg ssa.Value, pt string) []Outcome {
	c := &cont{fr: cloneChain(fr), st: st.Clone(), blk: blk, i: i, reg: reg, pt: pt}
	c.st.trace = nil
	if co := c.st.Co; co != nil {
		n := *co
		n.fr = cloneChain(co.fr)
		c.st.Co = &n
	}
	if len(c.st.base) == 0 {
		c.st.Freeze()
	}
	m.prune(c)
	key, ok := m.Key(m, ex, c)
	if !ok {
		return []Outcome{}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.visited[key] {
		return []Outcome{}
	}
	m.visited[key] = true
	m.States++
	if m.States%5000 == 0 && os.Getenv("VP_DEBUG") != "" {
		fmt.Println("states", m.States, "queue", len(m.queue), "transitions", m.Trans)
	}
	if os.Getenv("VP_STATES") != "" {
		fmt.Println("STATE", key)
	}
	if m.States > m.limit {
		m.over = true
		return []Outcome{}
	}
	m.queue = append(m.queue, c)
	m.cond.Signal()
	return []Outcome{}
}

// prune forgets dead registers and objects which cannot be reached.
func (m *Machine) prune(c *cont) {
	seen := map[int]bool{}
	var visit func(v Value)
	obj := func(o *Obj) {
		if seen[o.ID] {
			return
		}
		seen[o.ID] = true
		if os := c.st.heap[o.ID]; os != nil {
			for _, l := range os.leaves {
				visit(l.val)
				for _, p := range l.path {
					if p.Idx != nil {
						visit(p.Idx)
					}
				}
			}
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case *Ptr:
			obj(x.O)
		case *SliceV:
			obj(x.O)
		case *StructV:
			for _, f := range x.F {
				visit(f)
			}
		case *ArrayV:
			for _, f := range x.E {
				visit(f)
			}
		case *TupleV:
			for _, f := range x.E {
				visit(f)
			}
		case *FuncV:
			for _, f := range x.Bind {
				visit(f)
			}
		case *IfaceV:
			visit(x.V)
		case *Term:
			for _, f := range x.Args {
				visit(f)
			}
		}
	}
	chain := func(fr *frame, blk *ssa.BasicBlock, i int) {
		for ; fr != nil; fr = fr.parent {
			live := m.exposed(fr, blk, i)
			for v, r := range fr.regs {
				if !live[v] {
					delete(fr.regs, v)
					continue
				}
				visit(r)
			}
			for _, d := range fr.defers {
				visit(d.fn)
				for _, a := range d.args {
					visit(a)
				}
			}
			if fr.parent != nil {
				blk, i = fr.parent.curBlk, fr.parent.curI
			}
		}
	}
	chain(c.fr, c.blk, c.i)
	if co := c.st.Co; co != nil {
		chain(co.fr, co.blk, co.i)
		if co.fn != nil {
			visit(co.fn)
		}
		for _, a := range co.args {
			visit(a)
		}
	}
	for id := range c.st.heap {
		if _, ok := c.st.base[id]; ok {
			seen[id] = false
		}
	}
	for id, os := range c.st.heap {
		if _, ok := c.st.base[id]; ok && os != nil {
			for _, l := range os.leaves {
				visit(l.val)
			}
		}
	}
	for id := range c.st.heap {
		if _, ok := c.st.base[id]; !ok && !seen[id] {
			delete(c.st.heap, id)
		}
	}
}

// run continues c with the given input.
func (m *Machine) run(ex *Engine, c *cont, mv func(c *cont) (Value, bool)) {
	n := &cont{fr: cloneChain(c.fr), st: c.st.Clone(), blk: c.blk, i: c.i, reg: c.reg, pt: c.pt}
	n.st.ex = ex
	ex.outs0, ex.steps0 = ex.outs, ex.steps
	v, adv := mv(n)
	i := n.i
	if adv {
		i++
		if n.reg != nil && v != nil {
			n.fr.regs[n.reg] = v
		}
	}
	for _, o := range m.unwind(ex, n.fr, n.st, n.blk, i) {
		m.threadEnd(ex, o)
	}
}

// unwind continues a call stack.
func (m *Machine) unwind(ex *Engine, fr *frame, st *State, blk *ssa.BasicBlock, i int) []Outcome {
	outs := ex.instrs(fr, st, blk, i)
	for fr.parent != nil {
		site := fr.site
		p := fr.parent
		outs = ex.resume(p, outs, p.curBlk, p.curI, callReg(site))
		fr = p
	}
	return outs
}

// ---- two threads with an unbuffered channel between them --------------------------

// coro is a thread which waits: for its start, for a value, or, after having
// sent a value, for its turn.
type coro struct {
	id   int
	fr   *frame
	blk  *ssa.BasicBlock
	i    int
	reg  *ssa.UnOp // receives
	fn   Value     // to be started
	args []Value
}

// threads sets the hooks for a program of two threads.
func (m *Machine) threads(ex *Engine) {
	ex.OnGo = func(fr *frame, st *State, x *ssa.Go, f Value, args []Value) {
		if st.Co != nil || st.Cur != 0 {
			panic(tooComplex{"more than one goroutine is started, at " + m.p.Pos(x.Pos())})
		}
		st.Co = &coro{id: 1, fn: f, args: args}
	}
	ex.OnRecv = func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.UnOp) []Outcome {
		other := st.Co
		if st.Shut {
			return []Outcome{{St: st, Ret: []Value{recvValue(ex, x, nil)}}}
		}
		if other == nil {
			m.Deadlock(m, st, "nobody sends", m.p.Pos(x.Pos()))
			return []Outcome{}
		}
		if other.reg != nil {
			m.Deadlock(m, st, "both sides receive", m.p.Pos(x.Pos()))
			return []Outcome{}
		}
		st.Co = &coro{id: st.Cur, fr: cloneChain(fr), blk: blk, i: i, reg: x}
		m.runCoro(ex, other, st, nil)
		return []Outcome{}
	}
	ex.OnSend = func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.Send, v Value) []Outcome {
		other := st.Co
		if other == nil || other.reg == nil {
			m.Deadlock(m, st, "a value is sent which nobody receives: the goroutine never ends", m.p.Pos(x.Pos()))
			return []Outcome{}
		}
		st.Co = &coro{id: st.Cur, fr: cloneChain(fr), blk: blk, i: i}
		m.runCoro(ex, other, st, v)
		return []Outcome{}
	}
	ex.OnClose = func(st *State, site ssa.CallInstruction, ch Value) {
		st.Shut = true
	}
}

func recvValue(ex *Engine, x *ssa.UnOp, v Value) Value {
	ok := v != nil
	if x.CommaOk {
		t := x.Type().(*types.Tuple)
		if v == nil {
			v = ex.Zero(t.At(0).Type())
		}
		return &TupleV{[]Value{v, boolConst(ok)}}
	}
	if v == nil {
		v = ex.Zero(x.Type())
	}
	return v
}

func (m *Machine) runCoro(ex *Engine, co *coro, st *State, v Value) {
	st.Cur = co.id
	var outs []Outcome
	if co.fn != nil {
		f, ok := co.fn.(*FuncV)
		if !ok {
			panic(tooComplex{"an unknown function is started as goroutine"})
		}
		outs = ex.Apply(nil, st, nil, f, co.args)
	} else {
		fr := cloneChain(co.fr)
		if co.reg != nil {
			fr.regs[co.reg] = recvValue(ex, co.reg, v)
		}
		outs = m.unwind(ex, fr, st, co.blk, co.i+1)
	}
	for _, o := range outs {
		m.threadEnd(ex, o)
	}
}

// threadEnd: the running thread has come to its end.
func (m *Machine) threadEnd(ex *Engine, o Outcome) {
	st := o.St
	if m.Deadlock == nil || !o.Returns() {
		m.Final(m, ex, o)
		return
	}
	if st.Cur == 0 {
		rest := st.Clone()
		m.Final(m, ex, o)
		if co := rest.Co; co != nil { // the goroutine has to end, too
			rest.Co = nil
			if co.id == 1 {
				m.runCoro(ex, co, rest, nil)
			}
		}
		return
	}
	if co := st.Co; co != nil { // the main thread is waiting
		st.Co = nil
		if co.reg != nil && !st.Shut {
			m.Deadlock(m, st, "the goroutine has ended, but the resolver waits for it", m.p.Pos(co.reg.Pos()))
			return
		}
		m.runCoro(ex, &coro{id: co.id, fr: co.fr, blk: co.blk, i: co.i, reg: co.reg}, st, nil)
	}
}

func callReg(s ssa.CallInstruction) ssa.Value {
	if c, ok := s.(*ssa.Call); ok {
		return c
	}
	return nil
}

func (m *Machine) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			m.mu.Lock()
			defer m.mu.Unlock()
			if m.err == nil {
				switch x := r.(type) {
				case tooComplex:
					m.err = fmt.Errorf("%s", x.msg)
				case restartHavoc:
					m.err = fmt.Errorf("loop not decided by constants in %s", x.header.Parent())
				default:
					if os.Getenv("VP_DEBUG") != "" {
						panic(r)
					}
					m.err = fmt.Errorf("%v", r)
				}
			}
		}
	}()
	f()
}

// Stop ends the exploration.
func (m *Machine) Stop() { m.stop.Store(true) }

// Stopped tells if the exploration is to end.
func (m *Machine) Stopped() bool {
	return m.stop.Load() || !m.late.IsZero() && time.Now().After(m.late)
}

// Over says why the exploration ended early.
func (m *Machine) Over() string {
	if m.States > m.limit {
		return fmt.Sprintf("more than %d states", m.limit)
	}
	return "the exploration takes too long"
}

// Explore runs the root and then all continuations, on several engines.
func (m *Machine) Explore(ex0 *Engine, roots []func(ex *Engine) []Outcome, workers int) {
	m.cond = sync.NewCond(&m.mu)
	if m.visited == nil {
		m.visited = map[string]bool{}
	}
	if m.live == nil {
		m.live = map[*ssa.Function]*liveInfo{}
	}
	if os.Getenv("VERIF_TIER") != "thorough" {
		m.late = time.Now().Add(600 * time.Second)
	}
	defer debug.SetGCPercent(debug.SetGCPercent(400))
	m.Setup(m, ex0)
	for _, r := range roots {
		m.guard(func() {
			ex0.outs0, ex0.steps0 = ex0.outs, ex0.steps
			for _, o := range r(ex0) {
				m.threadEnd(ex0, o)
			}
		})
	}
	m.engines = []*Engine{ex0}
	for w := 1; w < workers; w++ {
		m.engines = append(m.engines, ex0.fork(w))
	}
	noKeyCache = true
	defer func() { noKeyCache = false }()
	var wg sync.WaitGroup
	for w := range m.engines {
		ex := m.engines[w]
		if w > 0 {
			m.Setup(m, ex)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				m.mu.Lock()
				for len(m.queue) == 0 && m.busy > 0 {
					m.cond.Wait()
				}
				if !m.late.IsZero() && time.Now().After(m.late) {
					m.over = true
				}
				if len(m.queue) == 0 || m.over || m.err != nil || m.stop.Load() {
					m.cond.Broadcast()
					m.mu.Unlock()
					return
				}
				c := m.queue[0]
				m.queue = m.queue[1:]
				m.busy++
				m.mu.Unlock()
				var mvs []func(c *cont) (Value, bool)
				m.guard(func() { mvs = m.Input(m, ex, c) })
				for _, mv := range mvs {
					if m.Stopped() {
						break
					}
					m.guard(func() { m.run(ex, c, mv) })
				}
				m.mu.Lock()
				m.Trans += len(mvs)
				m.busy--
				if m.busy == 0 {
					m.cond.Broadcast()
				}
				m.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

// fork makes an independent engine which may continue states of ex.
func (ex *Engine) fork(w int) *Engine {
	n := *ex
	n.nobj = ex.nobj + w*100000000
	n.nonneg = map[string]bool{}
	for k, v := range ex.nonneg {
		n.nonneg[k] = v
	}
	n.symTerm = map[string]*Term{}
	for k, v := range ex.symTerm {
		n.symTerm[k] = v
	}
	n.globals = map[ssa.Value]*Obj{}
	for k, v := range ex.globals {
		n.globals[k] = v
	}
	n.symObjs = map[string]*Obj{}
	for k, v := range ex.symObjs {
		n.symObjs[k] = v
	}
	n.loops = map[*ssa.Function]*loopInfo{}
	n.Inlined = map[string]bool{}
	n.nepoch = ex.nepoch + w*100000000
	n.names = nil
	n.steps, n.outs, n.steps0, n.outs0 = 0, 0, 0, 0
	return &n
}

// Report the work of all engines.
func (m *Machine) Report(r *Report) {
	for _, e := range m.engines {
		r.Engine(e)
	}
	r.N("states", m.States)
	r.N("transitions", m.Trans)
}

// ---- canonical keys ---------------------------------------------------------------

type tok struct {
	s   string
	pos int64
	is  bool
}

// canon prints values and the heap reachable from them.
type canon struct {
	m      *Machine
	st     *State
	out    []tok
	seen   map[int]int
	todo   []*Obj
	sliced map[int]bool // arrays printed as slices: what is beyond the slice is dead
	// Special prints a value in its own way.
	Special func(c *canon, v Value, t types.Type) bool
	Skip    func(t types.Type, field string) bool
}

func (c *canon) w(s string) { c.out = append(c.out, tok{s: s}) }

func (c *canon) val(v Value, t types.Type) {
	if c.Special != nil && c.Special(c, v, t) {
		return
	}
	switch x := v.(type) {
	case *Ptr:
		c.w("&")
		c.obj(x.O)
		c.w(pathKey(x.Path))
	case *SliceV:
		var et types.Type
		if t != nil {
			if st, ok := t.Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		off, ok1 := x.Off.Const()
		n, ok2 := x.Len.Const()
		if et == nil || !ok1 || !ok2 || n > 4096 {
			c.w("slice")
			c.obj(x.O)
			return
		}
		if c.sliced == nil {
			c.sliced = map[int]bool{}
		}
		c.sliced[x.O.ID] = true
		c.w("[")
		for i := int64(0); i < n; i++ {
			c.val(c.st.Load(x.O, appendPE(x.Path, pe{Field: -1, Idx: linConst(off + i)})), et)
			c.w(",")
		}
		c.w("]")
	case *StructV:
		u, ok := x.T.Underlying().(*types.Struct)
		c.w("{")
		for i, f := range x.F {
			if !ok {
				c.val(f, nil)
				continue
			}
			if c.Skip != nil && c.Skip(x.T, u.Field(i).Name()) {
				continue
			}
			c.val(f, u.Field(i).Type())
			c.w(",")
		}
		c.w("}")
	case *ArrayV:
		c.w("<")
		for _, f := range x.E {
			var et types.Type
			if a, ok := x.T.Underlying().(*types.Array); ok {
				et = a.Elem()
			}
			c.val(f, et)
			c.w(",")
		}
		c.w(">")
	case *FuncV:
		c.w("f:" + x.Fn.String())
		for i, b := range x.Bind {
			c.w("|")
			c.val(b, x.Fn.FreeVars[i].Type())
		}
	case *IfaceV:
		c.w("i:")
		c.val(x.V, x.Dyn)
	case *TupleV:
		tt, _ := t.(*types.Tuple)
		c.w("(")
		for i, e := range x.E {
			var et types.Type
			if tt != nil && i < tt.Len() {
				et = tt.At(i).Type()
			}
			c.val(e, et)
			c.w(",")
		}
		c.w(")")
	case nil:
		c.w("?")
	default:
		c.w(v.Key())
	}
}

func (c *canon) obj(o *Obj) {
	if os, ok := c.st.base[o.ID]; ok && c.st.at(o.ID) == os {
		c.w("=" + strconv.Itoa(o.ID))
		return
	}
	n, ok := c.seen[o.ID]
	if !ok {
		n = len(c.seen) + 1
		c.seen[o.ID] = n
		c.todo = append(c.todo, o)
	}
	c.w("#" + strconv.Itoa(n))
}

func (c *canon) heap() {
	// changed objects of the root state
	var ids []int
	for id, os := range c.st.heap {
		if b, ok := c.st.base[id]; ok && b != os {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for len(c.todo) > 0 {
		o := c.todo[0]
		c.todo = c.todo[1:]
		c.w("\n#" + strconv.Itoa(c.seen[o.ID]) + ":")
		if o.Sym && c.st.at(o.ID) == nil {
			c.w(o.Name)
			continue
		}
		if o.Map || o.Chan {
			os := c.st.at(o.ID)
			if os != nil {
				ks := sortedKeys(os.leaves)
				for _, k := range ks {
					c.w(k + "=" + os.leaves[k].val.Key() + ";")
				}
			}
			continue
		}
		if o.Arr {
			os := c.st.at(o.ID)
			if os == nil {
				continue
			}
			for _, k := range sortedKeys(os.leaves) {
				l := os.leaves[k]
				c.w(k + "=")
				c.val(l.val, typeAt(o, l.path))
				c.w(";")
			}
			continue
		}
		c.val(c.st.Load(o, nil), o.T)
	}
	for _, id := range ids {
		if _, ok := c.seen[id]; ok || c.sliced[id] {
			continue
		}
		c.w("\n~" + strconv.Itoa(id) + ":")
		os := c.st.at(id)
		if os == nil {
			continue
		}
		for _, k := range sortedKeys(os.leaves) {
			c.w(k + "=")
			c.val(os.leaves[k].val, nil)
			c.w(";")
		}
	}
}

// String renumbers the positions by rank.
func (c *canon) String() string {
	m := map[int64]int{}
	var ps []int64
	for _, t := range c.out {
		if t.is {
			if _, ok := m[t.pos]; !ok {
				m[t.pos] = 0
				ps = append(ps, t.pos)
			}
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	for i, p := range ps {
		m[p] = i
	}
	var b strings.Builder
	for _, t := range c.out {
		if t.is {
			b.WriteString("p" + strconv.Itoa(m[t.pos]))
		} else {
			b.WriteString(t.s)
		}
	}
	return b.String()
}

// frames prints the call stack with its live values.
func (c *canon) frames(ct *cont) {
	fr, blk, i := ct.fr, ct.blk, ct.i
	for fr != nil {
		c.w(fmt.Sprintf("%s@%d.%d:", fr.fn.String(), blk.Index, i))
		live := c.m.exposed(fr, blk, i+1)
		var vs []ssa.Value
		for v := range live {
			if v != ct.reg || fr != ct.fr {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
		for _, v := range vs {
			if fr.site != nil && fr != ct.fr {
				// the call in progress defines its own result
				if v == ssa.Value(nil) {
					continue
				}
			}
			r, ok := fr.regs[v]
			if !ok {
				continue
			}
			c.w(v.Name() + "=")
			c.val(r, v.Type())
			c.w(" ")
		}
		c.w("\n")
		if fr.parent != nil {
			blk, i = fr.parent.curBlk, fr.parent.curI
		}
		fr = fr.parent
	}
}
