package main

// Lock sets and once-tokens of memory accesses (must-analysis over the SSA
// form), used to find accesses of two goroutines which nothing orders.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokset map[string]bool

func (t tokset) clone() tokset {
	r := tokset{}
	for k := range t {
		r[k] = true
	}
	return r
}
func (t tokset) list() string {
	var s []string
	for k := range t {
		s = append(s, k)
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "nothing"
	}
	return strings.Join(s, ", ")
}

func meet(a, b tokset) tokset { // nil is ⊤
	if a == nil {
		return b.clone()
	}
	if b == nil {
		return a
	}
	r := tokset{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

func eqTok(a, b tokset) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

type concSum struct {
	gen  tokset // held at exit if nothing is held at entry (nil: not known yet)
	kill tokset // possibly released
}

type conc struct {
	a    pctx
	sums map[*ssa.Function]*concSum
	effs map[ssa.CallInstruction]*callEff
	accs map[ssa.Instruction][]access
	// goroutines started by a thread, and what has been done before
	started map[*ssa.Go]tokset
}

type callEff struct {
	gen, kill []string
	once      string
	callees   []*ssa.Function
}

func newConc(a pctx) *conc {
	return &conc{a: a, sums: map[*ssa.Function]*concSum{}, effs: map[ssa.CallInstruction]*callEff{}, accs: map[ssa.Instruction][]access{}}
}

func (c *conc) eff(ci ssa.CallInstruction) *callEff {
	e := c.effs[ci]
	if e == nil {
		e = &callEff{callees: c.a.Callees(ci)}
		e.gen, e.kill, e.once = c.effect(ci)
		c.effs[ci] = e
	}
	return e
}

func (c *conc) accesses(in ssa.Instruction) []access {
	l, ok := c.accs[in]
	if !ok {
		l = accessesOf(c.a, in)
		if len(l) > 0 && private(in) {
			l = nil
		}
		c.accs[in] = l
	}
	return l
}

func (c *conc) lockID(v ssa.Value) string {
	ls := c.a.Pts(v)
	var s []string
	for _, l := range ls {
		s = append(s, fmt.Sprintf("%s#%d", l.String(), l.o.id))
	}
	return strings.Join(s, "|")
}

// effect of a call on locks: what is acquired and released.
func (c *conc) effect(ci ssa.CallInstruction) (gen, kill []string, once string) {
	cc := ci.Common()
	fn := cc.StaticCallee()
	if fn == nil {
		return
	}
	switch fn.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		gen = []string{"lock " + c.lockID(cc.Args[0])}
	case "(*sync.RWMutex).RLock":
		gen = []string{"rlock " + c.lockID(cc.Args[0])}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		kill = []string{"lock " + c.lockID(cc.Args[0])}
	case "(*sync.RWMutex).RUnlock":
		kill = []string{"rlock " + c.lockID(cc.Args[0])}
	case "(*sync.Once).Do":
		once = c.lockID(cc.Args[0])
		gen = []string{"once " + once}
	}
	return
}

// step changes the state by an instruction.
func (c *conc) step(st tokset, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.RunDefers:
		for _, b := range in.Parent().Blocks {
			for _, di := range b.Instrs {
				if d, ok := di.(*ssa.Defer); ok {
					e := c.eff(d)
					for _, k := range e.kill {
						delete(st, k)
					}
					for _, fn := range e.callees {
						for k := range c.sum(fn).kill {
							delete(st, k)
						}
					}
				}
			}
		}
	case *ssa.Defer, *ssa.Go:
	case ssa.CallInstruction:
		e := c.eff(x)
		gen, kill, once := e.gen, e.kill, e.once
		for _, k := range kill {
			delete(st, k)
		}
		for _, k := range gen {
			st[k] = true
		}
		if once != "" || len(gen) > 0 || len(kill) > 0 {
			return
		}
		var g tokset
		for _, fn := range e.callees {
			s := c.sum(fn)
			for k := range s.kill {
				delete(st, k)
			}
			if s.gen != nil {
				g = meet(g, s.gen)
			}
		}
		for k := range g {
			st[k] = true
		}
	}
}

func (c *conc) sum(f *ssa.Function) *concSum {
	s := c.sums[f]
	if s == nil {
		s = &concSum{kill: tokset{}}
		c.sums[f] = s
	}
	return s
}

// flagToken: on this edge a boolean variable in memory is known to be false.
func (c *conc) flagToken(b *ssa.BasicBlock, succ int) string {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	cond, neg := iff.Cond, false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok {
			return ""
		}
		if u.Op == token.NOT {
			cond, neg = u.X, !neg
			continue
		}
		if u.Op == token.MUL && (succ == 1) != neg {
			return "clear " + c.lockID(u.X)
		}
		return ""
	}
}

// flow computes the state before every block of a function.
func (c *conc) flow(f *ssa.Function, entry tokset, from *ssa.BasicBlock, fromIdx int, visit func(in ssa.Instruction, st tokset)) (exit tokset, kill tokset) {
	in := map[*ssa.BasicBlock]tokset{}
	kill = tokset{}
	start := f.Blocks[0]
	if from != nil {
		start = from
	}
	in[start] = entry.clone()
	work := []*ssa.BasicBlock{start}
	first := from != nil
	run := func(b *ssa.BasicBlock, idx int, st tokset, visit func(in ssa.Instruction, st tokset)) tokset {
		for i := idx; i < len(b.Instrs); i++ {
			if visit != nil {
				visit(b.Instrs[i], st)
			}
			c.step(st, b.Instrs[i])
		}
		return st
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		idx := 0
		if first {
			idx, first = fromIdx, false
		}
		st := run(b, idx, in[b].clone(), nil)
		for i, s := range b.Succs {
			st := st
			if t := c.flagToken(b, i); t != "" {
				st = st.clone()
				st[t] = true
			}
			n := meet(in[s], st)
			if in[s] == nil || !eqTok(n, in[s]) {
				in[s] = n
				work = append(work, s)
			}
		}
	}
	for _, b := range f.Blocks {
		if in[b] == nil {
			continue
		}
		idx := 0
		if b == from {
			idx = fromIdx
			// a loop back to the block makes the part before it reachable, too
			for _, p := range b.Preds {
				if in[p] != nil {
					idx = 0
				}
			}
		}
		st := run(b, idx, in[b].clone(), visit)
		for _, x := range b.Instrs {
			if ci, ok := x.(ssa.CallInstruction); ok {
				e := c.eff(ci)
				for _, y := range e.kill {
					kill[y] = true
				}
				for _, fn := range e.callees {
					for y := range c.sum(fn).kill {
						kill[y] = true
					}
				}
			}
		}
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				exit = meet(exit, st)
			}
		}
	}
	return
}

// Summaries of all functions analysed.
func (c *conc) Summaries() {
	var fs []*ssa.Function
	for f := range c.a.done {
		if f.c == c.a.c && len(f.f.Blocks) > 0 {
			fs = append(fs, f.f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for ch, n := true, 0; ch && n < 50; n++ {
		ch = false
		for _, f := range fs {
			g, k := c.flow(f, tokset{}, nil, 0, nil)
			s := c.sum(f)
			if !eqTok(g, s.gen) || !eqTok(k, s.kill) {
				s.gen, s.kill = g, k
				ch = true
			}
		}
	}
}

type access struct {
	loc   ploc
	write bool
	in    ssa.Instruction
	toks  tokset
}

func accessesOf(a pctx, in ssa.Instruction) []access {
	var r []access
	add := func(v ssa.Value, sfx string, w bool) {
		for _, l := range a.Pts(v) {
			if l.o.kind == "func" {
				continue
			}
			r = append(r, access{loc: ploc{l.o, l.path + sfx}, write: w, in: in})
		}
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(x.X, "", false)
		}
	case *ssa.Store:
		add(x.Addr, "", true)
	case *ssa.MapUpdate:
		add(x.Map, "[v]", true)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			add(x.X, "[v]", false)
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			add(rg.X, "[v]", false)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if _, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok && !constNil(x.Call.Args[0]) {
					add(x.Call.Args[0], "[]", true)
				}
				if len(x.Call.Args) > 1 {
					if _, ok := x.Call.Args[1].Type().Underlying().(*types.Slice); ok {
						add(x.Call.Args[1], "[]", false)
					}
				}
			case "copy":
				add(x.Call.Args[0], "[]", true)
				if _, ok := x.Call.Args[1].Type().Underlying().(*types.Slice); ok {
					add(x.Call.Args[1], "[]", false)
				}
			case "delete", "clear":
				add(x.Call.Args[0], "[v]", true)
			case "len":
				if _, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok {
					add(x.Call.Args[0], "[v]", false)
				}
			}
		}
	}
	return r
}

// thread collects the accesses of a thread of control starting with the given
// functions (or in the middle of one).
type threadStart struct {
	f    *ssa.Function
	blk  *ssa.BasicBlock
	idx  int
	toks tokset
}

func (c *conc) thread(starts []threadStart) ([]access, map[*ssa.Function]bool) {
	entry := map[*ssa.Function]tokset{}
	var work []*ssa.Function
	queued := map[*ssa.Function]bool{}
	push := func(f *ssa.Function, st tokset) {
		if len(f.Blocks) == 0 {
			return
		}
		n := meet(entry[f], st)
		if entry[f] == nil || !eqTok(n, entry[f]) {
			entry[f] = n
			if !queued[f] {
				queued[f] = true
				work = append(work, f)
			}
		}
	}
	visitCalls := func(in ssa.Instruction, st tokset) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if g, ok := in.(*ssa.Go); ok { // another thread
			if c.started == nil {
				c.started = map[*ssa.Go]tokset{}
			}
			c.started[g] = meet(c.started[g], st)
			return
		}
		e := c.eff(ci)
		once := e.once
		for _, fn := range e.callees {
			s := st
			if once != "" {
				s = st.clone()
				s["in "+once] = true
				s["once "+once] = true // ordered with what is in and after it
			}
			if _, ok := in.(*ssa.Defer); ok {
				s = tokset{} // runs at exit, with what is held then: be careful
				for k := range st {
					if strings.HasPrefix(k, "in ") || strings.HasPrefix(k, "once ") {
						s[k] = true
					}
				}
			}
			push(fn, s)
		}
	}
	partial := map[*ssa.Function]threadStart{}
	for _, s := range starts {
		if s.blk == nil {
			push(s.f, s.toks)
		} else {
			partial[s.f] = s
			c.flow(s.f, s.toks, s.blk, s.idx, visitCalls)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		queued[f] = false
		c.flow(f, entry[f], nil, 0, visitCalls)
	}
	var acc []access
	collect := func(in ssa.Instruction, st tokset) {
		if !c.a.live[cblk{in.Block(), c.a.c}] {
			return
		}
		as := c.accesses(in)
		if len(as) == 0 {
			return
		}
		t := st.clone()
		for _, x := range as {
			x.toks = t
			acc = append(acc, x)
		}
	}
	fns := map[*ssa.Function]bool{}
	for f, e := range entry {
		fns[f] = true
		c.flow(f, e, nil, 0, collect)
	}
	for _, s := range partial {
		fns[s.f] = true
		c.flow(s.f, s.toks, s.blk, s.idx, collect)
	}
	sort.SliceStable(acc, func(i, j int) bool {
		if acc[i].in.Pos() != acc[j].in.Pos() {
			return acc[i].in.Pos() < acc[j].in.Pos()
		}
		return acc[i].loc.String() < acc[j].loc.String()
	})
	return acc, fns
}

func overlap(a, b string) bool {
	if a == b {
		return true
	}
	if len(a) > len(b) {
		a, b = b, a
	}
	return strings.HasPrefix(b, a) && (b[len(a)] == '.' || b[len(a)] == '[')
}

// sameLock: the locks may be the same one.
func sameLock(a, b string) bool {
	if a == b {
		return true
	}
	m := map[string]bool{}
	for _, x := range strings.Split(a, "|") {
		m[x] = true
	}
	for _, x := range strings.Split(b, "|") {
		if m[x] {
			return true
		}
	}
	return false
}

// ordered tells whether two conflicting accesses are ordered by a lock or a Once.
func ordered(x, y access) bool {
	for k := range x.toks {
		kk := strings.SplitN(k, " ", 2)
		for l := range y.toks {
			ll := strings.SplitN(l, " ", 2)
			if !sameLock(kk[1], ll[1]) {
				continue
			}
			switch kk[0] + " " + ll[0] {
			case "lock lock", "in in", "in once", "once in":
				return true
			case "lock rlock":
				if !y.write {
					return true
				}
			case "rlock lock":
				if !x.write {
					return true
				}
			}
		}
	}
	return false
}

var allocLeaks = map[*ssa.Alloc][]ssa.Instruction{}

// private: the access is to a new object nobody else knows yet.
func private(in ssa.Instruction) bool {
	var addr ssa.Value
	switch x := in.(type) {
	case *ssa.Store:
		addr = x.Addr
	case *ssa.UnOp:
		addr = x.X
	default:
		return false
	}
	for {
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			addr = fa.X
			continue
		}
		if ia, ok := addr.(*ssa.IndexAddr); ok {
			addr = ia.X
			continue
		}
		break
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	leaks, known := allocLeaks[al]
	if known {
		for _, l := range leaks {
			if reachesInstr(l, in) {
				return false
			}
		}
		return true
	}
	var uses func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	uses = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.FieldAddr:
				uses(x)
			case *ssa.IndexAddr:
				uses(x)
			case *ssa.Slice:
				uses(x)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					leaks = append(leaks, x)
				}
			default:
				leaks = append(leaks, ref)
			}
		}
	}
	uses(al)
	allocLeaks[al] = leaks
	for _, l := range leaks {
		if reachesInstr(l, in) {
			return false
		}
	}
	return true
}

// reachesInstr: control may flow from the one instruction to the other.
func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func instrPos(p *Prog, in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	// the nearest instruction with a position
	for _, i := range in.Block().Instrs {
		if i.Pos().IsValid() {
			return p.Pos(i.Pos())
		}
	}
	return p.Pos(in.Parent().Pos())
}

func modPackages(p *Prog) []string {
	var r []string
	for rel, sp := range p.SPkg {
		if sp == nil || sp.Pkg.Name() == "main" || strings.Contains(rel, "internal") {
			continue
		}
		r = append(r, rel)
	}
	sort.Strings(r)
	return r
}

// exportedFuncs are the functions and methods clients can call.
func exportedFuncs(p *Prog, rels []string) []*ssa.Function {
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 && isModFn(f) {
			seen[f] = true
			fs = append(fs, f)
		}
	}
	for _, rel := range rels {
		sp := p.SPkg[rel]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				if token.IsExported(n) {
					add(m)
				}
			case *ssa.Type:
				t := m.Type()
				if !token.IsExported(n) {
					continue
				}
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := p.SSA.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if ms.At(i).Obj().Exported() {
							f := p.SSA.MethodValue(ms.At(i))
							if f != nil && f.Synthetic != "" {
								if fo, ok := ms.At(i).Obj().(*types.Func); ok {
									if d := p.SSA.FuncValue(fo); d != nil {
										f = d
									}
								}
							}
							add(f)
						}
					}
				}
			}
		}
	}
	return fs
}

func analyseConc(p *Prog, rels []string, closed bool) (*PTA, []*ssa.Function) {
	a := NewPTA(p)
	m := pctx{a, 0}
	ex := exportedFuncs(p, rels)
	for _, rel := range rels {
		if f := p.SPkg[rel].Func("init"); f != nil {
			m.Reach(f)
		}
	}
	for _, f := range ex {
		m.Entry(f)
	}
	if closed {
		a.SolveClosed()
	} else {
		a.Solve()
	}
	return a, ex
}

func lockNames(t tokset) string {
	var s []string
	for k := range t {
		if n := strings.TrimPrefix(strings.TrimPrefix(k, "rlock "), "lock "); n != k {
			s = append(s, n)
		}
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "without a lock"
	}
	return "holding " + strings.Join(s, ", ")
}

// runGoroutines (B08): accesses of a goroutine started by the bidi package and
// of its starter to the same memory need a common lock.
func runGoroutines(p *Prog, r *Report) {
	if p.SPkg["bidi"] == nil {
		r.Fail("missing/bidi", "?", "package bidi is missing")
		return
	}
	a, _ := analyseConc(p, []string{"bidi"}, false)
	m := pctx{a, 0}
	c0 := newConc(m)
	c0.Summaries()
	ngo := 0
	var gos []*ssa.Go
	for f := range a.done {
		if f.c != 0 {
			continue // goroutines started by goroutines
		}
		for _, b := range f.f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					gos = append(gos, g)
				}
			}
		}
	}
	sort.Slice(gos, func(i, j int) bool { return gos[i].Pos() < gos[j].Pos() })
	reported := map[string]bool{}
	for _, g := range gos {
		ngo++
		var st []threadStart
		for _, fn := range m.Callees(g) {
			st = append(st, threadStart{f: fn, toks: tokset{}})
		}
		if len(st) == 0 {
			r.Undecided("goroutine", instrPos(p, g), "the function started is not known")
			continue
		}
		c1 := newConc(pctx{a, a.gos[g]})
		c1.Summaries()
		var roots []*pobj
		for _, o := range a.objs {
			if o.kind == "global" {
				roots = append(roots, o)
			}
		}
		for _, v := range append([]ssa.Value{g.Call.Value}, g.Call.Args...) {
			for _, l := range m.Pts(v) {
				roots = append(roots, l.o)
			}
		}
		esc := a.Escaped(roots)
		t1, f1 := c1.thread(st)
		idx := 0
		for i, in := range g.Block().Instrs {
			if in == ssa.Instruction(g) {
				idx = i + 1
			}
		}
		t2, f2 := c0.thread([]threadStart{{f: g.Parent(), blk: g.Block(), idx: idx, toks: tokset{}}})
		for f := range f1 {
			r.Func(f.String())
		}
		for f := range f2 {
			r.Func(f.String())
		}
		by := map[*pobj][]access{}
		for _, x := range t2 {
			by[x.loc.o] = append(by[x.loc.o], x)
		}
		r.N("accesses in the goroutine", len(t1))
		r.N("accesses of its starter", len(t2))
		shared := map[string]bool{}
		for _, x := range t1 {
			for _, y := range by[x.loc.o] {
				if !esc[x.loc.o] || !overlap(x.loc.path, y.loc.path) {
					continue
				}
				shared[x.loc.String()] = true
				if !x.write && !y.write {
					continue
				}
				r.N("conflicting pairs", 1)
				ok := ordered(x, y)
				key := "race/" + memName(x.loc) + "/" + x.in.Parent().Name() + "/" + y.in.Parent().Name()
				if !ok && reported[key] {
					continue
				}
				r.Check(ok, key, instrPos(p, x.in), "%s is %s by the goroutine (in %s, %s) and %s at %s (in %s, %s): nothing orders the two", memName(x.loc), rw(x.write), x.in.Parent().Name(), lockNames(x.toks), rw(y.write), instrPos(p, y.in), y.in.Parent().Name(), lockNames(y.toks))
				if !ok {
					reported[key] = true
				}
			}
		}
		for s := range shared {
			r.Sample("shared: %s", s)
		}
		r.N("shared locations", len(shared))
	}
	r.N("goroutines started", ngo)
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func rw(w bool) string {
	if w {
		return "written"
	}
	return "read"
}

func memName(l ploc) string {
	t := l.o.name
	if l.o.kind == "alloc" || l.o.kind == "param" || l.o.kind == "extern" {
		t = types.TypeString(l.o.typ, func(p *types.Package) string { return p.Name() })
	}
	return t + l.path
}

func isBoolStore(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	b, ok := st.Val.Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// runSharedState (X01): package-level state changed after initialisation is
// ordered by a Once or a lock for concurrent callers of the API.
func runSharedState(p *Prog, r *Report) {
	var rels []string
	for _, rel := range modPackages(p) {
		if rel != "bidi/trie" { // tries belong to their client: package bidi
			rels = append(rels, rel)
		}
	}
	a, ex := analyseConc(p, rels, true)
	m := pctx{a, 0}
	c := newConc(m)
	c.Summaries()
	var gl []*pobj
	for _, o := range a.objs {
		if o.kind == "global" {
			gl = append(gl, o)
		}
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].name < gl[j].name })
	esc := a.Escaped(gl)
	owner := map[*pobj]string{} // a package variable referring to the object
	for _, g := range gl {
		for o := range a.Escaped([]*pobj{g}) {
			if o == g || owner[o] == "" {
				owner[o] = g.name
			}
		}
	}
	type use struct {
		access
		entries map[*ssa.Function]bool
	}
	uses := map[ssa.Instruction]map[ploc]map[string]*use{}
	does := map[*ssa.Function]map[string]bool{} // Onces an entry may run
	// the thread of an API function and the goroutines started by it
	byCtx := map[int]*conc{0: c}
	threads := func(f *ssa.Function) ([]access, map[*ssa.Function]bool, func(ssa.CallInstruction) *callEff) {
		c.started = nil
		acc, fns := c.thread([]threadStart{{f: f, toks: tokset{}}})
		var used = []*conc{c}
		seen := map[*ssa.Go]bool{}
		for i := 0; i < len(used); i++ {
			u := used[i]
			var gos []*ssa.Go
			for g := range u.started {
				if !seen[g] {
					gos = append(gos, g)
				}
			}
			sort.Slice(gos, func(i, j int) bool { return gos[i].Pos() < gos[j].Pos() })
			for _, g := range gos {
				seen[g] = true
				ctx := a.gos[g]
				if ctx == 0 {
					r.Undecided("goroutine", instrPos(p, g), "the function started is not known")
					continue
				}
				if byCtx[ctx] == nil {
					byCtx[ctx] = newConc(pctx{a, ctx})
					byCtx[ctx].Summaries()
				}
				n := byCtx[ctx]
				n.started = nil
				toks := tokset{}
				for k := range u.started[g] {
					if strings.HasPrefix(k, "once ") {
						toks[k] = true
					}
				}
				var st []threadStart
				for _, fn := range u.a.Callees(g) {
					st = append(st, threadStart{f: fn, toks: toks})
				}
				a1, f1 := n.thread(st)
				acc = append(acc, a1...)
				for f := range f1 {
					fns[f] = true
				}
				used = append(used, n)
				r.N("goroutines of API functions", 1)
			}
		}
		return acc, fns, func(ci ssa.CallInstruction) *callEff {
			e := &callEff{}
			for _, u := range used {
				if x := u.eff(ci); x.once != "" {
					e = x
				}
			}
			return e
		}
	}
	for _, f := range ex {
		acc, fns, effs := threads(f)
		for _, g := range sortedFns(fns) {
			r.Func(g.String())
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if once := effs(ci).once; once != "" {
							if does[f] == nil {
								does[f] = map[string]bool{}
							}
							does[f][once] = true
						}
					}
				}
			}
		}
		for _, x := range acc {
			if !esc[x.loc.o] || x.loc.o.kind == "extern" {
				continue
			}
			if uses[x.in] == nil {
				uses[x.in] = map[ploc]map[string]*use{}
			}
			if uses[x.in][x.loc] == nil {
				uses[x.in][x.loc] = map[string]*use{}
			}
			k := x.toks.list()
			u := uses[x.in][x.loc][k]
			if u == nil {
				u = &use{x, map[*ssa.Function]bool{}}
				uses[x.in][x.loc][k] = u
			}
			u.entries[f] = true
		}
	}
	by := map[*pobj][]*use{}
	var all []*use
	for _, m1 := range uses {
		for _, m2 := range m1 {
			for _, u := range m2 {
				by[u.loc.o] = append(by[u.loc.o], u)
				all = append(all, u)
			}
		}
	}
	less := func(x, y *use) bool {
		if x.in.Pos() != y.in.Pos() {
			return x.in.Pos() < y.in.Pos()
		}
		if x.loc.String() != y.loc.String() {
			return x.loc.String() < y.loc.String()
		}
		return x.toks.list() < y.toks.list()
	}
	sort.Slice(all, func(i, j int) bool { return less(all[i], all[j]) })
	for _, l := range by {
		sort.Slice(l, func(i, j int) bool { return less(l[i], l[j]) })
	}
	one := func(u *use) string {
		var s []string
		for f := range u.entries {
			s = append(s, f.RelString(nil))
		}
		sort.Strings(s)
		if len(s) > 3 {
			s = append(s[:3], "…")
		}
		return strings.Replace(strings.Join(s, ", "), modPath+"/", "", -1)
	}
	// flags which are only ever set, and only inside of a Once: code running
	// while the flag is clear runs before the Once is done
	flags := map[string]string{}
	for _, w := range all {
		if !w.write || !isBoolStore(w.in) {
			continue
		}
		id, in := fmt.Sprintf("%s#%d", w.loc.String(), w.loc.o.id), ""
		for k := range w.toks {
			if strings.HasPrefix(k, "in ") {
				in = k
			}
		}
		if st, ok := w.in.(*ssa.Store); ok && in != "" && st.Val.Name() == "true:bool" && (flags[id] == "" || flags[id] == in) {
			flags[id] = in
		} else {
			flags[id] = "-"
		}
	}
	for _, u := range all {
		for k := range u.toks {
			if strings.HasPrefix(k, "clear ") && !strings.Contains(k, "|") {
				if in := flags[strings.TrimPrefix(k, "clear ")]; in != "" && in != "-" {
					u.toks[in] = true
				}
			}
		}
	}
	reported := map[string]bool{}
	writes, setup := 0, map[string]bool{}
	changed := map[string]bool{}
	for _, w := range all {
		if !w.write {
			continue
		}
		writes++
		changed[owner[w.loc.o]] = true
		for _, x := range by[w.loc.o] {
			if !overlap(w.loc.path, x.loc.path) {
				continue
			}
			r.N("conflicting pairs", 1)
			ok := ordered(w.access, x.access)
			if !ok && !x.write {
				// reading without the set-up is the client's responsibility (as
				// documented) if the function does not perform it itself
				once := ""
				for k := range w.toks {
					if strings.HasPrefix(k, "in ") {
						once = strings.TrimPrefix(k, "in ")
					}
				}
				if once != "" {
					ok = true
					for f := range x.entries {
						if does[f][once] {
							ok = false
						} else {
							setup[f.RelString(nil)] = true
						}
					}
				}
			}
			key := "shared/" + owner[w.loc.o] + "/" + w.in.Parent().Name() + "/" + x.in.Parent().Name()
			if !ok && reported[key] {
				continue
			}
			if !ok {
				reported[key] = true
			}
			r.Check(ok, key, instrPos(p, w.in), "%s, reachable from the package variable %s, is written in %s (for %s) and %s at %s in %s (for %s): concurrent callers are not ordered by a lock or sync.Once", memName(w.loc), owner[w.loc.o], w.in.Parent().Name(), one(w), rw(x.write), instrPos(p, x.in), x.in.Parent().Name(), one(x))
		}
	}
	// functions documented to do the set-up: when they return, it is done
	for _, sp := range []struct {
		pkg, fn string
		of      []string
	}{
		{"emoji", "SetupEmojisClasses", []string{"emoji"}},
		{"grapheme", "SetupGraphemeClasses", []string{"grapheme", "emoji"}},
		{"grapheme", "StringFromString", []string{"grapheme", "emoji"}},
		{"grapheme", "StringFromBytes", []string{"grapheme", "emoji"}},
		{"uax29", "SetupUAX29Classes", []string{"uax29", "emoji"}},
		{"uax29", "NewWordBreaker", []string{"uax29", "emoji"}},
	} {
		f := p.Func(sp.pkg, sp.fn)
		if f == nil {
			r.Fail("missing/"+sp.pkg+"."+sp.fn, "?", "%s.%s is missing", sp.pkg, sp.fn)
			continue
		}
		exit, _ := c.flow(f, tokset{}, nil, 0, nil)
		for _, w := range all {
			g := w.loc.o.glob
			if !w.write || g == nil || g.Pkg == nil || w.loc.path != "" {
				continue
			}
			mine := false
			for _, pk := range sp.of {
				mine = mine || p.SPkg[pk] == g.Pkg
			}
			if !mine {
				continue
			}
			for k := range w.toks {
				if strings.HasPrefix(k, "in ") {
					r.Check(exit != nil && exit["once "+strings.TrimPrefix(k, "in ")], "setup/"+sp.pkg+"."+sp.fn+"/"+w.loc.o.name, p.Pos(f.Pos()), "%s.%s may return before %s is set up (written at %s)", sp.pkg, sp.fn, w.loc.o.name, instrPos(p, w.in))
				}
			}
		}
	}
	for g := range changed {
		r.Sample("changed after initialisation: %s", g)
	}
	sort.Strings(r.Samples)
	r.N("functions and methods of the API", len(ex))
	r.N("package variables", len(gl))
	r.N("package variables changed after initialisation", len(changed))
	r.N("writes to package-level state", writes)
	r.N("functions relying on the documented set-up", len(setup))
}
