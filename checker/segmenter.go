package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S01, S02, S04: the segmenter driver. The exported API is interpreted on an
// abstract reader (runes r0, r1, …, then io.EOF or an error) and abstract
// breakers (which obey the UnicodeBreaker contract: every position still
// covered by the longest active match may receive penalties later on, every
// other one is final); penalties are unknown integers, so that one scenario
// covers every combination of feasible, infeasible and zero penalties.

const infPenalty = 10000

type segScen struct {
	n      int      // runes before the end
	end    string   // "eof" or "err"
	nb     int      // breakers
	lam    [][2]int // per event (n runes + the end): longest active match per breaker
	plen   [][2]int // number of penalties per event and breaker
	boz    [2]bool
	source string // "reader", "slice"
	bounds []int  // BoundedNext calls made first (each until it returns false)
	buf    int    // 0: default buffer, else RuneBuffer of this size with this maximum
	reuse  bool   // the segmenter has been used for another text before
}

func (s segScen) String() string {
	if s.n > 10 {
		return fmt.Sprintf("[%d runes without a break opportunity, from a %s, buffer %d]", s.n, s.source, s.buf)
	}
	return fmt.Sprintf("[%d runes then %s from a %s, %d breaker(s), active matches %v, penalties %v, break on zero %v, bounds %v, buffer %d]", s.n, s.end, s.source, s.nb, s.lam, s.plen, s.boz, s.bounds, s.buf)
}

type segRun struct {
	p    *Prog
	r    *Report
	ex   *Engine
	sc   segScen
	prop string
	eof  Value
	recv Value
	pos  string
	// re-initialisation: phase 0 uses first, phase 1 uses sc
	phase int
}

func (g *segRun) fail(key, f string, a ...interface{}) {
	g.r.Fail(key, g.pos, "%s: %s", g.sc, fmt.Sprintf(f, a...))
}

// event counts the runes (and ends) a breaker has been given so far.
func (g *segRun) event(st *State, brk string) int { return lastCount(st, "proceed", brk) }

// alike: breakers behind the second one have active matches and numbers of
// penalties (but not the penalties) of the first two.
func alike(b int) int { return b % 2 }

// lastCount: events of a kind since the start of the current text; every
// such event carries its number.
func lastCount(st *State, kind, name string) int {
	for t := st.trace; t != nil; t = t.prev {
		if t.ev.Kind == "newtext" {
			break
		}
		if t.ev.Kind == kind && t.ev.Name == name {
			k, _ := asInt(t.ev.Res)
			return int(k)
		}
	}
	return 0
}

func (g *segRun) runeSym(k int) *Lin { return linSym(fmt.Sprintf("%s%d", g.tag(), k)) }
func (g *segRun) tag() string        { return []string{"r", "t"}[g.phase] }

func (g *segRun) penSym(b, k, j int) *Lin {
	return linSym(fmt.Sprintf("p%d_%d_%d", b, k, j) + strings.Repeat("'", g.phase))
}

func (g *segRun) method(name string) *ssa.Function { return g.p.Func("segment", "Segmenter."+name) }

// setup interprets NewSegmenter(breakers...) and the initialisation.
func (g *segRun) setup() []*State {
	p, ex := g.p, NewEngine(g.p.SSA)
	g.ex = ex
	ex.unrollFork = 40
	if g.sc.n > 100 {
		ex.maxStep = 40000000
		ex.maxOuts = 4000000
	}
	base := "invoke:uax.UnicodeBreaker."
	brk := func(v Value) int {
		for b := 0; b < g.sc.nb; b++ {
			if v.Key() == fmt.Sprintf("breaker%d", b) {
				return b
			}
		}
		return 0
	}
	ex.Hooks[base+"CodePointClassFor"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return []Outcome{{St: st, Ret: []Value{linSym("class" + a[1].Key())}}}
	}
	ex.Hooks[base+"StartRulesFor"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		st.Emit(Event{Kind: "start", Name: a[0].Key(), Args: a, Instr: site})
		return []Outcome{{St: st}}
	}
	ex.Hooks[base+"ProceedWithRune"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		st.Emit(Event{Kind: "proceed", Name: a[0].Key(), Args: a, Instr: site, Res: linConst(int64(lastCount(st, "proceed", a[0].Key()) + 1))})
		return []Outcome{{St: st}}
	}
	ex.Hooks[base+"LongestActiveMatch"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		k := g.event(st, a[0].Key()) - 1
		if k < 0 {
			return []Outcome{{St: st, Ret: []Value{linConst(0)}}}
		}
		if k >= len(g.sc.lam) {
			k = len(g.sc.lam) - 1
		}
		return []Outcome{{St: st, Ret: []Value{linConst(int64(g.sc.lam[k][alike(brk(a[0]))]))}}}
	}
	intS := types.NewSlice(types.Typ[types.Int])
	ex.Hooks[base+"Penalties"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		k, b := g.event(st, a[0].Key())-1, brk(a[0])
		n := 0
		if k >= 0 && k < len(g.sc.plen) {
			n = g.sc.plen[k][alike(b)]
		}
		arr := ex.NewArr("pen", types.Typ[types.Int], false)
		for j := 0; j < n; j++ {
			var v Value = g.penSym(b, k, j)
			st.Set(arr, []pe{{Field: -1, Idx: linConst(int64(j))}}, v)
		}
		return []Outcome{{St: st, Ret: []Value{&SliceV{O: arr, Off: linConst(0), Len: linConst(int64(n)), Cap: linConst(int64(n)), T: intS}}}}
	}
	st, err := initPackage(p, ex, ex.NewState(), p.SPkg["segment"])
	if err != nil {
		g.r.Undecided("init", "segment", "%v", err)
		return nil
	}
	if iop := p.SSA.ImportedPackage("io"); iop != nil {
		o := ex.global(iop.Var("EOF"))
		g.eof = st.Load(o, nil)
	}
	st.assume(ex.equal(st, g.eof, &Nil{}, nil), false)
	readErr := &Sym{"readError", nil}
	st.assume(ex.equal(st, readErr, &Nil{}, nil), false)
	st.assume(ex.equal(st, readErr, g.eof, nil), false)
	ex.Hooks["invoke:io.RuneReader.ReadRune"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		k := lastCount(st, "rd", "")
		st.Emit(Event{Kind: "rd", Instr: site, Res: linConst(int64(k + 1))})
		if k < g.sc.n {
			return []Outcome{{St: st, Ret: []Value{g.runeSym(k), linConst(1), &Nil{}}}}
		}
		e := Value(readErr)
		if g.sc.end == "eof" {
			e = g.eof
		}
		return []Outcome{{St: st, Ret: []Value{linConst(0), linConst(0), e}}}
	}
	var bs []Value
	barr := ex.NewArr("breakers", nil, false)
	ub := p.Pkgs[""].Types.Scope().Lookup("UnicodeBreaker")
	if ub != nil {
		barr = ex.NewArr("breakers", ub.Type(), false)
	}
	for b := 0; b < g.sc.nb; b++ {
		v := &Sym{fmt.Sprintf("breaker%d", b), nil}
		bs = append(bs, v)
		st.assume(ex.equal(st, v, &Nil{}, nil), false)
		st.Set(barr, []pe{{Field: -1, Idx: linConst(int64(b))}}, v)
	}
	for i := range bs {
		for j := range bs[:i] {
			st.assume(ex.equal(st, bs[j], bs[i], nil), false)
		}
	}
	mk := p.Func("segment", "NewSegmenter")
	outs, err := ex.Run(mk, []Value{&SliceV{O: barr, Off: linConst(0), Len: linConst(int64(len(bs))), Cap: linConst(int64(len(bs)))}}, st)
	if err != nil || len(outs) != 1 {
		g.r.Undecided("NewSegmenter", p.Pos(mk.Pos()), "%d paths, %v", len(outs), err)
		return nil
	}
	if !outs[0].Returns() {
		g.r.Fail("NewSegmenter", p.Pos(mk.Pos()), "panics")
		return nil
	}
	g.recv = outs[0].Ret[0]
	cur := []*State{outs[0].St}
	if g.sc.boz[0] || g.sc.boz[1] {
		cur = g.step(cur, "BreakOnZero", boolConst(g.sc.boz[0]), boolConst(g.sc.boz[1]))
	}
	return g.initText(cur)
}

// initText hands the text of the scenario to the segmenter.
func (g *segRun) initText(cur []*State) []*State {
	ex := g.ex
	if g.sc.source == "none" {
		return cur
	}
	for _, s := range cur {
		s.Emit(Event{Kind: "newtext"})
	}
	if g.sc.source == "nil slice" {
		return g.step(cur, "InitFromSlice", &Nil{types.NewSlice(types.Typ[types.Rune])})
	}
	if g.sc.source == "slice" {
		arr := ex.NewArr("text", types.Typ[types.Rune], false)
		for i := 0; i < g.sc.n; i++ {
			for _, s := range cur {
				s.Set(arr, []pe{{Field: -1, Idx: linConst(int64(i))}}, g.runeSym(i))
			}
		}
		cur = g.step(cur, "InitFromSlice", &SliceV{O: arr, Off: linConst(0), Len: linConst(int64(g.sc.n)), Cap: linConst(int64(g.sc.n)), T: types.NewSlice(types.Typ[types.Rune])})
	} else {
		rd := &Sym{"reader", nil}
		for _, s := range cur {
			s.assume(ex.equal(s, rd, &Nil{}, nil), false)
		}
		cur = g.step(cur, "Init", rd)
	}
	if g.sc.buf > 0 {
		arr := ex.NewArr("userbuf", types.Typ[types.Rune], false)
		n := linConst(int64(g.sc.buf))
		cur = g.step(cur, "RuneBuffer", &SliceV{O: arr, Off: linConst(0), Len: n, Cap: n, T: types.NewSlice(types.Typ[types.Rune])}, n)
	}
	return cur
}

func (g *segRun) step(cur []*State, name string, args ...Value) []*State {
	f := g.method(name)
	if f == nil {
		g.r.Fail("anchor", "?", "Segmenter.%s not found", name)
		return nil
	}
	var nx []*State
	for _, s := range cur {
		outs, err := g.ex.Run(f, append([]Value{g.recv}, args...), s)
		if err != nil {
			g.r.Undecided(name, g.p.Pos(f.Pos()), "%s: %v", g.sc, err)
			continue
		}
		for _, o := range outs {
			if !o.Returns() {
				g.fail(name+":panic", "%s panics", name)
				continue
			}
			nx = append(nx, o.St)
		}
	}
	return nx
}

// eval interprets a getter, which has to be side-effect free and decided.
func (g *segRun) eval(st *State, name string) []Value {
	f := g.method(name)
	outs, err := g.ex.Run(f, []Value{g.recv}, st.Clone())
	if err != nil {
		g.r.Undecided(name, g.p.Pos(f.Pos()), "%s: %v", g.sc, err)
		return nil
	}
	var ret []Value
	n := 0
	for _, o := range outs {
		if o.Returns() {
			ret = o.Ret
			n++
		} else {
			g.fail(name+":panic", "%s panics", name)
		}
	}
	if n != 1 {
		return nil
	}
	if sl, ok := ret[0].(*SliceV); ok { // read the runes
		k, c := sl.Len.Const()
		if !c {
			return []Value{&Sym{"length " + sl.Len.Key(), nil}}
		}
		tv := &TupleV{}
		for i := int64(0); i < k; i++ {
			tv.E = append(tv.E, outs[0].St.Load(sl.O, appendPE(sl.Path, pe{Field: -1, Idx: linAdd(sl.Off, linConst(i), 1)})))
		}
		return []Value{tv}
	}
	if _, ok := ret[0].(*Nil); ok && name == "Runes" {
		return []Value{&TupleV{}}
	}
	return ret
}

// segSpec is the reference segmenter.
type segSpec struct {
	q      []specAtom
	read   int
	eof    bool
	err    bool
	lam    int
	emit   int // runes emitted
	badQ   string
	pendng int
}
type specAtom struct {
	k int // rune number, -1: end of text
	p [2]*Lin
}

func (s *segSpec) clone() *segSpec {
	n := *s
	n.q = append([]specAtom(nil), s.q...)
	return &n
}

// possible asks whether the path decides the break opportunity at an atom.
func (g *segRun) possible(st *State, a specAtom) (known, v bool) {
	if a.k < 0 {
		return true, false // nothing follows the end of the text
	}
	res := false
	for b := 0; b < min(g.sc.nb, 2); b++ {
		k1, inf := st.query(le0(linAdd(linConst(infPenalty), a.p[b], -1))) // p ≥ inf
		if !k1 {
			return false, false
		}
		if inf {
			continue
		}
		if g.sc.boz[b] {
			res = true
			break
		}
		k2, z := st.query(eq0(a.p[b]))
		if !k2 {
			return false, false
		}
		if !z {
			res = true
			break
		}
	}
	return true, res
}

func (g *segRun) find(st *State, s *segSpec) int {
	for i := 0; i < len(s.q)-s.lam; i++ {
		k, v := g.possible(st, s.q[i])
		if !k {
			s.badQ = fmt.Sprintf("the penalties %s, %s of position %d are not consulted (%s)", s.q[i].p[0].Key(), s.q[i].p[1].Key(), s.q[i].k, st.FactString())
			return -1
		}
		if v {
			return i
		}
	}
	return -1
}

// next returns the expected result of Next: the segment (nil: false) and penalties.
func (g *segRun) specNext(st *State, s *segSpec) (seg []int, pens [2]*Lin, ok bool) {
	at := g.find(st, s)
	for at < 0 && s.badQ == "" && !s.eof && !s.err {
		k := s.read
		s.read++
		if k >= g.sc.n {
			if g.sc.end == "err" {
				s.err = true
				break
			}
			s.eof = true
			s.q = append(s.q, specAtom{-1, [2]*Lin{linConst(infPenalty), linConst(infPenalty)}})
		} else {
			s.q = append(s.q, specAtom{k, [2]*Lin{linConst(0), linConst(0)}})
		}
		s.lam = 0
		for b := 0; b < g.sc.nb; b++ {
			if l := g.sc.lam[k][alike(b)]; l > s.lam {
				s.lam = l
			}
			for j := 0; j < g.sc.plen[k][alike(b)] && j < len(s.q); j++ {
				i := len(s.q) - 1 - j
				s.q[i].p[min(b, 1)] = linAdd(s.q[i].p[min(b, 1)], g.penSym(b, k, j), 1)
			}
		}
		at = g.find(st, s)
	}
	if at < 0 {
		return nil, pens, false
	}
	for i := 0; i <= at; i++ {
		seg = append(seg, s.q[i].k)
	}
	pens = s.q[at].p
	s.q = append([]specAtom(nil), s.q[at+1:]...)
	return seg, pens, true
}

// run explores the scenario with Next calls only and compares every call.
func (g *segRun) run() {
	g.explore(g.setup())
}

func (g *segRun) explore(from []*State) {
	type live struct {
		st   *State
		spec *segSpec
	}
	var lv []live
	for _, s := range from {
		lv = append(lv, live{s, &segSpec{pendng: -1}})
	}
	nextF := g.method("Next")
	g.pos = g.p.Pos(nextF.Pos())
	falses := map[*segSpec]int{}
	for call := 0; call < g.sc.n+3 && len(lv) > 0; call++ {
		var nx []live
		for _, l := range lv {
			outs, err := g.ex.Run(nextF, []Value{g.recv}, l.st)
			if err != nil {
				g.r.Undecided("Next", g.pos, "%s: %v", g.sc, err)
				continue
			}
			for _, o := range outs {
				if !o.Returns() {
					g.fail("next:panic", "call %d of Next may panic or not end (%s)", call+1, o.St.FactString())
					continue
				}
				sp := l.spec.clone()
				seg, pens, want := g.specNext(o.St, sp)
				if sp.badQ != "" {
					g.fail("policy:ignored", "call %d of Next: %s", call+1, sp.badQ)
					continue
				}
				got, isB := asBool(o.Ret[0])
				if !isB {
					g.fail("next:result", "the result is %s", o.Ret[0].Key())
					continue
				}
				if got != want {
					g.fail("policy:result", "call %d of Next returns %v, want %v (expected segment %v; %s)", call+1, got, want, seg, o.St.FactString())
					continue
				}
				rv := g.eval(o.St, "Runes")
				ev := g.eval(o.St, "Err")
				pv := g.eval(o.St, "Penalties")
				if rv == nil || ev == nil || len(pv) != 2 {
					continue
				}
				tv, isT := rv[0].(*TupleV)
				if !isT {
					g.fail("segment", "the segment is %s", rv[0].Key())
					continue
				}
				var wantR []string
				for _, k := range seg {
					if k < 0 {
						wantR = append(wantR, "0")
					} else {
						wantR = append(wantR, g.runeSym(k).Key())
					}
				}
				var gotR []string
				for _, e := range tv.E {
					gotR = append(gotR, e.Key())
				}
				good := true
				chk := func(ok bool, key, f string, a ...interface{}) {
					if !ok {
						good = false
						g.fail(key, f, a...)
					}
				}
				if want {
					chk(strings.Join(gotR, ",") == strings.Join(wantR, ","), "segment", "call %d of Next: the segment is %v, want %v", call+1, gotR, wantR)
					chk(pv[0].Key() == pens[0].Key() && (pv[1].Key() == pens[1].Key() || g.sc.nb < 2), "penalties", "call %d of Next: penalties are %s, %s, want %s, %s", call+1, pv[0].Key(), pv[1].Key(), pens[0].Key(), pens[1].Key())
				} else {
					chk(len(gotR) == 0, "segment:after-end", "after Next has returned false a segment %v is reported", gotR)
					_, isNil := ev[0].(*Nil)
					if sp.err {
						chk(ev[0].Key() == "readError", "err:lost", "the reader failed, but Err() is %s", ev[0].Key())
					} else {
						chk(isNil, "err:spurious", "the text ended regularly, but Err() is %s", ev[0].Key())
					}
				}
				g.r.Oblig++
				if good {
					g.r.Disch++
				} else {
					continue
				}
				// every breaker saw every rune exactly once, in order
				g.breakerEvents(o.St)
				if !want {
					falses[sp] = falses[l.spec] + 1
				}
				if falses[sp] < 2 {
					nx = append(nx, live{o.St, sp})
				}
			}
		}
		lv = nx
	}
	g.r.Engine(g.ex)
	g.r.N("segmenter scenarios", 1)
}

func (g *segRun) breakerEvents(st *State) {
	cnt := map[string]int{}
	evs := st.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "newtext" {
			evs = evs[i:]
			break
		}
	}
	for _, e := range evs {
		if e.Kind == "start" || e.Kind == "proceed" {
			k := cnt[e.Kind+e.Name]
			cnt[e.Kind+e.Name]++
			want := g.runeSym(k).Key()
			if k >= g.sc.n {
				want = "0"
			}
			if e.Args[1].Key() != want || e.Args[2].Key() != "(class"+want+")" && e.Args[2].Key() != linSym("class"+want).Key() {
				g.fail("breaker:rune", "%s: event %d is rune %s with class %s, want %s", e.Name, k, e.Args[1].Key(), e.Args[2].Key(), want)
				return
			}
		}
	}
	n := -1
	for b := 0; b < g.sc.nb; b++ {
		for _, k := range []string{"start", "proceed"} {
			c := cnt[k+fmt.Sprintf("breaker%d", b)]
			if n < 0 {
				n = c
			}
			if c != n {
				g.fail("breaker:missed", "breaker %d: %d %s events, others have %d", b, c, k, n)
				return
			}
		}
	}
	g.r.Oblig++
	g.r.Disch++
}

// ---- scenario families ---------------------------------------------------

// segPatterns enumerates the behaviours of one breaker which obeys the contract.
func segPatterns(events, maxLam int) [][][2]int { // per event: lam, plen
	var res [][][2]int
	var rec func(k, prevLam int, cur [][2]int)
	rec = func(k, prevLam int, cur [][2]int) {
		if k == events {
			res = append(res, append([][2]int(nil), cur...))
			return
		}
		ml := k + 1
		if ml > maxLam {
			ml = maxLam
		}
		if k == events-1 {
			ml = 0 // no match is active after the end of the text
		}
		for lam := 0; lam <= ml; lam++ {
			if k < events-1 && lam > prevLam+1 {
				continue
			}
			for pl := 0; pl <= prevLam+1; pl++ {
				rec(k+1, lam, append(cur, [2]int{lam, pl}))
			}
		}
	}
	rec(0, 0, nil)
	return res
}

// steadyPatterns: the breaker assigns a penalty to every position with the
// same look-ahead everywhere.
func steadyPatterns(n int) [][][2]int {
	var res [][][2]int
	for la := 0; la <= 2; la++ {
		var a [][2]int
		for k := 0; k <= n; k++ {
			x := [2]int{la, la + 1}
			if k+1 < la {
				x[0] = k + 1
			}
			if k < la {
				x[1] = 0
			}
			if k == n {
				x[0] = 0
				if la > 0 {
					x[1] = 2
				}
			}
			a = append(a, x)
		}
		res = append(res, a)
	}
	return res
}

func mkScen(n int, end, source string, boz [2]bool, a, b [][2]int) segScen {
	sc := segScen{n: n, end: end, source: source, boz: boz, nb: 1}
	for i := range a {
		x := [2]int{a[i][0], 0}
		y := [2]int{a[i][1], 0}
		if b != nil {
			x[1], y[1] = b[i][0], b[i][1]
		}
		sc.lam = append(sc.lam, x)
		sc.plen = append(sc.plen, y)
	}
	if b != nil {
		sc.nb = 2
	}
	return sc
}

func runSegmenterPolicy(p *Prog, r *Report) {
	if p.Func("segment", "Segmenter.Next") == nil || p.Func("segment", "NewSegmenter") == nil {
		r.Fail("anchor", "?", "Segmenter.Next / NewSegmenter not found")
		return
	}
	var scs []segScen
	maxN := 2
	if r.Tier == "thorough" {
		maxN = 3
	}
	for n := 0; n <= maxN; n++ {
		pats := segPatterns(n+1, 2)
		for i, a := range pats {
			for s, source := range []string{"reader", "slice"} {
				if n > 1 && i%2 != s {
					continue
				}
				boz := [2]bool{i%3 == 1, i%5 < 2} // the second one is without effect
				scs = append(scs, mkScen(n, "eof", source, boz, a, nil))
			}
			if i%2 == 0 {
				scs = append(scs, mkScen(n, "err", "reader", [2]bool{}, a, nil))
			}
		}
	}
	// two breakers
	for n := 1; n <= 2; n++ {
		pats := segPatterns(n+1, 2)
		lim := 40
		if r.Tier == "thorough" {
			lim = 200
		}
		c := 0
		for i := range pats {
			for j := range pats {
				c++
				if (len(pats)*len(pats) > lim) && (i*7+j*13)%(len(pats)*len(pats)/lim+1) != 0 {
					continue
				}
				sc := mkScen(n, "eof", "reader", [2]bool{c%2 == 0, c%3 == 0}, pats[i], pats[j])
				scs = append(scs, sc)
				if len(scs)%4 == 0 { // more than two
					sc.nb = 3 + len(scs)/4%4
					scs = append(scs, sc)
				}
			}
		}
	}
	// long matches, ending with penalties for all of their runes
	for _, m := range []int{4, 6} {
		for i, two := range []bool{false, true} {
			var a, b [][2]int
			for k := 0; k <= m; k++ {
				a = append(a, [2]int{min(k+1, m), 0})
				b = append(b, [2]int{0, 0})
			}
			a[m] = [2]int{0, m + 1}
			b[m-1] = [2]int{0, 1}
			if !two {
				b = nil
			} else if m > 4 {
				continue
			}
			scs = append(scs, mkScen(m, "eof", "reader", [2]bool{i == 0 && m == 4, false}, a, b))
			if !two { // with a preliminary penalty
				a = append([][2]int(nil), a...)
				a[0][1], a[m][1] = 1, m+1
				scs = append(scs, mkScen(m, "eof", "reader", [2]bool{}, a, b))
			}
		}
	}
	for n := 3; n <= maxN+1; n++ {
		for i, a := range steadyPatterns(n) {
			scs = append(scs, mkScen(n, "eof", []string{"slice", "reader"}[i%2], [2]bool{false, i == 1}, a, nil))
		}
	}
	for _, sc := range scs {
		if len(r.Findings) > 40 {
			break
		}
		g := &segRun{p: p, r: r, sc: sc}
		g.run()
	}
}

// segEmitted reads the segment and the error after a call.
func (g *segRun) segEmitted(st *State) (runes []string, err Value, ok bool) {
	rv := g.eval(st, "Runes")
	ev := g.eval(st, "Err")
	if rv == nil || ev == nil {
		return nil, nil, false
	}
	tv, isT := rv[0].(*TupleV)
	if !isT {
		g.fail("segment", "the segment is %s", rv[0].Key())
		return nil, nil, false
	}
	for _, e := range tv.E {
		runes = append(runes, e.Key())
	}
	return runes, ev[0], true
}

// conserve: whatever the sequence of Next and BoundedNext calls, the segments
// are consecutive pieces of the text.
func (g *segRun) conserve(maxCalls int) {
	type live struct {
		st   *State
		done int // runes emitted
		bi   int // index into bounds
	}
	var lv []live
	for _, s := range g.setup() {
		lv = append(lv, live{s, 0, 0})
	}
	nextF, bnd := g.method("Next"), g.method("BoundedNext")
	if nextF == nil || bnd == nil {
		g.r.Fail("anchor", "?", "Next / BoundedNext not found")
		return
	}
	g.pos = g.p.Pos(nextF.Pos())
	for call := 0; call < maxCalls && len(lv) > 0; call++ {
		var nx []live
		for _, l := range lv {
			f, args, bound := nextF, []Value{g.recv}, -1
			if l.bi < len(g.sc.bounds) {
				bound = g.sc.bounds[l.bi]
				f, args = bnd, []Value{g.recv, linConst(int64(bound))}
			}
			outs, err := g.ex.Run(f, args, l.st)
			if err != nil {
				g.r.Undecided("Next", g.pos, "%s: %v", g.sc, err)
				continue
			}
			for _, o := range outs {
				if !o.Returns() {
					g.fail("conserve:panic", "call %d may panic or not end (%s)", call+1, o.St.FactString())
					continue
				}
				got, isB := asBool(o.Ret[0])
				runes, ev, ok := g.segEmitted(o.St)
				if !isB || !ok {
					g.fail("conserve:result", "call %d: result %s", call+1, o.Ret[0].Key())
					continue
				}
				g.r.Oblig++
				n := l
				n.st = o.St
				if !got {
					if len(runes) > 0 {
						g.fail("conserve:after-end", "call %d returned false, but a segment %v is reported", call+1, runes)
						continue
					}
					if bound >= 0 {
						n.bi++
						nx = append(nx, n)
					}
					_, isNil := ev.(*Nil)
					if isNil && bound < 0 && n.done < g.sc.n && g.forced(o.St, n.done) {
						g.fail("conserve:lost", "call %d: the text is reported to be finished without an error after %d of %d runes, although its end is a break opportunity", call+1, n.done, g.sc.n)
						continue
					}
					g.r.Disch++
					continue
				}
				good := len(runes) > 0
				for i, r := range runes {
					if n.done+i >= g.sc.n || r != g.runeSym(n.done+i).Key() {
						good = false
					}
				}
				if !good {
					g.fail("conserve:segment", "call %d (bound %d): after %d runes the segment %v follows (%s)", call+1, bound, n.done, short(runes), o.St.FactString())
					continue
				}
				n.done += len(runes)
				if bound >= 0 && n.done > bound {
					g.fail("conserve:bound", "call %d: the segment ends at rune %d, beyond the bound %d", call+1, n.done, bound)
					continue
				}
				g.r.Disch++
				nx = append(nx, n)
			}
		}
		lv = nx
		if len(lv) > 300 {
			lv = lv[:300]
		}
	}
	g.r.Engine(g.ex)
	g.r.N("segmenter scenarios", 1)
}

// forced tells if the path has decided that the last rune of the text is a break opportunity.
func (g *segRun) forced(st *State, done int) bool {
	s := &segSpec{}
	for s.read <= g.sc.n {
		k := s.read
		s.read++
		if k >= g.sc.n {
			s.q = append(s.q, specAtom{-1, [2]*Lin{linConst(infPenalty), linConst(infPenalty)}})
		} else {
			s.q = append(s.q, specAtom{k, [2]*Lin{linConst(0), linConst(0)}})
		}
		for b := 0; b < g.sc.nb; b++ {
			for j := 0; j < g.sc.plen[k][alike(b)] && j < len(s.q); j++ {
				i := len(s.q) - 1 - j
				s.q[i].p[min(b, 1)] = linAdd(s.q[i].p[min(b, 1)], g.penSym(b, k, j), 1)
			}
		}
	}
	if g.sc.n == 0 {
		return false
	}
	k, v := g.possible(st, s.q[g.sc.n-1])
	return k && v
}

func short(s []string) string {
	if len(s) > 8 {
		return fmt.Sprintf("%v…(%d)", s[:8], len(s))
	}
	return fmt.Sprint(s)
}

// longScen: a text of n runes without a break opportunity before its end.
func longScen(n int, source string) segScen {
	sc := segScen{n: n, end: "eof", nb: 1, source: source}
	for k := 0; k < n; k++ {
		sc.lam = append(sc.lam, [2]int{k + 1, 0})
		sc.plen = append(sc.plen, [2]int{0, 0})
	}
	sc.lam = append(sc.lam, [2]int{0, 0})
	sc.plen = append(sc.plen, [2]int{2, 0})
	return sc
}

func runSegmenterConserve(p *Prog, r *Report) {
	var scs []segScen
	maxN := 2
	if r.Tier == "thorough" {
		maxN = 3
	}
	for n := 1; n <= maxN; n++ {
		pats := segPatterns(n+1, 2)
		for i, a := range pats {
			for bi, bounds := range [][]int{{1}, {0}, {2}, {1, 2}, {n + 1}, {1, 1}} {
				if n > 1 && (i+bi)%3 != 0 && r.Tier != "thorough" {
					continue
				}
				source := []string{"reader", "slice"}[(i+bi)%2]
				sc := mkScen(n, "eof", source, [2]bool{i%4 == 3, false}, a, nil)
				sc.bounds = bounds
				scs = append(scs, sc)
			}
		}
	}
	for _, sc := range scs {
		if len(r.Findings) > 40 {
			return
		}
		g := &segRun{p: p, r: r, sc: sc}
		g.conserve(sc.n + 6)
	}
	// longer texts with a break opportunity possible after every rune, delivered
	// immediately or after a look-ahead
	deep := 4
	if r.Tier == "thorough" {
		deep = 6
	}
	for n := 3; n <= deep; n++ {
		for i, a := range steadyPatterns(n) {
			for s, source := range []string{"slice", "reader"} {
				for bi, bounds := range [][]int{nil, {n - 1}, {2, 3}, {1, 2, 3}} {
					if bi > 0 && (bi+i+s)%2 == 0 {
						continue
					}
					sc := mkScen(n, "eof", source, [2]bool{i == 2, false}, a, nil)
					sc.bounds = bounds
					if len(r.Findings) > 40 {
						return
					}
					g := &segRun{p: p, r: r, sc: sc}
					g.conserve(n + 4)
				}
			}
		}
	}
	longs := []int{70, 130, 4200}
	for _, n := range longs {
		for _, source := range []string{"reader", "slice"} {
			sc := longScen(n, source)
			g := &segRun{p: p, r: r, sc: sc}
			g.conserve(2)
		}
	}
	// a buffer given by the client, large enough or too small
	for buf := 1; buf <= 4; buf++ {
		sc := longScen(3, "reader")
		sc.buf = buf
		g := &segRun{p: p, r: r, sc: sc}
		g.conserve(3)
	}
}

// S02: error contract. S03: re-initialisation.
func runSegmenterErrors(p *Prog, r *Report) {
	nextF := p.Func("segment", "Segmenter.Next")
	bnd := p.Func("segment", "Segmenter.BoundedNext")
	if nextF == nil || bnd == nil {
		r.Fail("anchor", "?", "Segmenter.Next not found")
		return
	}
	// 1. Next before Init
	for _, which := range []string{"Next", "BoundedNext"} {
		g := &segRun{p: p, r: r, sc: segScen{n: 1, end: "eof", source: "none", nb: 1, lam: [][2]int{{}, {}}, plen: [][2]int{{}, {}}}}
		g.pos = p.Pos(nextF.Pos())
		for _, st := range g.setup() {
			f, args := nextF, []Value{g.recv}
			if which == "BoundedNext" {
				f, args = bnd, []Value{g.recv, linConst(3)}
			}
			for round := 1; round <= 2; round++ {
				outs, err := g.ex.Run(f, args, st)
				if err != nil {
					r.Undecided("uninitialised", g.pos, "%v", err)
					break
				}
				for _, o := range outs {
					if !o.Returns() {
						r.Fail("uninitialised:panic", g.pos, "%s on a segmenter which has not been initialised panics", which)
						continue
					}
					v, isB := asBool(o.Ret[0])
					r.Check(isB && !v, "uninitialised:result", g.pos, "%s on a segmenter which has not been initialised returns %s", which, o.Ret[0].Key())
					want := o.St.Load(g.ex.global(p.SPkg["segment"].Var("ErrNotInitialized")), nil)
					if ev := g.eval(o.St, "Err"); ev != nil {
						r.Check(ev[0].Key() == want.Key(), "uninitialised:err", g.pos, "Err() is %s after %s on a segmenter which has not been initialised", ev[0].Key(), which)
					}
					st = o.St
				}
			}
		}
		r.Engine(g.ex)
	}
	// 2. read errors at every point, with and without bounds: see also the policy check
	for n := 0; n <= 2; n++ {
		for _, a := range segPatterns(n+1, 2) {
			g := &segRun{p: p, r: r, sc: mkScen(n, "err", "reader", [2]bool{}, a, nil)}
			g.run()
		}
	}
	// 3. a segment which does not fit the client's buffer
	tooLong := func(st *State, g *segRun) Value {
		return st.Load(g.ex.global(p.SPkg["segment"].Var("ErrTooLong")), nil)
	}
	for n := 1; n <= 4; n++ {
		for buf := 1; buf <= 5; buf++ {
			sc := longScen(n, "reader")
			sc.buf = buf
			g := &segRun{p: p, r: r, sc: sc}
			g.pos = p.Pos(nextF.Pos())
			for _, st := range g.setup() {
				outs, err := g.ex.Run(nextF, []Value{g.recv}, st)
				if err != nil {
					r.Undecided("toolong", g.pos, "%v", err)
					break
				}
				for _, o := range outs {
					if !o.Returns() {
						g.fail("toolong:panic", "Next panics")
						continue
					}
					v, _ := asBool(o.Ret[0])
					runes, ev, ok := g.segEmitted(o.St)
					if !ok {
						continue
					}
					if g.forced(o.St, 0) { // the end of the text is a break opportunity
						if n <= buf {
							r.Check(v && len(runes) == n, "toolong:fits", g.pos, "%s: a segment of %d runes is reported as %v %v for a buffer of %d", sc, n, v, short(runes), buf)
						} else {
							r.Check(!v && ev.Key() == tooLong(o.St, g).Key(), "toolong:err", g.pos, "%s: a segment of %d runes and a buffer of %d: result %v, segment %v, Err() %s; want false and ErrTooLong", sc, n, buf, v, short(runes), ev.Key())
						}
					}
				}
			}
			r.Engine(g.ex)
		}
	}
}

// fresh: a segmenter which has just been initialised has neither a segment,
// nor penalties, nor an error, and accepts another buffer.
func (g *segRun) fresh(states []*State) {
	set := g.method("RuneBuffer")
	for _, st := range states {
		runes, ev, ok := g.segEmitted(st)
		if !ok {
			continue
		}
		if g.sc.buf == 0 {
			g.r.Check(len(runes) == 0, "fresh:segment", g.pos, "%s: there is a segment %v before the first request", g.sc, short(runes))
		}
		_, isNil := ev.(*Nil)
		g.r.Check(isNil, "fresh:error", g.pos, "%s: Err() is %s before the first request", g.sc, ev.Key())
		if pv := g.eval(st, "Penalties"); len(pv) == 2 {
			z := linConst(0).Key()
			g.r.Check(pv[0].Key() == z && pv[1].Key() == z, "fresh:penalties", g.pos, "%s: Penalties() is %s, %s before the first request", g.sc, pv[0].Key(), pv[1].Key())
		}
		if set == nil || g.sc.source == "none" {
			continue
		}
		c := st.Clone()
		arr := g.ex.NewArr("otherbuf", types.Typ[types.Rune], false)
		n := linConst(3)
		outs, err := g.ex.Run(set, []Value{g.recv, &SliceV{O: arr, Off: linConst(0), Len: n, Cap: n, T: types.NewSlice(types.Typ[types.Rune])}, n}, c)
		if err != nil {
			g.r.Undecided("RuneBuffer", g.pos, "%s: %v", g.sc, err)
			continue
		}
		for _, o := range outs {
			g.r.Check(o.Returns(), "fresh:buffer", g.pos, "%s: RuneBuffer panics directly after initialisation", g.sc)
		}
	}
}

func runSegmenterReinit(p *Prog, r *Report) {
	nextF := p.Func("segment", "Segmenter.Next")
	bnd := p.Func("segment", "Segmenter.BoundedNext")
	if nextF == nil || bnd == nil {
		r.Fail("anchor", "?", "Segmenter.Next not found")
		return
	}
	brk := func(n int, pl int) [][2]int { // break opportunity after every rune
		var a [][2]int
		for k := 0; k <= n; k++ {
			x := [2]int{1, pl}
			if k == 0 {
				x[1] = 0
			}
			if k == n {
				x[0] = 0
			}
			a = append(a, x)
		}
		return a
	}
	type first struct {
		name  string
		sc    segScen
		calls int
		bound int
	}
	var fs []first
	for _, src := range []string{"reader", "slice"} {
		fs = append(fs,
			first{"before any call", mkScen(2, "eof", src, [2]bool{}, brk(2, 2), nil), 0, -1},
			first{"in the middle of a text", mkScen(3, "eof", src, [2]bool{}, brk(3, 2), nil), 1, -1},
			first{"at the end of a text", mkScen(2, "eof", src, [2]bool{}, brk(2, 2), nil), 4, -1},
			first{"after reaching a bound", mkScen(3, "eof", src, [2]bool{}, brk(3, 2), nil), 3, 1},
		)
	}
	fs = append(fs, first{"after a read error", mkScen(2, "err", "reader", [2]bool{}, brk(2, 2), nil), 3, -1},
		first{"after a call before initialisation", segScen{n: 0, end: "eof", source: "none", nb: 1, lam: [][2]int{{}}, plen: [][2]int{{}}}, 1, -1})
	lng := longScen(4, "reader")
	lng.buf = 2
	fs = append(fs, first{"after a segment which was too long", lng, 1, -1})
	for _, f := range fs {
		var second []segScen
		for n := 0; n <= 2; n++ {
			for i, a := range segPatterns(n+1, 2) {
				if n == 2 && i%3 != 0 && r.Tier != "thorough" {
					continue
				}
				second = append(second, mkScen(n, "eof", []string{"reader", "slice"}[i%2], [2]bool{}, a, nil))
			}
		}
		second = append(second, mkScen(0, "eof", "nil slice", [2]bool{}, segPatterns(1, 2)[0], nil))
		second = append(second, mkScen(1, "err", "reader", [2]bool{}, segPatterns(2, 1)[0], nil))
		g := &segRun{p: p, r: r, sc: f.sc}
		g.pos = p.Pos(nextF.Pos())
		states := g.setup()
		for c := 0; c < f.calls; c++ {
			fn, args := nextF, []Value{g.recv}
			if f.bound >= 0 {
				fn, args = bnd, []Value{g.recv, linConst(int64(f.bound))}
			}
			var nx []*State
			for _, st := range states {
				outs, err := g.ex.Run(fn, args, st)
				if err != nil {
					r.Undecided("first text", g.pos, "%v", err)
					continue
				}
				for _, o := range outs {
					if o.Returns() {
						nx = append(nx, o.St)
					}
				}
			}
			states = nx
			if len(states) > 12 {
				var sel []*State
				for i := 0; i < 12; i++ {
					sel = append(sel, states[i*len(states)/12])
				}
				states = sel
			}
		}
		if f.sc.buf > 0 { // the buffer of the client stays in use
			for i := range second {
				second[i].n = 0
			}
			second = second[:1]
		}
		for _, sc := range second {
			if len(r.Findings) > 40 {
				return
			}
			g2 := *g
			g2.sc = sc
			g2.phase = 1
			var from []*State
			for _, st := range states {
				from = append(from, st.Clone())
			}
			// the hooks refer to g
			g.sc, g.phase = sc, 1
			before := len(r.Findings)
			from = g.initText(from)
			g.fresh(from)
			g.explore(from)
			for i := before; i < len(r.Findings); i++ {
				r.Findings[i].Key = "reinit:" + r.Findings[i].Key
				r.Findings[i].Msg = "a text after re-initialisation " + f.name + ": " + r.Findings[i].Msg
			}
			g.sc, g.phase = f.sc, 0
			_ = g2
		}
	}
}
