package main

// Comparison of the extracted break rules with the rules of UAX#29: the two
// transducers are run in lock step over the class alphabet; a state of the
// product is (recognizers with their registers, breaker fields, pending
// boundary sums, specification state).

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type specState struct {
	raw, eff, pre int64
	ri            int
	emo           int
	pend          string
	ign           int
}

type specOut struct {
	ns      specState
	dec     byte // decision for the boundary before c: 'B','J','?' or 0 (none)
	rule    string
	res     byte // resolution of the pending boundary, 0 if none
	resRule string
}

type breakSpec struct {
	init   specState
	step   func(s specState, c int64) specOut
	eot    int64
	alpha  []int64
	maxIgn int
}

type prodRec struct {
	fn   *ssa.Function
	m, e int64
	gb   bool
}
type prodBnd struct {
	sum  int64
	cut  bool
	spec byte
	rule string
	who  string // rules that contributed
}
type prodState struct {
	recs []prodRec
	ints map[string]int64
	bls  map[string]bool
	bnd  []prodBnd // [0] = boundary after the last rune, [1] before it, ...
	sp   specState
	word []int64
	long int64
}

func (s *prodState) key(m *breakerModel, live map[string]bool) string {
	var b strings.Builder
	for _, r := range s.recs {
		e := r.e
		if !live["e:"+r.fn.String()] {
			e = -1
		}
		fmt.Fprintf(&b, "%s,%d,%d,%v;", r.fn.Name(), r.m, e, r.gb)
	}
	var ks []string
	for k := range s.ints {
		if live["f:"+k] {
			ks = append(ks, fmt.Sprintf("%s=%d", k, s.ints[k]))
		}
	}
	for k := range s.bls {
		if s.bls[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	for _, x := range s.bnd {
		fmt.Fprintf(&b, "|%d%v%c", x.sum, x.cut, x.spec)
	}
	fmt.Fprintf(&b, "#%v", s.sp)
	return b.String()
}

func mentions(v Value, sym string) bool {
	switch x := v.(type) {
	case *Lin:
		for _, t := range x.Terms {
			if t.Sym == sym {
				return true
			}
		}
	case *Sym:
		return x.Name == sym
	case *Term:
		for _, a := range x.Args {
			if mentions(a, sym) {
				return true
			}
		}
	case *SliceV:
		return mentions(x.Off, sym) || mentions(x.Len, sym)
	}
	return false
}

func stMentions(st *State, sym string) bool {
	for _, l := range append(append(append([]*Lin(nil), st.le...), st.eq...), st.ne...) {
		if mentions(l, sym) {
			return true
		}
	}
	for _, v := range st.bfv {
		if mentions(v, sym) {
			return true
		}
	}
	for _, ev := range st.Events() {
		if ev.Kind == "store" && ev.P != nil && (strings.HasPrefix(ev.P.O.Name, "make") || strings.HasPrefix(ev.P.O.Name, "append") || strings.HasPrefix(ev.P.O.Name, "alloc")) {
			for _, p := range ev.P.Path {
				if p.Idx != nil && mentions(p.Idx, sym) {
					return true
				}
			}
			for _, a := range ev.Args {
				if mentions(a, sym) {
					return true
				}
			}
		}
	}
	return false
}

// liveness of the Expect register per state function and of breaker fields.
func (m *breakerModel) liveness(alpha []int64) map[string]bool {
	live := map[string]bool{}
	// make sure all reachable functions are tabulated
	work := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	fieldRead := func(st *State) {
		for _, n := range m.scalar {
			if stMentions(st, n) {
				live["f:"+n] = true
			}
		}
		for n := range m.initEnv {
			if stMentions(st, n) {
				live["f:"+n] = true
			}
		}
	}
	for _, c := range alpha {
		for _, so := range m.Start(c) {
			fieldRead(so.st)
			for _, r := range so.recs {
				add(r.fn)
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range alpha {
			for _, so := range m.Step(f, c, true) {
				add(so.next)
				fieldRead(so.st)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range seen {
			k := "e:" + f.String()
			if live[k] {
				continue
			}
			for _, c := range alpha {
				for _, so := range m.Step(f, c, true) {
					if stMentions(so.st, "e") || mentions(so.pen, "e") || mentions(so.m, "e") ||
						so.next != nil && live["e:"+so.next.String()] && mentions(so.e, "e") {
						live[k] = true
					}
					for _, u := range so.upd {
						if mentions(u.val, "e") {
							live[k] = true
						}
					}
				}
			}
			if live[k] {
				changed = true
			}
		}
	}
	// Expect initialised from a breaker field makes that field live
	for _, c := range alpha {
		for _, so := range m.Start(c) {
			for _, r := range so.recs {
				for n := range m.initEnv {
					if mentions(r.e, n) && live["e:"+r.fn.String()] || mentions(r.m, n) {
						live["f:"+n] = true
					}
				}
			}
		}
	}
	return live
}

type prodRunner struct {
	m      *breakerModel
	sp     *breakSpec
	r      *Report
	inf    int64
	states int
	trans  int
	known  map[string]bool
	cache  map[interface{}][]Outcome
}

func (pr *prodRunner) word(w []int64) string {
	var p []string
	for _, c := range w {
		p = append(p, strings.TrimSuffix(pr.m.names[c], "Class"))
	}
	return strings.Join(p, " ")
}

func pickOut(st []*State, e *env, what string) int {
	found := -1
	for i, s := range st {
		if guardHolds(s, e) {
			if found >= 0 {
				tcPanic("%s: two paths apply", what)
			}
			found = i
		}
	}
	if found < 0 {
		tcPanic("%s: no path applies", what)
	}
	return found
}

// deliver advances the implementation side by class c.
func (pr *prodRunner) deliver(s *prodState, c int64) *prodState {
	m := pr.m
	n := &prodState{ints: map[string]int64{}, bls: map[string]bool{}, sp: s.sp}
	for k, v := range s.ints {
		n.ints[k] = v
	}
	for k, v := range s.bls {
		n.bls[k] = v
	}
	n.word = append(append([]int64(nil), s.word...), c)
	e := &env{ints: map[string]int64{}, bools: n.bls}
	setInts := func() {
		for k, v := range n.ints {
			e.ints[k] = v
		}
	}
	setInts()
	apply := func(us []fieldUpd) {
		type iu struct {
			n string
			i int64
			b bool
			k bool
		}
		var l []iu
		for _, u := range us {
			if _, ok := u.val.(*Lin); ok {
				l = append(l, iu{u.name, evalInt(u.val, e), false, true})
			} else {
				l = append(l, iu{u.name, 0, evalBool(u.val, e), false})
			}
		}
		for _, u := range l {
			if u.k {
				n.ints[u.n] = u.i
			} else {
				n.bls[u.n] = u.b
			}
		}
		setInts()
	}
	// start rules
	recs := append([]prodRec(nil), s.recs...)
	sos := m.Start(c)
	var sts []*State
	for _, so := range sos {
		sts = append(sts, so.st)
	}
	so := sos[pickOut(sts, e, "StartRulesFor "+m.names[c])]
	for _, r := range so.recs {
		recs = append(recs, prodRec{r.fn, evalInt(r.m, e), evalInt(r.e, e), r.extraE == nil})
	}
	apply(so.upd)
	// publish
	total := []int64{}
	who := map[int]string{}
	longest := int64(0)
	var keep []prodRec
	for i := len(recs) - 1; i >= 0; i-- {
		r := recs[i]
		tab := m.Step(r.fn, c, r.gb)
		e.ints["m"], e.ints["e"] = r.m, r.e
		sts = sts[:0]
		for _, o := range tab {
			sts = append(sts, o.st)
		}
		o := tab[pickOut(sts, e, r.fn.Name()+" on "+m.names[c])]
		pen := evalIntSlice(o.st, o.pen, e)
		for j, p := range pen {
			if j >= len(total) {
				total = append(total, p)
			} else {
				total[j] += p
			}
			if p != 0 {
				who[j] += " " + r.fn.Name()
			}
		}
		nm, ne := evalInt(o.m, e), evalInt(o.e, e)
		apply(o.upd)
		if o.next != nil {
			keep = append(keep, prodRec{o.next, nm, ne, r.gb})
			if nm > longest {
				longest = nm
			}
		}
	}
	delete(e.ints, "m")
	delete(e.ints, "e")
	for i, j := 0, len(keep)-1; i < j; i, j = i+1, j-1 {
		keep[i], keep[j] = keep[j], keep[i]
	}
	n.recs = keep
	// ProceedWithRune
	outs, upds := m.proceed(len(total), c)
	e.ints["longest"] = longest
	for i, p := range total {
		e.ints[fmt.Sprintf("pub[%d]", i)] = p
	}
	sts = sts[:0]
	for _, o := range outs {
		sts = append(sts, o.St)
	}
	k := pickOut(sts, e, "ProceedWithRune")
	post := outs[k].St
	final := pr.penaltiesAfter(post, e)
	lam := pr.longestAfter(post, e)
	apply(upds[k])
	n.long = lam
	// boundaries
	n.bnd = append([]prodBnd{{}}, s.bnd...)
	for j, p := range final {
		if j >= len(n.bnd) {
			if j > len(n.word) {
				continue // before the start of the text: dropped by the segmenter
			}
			if p != 0 && j < len(n.word) {
				tcPanic("penalty placed %d runes back, outside the tracked window, after %s", j, pr.word(n.word))
			}
			continue
		}
		n.bnd[j].sum += p
		if p != 0 {
			w := who[j]
			if w == "" {
				w = " default"
			}
			n.bnd[j].who += w
		}
	}
	for j := range n.bnd {
		if int64(j) >= lam && !n.bnd[j].cut {
			if x := n.bnd[j].sum; x != 0 && x < pr.inf {
				n.bnd[j].cut = true
			}
		}
	}
	return n
}

func (pr *prodRunner) getter(fn *ssa.Function, post *State) []Outcome {
	type key struct {
		f *ssa.Function
		s *State
	}
	if pr.cache == nil {
		pr.cache = map[interface{}][]Outcome{}
	}
	k := key{fn, post}
	if o, ok := pr.cache[k]; ok {
		return o
	}
	outs, err := pr.m.ex.Run(fn, []Value{&Ptr{O: pr.m.gb}}, post.Clone())
	if err != nil {
		tcPanic("%s: %v", fn.Name(), err)
	}
	pr.cache[k] = outs
	return outs
}

func (pr *prodRunner) penaltiesAfter(post *State, e *env) []int64 {
	outs := pr.getter(pr.m.mPen, post)
	for _, o := range outs {
		if o.Returns() && guardHolds(o.St, e) {
			return evalIntSlice(o.St, o.Ret[0], e)
		}
	}
	tcPanic("Penalties: no path applies")
	return nil
}
func (pr *prodRunner) longestAfter(post *State, e *env) int64 {
	outs := pr.getter(pr.m.mLongest, post)
	for _, o := range outs {
		if o.Returns() && guardHolds(o.St, e) {
			return evalInt(o.Ret[0], e)
		}
	}
	tcPanic("LongestActiveMatch: no path applies")
	return 0
}

func (pr *prodRunner) mismatch(s *prodState, j int, got string) {
	b := s.bnd[j]
	if b.spec == 0 {
		return
	}
	at := len(s.word) - j
	var w []string
	for i, c := range s.word {
		if i == at {
			w = append(w, "▮")
		}
		w = append(w, strings.TrimSuffix(pr.m.names[c], "Class"))
	}
	key := fmt.Sprintf("%s:%s", b.rule, got)
	if pr.known[key] {
		return
	}
	pr.known[key] = true
	src := "rule state functions"
	p := "?"
	for _, f := range strings.Fields(b.who) {
		if fn := pr.fnByName(f); fn != nil {
			p = pr.m.p.Pos(fn.Pos())
			src = f
		}
	}
	if p == "?" {
		p = pr.m.p.Pos(pr.m.mStart.Pos())
		src = "no rule contributed"
	}
	pr.r.Fail(key, p, "class sequence [%s]: %s requires '%c' at ▮ but the rules give '%s' (penalty sum %d, contributed by:%s; last contributor %s)",
		strings.Join(w, " "), b.rule, b.spec, got, b.sum, orNone(b.who), src)
}
func orNone(s string) string {
	if s == "" {
		return " nobody"
	}
	return s
}
func (pr *prodRunner) fnByName(n string) *ssa.Function {
	for _, f := range pr.m.fns {
		if f.Name() == n {
			return f
		}
	}
	return nil
}

func (pr *prodRunner) judge(s *prodState, j int, final bool) {
	b := s.bnd[j]
	pr.r.Oblig++
	switch {
	case b.spec == 'J' && b.cut:
		pr.mismatch(s, j, "break")
	case b.spec == 'B' && !b.cut && final:
		pr.mismatch(s, j, "no-break")
	default:
		pr.r.Disch++
	}
}

// Run explores the product.
func (pr *prodRunner) Run(maxStates int) {
	m := pr.m
	live := m.liveness(append(append([]int64(nil), pr.sp.alpha...), pr.sp.eot))
	init := &prodState{ints: map[string]int64{}, bls: map[string]bool{}, sp: pr.sp.init, bnd: []prodBnd{{}}}
	for k, v := range m.initEnv {
		init.ints[k] = v
	}
	for k, v := range m.initB {
		init.bls[k] = v
	}
	// the boundary before the first rune is not judged
	seen := map[string]bool{init.key(m, live): true}
	queue := []*prodState{init}
	start, limit := time.Now(), 600*time.Second
	var bad0 time.Time
	badN := 0
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		pr.states++
		if len(pr.known) > 0 {
			// the property is violated: look for further kinds of violations only for a while
			if bad0.IsZero() {
				bad0, badN = time.Now(), pr.states
			}
			if time.Since(bad0) > 40*time.Second || pr.states > badN+40000 {
				return
			}
		} else if time.Since(start) > limit {
			tcPanic("more than %d product states in %v", pr.states, limit)
		}
		if pr.states > maxStates {
			tcPanic("more than %d product states (breaker state grows without bound), e.g. after [%s]", maxStates, pr.word(s.word))
		}
		for _, c := range append(append([]int64(nil), pr.sp.alpha...), pr.sp.eot) {
			so := pr.sp.step(s.sp, c)
			if so.ns.ign > pr.sp.maxIgn {
				continue
			}
			pr.trans++
			n := pr.deliver(s, c)
			n.sp = so.ns
			if so.res != 0 {
				for j := range n.bnd {
					if n.bnd[j].spec == '?' {
						n.bnd[j].spec, n.bnd[j].rule = so.res, so.resRule
					}
				}
			}
			if len(s.word) > 0 {
				n.bnd[1].spec, n.bnd[1].rule = so.dec, so.rule
			} else {
				n.bnd[1].spec = 0
			}
			n.bnd[0].spec = 0
			reach := n.long
			for _, r := range n.recs {
				if r.m > reach {
					reach = r.m
				}
			}
			if c == pr.sp.eot {
				for j := 1; j < len(n.bnd); j++ {
					pr.judge(n, j, true)
				}
				continue
			}
			// judge what is decided
			for j := range n.bnd {
				if j == 0 {
					continue
				}
				if n.bnd[j].cut && n.bnd[j].spec == 'J' {
					pr.judge(n, j, false)
				}
			}
			// drop boundaries that nothing can reach any more
			last := len(n.bnd) - 1
			for last > 1 && int64(last) > reach+1 && n.bnd[last].spec != '?' {
				pr.judge(n, last, true)
				last--
			}
			n.bnd = n.bnd[:last+1]
			k := n.key(m, live)
			if !seen[k] {
				seen[k] = true
				queue = append(queue, n)
			}
		}
	}
}

// ---- UAX#29 word boundary rules -------------------------------------------

func wordSpec(m *breakerModel, maxIgn int) *breakSpec {
	c := func(n string) int64 {
		v, ok := m.classes[n]
		if !ok {
			tcPanic("class constant %s not found", n)
		}
		return v
	}
	AL, CR, DQ, EX, ENL, FO, HL, KA, LF := c("ALetterClass"), c("CRClass"), c("Double_QuoteClass"), c("ExtendClass"), c("ExtendNumLetClass"), c("FormatClass"), c("Hebrew_LetterClass"), c("KatakanaClass"), c("LFClass")
	ML, MN, MNL, NL, NU, RI, SQ, WS, ZW := c("MidLetterClass"), c("MidNumClass"), c("MidNumLetClass"), c("NewlineClass"), c("NumericClass"), c("Regional_IndicatorClass"), c("Single_QuoteClass"), c("WSegSpaceClass"), c("ZWJClass")
	EP, OT, EOT := c("emojiPictographic"), c("Other"), c("eot")
	const SOT, NONE = -1, -2
	ah := func(x int64) bool { return x == AL || x == HL }
	nl := func(x int64) bool { return x == NL || x == CR || x == LF }
	mnlq := func(x int64) bool { return x == MNL || x == SQ }
	ign := func(x int64) bool { return x == EX || x == FO || x == ZW }
	sp := &breakSpec{eot: EOT, maxIgn: maxIgn, alpha: []int64{AL, CR, DQ, EX, ENL, FO, HL, KA, LF, ML, MN, MNL, NL, NU, RI, SQ, WS, ZW, EP, OT}}
	sp.init = specState{raw: SOT, eff: SOT, pre: SOT}
	sp.step = func(s specState, c int64) (o specOut) {
		o.ns = s
		// advance
		skip := ign(c) && s.raw != SOT && !nl(s.raw)
		o.ns.raw = c
		if skip {
			o.ns.ign++
		} else {
			o.ns.ign = 0
			o.ns.pre = s.eff
			o.ns.eff = c
			if ign(c) {
				o.ns.eff = NONE
			}
			if c == RI {
				o.ns.ri = (s.ri + 1) & 1
			} else {
				o.ns.ri = 0
			}
			// only the classes the rules look at two back matter
			if !ah(o.ns.pre) && o.ns.pre != NU {
				o.ns.pre = NONE
			}
			if !(o.ns.eff == ML || mnlq(o.ns.eff) || o.ns.eff == DQ || o.ns.eff == MN) {
				o.ns.pre = NONE
			}
		}
		if s.pend != "" && !skip {
			o.ns.pend = ""
			o.res, o.resRule = 'B', "WB999"
			if s.pend == "WB6" && ah(c) || s.pend == "WB7b" && c == HL || s.pend == "WB12" && c == NU {
				o.res = 'J'
			}
			o.resRule = s.pend
			if c == EOT {
				o.res = 'B'
			}
		}
		d := func(x byte, rule string) specOut { o.dec, o.rule = x, rule; return o }
		switch {
		case s.raw == SOT:
			return d(0, "WB1")
		case c == EOT:
			return d('B', "WB2")
		case s.raw == CR && c == LF:
			return d('J', "WB3")
		case nl(s.raw):
			return d('B', "WB3a")
		case nl(c):
			return d('B', "WB3b")
		case s.raw == ZW && c == EP:
			return d('J', "WB3c")
		case s.raw == WS && c == WS:
			return d('J', "WB3d")
		case ign(c):
			return d('J', "WB4")
		}
		p, pp := s.eff, s.pre
		switch {
		case ah(p) && ah(c):
			return d('J', "WB5")
		case p == HL && c == SQ:
			return d('J', "WB7a")
		case ah(p) && (c == ML || mnlq(c)):
			o.ns.pend = "WB6"
			return d('?', "WB6")
		case ah(pp) && (p == ML || mnlq(p)) && ah(c):
			return d('J', "WB7")
		case p == HL && c == DQ:
			o.ns.pend = "WB7b"
			return d('?', "WB7b")
		case pp == HL && p == DQ && c == HL:
			return d('J', "WB7c")
		case p == NU && c == NU:
			return d('J', "WB8")
		case ah(p) && c == NU:
			return d('J', "WB9")
		case p == NU && ah(c):
			return d('J', "WB10")
		case pp == NU && (p == MN || mnlq(p)) && c == NU:
			return d('J', "WB11")
		case p == NU && (c == MN || mnlq(c)):
			o.ns.pend = "WB12"
			return d('?', "WB12")
		case p == KA && c == KA:
			return d('J', "WB13")
		case (ah(p) || p == NU || p == KA || p == ENL) && c == ENL:
			return d('J', "WB13a")
		case p == ENL && (ah(c) || c == NU || c == KA):
			return d('J', "WB13b")
		case p == RI && c == RI && s.ri == 1:
			return d('J', "WB15/16")
		}
		return d('B', "WB999")
	}
	return sp
}

// ---- UAX#29 grapheme cluster boundary rules ---------------------------------

func graphemeSpec(m *breakerModel, maxIgn int) *breakSpec {
	c := func(n string) int64 {
		v, ok := m.classes[n]
		if !ok {
			tcPanic("class constant %s not found", n)
		}
		return v
	}
	CN, CR, EX, L, LF, LV, LVT, PP, RI, SM, T, V, ZW := c("ControlClass"), c("CRClass"), c("ExtendClass"), c("LClass"), c("LFClass"), c("LVClass"), c("LVTClass"), c("PrependClass"), c("Regional_IndicatorClass"), c("SpacingMarkClass"), c("TClass"), c("VClass"), c("ZWJClass")
	EP, ANY, EOT := c("emojiPictographic"), c("Any"), c("eot")
	const SOT = -1
	sp := &breakSpec{eot: EOT, maxIgn: maxIgn, alpha: []int64{CN, CR, EX, L, LF, LV, LVT, PP, RI, SM, T, V, ZW, EP, ANY}}
	sp.init = specState{raw: SOT}
	ctl := func(x int64) bool { return x == CN || x == CR || x == LF }
	sp.step = func(s specState, c int64) (o specOut) {
		o.ns = s
		o.ns.raw = c
		if c == RI {
			o.ns.ri = (s.ri + 1) & 1
		} else {
			o.ns.ri = 0
		}
		switch {
		case c == EP:
			o.ns.emo, o.ns.ign = 1, 0
		case c == EX && s.emo == 1:
			o.ns.ign++
		case c == ZW && s.emo >= 1:
			if s.emo == 1 {
				o.ns.emo = 2
			} else {
				o.ns.emo = 0
			}
		default:
			o.ns.emo, o.ns.ign = 0, 0
		}
		p := s.raw
		d := func(x byte, rule string) specOut { o.dec, o.rule = x, rule; return o }
		switch {
		case p == SOT:
			return d(0, "GB1")
		case c == EOT:
			return d('B', "GB2")
		case p == CR && c == LF:
			return d('J', "GB3")
		case ctl(p):
			return d('B', "GB4")
		case ctl(c):
			return d('B', "GB5")
		case p == L && (c == L || c == V || c == LV || c == LVT):
			return d('J', "GB6")
		case (p == LV || p == V) && (c == V || c == T):
			return d('J', "GB7")
		case (p == LVT || p == T) && c == T:
			return d('J', "GB8")
		case c == EX || c == ZW:
			return d('J', "GB9")
		case c == SM:
			return d('J', "GB9a")
		case p == PP:
			return d('J', "GB9b")
		case p == ZW && s.emo == 2 && c == EP:
			return d('J', "GB11")
		case p == RI && c == RI && s.ri == 1:
			return d('J', "GB12/13")
		}
		return d('B', "GB999")
	}
	return sp
}

func runBreaker(p *Prog, r *Report, pkg, ctor, ct string, mk func(*breakerModel, int) *breakSpec) {
	m := newBreakerModel(p, pkg, ctor, ct)
	inf, ok := classlessConst(p, "", "InfinitePenalty")
	if !ok {
		tcPanic("uax.InfinitePenalty not found")
	}
	depth := 3
	if r.Tier == "thorough" {
		depth = 7
	}
	pr := &prodRunner{m: m, sp: mk(m, depth), r: r, inf: inf, known: map[string]bool{}}
	pr.Run(400000)
	r.Engine(m.ex)
	r.N("rule state functions tabulated", len(m.fns))
	r.N("transition table entries", len(m.steps))
	r.N("product states", pr.states)
	r.N("product transitions", pr.trans)
	r.N("classes", len(pr.sp.alpha))
	for _, f := range m.fns {
		r.Sample("%s at %s", f.Name(), p.Pos(f.Pos()))
	}
}

func classlessConst(p *Prog, pkg, name string) (int64, bool) {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return 0, false
	}
	return constOf(pk.Types, name)
}
