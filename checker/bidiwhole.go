package main

// The whole of ResolveParagraph, with its two threads, on all short texts.

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// an input is a character or an out-of-line delimiter.
type wItem struct {
	ch   *bchar
	mark int // 0: none, or bLRI, bRLI, bPDI
	l, r int64
}

type wghost struct {
	root  int
	items []wItem
	pos   int64
	depth int
	cur   *bchar
	eof   bool
	asked int64 // last position markup has been asked for, -1: none
	done  bool
}

func (g *wghost) add(it wItem) *wghost {
	n := *g
	n.items = append(n.items[:len(n.items):len(n.items)], it)
	n.pos = it.r
	switch it.cls() {
	case bLRI, bRLI:
		n.depth++
	case bPDI:
		if n.depth > 0 {
			n.depth--
		}
	}
	return &n
}

func (it wItem) cls() int {
	if it.mark != 0 {
		return it.mark
	}
	if it.ch.psep {
		return bNI
	}
	return it.ch.cls
}
func (it wItem) String() string {
	if it.mark != 0 {
		return "markup-" + bName[it.mark]
	}
	return it.ch.name
}

// markBoth is added to an initiator which is preceded by a PDI.
const markBoth = 1000

type wRoot struct {
	bidiRoot
	alpha  []*bchar
	n      int        // length of texts
	seq    [][]*bchar // if set, the characters of the text, with alternatives
	marks  []int      // markup delivered
	maxD   int
	closed bool // isolates are closed
	name   string
}

type bidiWhole struct {
	*bidiModel
	env    *charEnv
	p      *Prog
	r      *Report
	m      *Machine
	kinds  map[string]bool
	mu     sync.Mutex
	bad    map[string]bool
	roots  []wRoot
	finals int
	leaks  int
	outs   int
}

func (bw *bidiWhole) fail(st *State, kind, pos, msg string) {
	g, _ := st.Ghost.(*wghost)
	bw.mu.Lock()
	defer bw.mu.Unlock()
	if !bw.kinds[kind] || bw.bad[kind+msg+pos] {
		return
	}
	if len(bw.bad) >= 8 {
		bw.m.Stop()
		return
	}
	bw.bad[kind+msg+pos] = true
	var path []string
	if g != nil {
		path = []string{fmt.Sprintf("options: %s; characters, by class: %s", bw.roots[g.root].bidiRoot.name, shortened(bw.text(g)))}
	}
	bw.r.Oblig++
	bw.r.Findings = append(bw.r.Findings, Finding{Key: kind, Pos: pos, Msg: msg, Path: path})
}

func shortened(s string) string {
	if len(s) > 700 {
		return s[:300] + " … " + s[len(s)-300:]
	}
	return s
}

func (bw *bidiWhole) text(g *wghost) string {
	var s []string
	for _, it := range g.items {
		s = append(s, fmt.Sprintf("%s@%d", it, it.l))
	}
	return strings.Join(s, " ")
}

// levels builds the isolating run sequences of the text, with the resolved classes.
func (bw *bidiWhole) levels(g *wghost) *gLevel {
	rt := bw.roots[g.root]
	e := bL
	if rt.rtl {
		e = bR
	}
	type lev struct {
		lv    *gLevel
		items []refItem
	}
	st := []*lev{{lv: &gLevel{e: e, zero: true}}}
	var all []*lev
	all = append(all, st[0])
	for _, it := range g.items {
		top := st[len(st)-1]
		c := it.cls()
		gi := gItem{c: c, l: it.l, r: it.r}
		ri := refItem{c: c}
		if it.mark == 0 {
			ri.br = it.ch.br
		}
		switch {
		case c == bLRI || c == bRLI:
			d := bL
			if c == bRLI {
				d = bR
			}
			kid := &lev{lv: &gLevel{e: d, l: it.l}}
			gi.c, gi.kid = bNI, kid.lv
			ri.iso = true
			top.lv.items = append(top.lv.items, gi)
			top.items = append(top.items, ri)
			st = append(st, kid)
			all = append(all, kid)
			continue
		case c == bPDI && len(st) > 1:
			top.lv.closed, top.lv.lastR = true, it.r
			st = st[:len(st)-1]
			o := st[len(st)-1].lv
			o.items[len(o.items)-1].r = it.r
			continue
		}
		top.lv.items = append(top.lv.items, gi)
		top.items = append(top.items, ri)
	}
	for _, l := range all {
		l.lv.res = refLevel(l.items, l.lv.e)
		if l.lv.res == nil {
			l.lv.res = []int{}
		}
	}
	return st[0].lv
}

func (bw *bidiWhole) key(m *Machine, ex *Engine, c *cont) (string, bool) {
	g := c.st.Ghost.(*wghost)
	return fmt.Sprintf("%d %s %v %d %s", g.root, bw.text(g), g.eof, g.asked, c.pt), true
}

func (bw *bidiWhole) input(m *Machine, ex *Engine, c *cont) []func(c *cont) (Value, bool) {
	g := c.st.Ghost.(*wghost)
	rt := bw.roots[g.root]
	var mv []func(c *cont) (Value, bool)
	if c.pt == "markup" {
		left := rt.n - len(g.items)
		for _, k := range append([]int{0}, rt.marks...) {
			k := k
			op, pdi, first := k == bLRI || k == bRLI, k == bPDI, k
			if k > markBoth { // PDI, then an initiator
				op, pdi, first = true, true, bPDI
			}
			depth, need := g.depth, 3
			if pdi && depth > 0 {
				depth, need = depth-1, 4
			}
			if g.eof || op && (left < need+depth || depth >= rt.maxD) || k == bPDI && g.depth == 0 {
				continue
			}
			if pdi && len(g.items) > 0 { // isolates are not empty
				if last := g.items[len(g.items)-1].cls(); last == bLRI || last == bRLI {
					continue
				}
			}
			mv = append(mv, func(c *cont) (Value, bool) {
				n := *c.st.Ghost.(*wghost)
				n.asked = n.pos
				gg := &n
				if k != 0 {
					gg = gg.add(wItem{mark: first, l: n.pos, r: n.pos})
				}
				if k > markBoth {
					gg = gg.add(wItem{mark: k - markBoth, l: n.pos, r: n.pos})
				}
				c.st.Ghost = gg
				return linConst(bw.markVal(k)), true
			})
		}
		return mv
	}
	end := func(c *cont) (Value, bool) {
		n := *c.st.Ghost.(*wghost)
		n.eof, n.cur = true, nil
		c.st.Ghost = &n
		return bw.env.readResult(c.st.ex, c.pt, nil), true
	}
	if g.eof {
		return append(mv, end)
	}
	if len(rt.marks) > 0 && g.asked != g.pos {
		bw.fail(c.st, "markup", "bidi/scanner.go", fmt.Sprintf("markup is not asked for at position %d", g.pos))
		return nil
	}
	alpha := rt.alpha
	if rt.seq != nil {
		if len(g.items) == len(rt.seq) {
			return append(mv, end)
		}
		alpha = rt.seq[len(g.items)]
	} else if g.depth == 0 || !rt.closed {
		mv = append(mv, end)
	}
	if len(g.items) >= rt.n {
		return mv
	}
	for _, ch := range alpha {
		ch := ch
		left := rt.n - len(g.items) - 1
		op := ch.cls == bLRI || ch.cls == bRLI
		if ch.psep && !rt.ign {
			if g.depth > 0 && rt.closed {
				continue
			}
			mv = append(mv, func(c *cont) (Value, bool) {
				n := *c.st.Ghost.(*wghost)
				n.eof, n.cur = true, ch
				c.st.Ghost = &n
				return bw.env.readResult(c.st.ex, c.pt, ch), true
			})
			continue
		}
		if rt.closed {
			if op && (g.depth >= rt.maxD || left < g.depth+1) {
				continue
			}
			if !op && ch.cls != bPDI && left < g.depth {
				continue
			}
		}
		mv = append(mv, func(c *cont) (Value, bool) {
			n := c.st.Ghost.(*wghost)
			n = n.add(wItem{ch: ch, l: n.pos, r: n.pos + ch.size()})
			n.cur = ch
			c.st.Ghost = n
			return bw.env.readResult(c.st.ex, c.pt, ch), true
		})
	}
	return mv
}

func (bw *bidiWhole) markVal(k int) int64 {
	nm := map[int]string{bLRI: "MarkupLRI", bRLI: "MarkupRLI", bPDI: "MarkupPDI", markBoth + bLRI: "MarkupPDILRI", markBoth + bRLI: "MarkupPDIRLI"}[k]
	if nm == "" {
		return 0
	}
	v, ok := bw.num(bw.p.SPkg["bidi"].Pkg, nm)
	if !ok {
		panic(tooComplex{"constant " + nm + " is missing"})
	}
	return v
}

func (bw *bidiWhole) final(m *Machine, ex *Engine, o Outcome) {
	g, _ := o.St.Ghost.(*wghost)
	if g == nil {
		return
	}
	switch {
	case o.Panic:
		msg := "?"
		if s, ok := asStr(o.PanicV); ok {
			msg = s
		} else if o.PanicV != nil {
			msg = o.PanicV.Key()
		}
		where := "bidi"
		if o.PanicI != nil {
			where = fmt.Sprintf("%s (%s)", bw.p.Pos(o.PanicI.Pos()), o.PanicI.Parent().Name())
		}
		bw.fail(o.St, "panic", where, "panic: "+msg)
		return
	case o.Loop:
		panic(tooComplex{"a loop of package bidi is not decided by constants"})
	}
	if o.St.Cur != 0 {
		return
	}
	if !g.eof {
		bw.fail(o.St, "text", "bidi/resolver.go", "ResolveParagraph returns before the end of the text has been read")
		return
	}
	p, ok := o.Ret[0].(*Ptr)
	if !ok {
		bw.fail(o.St, "text", "bidi/resolver.go", "ResolveParagraph returns no result")
		return
	}
	s, ok := o.St.Load(p.O, appendPE(p.Path, pe{Field: bw.resField})).(*SliceV)
	if !ok {
		bw.fail(o.St, "text", "bidi/resolver.go", "the result has no runs")
		return
	}
	bw.mu.Lock()
	bw.finals++
	bw.mu.Unlock()
	if !bw.roots[g.root].closed {
		bw.cover(o.St, g, bw.elems(o.St, s))
		return
	}
	gg := &ghost{levels: []*gLevel{bw.levels(g)}, pos: g.pos}
	if k, msg := bw.checkLevel(o.St, gg, gg.levels[0], bw.elems(o.St, s)); msg != "" {
		bw.fail(o.St, k, "bidi/resolver.go", msg)
	}
}

func (bw *bidiWhole) cover(st *State, g *wghost, runs []Value) {
	pos := int64(0)
	for _, r := range runs {
		x := bw.view(st, r)
		if !x.ok {
			return
		}
		if x.l != pos || x.r < x.l {
			bw.fail(st, "text", "bidi/resolver.go", fmt.Sprintf("the run %d-%d follows a run ending at %d", x.l, x.r, pos))
			return
		}
		pos = x.r
	}
	if pos != g.pos {
		bw.fail(st, "text", "bidi/resolver.go", fmt.Sprintf("the runs end at %d, the text at %d", pos, g.pos))
	}
}

func chars(names string) []*bchar {
	var r []*bchar
	for _, n := range strings.Fields(names) {
		for _, c := range append(append([]*bchar{}, bchars...), tchars...) {
			if c.name == n {
				r = append(r, c)
			}
		}
	}
	return r
}

func newBidiWhole(p *Prog, r *Report, roots []wRoot, kinds ...string) *bidiWhole {
	b, err := newBidiModel(p)
	if err != nil {
		r.Undecided("bidi", "bidi", "%v", err)
		return nil
	}
	bw := &bidiWhole{outs: 2000000, bidiModel: b, p: p, r: r, bad: map[string]bool{}, kinds: map[string]bool{}, roots: roots}
	for _, k := range kinds {
		bw.kinds[k] = true
	}
	b.noClass = !bw.kinds["class"]
	m := &Machine{p: p, limit: 5000000, Key: bw.key, Input: bw.input, Final: bw.final}
	bw.m = m
	bw.env, err = newCharEnv(p, m)
	if err != nil {
		r.Undecided("bidi", "bidi", "%v", err)
		return nil
	}
	bw.env.cur = func(st *State) *bchar {
		if g, ok := st.Ghost.(*wghost); ok {
			return g.cur
		}
		return nil
	}
	bw.env.fail = bw.fail
	bw.env.markup = "markup"
	bw.env.onMarkup = func(ex *Engine, fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.Call, pos Value) []Outcome {
		g := st.Ghost.(*wghost)
		k, ok := asInt(pos)
		if !ok {
			panic(tooComplex{"markup is asked for at an unknown position"})
		}
		if k != g.pos {
			bw.fail(st, "markup", bw.p.Pos(x.Pos()), fmt.Sprintf("markup is asked for at position %d while the text has been read up to %d", k, g.pos))
			return []Outcome{}
		}
		if g.asked == g.pos {
			bw.fail(st, "markup", bw.p.Pos(x.Pos()), fmt.Sprintf("markup is asked for twice at position %d", k))
			return []Outcome{}
		}
		return m.Suspend(ex, fr, st, blk, i, x, "markup")
	}
	m.Deadlock = func(m *Machine, st *State, what, pos string) { bw.fail(st, "protocol", pos, what) }
	m.Setup = func(m *Machine, ex *Engine) {
		ex.maxRec = 64
		ex.maxDep = 400
		ex.maxOuts = bw.outs
		bw.env.setup(ex)
		m.threads(ex)
		ex.OnIter = func(fr *frame, st *State, blk *ssa.BasicBlock, iter int) []Outcome {
			if m.Stopped() {
				return []Outcome{}
			}
			if ex.steps-ex.steps0 > 3000000 {
				bw.fail(st, "termination", bw.p.Pos(blk.Instrs[0].Pos()), "more than 3000000 steps for a text of this length, in "+fr.fn.Name())
				return []Outcome{}
			}
			return nil
		}
	}
	return bw
}

func (bw *bidiWhole) run() {
	p, r, m := bw.p, bw.r, bw.m
	root := p.Func("bidi", "ResolveParagraph")
	if root == nil {
		r.Fail("api", "bidi", "function ResolveParagraph is missing")
		return
	}
	ex := NewEngine(p.SSA)
	st, err := initProgram(p, ex, []string{"bidi/trie", "bidi"})
	if err != nil {
		r.Undecided("init", "bidi", "package initialisation cannot be interpreted: %v", err)
		return
	}
	var roots []func(ex *Engine) []Outcome
	for i, rt := range bw.roots {
		i, rt := i, rt
		roots = append(roots, func(ex *Engine) []Outcome {
			s := st.Clone()
			s.ex = ex
			opts, s := bidiOptions(p, ex, s, root, rt.opts)
			s.Ghost = &wghost{root: i, asked: -1}
			var mk Value = &Nil{root.Params[1].Type()}
			if len(rt.marks) > 0 {
				y := &Sym{"markup", root.Params[1].Type()}
				mk = y
				s.assume(ex.equal(s, y, &Nil{}, nil), false)
			}
			return ex.call(nil, nil, root, nil, []Value{&Sym{"reader", root.Params[0].Type()}, mk, opts}, s)
		})
	}
	workers := 8
	if os.Getenv("VP_WORKERS") == "1" {
		workers = 1
	}
	m.Explore(ex, roots, workers)
	m.Report(r)
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Println("states", m.States, "transitions", m.Trans, "results", bw.finals)
	}
	r.N("results compared", bw.finals)
	if len(bw.bad) == 0 {
		if m.err != nil {
			r.Undecided("machine", "bidi", "%v", m.err)
		} else if m.over {
			r.Undecided("machine", "bidi", "%s", m.Over())
		} else if bw.finals == 0 {
			r.Undecided("machine", "bidi", "no result was reached")
		}
	}
	r.Oblig += m.Trans
	r.Disch += m.Trans
}

var bidiRTL = []bidiOption{{"DefaultDirection", "RightToLeft"}}

// runBidiBrackets: bracket pairs, and everything around them.
func runBidiBrackets(p *Prog, r *Report) {
	all := "L R AL EN AN ES ET CS WS ON NSM ( ) U+2329 U+3009 LRI RLI PDI"
	few := "L R EN ( ) [ ]"
	n, k := 3, 5
	if r.Tier == "thorough" {
		n, k = 4, 6
	}
	var roots []wRoot
	for _, d := range []bidiRoot{{name: "none"}, {name: "RightToLeft", rtl: true, opts: bidiRTL}} {
		roots = append(roots,
			wRoot{bidiRoot: d, alpha: chars(all), n: n, maxD: 1, closed: true},
			wRoot{bidiRoot: d, alpha: chars(few), n: k, maxD: 0, closed: true},
			wRoot{bidiRoot: d, alpha: chars("L R ( ) LRI RLI PDI"), n: k, maxD: 1, closed: true},
			wRoot{bidiRoot: d, alpha: chars("L R U+2329 U+3009 U+3008 U+232A ) NSM"), n: k - 1, maxD: 0, closed: true},
		)
	}
	for _, a := range []string{"R ( ) [ ]", "R ( ) LRI PDI"} {
		roots = append(roots, wRoot{bidiRoot: bidiRoot{name: "none"}, alpha: chars(a), n: k + 1, maxD: 1, closed: true})
	}
	for _, d := range []bidiRoot{{name: "none"}, {name: "RightToLeft", rtl: true, opts: bidiRTL}} {
		for _, t := range append(bracketTexts[:len(bracketTexts):len(bracketTexts)], longTexts()...) {
			var seq [][]*bchar
			for _, f := range strings.Fields(t) {
				seq = append(seq, chars(strings.ReplaceAll(f, "|", " ")))
			}
			roots = append(roots, wRoot{bidiRoot: d, seq: seq, n: len(seq), maxD: 64, closed: true})
		}
	}
	bw := newBidiWhole(p, r, roots, "class", "text", "panic", "protocol", "termination", "markup")
	if bw != nil {
		bw.run()
	}
}

// bracketTexts are longer texts, the alternatives for a character separated by |.
var bracketTexts = []string{
	// isolates one after the other, each with pairs of its own
	"LRI|RLI L|R ( L|R ) PDI LRI|RLI L|R ( L|R ) PDI",
	"L|R ( LRI L ( R ) PDI RLI L|R ) PDI L|R ) L|R",
	"RLI L ( L ) PDI LRI R ( R ) PDI LRI L|R ( L|R ) L PDI",
	// isolates within isolates
	"L|R ( LRI|RLI L|R ( RLI|LRI L|R ( L|R ) PDI ) PDI L|R ) L|R",
	"LRI RLI LRI L|R ( R ) PDI ( L|R ) PDI ( L|R ) PDI ( L|R )",
	"L|R ( LRI|RLI L|R ) PDI L|R ) ( R|L )",
	// the content and the context of pairs
	"L|R ( L|R [ L|R|EN ] L|R|AN ) L|R",
	"L|R|EN ( ( L|R|AN ) ( L|R|WS ) ) L|R",
	"L|R ( [ R|L ) ] L|R ( EN|AN|WS ) L|R",
	"L|R WS ( L|R ) ( R|L ) ( EN|WS ) L|R",
	"WS ( R|L ) WS ( L|R|AN ) WS ( R|EN ) WS",
	"AL|L|R ( EN|AN ) EN ( AL|R|L ) EN|WS L|R",
	"( WS ( L|R ) WS ( WS ) WS R|L ) WS R|L",
	// marks behind brackets
	"L|R ( L|R ) NSM NSM ( NSM R|L ) NSM EN|L",
	"R|L ( NSM R|L|WS ) NSM ) NSM WS L|R",
	// numbers, separators and terminators next to brackets
	"EN|AN ( ET|ES EN|AN ) CS|ET EN|AN ET|WS L|R",
	"L|R|AL EN ET ( ET EN ) ET EN CS|ES EN",
	"L|R LRI EN ET PDI ET EN ( ET RLI EN ) PDI EN ) ET",
}

// longTexts exceed the initial sizes of the stacks and lists of scanner and resolver.
func longTexts() []string {
	rep := func(n int, s string) string { return strings.Repeat(s+" ", n) }
	return []string{
		"L|R ( " + rep(35, "R L") + ") L|R",
		"L|R ( " + rep(40, "NSM") + "EN|L ) " + rep(30, "NSM") + "R|L",
		"L|R " + rep(35, "WS ET") + "EN|L",
		rep(24, "EN CS AN ES") + "L|R",
		"L|R " + rep(24, "RLI R ( L ) PDI L") + "R|L",
		"R|L " + rep(20, "( LRI R") + "EN|L " + rep(20, "PDI ) ") + "L|R",
		rep(12, "RLI L EN LRI AL AN") + "( R|L ) " + rep(12, "PDI ET PDI"),
	}
}

// runBidiBracketTable: the pairs of brackets of UAX#9, and the limits of BD16.
func runBidiBracketTable(p *Prog, r *Report) {
	one := func(c *bchar) []*bchar { return []*bchar{c} }
	named := func(n string) *bchar { return chars(n)[0] }
	L, R := named("L"), named("R")
	var open, clos []*bchar
	for _, c := range brackChars {
		if c.br > 0 {
			open = append(open, c)
		} else {
			clos = append(clos, c)
		}
	}
	var roots []wRoot
	add := func(rtl bool, name string, seq ...[]*bchar) {
		d := bidiRoot{name: name}
		if rtl {
			d = bidiRoot{name: name + ", RightToLeft", rtl: true, opts: bidiRTL}
		}
		roots = append(roots, wRoot{bidiRoot: d, seq: seq, n: len(seq), maxD: 8, closed: true})
	}
	// R o R c: the closing bracket is strong only if it is part of a pair
	for _, o := range open {
		add(false, "none", one(R), one(o), one(R), clos)
		add(true, "none", one(L), one(o), one(L), clos)
	}
	if r.Tier == "thorough" { // an opening bracket in between
		for _, o := range open {
			add(false, "none", one(R), one(o), open, one(R), one(brackByRune(o.pair)))
			add(false, "none", one(R), open, one(o), one(R), one(brackByRune(o.pair)))
		}
	}
	// characters which are no brackets of UAX#9 do not form pairs
	for _, q := range [][2]rune{{'<', '>'}, {0xab, 0xbb}, {0x201c, 0x201d}, {0x2018, 0x2019}, {0xfd3e, 0xfd3f}} {
		a, b := &bchar{fmt.Sprintf("%U", q[0]), q[0], "ON", bNI, 0, false, 0}, &bchar{fmt.Sprintf("%U", q[1]), q[1], "ON", bNI, 0, false, 0}
		extraChars = append(extraChars, a, b)
		add(false, "none", one(R), one(a), one(R), one(b))
		add(false, "none", one(R), one(named("(")), one(R), one(b))
	}
	// nesting: 62, 63, 64 and 65 brackets opened, some of them closed
	rep := func(n int, name string) (s [][]*bchar) {
		for i := 0; i < n; i++ {
			s = append(s, one(named(name)))
		}
		return s
	}
	cat := func(parts ...[][]*bchar) (s [][]*bchar) {
		for _, x := range parts {
			s = append(s, x...)
		}
		return s
	}
	r1 := [][]*bchar{one(R)}
	for n := 62; n <= 65; n++ {
		add(false, fmt.Sprintf("%d nested brackets", n), cat(r1, rep(n, "("), r1, rep(n, ")"))...)
		add(false, fmt.Sprintf("%d brackets opened", n), cat(r1, rep(1, "["), r1, rep(1, "]"), r1, rep(n, "("), r1, rep(2, ")"), r1, rep(1, "["), r1, rep(1, "]"))...)
	}
	// the limit is per isolating run sequence
	add(false, "40 brackets, and 40 within an isolate", cat(r1, rep(40, "("), rep(1, "LRI"), r1, rep(40, "("), r1, rep(40, ")"), rep(1, "PDI"), r1, rep(40, ")"))...)
	add(false, "63 brackets within an isolate", cat(r1, rep(2, "("), rep(1, "LRI"), r1, rep(64, "("), r1, rep(1, ")"), rep(1, "PDI"), r1, rep(2, ")"))...)
	iso := func(in ...[][]*bchar) [][]*bchar {
		return cat(append(append([][][]*bchar{rep(1, "LRI")}, in...), rep(1, "PDI"))...)
	}
	pair := cat(r1, rep(1, "["), r1, rep(1, "]"))
	add(false, "64 brackets, then a pair within an isolate, and one behind it", cat(r1, rep(64, "("), iso(pair), pair)...)
	add(false, "64 brackets within an isolate, then pairs behind it and within another one", cat(r1, iso(r1, rep(64, "("), r1), pair, iso(pair), pair)...)
	// pairs one after the other do not add up
	add(false, "70 pairs", cat(r1, strings70(one(named("(")), r1[0], one(named(")"))))...)
	bw := newBidiWhole(p, r, roots, "class", "text", "panic", "protocol", "termination", "markup")
	if bw != nil {
		bw.run()
	}
}

func strings70(a, b, c []*bchar) (s [][]*bchar) {
	for i := 0; i < 70; i++ {
		s = append(s, a, b, c)
	}
	return s
}

// runBidiOptions: options and out-of-line markup.
func runBidiOptions(p *Prog, r *Report) {
	n, k := 3, 5
	if r.Tier == "thorough" {
		n, k = 4, 6
	}
	const dd, ip, rl, tm = "DefaultDirection", "IgnoreParagraphSeparators", "RecognizeLegacy", "TestMode"
	ltr, rtl := bidiOption{dd, "LeftToRight"}, bidiOption{dd, "RightToLeft"}
	ign, sep := bidiOption{ip, "true"}, bidiOption{ip, "false"}
	leg, nol := bidiOption{rl, "true"}, bidiOption{rl, "false"}
	tst, not := bidiOption{tm, "true"}, bidiOption{tm, "false"}
	var roots []wRoot
	add := func(rtl, ign bool, alpha string, marks []int, n int, opts ...bidiOption) {
		var nm []string
		for _, o := range opts {
			if o.fn == "" {
				nm = append(nm, "nil")
			} else {
				nm = append(nm, o.fn+"("+o.arg+")")
			}
		}
		if len(nm) == 0 {
			nm = []string{"none"}
		}
		roots = append(roots, wRoot{bidiRoot: bidiRoot{name: strings.Join(nm, ","), rtl: rtl, ign: ign, opts: opts}, alpha: chars(alpha), n: n, marks: marks, maxD: 1, closed: true})
	}
	few, test := "L R EN WS B", "L R WS A=R >=LRI <=RLI ==PDI B"
	add(false, false, few, nil, n)
	add(true, false, few, nil, n, rtl)
	add(false, false, few, nil, n, ltr)
	add(false, false, few, nil, n, rtl, ltr)
	add(true, false, few, nil, n, ltr, rtl)
	add(true, false, few, nil, n, rtl, rtl)
	add(false, true, few, nil, n, ign)
	add(false, true, few, nil, n, ign, ign)
	add(false, false, few, nil, n, sep)
	add(false, false, few, nil, n, ign, sep)
	add(false, true, few, nil, n, sep, ign)
	add(false, false, few, nil, n, leg)
	add(false, false, few, nil, n, leg, nol)
	add(true, true, few, nil, n, rtl, bidiOption{}, leg, ign)
	add(true, true, few, nil, n, ign, tst, rtl, not)
	add(false, false, "L R A >", nil, n)
	add(false, false, "L R A >", nil, n, tst, not)
	add(true, false, "L R A >", nil, n, rtl, not)
	add(false, false, test, nil, n+1, tst)
	add(false, false, test, nil, n, tst, tst)
	add(true, true, test, nil, n+1, tst, ign, rtl)
	all := []int{bLRI, bRLI, bPDI, markBoth + bLRI, markBoth + bRLI}
	for _, o := range [][]bidiOption{nil, {rtl}} {
		add(o != nil, false, "L R EN WS", all, k, o...)
		add(o != nil, false, "R ( ) NSM", all, k, o...)
		add(o != nil, false, "L R LRI PDI", all, k, o...)
	}
	add(false, true, "L R B", all, k, ign)
	add(false, false, "L R B", all, k)
	bw := newBidiWhole(p, r, roots, "class", "text", "panic", "protocol", "termination", "markup")
	if bw != nil {
		bw.run()
	}
}
