package main

// The scanner of package bidi as a machine reading characters and sending
// runs of characters of one class to the resolver, compared with a reference
// transducer for the explicit isolates and for rules W1–W3.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type slev struct {
	e    int // embedding direction
	w2   int // most recent strong class (L, R, AL), -1: none
	w7   int // most recent strong direction, or sos
	prev int // class of the preceding character, -1: sos
}

type sexp struct {
	c      int
	l, r   int64
	e      int // -1: does not matter
	strong int // -1: does not matter
}

type sghost struct {
	ign     bool // paragraph separators are white space
	lv      []slev
	exp     []sexp
	split   bool // the growing run has been sent already
	pos     int64
	cur     *bchar
	eof     bool
	sentEnd bool
	closed  bool
	hist    []string
	opt     string
}

func (g *sghost) clone() *sghost {
	n := *g
	n.lv = append([]slev(nil), g.lv...)
	n.exp = append([]sexp(nil), g.exp...)
	n.hist = n.hist[:len(n.hist):len(n.hist)]
	return &n
}

// advance reads c. It tells if a run which has been sent already would have
// had to be extended.
func (g *sghost) advance(c *bchar) (late bool) {
	g.cur = c
	g.hist = append(g.hist, c.name)
	lv := &g.lv[len(g.lv)-1]
	cls := c.cls
	if c.psep {
		cls = bNI
	}
	l, r := g.pos, g.pos+c.size()
	g.pos = r
	x := sexp{l: l, r: r, e: lv.e, strong: -1}
	nsm := cls == bNSM
	switch cls {
	case bNSM: // W1
		cls = lv.prev
		if cls < 0 {
			cls = lv.e
		}
		if cls == bEN {
			x.strong = lv.w7
		}
	case bEN: // W2
		if lv.w2 == bAL {
			cls = bAN
		} else {
			x.strong = lv.w7
		}
	case bAL: // W3
		lv.w2, lv.w7 = bAL, bR
		cls = bR
	case bL, bR:
		lv.w2, lv.w7 = cls, cls
	}
	lv.prev = cls
	switch cls {
	case bLRI, bRLI:
		lv.prev = bNI
		d := bL
		if cls == bRLI {
			d = bR
		}
		x.e = d
		g.lv = append(g.lv, slev{e: d, w2: -1, w7: d, prev: -1})
	case bPDI:
		lv.prev = bNI
		if len(g.lv) > 1 {
			x.e = -1
			g.lv = g.lv[:len(g.lv)-1]
			g.lv[len(g.lv)-1].prev = bNI
		}
	}
	x.c = cls
	if n := len(g.exp); n > 0 && g.exp[n-1].c == cls && g.exp[n-1].r == l {
		meld := true
		switch cls {
		case bES, bCS, bLRI, bRLI, bPDI:
			meld = false
		case bBO, bBC:
			meld = nsm
		}
		if meld {
			g.exp[n-1].r = r
			return g.split
		}
	}
	if g.split {
		g.exp, g.split = g.exp[1:], false
	}
	g.exp = append(g.exp, x)
	return false
}

type bidiScan struct {
	*bidiModel
	env  *charEnv
	p    *Prog
	r    *Report
	m    *Machine
	mu   sync.Mutex
	bad  map[string]bool
	maxD int
	ends int
}

func (bs *bidiScan) fail(st *State, kind, pos, msg string) {
	g, _ := st.Ghost.(*sghost)
	bs.mu.Lock()
	defer bs.mu.Unlock()
	if bs.bad[kind+msg+pos] {
		return
	}
	if len(bs.bad) >= 8 {
		bs.m.Stop()
		return
	}
	bs.bad[kind+msg+pos] = true
	var path []string
	if g != nil {
		path = []string{fmt.Sprintf("options: %s; characters, by class: %s", g.opt, strings.Join(g.hist, " "))}
	}
	bs.r.Oblig++
	bs.r.Findings = append(bs.r.Findings, Finding{Key: kind, Pos: pos, Msg: msg, Path: path})
}

func (bs *bidiScan) onSend(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.Send, v Value) []Outcome {
	g := st.Ghost.(*sghost)
	pos := bs.p.Pos(x.Pos())
	s := bs.view(st, v)
	if !s.ok {
		panic(tooComplex{"an unknown run is sent at " + pos})
	}
	n := g.clone()
	st.Ghost = n
	if n.closed {
		bs.fail(st, "panic", pos, "a run is sent on the channel after it has been closed")
		return []Outcome{}
	}
	if n.sentEnd {
		bs.fail(st, "protocol", pos, "something is sent after the final run, which nobody receives: the goroutine never ends")
		return []Outcome{}
	}
	if s.cls == bs.cnull {
		if !n.eof {
			bs.fail(st, "text", pos, "the final run is sent before the end of the text is read")
			return []Outcome{}
		}
		if len(n.exp) > 0 && !(len(n.exp) == 1 && n.split) {
			bs.fail(st, "text", pos, fmt.Sprintf("the final run is sent, but %s at %d has not been", bName[n.exp[0].c], n.exp[0].l))
			return []Outcome{}
		}
		n.exp, n.split = nil, false
		n.sentEnd = true
		return []Outcome{{St: st}}
	}
	if n.split || len(n.exp) == 0 {
		bs.fail(st, "text", pos, fmt.Sprintf("a run %s %d-%d is sent for which there is no text", bs.clsName(s.cls), s.l, s.r))
		return []Outcome{}
	}
	e := n.exp[0]
	switch {
	case s.l != e.l || s.r != e.r:
		bs.fail(st, "text", pos, fmt.Sprintf("the run %s %d-%d is sent instead of %s %d-%d", bs.clsName(s.cls), s.l, s.r, bName[e.c], e.l, e.r))
		return []Outcome{}
	case s.cls != bs.val[e.c]:
		bs.fail(st, "class", pos, fmt.Sprintf("the run %d-%d is sent as %s instead of %s", s.l, s.r, bs.clsName(s.cls), bName[e.c]))
		return []Outcome{}
	case e.e >= 0 && s.e != bs.val[e.e]:
		bs.fail(st, "direction", pos, fmt.Sprintf("the run %s %d-%d has embedding direction %s instead of %s", bs.clsName(s.cls), s.l, s.r, bs.clsName(s.e), bName[e.e]))
		return []Outcome{}
	}
	if e.strong >= 0 {
		k := s.s
		if k == bs.val[bAL] {
			k = bs.val[bR]
		}
		if k == bs.val[bNI] {
			k = s.e
		}
		if k != bs.val[e.strong] {
			bs.fail(st, "direction", pos, fmt.Sprintf("the number %d-%d has the strong context %s instead of %s", s.l, s.r, bs.clsName(k), bName[e.strong]))
			return []Outcome{}
		}
	}
	if len(n.exp) == 1 && !n.eof {
		n.split = true
	} else {
		n.exp = n.exp[1:]
	}
	return []Outcome{{St: st}}
}

func (bs *bidiScan) key(m *Machine, ex *Engine, c *cont) (string, bool) {
	g := c.st.Ghost.(*sghost)
	cn := &canon{m: m, st: c.st, seen: map[int]int{}}
	cn.Skip = func(t types.Type, f string) bool { return f == "matchPos" || f == "odist" }
	cn.Special = func(cn *canon, v Value, t types.Type) bool {
		if t == nil {
			return false
		}
		if types.Identical(t, bs.charpos) {
			if k, ok := asInt(v); ok {
				cn.out = append(cn.out, tok{pos: k, is: true})
				return true
			}
			return false
		}
		if recursivePtr(t) {
			if _, ok := v.(*Nil); ok {
				cn.w("nil")
			} else {
				cn.w("list")
			}
			return true
		}
		if s, ok := t.Underlying().(*types.Slice); ok && recursivePtr(s.Elem()) {
			if sv, ok := v.(*SliceV); ok {
				cn.w("lists" + sv.Len.Key())
				return true
			}
		}
		return false
	}
	cn.w(c.pt + g.opt + "\n")
	cn.frames(c)
	cn.heap()
	cn.w(fmt.Sprintf("\nspec %v%v%v%v", g.eof, g.sentEnd, g.closed, g.split))
	for _, l := range g.lv {
		cn.w(fmt.Sprintf(" %v", l))
	}
	for _, e := range g.exp {
		cn.w(fmt.Sprintf(" %d/%d/%d", e.c, e.e, e.strong))
		cn.out = append(cn.out, tok{pos: e.l, is: true}, tok{s: "-"}, tok{pos: e.r, is: true})
	}
	cn.out = append(cn.out, tok{s: " at"}, tok{pos: g.pos, is: true})
	return cn.String(), true
}

// recursivePtr: pointers to lists; they belong to the bracket pairs, which are judged elsewhere.
func recursivePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			return true
		}
	}
	return false
}

func (bs *bidiScan) input(m *Machine, ex *Engine, c *cont) []func(c *cont) (Value, bool) {
	g := c.st.Ghost.(*sghost)
	var mv []func(c *cont) (Value, bool)
	end := func(nm string) func(c *cont) (Value, bool) {
		return func(c *cont) (Value, bool) {
			n := c.st.Ghost.(*sghost).clone()
			n.eof = true
			n.cur = nil
			n.hist = append(n.hist, nm)
			c.st.Ghost = n
			return bs.env.readResult(c.st.ex, c.pt, nil), true
		}
	}
	if g.eof {
		return append(mv, end("end"))
	}
	if len(g.lv) == 1 {
		mv = append(mv, end("end"))
	}
	for _, ch := range bchars {
		ch := ch
		if ch.psep && !g.ign {
			if len(g.lv) == 1 { // ends the paragraph
				mv = append(mv, func(c *cont) (Value, bool) {
					n := c.st.Ghost.(*sghost).clone()
					n.eof, n.cur = true, ch
					n.hist = append(n.hist, ch.name)
					c.st.Ghost = n
					return bs.env.readResult(c.st.ex, c.pt, ch), true
				})
			}
			continue
		}
		if (ch.cls == bLRI || ch.cls == bRLI) && len(g.lv) > bs.maxD {
			continue
		}
		if ch.br == 2 || ch.br == -2 || ch.br == 3 || ch.br == -3 {
			continue
		}
		mv = append(mv, func(c *cont) (Value, bool) {
			n := c.st.Ghost.(*sghost).clone()
			if n.advance(ch) {
				panic(tooComplex{"the scanner splits runs of one class, which the analysis of the resolver does not provide for"})
			}
			c.st.Ghost = n
			return bs.env.readResult(c.st.ex, c.pt, ch), true
		})
	}
	return mv
}

func (bs *bidiScan) final(m *Machine, ex *Engine, o Outcome) {
	g, ok := o.St.Ghost.(*sghost)
	if !ok {
		return
	}
	switch {
	case o.Panic:
		msg := "?"
		if s, ok := asStr(o.PanicV); ok {
			msg = s
		} else if o.PanicV != nil {
			msg = o.PanicV.Key()
		}
		where := "bidi/scanner.go"
		if o.PanicI != nil {
			where = fmt.Sprintf("%s (%s)", bs.p.Pos(o.PanicI.Pos()), o.PanicI.Parent().Name())
		}
		bs.fail(o.St, "panic", where, "the scanner panics: "+msg)
		return
	case o.Loop:
		panic(tooComplex{"a loop of the scanner is not decided by constants"})
	}
	bs.mu.Lock()
	bs.ends++
	bs.mu.Unlock()
	switch {
	case !g.eof:
		bs.fail(o.St, "text", "bidi/scanner.go", "the scanner ends before the end of the text")
	case !g.sentEnd && !g.closed:
		bs.fail(o.St, "protocol", "bidi/scanner.go", "the scanner ends without telling the resolver")
	case !g.sentEnd:
		panic(tooComplex{"the end of the text is not announced with a final run"})
	}
}

func runBidiScanner(p *Prog, r *Report) {
	b, err := newBidiModel(p)
	if err != nil {
		r.Undecided("bidi", "bidi", "%v", err)
		return
	}
	bs := &bidiScan{bidiModel: b, p: p, r: r, bad: map[string]bool{}, maxD: 1}
	if r.Tier == "thorough" {
		bs.maxD = 2
	}
	m := &Machine{p: p, limit: 200000, Key: bs.key, Input: bs.input, Final: bs.final}
	bs.m = m
	env, err := newCharEnv(p, m)
	if err != nil {
		r.Undecided("bidi", "bidi", "%v", err)
		return
	}
	bs.env = env
	env.cur = func(st *State) *bchar {
		if g, ok := st.Ghost.(*sghost); ok {
			return g.cur
		}
		return nil
	}
	env.fail = bs.fail
	root := p.Func("bidi", "ResolveParagraph")
	if root == nil {
		r.Fail("api", "bidi", "function ResolveParagraph is missing")
		return
	}
	ex := NewEngine(p.SSA)
	st, err := initProgram(p, ex, []string{"bidi/trie", "bidi"})
	if err != nil {
		r.Undecided("init", "bidi", "package initialisation cannot be interpreted: %v", err)
		return
	}
	m.Setup = func(m *Machine, ex *Engine) {
		env.setup(ex)
		ex.OnSend = bs.onSend
		ex.OnClose = func(st *State, site ssa.CallInstruction, ch Value) {
			if g, ok := st.Ghost.(*sghost); ok {
				n := g.clone()
				n.closed = true
				st.Ghost = n
			}
		}
		ex.OnIter = func(fr *frame, st *State, blk *ssa.BasicBlock, iter int) []Outcome {
			if m.Stopped() {
				return []Outcome{}
			}
			if ex.steps-ex.steps0 > 3000000 {
				panic(tooComplex{"too many steps between two reads in " + fr.fn.Name()})
			}
			return nil
		}
	}
	var roots []func(ex *Engine) []Outcome
	for _, rt := range bidiOptionRoots {
		rt := rt
		roots = append(roots, func(ex *Engine) []Outcome {
			s := st.Clone()
			s.ex = ex
			opts, s := bidiOptions(p, ex, s, root, rt.opts)
			e := bL
			if rt.rtl {
				e = bR
			}
			// run the parser up to its first read, to find the goroutine
			var goFn Value
			var goArgs []Value
			var goSt *State
			ex.OnGo = func(fr *frame, st *State, x *ssa.Go, f Value, args []Value) {
				if goFn != nil {
					panic(tooComplex{"more than one goroutine is started"})
				}
				goFn, goArgs, goSt = f, args, st
			}
			ex.OnRecv = func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.UnOp) []Outcome {
				return []Outcome{}
			}
			s.Ghost = &sghost{ign: rt.ign, opt: rt.name, lv: []slev{{e: e, w2: -1, w7: e, prev: -1}}}
			outs := ex.call(nil, nil, root, nil, []Value{&Sym{"reader", root.Params[0].Type()}, &Nil{root.Params[1].Type()}, opts}, s)
			ex.OnGo, ex.OnRecv = nil, nil
			for _, o := range outs {
				if o.Panic {
					return []Outcome{o}
				}
			}
			f, ok := goFn.(*FuncV)
			if !ok {
				panic(tooComplex{"ResolveParagraph does not start a goroutine which scans the text"})
			}
			n := goSt.Clone()
			return ex.Apply(nil, n, nil, f, goArgs)
		})
	}
	workers := 8
	if os.Getenv("VP_WORKERS") == "1" {
		workers = 1
	}
	m.Explore(ex, roots, workers)
	m.Report(r)
	r.N("ends of the scanner", bs.ends)
	if len(bs.bad) == 0 {
		if m.err != nil {
			r.Undecided("machine", "bidi/scanner.go", "%v", m.err)
		} else if m.over {
			r.Undecided("machine", "bidi/scanner.go", "%s", m.Over())
		} else if bs.ends == 0 {
			r.Undecided("machine", "bidi/scanner.go", "the scanner never ends")
		}
	}
	r.Oblig += m.Trans
	r.Disch += m.Trans
}

type bidiOption struct {
	fn  string
	arg string // true, false, or a constant of the package
}

type bidiRoot struct {
	name     string
	rtl, ign bool
	opts     []bidiOption
}

var bidiOptionRoots = []bidiRoot{
	{"none", false, false, nil},
	{"RightToLeft", true, false, []bidiOption{{"DefaultDirection", "RightToLeft"}}},
	{"IgnoreParagraphSeparators(true)", false, true, []bidiOption{{"IgnoreParagraphSeparators", "true"}}},
}

// bidiOptions builds the option values.
func bidiOptions(p *Prog, ex *Engine, s *State, root *ssa.Function, opts []bidiOption) (Value, *State) {
	if len(opts) == 0 {
		return &Nil{root.Params[2].Type()}, s
	}
	o := ex.NewArr("opts", root.Params[2].Type().(*types.Slice).Elem(), false)
	for i, op := range opts {
		if op.fn == "" {
			s.Set(o, []pe{{Field: -1, Idx: linConst(int64(i))}}, &Nil{o.T})
			continue
		}
		f := p.Func("bidi", op.fn)
		if f == nil {
			panic(tooComplex{"option " + op.fn + " is missing"})
		}
		var arg Value
		switch op.arg {
		case "true", "false":
			arg = boolConst(op.arg == "true")
		default:
			v, ok := (&bidiModel{}).num(p.SPkg["bidi"].Pkg, op.arg)
			if !ok {
				panic(tooComplex{"constant " + op.arg + " is missing"})
			}
			arg = linConst(v)
		}
		outs := ex.call(nil, nil, f, nil, []Value{arg}, s)
		if len(outs) != 1 || !outs[0].Returns() {
			panic(tooComplex{"option " + op.fn})
		}
		s = outs[0].St
		s.Set(o, []pe{{Field: -1, Idx: linConst(int64(i))}}, outs[0].Ret[0])
	}
	n := linConst(int64(len(opts)))
	return &SliceV{O: o, Off: linConst(0), Len: n, Cap: n, T: root.Params[2].Type()}, s
}
