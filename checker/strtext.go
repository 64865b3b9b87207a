package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Units texts consist of: one sample for every length of a code point and
// every kind of illegal byte sequences.
var textUnits = []string{"a", "\u00e9", "\u20ac", "\U0001f600", "\ufffd", "\x00", "\U0010ffff", // legal
	"\x80", "\xc3", "\xe2\x82", "\xff", "\xed\xa0\x80", "\xc0\x80", "\xf0\x9f\x98"} // illegal

// textsUpTo enumerates the sequences of up to n units.
func textsUpTo(units []string, n int) []string {
	seen := map[string]bool{"": true}
	all, last := []string{""}, []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, u := range units {
				if t := s + u; !seen[t] {
					seen[t] = true
					next = append(next, t)
				}
			}
		}
		all, last = append(all, next...), next
	}
	return all
}

// legalStart is the position of the first legal code point, or -1.
func legalStart(s string) int {
	for i := 0; i < len(s); i++ {
		if r, n := utf8.DecodeRuneInString(s[i:]); r != utf8.RuneError || n == 3 {
			return i
		}
	}
	return -1
}

// legalPrefix is the legal text s starts with.
func legalPrefix(s string) string {
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n < 3 {
			return s[:i]
		}
		i += n
	}
	return s
}

type textCheck struct {
	p    *Prog
	r    *Report
	ex   *Engine
	base *State
	lim  int // iterations of a loop

	diverged bool
	// the stub of the segmenter
	cut       func(i int) bool // is there a break behind the i-th code point?
	delivered []rune
	pieces    []string
	rderr     bool
}

func newTextCheck(p *Prog, r *Report) *textCheck {
	c := &textCheck{p: p, r: r, ex: NewEngine(p.SSA), lim: 1000}
	c.ex.maxStep, c.ex.maxOuts, c.ex.maxRec = 20000000, 1000000, 20
	c.ex.textHooks()
	c.ex.OnIter = func(fr *frame, st *State, blk *ssa.BasicBlock, iter int) []Outcome {
		if iter > c.lim {
			c.diverged = true
			return []Outcome{{St: st, Panic: true, PanicV: strConst("no end")}}
		}
		return nil
	}
	c.base = c.ex.NewState()
	return c
}

// run interprets a call which has to take a single path. The outcome is nil
// if it cannot be decided.
func (c *textCheck) run(f *ssa.Function, st *State, what string, args ...Value) *Outcome {
	c.diverged = false
	c.ex.steps, c.ex.outs = 0, 0
	outs, err := c.ex.Run(f, args, st)
	if c.diverged {
		return &Outcome{Panic: true, PanicV: strConst("no end")}
	}
	if err != nil {
		c.r.Undecided(f.Name(), c.p.Pos(f.Pos()), "%s: %v", what, err)
		return nil
	}
	if len(outs) != 1 || outs[0].Loop {
		c.r.Undecided(f.Name(), c.p.Pos(f.Pos()), "%s: %d paths for a known text", what, len(outs))
		return nil
	}
	return &outs[0]
}

func (c *textCheck) panicText(o *Outcome) string {
	if c.diverged {
		return "does not terminate"
	}
	if s, ok := asStr(o.PanicV); ok {
		return "panics (" + s + ")"
	}
	return "panics"
}

// U02: position of the first legal code point.
func runFirstLegal(p *Prog, r *Report) {
	f := p.Func("", "PositionOfFirstLegalRune")
	if f == nil {
		r.Fail("missing/PositionOfFirstLegalRune", "uax.go", "function uax.PositionOfFirstLegalRune is missing")
		return
	}
	c := newTextCheck(p, r)
	n := 3
	if r.Tier == "thorough" {
		n = 4
	}
	texts := textsUpTo(textUnits, n)
	for _, k := range []int{4, 5, 7, 16, 100} { // long illegal beginnings
		for _, u := range textUnits[7:] {
			for _, t := range []string{"", "a", "\u20ac\x80", "\ufffd", "\xff"} {
				texts = append(texts, strings.Repeat(u, k)+t)
			}
		}
	}
	bad := map[string]int{}
	for _, s := range texts {
		c.lim = 4*len(s) + 64
		r.N("texts", 1)
		o := c.run(f, c.base.Clone(), fmt.Sprintf("text %q", s), strConst(s))
		if o == nil {
			if len(r.Undec) > 3 {
				break
			}
			continue
		}
		pos, want := p.Pos(f.Pos()), legalStart(s)
		fail := func(key, format string, a ...interface{}) {
			if bad[key]++; bad[key] <= 3 {
				r.Fail(key, pos, format, a...)
			}
		}
		if !o.Returns() {
			fail("end", "PositionOfFirstLegalRune(%q) %s", s, c.panicText(o))
			continue
		}
		k, ok := asInt(o.Ret[0])
		if !ok {
			r.Undecided("position", pos, "position for %q is %s", s, o.Ret[0].Key())
			continue
		}
		if k != int64(want) {
			fail("position", "position of the first legal code point of %q is %d, but PositionOfFirstLegalRune returns %d", s, want, k)
			continue
		}
		r.Check(true, "position", pos, "")
		cutoff := s
		if want >= 0 {
			cutoff = s[:want]
		}
		t, ok := c.ex.textOf(o.St, o.Ret[1])
		if !ok {
			r.Undecided("prefix", pos, "prefix for %q is %s", s, o.Ret[1].Key())
			continue
		}
		if t != cutoff {
			fail("prefix", "the prefix cut off from %q is %q, but PositionOfFirstLegalRune returns %q", s, cutoff, t)
			continue
		}
		r.Check(true, "prefix", pos, "")
	}
	c.ex.steps, c.ex.outs = 0, 0
	r.Engine(c.ex)
}

// stubSegmenter replaces the segmenter by one that breaks the text anywhere.
func (c *textCheck) stubSegmenter() {
	ex := c.ex
	seg := ex.NewObj("segmenter", types.Typ[types.Int], false)
	const S = "(*" + modPath + "/segment.Segmenter)."
	ex.Hooks[modPath+"/segment.NewSegmenter"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		st.Set(seg, nil, linConst(0))
		c.pieces = nil
		return []Outcome{{St: st, Ret: []Value{&Ptr{O: seg}}}}
	}
	ex.Opaque[modPath+"/grapheme.SetupGraphemeClasses"] = true
	ex.Opaque[modPath+"/grapheme.NewBreaker"] = true
	rd := func(name string, of int) {
		ex.Hooks[name] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			s, ok := ex.textOf(st, a[of])
			if !ok {
				panic(tooComplex{"call with arguments which are not known"})
			}
			o := ex.NewObj("reader", types.Typ[types.String], false)
			st.Set(o, nil, strConst(s))
			return []Outcome{{St: st, Ret: []Value{&Ptr{O: o}}}}
		}
	}
	rd("strings.NewReader", 0)
	rd("bytes.NewReader", 0)
	rd("bytes.NewBufferString", 0)
	rd("bytes.NewBuffer", 0)
	begin := func(st *State, rs []rune) []Outcome {
		c.delivered, c.pieces = rs, nil
		cur := ""
		for i, x := range rs {
			cur += string(x)
			if i == len(rs)-1 || c.cut(i) {
				c.pieces = append(c.pieces, cur)
				cur = ""
			}
		}
		st.Set(seg, nil, linConst(0))
		return []Outcome{{St: st}}
	}
	ex.Hooks[S+"Init"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		iv, ok := a[1].(*IfaceV)
		if !ok {
			panic(tooComplex{"call with arguments which are not known"})
		}
		var rs []rune
		if pt, ok := iv.V.(*Ptr); ok && pt.O.Name == "reader" {
			s, _ := asStr(st.Load(pt.O, nil))
			return begin(st, []rune(s))
		}
		m := c.p.Method(iv.Dyn, "ReadRune")
		if m == nil {
			panic(tooComplex{"call with arguments which are not known"})
		}
		for n := 0; ; n++ {
			if n > 100000 {
				c.diverged = true
				return []Outcome{{St: st, Panic: true, PanicI: site, PanicV: strConst("no end")}}
			}
			outs := ex.call(nil, site, m, nil, []Value{iv.V}, st)
			if len(outs) != 1 {
				panic(tooComplex{"call with arguments which are not known"})
			}
			if !outs[0].Returns() {
				return outs
			}
			st = outs[0].St
			if _, isNil := outs[0].Ret[2].(*Nil); !isNil {
				if k := outs[0].Ret[2].Key(); !strings.Contains(k, "io.EOF") {
					c.rderr = true
				}
				break
			}
			k, ok := asInt(outs[0].Ret[0])
			if !ok {
				panic(tooComplex{"call with arguments which are not known"})
			}
			rs = append(rs, rune(k))
		}
		return begin(st, rs)
	}
	ex.Hooks[S+"InitFromSlice"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		l, ok := ex.intsOf(st, a[1])
		if !ok {
			panic(tooComplex{"call with arguments which are not known"})
		}
		var rs []rune
		for _, k := range l {
			rs = append(rs, rune(k))
		}
		return begin(st, rs)
	}
	ex.Hooks[S+"Next"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		k, _ := asInt(st.Load(seg, nil))
		if int(k) >= len(c.pieces) {
			st.Set(seg, nil, linConst(int64(len(c.pieces))+1))
			return []Outcome{{St: st, Ret: []Value{boolConst(false)}}}
		}
		st.Set(seg, nil, linConst(k+1))
		return []Outcome{{St: st, Ret: []Value{boolConst(true)}}}
	}
	cur := func(st *State) string {
		k, _ := asInt(st.Load(seg, nil))
		if k >= 1 && int(k) <= len(c.pieces) {
			return c.pieces[k-1]
		}
		return ""
	}
	ex.Hooks[S+"Bytes"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return []Outcome{{St: st, Ret: []Value{ex.bytesOf(st, cur(st))}}}
	}
	ex.Hooks[S+"Text"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return []Outcome{{St: st, Ret: []Value{strConst(cur(st))}}}
	}
	ex.Hooks[S+"Runes"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return []Outcome{{St: st, Ret: []Value{ex.runesOf(st, []rune(cur(st)))}}}
	}
	ex.Hooks[S+"Err"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return []Outcome{{St: st, Ret: []Value{&Nil{}}}}
	}
}

// R01: grapheme strings.
func runGraphemeString(p *Prog, r *Report) {
	sp := p.SPkg["grapheme"]
	if sp == nil {
		r.Fail("missing/grapheme", "?", "package grapheme is missing")
		return
	}
	fn := map[string]*ssa.Function{}
	for _, n := range []string{"StringFromString", "StringFromBytes"} {
		if fn[n] = p.Func("grapheme", n); fn[n] == nil {
			r.Fail("missing/"+n, "grapheme/string.go", "function grapheme.%s is missing", n)
			return
		}
	}
	c := newTextCheck(p, r)
	c.stubSegmenter()
	bad := map[string]int{}
	type config struct {
		ctor, s string
		cut     func(i int) bool
		desc    string
		idx     []int // graphemes to be judged (nil: all of them)
	}
	check := func(g config) bool {
		f := fn[g.ctor]
		pos := p.Pos(f.Pos())
		show := g.s
		if len(show) > 40 {
			show = fmt.Sprintf("%.20s… (%d bytes)", show, len(show))
		}
		fail := func(key, at, format string, a ...interface{}) {
			if bad[key]++; bad[key] <= 3 {
				r.Fail(key, at, format, a...)
			}
		}
		c.lim = 4*len(g.s) + 64
		c.cut, c.rderr = g.cut, false
		st := c.base.Clone()
		var arg Value = strConst(g.s)
		if g.ctor == "StringFromBytes" {
			if g.s == "" {
				arg = &Nil{fn[g.ctor].Params[0].Type()}
			} else {
				arg = c.ex.bytesOf(st, g.s)
			}
		}
		r.N("texts and their segmentations", 1)
		c.delivered, c.pieces = nil, nil
		o := c.run(f, st, fmt.Sprintf("%s(%q)", g.ctor, show), arg)
		if o == nil {
			return len(r.Undec) < 4
		}
		if len(g.s) > 0xffff {
			if o.Returns() {
				fail("limit", pos, "%s accepts a text of %d bytes", g.ctor, len(g.s))
			} else {
				r.Check(true, "limit", pos, "")
			}
			return true
		}
		if !o.Returns() {
			if len(g.s) > 32766 && !c.diverged {
				return true
			}
			fail("panic", pos, "%s(%q) %s", g.ctor, show, c.panicText(o))
			return true
		}
		start := legalStart(g.s)
		text, pieces := "", []string(nil)
		if start >= 0 {
			text = legalPrefix(g.s[start:])
			cur := ""
			rs := []rune(text)
			for i, x := range rs {
				cur += string(x)
				if i == len(rs)-1 || g.cut(i) {
					pieces = append(pieces, cur)
					cur = ""
				}
			}
			if string(c.delivered) != text {
				d := string(c.delivered)
				if len(d) > 40 {
					d = fmt.Sprintf("%d bytes", len(d))
				}
				fail("delivered", pos, "%s(%q): the text is %q, but %q is broken up to graphemes", g.ctor, show, text, d)
				return true
			}
			r.Check(true, "delivered", pos, "")
		}
		iv, ok := o.Ret[0].(*IfaceV)
		if !ok {
			if _, isNil := o.Ret[0].(*Nil); isNil {
				fail("nil", pos, "%s(%q) returns nil", g.ctor, show)
				return true
			}
			r.Undecided("result", pos, "result is %s", o.Ret[0].Key())
			return false
		}
		st = o.St
		st.trace = nil
		var m = map[string]*ssa.Function{}
		for _, n := range []string{"Nth", "Len", "String"} {
			if m[n] = p.Method(iv.Dyn, n); m[n] == nil {
				r.Undecided("method", pos, "method %s of %s not found", n, iv.Dyn)
				return false
			}
		}
		what := fmt.Sprintf("%s(%q) with graphemes %s", g.ctor, show, g.desc)
		call := func(n string, args ...Value) *Outcome {
			return c.run(m[n], st.Clone(), what+"."+n, append([]Value{iv.V}, args...)...)
		}
		if o := call("Len"); o != nil {
			if !o.Returns() {
				fail("len", p.Pos(m["Len"].Pos()), "%s: Len %s", what, c.panicText(o))
			} else if k, ok := asInt(o.Ret[0]); !ok {
				r.Undecided("len", p.Pos(m["Len"].Pos()), "length is %s", o.Ret[0].Key())
			} else if k != int64(len(pieces)) {
				fail("len", p.Pos(m["Len"].Pos()), "%s: there are %d graphemes, but Len returns %d", what, len(pieces), k)
			} else {
				r.Check(true, "len", pos, "")
			}
		}
		if o := call("String"); o != nil && start >= 0 {
			if !o.Returns() {
				fail("string", p.Pos(m["String"].Pos()), "%s: String %s", what, c.panicText(o))
			} else if t, ok := c.ex.textOf(o.St, o.Ret[0]); !ok {
				r.Undecided("string", p.Pos(m["String"].Pos()), "text is %s", o.Ret[0].Key())
			} else if t != text {
				if len(t) > 40 {
					t = fmt.Sprintf("%d bytes", len(t))
				}
				fail("string", p.Pos(m["String"].Pos()), "%s: String returns %q", what, t)
			} else {
				r.Check(true, "string", pos, "")
			}
		}
		idx := g.idx
		if idx == nil {
			for i := range pieces {
				idx = append(idx, i)
			}
		}
		for _, i := range idx {
			o := call("Nth", linConst(int64(i)))
			if o == nil {
				continue
			}
			if !o.Returns() {
				fail("nth", p.Pos(m["Nth"].Pos()), "%s: Nth(%d) %s", what, i, c.panicText(o))
			} else if t, ok := c.ex.textOf(o.St, o.Ret[0]); !ok {
				r.Undecided("nth", p.Pos(m["Nth"].Pos()), "grapheme is %s", o.Ret[0].Key())
			} else if t != pieces[i] {
				fail("nth", p.Pos(m["Nth"].Pos()), "%s: Nth(%d) is %q, want %q", what, i, cutText(t), cutText(pieces[i]))
			} else {
				r.Check(true, "nth", pos, "")
			}
		}
		over := []int{-1, len(pieces), len(pieces) + 1}
		if len(pieces) == 0 {
			over = []int{-1, 1}
		}
		for _, i := range over {
			o := call("Nth", linConst(int64(i)))
			if o == nil {
				continue
			}
			if o.Returns() {
				fail("index", p.Pos(m["Nth"].Pos()), "%s: Nth(%d) does not panic, there are %d graphemes", what, i, len(pieces))
			} else if c.diverged {
				fail("index", p.Pos(m["Nth"].Pos()), "%s: Nth(%d) does not terminate", what, i)
			} else {
				r.Check(true, "index", pos, "")
			}
		}
		return true
	}
	n := 3
	if r.Tier == "thorough" {
		n = 4
	}
	for _, s := range textsUpTo([]string{"a", "\u20ac", "\U0001f600", "\ufffd", "\x00", "\x80", "\xe2\x82", "\xff"}, n) {
		k := 0
		if st := legalStart(s); st >= 0 {
			k = utf8.RuneCountInString(legalPrefix(s[st:])) - 1
		}
		for mask := 0; mask < 1<<uint(k); mask++ {
			mask := mask
			g := config{s: s, cut: func(i int) bool { return mask>>uint(i)&1 != 0 }, desc: fmt.Sprintf("cut by %0*b", k, mask), ctor: "StringFromString"}
			if !check(g) {
				return
			}
			if mask == 0 {
				g.ctor = "StringFromBytes"
				if !check(g) {
					return
				}
			}
		}
	}
	// limits of the internal representations
	for _, l := range []int{127, 128, 253, 254, 255, 256, 257, 260, 300, 512, 1000} {
		for _, pre := range []string{"", "\x80"} {
			s := pre + strings.Repeat("b", l-len(pre))
			for _, cutAt := range [][]int{nil, {0}, {l - 2 - len(pre)}, {0, 126, 127, 128, 252, 253, 254, 255, 256, 257, l - 3}} {
				cs := map[int]bool{}
				for _, x := range cutAt {
					cs[x] = true
				}
				if !check(config{s: s, cut: func(i int) bool { return cs[i] }, desc: fmt.Sprintf("cut at %v", cutAt), ctor: "StringFromString"}) {
					return
				}
			}
			if l < 300 && !check(config{s: s, cut: func(int) bool { return true }, desc: "of one code point", ctor: "StringFromString", idx: []int{0, l / 2, l - 1 - len(pre)}}) {
				return
			}
		}
	}
	for _, l := range []int{32764, 65532, 65536, 65540, 131072 + 40} {
		s := strings.Repeat("\U0001f600", l/4)
		cs := map[int]bool{0: true, 8190: true, 8191: true, l/4 - 2: true}
		if !check(config{s: s, cut: func(i int) bool { return cs[i] }, desc: "cut at 0, 8190, 8191 and before the last code point", ctor: "StringFromString"}) {
			return
		}
	}
	r.Engine(c.ex)
}

func cutText(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%.20s… (%d bytes)", s, len(s))
	}
	return s
}
