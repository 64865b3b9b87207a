package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// S06: the rune queue of the segmenter is a sequence, whatever the position
// of its content in the ring buffer and across growing and shrinking. Every
// operation is interpreted for the ring positions reached by pushing and
// popping, with opaque contents, and compared with the sequence.

type dq struct {
	p    *Prog
	r    *Report
	ex   *Engine
	recv Value
	fn   map[string]*ssa.Function
	next int
}

func atomSym(i int) []Value {
	return []Value{linSym(fmt.Sprintf("x%d", i)), linSym(fmt.Sprintf("x%d.p0", i)), linSym(fmt.Sprintf("x%d.p1", i))}
}

func (d *dq) op(st *State, name string, args ...Value) (*State, []Value, bool) {
	f := d.fn[name]
	outs, err := d.ex.Run(f, append([]Value{d.recv}, args...), st)
	if err != nil {
		d.r.Undecided(name, d.p.Pos(f.Pos()), "%v", err)
		return nil, nil, false
	}
	if len(outs) != 1 {
		d.r.Undecided(name, d.p.Pos(f.Pos()), "%d paths for one configuration", len(outs))
		return nil, nil, false
	}
	if !outs[0].Returns() {
		d.r.Fail(name+":panic", d.p.Pos(f.Pos()), "%s panics or does not end on a valid queue", name)
		return nil, nil, false
	}
	s := outs[0].St
	s.trace = nil
	return s, outs[0].Ret, true
}

func keysOf(vs []Value) string {
	s := ""
	for _, v := range vs {
		s += v.Key() + ","
	}
	return s
}

// check compares the queue with the sequence of element numbers.
func (d *dq) check(st *State, seq []int, what string, full bool) bool {
	pos := func(n string) string { return d.p.Pos(d.fn[n].Pos()) }
	_, v, ok := d.op(st.Clone(), "Len")
	if !ok {
		return false
	}
	if !d.r.Check(v[0].Key() == fmt.Sprint(len(seq)), "len", pos("Len"), "%s: length is %s, want %d", what, v[0].Key(), len(seq)) {
		return false
	}
	idx := []int{}
	for i := range seq {
		if full || i < 3 || i > len(seq)-4 || i == len(seq)/2 {
			idx = append(idx, i)
		}
	}
	for _, i := range idx {
		_, v, ok := d.op(st.Clone(), "At", linConst(int64(i)))
		if !ok {
			return false
		}
		if !d.r.Check(keysOf(v) == keysOf(atomSym(seq[i])), "content", pos("At"), "%s: element %d of %d is %s, want %s", what, i, len(seq), keysOf(v), keysOf(atomSym(seq[i]))) {
			return false
		}
		if f := d.fn["AtomAt"]; f != nil {
			s2, v, ok := d.op(st.Clone(), "AtomAt", linConst(int64(i)))
			if ok {
				pt, isP := v[0].(*Ptr)
				good := false
				if isP {
					sv, isS := s2.Load(pt.O, pt.Path).(*StructV)
					good = isS && keysOf(sv.F) == keysOf(atomSym(seq[i]))
				}
				if !d.r.Check(good, "atom", pos("AtomAt"), "%s: atom %d of %d is not the element there", what, i, len(seq)) {
					return false
				}
			}
		}
	}
	if len(seq) > 0 {
		for _, n := range []string{"Front", "Back", "LastRune"} {
			if d.fn[n] == nil {
				continue
			}
			_, v, ok := d.op(st.Clone(), n)
			if !ok {
				return false
			}
			want := atomSym(seq[0])
			if n != "Front" {
				want = atomSym(seq[len(seq)-1])
			}
			if n == "LastRune" {
				want = want[:1]
			}
			if !d.r.Check(keysOf(v) == keysOf(want), n, pos(n), "%s: %s is %s, want %s", what, n, keysOf(v), keysOf(want)) {
				return false
			}
		}
	}
	return true
}

func runDeque(p *Prog, r *Report) {
	sp := p.SPkg["segment"]
	if sp == nil || sp.Type("deque") == nil {
		r.Undecided("anchor", "segment", "type deque not found")
		return
	}
	dt := sp.Type("deque").Type()
	d := &dq{p: p, r: r, fn: map[string]*ssa.Function{}}
	for _, n := range []string{"Len", "PushBack", "PushFront", "PopFront", "PopBack", "Front", "Back", "LastRune", "At", "AtomAt", "SetAt", "Clear", "Rotate"} {
		if f := p.Method(dt, n); f != nil {
			d.fn[n] = f
		}
	}
	for _, n := range []string{"Len", "PushBack", "PopFront", "At"} {
		if d.fn[n] == nil {
			r.Undecided("anchor", "segment", "method %s of deque not found", n)
			return
		}
	}
	d.ex = NewEngine(p.SSA)
	d.ex.maxStep, d.ex.maxOuts = 3000000, 1000000
	o := d.ex.NewObj("queue", dt, false)
	d.recv = &Ptr{O: o}
	_ = types.Typ
	st := d.ex.NewState()
	counts := map[int]bool{0: true, 1: true, 2: true, 16: true, 17: true, 31: true, 32: true, 33: true, 62: true, 63: true, 64: true, 65: true, 66: true, 127: true, 128: true, 129: true, 256: true, 257: true, 512: true, 513: true, 1024: true, 1025: true, 1026: true, 4095: true, 4096: true, 4097: true, 4098: true}
	heads := []int{0, 1, 2, 30, 31, 32, 33, 60, 61, 62, 63, 64}
	if r.Tier == "thorough" {
		heads = nil
		for h := 0; h < 130; h++ {
			heads = append(heads, h)
		}
	}
	hm := map[int]bool{}
	maxH := 0
	for _, h := range heads {
		hm[h] = true
		if h > maxH {
			maxH = h
		}
	}
	n := 0
	for h := 0; h <= maxH; h++ {
		if h > 0 { // move the head by one
			var ok bool
			if st, _, ok = d.op(st, "PushBack", atomSym(9000)...); !ok {
				return
			}
			if st, _, ok = d.op(st, "PopFront"); !ok {
				return
			}
		}
		if !hm[h] {
			continue
		}
		cur := st.Clone()
		var seq []int
		most := 129
		if h == 1 || h == 33 { // rings grown several times
			most = 1026
		}
		if h == 33 {
			most = 4098
		}
		for c := 0; c <= most; c++ {
			if c > 0 {
				var ok bool
				if cur, _, ok = d.op(cur, "PushBack", atomSym(c)...); !ok {
					return
				}
				seq = append(seq, c)
			}
			if !counts[c] {
				continue
			}
			n++
			what := fmt.Sprintf("head moved by %d, %d elements", h, c)
			if !d.check(cur, seq, what, c <= 3 || h%16 == 0 && c < 70) {
				return
			}
			d.ops(cur, seq, what)
			if len(r.Findings) > 20 {
				return
			}
		}
		// shrink: pop everything from the large ring, from both ends alternately
		for k := 0; len(seq) > 0; k++ {
			name := "PopFront"
			want := seq[0]
			if k%3 == 2 && d.fn["PopBack"] != nil {
				name, want = "PopBack", seq[len(seq)-1]
			}
			var v []Value
			var ok bool
			if cur, v, ok = d.op(cur, name); !ok {
				return
			}
			if !r.Check(keysOf(v) == keysOf(atomSym(want)), name, p.Pos(d.fn[name].Pos()), "head moved by %d, %d elements left: %s returns %s, want %s", h, len(seq), name, keysOf(v), keysOf(atomSym(want))) {
				return
			}
			if name == "PopFront" {
				seq = seq[1:]
			} else {
				seq = seq[:len(seq)-1]
			}
			if len(seq) < 4 || len(seq)%16 < 2 || len(seq) == 33 {
				if !d.check(cur, seq, fmt.Sprintf("head moved by %d, after shrinking to %d elements", h, len(seq)), false) {
					return
				}
			}
		}
	}
	// a ring which has been large and is nearly empty after Clear
	if d.fn["Clear"] != nil {
		for _, big := range []int{65, 129, 257} {
			st := d.ex.NewState()
			var ok bool
			for i := 0; i < big; i++ {
				if st, _, ok = d.op(st, "PushBack", atomSym(5000+i)...); !ok {
					return
				}
			}
			if st, _, ok = d.op(st, "Clear"); !ok {
				return
			}
			for h := 0; h <= 2; h++ {
				cur := st.Clone()
				for i := 0; i < []int{0, 7, 2*big - 10}[h]; i++ {
					if cur, _, ok = d.op(cur, "PushBack", atomSym(9000)...); !ok {
						return
					}
					if cur, _, ok = d.op(cur, "PopFront"); !ok {
						return
					}
				}
				var seq []int
				for c := 1; c <= big+2; c++ {
					if cur, _, ok = d.op(cur, "PushBack", atomSym(c)...); !ok {
						return
					}
					seq = append(seq, c)
					q := big / 4
					if c == 1 || c == 2 || c == 15 || c >= q-1 && c <= q+2 || c == big/2 || c == big+2 {
						n++
						d.ops(cur, seq, fmt.Sprintf("a ring of %d elements cleared, head %d, %d elements", big, h, c))
						// pop some of them and fill up again
						s := cur.Clone()
						sq := append([]int(nil), seq...)
						for i := 0; i < 3 && len(sq) > 0; i++ {
							if s, _, ok = d.op(s, "PopFront"); !ok {
								return
							}
							sq = sq[1:]
						}
						for i := 0; i < 5; i++ {
							if s, _, ok = d.op(s, "PushBack", atomSym(700+i)...); !ok {
								return
							}
							sq = append(sq, 700+i)
						}
						if !d.check(s, sq, fmt.Sprintf("a ring of %d elements cleared, head %d, %d elements, then popping 3 and pushing 5", big, h, c), false) {
							return
						}
					}
					if len(r.Findings) > 20 {
						return
					}
				}
			}
		}
	}
	r.N("queue configurations", n)
	r.Engine(d.ex)
}

func (d *dq) ops(st *State, seq []int, what string) {
	r := d.r
	pos := func(n string) string { return d.p.Pos(d.fn[n].Pos()) }
	if len(seq) > 0 {
		for _, n := range []string{"PopFront", "PopBack"} {
			if d.fn[n] == nil {
				continue
			}
			s, v, ok := d.op(st.Clone(), n)
			if !ok {
				continue
			}
			want, rest := seq[0], seq[1:]
			if n == "PopBack" {
				want, rest = seq[len(seq)-1], seq[:len(seq)-1]
			}
			r.Check(keysOf(v) == keysOf(atomSym(want)), n, pos(n), "%s: %s returns %s, want %s", what, n, keysOf(v), keysOf(atomSym(want)))
			d.check(s, rest, what+", then "+n, false)
		}
		if d.fn["SetAt"] != nil {
			i := len(seq) / 2
			s, _, ok := d.op(st.Clone(), "SetAt", append([]Value{linConst(int64(i))}, atomSym(777)...)...)
			if ok {
				ns := append([]int(nil), seq...)
				ns[i] = 777
				d.check(s, ns, what+", then SetAt", false)
			}
		}
	}
	if d.fn["PushFront"] != nil {
		if s, _, ok := d.op(st.Clone(), "PushFront", atomSym(888)...); ok {
			d.check(s, append([]int{888}, seq...), what+", then PushFront", false)
		}
	}
	if d.fn["Clear"] != nil {
		if s, _, ok := d.op(st.Clone(), "Clear"); ok {
			d.check(s, nil, what+", then Clear", false)
			if s, _, ok := d.op(s, "PushBack", atomSym(999)...); ok {
				d.check(s, []int{999}, what+", then Clear and PushBack", true)
			}
		}
	}
	if d.fn["Rotate"] != nil && len(seq) > 0 {
		for _, k := range []int{1, -1, 5} {
			if s, _, ok := d.op(st.Clone(), "Rotate", linConst(int64(k))); ok {
				n := len(seq)
				var ns []int
				for i := range seq {
					ns = append(ns, seq[((i+k)%n+n)%n])
				}
				d.check(s, ns, fmt.Sprintf("%s, then Rotate(%d)", what, k), false)
			}
		}
	}
}

// S05: the default breaker.
func runSimpleBreaker(p *Prog, r *Report) {
	mk := p.Func("segment", "NewSimpleWordBreaker")
	if mk == nil {
		r.Fail("anchor", "?", "NewSimpleWordBreaker not found")
		return
	}
	rt := mk.Signature.Results().At(0).Type()
	pt, ok := rt.(*types.Pointer)
	if !ok {
		r.Undecided("anchor", p.Pos(mk.Pos()), "NewSimpleWordBreaker does not return a pointer")
		return
	}
	fn := map[string]*ssa.Function{}
	for _, n := range []string{"CodePointClassFor", "StartRulesFor", "ProceedWithRune", "LongestActiveMatch", "Penalties"} {
		fn[n] = p.Method(pt.Elem(), n)
		if fn[n] == nil {
			r.Fail("anchor", "?", "method %s not found", n)
			return
		}
	}
	// the classes of all code points: white space against everything else
	if m := newClassModel(p, r, "segment"); m != nil {
		if ret, ok := m.callV(mk); ok {
			if got, ok := m.lookup(fn["CodePointClassFor"], []Value{ret[0]}); ok {
				ws := newRuneSet()
				for _, c := range []int64{0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0x20} {
					ws.add(c)
				}
				ws.addRange(9, 13)
				ws.addRange(0x2000, 0x200a)
				badW, badS := newRuneSet(), newRuneSet()
				for c := int64(1); c < maxRune; c++ {
					if ws.has(c) && got[c] != got[' '] {
						badS.add(c)
					} else if !ws.has(c) && got[c] != got['a'] {
						badW.add(c)
					}
				}
				pos := p.Pos(fn["CodePointClassFor"].Pos())
				r.Check(got[' '] != got['a'], "space:class", pos, "white space has the same class as other characters")
				r.Check(badS.count() == 0, "space:missing", pos, "%d white space characters do not have the class of white space: %s", badS.count(), rangesOf(badS, 5))
				r.Check(badW.count() == 0, "space:extra", pos, "%d characters which are no white space do not have the class of words: %s", badW.count(), rangesOf(badW, 5))
				r.N("code points compared", maxRune)
			}
		}
		r.Engine(m.ex)
	}
	before, after := int64(100), int64(-100)
	maxL := 6
	if r.Tier == "thorough" {
		maxL = 8
	}
	type node struct {
		st   *State
		run  byte // kind of the current run, 0 none
		n    int  // its length
		pos  int  // runes in the current text
		hist string
	}
	ex := NewEngine(p.SSA)
	ex.maxStep, ex.maxOuts = 3000000, 1000000
	outs, err := ex.Run(mk, nil, ex.NewState())
	if err != nil || len(outs) != 1 || !outs[0].Returns() {
		r.Undecided("constructor", p.Pos(mk.Pos()), "%v", err)
		return
	}
	recv := outs[0].Ret[0]
	level := []node{{st: outs[0].St}}
	for l := 0; l < maxL; l++ {
		var nx []node
		for _, nd := range level {
			for _, k := range []byte("wse") {
				st := nd.st.Clone()
				rv := linSym(fmt.Sprintf("%c%d", k, l))
				isSp := fn["CodePointClassFor"]
				_ = isSp
				if k == 'e' {
					rv = linConst(0)
				} else {
					st.assume(eq0(rv), false)
				}
				// unicode.IsSpace is the documented criterion
				kind := k
				ex.Hooks["unicode.IsSpace"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
					if a[0].Key() == rv.Key() {
						return []Outcome{{St: st, Ret: []Value{boolConst(kind == 's')}}}
					}
					return []Outcome{{St: st, Ret: []Value{&Term{Op: "unicode.IsSpace", Args: a, T: types.Typ[types.Bool]}}}}
				}
				hist := nd.hist + string(k)
				call := func(n string, args ...Value) []Value {
					outs, err := ex.Run(fn[n], append([]Value{recv}, args...), st)
					if err != nil || len(outs) != 1 {
						r.Undecided(n, p.Pos(fn[n].Pos()), "%s: %d paths, %v", hist, len(outs), err)
						return nil
					}
					if !outs[0].Returns() {
						r.Fail(n+":panic", p.Pos(fn[n].Pos()), "%s panics for the runes %s", n, hist)
						return nil
					}
					st = outs[0].St
					st.trace = nil
					if outs[0].Ret == nil {
						return []Value{}
					}
					return outs[0].Ret
				}
				var cl []Value
				if outs, err := ex.Run(fn["CodePointClassFor"], []Value{recv, rv}, st.Clone()); err == nil && len(outs) == 1 {
					cl = call("CodePointClassFor", rv)
				} else { // another criterion than unicode.IsSpace: take the class of a representative
					cl = call("CodePointClassFor", linConst(map[byte]int64{'w': 'a', 's': ' ', 'e': 0}[k]))
				}
				if cl == nil || call("StartRulesFor", rv, cl[0]) == nil || call("ProceedWithRune", rv, cl[0]) == nil {
					continue
				}
				lam := call("LongestActiveMatch")
				pen := call("Penalties")
				if lam == nil || pen == nil {
					continue
				}
				m := node{st: st, hist: hist, pos: nd.pos + 1}
				want := map[int]int64{}
				switch {
				case k == 'e':
					m.run, m.n, m.pos = 0, 0, 0
					if nd.run == 's' {
						want[1] = after
					} else if nd.run == 'w' {
						want[1] = before
					}
				case k == nd.run:
					m.run, m.n = k, nd.n+1
				default:
					m.run, m.n = k, 1
					if nd.run == 's' {
						want[1] = after
					} else if nd.run == 'w' {
						want[1] = before
					}
				}
				good := r.Check(lam[0].Key() == fmt.Sprint(m.n), "active-match", p.Pos(fn["LongestActiveMatch"].Pos()), "runes %s (w word, s space, e end of text): the active match is %s, want %d", hist, lam[0].Key(), m.n)
				avail := nd.pos + 1
				var got []string
				if sl, ok := pen[0].(*SliceV); ok {
					n, _ := sl.Len.Const()
					for i := int64(0); i < n; i++ {
						got = append(got, st.Load(sl.O, appendPE(sl.Path, pe{Field: -1, Idx: linAdd(sl.Off, linConst(i), 1)})).Key())
					}
				}
				for i := 0; i < avail; i++ {
					g := "0"
					if i < len(got) {
						g = got[i]
					}
					if !r.Check(g == fmt.Sprint(want[i]), "penalty", p.Pos(fn["ProceedWithRune"].Pos()), "runes %s (w word, s space, e end of text): the penalty %d positions before the current rune is %s, want %d", hist, i, g, want[i]) {
						good = false
					}
				}
				if good {
					nx = append(nx, m)
				}
				if len(r.Findings) > 20 {
					return
				}
			}
		}
		level = nx
	}
	r.Engine(ex)
}
