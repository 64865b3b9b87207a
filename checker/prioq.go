package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Q01: the queue of subscribers of the rune publisher. Its exported operations
// are interpreted on queues of up to N opaque subscribers; queues are
// abstracted to the Done states of their elements in order (subscribers are
// interchangeable) and to the scalar fields of the publisher, and the
// transitions between abstract queues are explored to a fixed point.

func runPrioQueue(p *Prog, r *Report) {
	T := "DefaultRunePublisher."
	fn := map[string]*ssa.Function{}
	for _, n := range []string{"Push", "Pop", "PopDone", "Top", "Len", "Fix", "SubscribeMe"} {
		if fn[n] = p.Func("", T+n); fn[n] == nil {
			r.Fail("anchor", "?", "%s%s not found", T, n)
			return
		}
	}
	mk := p.Func("", "NewRunePublisher")
	if mk == nil {
		r.Fail("anchor", "?", "NewRunePublisher not found")
		return
	}
	maxN := 5
	if r.Tier == "thorough" {
		maxN = 9
	}
	ex := NewEngine(p.SSA)
	flags := map[string]bool{}
	ex.Hooks["invoke:uax.RuneSubscriber.Done"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		d, known := flags[a[0].Key()]
		if !known {
			return []Outcome{{St: st, Panic: true, PanicI: site, PanicV: strConst("nil subscriber")}}
		}
		return []Outcome{{St: st, Ret: []Value{boolConst(d)}}}
	}
	base := "invoke:uax.RuneSubscriber."
	for _, m := range []string{"Unsubscribed", "RuneEvent"} {
		m := m
		ex.Hooks[base+m] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			st.Emit(Event{Kind: "call", Name: m, Instr: site})
			return []Outcome{{St: st, Ret: []Value{&Nil{}}}}
		}
	}
	ex.Hooks[base+"MatchLength"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return []Outcome{{St: st, Ret: []Value{linSym("mlen_" + a[0].Key())}}}
	}
	st := ex.NewState()
	var syms []*Sym
	for i := 0; i <= maxN; i++ {
		syms = append(syms, subSym(i))
		st.assume(ex.equal(st, subSym(i), &Nil{}, nil), false)
	}
	outs, err := ex.Run(mk, nil, st)
	if err != nil || len(outs) != 1 || !outs[0].Returns() {
		r.Undecided("NewRunePublisher", p.Pos(mk.Pos()), "%d paths, %v", len(outs), err)
		return
	}
	pv := outs[0].Ret[0]
	if iv, ok := pv.(*IfaceV); ok {
		pv = iv.V
	}
	pt, isP := pv.(*Ptr)
	type node struct {
		st   *State
		in   map[string]bool // subscribers in the queue and whether they are done
		hist []string
	}
	// representation of a queue: elements in order, scalars
	repr := func(st *State) (elems []string, rest string, ok bool) {
		if !isP {
			return nil, "", false
		}
		var b strings.Builder
		n := 0
		var walk func(path []pe, t types.Type)
		walk = func(path []pe, t types.Type) {
			if s, is := t.Underlying().(*types.Struct); is {
				for i := 0; i < s.NumFields(); i++ {
					walk(appendPE(path, pe{Field: i}), s.Field(i).Type())
				}
				return
			}
			v := st.Load(pt.O, path)
			if sl, is := t.Underlying().(*types.Slice); is && types.IsInterface(sl.Elem()) {
				n++
				switch x := v.(type) {
				case *Nil:
				case *SliceV:
					k, c := x.Len.Const()
					if !c {
						n = 99
						return
					}
					for i := int64(0); i < k; i++ {
						elems = append(elems, st.Load(x.O, appendPE(x.Path, pe{Field: -1, Idx: linAdd(x.Off, linConst(i), 1)})).Key())
					}
					if c, known := x.Cap.Const(); known && c <= k {
						b.WriteString("full;")
					}
				default:
					n = 99
				}
				return
			}
			fmt.Fprintf(&b, "%s;", v.Key())
		}
		walk(pt.Path, deref(mk.Signature.Results().At(0).Type()))
		return elems, b.String(), n == 1
	}
	key := func(n *node) (string, bool) {
		el, rest, ok := repr(n.st)
		if !ok {
			return strings.Join(n.hist, " "), false
		}
		s := rest
		for _, e := range el {
			d, in := n.in[e]
			s += fmt.Sprintf("|%v%v", in, d)
		}
		return s, true
	}
	bad := map[string]bool{}
	name := func(h []string) string { return strings.Join(h, ", ") }
	// apply one operation; the result must be unique, since all Done states are known
	apply := func(n *node, what string, f *ssa.Function, args ...Value) (*State, Value, bool) {
		flags = n.in
		s := n.st.Clone()
		var recv Value = pv
		if isP && f.Signature.Recv() != nil {
			if _, ptr := f.Signature.Recv().Type().Underlying().(*types.Pointer); !ptr {
				recv = s.Load(pt.O, pt.Path)
			}
		}
		os, err := ex.Run(f, append([]Value{recv}, args...), s)
		r.N("operations interpreted", 1)
		r.Oblig++
		if err != nil || len(os) != 1 {
			if !bad["u"+what] {
				bad["u"+what] = true
				r.Undecided(what, p.Pos(f.Pos()), "after %s: %d paths, %v", name(n.hist), len(os), err)
			}
			return nil, nil, false
		}
		if !os[0].Returns() {
			at := p.Pos(f.Pos())
			if os[0].PanicI != nil {
				at = p.Pos(os[0].PanicI.Pos())
			}
			r.Fail(what+":panic", at, "after %s: %s panics", name(n.hist), what)
			return nil, nil, false
		}
		r.Disch++
		if len(os[0].Ret) == 0 {
			return os[0].St, nil, true
		}
		v := os[0].Ret[0]
		if iv, is := v.(*IfaceV); is {
			if _, isNil := iv.V.(*Nil); isNil {
				v = iv.V
			}
		}
		return os[0].St, v, true
	}
	seen := map[string]bool{}
	work := []*node{{outs[0].St, map[string]bool{}, nil}}
	with := func(m map[string]bool, k string, v bool) map[string]bool {
		c := map[string]bool{}
		for a, b := range m {
			c[a] = b
		}
		c[k] = v
		return c
	}
	without := func(m map[string]bool, k string) map[string]bool {
		c := map[string]bool{}
		for a, b := range m {
			if a != k {
				c[a] = b
			}
		}
		return c
	}
	isNil := func(v Value) bool {
		if c, is := v.(*Const); is {
			return c.V == nil || c.V.Kind() == constant.Unknown
		}
		_, is := v.(*Nil)
		return is
	}
	hist := func(n *node, s string) []string { return append(n.hist[:len(n.hist):len(n.hist)], s) }
	fails := 0
	for len(work) > 0 && fails < 12 {
		n := work[0]
		work = work[1:]
		k, full := key(n)
		if seen[k] || !full && len(n.hist) > 6 {
			continue
		}
		seen[k] = true
		r.N("abstract queues", 1)
		if len(seen) > 3000 {
			r.Undecided("bound", p.Pos(mk.Pos()), "more than 3000 abstract queues, exploration cut off")
			break
		}
		anyDone := false
		var ids []string
		for id, d := range n.in {
			ids = append(ids, id)
			anyDone = anyDone || d
		}
		sort.Strings(ids)
		fail := func(key string, f *ssa.Function, format string, a ...interface{}) {
			fails++
			r.Fail(key, p.Pos(f.Pos()), "queue built by [%s]: %s", name(n.hist), fmt.Sprintf(format, a...))
		}
		// Len
		if _, v, ok := apply(n, "Len", fn["Len"]); ok && v.Key() != linConst(int64(len(ids))).Key() {
			fail("Len", fn["Len"], "Len() is %s, want %d", v.Key(), len(ids))
		}
		// Top
		_, top, ok := apply(n, "Top", fn["Top"])
		if !ok {
			continue
		}
		if len(ids) == 0 {
			if !isNil(top) {
				fail("Top", fn["Top"], "Top() of the empty queue is %s", top.Key())
			}
		} else if d, in := n.in[top.Key()]; !in {
			fail("Top", fn["Top"], "Top() is %s, which is not in the queue", top.Key())
		} else if anyDone && !d {
			fail("Top", fn["Top"], "Top() is a subscriber which is not done although there is one which is")
		}
		// Pop
		if s, v, ok := apply(n, "Pop", fn["Pop"]); ok {
			if len(ids) == 0 {
				if !isNil(v) {
					fail("Pop", fn["Pop"], "Pop() from the empty queue is %s", v.Key())
				}
			} else if d, in := n.in[v.Key()]; !in {
				fail("Pop", fn["Pop"], "Pop() is %s, which is not in the queue", v.Key())
			} else if anyDone && !d {
				fail("Pop", fn["Pop"], "Pop() is a subscriber which is not done although there is one which is")
			} else if v.Key() != top.Key() {
				fail("Pop", fn["Pop"], "Pop() is not the subscriber Top() returns")
			} else {
				work = append(work, &node{s, without(n.in, v.Key()), hist(n, "Pop")})
			}
		}
		// PopDone
		if s, v, ok := apply(n, "PopDone", fn["PopDone"]); ok {
			if !anyDone {
				if !isNil(v) {
					fail("PopDone", fn["PopDone"], "PopDone() is %s although no subscriber is done", v.Key())
				} else {
					work = append(work, &node{s, n.in, hist(n, "PopDone")})
				}
			} else if isNil(v) {
				fail("PopDone", fn["PopDone"], "PopDone() is nil although a subscriber is done")
			} else if d, in := n.in[v.Key()]; !in || !d {
				fail("PopDone", fn["PopDone"], "PopDone() is %s, which is not a done subscriber of the queue", v.Key())
			} else {
				work = append(work, &node{s, without(n.in, v.Key()), hist(n, "PopDone")})
			}
		}
		// Push
		if len(ids) < maxN {
			var id *Sym
			for _, s := range syms {
				if _, in := n.in[s.Name]; !in {
					id = s
					break
				}
			}
			for _, op := range []string{"Push", "SubscribeMe"} {
				for _, d := range []bool{false, true} {
					nn := &node{n.st, with(n.in, id.Name, d), hist(n, fmt.Sprintf("%s(%s)", op, map[bool]string{true: "done", false: "active"}[d]))}
					if s, v, ok := apply(nn, op, fn[op], id); ok {
						if op == "SubscribeMe" {
							if iv, is := v.(*IfaceV); is {
								v = iv.V
							}
							if v.Key() != pv.Key() {
								fail("SubscribeMe", fn[op], "SubscribeMe() returns %s instead of the publisher", v.Key())
								continue
							}
						}
						nn.st = s
						work = append(work, nn)
					}
				}
			}
		}
		// a subscriber changes its state, and is fixed
		if el, _, ok := repr(n.st); ok {
			for i, e := range el {
				d, in := n.in[e]
				if !in {
					fail("content", fn["Push"], "position %d holds %s, which is not in the queue", i, e)
					continue
				}
				for _, nd := range []bool{d, !d} {
					nn := &node{n.st, with(n.in, e, nd), hist(n, fmt.Sprintf("Fix(%d: %v→%v)", i, d, nd))}
					if s, _, ok := apply(nn, "Fix", fn["Fix"], linConst(int64(i))); ok {
						nn.st = s
						work = append(work, nn)
					}
				}
			}
			nn := &node{n.st, n.in, hist(n, "Fix(Len)")}
			if s, _, ok := apply(nn, "Fix", fn["Fix"], linConst(int64(len(el)))); ok {
				nn.st = s
				work = append(work, nn)
			}
		} else if !bad["repr"] {
			bad["repr"] = true
			r.Undecided("Fix", p.Pos(fn["Fix"].Pos()), "the publisher holds its subscribers in an unexpected way")
		}
	}
	// long queues: filled, changed at many positions, and emptied
	long := 300
	for i := len(syms); i < long; i++ {
		syms = append(syms, subSym(i))
	}
	for variant := 0; variant < 4 && fails == 0; variant++ {
		s0 := outs[0].St.Clone()
		for i := maxN + 1; i < long; i++ {
			s0.assume(ex.equal(s0, subSym(i), &Nil{}, nil), false)
		}
		n := &node{s0, map[string]bool{}, []string{fmt.Sprintf("%d subscribers, variant %d", long, variant)}}
		good := true
		step := func(what string, args ...Value) Value {
			if !good {
				return nil
			}
			s, v, ok := apply(n, what, fn[what], args...)
			if good = ok; ok {
				n.st = s
			}
			return v
		}
		bad := func(what, format string, a ...interface{}) {
			good = false
			fails++
			r.Fail(what, p.Pos(fn[what].Pos()), "queue of [%s]: %s", name(n.hist), fmt.Sprintf(format, a...))
		}
		for i := 0; i < long && good; i++ {
			n.in[syms[i].Name] = []bool{false, i%3 == 0, i%7 != 0, i >= long/2}[variant]
			step("Push", syms[i])
		}
		n.hist = append(n.hist, "pushed")
		for i := long - 1; i >= 0 && good; i -= 1 + variant { // as the publisher does
			el, _, ok := repr(n.st)
			if !ok || len(el) != long {
				if ok {
					bad("Len", "holds %d subscribers", len(el))
				}
				break
			}
			if i%2 == 0 {
				n.in[el[i]] = true
			}
			step("Fix", linConst(int64(i)))
		}
		n.hist = append(n.hist, "changed")
		for good && len(n.in) > 0 {
			if v := step("Len"); good && v.Key() != linConst(int64(len(n.in))).Key() {
				bad("Len", "Len() is %s, want %d", v.Key(), len(n.in))
				break
			}
			anyDone := false
			for _, d := range n.in {
				anyDone = anyDone || d
			}
			what := "Pop"
			if len(n.in)%2 == 0 {
				what = "PopDone"
			}
			v := step(what)
			if !good {
				break
			}
			if isNil(v) {
				if what == "Pop" || anyDone {
					bad(what, "%s() is nil with %d subscribers left, one of them done: %v", what, len(n.in), anyDone)
				} else if v = step("Pop"); good && isNil(v) {
					bad("Pop", "Pop() is nil with %d subscribers left", len(n.in))
				}
				if !good {
					break
				}
			}
			if d, in := n.in[v.Key()]; !in {
				bad(what, "%s() is %s, which is not in the queue", what, v.Key())
			} else if anyDone && !d {
				bad(what, "%s() is a subscriber which is not done although there is one which is", what)
			}
			delete(n.in, v.Key())
		}
	}
	// a nil queue
	for _, op := range []string{"Pop", "PopDone"} {
		os, err := ex.Run(fn[op], []Value{&Nil{T: mk.Signature.Results().At(0).Type()}}, ex.NewState())
		if err != nil || len(os) != 1 {
			r.Undecided(op+":nil", p.Pos(fn[op].Pos()), "%v", err)
			continue
		}
		r.Check(os[0].Returns() && isNil(os[0].Ret[0]), op+":nil", p.Pos(fn[op].Pos()), "%s() of a nil publisher does not return nil", op)
	}
	r.Engine(ex)
}

func deref(t types.Type) types.Type {
	if pt, is := t.Underlying().(*types.Pointer); is {
		return pt.Elem()
	}
	return t
}
