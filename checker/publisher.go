package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// P01: the rune publisher. PublishRuneEvent is interpreted for a queue of n
// opaque subscribers, n = 0…N, built by SubscribeMe from an empty publisher,
// with every combination of "finished after this event" (path condition), and
// then once more on the resulting queue.

type subInfo struct {
	n int
}

func runPublisher(p *Prog, r *Report) {
	pub := p.Func("", "DefaultRunePublisher.PublishRuneEvent")
	sub := p.Func("", "DefaultRunePublisher.SubscribeMe")
	mk := p.Func("", "NewRunePublisher")
	if pub == nil || sub == nil || mk == nil {
		r.Fail("anchor", "?", "PublishRuneEvent / SubscribeMe / NewRunePublisher not found")
		return
	}
	maxN := 5
	lens := [][]int{{0, 0, 0, 0, 0, 0}, {2, 0, 3, 1, 2, 0}, {1, 3, 2, 2, 0, 3}, {3, 2, 1, 0, 3, 2}}
	if r.Tier == "thorough" {
		maxN = 6
	}
	// many subscribers with long lists of penalties
	many := make([]int, 40)
	for i := range many {
		many[i] = i % 4
	}
	many[17] = 70
	publishScenario(p, r, mk, sub, pub, 72, many)
	for n := 0; n <= maxN; n++ {
		for li, ls := range lens {
			if n == 0 && li > 0 {
				continue
			}
			t0 := time.Now()
			publishScenario(p, r, mk, sub, pub, n, ls)
			if os.Getenv("VP_DEBUG") != "" {
				fmt.Println("publisher scenario", n, ls, time.Since(t0), r.Count)
			}
		}
	}
}

func subSym(i int) *Sym { return &Sym{fmt.Sprintf("sub%d", i), nil} }

func publishScenario(p *Prog, r *Report, mk, sub, pub *ssa.Function, n int, lens []int) {
	ex := NewEngine(p.SSA)
	ex.unrollFork = 16 + n
	pos := p.Pos(pub.Pos())
	subT := p.Pkgs[""].Types.Scope().Lookup("RuneSubscriber")
	if subT == nil {
		r.Fail("anchor", "?", "RuneSubscriber not found")
		return
	}
	intS := types.NewSlice(types.Typ[types.Int])
	round := 1
	delivered := func(st *State, who string, rd int) int {
		k := 0
		for _, e := range st.Events() {
			if e.Kind == "deliver" && e.Name == who && e.Args[0].Key() == fmt.Sprint(rd) {
				k++
			}
		}
		return k
	}
	base := "invoke:uax.RuneSubscriber."
	arrs := map[[2]int]*Obj{} // penalties handed out by event and subscriber
	ex.Hooks[base+"RuneEvent"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		id := a[0].Key()
		st.Emit(Event{Kind: "deliver", Name: id, Args: []Value{linConst(int64(round)), a[1], a[2]}, Instr: site})
		var idx int
		fmt.Sscanf(id, "sub%d", &idx)
		l := lens[idx%len(lens)]
		arr := arrs[[2]int{round, idx}]
		if arr == nil {
			arr = ex.NewArr(fmt.Sprintf("pen%d_%d", round, idx), types.Typ[types.Int], true)
			arrs[[2]int{round, idx}] = arr
		}
		return []Outcome{{St: st, Ret: []Value{&SliceV{O: arr, Off: linConst(0), Len: linConst(int64(l)), Cap: linConst(int64(l)), T: intS}}}}
	}
	doneVal := func(st *State, id string) Value {
		// finished status is decided by the most recent event
		for rd := round; rd >= 1; rd-- {
			if delivered(st, id, rd) > 0 {
				return &Sym{fmt.Sprintf("done%d_%s", rd, id), types.Typ[types.Bool]}
			}
		}
		return boolConst(false)
	}
	ex.Hooks[base+"Done"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		if _, isNil := a[0].(*Nil); isNil {
			st.Emit(Event{Kind: "nilderef", Instr: site})
			return []Outcome{{St: st, Panic: true, PanicI: site, PanicV: strConst("nil subscriber")}}
		}
		return []Outcome{{St: st, Ret: []Value{doneVal(st, a[0].Key())}}}
	}
	ex.Hooks[base+"MatchLength"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		k := 0
		for _, e := range st.Events() {
			if e.Kind == "deliver" && e.Name == a[0].Key() {
				k++
			}
		}
		nm := fmt.Sprintf("mlen%d_%s", k, a[0].Key())
		if n > 3 || round > 1 && n > 2 {
			// larger queues: fixed, pairwise different match lengths (all orders occur over the scenarios)
			return []Outcome{{St: st, Ret: []Value{mlenOf(st, a[0].Key(), lens, k)}}}
		}
		ex.nonneg[nm] = true
		return []Outcome{{St: st, Ret: []Value{linSym(nm)}}}
	}
	ex.Hooks[base+"Unsubscribed"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		st.Emit(Event{Kind: "unsub", Name: a[0].Key(), Args: []Value{linConst(int64(round))}, Instr: site})
		return []Outcome{{St: st}}
	}
	st := ex.NewState()
	outs, err := ex.Run(mk, nil, st)
	if err != nil || len(outs) != 1 {
		r.Undecided("NewRunePublisher", p.Pos(mk.Pos()), "%d paths, %v", len(outs), err)
		return
	}
	if !outs[0].Returns() {
		r.Fail("NewRunePublisher", p.Pos(mk.Pos()), "panics")
		return
	}
	pv := outs[0].Ret[0]
	if iv, ok := pv.(*IfaceV); ok {
		pv = iv.V
	}
	for i := 0; i < n; i++ {
		outs[0].St.assume(ex.equal(outs[0].St, subSym(i), &Nil{}, nil), false)
	}
	if n > 10 { // a pattern of finished subscribers instead of all of them
		for i := 0; i < n; i++ {
			for rd := 1; rd <= 2; rd++ {
				outs[0].St.assume(&Sym{fmt.Sprintf("done%d_%s", rd, subSym(i).Name), types.Typ[types.Bool]}, i/(3*rd)%3 != 1)
			}
		}
	}
	cur := []*State{outs[0].St}
	fail := func(key, f string, a ...interface{}) {
		r.Fail(key, pos, "%d subscribers, result lengths %v: %s", n, lens[:min(n, len(lens), 6)], fmt.Sprintf(f, a...))
	}
	for i := 0; i < n; i++ {
		var nx []*State
		for _, s := range cur {
			os, err := ex.Run(sub, []Value{pv, subSym(i)}, s)
			if err != nil {
				r.Undecided("subscribe", pos, "%v", err)
				return
			}
			for _, o := range os {
				if !o.Returns() {
					fail("subscribe:panic", "SubscribeMe panics")
					continue
				}
				nx = append(nx, o.St)
			}
		}
		cur = nx
	}
	type live struct {
		st  *State
		ids []int
	}
	var lv []live
	var all []int
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	for _, s := range cur {
		lv = append(lv, live{s, all})
	}
	rounds := 2
	for round = 1; round <= rounds; round++ {
		var next []live
		for _, l := range lv {
			s0 := l.st.Clone()
			os, err := ex.Run(pub, []Value{pv, linSym(fmt.Sprintf("rune%d", round)), linSym(fmt.Sprintf("class%d", round))}, s0)
			if err != nil {
				r.Undecided("publish", pos, "%v", err)
				return
			}
			r.N("publish paths", len(os))
			for _, o := range os {
				if !o.Returns() {
					// a panic path that needs contradictory Done() answers does not exist: every Done is a fixed symbol
					fail("publish:panic", "a path of PublishRuneEvent ends in a panic (event %d; %s)", round, o.St.FactString())
					continue
				}
				// who finished?
				var rest []int
				ok := true
				unknown := false
				for _, id := range l.ids {
					nm := subSym(id).Name
					dv := delivered(o.St, nm, round)
					if dv != 1 {
						fail("deliver-once", "subscriber %d receives the event %d times", id, dv)
						ok = false
					}
					kn, dn := o.St.query(&Sym{fmt.Sprintf("done%d_%s", round, nm), types.Typ[types.Bool]})
					un := 0
					for _, e := range o.St.Events() {
						if e.Kind == "unsub" && e.Name == nm {
							un++
						}
						if e.Kind == "deliver" && e.Name == nm && e.Args[0].Key() == fmt.Sprint(round) {
							if e.Args[1].Key() != linSym(fmt.Sprintf("rune%d", round)).Key() || e.Args[2].Key() != linSym(fmt.Sprintf("class%d", round)).Key() {
								fail("deliver-args", "subscriber %d receives a different rune or class", id)
								ok = false
							}
						}
					}
					if !kn {
						unknown = true
						continue
					}
					if dn && un != 1 {
						fail("unsubscribe-done", "finished subscriber %d is unsubscribed %d times (%s)", id, un, o.St.FactString())
						ok = false
					}
					if !dn && un != 0 {
						fail("keep-active", "unfinished subscriber %d is unsubscribed", id)
						ok = false
					}
					if !dn {
						rest = append(rest, id)
					}
				}
				if unknown {
					fail("done-unasked", "the finished status of a subscriber is not consulted on some path (%s)", o.St.FactString())
					continue
				}
				for _, e := range o.St.Events() {
					if e.Kind == "deliver" && e.Args[0].Key() == fmt.Sprint(round) {
						var k int
						fmt.Sscanf(e.Name, "sub%d", &k)
						found := false
						for _, id := range l.ids {
							if id == k {
								found = true
							}
						}
						if !found {
							fail("deliver-removed", "an already unsubscribed subscriber %d receives the event", k)
							ok = false
						}
					}
				}
				// penalties
				maxL := 0
				for _, id := range l.ids {
					if lens[id%len(lens)] > maxL {
						maxL = lens[id%len(lens)]
					}
				}
				ps, isS := o.Ret[1].(*SliceV)
				got := []string{}
				if isS {
					if k, c := ps.Len.Const(); c {
						for i := int64(0); i < k; i++ {
							got = append(got, o.St.Load(ps.O, appendPE(ps.Path, pe{Field: -1, Idx: linAdd(ps.Off, linConst(i), 1)})).Key())
						}
					} else {
						got = append(got, "length "+ps.Len.Key())
					}
				}
				var want []string
				for j := 0; j < maxL; j++ {
					s := linConst(0)
					for _, id := range l.ids {
						if j < lens[id%len(lens)] {
							s = linAdd(s, linSym(fmt.Sprintf("pen%d_%d[%d]", round, id, j)), 1)
						}
					}
					want = append(want, s.Key())
				}
				if strings.Join(got, ";") != strings.Join(want, ";") {
					fail("sum", "penalties are %v, want the per-index sums %v", got, want)
					ok = false
				}
				// the slices of the subscribers are left as they are
				for k, arr := range arrs {
					for j := 0; j < lens[k[1]%len(lens)]; j++ {
						want := fmt.Sprintf("pen%d_%d[%d]", k[0], k[1], j)
						if v := o.St.Load(arr, []pe{{Field: -1, Idx: linConst(int64(j))}}); v.Key() != linSym(want).Key() {
							fail("alias", "penalty %d in the slice handed out by subscriber %d for event %d is changed to %s", j, k[1], k[0], v.Key())
							ok = false
						}
					}
				}
				// longest: at least every unfinished match, and equal to one of them or 0
				lg, isL := o.Ret[0].(*Lin)
				if !isL {
					fail("longest", "longest match is %s", o.Ret[0].Key())
					ok = false
				} else {
					is := false
					if len(rest) == 0 {
						is = lg.Key() == "0"
					}
					for _, id := range rest {
						ml := linSym(fmt.Sprintf("mlen%d_%s", countDeliver(o.St, subSym(id).Name), subSym(id).Name))
						if n > 3 || round > 1 && n > 2 {
							ml = mlenOf(o.St, subSym(id).Name, lens, countDeliver(o.St, subSym(id).Name))
						}
						if k, v := o.St.query(le0(linAdd(ml, lg, -1))); !k || !v {
							fail("longest", "longest match %s may be shorter than the active match of subscriber %d (%s)", lg.Key(), id, o.St.FactString())
							ok = false
						}
						if ml.Key() == lg.Key() {
							is = true
						}
						if lg.Key() == "0" {
							is = true // covered by the ≥ test
						}
					}
					if !is {
						fail("longest", "longest match is %s, which is not the length of any unfinished match", lg.Key())
						ok = false
					}
				}
				r.Oblig++
				if ok {
					r.Disch++
				}
				if len(rest) > 0 || round < rounds {
					next = append(next, live{o.St, rest})
				}
			}
		}
		lv = next
		if lim := map[bool]int{true: 200, false: 40}[r.Tier == "thorough"]; len(lv) > lim {
			// spread over the paths
			var sel []live
			for i := 0; i < lim; i++ {
				sel = append(sel, lv[i*len(lv)/lim])
			}
			lv = sel
		}
	}
	r.Engine(ex)
	r.N("queue sizes", 1)
}

// mlenOf is a fixed match length: it depends on the subscriber, the scenario and the event number.
func mlenOf(st *State, id string, lens []int, k int) *Lin {
	var idx int
	fmt.Sscanf(id, "sub%d", &idx)
	return linConst(int64((idx*(2*lens[0]+3)+5*k)%11 + 1))
}

func countDeliver(st *State, id string) int {
	k := 0
	for _, e := range st.Events() {
		if e.Kind == "deliver" && e.Name == id {
			k++
		}
	}
	return k
}

// P02: recognizers taken from the pool are indistinguishable from new ones.
func runPool(p *Prog, r *Report) {
	rel := p.Func("", "Recognizer.Unsubscribed")
	mk := p.Func("", "NewPooledRecognizer")
	ev := p.Func("", "Recognizer.RuneEvent")
	if rel == nil || mk == nil || ev == nil {
		r.Fail("anchor", "?", "Unsubscribed / NewPooledRecognizer / RuneEvent not found")
		return
	}
	recT := ev.Signature.Recv().Type().(*types.Pointer).Elem()
	su := recT.Underlying().(*types.Struct)
	ex := NewEngine(p.SSA)
	// 1. release
	st := ex.NewState()
	o := ex.NewObj("used", recT, true) // arbitrary content
	ret := "(*github.com/jolestar/go-commons-pool.ObjectPool).ReturnObject"
	var atReturn []*State
	ex.Hooks[ret] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		st.Emit(Event{Kind: "return", Args: a, Instr: site})
		atReturn = append(atReturn, st.Clone())
		return []Outcome{{St: st, Ret: []Value{&Nil{}}}}
	}
	outs, err := ex.Run(rel, []Value{&Ptr{O: o}}, st)
	if err != nil {
		r.Undecided("release", p.Pos(rel.Pos()), "%v", err)
		return
	}
	if len(atReturn) == 0 {
		r.N("releases that keep the object out of the pool", 1)
	}
	for _, oc := range outs {
		if !oc.Returns() {
			r.Fail("release:panic", p.Pos(rel.Pos()), "releasing a recognizer may panic")
			continue
		}
		n, writesAfter := 0, ""
		for _, e := range oc.St.Events() {
			if e.Kind == "return" {
				n++
				v := e.Args[len(e.Args)-1]
				if iv, ok := v.(*IfaceV); ok {
					v = iv.V
				}
				if pt, ok := v.(*Ptr); !ok || pt.O != o {
					r.Fail("release:other-object", p.Pos(rel.Pos()), "a different object is returned to the pool")
				}
			}
			if e.Kind == "store" && e.P != nil && e.P.O == o && n > 0 {
				writesAfter = fieldPathName(o, e.P.Path)
			}
		}
		r.Check(n <= 1, "release:twice", p.Pos(rel.Pos()), "a recognizer is put into the pool %d times", n)
		r.Check(writesAfter == "", "release:write-after", p.Pos(rel.Pos()), "field %s is written after the recognizer has been put into the pool", writesAfter)
	}
	// 2. borrow: an object with the content left by the release
	stales := atReturn
	if len(stales) == 0 {
		stales = []*State{ex.NewState()}
	}
	for _, s := range stales {
		var vals []Value
		for i := 0; i < su.NumFields(); i++ {
			if len(atReturn) == 0 {
				vals = append(vals, ex.Zero(su.Field(i).Type()))
			} else {
				vals = append(vals, s.Load(o, []pe{{Field: i}}))
			}
		}
		for variant := 0; variant < 2; variant++ {
			ex2 := NewEngine(p.SSA)
			s2 := ex2.NewState()
			no := ex2.NewObj("pooled", recT, false)
			for i := range vals {
				if variant == 0 {
					s2.Set(no, []pe{{Field: i}}, vals[i])
				}
			}
			ex2.Hooks["(*github.com/jolestar/go-commons-pool.ObjectPool).BorrowObject"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
				st.Emit(Event{Kind: "borrow", Instr: site})
				return []Outcome{{St: st, Ret: []Value{&IfaceV{Dyn: types.NewPointer(recT), V: &Ptr{O: no}}, &Nil{}}}}
			}
			fnSym := &Sym{"statefn", nil}
			outs, err := ex2.Run(mk, []Value{linSym("class"), fnSym}, s2)
			if err != nil {
				r.Undecided("borrow", p.Pos(mk.Pos()), "%v", err)
				return
			}
			for _, oc := range outs {
				if !oc.Returns() {
					r.Fail("borrow:panic", p.Pos(mk.Pos()), "taking a recognizer from the pool may panic")
					continue
				}
				pt, ok := oc.Ret[0].(*Ptr)
				if !ok {
					r.Fail("borrow:result", p.Pos(mk.Pos()), "result is %s", oc.Ret[0].Key())
					continue
				}
				for i := 0; i < su.NumFields(); i++ {
					f := su.Field(i)
					v := oc.St.Load(pt.O, appendPE(pt.Path, pe{Field: i}))
					want := ex2.Zero(f.Type())
					switch f.Name() {
					case "Expect":
						want = linSym("class")
					case "nextStep":
						want = fnSym
					}
					r.Check(v.Key() == want.Key(), "fresh:"+f.Name(), p.Pos(mk.Pos()),
						"field %s of a recognizer taken from the pool is %s, want %s (left over from its previous use)", f.Name(), v.Key(), want.Key())
				}
			}
			r.Engine(ex2)
		}
	}
	// 3. no constructor hands out an object twice / shares it: NewRecognizer
	if nr := p.Func("", "NewRecognizer"); nr != nil {
		ex3 := NewEngine(p.SSA)
		outs, err := ex3.Run(nr, []Value{linSym("class"), &Sym{"statefn", nil}}, ex3.NewState())
		if err != nil {
			r.Undecided("new", p.Pos(nr.Pos()), "%v", err)
		}
		for _, oc := range outs {
			pt, ok := oc.Ret[0].(*Ptr)
			if !r.Check(ok && !pt.O.Sym, "new:fresh-object", p.Pos(nr.Pos()), "NewRecognizer does not return a new object") {
				continue
			}
			for i := 0; i < su.NumFields(); i++ {
				f := su.Field(i)
				v := oc.St.Load(pt.O, appendPE(pt.Path, pe{Field: i}))
				want := ex3.Zero(f.Type())
				switch f.Name() {
				case "Expect":
					want = linSym("class")
				case "nextStep":
					want = &Sym{"statefn", nil}
				}
				r.Check(v.Key() == want.Key(), "new:"+f.Name(), p.Pos(nr.Pos()), "field %s of a new recognizer is %s", f.Name(), v.Key())
			}
		}
		r.Engine(ex3)
	}
	// 4. event protocol of a recognizer
	runRecognizerProtocol(p, r, ev, recT)
	r.Engine(ex)
}

// runRecognizerProtocol: RuneEvent calls the current state function exactly
// once with the rune and class, installs its result, and reports penalties
// exactly when the recognizer is finished with a match.
func runRecognizerProtocol(p *Prog, r *Report, ev *ssa.Function, recT types.Type) {
	mlf := fieldIdx(recT, "MatchLen") // exported
	acc, abo, mk := p.Func("", "DoAccept"), p.Func("", "DoAbort"), p.Func("", "NewRecognizer")
	done, mlen := p.Func("", "Recognizer.Done"), p.Func("", "Recognizer.MatchLength")
	if mlf < 0 || acc == nil || abo == nil || mk == nil || done == nil || mlen == nil {
		r.Fail("anchor", p.Pos(ev.Pos()), "the API of recognizers (MatchLen, DoAccept, DoAbort, NewRecognizer, Done, MatchLength) is incomplete")
		return
	}
	for _, mode := range []string{"continue", "accept", "abort", "withdraw", "finished"} {
		ex := NewEngine(p.SSA)
		st := ex.NewState()
		fn0 := &Sym{"fn0", nil}
		var arg Value = fn0
		if mode == "finished" {
			arg = &Nil{}
		} else {
			st.assume(ex.equal(st, fn0, &Nil{}, nil), false)
		}
		mo, err := ex.Run(mk, []Value{linSym("class"), arg}, st)
		if err != nil || len(mo) != 1 || !mo[0].Returns() {
			r.Undecided("recognizer:constructor", p.Pos(mk.Pos()), "%v", err)
			return
		}
		st = mo[0].St
		rec, ok := mo[0].Ret[0].(*Ptr)
		if !ok {
			r.Undecided("recognizer:constructor", p.Pos(mk.Pos()), "result %s", mo[0].Ret[0].Key())
			return
		}
		st.Set(rec.O, appendPE(rec.Path, pe{Field: mlf}), linSym("m"))
		st.assume(le0(linScale(linSym("m"), -1)), true)
		pens := ex.NewArr("given", types.Typ[types.Int], true)
		given := &SliceV{O: pens, Off: linConst(0), Len: linConst(3), Cap: linConst(3), T: types.NewSlice(types.Typ[types.Int])}
		fn1 := &Sym{"fn1", nil}
		st.assume(ex.equal(st, fn1, &Nil{}, nil), false)
		ex.Hooks["dyn"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			st.Emit(Event{Kind: "statefn", Name: a[0].Key(), Args: a[1:], Instr: site})
			var res []Outcome
			switch mode {
			case "second":
				res = []Outcome{{St: st, Ret: []Value{&Nil{}}}}
			case "continue":
				res = []Outcome{{St: st, Ret: []Value{fn1}}}
			case "accept":
				res = ex.call(nil, nil, acc, nil, []Value{a[1], given}, st)
			case "abort":
				res = ex.call(nil, nil, abo, nil, []Value{a[1]}, st)
			case "withdraw": // accepts, and then decides to abort
				for _, o := range ex.call(nil, nil, acc, nil, []Value{a[1], given}, st) {
					if o.Returns() {
						res = append(res, ex.call(nil, nil, abo, nil, []Value{a[1]}, o.St)...)
					}
				}
			}
			return res
		}
		outs, err := ex.Run(ev, []Value{rec, linSym("r"), linSym("c")}, st)
		if err != nil {
			r.Undecided("recognizer", p.Pos(ev.Pos()), "%v", err)
			return
		}
		for _, oc := range outs {
			key := "recognizer:" + mode
			if !oc.Returns() {
				r.Fail(key, p.Pos(ev.Pos()), "RuneEvent may panic")
				continue
			}
			calls := 0
			good := true
			for _, e := range oc.St.Events() {
				if e.Kind == "statefn" {
					calls++
					if len(e.Args) != 3 || e.Args[1].Key() != "(r)" || e.Args[2].Key() != "(c)" || e.Args[0].Key() != rec.Key() || e.Name != "fn0" {
						good = false
					}
				}
			}
			want := 1
			if mode == "finished" {
				want = 0
			}
			r.Check(calls == want && good, key+":call", p.Pos(ev.Pos()), "state function is called %d times (want %d) or with other arguments", calls, want)
			s, isS := oc.Ret[0].(*SliceV)
			_, pn := oc.Ret[0].(*Nil)
			if mode == "accept" {
				ok := isS && s.O == pens && s.Len.Key() == "3"
				if isS && !ok {
					ok = s.Len.Key() == "3"
					for i := int64(0); i < 3 && ok; i++ {
						v := oc.St.Load(s.O, appendPE(s.Path, pe{Field: -1, Idx: linAdd(s.Off, linConst(i), 1)}))
						ok = v.Key() == linSym(fmt.Sprintf("given[%d]", i)).Key()
					}
				}
				r.Check(ok, key+":penalties", p.Pos(ev.Pos()), "an accepting recognizer reports penalties %s", oc.Ret[0].Key())
			} else {
				r.Check(pn || isS && s.Len.Key() == "0", key+":penalties", p.Pos(ev.Pos()), "a recognizer which did not just accept reports penalties %s", oc.Ret[0].Key())
			}
			ask := func(f *ssa.Function) string {
				os, err := ex.Run(f, []Value{rec}, oc.St.Clone())
				if err != nil || len(os) != 1 || !os[0].Returns() {
					return "?"
				}
				if known, v := os[0].St.query(os[0].Ret[0]); known {
					return boolConst(v).Key()
				}
				return os[0].Ret[0].Key()
			}
			dn := ask(done)
			r.Check(dn == "?" || dn == boolConst(mode != "continue").Key(), key+":done", p.Pos(done.Pos()), "Done() is %s", dn)
			wantM := map[string]string{"continue": "(m)", "accept": "(m+1)", "abort": "0", "withdraw": "0", "finished": "(m)"}[mode]
			ml := ask(mlen)
			r.Check(ml == "?" || ml == wantM, key+":matchlen", p.Pos(mlen.Pos()), "match length becomes %s, want %s", ml, wantM)
			if mode == "continue" && dn == boolConst(false).Key() {
				// the next event calls the function returned
				mode2 := mode
				mode = "second"
				os, err := ex.Run(ev, []Value{rec, linSym("r2"), linSym("c2")}, oc.St.Clone())
				mode = mode2
				for _, o := range os {
					n := 0
					for _, e := range o.St.Events() {
						if e.Kind == "statefn" && e.Name == "fn1" && len(e.Args) == 3 && e.Args[1].Key() == "(r2)" && e.Args[2].Key() == "(c2)" {
							n++
						}
					}
					r.Check(err != nil || n == 1, key+":next", p.Pos(ev.Pos()), "the step returned for one rune is called %d times for the next one", n)
				}
			}
		}
		r.Engine(ex)
	}
}
