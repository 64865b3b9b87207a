package main

// The operations on resolved levels: Reorder, Split, DirectionAt and iterating
// over the segments of a run. They are interpreted for resolved levels of every
// shape up to a size, the lengths of the runs being unknown.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// shapes of resolved levels
type oPart struct { // a piece of text or an isolate within a run
	kid *oLev
}
type oRun struct {
	cls   int
	parts []oPart
}
type oLev struct {
	dir  int // bL or bR
	zero bool
	fsi  bool
	runs []oRun
}

func (l *oLev) String() string {
	var b strings.Builder
	if l.fsi {
		b.WriteString("FSI")
	} else {
		b.WriteString(bName[map[int]int{bL: bLRI, bR: bRLI}[l.dir]])
	}
	if l.zero {
		b.WriteString("'")
	}
	for _, r := range l.runs {
		b.WriteString(" " + bName[r.cls] + "[")
		for _, p := range r.parts {
			if p.kid == nil {
				b.WriteString("text")
			} else {
				b.WriteString("(" + p.kid.String() + ")")
			}
		}
		b.WriteString("]")
	}
	b.WriteString(" PDI")
	return b.String()
}

type oGen struct {
	cls   []int
	maxD  int
	marks bool
	fsi   bool // instead of LRI
	memoP map[[2]int][][]oPart
	memoR map[[2]int][][]oRun
	last  []int
}

// parts enumerates the contents of a run of weight w.
func (g *oGen) parts(w, d int) [][]oPart {
	k := [2]int{w, d}
	if r, ok := g.memoP[k]; ok {
		return r
	}
	var res [][]oPart
	if w == 0 {
		res = [][]oPart{nil}
	} else {
		for _, t := range g.parts(w-1, d) {
			if len(t) == 0 || t[0].kid != nil { // pieces of text are not adjacent
				res = append(res, append([]oPart{{}}, t...))
			}
		}
		if d > 0 {
			for in := 0; in < w; in++ {
				for _, rs := range g.runs(in, d-1) {
					for _, dir := range []int{bL, bR} {
						for _, zero := range []bool{false, true} {
							if zero && (in == 0 || !g.marks) {
								continue
							}
							kid := &oLev{dir: dir, runs: rs, zero: zero}
							if dir == bL && g.fsi {
								kid.fsi = true
							}
							for _, t := range g.parts(w-1-in, d) {
								res = append(res, append([]oPart{{kid}}, t...))
							}
						}
					}
				}
			}
		}
	}
	g.memoP[k] = res
	return res
}

// runs enumerates the levels of weight w.
func (g *oGen) runs(w, d int) [][]oRun {
	k := [2]int{w, d}
	if r, ok := g.memoR[k]; ok {
		return r
	}
	var res [][]oRun
	if w == 0 {
		res = [][]oRun{nil}
	} else {
		for n := 1; n <= w; n++ {
			for _, ps := range g.parts(n, d) {
				iso := false
				for _, p := range ps {
					iso = iso || p.kid != nil
				}
				for _, c := range g.cls {
					if iso && c != bL && c != bR {
						continue
					}
					for _, t := range g.runs(w-n, d) {
						if len(t) > 0 && t[0].cls == c {
							continue
						}
						res = append(res, append([]oRun{{c, ps}}, t...))
					}
				}
			}
		}
	}
	g.memoR[k] = res
	return res
}

// an atom is a piece of text or an isolate delimiter
type oAtom struct {
	text bool
	dir  int
	l, r *Lin
}

type bidiOrder struct {
	*bidiModel
	p                        *Prog
	r                        *Report
	ex                       *Engine
	fReorder, fDirAt, fSplit *ssa.Function
	fSeg, fNext, fSegm       *ssa.Function
	fEOF, fOpp               *ssa.Function
	lvT                      types.Type
	embF                     int
	ltr, rtl, fsi            int64
	mu                       *sync.Mutex
	bad                      map[string]bool
	counts                   map[string]int
	kinds                    map[string]bool
	shape                    *oLev
	atoms                    []oAtom
	end                      *Lin
	nsym                     int
	cutSyms                  int // the atom whose length consists of two symbols
	cutAt                    *Lin
	deep                     bool
	loops                    map[*ssa.Function]*loopInfo
}

func (o *bidiOrder) sym(lo, hi int64) *Lin {
	o.nsym++
	n := fmt.Sprintf("d%d", o.nsym)
	o.ex.bnd[n] = [2]int64{lo, hi}
	o.ex.nonneg[n] = true
	return linSym(n)
}

// build makes the runs of a level, starting at position pos.
func (o *bidiOrder) build(st *State, lv *oLev, pos *Lin, outer bool) (*SliceV, *Lin) {
	ex := o.ex
	var sc []Value
	mk := func(cls int64, l, r *Lin, kids Value) {
		v := o.mk(ex, cls, 0, 0, lv.dir, lv.dir)
		v.F[o.fL], v.F[o.fR] = l, r
		if kids != nil {
			v.F[o.fKids] = kids
		}
		sc = append(sc, v)
	}
	delim := func(cls int64) {
		if outer || lv.zero {
			mk(cls, pos, pos, nil)
			return
		}
		e := linAdd(pos, linConst(3), 1)
		o.atoms = append(o.atoms, oAtom{l: pos, r: e})
		mk(cls, pos, e, nil)
		pos = e
	}
	if lv.fsi {
		delim(o.fsi)
	} else {
		delim(o.val[map[int]int{bL: bLRI, bR: bRLI}[lv.dir]])
	}
	for _, r := range lv.runs {
		beg := pos
		var kids []Value
		for _, p := range r.parts {
			if p.kid == nil {
				n := o.sym(1, 1<<20)
				if len(o.atoms) == o.cutSyms { // the text will be cut at any of its positions
					a := o.sym(0, 1<<20)
					o.cutAt = linAdd(pos, a, 1)
					n = linAdd(n, a, 1)
				}
				e := linAdd(pos, n, 1)
				dir := bL
				if r.cls == bR {
					dir = bR
				}
				o.atoms = append(o.atoms, oAtom{text: true, dir: dir, l: pos, r: e})
				pos = e
				continue
			}
			var s *SliceV
			s, pos = o.build(st, p.kid, pos, false)
			kids = append(kids, s)
		}
		var kv Value
		if kids != nil {
			kv = o.slice(st, "children", types.NewSlice(o.scrap), kids)
		}
		mk(o.val[r.cls], beg, pos, kv)
	}
	delim(o.val[bPDI])
	return o.slice(st, "runs", o.scrap, sc), pos
}

func (o *bidiOrder) slice(st *State, name string, el types.Type, vs []Value) *SliceV {
	a := o.ex.NewArr(name, el, false)
	for i, v := range vs {
		st.Set(a, []pe{{Field: -1, Idx: linConst(int64(i))}}, v)
	}
	n := linConst(int64(len(vs)))
	return &SliceV{O: a, Off: linConst(0), Len: n, Cap: n, T: types.NewSlice(el)}
}

// content serialises everything reachable from v.
func (o *bidiOrder) content(st *State, v Value, b *strings.Builder, d int) {
	if d > 40 {
		panic(tooComplex{"levels are nested too deeply"})
	}
	switch x := v.(type) {
	case *Ptr:
		b.WriteString("&")
		o.content(st, st.Load(x.O, x.Path), b, d+1)
	case *StructV:
		b.WriteString("{")
		for _, f := range x.F {
			o.content(st, f, b, d+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case *SliceV:
		b.WriteString("[")
		n, ok := x.Len.Const()
		if !ok {
			panic(tooComplex{"a slice of unknown length"})
		}
		off, _ := x.Off.Const()
		for i := int64(0); i < n; i++ {
			o.content(st, st.Load(x.O, appendPE(x.Path, pe{Field: -1, Idx: linConst(off + i)})), b, d+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	default:
		if v == nil {
			b.WriteString("?")
			return
		}
		b.WriteString(v.Key())
	}
}
func (o *bidiOrder) deepKey(st *State, v Value) string {
	var b strings.Builder
	o.content(st, v, &b, 0)
	return b.String()
}

func (o *bidiOrder) fail(st *State, kind string, fn *ssa.Function, f string, a ...interface{}) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.kinds[kind] {
		return
	}
	k := kind + fn.Name()
	if o.bad[k] {
		return
	}
	o.bad[k] = true
	o.r.Oblig++
	msg := fn.Name() + ": " + fmt.Sprintf(f, a...)
	path := []string{"resolved levels: " + o.shape.String()}
	if o.cutAt != nil {
		path = append(path, "cut at "+o.cutAt.Key())
	}
	var as []string
	for _, t := range o.atoms {
		as = append(as, t.l.Key()+"-"+t.r.Key())
	}
	path = append(path, "pieces at "+strings.Join(as, " "))
	if st != nil && len(st.le)+len(st.eq) > 0 {
		var fs []string
		for _, l := range st.le {
			fs = append(fs, l.Key()+"≤0")
		}
		for _, l := range st.eq {
			fs = append(fs, l.Key()+"=0")
		}
		path = append(path, "with "+strings.Join(fs, ", "))
	}
	o.r.Findings = append(o.r.Findings, Finding{Key: kind + ":" + fn.Name(), Pos: o.p.Pos(fn.Pos()), Msg: msg, Path: path})
}

// call interprets fn; only returning paths are handed on.
func (o *bidiOrder) call(st *State, fn *ssa.Function, args ...Value) []Outcome {
	o.ex.steps0, o.ex.outs0 = o.ex.steps, o.ex.outs
	var r []Outcome
	for _, x := range o.ex.call(nil, nil, fn, nil, args, st.Clone()) {
		switch {
		case x.Panic:
			msg := "?"
			if s, ok := asStr(x.PanicV); ok {
				msg = s
			} else if x.PanicV != nil {
				msg = x.PanicV.Key()
			}
			o.fail(x.St, "panic", fn, "panics: %s", msg)
		case x.Loop:
			panic(tooComplex{"a loop of " + fn.Name() + " is not decided by the shape of the levels"})
		default:
			r = append(r, x)
		}
	}
	o.counts["calls of "+fn.Name()]++
	return r
}

func (o *bidiOrder) field(st *State, v Value, name string) Value {
	t := v
	if p, ok := v.(*Ptr); ok {
		t = st.Load(p.O, p.Path)
	}
	sv, ok := t.(*StructV)
	if !ok {
		panic(tooComplex{"no structure with a field " + name})
	}
	u := sv.T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return sv.F[i]
		}
	}
	panic(tooComplex{"field " + name + " is missing"})
}

func same(st *State, a, b *Lin) bool {
	k, v := st.query(eq0(linAdd(a, b, -1)))
	return k && v
}
func lessEq(st *State, a, b *Lin) bool { // certain
	k, v := st.query(le0(linAdd(a, b, -1)))
	return k && v
}

type oSeg struct {
	dir  int64
	l, r *Lin
	eof  bool // of the iterator, when the segment has been delivered
}

// isBool: the function returned v.
func (o *bidiOrder) isBool(x Outcome, v bool) bool {
	b, ok := asBool(x.Ret[0])
	if !ok {
		var known bool
		if known, b = x.St.query(x.Ret[0]); !known {
			panic(tooComplex{"a boolean result is not decided"})
		}
	}
	return b == v
}

// segments iterates over the segments of a run.
func (o *bidiOrder) segments(st *State, run *Ptr, rev bool, then func(st *State, segs []oSeg)) {
	for _, x := range o.call(st, o.fSeg, run, boolConst(rev)) {
		var step func(st *State, it Value, segs []oSeg)
		step = func(st *State, it Value, segs []oSeg) {
			if len(segs) > 40 {
				o.fail(st, "order", o.fNext, "there is no end to the segments")
				return
			}
			for _, y := range o.call(st, o.fNext, it) {
				ok, known := asBool(y.Ret[0])
				if !ok && !known {
					known, ok = y.St.query(y.Ret[0])
				}
				b, isB := asBool(y.Ret[0])
				if !isB {
					panic(tooComplex{"SegmentIterator.Next is not decided"})
				}
				if !b {
					for i, sg := range segs {
						if sg.eof != (i == len(segs)-1) {
							o.fail(y.St, "order", o.fEOF, "EOF returns %v after segment %d of %d", sg.eof, i+1, len(segs))
							return
						}
					}
					if len(segs) > 0 {
						for _, z := range o.call(y.St, o.fNext, it) {
							if !o.isBool(z, false) {
								o.fail(z.St, "order", o.fNext, "returns true after it has returned false")
								return
							}
						}
					}
					then(y.St, segs)
					continue
				}
				for _, z := range o.call(y.St, o.fSegm, it) {
					d, okd := asInt(z.Ret[0])
					l, ok1 := z.Ret[1].(*Lin)
					r, ok2 := z.Ret[2].(*Lin)
					if !okd || !ok1 || !ok2 {
						panic(tooComplex{"SegmentIterator.Segment is not understood"})
					}
					for _, e := range o.call(z.St, o.fEOF, it) {
						step(e.St, it, append(segs[:len(segs):len(segs)], oSeg{d, l, r, o.isBool(e, true)}))
					}
				}
			}
		}
		step(x.St, x.Ret[0], nil)
	}
}

// judgeOrder: the runs of the ordering of rl hold the text of [from, to), shifted by -off.
func (o *bidiOrder) judgeOrder(st *State, rl Value, from, to, off *Lin, what string) {
	before := o.deepKey(st, rl)
	for _, x := range o.call(st, o.fReorder, rl) {
		if k := o.deepKey(x.St, rl); k != before {
			o.fail(x.St, "pure", o.fReorder, "changes the levels%s it is called for: %s", what, diffKeys(before, k))
			continue
		}
		rs := o.field(x.St, x.Ret[0], "Runs")
		var runs []*Ptr
		var rt types.Type
		switch s := rs.(type) {
		case *Nil:
		case *SliceV:
			n, ok := s.Len.Const()
			k, ok2 := s.Off.Const()
			if !ok || !ok2 {
				panic(tooComplex{"the number of runs is not decided"})
			}
			rt = s.T
			for i := int64(0); i < n; i++ {
				runs = append(runs, &Ptr{O: s.O, Path: appendPE(s.Path, pe{Field: -1, Idx: linConst(k + i)})})
			}
		default:
			panic(tooComplex{"the runs of the ordering are not understood"})
		}
		_ = rt
		var next func(st *State, i int, all []oSeg)
		next = func(st *State, i int, all []oSeg) {
			if i == len(runs) {
				o.judgeSegs(st, all, from, to, off, what)
				return
			}
			rb := o.deepKey(st, runs[i])
			o.segments(st, runs[i], false, func(st *State, segs []oSeg) {
				sum := linConst(0)
				for _, s := range segs {
					sum = linAdd(sum, linAdd(s.r, s.l, -1), 1)
				}
				ln, ok := o.field(st, runs[i], "Length").(*Lin)
				if ok && !same(st, ln, sum) {
					o.fail(st, "order", o.fReorder, "a run%s has Length %s, its segments make %s", what, ln.Key(), sum.Key())
					return
				}
				dir, _ := asInt(o.field(st, runs[i], "Dir"))
				for _, d := range []int64{o.ltr, o.rtl} {
					for _, z := range o.call(st, o.fOpp, runs[i], linConst(d)) {
						if !o.isBool(z, d != dir) {
							o.fail(st, "order", o.fOpp, "of a run of direction %s, called with %s, is wrong", o.dirName(dir), o.dirName(d))
							return
						}
					}
				}
				for _, s := range segs {
					if s.dir != dir {
						o.fail(st, "order", o.fSegm, "a segment has another direction than its run")
						return
					}
				}
				if len(segs) > 0 {
					o.segments(st, runs[i], true, func(st *State, back []oSeg) {
						if o.deepKey(st, runs[i]) != rb {
							o.fail(st, "pure", o.fSeg, "changes the run it iterates over")
							return
						}
						good := len(back) == len(segs)
						for j := range back {
							q := segs[len(segs)-1-j]
							good = good && same(st, back[j].l, q.l) && same(st, back[j].r, q.r) && back[j].dir == q.dir
						}
						if !good {
							o.fail(st, "order", o.fSeg, "the reverse iterator does not deliver the segments of the run in reverse order")
						}
					})
				}
				next(st, i+1, append(all[:len(all):len(all)], segs...))
			})
		}
		next(x.St, 0, nil)
	}
}

func diffKeys(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		e := i + 40
		if e > len(s) {
			e = len(s)
		}
		b := i - 20
		if b < 0 {
			b = 0
		}
		return s[b:e]
	}
	return fmt.Sprintf("…%s… became …%s…", cut(a), cut(b))
}

func (o *bidiOrder) judgeSegs(st *State, segs []oSeg, from, to, off *Lin, what string) {
	o.counts["orderings judged"]++
	// every position once
	pos := linAdd(from, off, -1)
	left := append([]oSeg(nil), segs...)
	for {
		hit := -1
		for i, s := range left {
			if same(st, s.l, pos) && !same(st, s.l, s.r) {
				hit = i
				break
			}
		}
		if hit < 0 {
			break
		}
		pos = left[hit].r
		left = append(left[:hit:hit], left[hit+1:]...)
	}
	show := func() string {
		var s []string
		for _, x := range segs {
			s = append(s, fmt.Sprintf("%s-%s", x.l.Key(), x.r.Key()))
		}
		return strings.Join(s, " ")
	}
	for _, s := range left {
		if !same(st, s.l, s.r) {
			o.fail(st, "order", o.fReorder, "the segments%s do not hold every position from %s to %s exactly once: %s", what, linAdd(from, off, -1).Key(), linAdd(to, off, -1).Key(), show())
			return
		}
	}
	if !same(st, pos, linAdd(to, off, -1)) {
		o.fail(st, "order", o.fReorder, "the segments%s do not hold every position from %s to %s exactly once: %s", what, linAdd(from, off, -1).Key(), linAdd(to, off, -1).Key(), show())
		return
	}
	for _, a := range o.atoms {
		if !a.text || lessEq(st, a.r, from) || lessEq(st, to, a.l) {
			continue
		}
		l, r := linAdd(a.l, off, -1), linAdd(a.r, off, -1)
		for _, s := range segs {
			if lessEq(st, r, s.l) || lessEq(st, s.r, l) {
				continue
			}
			if s.dir != o.dirVal(a.dir) {
				o.fail(st, "dir", o.fReorder, "text at %s, which is %s, is in a segment%s of direction %s", l.Key(), bName[a.dir], what, o.dirName(s.dir))
				return
			}
		}
	}
}

func (o *bidiOrder) dirVal(d int) int64 {
	if d == bR {
		return o.rtl
	}
	return o.ltr
}
func (o *bidiOrder) dirName(d int64) string {
	switch d {
	case o.ltr:
		return "LeftToRight"
	case o.rtl:
		return "RightToLeft"
	}
	return fmt.Sprint(d)
}

// judgeDirAt asks for the direction at a position of every text in [from, to).
func (o *bidiOrder) judgeDirAt(st *State, rl Value, from, to, off *Lin, what string) {
	before := o.deepKey(st, rl)
	ask := func(pos *Lin, a oAtom) {
		for _, x := range o.call(st, o.fDirAt, rl, linAdd(pos, off, -1)) {
			if k := o.deepKey(x.St, rl); k != before {
				o.fail(x.St, "pure", o.fDirAt, "changes the levels")
				return
			}
			d, ok := asInt(x.Ret[0])
			if !ok {
				panic(tooComplex{"DirectionAt is not decided"})
			}
			if d != o.dirVal(a.dir) {
				o.fail(x.St, "dir", o.fDirAt, "is %s at %s%s, where text is %s", o.dirName(d), linAdd(pos, off, -1).Key(), what, bName[a.dir])
				return
			}
		}
	}
	for _, a := range o.atoms {
		if !a.text {
			continue
		}
		if lessEq(st, from, a.l) && lessEq(st, a.r, to) {
			ask(a.l, a)
			ask(linAdd(a.r, linConst(1), -1), a)
		} else if lessEq(st, from, a.l) && lessEq(st, linAdd(a.l, linConst(1), 1), to) {
			ask(a.l, a)
		} else if lessEq(st, a.l, from) && lessEq(st, linAdd(from, linConst(1), 1), to) && lessEq(st, linAdd(from, linConst(1), 1), a.r) {
			ask(from, a)
		}
	}
	// positions outside of the text are tolerated
	o.call(st, o.fDirAt, rl, linAdd(linAdd(to, off, -1), linConst(5), 1))
}

func (o *bidiOrder) split(st *State, rl Value, at, off *Lin, shift bool, then func(st *State, l, r Value)) {
	before := o.deepKey(st, rl)
	for _, x := range o.call(st, o.fSplit, rl, linAdd(at, off, -1), boolConst(shift)) {
		if k := o.deepKey(x.St, rl); k != before {
			o.fail(x.St, "pure", o.fSplit, "changes the levels: %s", diffKeys(before, k))
			continue
		}
		then(x.St, x.Ret[0], x.Ret[1])
		if o.kinds["pure"] {
			continue
		}
	}
}

// one judges a shape; cut is the number of the atom that will be cut, or -1.
func (o *bidiOrder) one(lv *oLev, cut int) {
	ex := NewEngine(o.p.SSA)
	ex.bnd = map[string][2]int64{}
	ex.maxRec = 16
	if o.loops == nil {
		o.loops = ex.loops
	}
	ex.loops = o.loops
	o.ex, o.shape, o.nsym, o.atoms, o.cutSyms, o.cutAt = ex, lv, 0, nil, -1, nil
	if cut >= 0 {
		o.cutSyms = cut
	}
	st := ex.NewState()
	zero := linConst(0)
	runs, end := o.build(st, lv, zero, true)
	o.end = end
	obj := ex.NewObj("levels", o.lvT, false)
	st.Set(obj, []pe{{Field: o.resField}}, runs)
	if o.embF >= 0 {
		st.Set(obj, []pe{{Field: o.embF}}, linConst(o.dirVal(lv.dir)))
	}
	rl := Value(&Ptr{O: obj})
	o.counts["resolved levels"]++
	if cut < 0 {
		o.judgeOrder(st, rl, zero, end, zero, "")
		o.judgeDirAt(st, rl, zero, end, zero, "")
	} else {
		at := o.cutAt
		switch {
		case cut == len(o.atoms):
			at = end
		case at == nil:
			at = o.atoms[cut].l
		}
		o.cutAt = at
		before := o.deepKey(st, rl)
		for _, shift := range []bool{false, true} {
			shift := shift
			off := zero
			if shift {
				off = at
			}
			o.split(st, rl, at, zero, shift, func(st *State, l, r Value) {
				lk, rk := o.deepKey(st, l), o.deepKey(st, r)
				if !shift {
					o.judgeOrder(st, l, zero, at, zero, " of the left piece of Split")
					o.judgeDirAt(st, l, zero, at, zero, " of the left piece of Split")
				}
				o.judgeOrder(st, r, at, end, off, " of the right piece of Split")
				o.judgeDirAt(st, r, at, end, off, " of the right piece of Split")
				if !o.deep {
					return
				}
				for i := cut + 1; i < len(o.atoms); i++ { // another cut further right
					b := o.atoms[i].l
					what := fmt.Sprintf(" of a piece after a second Split at %s", b.Key())
					o.split(st, r, b, off, shift, func(st *State, l2, r2 Value) {
						if o.deepKey(st, l) != lk || o.deepKey(st, rl) != before || o.deepKey(st, r) != rk {
							o.fail(st, "pure", o.fSplit, "changes the levels it or its argument was cut from")
							return
						}
						o2 := off
						if shift {
							o2 = b
						}
						o.judgeOrder(st, l2, at, b, off, what)
						o.judgeOrder(st, r2, b, end, o2, what)
						o.judgeDirAt(st, r2, b, end, o2, what)
					})
				}
				for i := 0; i < cut; i++ { // or in the left piece
					b := o.atoms[i].l
					what := fmt.Sprintf(" of a piece after a second Split at %s", b.Key())
					if shift {
						continue
					}
					o.split(st, l, b, zero, false, func(st *State, l2, r2 Value) {
						if o.deepKey(st, l) != lk || o.deepKey(st, rl) != before || o.deepKey(st, r) != rk {
							o.fail(st, "pure", o.fSplit, "changes the levels it or its argument was cut from")
							return
						}
						o.judgeOrder(st, l2, zero, b, zero, what)
						o.judgeOrder(st, r2, b, at, zero, what)
					})
				}
			})
		}
	}
	o.mu.Lock()
	o.r.Engine(ex)
	o.mu.Unlock()
}

func runBidiOrder(p *Prog, r *Report, kinds ...string) {
	b, err := newBidiModel(p)
	if err != nil {
		r.Undecided("bidi", "bidi", "%v", err)
		return
	}
	o := &bidiOrder{bidiModel: b, p: p, r: r, mu: &sync.Mutex{}, bad: map[string]bool{}, kinds: map[string]bool{}, embF: -1}
	for _, k := range kinds {
		o.kinds[k] = true
	}
	for _, f := range []struct {
		n string
		p **ssa.Function
	}{{"ResolvedLevels.Reorder", &o.fReorder}, {"ResolvedLevels.DirectionAt", &o.fDirAt}, {"ResolvedLevels.Split", &o.fSplit}, {"Run.SegmentIterator", &o.fSeg}, {"SegmentIterator.Next", &o.fNext}, {"SegmentIterator.Segment", &o.fSegm}, {"SegmentIterator.EOF", &o.fEOF}, {"Run.IsOpposite", &o.fOpp}} {
		if *f.p = p.Func("bidi", f.n); *f.p == nil {
			r.Fail("api", "bidi", "%s is missing", f.n)
			return
		}
	}
	sp := p.SPkg["bidi"]
	o.lvT = sp.Type("ResolvedLevels").Type()
	dt := sp.Type("Direction")
	for i := 0; dt != nil && i < o.resultT.NumFields(); i++ {
		if types.Identical(o.resultT.Field(i).Type(), dt.Type()) {
			o.embF = i
		}
	}
	for i, n := range o.extraN {
		if n == "FSI" {
			o.fsi = o.extra[i]
		}
	}
	var ok1, ok2 bool
	o.ltr, ok1 = p.intConst("bidi", "LeftToRight")
	o.rtl, ok2 = p.intConst("bidi", "RightToLeft")
	if !ok1 || !ok2 {
		r.Fail("api", "bidi", "the constants of Direction are missing")
		return
	}
	type task struct {
		lv   *oLev
		cuts int
		deep bool
	}
	var tasks []task
	count := func(lv *oLev) int {
		n := 0
		var rec func(l *oLev, outer bool)
		rec = func(l *oLev, outer bool) {
			if !outer && !l.zero {
				n++
			}
			for _, ru := range l.runs {
				for _, pt := range ru.parts {
					if pt.kid != nil {
						rec(pt.kid, false)
					} else {
						n++
					}
				}
			}
			if !outer && !l.zero {
				n++
			}
		}
		rec(lv, true)
		return n
	}
	emit := func(g *oGen, lo, hi int, deep bool) {
		g.memoP, g.memoR = map[[2]int][][]oPart{}, map[[2]int][][]oRun{}
		for w := lo; w <= hi; w++ {
			for _, rs := range g.runs(w, g.maxD) {
				for _, d := range []int{bL, bR} {
					lv := &oLev{dir: d, zero: true, runs: rs}
					tasks = append(tasks, task{lv, count(lv), deep})
				}
			}
		}
	}
	// runs with several isolates
	several := func(n int) {
		for _, c := range []int{bL, bR} {
			op := bL + bR - c
			kinds := []oPart{{}, {&oLev{dir: op}}, {&oLev{dir: op, runs: []oRun{{op, []oPart{{}}}}}}}
			var rec func(ps []oPart)
			rec = func(ps []oPart) {
				if len(ps) > 0 {
					lv := &oLev{dir: bL, zero: true, runs: []oRun{{c, append([]oPart(nil), ps...)}}}
					tasks = append(tasks, task{lv, count(lv), false})
				}
				if len(ps) == n {
					return
				}
				for _, k := range kinds {
					if k.kid == nil && len(ps) > 0 && ps[len(ps)-1].kid == nil {
						continue
					}
					rec(append(ps[:len(ps):len(ps)], k))
				}
			}
			rec(nil)
		}
	}
	// wide: many runs, many isolates, and isolates nested deeply
	flat := func(cls ...int) []oRun {
		var rs []oRun
		for _, c := range cls {
			rs = append(rs, oRun{c, []oPart{{}}})
		}
		return rs
	}
	nest := func(d, c int) *oLev {
		lv := &oLev{dir: c, runs: flat(c)}
		for ; d > 0; d-- {
			c = bL + bR - c
			lv = &oLev{dir: c, runs: []oRun{{c, []oPart{{}, {lv}, {}}}}}
		}
		return lv
	}
	for _, d := range []int{bL, bR} {
		e := bL + bR - d
		for _, rs := range [][]oRun{
			flat(bEN, bAN, bEN, bAN, bEN, bAN),
			flat(bR, bEN, bR, bAN, bR, bEN),
			flat(bL, bR, bL, bR, bL, bR, bL),
			flat(e, bAN, bEN, bAN, bEN, d),
			{{d, []oPart{{}, {nest(4, e)}, {}}}},
			{{e, []oPart{{}, {nest(0, d)}, {}, {nest(1, d)}, {}, {nest(0, e)}, {}}}},
			{{e, []oPart{{nest(1, d)}, {}}}, {d, []oPart{{}}}, {e, []oPart{{}, {nest(0, d)}}}, {bEN, []oPart{{}}}, {e, []oPart{{}}}},
		} {
			lv := &oLev{dir: d, zero: true, runs: rs}
			tasks = append(tasks, task{lv, count(lv), false})
		}
	}
	all, num, lr := []int{bL, bR, bEN, bAN}, []int{bL, bR, bEN}, []int{bL, bR}
	if r.Tier == "thorough" {
		several(6)
		emit(&oGen{cls: all, maxD: 2, marks: true}, 0, 3, true)
		if o.fsi != 0 {
			emit(&oGen{cls: num, maxD: 2, fsi: true}, 1, 3, true)
		}
		emit(&oGen{cls: num, maxD: 2, marks: true}, 4, 4, false)
		emit(&oGen{cls: lr, maxD: 3}, 5, 5, false)
	} else {
		several(4)
		emit(&oGen{cls: all, maxD: 2, marks: true}, 0, 2, true)
		if o.fsi != 0 {
			emit(&oGen{cls: lr, maxD: 2, fsi: true}, 1, 3, false)
		}
		emit(&oGen{cls: num, maxD: 2}, 3, 3, false)
		emit(&oGen{cls: lr, maxD: 1}, 3, 3, true)
	}
	sort.SliceStable(tasks, func(i, j int) bool { return tasks[i].cuts < tasks[j].cuts })
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Println("shapes", len(tasks))
	}
	noKeyCache = true
	defer func() { noKeyCache = false }()
	var wg sync.WaitGroup
	next := 0
	late := time.Now().Add(480 * time.Second)
	if r.Tier == "thorough" {
		late = late.Add(3 * time.Hour)
	}
	var undec string
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			me := *o
			me.counts = map[string]int{}
			defer func() {
				o.mu.Lock()
				for k, v := range me.counts {
					r.N(k, v)
					r.Oblig, r.Disch = r.Oblig+v, r.Disch+v
				}
				o.mu.Unlock()
			}()
			for {
				o.mu.Lock()
				if next >= len(tasks) || undec != "" || len(o.bad) >= 6 {
					o.mu.Unlock()
					return
				}
				if time.Now().After(late) {
					undec = fmt.Sprintf("time is up after %d of %d shapes", next, len(tasks))
					o.mu.Unlock()
					return
				}
				t := tasks[next]
				next++
				o.mu.Unlock()
				func() {
					defer func() {
						if e := recover(); e != nil {
							msg := fmt.Sprint(e)
							if x, ok := e.(tooComplex); ok {
								msg = x.msg
							} else if os.Getenv("VP_DEBUG") != "" {
								panic(e)
							}
							o.mu.Lock()
							undec = msg + ", for " + t.lv.String()
							o.mu.Unlock()
						}
					}()
					me.deep = t.deep
					me.one(t.lv, -1)
					for c := 0; c <= t.cuts; c++ {
						me.one(t.lv, c)
					}
				}()
			}
		}()
	}
	wg.Wait()
	if undec != "" && len(o.bad) == 0 {
		r.Undecided("levels", "bidi", "%s", undec)
	}
}
