package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The tables of package shaping are constructed by its initialiser, which is
// interpreted; the resulting structures are compared with the Unicode
// Character Database for every code point, and have to be well-formed, since
// package unicode searches them under that assumption.

type tableRange struct {
	lo, hi, stride int64
	wide           bool
}

// readTable reads a unicode.RangeTable; ok is false if it is not constant.
func (m *classModel) readTable(st *State, v Value) (rs []tableRange, latin int64, ok bool) {
	p, isPtr := v.(*Ptr)
	if !isPtr {
		return nil, 0, false
	}
	sv, isStruct := st.Load(p.O, p.Path).(*StructV)
	if !isStruct || len(sv.F) != 3 {
		return nil, 0, false
	}
	for i := 0; i < 2; i++ {
		if _, isNil := sv.F[i].(*Nil); isNil {
			continue
		}
		sl, isSlice := sv.F[i].(*SliceV)
		if !isSlice {
			return nil, 0, false
		}
		k, c := sl.Len.Const()
		if !c {
			return nil, 0, false
		}
		for j := int64(0); j < k; j++ {
			e, isRange := st.Load(sl.O, appendPE(sl.Path, pe{Field: -1, Idx: linAdd(sl.Off, linConst(j), 1)})).(*StructV)
			if !isRange || len(e.F) != 3 {
				return nil, 0, false
			}
			lo, o1 := asInt(e.F[0])
			hi, o2 := asInt(e.F[1])
			str, o3 := asInt(e.F[2])
			if !o1 || !o2 || !o3 {
				return nil, 0, false
			}
			rs = append(rs, tableRange{lo, hi, str, i == 1})
		}
	}
	if latin, ok = asInt(sv.F[2]); !ok {
		return nil, 0, false
	}
	return rs, latin, true
}

// malformed tells what is wrong with a table, if anything.
func malformed(rs []tableRange, latin int64) string {
	n := int64(0)
	for i, x := range rs {
		switch {
		case x.lo > x.hi:
			return fmt.Sprintf("the range %04X-%04X is upside down", x.lo, x.hi)
		case x.stride < 1:
			return fmt.Sprintf("the range %04X-%04X has stride %d", x.lo, x.hi, x.stride)
		case (x.hi-x.lo)%x.stride != 0:
			return fmt.Sprintf("the range %04X-%04X is no multiple of its stride %d", x.lo, x.hi, x.stride)
		case x.hi >= maxRune:
			return fmt.Sprintf("the range %04X-%04X exceeds the code space", x.lo, x.hi)
		case x.wide && x.lo <= 0xffff:
			return fmt.Sprintf("the range %04X-%04X of R32 belongs into R16", x.lo, x.hi)
		case i > 0 && rs[i-1].hi >= x.lo:
			return fmt.Sprintf("the range %04X-%04X follows %04X-%04X: ranges have to ascend", x.lo, x.hi, rs[i-1].lo, rs[i-1].hi)
		}
		if !x.wide && x.hi <= 0xff {
			n++
		}
	}
	if n != latin {
		return fmt.Sprintf("LatinOffset is %d, there are %d ranges of Latin-1 characters", latin, n)
	}
	return ""
}

func runShaping(p *Prog, r *Report) {
	const pkg = "shaping"
	ref, err := refClasses("shaping.txt")
	if err != nil || len(ref) == 0 {
		r.Undecided("reference", pkg, "%v", err)
		return
	}
	m := newClassModel(p, r, pkg)
	if m == nil {
		return
	}
	defer r.Engine(m.ex)
	sp := p.SPkg[pkg]
	if f := sp.Func("init"); f != nil {
		r.Func(f.String())
	}
	var names []string
	for n := range ref {
		if !strings.HasPrefix(n, "?") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	sets := map[string]runeSet{}
	isTable := func(g *ssa.Global) bool {
		pt, ok := g.Type().(*types.Pointer).Elem().(*types.Pointer)
		return ok && pt.Elem().String() == "unicode.RangeTable"
	}
	form := func(name string, g *ssa.Global) (runeSet, bool) {
		v := m.st.Load(m.ex.global(g), nil)
		rs, latin, ok := m.readTable(m.st, v)
		if !ok {
			return m.tableOf(m.st, v), true // not a literal: constructed by a library
		}
		r.N("ranges", len(rs))
		if msg := malformed(rs, latin); msg != "" {
			r.Fail(name+":form", p.Pos(g.Pos()), "table %s is not well-formed: %s", name, msg)
			return nil, false
		}
		s := newRuneSet()
		for _, x := range rs {
			s.addStride(x.lo, x.hi, x.stride)
		}
		return s, true
	}
	for _, n := range names {
		g := sp.Var(n)
		if g == nil || !isTable(g) {
			r.Fail(n+":missing", pkg, "the exported table %s does not exist", n)
			continue
		}
		if _, isNil := m.st.Load(m.ex.global(g), nil).(*Nil); isNil {
			r.Fail(n+":nil", p.Pos(g.Pos()), "the exported table %s is not set up", n)
			continue
		}
		s, ok := form(n, g)
		if !ok {
			continue
		}
		if s == nil {
			r.Undecided(n, p.Pos(g.Pos()), "table %s is not constant", n)
			continue
		}
		in, may := ref[n], ref["?"+n]
		miss, extra := newRuneSet(), newRuneSet()
		for i := range s {
			miss[i] = in[i] &^ s[i]
			extra[i] = s[i] &^ in[i]
			if may != nil {
				extra[i] &^= may[i]
			}
		}
		r.Check(miss.count() == 0, n, p.Pos(g.Pos()), "table %s lacks %d code points: %s", n, miss.count(), rangesOf(miss, 4))
		r.Check(extra.count() == 0, n+":extra", p.Pos(g.Pos()), "table %s contains %d code points which do not belong to it: %s", n, extra.count(), rangesOf(extra, 4))
		r.N("tables compared", 1)
		sets[n] = s
	}
	// a code point has one value of each property
	for i, a := range names {
		for _, b := range names[i+1:] {
			if sets[a] == nil || sets[b] == nil || strings.SplitN(a, "_", 2)[0] != strings.SplitN(b, "_", 2)[0] {
				continue
			}
			both := newRuneSet()
			for k := range both {
				both[k] = sets[a][k] & sets[b][k]
			}
			r.Check(both.count() == 0, a+":"+b, p.Pos(sp.Var(b).Pos()), "tables %s and %s have %d code points in common: %s", a, b, both.count(), rangesOf(both, 4))
			r.N("pairs of tables disjoint", 1)
		}
	}
	// further tables have to be well-formed, too
	for n, mem := range sp.Members {
		g, ok := mem.(*ssa.Global)
		if !ok || g.Object() == nil || !g.Object().Exported() || ref[n] != nil || !isTable(g) {
			continue
		}
		form(n, g)
	}
}
