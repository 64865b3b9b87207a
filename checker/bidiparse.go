package main

// The resolver of package bidi as a machine reading scraps (runs of
// characters of one class) from its scanner. See DESIGN.md.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type bidiModel struct {
	p        *Prog
	scrap    *types.Named
	charpos  types.Type
	fClass   int
	fL, fR   int
	fCtx     int
	fKids    int
	cE, cS   int // fields of the context
	ctxT     *types.Struct
	parser   *types.Named
	pStack   int
	pSp      int
	val      [bMax]int64
	name     map[int64]int
	cnull    int64
	extra    []int64
	extraN   []string
	resultT  *types.Struct
	resField int
	noClass  bool // only the text of the runs is compared
	K        int  // scraps left of the parser's position which are kept in the state
	coarse   bool // the key does not tell L from R two scraps left of the position
	divL     int  // scraps left of the position which count for div
	div      int  // different classes within the explored part of the stack
}

func (b *bidiModel) num(pkg *types.Package, name string) (int64, bool) {
	c, ok := pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Val()))
	return v, ok
}

// newBidiModel finds the data representation of the resolver.
func newBidiModel(p *Prog) (*bidiModel, error) {
	sp := p.SPkg["bidi"]
	if sp == nil {
		return nil, fmt.Errorf("package bidi is missing")
	}
	b := &bidiModel{p: p, name: map[int64]int{}, K: 2, div: 4, divL: 2, coarse: true}
	var xt *types.Package
	for _, i := range sp.Pkg.Imports() {
		if i.Path() == "golang.org/x/text/unicode/bidi" {
			xt = i
		}
	}
	if xt == nil {
		return nil, fmt.Errorf("package bidi does not use the classes of x/text")
	}
	for i, n := range []string{"L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "cNI", "cBRACKO", "NSM", "LRI", "RLI", "PDI", "cNULL", "cBRACKO", "cBRACKC"} {
		pk := xt
		if strings.HasPrefix(n, "c") {
			pk = sp.Pkg
		}
		v, ok := b.num(pk, n)
		if !ok {
			return nil, fmt.Errorf("class %s not found", n)
		}
		b.val[i] = v
		if _, ok := b.name[v]; !ok {
			b.name[v] = i
		}
	}
	b.cnull = b.val[bEOF]
	for _, n := range []string{"FSI", "BN", "LRE", "PDF"} {
		if v, ok := b.num(xt, n); ok {
			b.extra, b.extraN = append(b.extra, v), append(b.extraN, n)
		}
	}
	clsT := xt.Scope().Lookup("Class").Type()
	// the scrap: element type of the channel held by the parser
	for _, n := range memberNames(sp) {
		m, ok := sp.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		u, ok := m.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var el *types.Named
		for i := 0; i < u.NumFields(); i++ {
			if ch, ok := u.Field(i).Type().Underlying().(*types.Chan); ok {
				el, _ = ch.Elem().(*types.Named)
			}
		}
		if el == nil {
			continue
		}
		stack, sps := -1, []int{}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if s, ok := ft.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), el) {
				stack = i
			}
			if types.Identical(ft, types.Typ[types.Int]) {
				sps = append(sps, i)
			}
		}
		if stack < 0 {
			continue
		}
		for _, i := range sps {
			if len(sps) == 1 || u.Field(i).Name() == "sp" {
				b.parser, b.scrap, b.pStack, b.pSp = m.Type().(*types.Named), el, stack, i
			}
		}
	}
	if b.scrap == nil {
		return nil, fmt.Errorf("the parser (channel and stack of scraps) was not found")
	}
	u, ok := b.scrap.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("scraps are no structs")
	}
	b.fClass, b.fL, b.fR, b.fCtx, b.fKids = -1, -1, -1, -1, -1
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		switch {
		case types.Identical(f.Type(), clsT):
			b.fClass = i
		case f.Name() == "l":
			b.fL, b.charpos = i, f.Type()
		case f.Name() == "r":
			b.fR = i
		case types.Identical(f.Type(), types.NewSlice(types.NewSlice(b.scrap))):
			b.fKids = i
		default:
			if cu, ok := f.Type().Underlying().(*types.Struct); ok {
				b.fCtx, b.ctxT = i, cu
				b.cE, b.cS = -1, -1
				for k := 0; k < cu.NumFields(); k++ {
					switch cu.Field(k).Name() {
					case "embeddingDir":
						b.cE = k
					case "strong":
						b.cS = k
					}
				}
			}
		}
	}
	if b.fClass < 0 || b.fL < 0 || b.fR < 0 || b.fCtx < 0 || b.fKids < 0 || b.cE < 0 || b.cS < 0 {
		return nil, fmt.Errorf("representation of scraps not understood")
	}
	if rt := sp.Type("ResolvedLevels"); rt != nil {
		b.resultT, _ = rt.Type().Underlying().(*types.Struct)
	}
	b.resField = -1
	if b.resultT != nil {
		for i := 0; i < b.resultT.NumFields(); i++ {
			if s, ok := b.resultT.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), b.scrap) {
				b.resField = i
			}
		}
	}
	if b.resField < 0 {
		return nil, fmt.Errorf("ResolvedLevels does not hold scraps")
	}
	return b, nil
}

// mk builds a scrap.
func (b *bidiModel) mk(ex *Engine, cls, l, r int64, e, strong int) *StructV {
	v := ex.Zero(b.scrap).(*StructV)
	v.F[b.fClass] = linConst(cls)
	v.F[b.fL], v.F[b.fR] = linConst(l), linConst(r)
	c := v.F[b.fCtx].(*StructV)
	c.F[b.cE] = linConst(b.val[e])
	c.F[b.cS] = linConst(b.val[strong])
	return v
}

// sc is the view of a scrap in the state.
type scv struct {
	ok         bool
	cls        int64
	l, r       int64
	e, s       int64
	kids       *SliceV
	kidsStrang bool
}

func (b *bidiModel) view(st *State, v Value) scv {
	var r scv
	sv, ok := st.explode(v, b.scrap).(*StructV)
	if !ok {
		return r
	}
	var o1, o2, o3, o4, o5 bool
	r.cls, o1 = asInt(sv.F[b.fClass])
	r.l, o2 = asInt(sv.F[b.fL])
	r.r, o3 = asInt(sv.F[b.fR])
	c, okc := st.explode(sv.F[b.fCtx], b.scrap.Underlying().(*types.Struct).Field(b.fCtx).Type()).(*StructV)
	if okc {
		r.e, o4 = asInt(c.F[b.cE])
		r.s, o5 = asInt(c.F[b.cS])
	}
	switch k := sv.F[b.fKids].(type) {
	case *Nil:
	case *SliceV:
		r.kids = k
	default:
		r.kidsStrang = true
	}
	r.ok = o1 && o2 && o3 && o4 && o5
	return r
}

func (b *bidiModel) clsName(c int64) string {
	if i, ok := b.name[c]; ok {
		return bName[i]
	}
	return fmt.Sprintf("class %d", c)
}

func (b *bidiModel) elems(st *State, s *SliceV) []Value {
	off, ok1 := s.Off.Const()
	n, ok2 := s.Len.Const()
	if !ok1 || !ok2 {
		return nil
	}
	var r []Value
	for i := int64(0); i < n; i++ {
		r = append(r, st.Load(s.O, appendPE(s.Path, pe{Field: -1, Idx: linConst(off + i)})))
	}
	return r
}

// ---- specification state ----------------------------------------------------------

type gItem struct {
	c    int
	l, r int64
	kid  *gLevel
}
type gLevel struct {
	e      int
	l      int64 // position of the initiator
	zero   bool  // the outermost level: initiator of length 0
	items  []gItem
	strong int // strong type context of the next scrap
	closed bool
	lastR  int64 // right end of the PDI
	res    []int // the resolved classes, if known
}
type gLost struct {
	idx int64
	pos int64
}
type ghost struct {
	levels []*gLevel
	pos    int64
	last   int
	eof    bool
	lost   map[int64]gLost // by level start
	hist   []string
	log    []string
}

func (g *ghost) clone() *ghost {
	n := *g
	n.levels = append([]*gLevel(nil), g.levels...)
	for i, l := range n.levels {
		c := *l
		c.items = append([]gItem(nil), l.items...)
		n.levels[i] = &c
	}
	for i := 0; i+1 < len(n.levels); i++ { // the open level is the last item of its parent
		it := n.levels[i].items
		it[len(it)-1].kid = n.levels[i+1]
	}
	n.hist = n.hist[:len(n.hist):len(n.hist)]
	n.log = n.log[:len(n.log):len(n.log)]
	n.lost = map[int64]gLost{}
	for k, v := range g.lost {
		n.lost[k] = v
	}
	return &n
}

func (l *gLevel) id() int64 {
	if l.zero {
		return -1
	}
	return l.l
}

// find the level started by the initiator [l,r).
func (g *ghost) find(l, r int64) *gLevel {
	var rec func(v *gLevel) *gLevel
	rec = func(v *gLevel) *gLevel {
		if v.zero && r == l && l == 0 || !v.zero && v.l == l && r > l {
			return v
		}
		for _, it := range v.items {
			if it.kid != nil {
				if x := rec(it.kid); x != nil {
					return x
				}
			}
		}
		return nil
	}
	return rec(g.levels[0])
}

func (l *gLevel) classes() []int {
	var r []int
	for _, it := range l.items {
		c := it.c
		if it.kid != nil || c == bPDI {
			c = bNI
		}
		r = append(r, c)
	}
	return r
}
func (l *gLevel) W() []int { return refW(l.classes(), l.e) }
func (l *gLevel) N() []int { return refN(refW(l.classes(), l.e), l.e) }

// ---- check of results ---------------------------------------------------------------

// checkRun compares one scrap with the reference classes of its text.
func (b *bidiModel) checkRun(st *State, g *ghost, lv *gLevel, want []int, x scv) (kind, msg string) {
	pos := x.l
	got, known := b.name[x.cls]
	if !known && !b.noClass {
		return "class", fmt.Sprintf("text %d-%d has class %d", x.l, x.r, x.cls)
	}
	var kids []gItem
	for i, it := range lv.items {
		if it.r <= x.l || it.l >= x.r {
			continue
		}
		if it.l != pos || it.r > x.r {
			return "text", fmt.Sprintf("a run ends within the characters at %d-%d", it.l, it.r)
		}
		pos = it.r
		w := want[i]
		if !b.noClass && got != w && !(got == bNI && w == bBR) && !(got == bBR && w == bNI) {
			return "class", fmt.Sprintf("%s at %d-%d is resolved as %s instead of %s", bName[it.c], it.l, it.r, bName[got], bName[w])
		}
		if it.kid != nil {
			kids = append(kids, it)
		}
	}
	if pos != x.r {
		return "text", fmt.Sprintf("the run %d-%d covers text only up to %d", x.l, x.r, pos)
	}
	if x.kidsStrang {
		return "", ""
	}
	var ks []Value
	if x.kids != nil {
		ks = b.elems(st, x.kids)
	}
	if len(ks) != len(kids) {
		return "text", fmt.Sprintf("the run %d-%d has %d nested isolates instead of %d", x.l, x.r, len(ks), len(kids))
	}
	for i, k := range ks {
		s, ok := k.(*SliceV)
		if !ok {
			continue
		}
		if k, m := b.checkLevel(st, g, kids[i].kid, b.elems(st, s)); m != "" {
			return k, m
		}
	}
	return "", ""
}

// checkLevel compares the resolved runs of an isolating run sequence,
// including its delimiters, with the reference.
func (b *bidiModel) checkLevel(st *State, g *ghost, lv *gLevel, runs []Value) (kind, msg string) {
	if len(runs) < 2 {
		return "text", fmt.Sprintf("isolate at %d has %d runs", lv.l, len(runs))
	}
	first := b.view(st, runs[0])
	if !first.ok {
		return "", ""
	}
	wantC := int64(b.val[bLRI])
	if lv.e == bR {
		wantC = b.val[bRLI]
	}
	if first.cls != wantC || first.l != lv.l {
		return "class", fmt.Sprintf("isolate at %d starts with %s at %d", lv.l, b.clsName(first.cls), first.l)
	}
	want := lv.res
	if want == nil {
		want = lv.N()
	}
	pos := first.r
	if lost, ok := g.lost[lv.id()]; ok {
		pos = lost.pos
	}
	for _, r := range runs[1 : len(runs)-1] {
		x := b.view(st, r)
		if !x.ok { // has been checked when it was forgotten
			continue
		}
		if x.l != pos {
			return "text", fmt.Sprintf("the run %d-%d follows a run ending at %d", x.l, x.r, pos)
		}
		if k, m := b.checkRun(st, g, lv, want, x); m != "" {
			return k, m
		}
		pos = x.r
	}
	last := b.view(st, runs[len(runs)-1])
	if last.cls != b.val[bPDI] {
		return "text", fmt.Sprintf("the run sequence at %d ends with %s instead of PDI", lv.l, b.clsName(last.cls))
	}
	end := lv.lastR
	if lv.zero {
		end = g.pos
	}
	if last.l != pos || last.r != end {
		return "text", fmt.Sprintf("the run sequence at %d ends with a PDI at %d-%d, its runs end at %d and its text at %d", lv.l, last.l, last.r, pos, end)
	}
	return "", ""
}

// ---- the machine ------------------------------------------------------------------------

type bidiParse struct {
	*bidiModel
	r      *Report
	m      *Machine
	kinds  map[string]bool
	mu     sync.Mutex
	bad    map[string]bool
	maxD   int
	maxIn  int  // length of isolates which do not start the paragraph
	maxIn1 int  // length of isolates which do
	short  int  // machine for short texts which are resolved completely: maximal length
	loose  bool // all classes, isolates need not be closed: only coverage of the text and termination are judged
	finals int
	drops  int
}

func (bp *bidiParse) fail(g *ghost, what, msg string) {
	bp.mu.Lock()
	defer bp.mu.Unlock()
	if !bp.kinds[what] {
		return
	}
	if bp.bad[what+msg] {
		return
	}
	if len(bp.bad) >= 8 {
		if bp.m != nil {
			bp.m.Stop()
		}
		return
	}
	bp.bad[what+msg] = true
	e := "LeftToRight"
	if g.levels[0].e == bR {
		e = "RightToLeft"
	}
	path := []string{fmt.Sprintf("paragraph direction %s, input (class@position, 2 bytes each): %s", e, strings.Join(g.hist, " "))}
	if len(g.log) > 0 {
		l := g.log
		if len(l) > 6 {
			l = l[len(l)-6:]
		}
		path = append(path, "rules applied: "+strings.Join(l, ", "))
	}
	pos := "bidi/resolver.go"
	if len(g.log) > 0 {
		pos = g.log[len(g.log)-1]
		if i := strings.LastIndex(pos, " at "); i >= 0 {
			pos = pos[i+4:]
		}
	}
	bp.r.Oblig++
	bp.r.Findings = append(bp.r.Findings, Finding{Key: what, Pos: pos, Msg: msg, Path: path})
}

func (bp *bidiParse) parserOf(fr *frame) *Obj {
	for f := fr; f != nil; f = f.parent {
		for _, v := range f.regs {
			if p, ok := v.(*Ptr); ok && len(p.Path) == 0 && types.Identical(p.O.T, bp.parser) {
				return p.O
			}
		}
	}
	return nil
}

type pview struct {
	o     *Obj
	s     *SliceV
	el    []Value
	sp    int64
	bases []int64
}

func (bp *bidiParse) state(c *cont) (pv pview, ok bool) {
	pv.o = bp.parserOf(c.fr)
	if pv.o == nil {
		return pv, false
	}
	sv := c.st.Load(pv.o, []pe{{Field: bp.pStack}})
	s, ok := sv.(*SliceV)
	if !ok {
		return pv, false
	}
	pv.s = s
	pv.sp, ok = asInt(c.st.Load(pv.o, []pe{{Field: bp.pSp}}))
	if !ok {
		return pv, false
	}
	pv.el = bp.elems(c.st, s)
	for i, e := range pv.el {
		if int64(i) > pv.sp || int64(i) == pv.sp && i > 0 {
			break
		}
		x := bp.view(c.st, e)
		if x.ok && (x.cls == bp.val[bLRI] || x.cls == bp.val[bRLI]) {
			pv.bases = append(pv.bases, int64(i))
		}
	}
	return pv, true
}

// forget replaces what has been settled far left of the parser's position.
func (bp *bidiParse) forget(c *cont, pv *pview) bool {
	g := c.st.Ghost.(*ghost)
	if bp.short > 0 {
		return true
	}
	for k, base := range pv.bases {
		lim := pv.sp
		if k+1 < len(pv.bases) {
			lim = pv.bases[k+1]
		}
		lv := g.find(bp.posOf(c.st, pv.el[base]))
		if lv == nil {
			bp.fail(g, "text", "the start of an isolating run sequence on the stack is not one of the text")
			return false
		}
		lost, have := g.lost[lv.id()]
		if !have {
			lost = gLost{idx: base, pos: bp.view(c.st, pv.el[base]).r}
		}
		ng := g
		for i := lost.idx + 1; i < lim-int64(bp.K); i++ {
			x := bp.view(c.st, pv.el[i])
			if !x.ok {
				continue
			}
			want := lv.W()
			if _, m := bp.checkRun(c.st, g, lv, want, x); x.l != lost.pos || m != "" {
				break // not settled yet, or wrong: keep it until the result is known
			}
			lost = gLost{idx: i, pos: x.r}
			off, _ := pv.s.Off.Const()
			c.st.Set(pv.s.O, appendPE(pv.s.Path, pe{Field: -1, Idx: linConst(off + i)}), c.st.ex.SymOf("lost", bp.scrap))
			if ng == g {
				ng = g.clone()
			}
			ng.lost[lv.id()] = lost
			bp.mu.Lock()
			bp.drops++
			bp.mu.Unlock()
		}
		if ng != g {
			c.st.Ghost = ng
			g = ng
		}
	}
	pv.el = bp.elems(c.st, pv.s)
	return true
}

func (bp *bidiParse) posOf(st *State, v Value) (int64, int64) {
	x := bp.view(st, v)
	return x.l, x.r
}

func (bp *bidiParse) key(m *Machine, ex *Engine, c *cont) (string, bool) {
	pv, ok := bp.state(c)
	if !ok {
		panic(tooComplex{"the parser's stack is not known at an interaction point"})
	}
	if !bp.forget(c, &pv) {
		return "", false
	}
	g := c.st.Ghost.(*ghost)
	cn := &canon{m: m, st: c.st, seen: map[int]int{}}
	isInt := func(t types.Type) bool { return t != nil && types.Identical(t, types.Typ[types.Int]) }
	cn.Skip = func(t types.Type, f string) bool { return f == "matchPos" || f == "odist" }
	cn.Special = func(cn *canon, v Value, t types.Type) bool {
		if t == nil {
			return false
		}
		if types.Identical(t, bp.charpos) {
			if k, ok := asInt(v); ok {
				cn.out = append(cn.out, tok{pos: k, is: true})
				return true
			}
			return false
		}
		if isInt(t) {
			if k, ok := asInt(v); ok && k > 3 {
				for i, b := range pv.bases {
					if i > 0 && (k == b || k == b+1) {
						cn.w(fmt.Sprintf("b%d+%d", i, k-b))
						return true
					}
				}
				if k-pv.sp >= -4 && k-pv.sp <= 4 {
					cn.w(fmt.Sprintf("s%+d", k-pv.sp))
					return true
				}
			}
			return false
		}
		if types.Identical(t, types.NewSlice(bp.scrap)) {
			s, ok := v.(*SliceV)
			if !ok {
				return false
			}
			if s.O == pv.s.O && s.Off.Key() == pv.s.Off.Key() && s.Len.Key() == pv.s.Len.Key() {
				cn.seen[s.O.ID] = len(cn.seen) + 1
				cn.w("stack[")
				gap := false
				for i, e := range pv.el {
					x := bp.view(c.st, e)
					if int64(i) == pv.sp {
						cn.w("^")
					}
					if !x.ok {
						if !gap {
							cn.w("…")
						}
						gap = true
						continue
					}
					gap = false
					nk := "0"
					if x.kids != nil {
						nk = x.kids.Len.Key()
						if k, ok := x.kids.Len.Const(); ok && k > 2 {
							nk = "2"
						}
					}
					strong := "" // only numbers depend on it
					if x.cls == bp.val[bEN] || x.cls == bp.val[bAN] {
						strong = bp.clsName(x.s)
					}
					nm := bp.clsName(x.cls)
					if bp.coarse && bp.short == 0 && int64(i) <= pv.sp-2 && (x.cls == bp.val[bL] || x.cls == bp.val[bR]) {
						nm = "S"
					}
					cn.w(fmt.Sprintf("%s/%s%s%s@", nm, bp.clsName(x.e), strong, nk))
					cn.out = append(cn.out, tok{pos: x.l, is: true})
					cn.w("-")
					cn.out = append(cn.out, tok{pos: x.r, is: true})
					cn.w(" ")
				}
				cn.w("]")
				return true
			}
			cn.seen[s.O.ID] = len(cn.seen) + 1
			cn.w("scraps" + s.Len.Key())
			return true
		}
		if types.Identical(t, types.NewSlice(types.NewSlice(bp.scrap))) {
			if s, ok := v.(*SliceV); ok {
				cn.w("kids" + s.Len.Key())
				return true
			}
		}
		return false
	}
	cn.w(c.pt + "\n")
	cn.frames(c)
	cn.heap()
	cn.w("\nspec ")
	if bp.loose {
		cn.w(fmt.Sprintf("%v last%d n%d", g.eof, g.last, len(g.hist)))
		for _, lv := range g.levels {
			cn.w(fmt.Sprintf(" e%d s%d", lv.e, lv.strong))
		}
		return cn.String(), true
	}
	bp.specKey(cn, g, c, pv)
	return cn.String(), true
}

func (bp *bidiParse) specKey(cn *canon, g *ghost, c *cont, pv pview) {
	last := g.last
	if repeats(last) {
		last = -1
	}
	cn.w(fmt.Sprintf("%v last%d depth%d ", g.eof, last, len(g.levels)))
	level := func(lv *gLevel) {
		cn.w(fmt.Sprintf("e%d s%d c%v:", lv.e, lv.strong, lv.closed))
		W := lv.W()
		if g.eof {
			W = lv.N()
		}
		from := int64(-1)
		if l, ok := g.lost[lv.id()]; ok {
			from = l.pos
		}
		prev, n := "", len(lv.items)
		for i, it := range lv.items {
			if it.l < from {
				continue
			}
			x := bName[W[i]]
			num := it.c == bEN || it.c == bAN
			sep := it.c == bET
			if i > 0 && lv.items[i-1].kid == nil {
				pc := lv.items[i-1].c
				sep = sep || it.c == bES && pc == bEN || it.c == bCS && (pc == bEN || pc == bAN)
			}
			if !g.eof && !lv.closed && (i == n-1 && (num || sep) || i == n-2 && num && (lv.items[n-1].c == bES || lv.items[n-1].c == bCS)) {
				x += "/" + bName[it.c]
			}
			if it.kid != nil {
				x += "k"
			}
			if x == prev && it.kid == nil {
				continue
			}
			prev = x
			cn.out = append(cn.out, tok{pos: it.l, is: true})
			cn.w(x + " ")
		}
		cn.w(";")
	}
	done := map[*gLevel]bool{}
	for _, lv := range g.levels {
		level(lv)
		done[lv] = true
	}
	for _, b := range pv.bases {
		if lv := g.find(bp.posOf(c.st, pv.el[b])); lv != nil && !done[lv] {
			level(lv)
			done[lv] = true
		}
	}
	// isolates which are only in the lookahead
	for i, e := range pv.el {
		if int64(i) < pv.sp {
			continue
		}
		if x := bp.view(c.st, e); x.ok && (x.cls == bp.val[bLRI] || x.cls == bp.val[bRLI]) {
			if lv := g.find(x.l, x.r); lv != nil && !done[lv] {
				level(lv)
				done[lv] = true
			}
		}
	}
	// does the environment restrict itself?
	cn.w(fmt.Sprintf("restr%v", bp.restricted(g)))
	for _, lv := range g.levels[1:] {
		cn.w(fmt.Sprintf(" %d", min(len(lv.items), max(bp.maxIn, bp.maxIn1))))
	}
	if bp.short > 0 {
		cn.w(fmt.Sprintf(" n%d", len(g.hist)))
	}
}

// restricted: the inside of an isolate is explored fully only for isolates
// at the start of their paragraph.
func (bp *bidiParse) restricted(g *ghost) bool {
	for i := 0; i+1 < len(g.levels); i++ {
		if len(g.levels[i].items) > 1 {
			return true
		}
	}
	return false
}

// deliver appends a scrap to the text.
func (bp *bidiParse) deliver(ex *Engine, g *ghost, c int) (*StructV, *ghost) {
	if bp.loose {
		return bp.deliverLoose(ex, g, c)
	}
	n := g.clone()
	lv := n.levels[len(n.levels)-1]
	n.hist = append(n.hist, fmt.Sprintf("%s@%d", bName[c], n.pos))
	if c == bEOF {
		n.eof = true
		z := ex.Zero(bp.scrap).(*StructV)
		z.F[bp.fClass] = linConst(bp.cnull)
		return z, n
	}
	l, r := n.pos, n.pos+2
	n.pos = r
	n.last = c
	e := lv.e
	strong := lv.strong
	switch c {
	case bLRI, bRLI:
		d := bL
		if c == bRLI {
			d = bR
		}
		kid := &gLevel{e: d, l: l, strong: d}
		lv.items = append(lv.items, gItem{c: bNI, l: l, r: r, kid: kid})
		n.levels = append(n.levels, kid)
		e = d
	case bPDI:
		if len(n.levels) > 1 {
			lv.closed, lv.lastR = true, r
			n.levels = n.levels[:len(n.levels)-1]
			it := n.levels[len(n.levels)-1].items
			it[len(it)-1].r = r
		} else {
			lv.items = append(lv.items, gItem{c: c, l: l, r: r})
		}
	default:
		lv.items = append(lv.items, gItem{c: c, l: l, r: r})
		if c == bL || c == bR {
			lv.strong = c
		}
	}
	cls := bp.val[c]
	return bp.mk(ex, cls, l, r, e, strong), n
}

// looseCls: classes delivered in the loose mode besides those of bName are
// numbers from bMax on: FSI and the classes which are not supported.
func (b *bidiModel) looseClasses() []int {
	cs := []int{bL, bR, bEN, bES, bET, bNI, bBR, bLRI, bRLI, bPDI}
	for i := range b.extra {
		cs = append(cs, bMax+i)
	}
	return cs
}

func (b *bidiModel) clsVal(c int) (int64, string) {
	if c >= bMax {
		return b.extra[c-bMax], b.extraN[c-bMax]
	}
	return b.val[c], bName[c]
}

func (bp *bidiParse) deliverLoose(ex *Engine, g *ghost, c int) (*StructV, *ghost) {
	n := g.clone()
	v, nm := bp.clsVal(c)
	n.hist = append(n.hist, fmt.Sprintf("%s@%d", nm, n.pos))
	if c == bEOF {
		n.eof = true
		z := ex.Zero(bp.scrap).(*StructV)
		z.F[bp.fClass] = linConst(bp.cnull)
		return z, n
	}
	l, r := n.pos, n.pos+2
	n.pos, n.last = r, c
	lv := n.levels[len(n.levels)-1]
	e, strong := lv.e, lv.strong
	open := func(d int) {
		kid := &gLevel{e: d, l: l, strong: d}
		lv.items = []gItem{{c: bNI, l: l, r: r, kid: kid}}
		n.levels = append(n.levels, kid)
		e = d
	}
	switch {
	case c == bLRI:
		open(bL)
	case c == bRLI:
		open(bR)
	case nm == "FSI":
		open(e)
	case c == bPDI && len(n.levels) > 1:
		n.levels = n.levels[:len(n.levels)-1]
	case c == bL || c == bR:
		lv.strong = c
	}
	return bp.mk(ex, v, l, r, e, strong), n
}

// repeats: classes of which the scanner does not collapse adjacent characters.
func repeats(c int) bool { return c == bES || c == bCS || isRare(c) }

func isRare(c int) bool { return c == bBR || c == bPDI || c == bLRI || c == bRLI }

func (bp *bidiParse) input(m *Machine, ex *Engine, c *cont) []func(c *cont) (Value, bool) {
	g := c.st.Ghost.(*ghost)
	var mv []func(c *cont) (Value, bool)
	if g.eof {
		bp.fail(g, "protocol", "the parser reads from the scanner after the end of the text")
		return nil
	}
	d := len(g.levels) - 1
	have, rare, kept := map[int]bool{}, false, 0
	if pv, ok := bp.state(c); ok {
		for i, e := range pv.el {
			x := bp.view(c.st, e)
			if !x.ok {
				continue
			}
			kept++
			k, ok := bp.name[x.cls]
			if ok && !isRare(k) && int64(i) >= pv.sp-int64(bp.divL) {
				have[k] = true
			}
			if (ok && isRare(k) || x.kids != nil) && i > 0 {
				rare = true
			}
		}
	}
	var cs []int
	if bp.loose {
		cs = append(cs, bEOF)
		if len(g.hist) < bp.short {
			cs = append(cs, bp.looseClasses()...)
		}
	}
	restr, nin := bp.restricted(g), len(g.levels[d].items)
	if bp.loose {
	} else if bp.short > 0 {
		n := len(g.hist)
		if d > 0 {
			cs = append(cs, bPDI)
		} else {
			cs = append(cs, bEOF)
		}
		if n < bp.short-d {
			cs = append(cs, bL, bR, bAN, bNI)
			if g.levels[d].strong == bR {
				cs = append(cs, bEN)
			}
		}
		if n < bp.short-2 && d < bp.maxD {
			cs = append(cs, bLRI, bRLI)
		}
	} else if d > 0 && (restr && nin >= bp.maxIn || !restr && bp.maxIn1 > 0 && nin >= bp.maxIn1) {
		cs = []int{bPDI}
	} else if restr {
		cs = []int{bPDI, bL, bR, bEN, bNI}
	} else if kept > 12 { // something is wrong or is resolved late: see the result
		cs = []int{bPDI}
		if d == 0 {
			cs = []int{bEOF}
		}
	} else {
		cs = []int{bL, bR, bEN, bAN, bES, bET, bCS, bNI, bBR, bPDI}
		if d < bp.maxD {
			if g.levels[d].e == bR || nin == 0 || bp.maxIn > 1 {
				cs = append(cs, bLRI)
			}
			if g.levels[d].e == bL || nin == 0 || bp.maxIn > 1 {
				cs = append(cs, bRLI)
			}
		}
		if d == 0 {
			cs = append(cs, bEOF)
		}
	}
	for _, cls := range cs {
		if cls == g.last && !repeats(cls) {
			continue
		}
		if bp.short == 0 && isRare(cls) && rare && !(cls == bPDI && d > 0) {
			continue
		}
		if bp.short == 0 && cls != bEOF && !isRare(cls) && len(have) >= bp.div && !have[cls] {
			continue
		}
		cls := cls
		mv = append(mv, func(c *cont) (Value, bool) {
			s, n := bp.deliver(c.st.ex, c.st.Ghost.(*ghost), cls)
			c.st.Ghost = n
			if u, ok := c.reg.(*ssa.UnOp); ok && u.CommaOk {
				return &TupleV{[]Value{s, boolConst(true)}}, true
			}
			return s, true
		})
	}
	return mv
}

func (bp *bidiParse) final(m *Machine, ex *Engine, o Outcome) {
	g, _ := o.St.Ghost.(*ghost)
	if g == nil {
		return
	}
	switch {
	case o.Panic:
		msg := "?"
		if s, ok := asStr(o.PanicV); ok {
			msg = s
		} else if o.PanicV != nil {
			msg = o.PanicV.Key()
		}
		where := "?"
		if o.PanicI != nil {
			where = fmt.Sprintf("%s (%s)", bp.p.Pos(o.PanicI.Pos()), o.PanicI.Parent().Name())
		}
		bp.fail(g, "panic", fmt.Sprintf("the resolver panics (%s) at %s", msg, where))
		return
	case o.Loop:
		panic(tooComplex{"a loop of the resolver is not decided by constants"})
	}
	if !g.eof {
		bp.fail(g, "protocol", "the resolver returns before it has read the end of the text")
		return
	}
	p, ok := o.Ret[0].(*Ptr)
	if !ok {
		bp.fail(g, "text", "the resolver returns no result")
		return
	}
	s, ok := o.St.Load(p.O, appendPE(p.Path, pe{Field: bp.resField})).(*SliceV)
	if !ok {
		bp.fail(g, "text", "the result has no runs")
		return
	}
	bp.mu.Lock()
	bp.finals++
	bp.mu.Unlock()
	if bp.loose {
		bp.checkCover(o.St, g, bp.elems(o.St, s))
		return
	}
	if k, m := bp.checkLevel(o.St, g, g.levels[0], bp.elems(o.St, s)); m != "" {
		bp.fail(g, k, m)
	}
}

// checkCover: the runs of the result are those of the whole text.
func (bp *bidiParse) checkCover(st *State, g *ghost, runs []Value) {
	pos := int64(0)
	for _, r := range runs {
		x := bp.view(st, r)
		if !x.ok {
			return
		}
		if x.l != pos || x.r < x.l {
			bp.fail(g, "text", fmt.Sprintf("the run %d-%d follows a run ending at %d", x.l, x.r, pos))
			return
		}
		pos = x.r
	}
	if pos != g.pos {
		bp.fail(g, "text", fmt.Sprintf("the runs end at %d, the text at %d", pos, g.pos))
	}
}

func (bp *bidiParse) setup(m *Machine, ex *Engine) {
	ex.maxRec = 6
	ex.OnRecv = func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.UnOp) []Outcome {
		return m.Suspend(ex, fr, st, blk, i, x, "recv")
	}
	seg, seen := 0, map[string]int{}
	ex.OnCall = func(fr *frame, st *State, fn *ssa.Function) {
		g, _ := st.Ghost.(*ghost)
		if g == nil {
			return
		}
		if fr.parent == nil {
			return
		}
		if fn.Parent() != nil && len(fn.Params) == 1 && types.Identical(fn.Params[0].Type(), types.NewSlice(bp.scrap)) {
			n := *g
			n.log = append(n.log[:len(n.log):len(n.log)], fmt.Sprintf("%s at %s", fn.Parent().Name(), bp.p.Pos(fn.Pos())))
			st.Ghost = &n
		}
	}
	ex.OnUnknown = func(fr *frame, st *State, c Value, in ssa.Instruction) bool {
		g, _ := st.Ghost.(*ghost)
		if g == nil || !strings.Contains(c.Key(), "lost") {
			return false
		}
		if g.eof {
			return true
		}
		ct := &cont{fr: fr, st: st}
		if pv, ok := bp.state(ct); ok {
			for _, b := range pv.bases {
				if lv := g.find(bp.posOf(st, pv.el[b])); lv != nil && lv.closed {
					return true
				}
			}
		}
		panic(tooComplex{"the resolver looks further back than the analysis keeps track of, at " + bp.p.Pos(in.Pos())})
	}
	ex.OnIter = func(fr *frame, st *State, blk *ssa.BasicBlock, iter int) []Outcome {
		g, _ := st.Ghost.(*ghost)
		if g == nil {
			return nil
		}
		if m.Stopped() {
			return []Outcome{}
		}
		if ex.steps-ex.steps0 < seg {
			seg, seen = 0, map[string]int{}
		}
		seg = ex.steps - ex.steps0
		if seg < 60000 {
			return nil
		}
		if seg > 3000000 {
			panic(tooComplex{"too many steps between two reads in " + fr.fn.Name()})
		}
		c := &cont{fr: fr, st: st, blk: blk, i: 0}
		pv, ok := bp.state(c)
		if !ok {
			return nil
		}
		if len(pv.el) > 400 {
			bp.fail(g, "termination", fmt.Sprintf("the resolver does not terminate: the stack grows in %s at %s", fr.fn.Name(), bp.p.Pos(blk.Instrs[0].Pos())))
			return []Outcome{}
		}
		if len(seen) > 400 {
			return nil
		}
		gg := g
		k, ok := bp.key(m, ex, &cont{fr: fr, st: st.Clone(), blk: blk, i: 0, pt: "iter"})
		st.Ghost = gg
		if !ok {
			return nil
		}
		k = fmt.Sprintf("%d %d %s", pv.sp, len(pv.el), k)
		seen[k]++
		if seen[k] > 3 {
			bp.fail(g, "termination", fmt.Sprintf("the resolver does not terminate: loop in %s at %s", fr.fn.Name(), bp.p.Pos(blk.Instrs[0].Pos())))
			return []Outcome{}
		}
		return nil
	}
}

// runBidiResolve: the classes of the result.
func runBidiResolve(p *Prog, r *Report) {
	bidiResolve(p, r, "class", "text", "termination", "panic", "protocol")
}

// runBidiText: the text of the result.
func runBidiText(p *Prog, r *Report) { bidiResolve(p, r, "text", "termination", "panic", "protocol") }

// runBidiEnds: the resolver ends.
func runBidiEnds(p *Prog, r *Report) { bidiResolve(p, r, "termination", "panic", "protocol") }

func bidiResolve(p *Prog, r *Report, kinds ...string) {
	b, err := newBidiModel(p)
	if err != nil {
		r.Undecided("bidi", "bidi", "%v", err)
		return
	}
	ks := map[string]bool{}
	for _, k := range kinds {
		ks[k] = true
	}
	b.noClass = !ks["class"]
	bp := &bidiParse{bidiModel: b, r: r, bad: map[string]bool{}, kinds: ks, maxD: 1, maxIn: 1, maxIn1: 3}
	if r.Tier == "thorough" {
		bp.maxD, bp.maxIn, bp.maxIn1, bp.div, bp.coarse = 2, 2, 0, 9, false
	}
	root := p.Func("bidi", "ResolveParagraph")
	if root == nil {
		r.Fail("api", "bidi", "function ResolveParagraph is missing")
		return
	}
	ex := NewEngine(p.SSA)
	st, err := initProgram(p, ex, []string{"bidi/trie", "bidi"})
	if err != nil {
		r.Undecided("init", "bidi", "package initialisation cannot be interpreted: %v", err)
		return
	}
	type mode struct {
		short int
		loose bool
	}
	modes := []mode{{bp.shortLen(r.Tier), false}, {0, false}}
	if !ks["class"] {
		modes = append([]mode{{bp.shortLen(r.Tier) - 2, true}}, modes...)
	}
	for _, md := range modes {
		bp.short, bp.loose = md.short, md.loose
		bp.finals = 0
		if !bp.explore(p, r, ex, st, root) {
			return
		}
	}
}

func (bp *bidiParse) shortLen(tier string) int {
	if tier == "thorough" {
		return 7
	}
	return 6
}

// explore runs one of the two machines.
func (bp *bidiParse) explore(p *Prog, r *Report, ex *Engine, st *State, root *ssa.Function) bool {
	b := bp.bidiModel
	m := &Machine{p: p, limit: 400000, Key: bp.key, Input: bp.input, Final: bp.final, Setup: bp.setup}
	bp.m = m
	var roots []func(ex *Engine) []Outcome
	for _, e := range []int{bL, bR} {
		e := e
		roots = append(roots, func(ex *Engine) []Outcome {
			s := st.Clone()
			s.ex = ex
			var opts Value = &Nil{root.Params[2].Type()}
			if e == bR {
				dd := p.Func("bidi", "DefaultDirection")
				rtl, ok := b.num(p.SPkg["bidi"].Pkg, "RightToLeft")
				if dd == nil || !ok {
					panic(tooComplex{"DefaultDirection or RightToLeft is missing"})
				}
				outs := ex.call(nil, nil, dd, nil, []Value{linConst(rtl)}, s)
				if len(outs) != 1 || !outs[0].Returns() {
					panic(tooComplex{"DefaultDirection"})
				}
				s = outs[0].St
				o := ex.NewArr("opts", root.Params[2].Type().(*types.Slice).Elem(), false)
				s.Set(o, []pe{{Field: -1, Idx: linConst(0)}}, outs[0].Ret[0])
				opts = &SliceV{O: o, Off: linConst(0), Len: linConst(1), Cap: linConst(1), T: root.Params[2].Type()}
			}
			s.Ghost = &ghost{levels: []*gLevel{{e: e, zero: true, strong: e}}, last: -1, lost: map[int64]gLost{}}
			return ex.call(nil, nil, root, nil, []Value{&Sym{"reader", root.Params[0].Type()}, &Nil{root.Params[1].Type()}, opts}, s)
		})
	}
	workers := 8
	if os.Getenv("VP_WORKERS") == "1" {
		workers = 1
	}
	m.Explore(ex, roots, workers)
	m.Report(r)
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Println("machine", bp.short, "states", m.States, "transitions", m.Trans, "finals", bp.finals)
	}
	r.N("results compared", bp.finals)
	r.N("runs settled and compared", bp.drops)
	if len(bp.bad) > 0 {
		return false
	}
	if m.err != nil {
		r.Undecided("machine", "bidi/resolver.go", "%v", m.err)
	} else if m.over {
		r.Undecided("machine", "bidi/resolver.go", "%s", m.Over())
	}
	if bp.finals == 0 && len(bp.bad) == 0 {
		r.Undecided("machine", "bidi/resolver.go", "no result of the resolver was reached")
	}
	r.Oblig += m.Trans
	r.Disch += m.Trans
	return true
}
