package main

import (
	"bufio"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Code point classification. The package initialisers and the exported setup
// functions are interpreted, range tables being sets of code points; then the
// lookup function is interpreted for an unknown rune. Its paths are conditions
// on the membership in these sets, which are evaluated for every code point.

const maxRune = 0x110000

type runeSet []uint64

func newRuneSet() runeSet             { return make(runeSet, maxRune/64) }
func (s runeSet) add(r int64)         { s[r>>6] |= 1 << uint(r&63) }
func (s runeSet) has(r int64) bool    { return s[r>>6]&(1<<uint(r&63)) != 0 }
func (s runeSet) addRange(a, b int64) { s.addStride(a, b, 1) }
func (s runeSet) addStride(a, b, st int64) {
	if st <= 0 {
		st = 1
	}
	for r := a; r <= b && r < maxRune; r += st {
		s.add(r)
	}
}
func (s runeSet) count() int {
	n := 0
	for _, w := range s {
		for ; w != 0; w &= w - 1 {
			n++
		}
	}
	return n
}

type classModel struct {
	p    *Prog
	r    *Report
	ex   *Engine
	st   *State
	sets map[string]runeSet // by key of the table value
	miss map[string]bool

	symFn map[string]func(r int64) int64 // unknown values depending on the code point
}

// newClassModel interprets the package initialisers.
func newClassModel(p *Prog, r *Report, pkgs ...string) *classModel {
	m := &classModel{p: p, r: r, ex: NewEngine(p.SSA), sets: map[string]runeSet{}, miss: map[string]bool{}}
	ex := m.ex
	ex.maxStep, ex.maxOuts, ex.ncap = 20000000, 100000, 2000000
	m.st = ex.NewState()
	n := 0
	table := func(st *State, s runeSet) []Outcome {
		n++
		v := &Ptr{O: ex.NewObj(fmt.Sprintf("table%d", n), types.Typ[types.Int], false)}
		m.sets[v.Key()] = s
		return []Outcome{{St: st, Ret: []Value{v}}}
	}
	ex.Hooks["golang.org/x/text/unicode/rangetable.New"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		s := newRuneSet()
		sl, ok := a[0].(*SliceV)
		if _, isNil := a[0].(*Nil); isNil {
			return table(st, s)
		}
		if !ok {
			panic(errUndecided)
		}
		k, c := sl.Len.Const()
		off, c2 := sl.Off.Const()
		if !c || !c2 {
			panic(errUndecided)
		}
		for i := int64(0); i < k; i++ {
			v, ok := asInt(st.Load(sl.O, appendPE(sl.Path, pe{Field: -1, Idx: linConst(off + i)})))
			if !ok || v < 0 || v >= maxRune {
				panic(errUndecided)
			}
			s.add(v)
		}
		return table(st, s)
	}
	ex.Hooks["golang.org/x/text/unicode/rangetable.Merge"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		s := newRuneSet()
		sl, ok := a[0].(*SliceV)
		if !ok {
			panic(errUndecided)
		}
		k, c := sl.Len.Const()
		if !c {
			panic(errUndecided)
		}
		for i := int64(0); i < k; i++ {
			t := m.tableOf(st, st.Load(sl.O, appendPE(sl.Path, pe{Field: -1, Idx: linAdd(sl.Off, linConst(i), 1)})))
			if t == nil {
				panic(errUndecided)
			}
			for j := range s {
				s[j] |= t[j]
			}
		}
		return table(st, s)
	}
	is := func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		if _, isNil := a[0].(*Nil); isNil {
			return []Outcome{{St: st, Panic: true, PanicI: site, PanicV: strConst("unicode.Is on a table which has not been set up")}}
		}
		if m.tableOf(st, a[0]) == nil {
			m.miss[a[0].Key()] = true
		}
		return []Outcome{{St: st, Ret: []Value{&Term{Op: "unicode.Is", Args: a, T: types.Typ[types.Bool]}}}}
	}
	ex.Hooks["unicode.Is"] = is
	ex.Hooks["unicode.In"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		sl, ok := a[1].(*SliceV)
		if !ok {
			panic(errUndecided)
		}
		k, c := sl.Len.Const()
		if !c {
			panic(errUndecided)
		}
		u := newRuneSet()
		for i := int64(0); i < k; i++ {
			t := m.tableOf(st, st.Load(sl.O, appendPE(sl.Path, pe{Field: -1, Idx: linAdd(sl.Off, linConst(i), 1)})))
			if t == nil {
				panic(errUndecided)
			}
			for j := range u {
				u[j] |= t[j]
			}
		}
		o := table(st, u)
		return []Outcome{{St: st, Ret: []Value{&Term{Op: "unicode.Is", Args: []Value{o[0].Ret[0], a[0]}, T: types.Typ[types.Bool]}}}}
	}
	for _, path := range pkgs {
		sp := p.SPkg[path]
		if sp == nil {
			r.Fail("anchor", "?", "package %s not found", path)
			return nil
		}
		for _, nm := range memberNames(sp) {
			if g, ok := sp.Members[nm].(*ssa.Global); ok {
				ex.global(g).Sym = false
			}
		}
	}
	for _, o := range p.SSA.AllPackages() {
		if o != nil && o.Func("init") != nil {
			ex.Opaque[o.Func("init").String()] = true
		}
	}
	for _, path := range pkgs {
		f := p.SPkg[path].Func("init")
		ex.Opaque[f.String()] = false
		if !m.call(f) {
			return nil
		}
		ex.Opaque[f.String()] = true
	}
	return m
}

// tableOf is the set of a *unicode.RangeTable.
func (m *classModel) tableOf(st *State, v Value) runeSet {
	if s, ok := m.sets[v.Key()]; ok {
		return s
	}
	p, ok := v.(*Ptr)
	if !ok {
		if g, ok := v.(*Sym); ok && strings.HasPrefix(g.Name, "unicode.") {
			if t := stdTable(strings.TrimPrefix(g.Name, "unicode.")); t != nil {
				s := setOf(t)
				m.sets[v.Key()] = s
				return s
			}
		}
		return nil
	}
	// a literal table
	s := newRuneSet()
	sv, ok := st.Load(p.O, p.Path).(*StructV)
	if !ok || len(sv.F) < 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		if _, isNil := sv.F[i].(*Nil); isNil {
			continue
		}
		sl, ok := sv.F[i].(*SliceV)
		if !ok {
			return nil
		}
		k, c := sl.Len.Const()
		if !c {
			return nil
		}
		for j := int64(0); j < k; j++ {
			e, ok := st.Load(sl.O, appendPE(sl.Path, pe{Field: -1, Idx: linAdd(sl.Off, linConst(j), 1)})).(*StructV)
			if !ok || len(e.F) != 3 {
				return nil
			}
			lo, o1 := asInt(e.F[0])
			hi, o2 := asInt(e.F[1])
			str, o3 := asInt(e.F[2])
			if !o1 || !o2 || !o3 {
				return nil
			}
			s.addStride(lo, hi, str)
		}
	}
	m.sets[v.Key()] = s
	return s
}

func stdTable(n string) *unicode.RangeTable {
	if t := unicode.Properties[n]; t != nil {
		return t
	}
	if t := unicode.Scripts[n]; t != nil {
		return t
	}
	return unicode.Categories[n]
}
func setOf(t *unicode.RangeTable) runeSet {
	s := newRuneSet()
	for _, x := range t.R16 {
		s.addStride(int64(x.Lo), int64(x.Hi), int64(x.Stride))
	}
	for _, x := range t.R32 {
		s.addStride(int64(x.Lo), int64(x.Hi), int64(x.Stride))
	}
	return s
}

// call interprets a function which has to take a single path.
func (m *classModel) call(f *ssa.Function, args ...Value) bool {
	_, ok := m.callV(f, args...)
	return ok
}
func (m *classModel) callV(f *ssa.Function, args ...Value) (ret []Value, ok bool) {
	outs, err := m.ex.Run(f, args, m.st)
	if err != nil {
		m.r.Undecided("setup:"+f.Name(), m.p.Pos(f.Pos()), "%v", err)
		return nil, false
	}
	var keep []Outcome
	for _, o := range outs {
		if o.Returns() {
			keep = append(keep, o)
		} else {
			m.r.Fail("setup:panic", m.p.Pos(f.Pos()), "%s panics: %v", f.Name(), o.PanicV)
			return nil, false
		}
	}
	if len(keep) != 1 {
		m.r.Undecided("setup:"+f.Name(), m.p.Pos(f.Pos()), "%d paths", len(keep))
		return nil, false
	}
	m.st = keep[0].St
	m.st.trace = nil
	return keep[0].Ret, true
}

type cond struct {
	kind byte // s set, l le0, e eq0, n ne0
	set  runeSet
	pol  bool
	f    func(int64) int64
}

// evaluator makes a function of the rune out of an integer.
func (m *classModel) evaluator(v Value) func(int64) int64 {
	l, ok := v.(*Lin)
	if !ok {
		return nil
	}
	type term struct {
		k int64
		f func(int64) int64
	}
	var ts []term
	for _, t := range l.Terms {
		var f func(int64) int64
		if t.Sym == "r" {
			f = func(r int64) int64 { return r }
		} else if g := m.symFn[t.Sym]; g != nil {
			f = g
		} else if tm := m.ex.symTerm[t.Sym]; tm != nil {
			f = m.termEvaluator(tm)
		}
		if f == nil {
			return nil
		}
		ts = append(ts, term{t.Coef, f})
	}
	k := l.K
	switch {
	case len(ts) == 0:
		return func(int64) int64 { return k }
	case len(ts) == 1:
		t := ts[0]
		return func(r int64) int64 { return k + t.k*t.f(r) }
	}
	return func(r int64) int64 {
		x := k
		for _, t := range ts {
			x += t.k * t.f(r)
		}
		return x
	}
}

func (m *classModel) termEvaluator(t *Term) func(int64) int64 {
	var a []func(int64) int64
	for _, x := range t.Args {
		f := m.evaluator(x)
		if f == nil {
			return nil
		}
		a = append(a, f)
	}
	if len(a) == 1 && strings.HasPrefix(t.Op, "conv:") {
		lo, hi, ok := intRange(t.T)
		f := a[0]
		if !ok || lo == 0 && hi > 1<<40 {
			return nil
		}
		n := hi - lo + 1
		if hi > 1<<40 {
			return f
		}
		return func(r int64) int64 {
			x := (f(r) - lo) % n
			if x < 0 {
				x += n
			}
			return x + lo
		}
	}
	if len(a) != 2 {
		return nil
	}
	x, y := a[0], a[1]
	switch t.Op {
	case "%", "/":
		k, ok := asInt(t.Args[1])
		if !ok || k == 0 {
			return nil
		}
		if t.Op == "%" {
			return func(r int64) int64 { return x(r) % k }
		}
		return func(r int64) int64 { return x(r) / k }
	case "&":
		return func(r int64) int64 { return x(r) & y(r) }
	case "|":
		return func(r int64) int64 { return x(r) | y(r) }
	case "^":
		return func(r int64) int64 { return x(r) ^ y(r) }
	case "&^":
		return func(r int64) int64 { return x(r) &^ y(r) }
	case "*":
		return func(r int64) int64 { return x(r) * y(r) }
	case ">>":
		return func(r int64) int64 {
			if k := y(r); k >= 0 && k < 64 {
				return x(r) >> uint(k)
			}
			return 0
		}
	}
	return nil
}

var stdPredicates = map[string]func(rune) bool{
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsNumber": unicode.IsNumber, "unicode.IsControl": unicode.IsControl, "unicode.IsMark": unicode.IsMark,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.IsTitle": unicode.IsTitle, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsPrint": unicode.IsPrint,
}

// lookup returns the result of f for every code point (undecided: -999999).
func (m *classModel) lookup(f *ssa.Function, recv []Value) ([]int64, bool) {
	return m.lookupIn(f, m.st, append(append([]Value{}, recv...), linSym("r")))
}

// lookupIn interprets f in state st, r being an unknown code point.
func (m *classModel) lookupIn(f *ssa.Function, st *State, args []Value) ([]int64, bool) {
	r := linSym("r")
	st = st.Clone()
	st.assume(le0(linScale(r, -1)), true)                    // r >= 0
	st.assume(le0(linAdd(r, linConst(maxRune-1), -1)), true) // r <= 10FFFF
	nle := len(st.le)
	before := st.Clone() // st changes on the way
	outs, err := m.ex.Run(f, args, st)
	if err != nil {
		m.r.Undecided("lookup:"+f.Name(), m.p.Pos(f.Pos()), "%v", err)
		return nil, false
	}
	type path struct {
		c     []cond
		res   func(int64) int64
		panic bool
	}
	var ps []path
	und := func(what string) bool {
		m.r.Undecided("lookup:"+f.Name(), m.p.Pos(f.Pos()), "condition %s", what)
		return false
	}
	for _, o := range outs {
		var q path
		for kind, ls := range map[byte][]*Lin{'l': o.St.le[nle:], 'e': o.St.eq, 'n': o.St.ne} {
			for _, l := range ls {
				f := m.evaluator(l)
				if f == nil {
					return nil, und(l.Key())
				}
				q.c = append(q.c, cond{kind: kind, f: f})
			}
		}
		for _, k := range sortedKeys(o.St.bf) {
			v := o.St.bf[k]
			if _, ok := before.bf[k]; ok {
				continue
			}
			t, ok := o.St.bfv[k].(*Term)
			if !ok {
				t = m.ex.symTerm[k]
			}
			if t == nil {
				return nil, und(k)
			}
			var s runeSet
			if p := stdPredicates[t.Op]; p != nil && len(t.Args) == 1 && t.Args[0].Key() == r.Key() {
				if s = m.sets[t.Op]; s == nil {
					s = newRuneSet()
					for c := rune(0); c < maxRune; c++ {
						if p(c) {
							s.add(int64(c))
						}
					}
					m.sets[t.Op] = s
				}
			} else if t.Op == "unicode.Is" && t.Args[1].Key() == r.Key() {
				s = m.tableOf(o.St, t.Args[0])
			}
			if s == nil {
				return nil, und(k)
			}
			q.c = append(q.c, cond{kind: 's', set: s, pol: v})
		}
		if o.Loop {
			return nil, und("loop")
		}
		if o.Panic {
			q.panic = true
		} else if q.res = m.evaluator(o.Ret[0]); q.res == nil {
			return nil, und("result " + o.Ret[0].Key())
		}
		ps = append(ps, q)
	}
	res := make([]int64, maxRune)
	const chunk = maxRune / 64
	pan := make([]int64, 64)
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for k := int64(0); k < 64; k++ {
		wg.Add(1)
		go func(k int64) {
			defer wg.Done()
			sem <- true
			pan[k] = -1
			for c := k * chunk; c < (k+1)*chunk; c++ {
				res[c] = -999999
			next:
				for i := range ps {
					for j := range ps[i].c {
						x := &ps[i].c[j]
						ok := false
						switch x.kind {
						case 's':
							ok = x.set.has(c) == x.pol
						case 'l':
							ok = x.f(c) <= 0
						case 'e':
							ok = x.f(c) == 0
						case 'n':
							ok = x.f(c) != 0
						}
						if !ok {
							continue next
						}
					}
					if ps[i].panic {
						pan[k] = c
					} else {
						res[c] = ps[i].res(c)
					}
					break
				}
			}
			<-sem
		}(k)
	}
	wg.Wait()
	panics := int64(-1)
	for _, c := range pan {
		if c > panics {
			panics = c
		}
	}
	if panics >= 0 {
		m.r.Fail("lookup:panic", m.p.Pos(f.Pos()), "%s panics for U+%04X", f.Name(), panics)
		return nil, false
	}
	for c := range res {
		if res[c] == -999999 {
			return nil, und(fmt.Sprintf("no path for U+%04X", c))
		}
	}
	m.r.N("paths of lookup functions", len(ps))
	m.r.N("code points", maxRune)
	return res, true
}

// refClasses reads "class lo[..hi]" lines: the values of the property for
// the code points the reference speaks about.
func refClasses(name string) (map[string]runeSet, error) {
	f, err := os.Open(filepath.Join(verifDir, "checker", "data", name))
	if err != nil {
		return nil, err
	}
	defer f.Close()
	m := map[string]runeSet{}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		if len(fs) < 1 || fs[0] == "#" {
			continue
		}
		s := m[fs[0]]
		if s == nil {
			s = newRuneSet()
			m[fs[0]] = s
		}
		for _, x := range fs[1:] {
			var a, b int64
			if n, _ := fmt.Sscanf(x, "%x-%x", &a, &b); n < 2 {
				b = a
			}
			s.addRange(a, b)
		}
	}
	return m, sc.Err()
}

func (p *Prog) intConst(pkg, name string) (int64, bool) {
	sp := p.SPkg[pkg]
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Value.Value))
	return v, ok
}

func rangesOf(s runeSet, max int) string {
	var out []string
	for c := int64(0); c < maxRune; c++ {
		if !s.has(c) {
			continue
		}
		e := c
		for e+1 < maxRune && s.has(e+1) {
			e++
		}
		if len(out) == max {
			out = append(out, "…")
			break
		}
		if e == c {
			out = append(out, fmt.Sprintf("U+%04X", c))
		} else {
			out = append(out, fmt.Sprintf("U+%04X-%04X", c, e))
		}
		c = e
	}
	return strings.Join(out, " ")
}

// compare the classification with the reference.
func (m *classModel) compare(what, pos string, got []int64, ref map[string]runeSet, value func(class string) (int64, bool)) {
	var names []string
	for n := range ref {
		names = append(names, n)
	}
	sort.Strings(names)
	back := map[int64]string{}
	for _, n := range names {
		if v, ok := value(n); ok {
			back[v] = n
		}
	}
	for _, n := range names {
		v, ok := value(n)
		if !ok {
			m.r.Fail(what+":class", pos, "there is no constant for class %s", n)
			continue
		}
		bad := map[int64]runeSet{}
		k := 0
		for c := int64(0); c < maxRune; c++ {
			if !ref[n].has(c) {
				continue
			}
			k++
			if got[c] != v {
				if bad[got[c]] == nil {
					bad[got[c]] = newRuneSet()
				}
				bad[got[c]].add(c)
			}
		}
		m.r.N("code points compared", k)
		m.r.Check(len(bad) == 0, what+":"+n, pos, "%s", describeBad(n, bad, back))
	}
}

func describeBad(want string, bad map[int64]runeSet, back map[int64]string) string {
	var out []string
	for g, s := range bad {
		n := back[g]
		if n == "" {
			n = fmt.Sprint("value ", g)
		}
		out = append(out, fmt.Sprintf("%d code points of class %s are classified as %s: %s", s.count(), want, n, rangesOf(s, 4)))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// table compares an exported table with the reference.
func (m *classModel) table(pkg, name, what string, in, out runeSet) {
	sp := m.p.SPkg[pkg]
	g := sp.Var(name)
	if g == nil {
		m.r.Fail(what+":table:"+name, pkg, "the exported table %s does not exist", name)
		return
	}
	v := m.st.Load(m.ex.global(g), nil)
	if _, isNil := v.(*Nil); isNil {
		m.r.Fail(what+":table:"+name, m.p.Pos(g.Pos()), "the exported table %s is not set up", name)
		return
	}
	s := m.tableOf(m.st, v)
	if s == nil {
		m.r.Undecided(what+":table:"+name, m.p.Pos(g.Pos()), "table %s is %s", name, v.Key())
		return
	}
	miss, extra := newRuneSet(), newRuneSet()
	for i := range s {
		miss[i] = in[i] &^ s[i]
		extra[i] = s[i] & out[i]
	}
	m.r.Check(miss.count() == 0, what+":table:"+name, m.p.Pos(g.Pos()), "table %s lacks %d code points: %s", name, miss.count(), rangesOf(miss, 4))
	m.r.Check(extra.count() == 0, what+":table:"+name+":extra", m.p.Pos(g.Pos()), "table %s contains %d code points which do not belong to it: %s", name, extra.count(), rangesOf(extra, 4))
	m.r.N("tables compared", 1)
}
