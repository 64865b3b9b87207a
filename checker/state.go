package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- events -----------------------------------------------------------

type Event struct {
	Kind  string // call, store, mapstore, send, recv, close, go, defer, panic, loop, loopexit, lock, unlock
	Name  string
	Args  []Value
	Res   Value
	Instr ssa.Instruction
	Stack string
	P     *Ptr
}

type traceNode struct {
	prev *traceNode
	ev   Event
	n    int
}

// ---- state ------------------------------------------------------------

type leaf struct {
	path []pe
	val  Value
}
type objState struct {
	leaves map[string]leaf
	order  []string
	sym    bool
	symIdx bool // some leaf was written through a non-constant index
	epoch  int
	owner  *State
	// map objects
	closed bool // all keys known
}

func (o *objState) clone(st *State) *objState {
	n := &objState{leaves: make(map[string]leaf, len(o.leaves)), sym: o.sym, symIdx: o.symIdx, epoch: o.epoch, owner: st, closed: o.closed}
	for k, v := range o.leaves {
		n.leaves[k] = v
	}
	n.order = append([]string(nil), o.order...)
	return n
}

type State struct {
	ex    *Engine
	heap  map[int]*objState
	base  map[int]*objState // shared and never changed; heap takes precedence
	le    []*Lin
	eq    []*Lin
	ne    []*Lin
	bf    map[string]bool
	bfv   map[string]Value
	trace *traceNode
	n     int
	defs  int
	Ghost interface{} // specification state of a machine; immutable
	Co    *coro       // the thread which is not running
	Cur   int         // number of the running thread
	Shut  bool        // the channel between the threads has been closed
}

func (ex *Engine) NewState() *State {
	return &State{ex: ex, heap: map[int]*objState{}, bf: map[string]bool{}, bfv: map[string]Value{}}
}

func (s *State) Clone() *State {
	n := &State{ex: s.ex, heap: make(map[int]*objState, len(s.heap)+4), base: s.base, trace: s.trace, n: s.n, Ghost: s.Ghost, Co: s.Co, Cur: s.Cur, Shut: s.Shut}
	for k, v := range s.heap {
		n.heap[k] = v
		if v.owner != nil {
			v.owner = nil // shared from now on
		}
	}
	n.le = s.le[:len(s.le):len(s.le)]
	n.eq = s.eq[:len(s.eq):len(s.eq)]
	n.ne = s.ne[:len(s.ne):len(s.ne)]
	n.bf = make(map[string]bool, len(s.bf))
	for k, v := range s.bf {
		n.bf[k] = v
	}
	n.bfv = make(map[string]Value, len(s.bfv))
	for k, v := range s.bfv {
		n.bfv[k] = v
	}
	return n
}

// at returns the state of an object or nil.
func (s *State) at(id int) *objState {
	if o, ok := s.heap[id]; ok {
		return o
	}
	return s.base[id]
}

// Freeze makes the present heap the shared base of s and its clones.
func (s *State) Freeze() {
	b := make(map[int]*objState, len(s.base)+len(s.heap))
	for k, v := range s.base {
		b[k] = v
	}
	for k, v := range s.heap {
		v.owner = nil
		b[k] = v
	}
	s.base, s.heap = b, map[int]*objState{}
}

func (s *State) Emit(e Event) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{s.trace, e, n}
}

// Events returns the trace oldest first.
func (s *State) Events() []Event {
	var r []Event
	for t := s.trace; t != nil; t = t.prev {
		r = append(r, t.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) Fresh(base string, t types.Type) Value {
	s.n++
	return s.ex.SymOf(fmt.Sprintf("%s~%d", base, s.n), t)
}

// SymOf makes an unknown value of type t with the given identity.
func (ex *Engine) SymOf(name string, t types.Type) Value {
	if t == nil {
		return &Sym{name, nil}
	}
	if isInt(t) {
		if isUnsigned(t) {
			ex.nonneg[name] = true
		}
		return linSym(name)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.SymOf(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if u.Len() <= 64 {
			av := &ArrayV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				av.E = append(av.E, ex.SymOf(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
			}
			return av
		}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, ex.SymOf(fmt.Sprintf("%s.%d", name, i), u.At(i).Type()))
		}
		return tv
	}
	return &Sym{name, t}
}

// Zero value of t.
func (ex *Engine) Zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return linConst(0)
		case u.Info()&types.IsBoolean != 0:
			return boolConst(false)
		case u.Info()&types.IsString != 0:
			return strConst("")
		}
		return &Term{Op: "zero:" + t.String(), T: t}
	case *types.Struct:
		sv := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, ex.Zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		av := &ArrayV{T: t}
		for i := int64(0); i < u.Len(); i++ {
			av.E = append(av.E, ex.Zero(u.Elem()))
		}
		return av
	}
	return &Nil{t}
}

// ---- heap -------------------------------------------------------------

func (ex *Engine) NewObj(name string, t types.Type, sym bool) *Obj {
	ex.nobj++
	return &Obj{ID: ex.nobj, Name: name, T: t, Sym: sym}
}
func (ex *Engine) NewArr(name string, elem types.Type, sym bool) *Obj {
	o := ex.NewObj(name, elem, sym)
	o.Arr = true
	return o
}

func (s *State) obj(o *Obj) *objState {
	os := s.at(o.ID)
	if os == nil {
		os = &objState{leaves: map[string]leaf{}, sym: o.Sym, owner: s, closed: !o.Sym}
		s.heap[o.ID] = os
	}
	return os
}
func (s *State) wobj(o *Obj) *objState {
	os := s.obj(o)
	if os.owner != s {
		os = os.clone(s)
		s.heap[o.ID] = os
	}
	return os
}

func typeAt(o *Obj, p []pe) types.Type {
	t := o.T
	i := 0
	if o.Arr {
		if len(p) == 0 {
			return t
		}
		i = 1
	}
	for ; i < len(p); i++ {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p[i].Field).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func appendPE(p []pe, e pe) []pe { return append(p[:len(p):len(p)], e) }

// relation of two paths: -1 disjoint, 0 unknown, 1 same
func (s *State) pathRel(a, b []pe) int {
	res := 1
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i].Field >= 0 {
			if a[i].Field != b[i].Field {
				return -1
			}
			continue
		}
		if b[i].Field >= 0 {
			return -1
		}
		d := linAdd(a[i].Idx, b[i].Idx, -1)
		if k, ok := d.Const(); ok {
			if k != 0 {
				return -1
			}
			continue
		}
		if known, v := s.query(eq0(d)); known {
			if !v {
				return -1
			}
			continue
		}
		res = 0
	}
	return res
}

func pathConst(p []pe) bool {
	for _, e := range p {
		if e.Field < 0 {
			if _, ok := e.Idx.Const(); !ok {
				return false
			}
		}
	}
	return true
}

func fieldPathName(o *Obj, p []pe) string {
	var b strings.Builder
	t := o.T
	for i, e := range p {
		if e.Field < 0 {
			b.WriteString("[" + e.Idx.Key() + "]")
			if o.Arr && i == 0 {
				continue
			}
			if a, ok := t.Underlying().(*types.Array); ok {
				t = a.Elem()
			}
		} else {
			if u, ok := t.Underlying().(*types.Struct); ok && e.Field < u.NumFields() {
				b.WriteString("." + u.Field(e.Field).Name())
				t = u.Field(e.Field).Type()
			} else {
				b.WriteString(fmt.Sprintf(".%d", e.Field))
			}
		}
	}
	return b.String()
}

// Load reads the value at o.p.
func (s *State) Load(o *Obj, p []pe) Value {
	t := typeAt(o, p)
	if t == nil {
		return s.Fresh("load?", nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !(o.Arr && len(p) == 0) {
			sv := &StructV{T: t}
			for i := 0; i < u.NumFields(); i++ {
				sv.F = append(sv.F, s.Load(o, appendPE(p, pe{Field: i})))
			}
			return sv
		}
	case *types.Array:
		if !(o.Arr && len(p) == 0) && u.Len() <= 256 {
			av := &ArrayV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				av.E = append(av.E, s.Load(o, appendPE(p, pe{Field: -1, Idx: linConst(i)})))
			}
			return av
		}
	}
	os := s.obj(o)
	k := pathKey(p)
	if l, ok := os.leaves[k]; ok {
		return l.val
	}
	if os.symIdx || !pathConst(p) {
		for _, lk := range os.order {
			l, ok := os.leaves[lk]
			if !ok {
				continue
			}
			if len(l.path) != len(p) {
				continue
			}
			switch s.pathRel(l.path, p) {
			case 1:
				return l.val
			case 0:
				v := s.Fresh("maybe:"+o.Name+fieldPathName(o, p), t)
				w := s.wobj(o)
				w.leaves[k] = leaf{p, v}
				w.order = append(w.order, k)
				w.symIdx = true
				return v
			}
		}
	}
	if os.sym {
		name := o.Name
		if os.epoch > 0 {
			name = fmt.Sprintf("%s'%d", name, os.epoch)
		}
		return s.ex.SymOf(name+fieldPathName(o, p), t)
	}
	return s.ex.Zero(t)
}

// explode turns a value of aggregate type into its components.
func (s *State) explode(v Value, t types.Type) Value {
	switch v.(type) {
	case *StructV, *ArrayV:
		return v
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return s.ex.SymOf(v.Key(), t)
	}
	return v
}

// Set writes v at o.p without emitting an event.
func (s *State) Set(o *Obj, p []pe, v Value) {
	t := typeAt(o, p)
	if t != nil && !(o.Arr && len(p) == 0) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			sv, ok := s.explode(v, t).(*StructV)
			if !ok {
				break
			}
			for i := 0; i < u.NumFields() && i < len(sv.F); i++ {
				s.Set(o, appendPE(p, pe{Field: i}), sv.F[i])
			}
			return
		case *types.Array:
			if av, ok := s.explode(v, t).(*ArrayV); ok {
				for i := range av.E {
					s.Set(o, appendPE(p, pe{Field: -1, Idx: linConst(int64(i))}), av.E[i])
				}
				return
			}
		}
	}
	w := s.wobj(o)
	k := pathKey(p)
	if !pathConst(p) || w.symIdx {
		for _, lk := range w.order {
			l, ok := w.leaves[lk]
			if !ok || lk == k || len(l.path) != len(p) {
				continue
			}
			switch s.pathRel(l.path, p) {
			case 1:
				delete(w.leaves, lk)
			case 0:
				w.leaves[lk] = leaf{l.path, s.Fresh("smash:"+o.Name+fieldPathName(o, l.path), t)}
			}
		}
		if !pathConst(p) {
			w.symIdx = true
		}
	}
	if _, ok := w.leaves[k]; !ok {
		w.order = append(w.order, k)
	}
	w.leaves[k] = leaf{p, v}
}

// Smash forgets everything about o.
func (s *State) Smash(o *Obj) {
	w := s.wobj(o)
	s.ex.nepoch++
	w.epoch = s.ex.nepoch
	w.leaves = map[string]leaf{}
	w.order = nil
	w.sym = true
	w.symIdx = false
	w.closed = false
}

// ---- facts ------------------------------------------------------------

func eq0(d *Lin) Value {
	if k, ok := d.Const(); ok {
		return boolConst(k == 0)
	}
	if d.Terms[0].Coef < 0 {
		d = linScale(d, -1)
	}
	return &Term{Op: "eq0", Args: []Value{d}, T: types.Typ[types.Bool]}
}
func le0(d *Lin) Value {
	if k, ok := d.Const(); ok {
		return boolConst(k <= 0)
	}
	return &Term{Op: "le0", Args: []Value{d}, T: types.Typ[types.Bool]}
}
func notV(v Value) Value {
	if b, ok := asBool(v); ok {
		return boolConst(!b)
	}
	if t, ok := v.(*Term); ok && t.Op == "not" {
		return t.Args[0]
	}
	return &Term{Op: "not", Args: []Value{v}, T: types.Typ[types.Bool]}
}

func (s *State) baseFacts(l *Lin) []*Lin {
	var r []*Lin
	r = append(r, s.le...)
	for _, e := range s.eq {
		r = append(r, e, linScale(e, -1))
	}
	seen := map[string]bool{}
	add := func(x *Lin) {
		for _, t := range x.Terms {
			if s.ex.isNonneg(t.Sym) && !seen[t.Sym] {
				seen[t.Sym] = true
				r = append(r, linScale(linSym(t.Sym), -1))
			}
		}
	}
	add(l)
	for _, f := range s.le {
		add(f)
	}
	for _, f := range s.eq {
		add(f)
	}
	return r
}

func (ex *Engine) isNonneg(sym string) bool {
	return ex.nonneg[sym] || strings.HasPrefix(sym, "len(") || strings.HasPrefix(sym, "cap(")
}

// implied: facts ⊢ l ≤ 0
func (s *State) implied(l *Lin) bool {
	if k, ok := l.Const(); ok {
		return k <= 0
	}
	if len(s.ex.bnd) > 0 { // intervals of the symbols
		hi, ok := l.K, true
		for _, t := range l.Terms {
			b, known := s.ex.bnd[t.Sym]
			if !known {
				ok = false
				break
			}
			if t.Coef > 0 {
				hi += t.Coef * b[1]
			} else {
				hi += t.Coef * b[0]
			}
		}
		if ok && hi <= 0 {
			return true
		}
	}
	fs := s.baseFacts(l)
	for _, f := range fs {
		d := linAdd(l, f, -1)
		if k, ok := d.Const(); ok && k <= 0 {
			return true
		}
	}
	if len(fs) > 60 {
		fs = fs[len(fs)-60:]
	}
	for i, f := range fs {
		d := linAdd(l, f, -1)
		if len(d.Terms) > len(l.Terms)+1 {
			continue
		}
		for j := i; j < len(fs); j++ {
			e := linAdd(d, fs[j], -1)
			if k, ok := e.Const(); ok && k <= 0 {
				return true
			}
			if len(e.Terms) == 1 && len(e.Terms) < len(d.Terms) {
				for _, g := range fs {
					h := linAdd(e, g, -1)
					if k, ok := h.Const(); ok && k <= 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

// query decides a condition from the facts.
func (s *State) query(c Value) (known, val bool) {
	if b, ok := asBool(c); ok {
		return true, b
	}
	if t, ok := c.(*Term); ok {
		switch t.Op {
		case "not":
			k, v := s.query(t.Args[0])
			return k, !v
		case "le0":
			l := t.Args[0].(*Lin)
			if s.implied(l) {
				return true, true
			}
			if s.implied(linAdd(linConst(1), l, -1)) {
				return true, false
			}
			return false, false
		case "eq0":
			l := t.Args[0].(*Lin)
			if k, ok := l.Const(); ok {
				return true, k == 0
			}
			for _, n := range s.ne {
				for _, sg := range []int64{1, -1} {
					if k, ok := linAdd(l, n, sg).Const(); ok && k == 0 {
						return true, false
					}
				}
			}
			if s.implied(linAdd(l, linConst(1), 1)) || s.implied(linAdd(linConst(1), l, -1)) {
				return true, false
			}
			if s.implied(l) && s.implied(linScale(l, -1)) {
				return true, true
			}
			return false, false
		case "and":
			all := true
			for _, a := range t.Args {
				k, v := s.query(a)
				if k && !v {
					return true, false
				}
				if !k {
					all = false
				}
			}
			if all {
				return true, true
			}
			return false, false
		}
	}
	if v, ok := s.bf[c.Key()]; ok {
		return true, v
	}
	// equality of an unknown with two different constants
	if t, ok := c.(*Term); ok && t.Op == "eq" {
		for k, v := range s.bf {
			if !v {
				continue
			}
			if o, ok := s.bfv[k].(*Term); ok && o.Op == "eq" {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if o.Args[i].Key() == t.Args[j].Key() {
							x, y := o.Args[1-i], t.Args[1-j]
							if definitelyDifferent(x, y) {
								return true, false
							}
						}
					}
				}
			}
		}
	}
	return false, false
}

func definitelyDifferent(x, y Value) bool {
	_, c1 := x.(*Const)
	_, c2 := y.(*Const)
	if c1 && c2 {
		return x.Key() != y.Key()
	}
	_, n1 := x.(*Nil)
	_, n2 := y.(*Nil)
	if n1 != n2 {
		o := x
		if n1 {
			o = y
		}
		switch o.(type) {
		case *Ptr, *FuncV, *SliceV, *IfaceV:
			return true
		}
		if sy, ok := o.(*Sym); ok && strings.HasPrefix(sy.Name, "global-error:") {
			return true
		}
	}
	if s1, ok := x.(*Sym); ok {
		if s2, ok := y.(*Sym); ok && strings.HasPrefix(s1.Name, "global-error:") && strings.HasPrefix(s2.Name, "global-error:") {
			return s1.Name != s2.Name
		}
	}
	return false
}

// assume adds cond==val; returns false if contradictory.
func (s *State) assume(c Value, val bool) bool {
	if k, v := s.query(c); k {
		return v == val
	}
	if t, ok := c.(*Term); ok {
		switch t.Op {
		case "not":
			return s.assume(t.Args[0], !val)
		case "le0":
			l := t.Args[0].(*Lin)
			if !val {
				l = linAdd(linConst(1), l, -1)
			}
			for _, n := range s.ne { // l ≤ 0 and l ≠ 0
				for _, sg := range []int64{1, -1} {
					if k, ok := linAdd(l, n, sg).Const(); ok && k == 0 {
						l = linAdd(l, linConst(1), 1)
					}
				}
			}
			s.le = append(s.le, l)
			return true
		case "eq0":
			l := t.Args[0].(*Lin)
			if val {
				s.eq = append(s.eq, l)
			} else {
				s.ne = append(s.ne, l)
				if s.implied(linScale(l, -1)) {
					s.le = append(s.le, linAdd(linConst(1), l, -1))
				} else if s.implied(l) {
					s.le = append(s.le, linAdd(l, linConst(1), 1))
				}
			}
			return true
		case "and":
			if val {
				for _, a := range t.Args {
					if !s.assume(a, true) {
						return false
					}
				}
				return true
			}
		}
	}
	s.bf[c.Key()] = val
	s.bfv[c.Key()] = c
	return true
}

// FactString lists the branch facts of the path (for reports).
func (s *State) FactString() string {
	var r []string
	for _, l := range s.le {
		r = append(r, l.Key()+"<=0")
	}
	for _, l := range s.eq {
		r = append(r, l.Key()+"==0")
	}
	for _, l := range s.ne {
		r = append(r, l.Key()+"!=0")
	}
	for k, v := range s.bf {
		r = append(r, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}
