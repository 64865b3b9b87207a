package main

// Abstract values of the interpreter. Every value has a canonical key; two
// values with the same key denote the same (possibly unknown) run-time value.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// noKeyCache is set while values are shared by several goroutines.
var noKeyCache bool

type Value interface{ Key() string }

// Lin is an integer: k + Σ coef·sym.
type Lin struct {
	K     int64
	Terms []linTerm // sorted by sym
	key   string
}
type linTerm struct {
	Sym  string
	Coef int64
}

func linConst(k int64) *Lin { return &Lin{K: k} }
func linSym(s string) *Lin  { return &Lin{Terms: []linTerm{{s, 1}}} }
func (l *Lin) Key() string {
	if l.key != "" {
		return l.key
	}
	if len(l.Terms) == 0 {
		return strconv.FormatInt(l.K, 10)
	}
	var b strings.Builder
	for i, t := range l.Terms {
		if i > 0 {
			b.WriteByte('+')
		}
		if t.Coef != 1 {
			b.WriteString(strconv.FormatInt(t.Coef, 10) + "*")
		}
		b.WriteString(t.Sym)
	}
	if l.K != 0 || len(l.Terms) == 0 {
		b.WriteString("+" + strconv.FormatInt(l.K, 10))
	}
	k := "(" + b.String() + ")"
	if !noKeyCache {
		l.key = k
	}
	return k
}
func (l *Lin) Const() (int64, bool) { return l.K, len(l.Terms) == 0 }
func linAdd(a, b *Lin, cb int64) *Lin {
	if len(b.Terms) == 0 && len(a.Terms) == 0 {
		return linConst(a.K + cb*b.K)
	}
	m := map[string]int64{}
	for _, t := range a.Terms {
		m[t.Sym] += t.Coef
	}
	for _, t := range b.Terms {
		m[t.Sym] += cb * t.Coef
	}
	r := &Lin{K: a.K + cb*b.K}
	for s, c := range m {
		if c != 0 {
			r.Terms = append(r.Terms, linTerm{s, c})
		}
	}
	sort.Slice(r.Terms, func(i, j int) bool { return r.Terms[i].Sym < r.Terms[j].Sym })
	return r
}

// linAddSat adds for a comparison: constants near the ends of int64 do not wrap.
func linAddSat(a, b *Lin, cb int64) *Lin {
	r := linAdd(a, b, cb)
	k := float64(a.K) + float64(cb)*float64(b.K)
	if k > 9.2e18 {
		r = &Lin{Terms: r.Terms, K: math.MaxInt64 / 2 * 2}
	} else if k < -9.2e18 {
		r = &Lin{Terms: r.Terms, K: -math.MaxInt64 / 2 * 2}
	}
	return r
}
func linScale(a *Lin, k int64) *Lin {
	r := &Lin{K: a.K * k}
	if k != 0 {
		for _, t := range a.Terms {
			r.Terms = append(r.Terms, linTerm{t.Sym, t.Coef * k})
		}
	}
	return r
}

// Const: bool, string, float constants.
type Const struct {
	V constant.Value
	T types.Type
}

func (c *Const) Key() string { return "c:" + c.V.ExactString() }
func boolConst(b bool) *Const {
	return &Const{constant.MakeBool(b), types.Typ[types.Bool]}
}
func strConst(s string) *Const {
	return &Const{constant.MakeString(s), types.Typ[types.String]}
}

// Nil is the nil/zero pointer, func, map, chan, interface.
type Nil struct{ T types.Type }

func (n *Nil) Key() string { return "nil" }

// Sym is an unknown value.
type Sym struct {
	Name string
	T    types.Type
}

func (s *Sym) Key() string { return s.Name }

// Term is an uninterpreted operation on values.
type Term struct {
	Op   string
	Args []Value
	T    types.Type
	key  string
}

func (t *Term) Key() string {
	if t.key != "" {
		return t.key
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.Key())
	}
	k := t.Op + "(" + strings.Join(p, ",") + ")"
	if !noKeyCache {
		t.key = k
	}
	return k
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
}

func (f *FuncV) Key() string {
	s := "func:" + f.Fn.String()
	if len(f.Bind) > 0 {
		var p []string
		for _, b := range f.Bind {
			p = append(p, b.Key())
		}
		s += "{" + strings.Join(p, ",") + "}"
	}
	return s
}

// BuiltinV is a builtin used as a value.
type pe struct { // path element
	Field int // -1 if index
	Idx   *Lin
}

func pathKey(p []pe) string {
	var b strings.Builder
	for _, e := range p {
		if e.Field >= 0 {
			b.WriteString("." + strconv.Itoa(e.Field))
		} else {
			b.WriteString("[" + e.Idx.Key() + "]")
		}
	}
	return b.String()
}

type Obj struct {
	ID   int
	Name string
	T    types.Type // type of the content; for backing arrays: array elem type with Elem=true
	Arr  bool       // backing array of unknown length, T is the element type
	Map  bool       // map object: T is the map type
	Chan bool
	Sym  bool // content symbolic by default (else zero)
	Site ssa.Instruction
}

func (o *Obj) String() string { return fmt.Sprintf("%s#%d", o.Name, o.ID) }

type Ptr struct {
	O    *Obj
	Path []pe
}

func (p *Ptr) Key() string { return "&" + p.O.String() + pathKey(p.Path) }

type SliceV struct {
	O             *Obj
	Path          []pe // path of the array within O (empty for backing array)
	Off, Len, Cap *Lin
	T             types.Type
}

func (s *SliceV) Key() string {
	return "slice{" + s.O.String() + pathKey(s.Path) + "@" + s.Off.Key() + ":" + s.Len.Key() + "}"
}

type StructV struct {
	T types.Type
	F []Value
}

func (s *StructV) Key() string {
	var p []string
	for _, f := range s.F {
		p = append(p, f.Key())
	}
	return "{" + strings.Join(p, ",") + "}"
}

type ArrayV struct {
	T types.Type
	E []Value
}

func (s *ArrayV) Key() string {
	var p []string
	for _, f := range s.E {
		p = append(p, f.Key())
	}
	return "[" + strings.Join(p, ",") + "]"
}

type IfaceV struct {
	Dyn types.Type
	V   Value
}

func (i *IfaceV) Key() string { return "iface(" + i.Dyn.String() + ":" + i.V.Key() + ")" }

type TupleV struct{ E []Value }

func (t *TupleV) Key() string {
	var p []string
	for _, f := range t.E {
		p = append(p, f.Key())
	}
	return "<" + strings.Join(p, ",") + ">"
}

// IterV is a range iterator over a map or string.
type IterV struct {
	Over Value
	ID   int
	Pos  *Obj // position in a string of known content
}

func (i *IterV) Key() string { return fmt.Sprintf("iter%d(%s)", i.ID, i.Over.Key()) }

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func asStr(v Value) (string, bool) {
	if c, ok := v.(*Const); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}
func asBool(v Value) (bool, bool) {
	if c, ok := v.(*Const); ok && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}
func asInt(v Value) (int64, bool) {
	if l, ok := v.(*Lin); ok {
		return l.Const()
	}
	return 0, false
}

// typeName strips the package path.
func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
