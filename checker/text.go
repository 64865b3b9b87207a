package main

import (
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Texts of known content: strings are constants, byte and rune slices are
// arrays of constants. Functions of packages utf8 and strings are evaluated.

func (ex *Engine) bytesOf(st *State, s string) *SliceV {
	o := ex.NewArr("bytes", types.Typ[types.Uint8], false)
	for i := 0; i < len(s); i++ {
		st.Set(o, []pe{{Field: -1, Idx: linConst(int64(i))}}, linConst(int64(s[i])))
	}
	n := linConst(int64(len(s)))
	return &SliceV{O: o, Off: linConst(0), Len: n, Cap: n, T: types.NewSlice(types.Typ[types.Uint8])}
}

func (ex *Engine) runesOf(st *State, s []rune) *SliceV {
	o := ex.NewArr("runes", types.Typ[types.Rune], false)
	for i, r := range s {
		st.Set(o, []pe{{Field: -1, Idx: linConst(int64(i))}}, linConst(int64(r)))
	}
	n := linConst(int64(len(s)))
	return &SliceV{O: o, Off: linConst(0), Len: n, Cap: n, T: types.NewSlice(types.Typ[types.Rune])}
}

// intsOf are the elements of a slice of known content.
func (ex *Engine) intsOf(st *State, v Value) ([]int64, bool) {
	if _, ok := v.(*Nil); ok {
		return nil, true
	}
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	n, ok := s.Len.Const()
	if !ok || n < 0 {
		return nil, false
	}
	r := make([]int64, n)
	for i := range r {
		k, ok := asInt(st.Load(s.O, appendPE(s.Path, pe{Field: -1, Idx: linAdd(s.Off, linConst(int64(i)), 1)})))
		if !ok {
			return nil, false
		}
		r[i] = k
	}
	return r, true
}

// textOf is the content of a string or byte slice.
func (ex *Engine) textOf(st *State, v Value) (string, bool) {
	if s, ok := asStr(v); ok {
		return s, true
	}
	if t, ok := v.(*Term); ok {
		if len(t.Args) == 1 && strings.HasPrefix(t.Op, "conv:") {
			return ex.textOf(st, t.Args[0])
		}
		return "", false
	}
	b, ok := ex.intsOf(st, v)
	if !ok {
		return "", false
	}
	r := make([]byte, len(b))
	for i, x := range b {
		if x < 0 || x > 255 {
			return "", false
		}
		r[i] = byte(x)
	}
	return string(r), true
}

func elemKind(t types.Type) types.BasicKind {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Kind()
		}
	}
	return types.Invalid
}

func (ex *Engine) convertText(st *State, v Value, from, to types.Type) Value {
	if isString(to) {
		if isInt(from) {
			if k, ok := asInt(v); ok {
				return strConst(string(rune(k)))
			}
			return nil
		}
		switch elemKind(from) {
		case types.Uint8:
			if s, ok := ex.textOf(st, v); ok {
				return strConst(s)
			}
		case types.Int32:
			if l, ok := ex.intsOf(st, v); ok {
				var rs []rune
				for _, k := range l {
					rs = append(rs, rune(k))
				}
				return strConst(string(rs))
			}
		}
		return nil
	}
	if s, ok := asStr(v); ok && isString(from) {
		switch elemKind(to) {
		case types.Uint8:
			return ex.bytesOf(st, s)
		case types.Int32:
			return ex.runesOf(st, []rune(s))
		}
	}
	return nil
}

// nextText is a step of a range loop over a string of known content.
func (ex *Engine) nextText(st *State, v Value) *TupleV {
	it, ok := v.(*IterV)
	if !ok || it.Pos == nil {
		return nil
	}
	s, _ := asStr(it.Over)
	i, ok := asInt(st.Load(it.Pos, nil))
	if !ok {
		return nil
	}
	if int(i) >= len(s) {
		return &TupleV{[]Value{boolConst(false), linConst(0), linConst(0)}}
	}
	r, n := utf8.DecodeRuneInString(s[i:])
	st.Set(it.Pos, nil, linConst(i+int64(n)))
	return &TupleV{[]Value{boolConst(true), linConst(i), linConst(int64(r))}}
}

// textHooks evaluates library functions on texts of known content.
func (ex *Engine) textHooks() {
	ex.Text = true
	one := func(f func(s string) []Value) Hook {
		return func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			s, ok := ex.textOf(st, a[0])
			if !ok {
				panic(tooComplex{"call with arguments which are not known"})
			}
			return []Outcome{{St: st, Ret: f(s)}}
		}
	}
	num := func(f func(k int64) Value) Hook {
		return func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			k, ok := asInt(a[0])
			if !ok {
				panic(tooComplex{"call with arguments which are not known"})
			}
			return []Outcome{{St: st, Ret: []Value{f(k)}}}
		}
	}
	two := func(f func(s, t string) Value) Hook {
		return func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			s, ok1 := ex.textOf(st, a[0])
			t, ok2 := ex.textOf(st, a[1])
			if !ok1 || !ok2 {
				panic(tooComplex{"call with arguments which are not known"})
			}
			return []Outcome{{St: st, Ret: []Value{f(s, t)}}}
		}
	}
	i := func(n int) Value { return linConst(int64(n)) }
	dec := func(f func(s string) (rune, int)) Hook {
		return one(func(s string) []Value { r, n := f(s); return []Value{i(int(r)), i(n)} })
	}
	for _, sfx := range []string{"", "InString"} {
		ex.Hooks["unicode/utf8.DecodeRune"+sfx] = dec(utf8.DecodeRuneInString)
		ex.Hooks["unicode/utf8.DecodeLastRune"+sfx] = dec(utf8.DecodeLastRuneInString)
		ex.Hooks["unicode/utf8.RuneCount"+sfx] = one(func(s string) []Value { return []Value{i(utf8.RuneCountInString(s))} })
		ex.Hooks["unicode/utf8.FullRune"+sfx] = one(func(s string) []Value { return []Value{boolConst(utf8.FullRuneInString(s))} })
	}
	valid := one(func(s string) []Value { return []Value{boolConst(utf8.ValidString(s))} })
	ex.Hooks["unicode/utf8.Valid"], ex.Hooks["unicode/utf8.ValidString"] = valid, valid
	ex.Hooks["unicode/utf8.RuneLen"] = num(func(k int64) Value { return i(utf8.RuneLen(rune(k))) })
	ex.Hooks["unicode/utf8.RuneStart"] = num(func(k int64) Value { return boolConst(utf8.RuneStart(byte(k))) })
	ex.Hooks["unicode/utf8.ValidRune"] = num(func(k int64) Value { return boolConst(utf8.ValidRune(rune(k))) })
	for _, pkg := range []string{"strings", "bytes"} {
		ex.Hooks[pkg+".HasPrefix"] = two(func(s, t string) Value { return boolConst(strings.HasPrefix(s, t)) })
		ex.Hooks[pkg+".HasSuffix"] = two(func(s, t string) Value { return boolConst(strings.HasSuffix(s, t)) })
		ex.Hooks[pkg+".Contains"] = two(func(s, t string) Value { return boolConst(strings.Contains(s, t)) })
		ex.Hooks[pkg+".Index"] = two(func(s, t string) Value { return i(strings.Index(s, t)) })
		ex.Hooks[pkg+".Equal"] = two(func(s, t string) Value { return boolConst(s == t) })
		for n, f := range map[string]func(string, rune) Value{
			"ContainsRune": func(s string, r rune) Value { return boolConst(strings.ContainsRune(s, r)) },
			"IndexRune":    func(s string, r rune) Value { return i(strings.IndexRune(s, r)) },
			"IndexByte":    func(s string, r rune) Value { return i(strings.IndexByte(s, byte(r))) },
		} {
			f := f
			ex.Hooks[pkg+"."+n] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
				s, ok1 := ex.textOf(st, a[0])
				k, ok2 := asInt(a[1])
				if !ok1 || !ok2 {
					panic(tooComplex{"call with arguments which are not known"})
				}
				return []Outcome{{St: st, Ret: []Value{f(s, rune(k))}}}
			}
		}
	}
	ex.Hooks["unicode/utf8.AppendRune"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		s, ok1 := ex.textOf(st, a[0])
		k, ok2 := asInt(a[1])
		if !ok1 || !ok2 {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return []Outcome{{St: st, Ret: []Value{ex.bytesOf(st, s+string(rune(k)))}}}
	}
	ex.Hooks["unicode/utf8.EncodeRune"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		d, ok1 := a[0].(*SliceV)
		k, ok2 := asInt(a[1])
		if !ok1 || !ok2 {
			panic(tooComplex{"call with arguments which are not known"})
		}
		s := string(rune(k))
		if n, ok := d.Len.Const(); !ok {
			panic(tooComplex{"call with arguments which are not known"})
		} else if int(n) < len(s) {
			return []Outcome{{St: st, Panic: true, PanicI: site, PanicV: strConst("index out of range")}}
		}
		for j := 0; j < len(s); j++ {
			st.Set(d.O, appendPE(d.Path, pe{Field: -1, Idx: linAdd(d.Off, linConst(int64(j)), 1)}), linConst(int64(s[j])))
		}
		return []Outcome{{St: st, Ret: []Value{i(len(s))}}}
	}
}
