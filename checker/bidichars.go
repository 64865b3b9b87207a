package main

// The environment of the bidi scanner: characters, given by a sample of each
// class, which are read one by one.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type bchar struct {
	name string
	r    rune
	raw  string // class in x/text
	cls  int    // class after S, WS and ON have been unified
	br   int    // bracket type: opening positive, closing negative
	psep bool
	pair rune // the other bracket
}

func (c *bchar) size() int64 { return int64(utf8.RuneLen(c.r)) }

var bchars = []*bchar{
	{"L", 'a', "L", bL, 0, false, 0},
	{"R", 0x5d0, "R", bR, 0, false, 0},
	{"AL", 0x639, "AL", bAL, 0, false, 0},
	{"EN", '1', "EN", bEN, 0, false, 0},
	{"AN", 0x663, "AN", bAN, 0, false, 0},
	{"ES", '+', "ES", bES, 0, false, 0},
	{"ET", '$', "ET", bET, 0, false, 0},
	{"CS", ',', "CS", bCS, 0, false, 0},
	{"WS", ' ', "WS", bNI, 0, false, 0},
	{"S", '\t', "S", bNI, 0, false, 0},
	{"ON", '!', "ON", bNI, 0, false, 0},
	{"NSM", 0x300, "NSM", bNSM, 0, false, 0},
	{"(", '(', "ON", bBO, 1, false, 0},
	{")", ')', "ON", bBC, -1, false, 0},
	{"[", '[', "ON", bBO, 2, false, 0},
	{"]", ']', "ON", bBC, -2, false, 0},
	{"U+2329", 0x2329, "ON", bBO, 3, false, 0},
	{"U+3009", 0x3009, "ON", bBC, -3, false, 0},
	{"U+3008", 0x3008, "ON", bBO, 3, false, 0},
	{"U+232A", 0x232a, "ON", bBC, -3, false, 0},
	{"LRI", 0x2066, "LRI", bLRI, 0, false, 0},
	{"RLI", 0x2067, "RLI", bRLI, 0, false, 0},
	{"PDI", 0x2069, "PDI", bPDI, 0, false, 0},
	{"B", 0x2029, "B", bEOF, 0, true, 0},
}

// in test mode
var tchars = []*bchar{
	{"A", 'A', "L", bL, 0, false, 0},
	{"A=R", 'A', "L", bR, 0, false, 0},
	{">", '>', "ON", bNI, 0, false, 0},
	{">=LRI", '>', "ON", bLRI, 0, false, 0},
	{"<=RLI", '<', "ON", bRLI, 0, false, 0},
	{"==PDI", '=', "ON", bPDI, 0, false, 0},
}

// Bidi_Paired_Bracket of Unicode 13
var bracketTable = [][2]rune{
	{0x28, 0x29}, {0x5b, 0x5d}, {0x7b, 0x7d}, {0xf3a, 0xf3b}, {0xf3c, 0xf3d}, {0x169b, 0x169c}, {0x2045, 0x2046}, {0x207d, 0x207e},
	{0x208d, 0x208e}, {0x2308, 0x2309}, {0x230a, 0x230b}, {0x2329, 0x232a}, {0x2768, 0x2769}, {0x276a, 0x276b}, {0x276c, 0x276d}, {0x276e, 0x276f},
	{0x2770, 0x2771}, {0x2772, 0x2773}, {0x2774, 0x2775}, {0x27c5, 0x27c6}, {0x27e6, 0x27e7}, {0x27e8, 0x27e9}, {0x27ea, 0x27eb}, {0x27ec, 0x27ed},
	{0x27ee, 0x27ef}, {0x2983, 0x2984}, {0x2985, 0x2986}, {0x2987, 0x2988}, {0x2989, 0x298a}, {0x298b, 0x298c}, {0x298d, 0x2990}, {0x298f, 0x298e},
	{0x2991, 0x2992}, {0x2993, 0x2994}, {0x2995, 0x2996}, {0x2997, 0x2998}, {0x29d8, 0x29d9}, {0x29da, 0x29db}, {0x29fc, 0x29fd}, {0x2e22, 0x2e23},
	{0x2e24, 0x2e25}, {0x2e26, 0x2e27}, {0x2e28, 0x2e29}, {0x3008, 0x3009}, {0x300a, 0x300b}, {0x300c, 0x300d}, {0x300e, 0x300f}, {0x3010, 0x3011},
	{0x3014, 0x3015}, {0x3016, 0x3017}, {0x3018, 0x3019}, {0x301a, 0x301b}, {0xfe59, 0xfe5a}, {0xfe5b, 0xfe5c}, {0xfe5d, 0xfe5e}, {0xff08, 0xff09},
	{0xff3b, 0xff3d}, {0xff5b, 0xff5d}, {0xff5f, 0xff60}, {0xff62, 0xff63},
}

// brackChars are the brackets of the table; U+2329 and U+232A are canonically
// equivalent to U+3008 and U+3009.
var brackChars = func() (cs []*bchar) {
	id := map[rune]int{'(': 1, '[': 2, 0x2329: 3, 0x3008: 3}
	for i, p := range bracketTable {
		b, ok := id[p[0]]
		if !ok {
			b = 10 + i
		}
		cs = append(cs, &bchar{fmt.Sprintf("%U", p[0]), p[0], "ON", bBO, b, false, p[1]},
			&bchar{fmt.Sprintf("%U", p[1]), p[1], "ON", bBC, -b, false, p[0]})
	}
	return cs
}()

// extraChars are further characters used by checks.
var extraChars []*bchar

func brackByRune(r rune) *bchar {
	for _, c := range brackChars {
		if c.r == r {
			return c
		}
	}
	return nil
}

func bcharByRune(r int64) *bchar {
	for _, c := range tchars {
		if int64(c.r) == r {
			return c
		}
	}
	for _, c := range bchars {
		if int64(c.r) == r {
			return c
		}
	}
	for _, c := range extraChars {
		if int64(c.r) == r {
			return c
		}
	}
	return brackByRune(rune(r))
}

// charEnv hooks the ways of reading and classifying a character. cur tells
// the character which has been read last; suspend is called where the next
// one is read.
type charEnv struct {
	p        *Prog
	m        *Machine
	raw      map[string]int64 // classes of x/text
	cur      func(st *State) *bchar
	fail     func(st *State, kind, pos, msg string)
	markup   string // name of the markup function, if any
	onMarkup func(ex *Engine, fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.Call, pos Value) []Outcome
}

func newCharEnv(p *Prog, m *Machine) (*charEnv, error) {
	e := &charEnv{p: p, m: m, raw: map[string]int64{}}
	sp := p.SPkg["bidi"]
	if sp == nil {
		return nil, fmt.Errorf("package bidi is missing")
	}
	var xt *types.Package
	for _, i := range sp.Pkg.Imports() {
		if i.Path() == "golang.org/x/text/unicode/bidi" {
			xt = i
		}
	}
	if xt == nil {
		return nil, fmt.Errorf("package bidi does not use the classes of x/text")
	}
	for _, c := range bchars {
		v, ok := (&bidiModel{}).num(xt, c.raw)
		if !ok {
			return nil, fmt.Errorf("class %s is missing in x/text", c.raw)
		}
		e.raw[c.raw] = v
	}
	return e, nil
}

const (
	cScan = "(*bufio.Scanner).Scan"
	cRune = "(*bufio.Reader).ReadRune"
)

func (e *charEnv) setup(ex *Engine) {
	ex.CallPoint = func(fr *frame, st *State, blk *ssa.BasicBlock, i int, x *ssa.Call) []Outcome {
		if f := x.Common().StaticCallee(); f != nil {
			if f.Pkg == nil || f.Pkg.Pkg.Path() != "bufio" {
				return nil
			}
			switch n := f.String(); n {
			case cScan, cRune:
				return e.m.Suspend(ex, fr, st, blk, i, x, n)
			case "(*bufio.Scanner).Split":
				if g, ok := ex.val(fr, x.Common().Args[1]).(*FuncV); ok {
					switch g.Fn.String() {
					case "bufio.ScanRunes":
					case "bufio.ScanBytes", "bufio.ScanLines", "bufio.ScanWords":
						e.fail(st, "class", e.p.Pos(x.Pos()), "the text is not read character by character but with "+g.Fn.String())
						return []Outcome{}
					default:
						panic(tooComplex{"a split function of its own is used for reading the text"})
					}
				}
			}
			return nil
		}
		if e.markup != "" && !x.Common().IsInvoke() {
			if s, ok := ex.val(fr, x.Common().Value).(*Sym); ok && s.Name == e.markup {
				return e.onMarkup(ex, fr, st, blk, i, x, ex.val(fr, x.Common().Args[0]))
			}
		}
		return nil
	}
	read := func(f func(ex *Engine, st *State, c *bchar, t *types.Tuple) []Value) Hook {
		return func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
			c := e.cur(st)
			if c == nil {
				panic(tooComplex{"the text is accessed before it has been read"})
			}
			return []Outcome{{St: st, Ret: f(ex, st, c, site.Common().Signature().Results())}}
		}
	}
	ex.Hooks["(*bufio.Scanner).Bytes"] = read(func(ex *Engine, st *State, c *bchar, t *types.Tuple) []Value {
		o := ex.NewArr("rune bytes", types.Typ[types.Byte], false)
		for i, b := range []byte(string(c.r)) {
			st.Set(o, []pe{{Field: -1, Idx: linConst(int64(i))}}, linConst(int64(b)))
		}
		n := linConst(c.size())
		return []Value{&SliceV{O: o, Off: linConst(0), Len: n, Cap: n, T: t.At(0).Type()}}
	})
	ex.Hooks["(*bufio.Scanner).Text"] = read(func(ex *Engine, st *State, c *bchar, t *types.Tuple) []Value {
		return []Value{strConst(string(c.r))}
	})
	decode := read(func(ex *Engine, st *State, c *bchar, t *types.Tuple) []Value {
		return []Value{linConst(int64(c.r)), linConst(c.size())}
	})
	ex.Hooks["unicode/utf8.DecodeRune"] = decode
	ex.Hooks["unicode/utf8.DecodeRuneInString"] = decode
	ex.Hooks["unicode/utf8.RuneLen"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
		if r, ok := asInt(args[0]); ok {
			return []Outcome{{St: st, Ret: []Value{linConst(int64(utf8.RuneLen(rune(r))))}}}
		}
		panic(tooComplex{"utf8.RuneLen of an unknown character"})
	}
	ex.Hooks["unicode/utf8.ValidRune"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
		return []Outcome{{St: st, Ret: []Value{boolConst(true)}}}
	}
	ex.Hooks["unicode.IsUpper"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
		if r, ok := asInt(args[0]); ok {
			return []Outcome{{St: st, Ret: []Value{boolConst(unicode.IsUpper(rune(r)))}}}
		}
		panic(tooComplex{"unicode.IsUpper of an unknown character"})
	}
	props := func(r rune, t *types.Tuple) []Value {
		return []Value{&Sym{fmt.Sprintf("props:%d", r), t.At(0).Type()}, linConst(int64(utf8.RuneLen(r)))}
	}
	look := read(func(ex *Engine, st *State, c *bchar, t *types.Tuple) []Value { return props(c.r, t) })
	pk := "golang.org/x/text/unicode/bidi."
	ex.Hooks[pk+"Lookup"] = look
	ex.Hooks[pk+"LookupString"] = look
	ex.Hooks[pk+"LookupRune"] = func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
		r, ok := asInt(args[0])
		if !ok {
			panic(tooComplex{"properties of an unknown character"})
		}
		return []Outcome{{St: st, Ret: props(rune(r), site.Common().Signature().Results())}}
	}
	prop := func(f func(c *bchar) Value) Hook {
		return func(ex *Engine, st *State, site ssa.CallInstruction, args []Value) []Outcome {
			s, ok := args[0].(*Sym)
			if ok && strings.HasPrefix(s.Name, "props:") {
				var r int64
				fmt.Sscanf(s.Name[6:], "%d", &r)
				if c := bcharByRune(r); c != nil {
					return []Outcome{{St: st, Ret: []Value{f(c)}}}
				}
			}
			panic(tooComplex{"properties of an unknown character: " + args[0].Key()})
		}
	}
	pt := "(" + pk + "Properties)."
	ex.Hooks[pt+"Class"] = prop(func(c *bchar) Value { return linConst(e.raw[c.raw]) })
	ex.Hooks[pt+"IsBracket"] = prop(func(c *bchar) Value { return boolConst(c.br != 0) })
	ex.Hooks[pt+"IsOpeningBracket"] = prop(func(c *bchar) Value { return boolConst(c.br > 0) })
}

// readResult is the value of a read: of the character c, or of the end of the text.
func (e *charEnv) readResult(ex *Engine, pt string, c *bchar) Value {
	if pt == cScan {
		return boolConst(c != nil)
	}
	sp := e.p.SPkg["io"]
	errT := types.Universe.Lookup("error").Type()
	if c != nil {
		return &TupleV{[]Value{linConst(int64(c.r)), linConst(c.size()), &Nil{errT}}}
	}
	var eof Value = &Sym{"io.EOF", errT}
	_ = sp
	return &TupleV{[]Value{linConst(0), linConst(0), eof}}
}
