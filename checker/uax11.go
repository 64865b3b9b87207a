package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// U01: display width. Width is interpreted for a grapheme which starts with an
// unknown code point of a known East Asian Width; the resulting conditions are
// evaluated for all code points. Then Width and StringWidth are interpreted
// for sample texts.

// Values of width.Kind.
var widthKinds = []string{"Neutral", "EastAsianAmbiguous", "EastAsianWide", "EastAsianNarrow", "EastAsianFullwidth", "EastAsianHalfwidth"}

// East Asian Width of sample characters
var sampleKinds = map[rune]int{'a': 3, '1': 3, '#': 3, ' ': 3, '\u05d0': 0, '\u00e9': 1, '\u03b1': 1, '\u00a7': 1, '\u4e16': 2, '\u3042': 2,
	'\uff41': 4, '\uff71': 5, '\U0001f600': 2, '\u2764': 0, '\u263a': 0, '\u00a9': 0, '\u231a': 2, '\U0001f1e9': 0, '\u0301': 1, '\ufe0f': 1, '\u200b': 0,
	'\u200d': 0, '\u20e3': 0, '\ufffd': 1, '\U00020000': 2}

type widthScenario struct {
	name         string
	global       string // a context of the package
	force        bool
	script       string // "" is the zero value
	locale       string
	localeScript string
	lang         string // name of the language
	match        int    // confidence of the match with an East Asian language
	env          int    // context from the environment: 1 with locale, 2 with an error
	null         bool
	wide         bool
}

type widthCheck struct {
	*classModel
	c                *textCheck
	sc               *widthScenario
	kind             int
	vs               bool
	symbolic         bool
	emoji, emojiPres runeSet
	known            runeSet // code points the reference speaks about
	exempt           runeSet
	base             *State
	langs            []string // languages of the matcher
}

// supports tells if the matcher knows a language.
func (w *widthCheck) supports(lang, locale string) bool {
	if lang == "" || len(w.langs) == 0 {
		return true
	}
	for _, l := range w.langs {
		if !strings.HasPrefix(l, "tag:") && !strings.Contains(l, "language.") {
			return true // cannot tell
		}
		if strings.HasSuffix(l, "language."+lang) || l == "tag:"+locale || strings.HasPrefix(l, "tag:"+locale[:2]) {
			return true
		}
	}
	return false
}

var zeroWidth = []rune{0x200b, 0x200c, 0x200d, 0x2060, 0xfeff}

// symName is the name of an unknown value, which may have been taken apart to
// its fields.
func symName(v Value) string {
	switch x := v.(type) {
	case *Sym:
		return x.Name
	case *StructV:
		if len(x.F) > 0 {
			s := strings.Trim(x.F[0].Key(), "()")
			if i := strings.LastIndexByte(s, '.'); i >= 0 {
				return s[:i]
			}
		}
	}
	return ""
}

func (w *widthCheck) hooks() {
	ex := w.ex
	ex.textHooks()
	one := func(st *State, v ...Value) []Outcome { return []Outcome{{St: st, Ret: v}} }
	isText := func(v Value) bool { // the unknown grapheme
		if t, ok := v.(*Term); ok && len(t.Args) == 1 && strings.HasPrefix(t.Op, "conv:") {
			v = t.Args[0]
		}
		s, ok := v.(*SliceV)
		return ok && s.O.Name == "grapheme" && s.Off.Key() == "0" && s.Len.Key() == linSym("len").Key()
	}
	override := func(name string, f func(st *State, a []Value) []Value) {
		old := ex.Hooks[name]
		ex.Hooks[name] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			if w.symbolic && len(a) > 0 && isText(a[0]) {
				r := f(st, a)
				if r == nil {
					panic(tooComplex{"call with arguments which are not known"})
				}
				return one(st, r...)
			}
			if old == nil {
				panic(tooComplex{"call with arguments which are not known"})
			}
			return old(ex, st, site, a)
		}
	}
	for _, s := range []string{"", "InString"} {
		override("unicode/utf8.DecodeRune"+s, func(st *State, a []Value) []Value { return []Value{linSym("r"), linSym("size")} })
	}
	if f := w.p.Func("", "PositionOfFirstLegalRune"); f != nil {
		name := ex.fnName(f)
		ex.Hooks[name] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			if w.symbolic && isText(a[0]) {
				return one(st, linConst(0), strConst(""))
			}
			s, ok := ex.textOf(st, a[0])
			if !ok {
				panic(tooComplex{"call with arguments which are not known"})
			}
			k := legalStart(s)
			if k < 0 {
				return one(st, linConst(-1), strConst(s))
			}
			return one(st, linConst(int64(k)), strConst(s[:k]))
		}
	}
	for _, pkg := range []string{"bytes", "strings"} {
		has := func(st *State, a []Value) Value {
			if s, ok := ex.textOf(st, a[1]); ok && s == "\ufe0f" {
				return boolConst(w.vs)
			}
			if k, ok := asInt(a[1]); ok && k == 0xfe0f {
				return boolConst(w.vs)
			}
			return nil
		}
		for _, n := range []string{"Contains", "ContainsRune"} {
			override(pkg+"."+n, func(st *State, a []Value) []Value {
				if v := has(st, a); v != nil {
					return []Value{v}
				}
				return nil
			})
		}
		for _, n := range []string{"Index", "IndexRune"} {
			override(pkg+"."+n, func(st *State, a []Value) []Value {
				v := has(st, a)
				if v == nil {
					return nil
				}
				if !w.vs {
					return []Value{linConst(-1)}
				}
				return []Value{linSym("size")} // behind the first code point
			})
		}
	}
	is := ex.Hooks["unicode.Is"]
	ex.Hooks["unicode.Is"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		if k, ok := asInt(a[1]); ok {
			if s := w.tableOf(st, a[0]); s != nil && k < maxRune {
				return one(st, boolConst(k >= 0 && s.has(k)))
			}
		}
		return is(ex, st, site, a)
	}
	in := ex.Hooks["unicode.In"]
	ex.Hooks["unicode.In"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		outs := in(ex, st, site, a)
		t, ok := outs[0].Ret[0].(*Term)
		if k, isC := asInt(a[0]); isC && ok && k < maxRune {
			if s := w.tableOf(st, t.Args[0]); s != nil {
				return one(st, boolConst(k >= 0 && s.has(k)))
			}
		}
		return outs
	}

	const W = "golang.org/x/text/width."
	kindOf := func(k int64) []Value {
		i, ok := sampleKinds[rune(k)]
		if !ok {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return []Value{&Sym{fmt.Sprintf("props:%d", i), nil}}
	}
	ex.Hooks[W+"LookupRune"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		if k, ok := asInt(a[0]); ok {
			return one(st, kindOf(k)...)
		}
		if a[0].Key() != linSym("r").Key() {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return one(st, &Sym{fmt.Sprintf("props:%d", w.kind), nil})
	}
	for _, n := range []string{"Lookup", "LookupString"} {
		ex.Hooks[W+n] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			if w.symbolic && isText(a[0]) {
				return one(st, &Sym{fmt.Sprintf("props:%d", w.kind), nil}, linSym("size"))
			}
			s, ok := ex.textOf(st, a[0])
			if !ok || s == "" {
				panic(tooComplex{"call with arguments which are not known"})
			}
			r := []rune(s)[0]
			return one(st, kindOf(int64(r))[0], linConst(int64(len(string(r)))))
		}
	}
	ex.Hooks["("+W+"Properties).Kind"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		var k int64
		if n, _ := fmt.Sscanf(symName(a[0]), "props:%d", &k); n != 1 {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return one(st, linConst(k))
	}

	const L = "golang.org/x/text/language."
	script := func(s string) Value { return &Sym{"script:" + s, nil} }
	scriptName := func(v Value) (string, bool) {
		if s := symName(v); strings.HasPrefix(s, "script:") {
			return strings.TrimPrefix(s, "script:"), true
		}
		if x, ok := v.(*StructV); ok && x.Key() == w.ex.Zero(x.T).Key() {
			return "Zzzz", true
		}
		return "", false
	}
	ex.Hooks[L+"MustParseScript"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		s, ok := asStr(a[0])
		if !ok {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return one(st, script(s))
	}
	ex.Hooks[L+"ParseScript"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		s, ok := asStr(a[0])
		if !ok {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return one(st, script(s), &Nil{})
	}
	ex.Hooks["("+L+"Script).String"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		s, ok := scriptName(a[0])
		if !ok {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return one(st, strConst(s))
	}
	tag := func(v Value) string {
		s, ok := asStr(v)
		if !ok {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return s
	}
	for _, n := range []string{"Make", "MustParse"} {
		ex.Hooks[L+n] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
			return one(st, &Sym{"tag:" + tag(a[0]), nil})
		}
	}
	ex.Hooks[L+"Parse"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return one(st, &Sym{"tag:" + tag(a[0]), nil}, &Nil{})
	}
	isLocale := func(v Value) bool {
		s := symName(v)
		if !strings.HasPrefix(s, "tag:") {
			panic(tooComplex{"language tag " + v.Key()})
		}
		return w.sc != nil && s == "tag:"+w.sc.locale
	}
	ex.Hooks["("+L+"Tag).Script"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		if isLocale(a[0]) {
			if w.sc.localeScript == "" {
				return one(st, script("Zzzz"), linConst(0))
			}
			return one(st, script(w.sc.localeScript), linConst(3))
		}
		if symName(a[0]) == "tag:en-US" {
			return one(st, script("Latn"), linConst(3))
		}
		panic(tooComplex{"call with arguments which are not known"})
	}
	ex.Hooks[L+"NewMatcher"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		w.langs = nil
		if s, ok := a[0].(*SliceV); ok {
			if k, c := s.Len.Const(); c {
				for i := int64(0); i < k; i++ {
					w.langs = append(w.langs, symName(st.Load(s.O, appendPE(s.Path, pe{Field: -1, Idx: linAdd(s.Off, linConst(i), 1)}))))
				}
			}
		}
		return one(st, &Sym{"matcher", nil})
	}
	match := func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		var t Value
		if s, ok := a[1].(*SliceV); ok { // variadic
			if k, c := s.Len.Const(); !c || k != 1 {
				panic(tooComplex{"call with arguments which are not known"})
			}
			t = st.Load(s.O, appendPE(s.Path, pe{Field: -1, Idx: s.Off}))
		} else {
			t = a[1]
		}
		conf := 0
		if isLocale(t) {
			if conf = w.sc.match; !w.supports(w.sc.lang, w.sc.locale) {
				conf = 0
			}
		} else if symName(t) != "tag:en-US" {
			panic(tooComplex{"call with arguments which are not known"})
		}
		return one(st, &Sym{"tag:matched", nil}, linConst(0), linConst(int64(conf)))
	}
	ex.Hooks["invoke:language.Matcher.Match"] = match
	ex.Hooks["github.com/cloudfoundry/jibber_jabber.DetectIETF"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		if w.sc == nil || w.sc.env == 0 {
			panic(tooComplex{"call with arguments which are not known"})
		}
		if w.sc.env == 2 {
			return one(st, strConst(""), &Sym{"global-error:no locale", nil})
		}
		return one(st, strConst(w.sc.locale), &Nil{})
	}
	ex.Hooks["invoke:error.Error"] = func(ex *Engine, st *State, site ssa.CallInstruction, a []Value) []Outcome {
		return one(st, strConst("error"))
	}
}

// context builds the context of a scenario.
func (w *widthCheck) context(st *State, sc *widthScenario, t types.Type) (Value, *State, bool) {
	w.sc = sc
	if sc.null {
		return &Nil{t}, st, true
	}
	if sc.global != "" {
		g := w.p.SPkg["uax11"].Var(sc.global)
		if g == nil {
			w.r.Fail("missing/"+sc.global, "uax11/width.go", "variable uax11.%s is missing", sc.global)
			return nil, st, false
		}
		return st.Load(w.ex.global(g), nil), st, true
	}
	if sc.env != 0 {
		f := w.p.Func("uax11", "ContextFromEnvironment")
		if f == nil {
			w.r.Fail("missing/ContextFromEnvironment", "uax11/width.go", "function uax11.ContextFromEnvironment is missing")
			return nil, st, false
		}
		o := w.c.run(f, st, sc.name)
		if o == nil {
			return nil, st, false
		}
		if !o.Returns() {
			w.r.Fail("panic/ContextFromEnvironment", w.p.Pos(f.Pos()), "ContextFromEnvironment %s (%s)", w.c.panicText(o), sc.name)
			return nil, st, false
		}
		o.St.trace = nil
		return o.Ret[0], o.St, true
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		w.r.Undecided("context", "uax11", "contexts are no pointers")
		return nil, st, false
	}
	str, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		w.r.Undecided("context", "uax11", "contexts are no structs")
		return nil, st, false
	}
	o := w.ex.NewObj("context", pt.Elem(), false)
	st.Set(o, nil, w.ex.Zero(pt.Elem()))
	set := map[string]Value{}
	if sc.force {
		set["ForceEastAsian"] = boolConst(true)
	}
	if sc.script != "" {
		set["Script"] = &Sym{"script:" + sc.script, nil}
	}
	if sc.locale != "" {
		set["Locale"] = strConst(sc.locale)
	}
	for i := 0; i < str.NumFields(); i++ {
		if v := set[str.Field(i).Name()]; v != nil {
			st.Set(o, []pe{{Field: i}}, v)
			delete(set, str.Field(i).Name())
		}
	}
	for n := range set {
		w.r.Fail("missing/Context."+n, "uax11/width.go", "field %s of uax11.Context is missing", n)
		return nil, st, false
	}
	return &Ptr{O: o}, st, true
}

// want is the width of a grapheme, or -1 if nothing is said about it.
func (w *widthCheck) want(r int64, kind int, vs, wide bool) int64 {
	for _, z := range zeroWidth {
		if r == int64(z) {
			return 0
		}
	}
	if w.exempt.has(r) {
		return -1
	}
	if w.emojiPres.has(r) || vs && w.emoji.has(r) {
		return 2
	}
	if kind == 2 || kind == 4 || wide && kind <= 1 {
		return 2
	}
	if !w.known.has(r) {
		return -1
	}
	return 1
}

var widthScenarios = func() []widthScenario {
	l := []widthScenario{
		{name: "no context", null: true},
		{name: "empty context"},
		{name: "LatinContext", global: "LatinContext"},
		{name: "EastAsianContext", global: "EastAsianContext", wide: true},
		{name: "ForceEastAsian", force: true, wide: true},
		{name: "ForceEastAsian, Latin script and locale", force: true, script: "Latn", locale: "en-US", localeScript: "Latn", wide: true},
		{name: "locale en", locale: "en", localeScript: "Latn"},
		{name: "locale ru", locale: "ru", localeScript: "Cyrl"},
		{name: "locale zh", locale: "zh", lang: "Chinese", localeScript: "Hans", match: 3, wide: true},
		{name: "locale zh-TW", locale: "zh-TW", lang: "Chinese", localeScript: "Hant", match: 3, wide: true},
		{name: "locale ja", locale: "ja", lang: "Japanese", localeScript: "Jpan", match: 3, wide: true},
		{name: "locale ko", locale: "ko", lang: "Korean", localeScript: "Kore", match: 3, wide: true},
		{name: "locale vi", locale: "vi", lang: "Vietnamese", localeScript: "Latn", match: 3, wide: true},
		{name: "locale th", locale: "th", lang: "Thai", localeScript: "Thai", match: 3, wide: true},
		{name: "environment: locale en-GB", env: 1, locale: "en-GB", localeScript: "Latn"},
		{name: "environment: locale ja-JP", env: 1, locale: "ja-JP", lang: "Japanese", localeScript: "Jpan", match: 3, wide: true},
		{name: "environment: locale ko-KR, low confidence", env: 1, locale: "ko-KR", lang: "Korean", localeScript: "Kore", match: 1, wide: true},
		{name: "environment: no locale", env: 2},
	}
	for _, s := range []string{"Bopo", "Hanb", "Hani", "Hans", "Hant", "Hang", "Hira", "Kana", "Hrkt", "Jpan", "Kore"} {
		l = append(l, widthScenario{name: "script " + s, script: s, wide: true},
			widthScenario{name: "script " + s + ", locale en", script: s, locale: "en", localeScript: "Latn", wide: true})
	}
	for _, s := range []string{"Latn", "Cyrl", "Grek", "Arab", "Hebr"} {
		l = append(l, widthScenario{name: "script " + s, script: s})
	}
	return l
}()

func runWidth(p *Prog, r *Report) {
	ref := loadRef(r, "emoji.txt")
	m := newClassModel(p, r)
	if ref == nil || m == nil {
		return
	}
	w := &widthCheck{classModel: m, emoji: ref["Emoji"], emojiPres: ref["Emoji_Presentation"], exempt: newRuneSet()}
	if w.emoji == nil || w.emojiPres == nil {
		r.Undecided("reference", "emoji.txt", "no emoji")
		return
	}
	w.known = newRuneSet()
	for _, s := range ref {
		for i := range s {
			w.known[i] |= s[i]
		}
	}
	cf := setOf(stdTable("Cf"))
	for i := range cf {
		w.exempt[i] = cf[i]
	}
	w.exempt.add(0)
	w.exempt.add(0xfffd) // stands for an illegal beginning as well
	w.exempt.addRange(0xd800, 0xdfff)
	w.hooks()
	c := &textCheck{p: p, r: r, ex: m.ex, lim: 4000}
	w.c = c
	m.ex.OnIter = func(fr *frame, st *State, blk *ssa.BasicBlock, iter int) []Outcome {
		if iter > c.lim {
			c.diverged = true
			return []Outcome{{St: st, Panic: true, PanicV: strConst("no end")}}
		}
		return nil
	}
	c.stubSegmenter()
	for _, path := range []string{"emoji", "uax11"} {
		sp := p.SPkg[path]
		if sp == nil {
			r.Fail("missing/"+path, path, "package %s is missing", path)
			return
		}
		for _, nm := range memberNames(sp) {
			if g, ok := sp.Members[nm].(*ssa.Global); ok {
				m.ex.global(g).Sym = false
			}
		}
		f := sp.Func("init")
		m.ex.Opaque[f.String()] = false
		if !m.call(f) {
			return
		}
		m.ex.Opaque[f.String()] = true
	}
	fw, fs := p.Func("uax11", "Width"), p.Func("uax11", "StringWidth")
	if fw == nil || fs == nil {
		r.Fail("missing/Width", "uax11/width.go", "function Width or StringWidth is missing")
		return
	}
	for i, n := range widthKinds {
		if k, ok := p.constOf("golang.org/x/text/width", n); !ok || k != int64(i) {
			r.Undecided("kinds", "uax11", "constant width.%s has another value", n)
			return
		}
	}
	w.base = m.st.Clone()
	ctxT := fw.Params[1].Type()
	// 1. all code points
	w.symbolic = true
	m.symFn = map[string]func(r int64) int64{
		"grapheme[0]": func(r int64) int64 { return int64(string(rune(r))[0]) },
	}
	setups := []bool{false}
	var after *State
	if p.Func("emoji", "SetupEmojisClasses") != nil {
		// the client has set up the emoji classes before
		setups = append(setups, true)
		if !m.setup("emoji", "SetupEmojisClasses") {
			return
		}
		after = m.st
	}
	bad := map[string]int{}
all:
	for i := range widthScenarios {
		sc := &widthScenarios[i]
		for _, setup := range setups {
			m.st = w.base.Clone()
			if setup {
				m.st = after.Clone()
			} else if i > 3 && (r.Tier != "thorough" || i > 12) && after != nil {
				continue
			}
			ctx, st0, ok := w.context(m.st.Clone(), sc, ctxT)
			if !ok {
				continue
			}
			for kind := range widthKinds {
				for _, vs := range []bool{false, true} {
					if i > 8 && r.Tier != "thorough" && (vs || kind > 3) {
						continue
					}
					w.kind, w.vs = kind, vs
					st := st0.Clone()
					n := linSym("len")
					st.assume(le0(linAdd(linConst(1), n, -1)), true) // at least one byte
					o := m.ex.NewArr("grapheme", types.Typ[types.Uint8], true)
					g := &SliceV{O: o, Off: linConst(0), Len: n, Cap: n, T: fw.Params[0].Type()}
					m.ex.steps, m.ex.outs = 0, 0
					nf := len(r.Findings)
					got, ok := m.lookupIn(fw, st, []Value{g, ctx})
					if !ok {
						if len(r.Findings) > nf {
							return
						}
						if len(r.Undec) > 3 {
							break all
						}
						continue
					}
					r.N("scenarios (context, East Asian Width, variation selector)", 1)
					pos := p.Pos(fw.Pos())
					wrong := map[string]runeSet{}
					note := func(key string, c int64) {
						if wrong[key] == nil {
							wrong[key] = newRuneSet()
						}
						wrong[key].add(c)
					}
					for c := int64(1); c < maxRune; c++ {
						want := w.want(c, kind, vs, sc.wide)
						if want < 0 {
							if got[c] < 0 || got[c] > 2 {
								note(fmt.Sprintf("range\x00the width is %d", got[c]), c)
							}
						} else if got[c] != want {
							k := "width"
							if want == 0 {
								k = "zero"
							} else if w.emojiPres.has(c) || w.emoji.has(c) {
								k = "emoji"
							}
							note(fmt.Sprintf("%s\x00the width is %d, want %d", k, got[c], want), c)
						}
					}
					r.Check(len(wrong) == 0, "none", pos, "")
					if len(wrong) > 0 {
						r.Findings = r.Findings[:len(r.Findings)-1]
						r.Oblig--
					}
					for _, k := range sortedKeys(wrong) {
						x := strings.SplitN(k, "\x00", 2)
						if bad[x[0]]++; bad[x[0]] <= 3 {
							sel := ""
							if vs {
								sel = " with VS16"
							}
							r.Fail(x[0], pos, "%s, graphemes starting with %s%s of kind %s: %s", sc.name, rangesOf(wrong[k], 4), sel, widthKinds[kind], x[1])
						}
					}
				}
			}
		}
	}
	w.symbolic = false
	if after != nil && r.Tier != "thorough" {
		w.base = after
	}
	w.texts(fw, fs, ctxT)
	r.Engine(m.ex)
}

func (p *Prog) constOf(pkg, name string) (int64, bool) {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if c, ok := sp.Members[name].(*ssa.NamedConst); ok {
				return c.Value.Int64(), true
			}
		}
	}
	return 0, false
}

// texts interprets Width and StringWidth for sample texts.
func (w *widthCheck) texts(fw, fs *ssa.Function, ctxT types.Type) {
	p, r, c := w.p, w.r, w.c
	bad, und := map[string]int{}, len(r.Undec)
	fail := func(key, at, format string, a ...interface{}) {
		if bad[key]++; bad[key] <= 3 {
			r.Fail(key, at, format, a...)
		}
	}
	graphemes := []string{"a", "1", "#", "\u05d0", "\u00e9", "\u4e16", "\u3042", "\uff41", "\uff71", "\U0001f600", "\u2764", "\u2764\ufe0f", "\u00a9\ufe0f", "1\ufe0f\u20e3", "\u231a",
		"\U0001f1e9\U0001f1e9", "e\u0301", "\u4e16\ufe0f", "a\ufe0f", "\u200b", "\U0001f600\u200d\u2764\ufe0f", "\U00020000", "\u4e16\u0301", "\u2764\u200d\U0001f600", "\u263a\u0301"}
	sampleKinds['e'] = 3
	widthOf := func(g string, wide bool) int64 {
		rs := []rune(g)
		return w.want(int64(rs[0]), sampleKinds[rs[0]], strings.Contains(g, "\ufe0f"), wide)
	}
	fstr := p.Func("grapheme", "StringFromString")
	if fstr == nil {
		r.Fail("missing/StringFromString", "grapheme/string.go", "function grapheme.StringFromString is missing")
		return
	}
	call := func(f *ssa.Function, what string, st *State, args ...Value) (int64, *State, bool) {
		o := c.run(f, st, what, args...)
		if o == nil {
			return 0, nil, false
		}
		if !o.Returns() {
			fail("panic", p.Pos(f.Pos()), "%s %s", what, c.panicText(o))
			return 0, nil, false
		}
		k, ok := asInt(o.Ret[0])
		if !ok {
			r.Undecided("result", p.Pos(f.Pos()), "%s is %s", what, o.Ret[0].Key())
			return 0, nil, false
		}
		o.St.trace = nil
		return k, o.St, true
	}
	for i := range widthScenarios {
		sc := &widthScenarios[i]
		if i > 8 && r.Tier != "thorough" && i%4 != 0 {
			continue
		}
		if len(r.Undec) > und+3 {
			return
		}
		ctx, st0, ok := w.context(w.base.Clone(), sc, ctxT)
		if !ok {
			continue
		}
		check := func(t string, st *State, want int64) *State {
			r.N("texts", 1)
			var arg Value = &Nil{fw.Params[0].Type()}
			if t != "" {
				arg = w.ex.bytesOf(st, t)
			}
			k, st2, ok := call(fw, fmt.Sprintf("Width(%q), %s,", t, sc.name), st, arg, ctx)
			if !ok {
				return st
			}
			if want >= 0 && k != want {
				fail("grapheme", p.Pos(fw.Pos()), "the width of %q is %d, want %d (%s)", t, k, want, sc.name)
			} else if k < 0 || k > 2 {
				fail("grapheme", p.Pos(fw.Pos()), "the width of %q is %d (%s)", t, k, sc.name)
			} else {
				r.Check(true, "grapheme", p.Pos(fw.Pos()), "")
			}
			return st2
		}
		st := st0.Clone()
		for _, g := range graphemes { // one after the other, the context is used again
			st = check(g, st, widthOf(g, sc.wide))
		}
		check("", st0.Clone(), 0)
		for _, t := range []string{"\x80", "\xff", "\xe2\x82", "\x80a", "\xff\u4e16", "\xf0\x9f\x98"} {
			check(t, st0.Clone(), 0)
		}
		check("\ufffd", st0.Clone(), -1)
		// strings
		texts := [][]string{{}}
		for j, g := range graphemes {
			texts = append(texts, []string{g}, []string{g, graphemes[(j+1)%len(graphemes)]}, []string{graphemes[(j*7+3)%len(graphemes)], g, "a", g})
		}
		texts = append(texts, graphemes)
		if i%4 == 0 { // a long one
			var long []string
			for len(long) < 150 {
				long = append(long, graphemes[:20]...)
			}
			texts = append(texts, long)
		}
		for _, l := range texts {
			var cuts = map[int]bool{}
			n, want := 0, int64(0)
			for _, g := range l {
				n += len([]rune(g))
				cuts[n-1] = true
				want += widthOf(g, sc.wide)
			}
			t := strings.Join(l, "")
			c.cut = func(i int) bool { return cuts[i] }
			st := st0.Clone()
			o := c.run(fstr, st, fmt.Sprintf("grapheme string %q", t), strConst(t))
			if o == nil {
				return
			}
			if !o.Returns() {
				r.Undecided("string", p.Pos(fstr.Pos()), "no grapheme string for %q", t)
				return
			}
			o.St.trace = nil
			r.N("grapheme strings", 1)
			what := fmt.Sprintf("StringWidth(%q), %s,", t, sc.name)
			k, _, ok := call(fs, what, o.St, o.Ret[0], ctx)
			if !ok {
				continue
			}
			if k != want {
				fail("string", p.Pos(fs.Pos()), "the width of string %q is %d, the graphemes %q are %d wide (%s)", t, k, l, want, sc.name)
			} else {
				r.Check(true, "string", p.Pos(fs.Pos()), "")
			}
		}
	}
}
