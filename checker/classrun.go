package main

// setupFuncs interprets the exported setup functions and the constructor.
func (m *classModel) setup(pkg string, names ...string) bool {
	for _, n := range names {
		f := m.p.Func(pkg, n)
		if f == nil {
			m.r.Fail("anchor:"+n, pkg, "the exported function %s.%s does not exist", pkg, n)
			return false
		}
		m.r.Func(f.String())
		var args []Value
		for i := 0; i < f.Signature.Params().Len(); i++ {
			args = append(args, linConst(1))
		}
		if !m.call(f, args...) {
			return false
		}
	}
	return true
}

func classConst(p *Prog, pkg, other string) func(string) (int64, bool) {
	return func(c string) (int64, bool) {
		if c == "Other" {
			return p.intConst(pkg, other)
		}
		return p.intConst(pkg, c+"Class")
	}
}

func without(s runeSet, c int64) runeSet {
	t := append(newRuneSet()[:0], s...)
	t[c>>6] &^= 1 << uint(c&63)
	return t
}

func complement(s runeSet, among map[string]runeSet) runeSet {
	t := newRuneSet()
	for _, x := range among {
		for i := range t {
			t[i] |= x[i]
		}
	}
	for i := range t {
		t[i] &^= s[i]
	}
	return t
}

// loadRef reads a reference and takes out code point 0, which stands for end
// of text in this library.
func loadRef(r *Report, name string) map[string]runeSet {
	ref, err := refClasses(name)
	if err != nil || len(ref) == 0 {
		r.Undecided("reference", name, "%v", err)
		return nil
	}
	for n := range ref {
		ref[n] = without(ref[n], 0)
	}
	return ref
}

func runC01(p *Prog, r *Report) {
	const pkg = "uax29"
	ref := loadRef(r, "word.txt")
	m := newClassModel(p, r, "emoji", pkg)
	if ref == nil || m == nil {
		return
	}
	if !m.setup(pkg, "SetupUAX29Classes") {
		return
	}
	defer r.Engine(m.ex)
	m.classify(pkg, "ClassForRune", "CodePointClassFor", "WordBreaker", "NewWordBreaker", "Other", "word", ref)
}

func runC02(p *Prog, r *Report) {
	const pkg = "grapheme"
	ref := loadRef(r, "grapheme.txt")
	m := newClassModel(p, r, "emoji", pkg)
	if ref == nil || m == nil {
		return
	}
	if !m.setup(pkg, "SetupGraphemeClasses") {
		return
	}
	defer r.Engine(m.ex)
	ref["Other"] = without(ref["Other"], 0xfffd)
	m.classify(pkg, "ClassForRune", "CodePointClassFor", "Breaker", "NewBreaker", "Any", "grapheme", ref)
	if f := p.Func(pkg, "ClassForRune"); f != nil {
		if got, ok := m.lookup(f, nil); ok {
			if v, ok := p.intConst(pkg, "Any"); ok {
				key := "grapheme:U+FFFD"
				if cc, _ := p.intConst(pkg, "ControlClass"); got[0xfffd] != cc {
					key += ":not-Control"
				}
				r.Check(got[0xfffd] == v, key, p.Pos(f.Pos()), "U+FFFD REPLACEMENT CHARACTER is classified as %d, its class is Any", got[0xfffd])
			}
		}
	}
}

// classify compares the two lookup functions and the exported tables.
func (m *classModel) classify(pkg, forRune, method, typ, ctor, other, what string, ref map[string]runeSet) {
	p, r := m.p, m.r
	value := classConst(p, pkg, other)
	ext := ref["Extended_Pictographic"]
	plain := map[string]runeSet{}
	for n, s := range ref {
		if n != "Extended_Pictographic" {
			plain[n] = s
		}
	}
	withExt := map[string]runeSet{}
	for n, s := range plain {
		withExt[n] = s
	}
	if ext != nil {
		o := append(newRuneSet()[:0], plain["Other"]...)
		for i := range o {
			o[i] |= ext[i]
		}
		withExt["Other"] = o
	}
	if f := p.Func(pkg, forRune); f == nil {
		r.Fail("anchor:"+forRune, pkg, "the exported function %s does not exist", forRune)
	} else {
		r.Func(f.String())
		if got, ok := m.lookup(f, nil); ok {
			m.compare(what+":"+forRune, p.Pos(f.Pos()), got, withExt, value)
		}
	}
	for _, n := range sortedKeys(plain) {
		if n != "Other" && p.SPkg[pkg].Var(n) != nil {
			in := plain[n]
			out := complement(in, ref)
			if what == "grapheme" {
				out = without(out, 0xfffd)
			}
			m.table(pkg, n, what, in, out)
		}
	}
	// the breaker
	c := p.Func(pkg, ctor)
	f := p.Func(pkg, typ+"."+method)
	if c == nil || f == nil {
		r.Fail("anchor:"+ctor, pkg, "%s or %s.%s does not exist", ctor, typ, method)
		return
	}
	r.Func(c.String(), f.String())
	ret, ok := m.callV(c, linConst(1))
	if !ok {
		return
	}
	got, ok := m.lookup(f, []Value{ret[0]})
	if !ok {
		return
	}
	// the value for Extended_Pictographic is private: that of U+1F600
	pict := got[0x1f600]
	for _, n := range sortedKeys(plain) {
		if v, ok := value(n); ok {
			r.Check(v != pict, what+":"+method+":pictographic", p.Pos(f.Pos()), "pictographic characters (U+1F600) have the same class as %s", n)
		}
	}
	m.compare(what+":"+method, p.Pos(f.Pos()), got, ref, func(c string) (int64, bool) {
		if c == "Extended_Pictographic" {
			return pict, true
		}
		return value(c)
	})
}

func runC03(p *Prog, r *Report) {
	const pkg = "emoji"
	ref := loadRef(r, "emoji.txt")
	m := newClassModel(p, r, pkg)
	if ref == nil || m == nil {
		return
	}
	if !m.setup(pkg, "SetupEmojisClasses") {
		return
	}
	defer r.Engine(m.ex)
	var props []string
	for _, n := range sortedKeys(ref) {
		if len(n) > 4 && n[:4] == "not_" {
			continue
		}
		props = append(props, n)
		m.table(pkg, n, "emoji", ref[n], ref["not_"+n])
	}
	f := p.Func(pkg, "EmojisClassForRune")
	if f == nil {
		r.Fail("anchor:EmojisClassForRune", pkg, "the exported function EmojisClassForRune does not exist")
		return
	}
	r.Func(f.String())
	got, ok := m.lookup(f, nil)
	if !ok {
		return
	}
	byVal := map[int64]string{}
	for _, n := range props {
		v, ok := p.intConst(pkg, n+"Class")
		if !ok {
			r.Fail("emoji:class:"+n, pkg, "there is no constant for property %s", n)
			continue
		}
		byVal[v] = n
	}
	none, wrong, bogus := newRuneSet(), newRuneSet(), newRuneSet()
	k := 0
	for c := int64(1); c < maxRune; c++ {
		in, out := false, true
		for _, n := range props {
			in = in || ref[n].has(c)
			out = out && ref["not_"+n].has(c)
		}
		if in || out {
			k++
		}
		switch v := got[c]; {
		case in && v == -1:
			none.add(c)
		case out && v != -1:
			bogus.add(c)
		case v != -1 && (byVal[v] == "" || ref["not_"+byVal[v]].has(c)):
			wrong.add(c)
		}
	}
	r.N("code points compared", k)
	pos := p.Pos(f.Pos())
	r.Check(none.count() == 0, "emoji:lookup:none", pos, "%d code points with an emoji property get class -1: %s", none.count(), rangesOf(none, 4))
	r.Check(bogus.count() == 0, "emoji:lookup:bogus", pos, "%d code points without any emoji property get a class: %s", bogus.count(), rangesOf(bogus, 4))
	r.Check(wrong.count() == 0, "emoji:lookup:wrong", pos, "%d code points get a class they do not belong to: %s", wrong.count(), rangesOf(wrong, 4))
}
