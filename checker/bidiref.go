package main

import "sort"

// Reference for the resolution of weak and neutral types of UAX#9, on runs of
// characters of one class. Written from the text of the standard.

const (
	bL = iota
	bR
	bAL
	bEN
	bAN
	bES
	bET
	bCS
	bNI  // neutral or isolate (ON, WS, S, matched isolates, unmatched PDI)
	bBR  // bracket without a counterpart
	bNSM // nonspacing mark
	bLRI
	bRLI
	bPDI
	bEOF
	bBO // opening bracket (paired later)
	bBC // closing bracket
	bMax
)

var bName = []string{"L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NI", "bracket", "NSM", "LRI", "RLI", "PDI", "end", "open", "close"}

// refW applies W4–W7 to the classes of an isolating run sequence. every
// element is a maximal run, except that ES and CS are single characters.
func refW(in []int, sos int) []int {
	t := append([]int(nil), in...)
	n := len(t)
	for i := 1; i+1 < n; i++ { // W4
		if in[i] == bES && t[i-1] == bEN && t[i+1] == bEN {
			t[i] = bEN
		}
		if in[i] == bCS && t[i-1] == t[i+1] && (t[i-1] == bEN || t[i-1] == bAN) {
			t[i] = t[i-1]
		}
	}
	for i := 0; i < n; i++ { // W5
		if t[i] != bET {
			continue
		}
		j := i
		for j < n && t[j] == bET {
			j++
		}
		if i > 0 && t[i-1] == bEN || j < n && t[j] == bEN {
			for k := i; k < j; k++ {
				t[k] = bEN
			}
		}
		i = j - 1
	}
	s := sos
	for i := range t {
		switch t[i] {
		case bES, bET, bCS: // W6
			t[i] = bNI
		case bL, bR:
			s = t[i]
		case bEN: // W7
			if s == bL {
				t[i] = bL
			}
		}
	}
	return t
}

// refN applies N1 and N2.
func refN(in []int, e int) []int {
	t := append([]int(nil), in...)
	strong := func(c int) int {
		if c == bEN || c == bAN {
			return bR
		}
		return c
	}
	ni := func(c int) bool { return c == bNI || c == bBR }
	for i := 0; i < len(t); i++ {
		if !ni(t[i]) {
			continue
		}
		j := i
		for j < len(t) && ni(t[j]) {
			j++
		}
		a, b := e, e // sos and eos
		if i > 0 {
			a = strong(t[i-1])
		}
		if j < len(t) {
			b = strong(t[j])
		}
		d := e
		if a == b {
			d = a
		}
		for k := i; k < j; k++ {
			t[k] = d
		}
		i = j - 1
	}
	return t
}

// refItem is a character of an isolating run sequence; isolates within it
// are one item of class bNI, followed by their PDI as part of the item.
type refItem struct {
	c   int // class
	br  int // bracket: opening positive, closing negative
	iso bool
}

// refLevel applies W1–W7, N0, N1 and N2 to an isolating run sequence.
func refLevel(items []refItem, e int) []int {
	n := len(items)
	t := make([]int, n)
	prev := -1 // W1
	for i, it := range items {
		c := it.c
		switch {
		case it.iso || c == bPDI:
			c = bNI
		case c == bNSM:
			if prev < 0 {
				c = e
			} else {
				c = t[i-1]
			}
		case it.br != 0:
			c = bNI
		}
		t[i], prev = c, c
	}
	for i := range t { // W2
		if t[i] != bEN {
			continue
		}
		for j := i - 1; j >= 0; j-- {
			if t[j] == bAL {
				t[i] = bAN
			}
			if t[j] == bL || t[j] == bR || t[j] == bAL {
				break
			}
		}
	}
	for i := range t { // W3
		if t[i] == bAL {
			t[i] = bR
		}
	}
	t = refW(t, e)
	// BD16
	type pair struct{ o, c int }
	var pairs []pair
	type open struct{ i, br int }
	var stack []open
loop:
	for i, it := range items {
		switch {
		case it.br > 0:
			if len(stack) == 63 {
				break loop
			}
			stack = append(stack, open{i, it.br})
		case it.br < 0:
			for k := len(stack) - 1; k >= 0; k-- {
				if stack[k].br == -it.br {
					pairs = append(pairs, pair{stack[k].i, i})
					stack = stack[:k]
					break
				}
			}
		}
	}
	sort.Slice(pairs, func(a, b int) bool { return pairs[a].o < pairs[b].o })
	strong := func(c int) int {
		switch c {
		case bL:
			return bL
		case bR, bEN, bAN:
			return bR
		}
		return -1
	}
	for _, p := range pairs { // N0
		emb, opp := false, false
		for i := p.o + 1; i < p.c; i++ {
			if s := strong(t[i]); s == e {
				emb = true
			} else if s >= 0 {
				opp = true
			}
		}
		d := -1
		if emb {
			d = e
		} else if opp {
			d = e // sos
			for i := p.o - 1; i >= 0; i-- {
				if s := strong(t[i]); s >= 0 {
					d = s
					break
				}
			}
		}
		if d < 0 {
			continue
		}
		for _, k := range []int{p.o, p.c} {
			t[k] = d
			for j := k + 1; j < n && items[j].c == bNSM && !items[j].iso; j++ {
				t[j] = d
			}
		}
	}
	return refN(t, e)
}
