From eb9b8a721c442c5ce3d21b01ac09accffcb41ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 01/33] fix: grapheme rule GB9b did not suppress the break
 after a Prepend character

The glue of rule GB9b was reported for index 0 one step before the default
penalty (-10) for the same position, leaving 9990, which the segmenter
accepts as a break. Report it when the following code-point is known.
---
 grapheme/grapheme.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 46e34eb..6632118 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -314,7 +314,17 @@ func rule_GB9a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_GB9b(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := GraphemeClass(cpClass)
 	tracer().P("class", c).Debugf("fire rule Preprend")
-	return uax.DoAccept(rec, GlueJOIN)
+	rec.MatchLen++
+	return rule_GB9bCont
+}
+
+// ... x any, except for controls (which take precedence, GB5) and end of text
+func rule_GB9bCont(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	c := GraphemeClass(cpClass)
+	if c == CRClass || c == LFClass || c == ControlClass || c == eot {
+		return uax.DoAbort(rec)
+	}
+	return uax.DoAccept(rec, 0, GlueJOIN)
 }
 
 func rule_GB11(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From bf1e03f509827ce21230989e6defa8578cd51937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:21 +0000
Subject: [PATCH 02/33] fix: word rule WB7b lost the join before a double quote
 followed by ignorables

finish_WB7bc placed its penalties at fixed distances, although ignorable
characters (WB4) may stand between the double quote and the second letter.
Compute the distance as WB6/WB7 and WB11/WB12 do.
---
 uax29/uax29.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index bca8c2e..254fd80 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -385,6 +385,7 @@ func cont_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Double_QuoteClass {
 		rec.MatchLen++
+		rec.Expect = rec.MatchLen // misuse of expect field: mark position of double quote
 		return finish_WB7bc
 	}
 	return uax.DoAbort(rec)
@@ -397,7 +398,10 @@ func finish_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Hebrew_LetterClass {
 		//tracer().Debugf("ACCEPT of Rule WB 7b,c")
-		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		p := make([]int, rec.MatchLen-rec.Expect+1+2)
+		p[len(p)-1] = PenaltyToSuppressBreak
+		p[1] = PenaltyToSuppressBreak
+		return uax.DoAccept(rec, p...)
 	}
 	return uax.DoAbort(rec)
 }
-- 
2.43.0


From 7cd68e8e8cca39af2d5854db9c03dd9acc2bc3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 03/33] fix: pooled recognizers keep the UserData of their
 previous use

---
 automata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/automata.go b/automata.go
index f5e31a0..130a281 100644
--- a/automata.go
+++ b/automata.go
@@ -110,6 +110,7 @@ func (rec *Recognizer) releaseIntoPool() {
 	rec.Expect = 0
 	rec.MatchLen = 0
 	rec.nextStep = nil
+	rec.UserData = nil
 	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)
 }
 
-- 
2.43.0


From 9825e65d6e6159e907e49f6d42bbdce550d2f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 04/33] fix: segmenter panicked when Next was called before
 Init

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index d7c44f4..475eda0 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -352,6 +352,7 @@ func (s *Segmenter) setErr(err error) {
 func (s *Segmenter) next(bound int) bool {
 	if s.reader == nil {
 		s.setErr(ErrNotInitialized)
+		return false
 	}
 	//
 	s.inUse = true
-- 
2.43.0


From 5e6ab48432710a764810d8be928d7ff6d6c78157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 05/33] fix: segmenter kept the error of the previous text when
 re-initialized

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index 475eda0..96c78d8 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -156,6 +156,7 @@ func (s *Segmenter) init() {
 		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 		s.pos = 0
 	}
+	s.err = nil
 	s.positionOfBreakOpportunity = -1
 }
 
-- 
2.43.0


From 124b60d29d38b31c1846985e89a892a44e3e6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 06/33] fix: segments longer than 4096 runes were truncated
 silently

---
 segment/segment.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 96c78d8..de182d5 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -157,6 +157,9 @@ func (s *Segmenter) init() {
 		s.pos = 0
 	}
 	s.err = nil
+	if s.runesBuf.maxSegLen == 0 { // no limit set by the client
+		s.runesBuf.maxSegLen = s.maxSegmentLen
+	}
 	s.positionOfBreakOpportunity = -1
 }
 
@@ -375,7 +378,13 @@ func (s *Segmenter) next(bound int) bool {
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
-	s.getFrontSegment(bound)
+	if _, _, err := s.getFrontSegment(bound); err != nil {
+		s.setErr(err)
+		s.runesBuf = s.runesBuf.Reset(nil)
+		s.atEOF = true // stop segmenting
+		s.positionOfBreakOpportunity = -1
+		return false
+	}
 	// tracer().Debugf("s.positionOfBreakOpp=%d", s.positionOfBreakOpportunity)
 	//tracer().P("length", strconv.Itoa(l)).Debugf("Next() = \"%s\"", s.runesBuf)
 	return true
@@ -578,7 +587,7 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // After the cut-off getFrontSegments recursivley searches for another break
 // opportunity which may have been marked by breakers with acceptable penalties.
 //
-func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
+func (s *Segmenter) getFrontSegment(bound int) (int, bool, error) {
 	seglen := 0
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 	s.runesBuf = s.runesBuf.SetMark()
@@ -593,12 +602,15 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		tracer().Debugf("segmenter: bound reached")
 		isCutOff = true // we truncate l to Q-start---->|bound
 		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
-			return 0, true
+			return 0, true, nil
 		}
 	}
 	for i := 0; i <= l; i++ {
 		r, p0, p1 := s.deque.PopFront()
-		written, _ := (&s.runesBuf).WriteRune(r)
+		written, err := (&s.runesBuf).WriteRune(r)
+		if err != nil {
+			return seglen, isCutOff, err
+		}
 		seglen += written
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
@@ -612,7 +624,7 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
 		boundDist)
 	//s.printQ()
-	return seglen, isCutOff
+	return seglen, isCutOff, nil
 }
 
 // ----------------------------------------------------------------------
-- 
2.43.0


From 13a54d0bfd2713419588c8ae68e48301af470f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 07/33] fix: BoundedNext lost or overran text when the end of
 the text was near the bound

---
 segment/segment.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index de182d5..40ef0aa 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -360,6 +360,10 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
+	if s.positionOfBreakOpportunity < 0 { // the bound may have changed since the last search
+		s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
+			s.distanceTo(bound))
+	}
 	if !s.atEOF {
 		err := s.readEnoughInputAndFindBreak(bound)
 		if err != nil && err != io.EOF {
@@ -396,7 +400,8 @@ func (s *Segmenter) next(bound int) bool {
 // (EOF is not considered an error in itself in this context).
 // For all subsequent calls to readRune where s.atEOF is true, io.EOF is returned.
 //
-// s.pos is incremented according to the byte size of the input rune.
+// s.pos counts the atoms appended to the Q, including the EOF atom, i.e. it is always
+// the position after the last atom of the Q.
 //
 // readRune _must_ grow the Q or return an error or EOF.
 //
@@ -404,14 +409,15 @@ func (s *Segmenter) readRune() error {
 	if s.atEOF {
 		return io.EOF
 	}
-	r, sz, err := s.reader.ReadRune()
-	s.pos += sz
+	r, _, err := s.reader.ReadRune()
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
+		s.pos++
 		s.deque.PushBack(r, 0, 0)
 		return nil
 	}
 	if err == io.EOF {
+		s.pos++
 		s.deque.PushBack(eotAtom.r, eotAtom.penalty0, eotAtom.penalty1)
 		s.atEOF = true
 		err = nil
@@ -480,13 +486,8 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 		// The Q is updated. The longest active match may have been changed and
 		// we have to scan from the start of the Q to the new position of active match.
 		// If we find a breaking opportunity, we're done.
-		boundDist := bound
-		if bound < math.MaxInt64 {
-			//boundDist = bound - s.pos + s.deque.Len()
-			boundDist = bound - s.pos + qlen
-		}
 		s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen-s.longestActiveMatch,
-			boundDist)
+			s.distanceTo(bound))
 		//s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen - 1 - s.longestActiveMatch)
 		// tracer().Debugf("segmenter: breakpos=%d, Q-len=%d, active match=%d",
 		// 	s.positionOfBreakOpportunity, s.deque.Len(), s.longestActiveMatch)
@@ -512,6 +513,9 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 //
 // Returns the Q-position to break or -1.
 func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
+	if s.atEOF {
+		to = min(to, s.deque.Len()-1) // never break after the EOF atom
+	}
 	if to-1 < 0 || boundDist < 0 {
 		return -1
 	}
@@ -541,6 +545,14 @@ func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
 
 // find out if the UnicodeBreaker b is the primary breaker. If yes, return index 0,
 // 1 otherwise.
+// distanceTo returns the index into the Q which corresponds to a bound.
+func (s *Segmenter) distanceTo(bound int) int {
+	if bound < math.MaxInt64 {
+		return bound - s.pos + s.deque.Len()
+	}
+	return bound
+}
+
 func (s *Segmenter) inxForBreaker(b uax.UnicodeBreaker) int {
 	if b == s.breakers[0] {
 		return 0
@@ -617,12 +629,8 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool, error) {
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
 	// There may be further break opportunities between this break and the start of the
 	// current longest match. Advance the pointer to the next break opportunity, if any.
-	boundDist := bound
-	if bound < math.MaxInt64 {
-		boundDist = bound - s.pos + s.deque.Len()
-	}
 	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
-		boundDist)
+		s.distanceTo(bound))
 	//s.printQ()
 	return seglen, isCutOff, nil
 }
-- 
2.43.0


From 26097cfa6fce4cc1d88bbce5c931ee9b73d69748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:07 +0000
Subject: [PATCH 08/33] fix: bidi rules W7, N1-6, 7, 9 and 10 returned more
 scraps than they matched (hang in ResolveParagraph)

---
 bidi/actions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d22f252..89a3231 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -142,7 +142,7 @@ func ruleW7() (*bidiRule, []byte) {
 				L[0].bidiclz = bidi.L
 				return L, 0, true // replace EN with L, start again with L
 			}
-			return match, 1, true // step over EN
+			return match[:1], 1, true // step over EN
 		},
 	}, lhs
 }
@@ -322,7 +322,7 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
 		action: func(match []scrap) ([]scrap, int, bool) {
 			match[1].bidiclz = c // change class of middle interval
-			return match, jmp, false
+			return match[:len(lhs)], jmp, false
 		},
 	}
 }
-- 
2.43.0


From 7636bed0f8ca6f2e72e297d4cb8d8cb250403b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 09/33] fix: bidi rules N1-3, 4, 5, 8 dropped the text of their
 neutral or of its right neighbour

---
 bidi/actions.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 89a3231..29ddfe5 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -187,9 +187,8 @@ func ruleN1_3() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.AN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -202,9 +201,8 @@ func ruleN1_4() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.EN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -217,7 +215,7 @@ func ruleN1_5() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -240,7 +238,7 @@ func ruleN1_8() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
-- 
2.43.0


From f63d37a31b58b183a459a916d4e205abad6799bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 10/33] fix: bidi rules were registered at trie positions which
 later insertions moved

---
 bidi/resolver.go | 63 ++++++++++--------------------------------------
 1 file changed, 13 insertions(+), 50 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9bc664e..958908d 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -499,59 +499,22 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 			tracer().Errorf(err.Error())
 			panic(err.Error())
 		}
-		var r *bidiRule
 		tracelevel := tracer().GetTraceLevel()
 		tracer().SetTraceLevel(tracing.LevelInfo)
-		var lhs []byte
 		// --- allocate all the rules ---
-		r, lhs = ruleW4_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW4_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW4_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW5_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW5_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6x()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW7()
-		allocRule(trie, r, lhs)
-		// r, lhs = ruleN1_0()
-		// allocRule(trie, r, lhs)
-		r, lhs = ruleN1_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_4()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_5()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_6()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_7()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_8()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_9()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_10()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleL()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleR()
-		allocRule(trie, r, lhs)
+		// Inserting a word may move words already stored, therefore we will not know
+		// the final positions of rules before all of them have been inserted.
+		for pass := 1; pass <= 2; pass++ {
+			rules = [dictsize]*bidiRule{}
+			for _, makeRule := range []func() (*bidiRule, []byte){
+				ruleW4_1, ruleW4_2, ruleW4_3, ruleW5_1, ruleW5_2, ruleW6_1, ruleW6_2, ruleW6_3,
+				ruleW6x, ruleW7, ruleN1_1, ruleN1_2, ruleN1_3, ruleN1_4, ruleN1_5, ruleN1_6, ruleN1_7,
+				ruleN1_8, ruleN1_9, ruleN1_10, ruleN2, ruleL, ruleR,
+			} {
+				rule, lhs := makeRule()
+				allocRule(trie, rule, lhs)
+			}
+		}
 		// ------------------------------
 		trie.Freeze()
 		tracer().SetTraceLevel(tracelevel)
-- 
2.43.0


From b137483ddbdab3782712b421a68060a927c5e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 11/33] fix: bidi scanner lost the strong type context of W1
 and W2

---
 bidi/scanner.go | 55 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca64101..3a31cfc 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -146,7 +146,8 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
-	lastAL := int64(-1) // position of last AL character-run in input
+	strong := cNI                   // most recent strong type (L, R, AL) within the current isolating run sequence
+	outer := make([]bidi.Class, 0, 16) // strong types of the enclosing isolating run sequences
 	for {
 		r, length, bidiclz, ok := sc.nextRune(current.r) // read the next input rune
 		if !ok {                                         // if EOF, drain lookahead and quit
@@ -166,14 +167,25 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				bidiclz = setTestingIRSDelimiter(r, bidiclz)
 			}
 		}
-		isAL := bidiclz == bidi.AL                     // AL will be changed by rule W3
-		bidiclz = applyRulesW1to3(r, bidiclz, current) // UAX#9 W1–3 handled by scanner
+		switch bidiclz {
+		case bidi.L, bidi.R, bidi.AL:
+			strong = bidiclz
+		case bidi.LRI, bidi.RLI, bidi.FSI:
+			outer, strong = append(outer, strong), cNI
+		case bidi.PDI:
+			if len(outer) > 0 {
+				outer, strong = outer[:len(outer)-1], outer[len(outer)-1]
+			}
+		}
+		isNSM := bidiclz == bidi.NSM // NSM will be changed by rule W1
+		bidiclz = applyRulesW1to3(r, bidiclz, current, strong) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
 		lookahead = makeScrap(r, bidiclz, current.r, length)
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) {
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz ||
+			isbracket(current) && !isNSM || isisolate(current) || isseparator(current) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -181,17 +193,17 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				sc.post(current, pipe) // put current on channel
 			}
 			// proceed ahead, making lookahead the current scrap
-			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
-				sc.ctxstack = append(sc.ctxstack, current.context)
-			} else if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
+			if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
 				current.context = sc.ctxstack[len(sc.ctxstack)-1]
 				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
 			}
-			lookahead = inheritStrongTypes(lookahead, current, lastAL)
-			current = sc.prepareRuleBD16(r, lookahead)
-			if isAL {
-				lastAL = int64(current.l)
+			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
+				// remember the context following this scrap
+				outer := inheritStrongTypes(scrap{bidiclz: cNI}, current)
+				sc.ctxstack = append(sc.ctxstack, outer.context)
 			}
+			lookahead = inheritStrongTypes(lookahead, current)
+			current = sc.prepareRuleBD16(r, lookahead)
 		} else { // otherwise the current scrap grows
 			current = collapse(current, lookahead, current.bidiclz) // meld LA with current
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
@@ -218,12 +230,14 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 	if sc.hasMode(optionOuterR2L) {
 		tracer().Infof("resolving paragraph with R2L embedding context")
 		current.context.SetEmbedding(bidi.RightToLeft)
+		current.context.strong = bidi.R // sos
 		if setIRS {
 			current.bidiclz = bidi.RLI
 		}
 	} else {
 		tracer().Infof("resolving paragraph with L2R embedding context")
 		current.context.SetEmbedding(bidi.LeftToRight)
+		current.context.strong = bidi.L // sos
 		if setIRS {
 			current.bidiclz = bidi.LRI
 		}
@@ -234,7 +248,9 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 // applyRulesW1to3 returns the Bidi_Class for a rune. It will apply certain UAX#9
 // rules immediately to relief the parser.
 //
-func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
+// strong is the type of the most recent strong character (L, R or AL), or NI for sos.
+//
+func applyRulesW1to3(r rune, clz bidi.Class, current scrap, strong bidi.Class) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
 	case bidi.NSM: // rule W1, handle accents
@@ -245,11 +261,12 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 			return bidi.R
 		case bidi.PDI:
 			return cNI
+		case cNULL: // sos
+			return current.e()
 		}
 		return currclz
 	case bidi.EN: // rule W2
-		if current.context.IsAL() {
-			tracer().Errorf("========= context: %v", current.context)
+		if strong == bidi.AL {
 			return bidi.AN
 		}
 	case bidi.AL: // rule W3
@@ -286,7 +303,7 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 
 // lastAL is the position of the last AL character that has occured (before
 // UAX#9 rule W3 changed it)
-func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
+func inheritStrongTypes(dest, src scrap) scrap {
 	tracer().Debugf("bidi scanner: inherit %s => %s     %v", src, dest, src.context)
 	dest.context = src.context
 	switch dest.bidiclz {
@@ -296,9 +313,6 @@ func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
 		dest.context.embeddingDir = bidi.R
 		//panic("R2")
 	default:
-		if lastAL >= 0 {
-			dest.context.SetStrongType(bidi.AL, charpos(lastAL))
-		}
 		switch src.bidiclz {
 		case bidi.L, bidi.LRI:
 			dest.context.SetStrongType(bidi.L, src.l)
@@ -316,6 +330,11 @@ func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
 
 // --- Nesting isolating run sequences ---------------------------------------
 
+// Separators are subject to rule W4 only if there is a single one between two numbers.
+func isseparator(s scrap) bool {
+	return s.bidiclz == bidi.ES || s.bidiclz == bidi.CS
+}
+
 func isisolate(s scrap) bool {
 	switch s.bidiclz {
 	case bidi.LRI, bidi.RLI, bidi.FSI, bidi.PDI:
-- 
2.43.0


From 5db09a33c0f4ce7b7fe1fb11a40bb1484c09d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 12/33] fix: bidi separators and terminators: W4 applies before
 W5, neutrals of W6 meld

---
 bidi/actions.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 29ddfe5..714344d 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -95,7 +95,15 @@ func ruleW5_1() (*bidiRule, []byte) { // W5-1 and W5-3
 
 func ruleW5_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.ET)
-	return makeSquashRule("W5-2", lhs, bidi.EN, -2), lhs
+	rule := makeSquashRule("W5-2", lhs, bidi.EN, -2)
+	squash := rule.action
+	rule.action = func(match []scrap) ([]scrap, int, bool) {
+		if len(match) > 2 && isseparator(match[2]) {
+			match[2].bidiclz = cNI // W4 precedes W5, thus will not apply to EN from ET
+		}
+		return squash(match)
+	}
+	return rule, lhs
 }
 
 // W6. Otherwise, separators and terminators change to Other Neutral.
@@ -106,17 +114,17 @@ func ruleW5_2() (*bidiRule, []byte) {
 
 func ruleW6_1() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ET)
-	return makeSquashRule("W6-1", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-1", lhs, cNI, -1), lhs
 }
 
 func ruleW6_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ES)
-	return makeSquashRule("W6-2", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-2", lhs, cNI, -1), lhs
 }
 
 func ruleW6_3() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.CS)
-	return makeSquashRule("W6-3", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-3", lhs, cNI, -1), lhs
 }
 
 func ruleW6x() (*bidiRule, []byte) {
-- 
2.43.0


From b7b7d9304086f583d8c1f886c69bce12f03b20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 13/33] fix: bidi isolating run sequences: nesting, context and
 unmatched PDIs

---
 bidi/brackets.go |  4 +++-
 bidi/resolver.go | 16 ++++++++--------
 bidi/scanner.go  | 33 +++++++++++++--------------------
 3 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 28bc499..83ea6fb 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -2,6 +2,7 @@ package bidi
 
 import (
 	"fmt"
+	"math"
 	"sync"
 )
 
@@ -70,7 +71,7 @@ type bracketPairHandler struct {
 	mx       sync.Mutex          // guards pairings, as parser will access them, too
 	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
 	firstpos charpos             // text position of first character in isolating run sequence
-	lastpos  charpos             // text position of PDI
+	lastpos  charpos             // text position of PDI, if already read
 }
 
 // This is the stack to perform the algorithm described above
@@ -93,6 +94,7 @@ func makeBracketPairHandler(first charpos, previous *bracketPairHandler) *bracke
 		stack:    make(bracketStack, 0, BD16MaxNesting),
 		pairings: make(pairingsList, 0, 8),
 		firstpos: first,
+		lastpos:  math.MaxUint32,
 	}
 	if previous != nil {
 		previous.next = h
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 958908d..0e94ddb 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -170,11 +170,8 @@ func (p *parser) reduce(n int, rhs []scrap, startIRS int) {
 // reading a (premature) EOF.
 //
 func (p *parser) pass1(startIRS int) bool {
-	p.sp = startIRS              // start at beginning of isolating run sequence
-	la := 0                      // length of lookahead LA
-	if _, ok := p.read(3); !ok { // initially load 3 scraps
-		return false // no input to read
-	}
+	p.sp = startIRS // start at beginning of isolating run sequence
+	la := 0         // length of lookahead LA
 	var rule, shortrule *bidiRule
 	walk := false // if true, accept walking over 1 scrap
 	pdi := false
@@ -195,7 +192,10 @@ func (p *parser) pass1(startIRS int) bool {
 			rule = shortrule
 			if rule == nil || rule.pass > 1 {
 				tracer().Debugf("walking over %s", p.stack[p.sp])
-				if p.stack[p.sp].bidiclz == bidi.PDI {
+				if p.stack[p.sp].bidiclz == bidi.PDI && len(p.spIRS) == 1 {
+					p.stack[p.sp].bidiclz = cNI // PDI without isolate initiator
+					p.sp = max(startIRS, p.sp-1)
+				} else if p.stack[p.sp].bidiclz == bidi.PDI {
 					p.sp++ // walk over PDI
 					pdi = true
 					break
@@ -245,8 +245,7 @@ func (p *parser) applySubIRS(startIRS int) int {
 	// received a cNI with IRS as single child
 	p.sp = startSubIRS // jump back to start of “IRS match”
 	p.reduce(runlen, rhs, startIRS)
-	//return p.sp + 1 // walk over cNI just produced
-	return p.sp
+	return max(startIRS, p.sp-1) // cNI just produced may be melded with a previous one
 }
 
 // pass 2 operates on the scraps laying on the stack, starting at the
@@ -327,6 +326,7 @@ func (p *parser) parseIRS(startIRS int) ([]scrap, int, int, bool) {
 	if ok && len(p.spIRS) > 1 { // if not at top level isolating run sequence
 		ni := scrap{ // prepare a reduce action [IRS scraps] ⇒ [cNI]
 			bidiclz:  cNI,
+			context:  p.stack[p.spIRS[len(p.spIRS)-2]].context, // context of the outer IRS
 			l:        p.stack[startIRS].l,
 			r:        p.stack[startIRS+runlen-1].r,
 			children: [][]scrap{copyStackSegm(p.stack, startIRS, runlen)},
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 3a31cfc..c27c5c1 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -31,8 +31,8 @@ type bidiScanner struct {
 	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
 	lastMarkupPos int64                           // last position of out-of-line markup
 	lastMarkup    int                             // last / remaining markup
-	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
-	IRSStack      []charpos                       // start positions of IRSs
+	IRS           *bracketPairHandler             // first of the pair handlers of isolating run sequences
+	IRSStack      []*bracketPairHandler           // pair handlers of the currently open IRSs
 	ctxstack      []dirContext                    // context stack for IRSs
 }
 
@@ -49,10 +49,9 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.markup = markup
 	sc.lastMarkup = -1
 	sc.bd16 = makeBracketPairHandler(0, nil)
-	sc.IRS = make(map[charpos]*bracketPairHandler)
-	sc.IRS[0] = sc.bd16
-	sc.IRSStack = make([]charpos, 0, 16)
-	sc.IRSStack = append(sc.IRSStack, 0)
+	sc.IRS = sc.bd16
+	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	for _, opt := range opts {
 		if opt != nil {
 			opt(sc)
@@ -346,39 +345,33 @@ func isisolate(s scrap) bool {
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-		if len(sc.IRSStack) == 0 {
+		if len(sc.IRSStack) <= 1 {
 			tracer().Debugf("bidi scanner found non-paired PDI at position %d", s.l)
 			return
 		}
 		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		if len(sc.IRSStack) > 0 {
-			tos := sc.IRSStack[len(sc.IRSStack)-1]
-			sc.bd16 = sc.IRS[tos]
-		}
+		sc.bd16 = sc.IRSStack[len(sc.IRSStack)-1]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
 	tracer().Debugf("bidi scanner handleIsolatingRunSwitch(%v | %v)", s, s.context)
 	// establish new BD16 handler
-	irs := sc.IRS[0]
+	irs := sc.IRS
 	for irs.next != nil { // find most rightward isolating run sequence
 		irs = irs.next
 	}
 	sc.bd16 = makeBracketPairHandler(s.l, irs)
-	sc.IRS[s.l] = sc.bd16
-	sc.IRSStack = append(sc.IRSStack, s.l)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	tracer().Debugf("bidi scanner: new IRS with position %d, nesting level is %d", sc.bd16.firstpos, len(sc.IRSStack)-1)
 }
 
 func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
-	irs := sc.IRS[0]
+	irs := sc.IRS
 	bd16 := irs
-	for irs.next != nil { // find most rightward isolating run sequence
-		if irs.firstpos <= pos {
-			if irs.lastpos == 0 || irs.lastpos >= pos {
-				bd16 = irs
-			}
+	for irs != nil { // find most rightward isolating run sequence
+		if irs.firstpos <= pos && pos < irs.lastpos {
+			bd16 = irs
 		}
 		irs = irs.next
 	}
-- 
2.43.0


From c4dc1de67f244bb6a261fec07ea5e8b3029d2995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 14/33] fix: bidi bracket pairs are resolved before other
 neutrals, with the strong types in between

---
 bidi/resolver.go | 117 ++++++++++++++++++++++++++---------------------
 1 file changed, 65 insertions(+), 52 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 0e94ddb..8c3d34c 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -260,16 +260,11 @@ func (p *parser) applySubIRS(startIRS int) int {
 // there should be only a single scrap on the stack with bidi class L.
 //
 func (p *parser) pass2(startIRS int) {
+	p.resolveBrackets(startIRS) // rule N0 has to be completed before N1 and N2
 	p.sp = startIRS
 	for !p.passed(bidi.PDI) && p.sp < len(p.stack) {
 		e := min(len(p.stack), p.sp+3)
 		tracer().Debugf("trying to match %v at %d", p.stack[p.sp:e], p.sp)
-		//if p.stack[p.sp].bidiclz == cBRACKC {
-		if isbracket(p.stack[p.sp]) {
-			jmp := p.performRuleN0()
-			p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
-			continue
-		}
 		rule, shortrule := p.matchRulesLHS(p.stack[p.sp:len(p.stack)], 2)
 		if rule == nil || rule.pass < 2 {
 			if shortrule == nil || shortrule.pass < 2 {
@@ -404,67 +399,85 @@ func (p *parser) matchRulesLHS(scraps []scrap, minlen int) (*bidiRule, *bidiRule
 //     order of the text positions of the opening paired brackets using the logic
 //     given below. Within this scope, bidirectional types EN and AN are treated as R.
 //
-func (p *parser) performRuleN0() (jmp int) {
-	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[p.sp])
-	jmp = 1 // default is to walk over the bracket
-	if p.stack[p.sp].bidiclz == cBRACKO {
-		// Identify the bracket pairs in the current isolating run sequence according to BD16.
-		openBr := p.stack[p.sp]
-		closeBr, found := p.findCorrespondingBracket(openBr)
-		if !found {
-			tracer().Debugf("Did not find closing bracket for %s", openBr)
-			closeBr.bidiclz = cNI
-			return
+func (p *parser) resolveBrackets(startIRS int) {
+	for p.sp = startIRS; p.sp < len(p.stack) && !p.passed(bidi.PDI); p.sp++ {
+		if isbracket(p.stack[p.sp]) {
+			p.performRuleN0(startIRS)
 		}
-		tracer().Debugf("closing bracket for %s is %s", openBr, closeBr)
-		tracer().Debugf("closing bracket has context=%v", closeBr.context)
-		tracer().Debugf("closing bracket has match pos=%d", closeBr.context.matchPos)
+	}
+	// brackets without a direction are neutrals, meld them with adjacent ones
+	p.sp = startIRS
+	for p.sp+1 < len(p.stack) && p.stack[p.sp].bidiclz != bidi.PDI {
+		left, right := p.stack[p.sp], p.stack[p.sp+1]
+		if left.bidiclz == cNI && right.bidiclz == cNI {
+			p.reduce(2, []scrap{collapse(left, right, cNI)}, startIRS)
+		} else {
+			p.sp++
+		}
+	}
+}
+
+func (p *parser) performRuleN0(startIRS int) {
+	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[p.sp])
+	br := p.stack[p.sp]
+	pair, found := p.findCorrespondingBracket(br)
+	if !found {
+		tracer().Debugf("Did not find a bracket paired with %s", br)
+		br.bidiclz = cNI
+	} else if br.bidiclz == cBRACKC {
+		br.bidiclz = pair.bidiclz // opening bracket has already been decided upon
+	} else {
 		// a. Inspect the bidirectional types of the characters enclosed within the
 		//    bracket pair.
-		if closeBr.HasEmbeddingMatchAfter(openBr) {
+		opp, emb := false, false
+		for i := p.sp + 1; i < len(p.stack) && p.stack[i].l < pair.l; i++ {
+			opp = opp || strongType(p.stack[i]) == br.o()
+			emb = emb || strongType(p.stack[i]) == br.e()
+		}
+		switch {
+		case emb:
 			// b. If any strong type (either L or R) matching the embedding direction
 			//    is found, set the type for both brackets in the pair to match the
 			//    embedding direction.
-			openBr.bidiclz = openBr.context.embeddingDir
-			jmp = -2
-		} else if closeBr.HasOppositeAfter(openBr) {
+			br.bidiclz = br.e()
+		case opp:
 			// c. Otherwise, if there is a strong type it must be opposite the embedding
 			//    direction. Therefore, test for an established context with a preceding
 			//    strong type by checking backwards before the opening paired bracket
 			//    until the first strong type (L, R, or sos) is found.
-			if openBr.StrongContext() == openBr.o() {
-				// c.1. If the preceding strong type is also opposite the embedding
-				//      direction, context is established, so set the type for both
-				//      brackets in the pair to that direction.
-				openBr.bidiclz = opposite(openBr.context.embeddingDir)
-			} else {
-				// c.2. Otherwise set the type for both brackets in the pair to the
-				//      embedding direction.
-				openBr.bidiclz = openBr.context.embeddingDir
+			//    c.1. If the preceding strong type is also opposite the embedding
+			//         direction, context is established, so set the type for both
+			//         brackets in the pair to that direction.
+			//    c.2. Otherwise set the type for both brackets in the pair to the
+			//         embedding direction.
+			br.bidiclz = br.e()
+			for i := p.sp - 1; i > startIRS; i-- {
+				if c := strongType(p.stack[i]); c != cNI {
+					br.bidiclz = c
+					break
+				}
 			}
-			jmp = -2
-		} else {
-			tracer().Debugf("no strong types found within bracket pair")
+		default:
 			// d. Otherwise, there are no strong types within the bracket pair.
 			//    Therefore, do not set the type for that bracket pair.
-			openBr.bidiclz = cNI
-			jmp = -1
-		}
-		p.changeBracketBidiClass(openBr)
-		p.stack[p.sp] = openBr
-	} else {
-		closeBr := p.stack[p.sp]
-		if openBr, found := p.findCorrespondingBracket(closeBr); found {
-			closeBr.bidiclz = openBr.bidiclz
-		} else {
-			closeBr.bidiclz = cNI
-		}
-		p.stack[p.sp] = closeBr
-		if closeBr.bidiclz != cNI {
-			jmp = -2
+			tracer().Debugf("no strong types found within bracket pair")
+			br.bidiclz = cNI
 		}
+		p.changeBracketBidiClass(br)
+	}
+	p.stack[p.sp] = br
+}
+
+// strongType returns the type of a scrap with respect to rule N0, where EN and AN are
+// treated as R.
+func strongType(s scrap) bidi.Class {
+	switch s.bidiclz {
+	case bidi.L:
+		return bidi.L
+	case bidi.R, bidi.EN, bidi.AN:
+		return bidi.R
 	}
-	return
+	return cNI
 }
 
 func (p *parser) findCorrespondingBracket(s scrap) (scrap, bool) {
-- 
2.43.0


From 54dc75315e4a808ad81e45be302d36adb2434535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 15/33] fix: bidi scanner and parser accessed the list of
 isolating run sequences without synchronization

---
 bidi/brackets.go |  2 ++
 bidi/scanner.go  | 26 ++++++++++++++++----------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 83ea6fb..2adf93f 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -222,6 +222,8 @@ func (bph *bracketPairHandler) UpdateClosingBrackets(s scrap) {
 }
 
 func (bph *bracketPairHandler) dump() {
+	bph.mx.Lock()
+	defer bph.mx.Unlock()
 	if len(bph.stack) == 0 {
 		tracer().Debugf("BD16: Bracket Stack is empty")
 	} else {
diff --git a/bidi/scanner.go b/bidi/scanner.go
index c27c5c1..aca9fb9 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 
@@ -25,15 +26,16 @@ import (
 // bidiScanner will read runs of text as a unit, as long as all runes therein have the
 // same Bidi class.
 type bidiScanner struct {
-	mode          uint8                           // scanner modes, set by scanner options
-	runeScanner   *bufio.Scanner                  // we're using an embedded rune reader
-	bd16          *bracketPairHandler             // support type for handling bracket pairings
-	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
-	lastMarkupPos int64                           // last position of out-of-line markup
-	lastMarkup    int                             // last / remaining markup
-	IRS           *bracketPairHandler             // first of the pair handlers of isolating run sequences
-	IRSStack      []*bracketPairHandler           // pair handlers of the currently open IRSs
-	ctxstack      []dirContext                    // context stack for IRSs
+	mode          uint8                 // scanner modes, set by scanner options
+	runeScanner   *bufio.Scanner        // we're using an embedded rune reader
+	bd16          *bracketPairHandler   // support type for handling bracket pairings
+	markup        OutOfLineBidiMarkup   // markup for isolating run sequence delimiting
+	lastMarkupPos int64                 // last position of out-of-line markup
+	lastMarkup    int                   // last / remaining markup
+	mx            sync.Mutex            // guards the list of pair handlers, as parser will access it, too
+	IRS           *bracketPairHandler   // first of the pair handlers of isolating run sequences
+	IRSStack      []*bracketPairHandler // pair handlers of the currently open IRSs
+	ctxstack      []dirContext          // context stack for IRSs
 }
 
 // NewScanner creates a scanner for bidi formatting. It will read runs of text
@@ -145,7 +147,7 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
-	strong := cNI                   // most recent strong type (L, R, AL) within the current isolating run sequence
+	strong := cNI                      // most recent strong type (L, R, AL) within the current isolating run sequence
 	outer := make([]bidi.Class, 0, 16) // strong types of the enclosing isolating run sequences
 	for {
 		r, length, bidiclz, ok := sc.nextRune(current.r) // read the next input rune
@@ -343,6 +345,8 @@ func isisolate(s scrap) bool {
 }
 
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
 		if len(sc.IRSStack) <= 1 {
@@ -367,6 +371,8 @@ func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 }
 
 func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
 	irs := sc.IRS
 	bd16 := irs
 	for irs != nil { // find most rightward isolating run sequence
-- 
2.43.0


From c6214d9b10d002be685d932c9393f88c654b031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 16/33] fix: bidi scanner never asked for out-of-line markup at
 the start of the text

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index aca9fb9..e7ef957 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -50,6 +50,7 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
+	sc.lastMarkupPos = -1
 	sc.bd16 = makeBracketPairHandler(0, nil)
 	sc.IRS = sc.bd16
 	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
-- 
2.43.0


From 4d43106338726d320f820da360df4c38fdcfe61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 17/33] fix: bidi options could not be unset by a later option

---
 bidi/scanner.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index e7ef957..083d553 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -480,7 +480,7 @@ func RecognizeLegacy(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionRecognizeLegacy) && b ||
 			sc.hasMode(optionRecognizeLegacy) && !b {
-			sc.mode |= optionRecognizeLegacy
+			sc.mode ^= optionRecognizeLegacy
 		}
 	}
 }
@@ -493,7 +493,9 @@ func DefaultDirection(dir Direction) Option {
 			sc.mode |= optionOuterR2L
 		}
 	}
-	return nil
+	return func(sc *bidiScanner) {
+		sc.mode &^= optionOuterR2L
+	}
 }
 
 // TestMode will set up the scanner to recognize UPPERCASE letters as having R2L class.
@@ -513,7 +515,7 @@ func TestMode(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionTesting) && b ||
 			sc.hasMode(optionTesting) && !b {
-			sc.mode |= optionTesting
+			sc.mode ^= optionTesting
 		}
 	}
 }
@@ -527,7 +529,7 @@ func IgnoreParagraphSeparators(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionIgnoreParSep) && b ||
 			sc.hasMode(optionIgnoreParSep) && !b {
-			sc.mode |= optionIgnoreParSep
+			sc.mode ^= optionIgnoreParSep
 		}
 	}
 }
-- 
2.43.0


From f7b0fd053b0ee56d341ee288d79e7db7bce116ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 18/33] fix: bidi bracket pairing has to stop for an isolating
 run sequence if its stack overflows

---
 bidi/brackets.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 2adf93f..06f5da1 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -67,6 +67,7 @@ func isbracket(s scrap) bool {
 // We use a special class to handle discovery of bracket pairs.
 type bracketPairHandler struct {
 	stack    bracketStack        // stack to trace bracket nesting
+	full     bool                // stack has overflown, ignore all further brackets
 	pairings pairingsList        // result list of matching bracket pairings
 	mx       sync.Mutex          // guards pairings, as parser will access them, too
 	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
@@ -109,12 +110,18 @@ func (pr pairing) String() string {
 // pushOpening pushes an opening bracket and its position onto the stack.
 func (bph *bracketPairHandler) pushOpening(r rune, s scrap) bool {
 	var ok bool
+	if bph.full = bph.full || len(bph.stack) >= BD16MaxNesting; bph.full {
+		return false
+	}
 	ok, bph.stack = bph.stack.push(r, s)
 	return ok
 }
 
 func (bph *bracketPairHandler) findPair(r rune, s scrap) (found bool, pos charpos) {
 	var b brktpos
+	if bph.full {
+		return
+	}
 	if found, b, bph.stack = bph.stack.popWith(r, s.l); !found {
 		return
 	}
-- 
2.43.0


From c1a78f48500f1f110df456dd2943ef0d120685c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 19/33] fix: bidi brackets U+232A and U+3009 are canonically
 equivalent

---
 bidi/brackets.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 06f5da1..13d24bf 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -169,7 +169,7 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	}
 	i := len(bs) - 1
 	for i >= 0 { // start at TOS, possible skip unclosed opening brackets
-		if bs[i].pair.c == b {
+		if canonical(bs[i].pair.c) == canonical(b) {
 			open := bs[i] //.pos
 			bs = bs[:i]
 			return true, open, bs
@@ -179,6 +179,15 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	return false, brktpos{}, bs
 }
 
+// canonical returns the canonical equivalent of a closing bracket.
+// There is just a single bracket pair with canonical equivalents.
+func canonical(b rune) rune {
+	if b == '\u232a' {
+		return '\u3009'
+	}
+	return b
+}
+
 //func (bph *bracketPairHandler) FindBracketPairing(s scrap, open bool) (pairing, bool) {
 func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	bph.mx.Lock()
-- 
2.43.0


From 103c426b77e231e1fc444c1395e00311158b2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 20/33] fix: bidi Reorder lost text at the start of an
 isolating run sequence

---
 bidi/reordering.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f2f81c6..e188b5f 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -400,9 +400,10 @@ func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
 	if len(childRuns) == 0 {
 		return last, runs
 	}
-	if childRuns[0].Dir == last.Dir {
+	if last.Length > 0 && childRuns[0].Dir == last.Dir {
 		//last.Length = childRuns[0].Length
 		last.concat(childRuns[0])
+		runs[len(runs)-1] = last
 		runs = append(runs, childRuns[1:]...)
 	} else {
 		runs = append(runs, childRuns...)
-- 
2.43.0


From 7970143d06138aa51e12ac7b1fc1daf537c25c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 21/33] fix: bidi Reorder destroyed the levels it is called for

---
 bidi/reordering.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index e188b5f..b02c352 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -444,12 +444,27 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 	if len(rl.scraps) == 0 {
 		return &Ordering{}
 	}
-	rscr := reorder(rl.scraps, 0, len(rl.scraps), rl.embedding)
+	rscr := copyScraps(rl.scraps) // reorder() is destructive
+	rscr = reorder(rscr, 0, len(rscr), rl.embedding)
 	tracer().Debugf("=====reorder done, flatten ========")
 	r := flatten(rscr, rl.embedding)
 	return &Ordering{Runs: r}
 }
 
+// copyScraps creates a deep copy of a sequence of scraps, including nested ones.
+func copyScraps(scraps []scrap) []scrap {
+	cp := make([]scrap, len(scraps))
+	for i, s := range scraps {
+		var children [][]scrap
+		for _, ch := range s.children {
+			children = append(children, copyScraps(ch))
+		}
+		s.children = children
+		cp[i] = s
+	}
+	return cp
+}
+
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
 	for _, s := range rl.scraps {
-- 
2.43.0


From c5c1f727b664d009bcc831b9dabccc1bd68b2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 22/33] fix: bidi SegmentIterator reversed the run it iterates
 over

---
 bidi/reordering.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index b02c352..f5d0c64 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -518,6 +518,7 @@ func (r *Run) SegmentIterator(reverse bool) *SegmentIterator {
 		reverse: reverse,
 	}
 	if reverse {
+		it.scraps = copyStackSegm(r.scraps, 0, len(r.scraps)) // leave the run unchanged
 		mid := len(it.scraps) / 2
 		for i := 0; i < mid; i++ {
 			j := len(it.scraps) - i - 1
-- 
2.43.0


From b891075c3421cd225ace6bd31ca73b7512924dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 23/33] fix: bidi Split lost, duplicated or mis-positioned
 nested isolates and dropped the embedding

---
 bidi/reordering.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f5d0c64..ee89a3e 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -50,13 +50,14 @@ func (rl *ResolvedLevels) String() string {
 // and characters are therefore “re-positioned”.
 //
 func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *ResolvedLevels) {
-	prefix, suffix := split(rl.scraps, charpos(at))
+	prefix, suffix := split(copyScraps(rl.scraps), charpos(at)) // split() is destructive
 	if shift0 {
 		//suffix = shiftzero(suffix, charpos(at))
 		shiftzero(&suffix, charpos(at))
 		tracer().Debugf("resolved levels: shifted suffix levels = %v", suffix)
 	}
-	return &ResolvedLevels{scraps: prefix}, &ResolvedLevels{scraps: suffix}
+	return &ResolvedLevels{embedding: rl.embedding, scraps: prefix},
+		&ResolvedLevels{embedding: rl.embedding, scraps: suffix}
 }
 
 func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
@@ -84,6 +85,10 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 					s.children = s.children[:j]
 					s.children = append(s.children, prefix)
 					break
+				} else if len(ch) > 0 && ch[0].l >= at { // cut is in front of this child
+					restch = append(restch, s.children[j:]...)
+					s.children = s.children[:j]
+					break
 				}
 			}
 		}
@@ -94,7 +99,8 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		rest.children = restch
 		rseg := make([]scrap, len(scraps)-i+1)
 		if isisolate(scraps[0]) {
-			rseg[0] = scraps[0] // copy IRS start
+			rseg[0] = scraps[0] // copy IRS start, but none of its text
+			rseg[0].l, rseg[0].r = at, at
 			copy(rseg[1:], scraps[i:])
 			scraps[i], rseg[1] = s, rest
 		} else {
@@ -111,13 +117,16 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 }
 
 func irsContains(scraps []scrap, pos charpos) bool {
-	return scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
+	return len(scraps) > 0 && scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
 }
 
 func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
 	for i, s := range *scraps {
 		s.l = validcharpos(s.l, offset)
 		s.r = validcharpos(s.r, offset)
+		for j := range s.children {
+			shiftzero(&s.children[j], offset)
+		}
 		(*scraps)[i] = s
 		//T().Errorf("scrap = %v", s)
 	}
@@ -383,13 +392,22 @@ func cutScrapAt(s scrap, ch []scrap) (scrap, scrap) {
 	if len(ch) == 0 {
 		panic("internal inconsistency: ch may not be empty")
 	}
+	left, right := ch[0].l, ch[0].r // bounds of ch, which may have been reordered
+	for _, c := range ch {
+		if c.l < left {
+			left = c.l
+		}
+		if c.r > right {
+			right = c.r
+		}
+	}
 	cut := scrap{
 		l:       s.l,
-		r:       ch[0].l,
+		r:       left,
 		bidiclz: s.bidiclz,
 	}
 	rest := scrap{
-		l:       ch[len(ch)-1].r,
+		l:       right,
 		r:       s.r,
 		bidiclz: s.bidiclz,
 	}
-- 
2.43.0


From 00bcd42ef4d9bb79d14846fd201f64d586eff297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 24/33] fix: bidi DirectionAt ignored nested isolates

---
 bidi/reordering.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index ee89a3e..a344e88 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -485,12 +485,22 @@ func copyScraps(scraps []scrap) []scrap {
 
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
-	for _, s := range rl.scraps {
-		if uint64(s.l) <= pos && pos < uint64(s.r) {
-			return directionFromBidiClass(s, LeftToRight)
+	return directionAt(rl.scraps, pos, rl.embedding)
+}
+
+func directionAt(scraps []scrap, pos uint64, embedding Direction) Direction {
+	for _, s := range scraps {
+		if pos < uint64(s.l) || uint64(s.r) <= pos {
+			continue
+		}
+		for _, ch := range s.children { // pos may be part of an isolating run sequence
+			if irsContains(ch, charpos(pos)) {
+				return directionAt(ch, pos, findEmbeddingDir(ch, embedding))
+			}
 		}
+		return directionFromBidiClass(s, embedding)
 	}
-	return LeftToRight
+	return embedding
 }
 
 // SegmentIterator iterates over the text segments contained in a run.
-- 
2.43.0


From d468f972e03218245189dc0b6986fe2c2e75f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 25/33] fix: bidi Reorder panicked for text with an FSI

---
 bidi/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index a344e88..9aaf353 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -314,7 +314,7 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 		case bidi.PDI:
 			panic("PDI is first scrap in child run, strange")
 		case bidi.FSI:
-			panic("bidi.FSI not yet supported")
+			return inherited // resolver uses the direction of the outer run, too
 		}
 	}
 	return inherited
-- 
2.43.0


From 7220b989c86d49b832090b3931eee6a1e89fc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 26/33] fix: bidi scanner never ended for an empty paragraph

It sent a null scrap and another one to stop, the latter of which nobody
received.
---
 bidi/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 083d553..5f996c1 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -156,8 +156,10 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			if isisolate(current) { // if last character is PDI
 				sc.handleIsolatingRunSwitch(current)
 			}
-			sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
-			sc.stop(pipe)          // then send quit signal to parser
+			if current.bidiclz != cNULL { // there is none if no text has been read
+				sc.post(current, pipe) // use lookahead as current scrap and put it onto pipe
+			}
+			sc.stop(pipe) // then send quit signal to parser
 			break
 		}
 
-- 
2.43.0


From ca7b37a6f66002269fd67d4c2e6f294f44251d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 27/33] fix: NewWordBreaker read the class tables without
 synchronization

---
 uax29/uax29.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 254fd80..407d593 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -135,9 +135,6 @@ func NewWordBreaker(weight int) *WordBreaker {
 		KatakanaClass:           {rule_WB13, rule_WB13a},
 		Regional_IndicatorClass: {rule_WB15},
 	}
-	if rangeFromUAX29Class == nil {
-		tracer().Infof("UAX#29 classes not yet initialized -> initializing")
-	}
 	SetupUAX29Classes()
 	return gb
 }
-- 
2.43.0


From 9c2c0f76d71f99db255ec0db9b67db62802ee978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:55 +0000
Subject: [PATCH 28/33] fix: PositionOfFirstLegalRune hangs on a continuation
 byte and rejects an encoded U+FFFD

---
 uax.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/uax.go b/uax.go
index f7656cd..f7869e2 100644
--- a/uax.go
+++ b/uax.go
@@ -3,18 +3,15 @@ package uax
 import "unicode/utf8"
 
 // PositionOfFirstLegalRune returns a legal Unicode code point
-// start position and cut-off prefix, if any.
+// start position and cut-off prefix, if any. If there is no legal code point,
+// the position is -1 and all of s is cut off.
 func PositionOfFirstLegalRune(s string) (int, []byte) {
-	i, l, start := 0, len(s), -1
-	for i < l {
-		if utf8.RuneStart(s[i]) {
-			r, _ := utf8.DecodeRuneInString(s[i:])
-			if r != utf8.RuneError {
-				start = i
-			}
-			break
+	for i := 0; i < len(s); {
+		r, sz := utf8.DecodeRuneInString(s[i:])
+		if r != utf8.RuneError || sz > 1 { // U+FFFD may be part of a legal text
+			return i, []byte(s[:i])
 		}
+		i += sz
 	}
-	//CT().Debugf("start index = %d", start)
-	return start, []byte(s[:i])
+	return -1, []byte(s)
 }
-- 
2.43.0


From 9a13642011ed5595f920b378d227aaf6498edf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:55 +0000
Subject: [PATCH 29/33] fix: grapheme strings drop or keep the wrong part of a
 text with illegal bytes

---
 grapheme/string.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/grapheme/string.go b/grapheme/string.go
index 6ba77dc..4b4726e 100644
--- a/grapheme/string.go
+++ b/grapheme/string.go
@@ -75,7 +75,7 @@ type shortString struct {
 
 func makeShortString(s string) String {
 	gstr := &shortString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, start := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
@@ -90,6 +90,7 @@ func makeShortString(s string) String {
 	if breaker.Err() != nil {
 		tracer().Errorf("breaker error = %v", breaker.Err())
 	}
+	gstr.content = s[start : start+br] // trim to legal runes
 	return gstr
 }
 
@@ -124,7 +125,7 @@ type midString struct {
 
 func makeMidString(s string) String {
 	gstr := &midString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, start := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
@@ -139,6 +140,7 @@ func makeMidString(s string) String {
 	if breaker.Err() != nil {
 		tracer().Errorf("breaker error = %v", breaker.Err())
 	}
+	gstr.content = s[start : start+br] // trim to legal runes
 	return gstr
 }
 
@@ -166,14 +168,17 @@ func (gstr *midString) String() string {
 
 // ---------------------------------------------------------------------------
 
-func prepareBreaking(s string) *segment.Segmenter {
+// prepareBreaking returns a segmenter for s and the position of the first legal
+// rune in s, or nil if there is none.
+func prepareBreaking(s string) (*segment.Segmenter, int) {
 	breaker := makeGraphemeBreaker()
 	start, _ := uax.PositionOfFirstLegalRune(s)
 	if start < 0 {
 		tracer().Errorf("cannot create grapheme string from invalid rune input")
+		return nil, 0
 	}
 	breaker.Init(&rr{input: s[start:], pos: 0})
-	return breaker
+	return breaker, start
 }
 
 func makeGraphemeBreaker() *segment.Segmenter {
@@ -190,7 +195,7 @@ type rr struct {
 func (reader *rr) ReadRune() (r rune, size int, err error) {
 	r, size = utf8.DecodeRuneInString(reader.input)
 	tracer().Debugf("read rune %v with size %d", r, size)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && size <= 1 { // end of input, or illegal
 		err = io.EOF
 		return
 	}
-- 
2.43.0


From 5981f661353c09760bd6ddf73a5fb793cfbe477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:55 +0000
Subject: [PATCH 30/33] fix: width of emoji: characters with default text
 presentation are not wide, no set-up required

---
 uax11/width.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/uax11/width.go b/uax11/width.go
index 0dc55cc..dc161c4 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -1,6 +1,8 @@
 package uax11
 
 import (
+	"bytes"
+	"unicode"
 	"unicode/utf8"
 
 	jj "github.com/cloudfoundry/jibber_jabber"
@@ -67,7 +69,7 @@ func StringWidth(s grapheme.String, context *Context) int {
 func graphemeWidth(grphm []byte, context *Context) int {
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
-	if emoji.EmojisClassForRune(r) >= 0 {
+	if isEmoji(r, grphm) {
 		//T().Debugf("%#U is emoji", r)
 		return 2
 	}
@@ -80,6 +82,20 @@ func graphemeWidth(grphm []byte, context *Context) int {
 	return 1
 }
 
+// variation selector VS16, selects emoji presentation for the preceding character
+const emojiVariationSelector = "\uFE0F"
+
+// isEmoji returns true for graphemes which will be displayed as an emoji, either
+// by default or because emoji presentation is selected explicitly.
+// Many emoji, including the digits, have a default text presentation.
+func isEmoji(r rune, grphm []byte) bool {
+	emoji.SetupEmojisClasses()
+	if unicode.Is(emoji.Emoji_Presentation, r) {
+		return true
+	}
+	return unicode.Is(emoji.Emoji, r) && bytes.Contains(grphm, []byte(emojiVariationSelector))
+}
+
 // --- Context ---------------------------------------------------------------
 
 // Context represents information about the typesetting environment.
-- 
2.43.0


From bf53008c9311ce24806d42e28be1f19854a1f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:56 +0000
Subject: [PATCH 31/33] fix: zero width characters are 1 or 2 en wide

---
 uax11/width.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/uax11/width.go b/uax11/width.go
index dc161c4..6f90ab4 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -69,6 +69,9 @@ func StringWidth(s grapheme.String, context *Context) int {
 func graphemeWidth(grphm []byte, context *Context) int {
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
+	if isZeroWidth(r) {
+		return 0
+	}
 	if isEmoji(r, grphm) {
 		//T().Debugf("%#U is emoji", r)
 		return 2
@@ -82,6 +85,14 @@ func graphemeWidth(grphm []byte, context *Context) int {
 	return 1
 }
 
+// isZeroWidth returns true for format characters without any visible representation,
+// e.g., ZERO WIDTH SPACE and ZERO WIDTH JOINER. The soft hyphen and the signs which
+// enclose the characters following them are format characters, too, but are visible.
+func isZeroWidth(r rune) bool {
+	return unicode.Is(unicode.Cf, r) && r != '\u00AD' &&
+		!unicode.Is(unicode.Prepended_Concatenation_Mark, r)
+}
+
 // variation selector VS16, selects emoji presentation for the preceding character
 const emojiVariationSelector = "\uFE0F"
 
-- 
2.43.0


From 22eefa79b98c86118fa6df32d10008481208d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:56 +0000
Subject: [PATCH 32/33] fix: scripts Jpan, Kore and Hrkt are no East Asian
 context

---
 uax11/width.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uax11/width.go b/uax11/width.go
index 6f90ab4..de5d757 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -203,6 +203,7 @@ func findResolver(lang language.Tag, ctx *Context) *Context {
 		// East Asian
 		"Bopo", "Hanb", "Hani", "Hans",
 		"Hant", "Hang", "Hira", "Kana",
+		"Hrkt", "Jpan", "Kore",
 		"Lana", "Kitl", "Kits", "Nkdb",
 		"Nkgb", "Plrd",
 		// South East Asian
-- 
2.43.0


From 587048aa0ec161a72a95a6f5163f1ce3465c35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:48 +0000
Subject: [PATCH 33/33] fix: shaping tables contained U+0000 and lacked their
 last range

The table generator started every table with an empty range and never
flushed the last one; a range behind U+FFFF was put into R16 if it was the
first one. Tables regenerated accordingly.
---
 internal/ucdparse/gentables.go |  79 ++++++++++++-----------
 shaping/arabictables.go        |  20 +++---
 shaping/uipctables.go          |  51 +++++++--------
 shaping/uisctables.go          | 110 +++++++++++++--------------------
 4 files changed, 117 insertions(+), 143 deletions(-)

diff --git a/internal/ucdparse/gentables.go b/internal/ucdparse/gentables.go
index 6b2a0ea..8edc7d6 100644
--- a/internal/ucdparse/gentables.go
+++ b/internal/ucdparse/gentables.go
@@ -19,59 +19,64 @@ var rangeTables map[string]*RangeTableCollector // one for each range table to g
 // RangeTableCollector is a type to collect character ranges during iteration of
 // UCD files, and later output them to Go source code.
 type RangeTableCollector struct {
-	Cat              string // character category
-	cnt, latinOffset int    // range count and unicode.RangeTable.LatinOffset
-	switch32         int    // range item where to switch to int32 size
-	ranges           [][2]rune
-	lo, hi           rune // low and high bound of current range
+	Cat    string // character category
+	ranges [][2]rune
 }
 
 // Append a range of runes to a range table collector. A single
 // character is denoted by l == r.
 //
 func (rt *RangeTableCollector) Append(l, r rune) {
-	if l == rt.hi+1 {
-		rt.hi = r // range extends previous range
+	if n := len(rt.ranges); n > 0 && l == rt.ranges[n-1][1]+1 {
+		rt.ranges[n-1][1] = r // range extends previous range
 		return
 	}
-	// check for switch points in range list
-	if rt.latinOffset == 0 && rt.hi > unicode.MaxLatin1 {
-		rt.latinOffset = rt.cnt
+	rt.ranges = append(rt.ranges, [2]rune{l, r})
+}
+
+// split distributes the ranges to those which fit into a unicode.Range16 and those which
+// do not, and counts the ranges of Latin-1 characters (unicode.RangeTable.LatinOffset).
+func (rt *RangeTableCollector) split() (r16, r32 [][2]rune, latinOffset int) {
+	const max16 = 1<<16 - 1
+	for _, r := range rt.ranges {
+		switch {
+		case r[1] <= max16:
+			r16 = append(r16, r)
+		case r[0] > max16:
+			r32 = append(r32, r)
+		default: // range crosses the 16-bit boundary
+			r16 = append(r16, [2]rune{r[0], max16})
+			r32 = append(r32, [2]rune{max16 + 1, r[1]})
+		}
 	}
-	if rt.switch32 == 0 && (rt.lo > (1<<16) || rt.hi > (1<<16)) {
-		// switch to range32
-		rt.switch32 = rt.cnt
+	for _, r := range r16 {
+		if r[1] <= unicode.MaxLatin1 {
+			latinOffset++
+		}
 	}
-	// append current range lo…hi to ranges
-	rt.ranges = append(rt.ranges, [2]rune{rt.lo, rt.hi})
-	rt.cnt++
-	rt.lo, rt.hi = l, r
+	return r16, r32, latinOffset
 }
 
 // Output creates Go source code for a range table.
 func (rt *RangeTableCollector) Output(buf *bytes.Buffer) {
-	printRangePreamble(buf, rt)
-	for i, r := range rt.ranges {
-		if rt.switch32 > 0 && i == rt.switch32 {
-			fmt.Fprintf(buf, "\t},\n\tR32: []unicode.Range32{\n")
-		}
-		fmt.Fprintf(buf, "\t\t{%#04x, %#04x, 1},\n", r[0], r[1])
+	r16, r32, latinOffset := rt.split()
+	fmt.Fprintf(buf, "var _%s = &unicode.RangeTable{ ", rt.Cat)
+	fmt.Fprintf(buf, "// %d entries\n", len(r16)+len(r32))
+	printRanges(buf, 16, r16)
+	printRanges(buf, 32, r32)
+	if latinOffset > 0 {
+		fmt.Fprintf(buf, "\tLatinOffset: %d,\n", latinOffset)
 	}
-	printRangePostamble(buf, rt)
+	fmt.Fprintf(buf, "}\n\n")
 }
 
-func printRangePreamble(buf *bytes.Buffer, t *RangeTableCollector) {
-	fmt.Fprintf(buf, "var _%s = &unicode.RangeTable{ ", t.Cat)
-	fmt.Fprintf(buf, "// %d entries", t.cnt)
-	fmt.Fprintf(buf, `
-	R16: []unicode.Range16{
-`)
-}
-
-func printRangePostamble(buf *bytes.Buffer, t *RangeTableCollector) {
-	if t.latinOffset > 0 {
-		fmt.Fprintf(buf, "\t},\n\tLatinOffset: %d,\n}\n\n", t.latinOffset)
-	} else {
-		fmt.Fprintf(buf, "\t},\n}\n\n")
+func printRanges(buf *bytes.Buffer, bits int, ranges [][2]rune) {
+	if len(ranges) == 0 {
+		return
+	}
+	fmt.Fprintf(buf, "\tR%d: []unicode.Range%d{\n", bits, bits)
+	for _, r := range ranges {
+		fmt.Fprintf(buf, "\t\t{%#04x, %#04x, 1},\n", r[0], r[1])
 	}
+	fmt.Fprintf(buf, "\t},\n")
 }
diff --git a/shaping/arabictables.go b/shaping/arabictables.go
index 320fc5a..1530022 100644
--- a/shaping/arabictables.go
+++ b/shaping/arabictables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _ARAB_D = &unicode.RangeTable{ // 72 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0620, 0x0620, 1},
 		{0x0626, 0x0626, 1},
 		{0x0628, 0x0628, 1},
@@ -80,13 +79,12 @@ var _ARAB_D = &unicode.RangeTable{ // 72 entries
 		{0x10fc1, 0x10fc1, 1},
 		{0x10fc4, 0x10fc4, 1},
 		{0x10fca, 0x10fca, 1},
+		{0x1e900, 0x1e943, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_R = &unicode.RangeTable{ // 62 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0622, 0x0625, 1},
 		{0x0627, 0x0627, 1},
 		{0x0629, 0x0629, 1},
@@ -150,45 +148,43 @@ var _ARAB_R = &unicode.RangeTable{ // 62 entries
 		{0x10fb9, 0x10fba, 1},
 		{0x10fbd, 0x10fbd, 1},
 		{0x10fc2, 0x10fc3, 1},
+		{0x10fc9, 0x10fc9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_C = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0640, 0x0640, 1},
 		{0x07fa, 0x07fa, 1},
 		{0x180a, 0x180a, 1},
+		{0x200d, 0x200d, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_T = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x070f, 0x070f, 1},
 		{0x1885, 0x1886, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1e94b, 0x1e94b, 1},
+	},
 }
 
 var _ARAB_L = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0xa872, 0xa872, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10acd, 0x10acd, 1},
 		{0x10ad7, 0x10ad7, 1},
 		{0x10d00, 0x10d00, 1},
+		{0x10fcb, 0x10fcb, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_U = &unicode.RangeTable{ // 29 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0600, 0x0605, 1},
 		{0x0608, 0x0608, 1},
 		{0x060b, 0x060b, 1},
@@ -219,8 +215,8 @@ var _ARAB_U = &unicode.RangeTable{ // 29 entries
 		{0x10fc0, 0x10fc0, 1},
 		{0x10fc5, 0x10fc8, 1},
 		{0x110bd, 0x110bd, 1},
+		{0x110cd, 0x110cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
diff --git a/shaping/uipctables.go b/shaping/uipctables.go
index 786df75..d403bb2 100644
--- a/shaping/uipctables.go
+++ b/shaping/uipctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x0941, 0x0944, 1},
 		{0x094d, 0x094d, 1},
@@ -151,55 +150,56 @@ var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 		{0x11d42, 0x11d42, 1},
 		{0x11d44, 0x11d44, 1},
 		{0x11d47, 0x11d47, 1},
+		{0x11ef4, 0x11ef4, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Bottom = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0c48, 0x0c48, 1},
 		{0x0f73, 0x0f73, 1},
 		{0x0f76, 0x0f79, 1},
 		{0x0f81, 0x0f81, 1},
 		{0x1b3c, 0x1b3c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1112e, 0x1112f, 1},
+	},
 }
 
 var _UIPC_Bottom_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1b3b, 0x1b3b, 1},
 		{0xa9be, 0xa9be, 1},
 		{0xa9c0, 0xa9c0, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11942, 0x11942, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Left = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x103c, 0x103c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1171e, 0x1171e, 1},
+	},
 }
 
 var _UIPC_Overstruck = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1cd4, 0x1cd4, 1},
 		{0x1ce2, 0x1ce8, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10a01, 0x10a01, 1},
+		{0x10a06, 0x10a06, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093f, 0x093f, 1},
 		{0x094e, 0x094e, 1},
 		{0x09bf, 0x09bf, 1},
@@ -248,13 +248,12 @@ var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 		{0x119d2, 0x119d2, 1},
 		{0x119e4, 0x119e4, 1},
 		{0x11cb1, 0x11cb1, 1},
+		{0x11ef5, 0x11ef5, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09cb, 0x09cc, 1},
 		{0x0b4b, 0x0b4b, 1},
 		{0x0bca, 0x0bcc, 1},
@@ -270,13 +269,12 @@ var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 		{0x114bc, 0x114bc, 1},
 		{0x114be, 0x114be, 1},
 		{0x115ba, 0x115ba, 1},
+		{0x11938, 0x11938, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x093a, 0x093a, 1},
 		{0x0945, 0x0948, 1},
@@ -471,13 +469,12 @@ var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 		{0x11d43, 0x11d43, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d95, 0x11d95, 1},
+		{0x11ef3, 0x11ef3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x093b, 0x093b, 1},
 		{0x093e, 0x093e, 1},
@@ -643,42 +640,41 @@ var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d93, 0x11d94, 1},
 		{0x11d96, 0x11d96, 1},
+		{0x11ef6, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b4c, 0x0b4c, 1},
 		{0x0ddd, 0x0ddd, 1},
 		{0x17bf, 0x17bf, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x115bb, 0x115bb, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Right = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1b3d, 0x1b3d, 1},
 	},
 }
 
 var _UIPC_Visual_Order_Left = &unicode.RangeTable{ // 7 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e40, 0x0e44, 1},
 		{0x0ec0, 0x0ec4, 1},
 		{0x19b5, 0x19b7, 1},
 		{0x19ba, 0x19ba, 1},
 		{0xaab5, 0xaab6, 1},
 		{0xaab9, 0xaab9, 1},
+		{0xaabb, 0xaabc, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0ac9, 0x0ac9, 1},
 		{0x0b57, 0x0b57, 1},
 		{0x0cc0, 0x0cc0, 1},
@@ -689,13 +685,12 @@ var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	},
 	R32: []unicode.Range32{
 		{0x111bf, 0x111bf, 1},
+		{0x11232, 0x11233, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b48, 0x0b48, 1},
 		{0x0dda, 0x0dda, 1},
 		{0x17be, 0x17be, 1},
@@ -703,13 +698,13 @@ var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	},
 	R32: []unicode.Range32{
 		{0x114bb, 0x114bb, 1},
+		{0x115b9, 0x115b9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Bottom_And_Left = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0xa9bf, 0xa9bf, 1},
 	},
 }
 
diff --git a/shaping/uisctables.go b/shaping/uisctables.go
index bb8ae4f..5188717 100644
--- a/shaping/uisctables.go
+++ b/shaping/uisctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x09bc, 0x09bc, 1},
 		{0x0a3c, 0x0a3c, 1},
@@ -34,31 +33,27 @@ var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 		{0x116b7, 0x116b7, 1},
 		{0x1183a, 0x1183a, 1},
 		{0x11943, 0x11943, 1},
+		{0x11d42, 0x11d42, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Prefixed = &unicode.RangeTable{ // 4 entries
-	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
-	},
 	R32: []unicode.Range32{
 		{0x111c2, 0x111c3, 1},
 		{0x1193f, 0x1193f, 1},
 		{0x11a3a, 0x11a3a, 1},
+		{0x11a84, 0x11a89, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Modifying_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0b83, 0x0b83, 1},
 	},
 }
 
 var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e48, 0x0e4b, 1},
 		{0x0ec8, 0x0ecb, 1},
 		{0x1037, 0x1037, 1},
@@ -73,24 +68,22 @@ var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 		{0xaa7b, 0xaa7d, 1},
 		{0xaabf, 0xaabf, 1},
 		{0xaac1, 0xaac1, 1},
+		{0xabec, 0xabec, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Gemination_Mark = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a71, 0x0a71, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11237, 0x11237, 1},
+		{0x11a98, 0x11a98, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x0983, 0x0983, 1},
 		{0x0a03, 0x0a03, 1},
@@ -127,13 +120,12 @@ var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 		{0x11a97, 0x11a97, 1},
 		{0x11c3e, 0x11c3e, 1},
 		{0x11d41, 0x11d41, 1},
+		{0x11d96, 0x11d96, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1930, 0x1931, 1},
 		{0x1933, 0x1939, 1},
 		{0x19c1, 0x19c7, 1},
@@ -145,12 +137,13 @@ var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 		{0xaa40, 0xaa4d, 1},
 		{0xabdb, 0xabe2, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11a8a, 0x11a95, 1},
+	},
 }
 
 var _UISC_Number = &unicode.RangeTable{ // 45 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0030, 0x0039, 1},
 		{0x0966, 0x096f, 1},
 		{0x09e6, 0x09ef, 1},
@@ -197,13 +190,13 @@ var _UISC_Number = &unicode.RangeTable{ // 45 entries
 		{0x11950, 0x11959, 1},
 		{0x11c50, 0x11c6c, 1},
 		{0x11d50, 0x11d59, 1},
+		{0x11da0, 0x11da9, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d3b, 0x0d3c, 1},
 		{0x0e3a, 0x0e3a, 1},
 		{0x0e4e, 0x0e4e, 1},
@@ -226,13 +219,12 @@ var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 		{0x1172b, 0x1172b, 1},
 		{0x1193d, 0x1193d, 1},
 		{0x11a34, 0x11a34, 1},
+		{0x11d44, 0x11d44, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0904, 0x0914, 1},
 		{0x0960, 0x0961, 1},
 		{0x0972, 0x0977, 1},
@@ -321,13 +313,12 @@ var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 		{0x11d0b, 0x11d0b, 1},
 		{0x11d60, 0x11d65, 1},
 		{0x11d67, 0x11d68, 1},
+		{0x11d6a, 0x11d6b, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x002d, 0x002d, 1},
 		{0x00a0, 0x00a0, 1},
 		{0x00d7, 0x00d7, 1},
@@ -344,25 +335,25 @@ var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R32: []unicode.Range32{
 		{0x11a3f, 0x11a3f, 1},
 		{0x11a45, 0x11a45, 1},
+		{0x11ef2, 0x11ef2, 1},
 	},
-	LatinOffset: 4,
+	LatinOffset: 3,
 }
 
 var _UISC_Consonant_Head_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0f88, 0x0f8c, 1},
 	},
 }
 
 var _UISC_Non_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200c, 0x200c, 1},
 	},
 }
 
 var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1039, 0x1039, 1},
 		{0x17d2, 0x17d2, 1},
 		{0x1a60, 0x1a60, 1},
@@ -376,25 +367,24 @@ var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 		{0x11a47, 0x11a47, 1},
 		{0x11a99, 0x11a99, 1},
 		{0x11d45, 0x11d45, 1},
+		{0x11d97, 0x11d97, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Initial_Postfixed = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1a5a, 0x1a5a, 1},
 	},
 }
 
 var _UISC_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200d, 0x200d, 1},
 	},
 }
 
 var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x0981, 0x0982, 1},
 		{0x09fc, 0x09fc, 1},
@@ -452,13 +442,12 @@ var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 		{0x11c3c, 0x11c3d, 1},
 		{0x11cb5, 0x11cb6, 1},
 		{0x11d40, 0x11d40, 1},
+		{0x11d95, 0x11d95, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x094d, 0x094d, 1},
 		{0x09cd, 0x09cd, 1},
 		{0x0a4d, 0x0a4d, 1},
@@ -487,13 +476,12 @@ var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 		{0x116b6, 0x116b6, 1},
 		{0x11839, 0x11839, 1},
 		{0x119e0, 0x119e0, 1},
+		{0x11c3f, 0x11c3f, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093a, 0x093b, 1},
 		{0x093e, 0x094c, 1},
 		{0x094e, 0x094f, 1},
@@ -627,13 +615,12 @@ var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d93, 0x11d94, 1},
+		{0x11ef3, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0915, 0x0939, 1},
 		{0x0958, 0x095f, 1},
 		{0x0978, 0x097f, 1},
@@ -788,24 +775,24 @@ var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 		{0x11c72, 0x11c8f, 1},
 		{0x11d0c, 0x11d30, 1},
 		{0x11d6c, 0x11d89, 1},
+		{0x11ee0, 0x11ef1, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1963, 0x196d, 1},
 		{0xa85e, 0xa861, 1},
 		{0xa866, 0xa866, 1},
 		{0xa922, 0xa92a, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11150, 0x11154, 1},
+	},
 }
 
 var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0f8d, 0x0f97, 1},
 		{0x0f99, 0x0fbc, 1},
 		{0x1929, 0x192b, 1},
@@ -819,13 +806,12 @@ var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	},
 	R32: []unicode.Range32{
 		{0x11c92, 0x11ca7, 1},
+		{0x11ca9, 0x11caf, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0951, 0x0952, 1},
 		{0x0a51, 0x0a51, 1},
 		{0x0afa, 0x0afc, 1},
@@ -839,19 +825,18 @@ var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R32: []unicode.Range32{
 		{0x1123e, 0x1123e, 1},
 		{0x11366, 0x1136c, 1},
+		{0x11370, 0x11374, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Register_Shifter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x17c9, 0x17ca, 1},
 	},
 }
 
 var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x00b2, 0x00b3, 1},
 		{0x09fe, 0x09fe, 1},
 		{0x0f35, 0x0f35, 1},
@@ -872,19 +857,19 @@ var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R32: []unicode.Range32{
 		{0x111c9, 0x111c9, 1},
 		{0x1145e, 0x1145e, 1},
+		{0x11a33, 0x11a33, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Number_Joiner = &unicode.RangeTable{ // 1 entries
-	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	R32: []unicode.Range32{
+		{0x1107f, 0x1107f, 1},
 	},
 }
 
 var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093d, 0x093d, 1},
 		{0x09bd, 0x09bd, 1},
 		{0x0abd, 0x0abd, 1},
@@ -903,34 +888,31 @@ var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 		{0x114c4, 0x114c4, 1},
 		{0x119e1, 0x119e1, 1},
 		{0x11a9d, 0x11a9d, 1},
+		{0x11c40, 0x11c40, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Dead = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09ce, 0x09ce, 1},
 		{0x0d54, 0x0d56, 1},
 		{0x0d7a, 0x0d7f, 1},
+		{0x1cf2, 0x1cf3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Preceding_Repha = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d4e, 0x0d4e, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11941, 0x11941, 1},
+		{0x11d46, 0x11d46, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a75, 0x0a75, 1},
 		{0x0ebc, 0x0ebd, 1},
 		{0x103b, 0x103e, 1},
@@ -946,53 +928,49 @@ var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 		{0x11940, 0x11940, 1},
 		{0x11942, 0x11942, 1},
 		{0x11a3b, 0x11a3e, 1},
+		{0x11d47, 0x11d47, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Killer = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e4c, 0x0e4c, 1},
+		{0x17cd, 0x17cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Brahmi_Joining_Number = &unicode.RangeTable{ // 1 entries
-	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	R32: []unicode.Range32{
+		{0x11052, 0x11065, 1},
 	},
 }
 
 var _UISC_Consonant_With_Stacker = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0cf1, 0x0cf2, 1},
 		{0x1cf5, 0x1cf6, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11003, 0x11004, 1},
+		{0x11460, 0x11461, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Succeeding_Repha = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x17cc, 0x17cc, 1},
 		{0x1b03, 0x1b03, 1},
 		{0x1b81, 0x1b81, 1},
+		{0xa982, 0xa982, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Tone_Letter = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1970, 0x1974, 1},
 		{0xaac0, 0xaac0, 1},
+		{0xaac2, 0xaac2, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
-- 
2.43.0

