# The single source of properties.jsonl, MANIFEST.json, checker/props.json
# (texts of the evidence files) and of the per-property part of DESIGN.md.
# Run: python3 tools/gen.py
P = []
NA = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, rule, assume, design, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, rule=rule, assume=assume, design=design, observe=observe))

def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=None, technique=None, reason=reason, design=None))
    NA.append((id, reason))

SSA = "go/types and go/ssa represent the source faithfully; goroutine scheduling, the garbage collector and calls into the standard library behave as documented"

prop("W01", "Word boundaries follow the rules of UAX#29",
 "For every sequence of UAX#29 character classes, a segmenter using the word breaker may break between two code points exactly where the UAX#29 word boundary rules WB3–WB16 and WB999 have a boundary, and never where they forbid one. Decisions that depend on following characters are announced as pending until they are made.",
 ["inputs"], "every finite sequence of word-break classes followed by the end of the text",
 "The rules look at an unbounded context (ignored Extend/Format characters, pairs of regional indicators, look-ahead over ignored characters); tests compare the segmentation of a few sentences.",
 ["uax29/uax29.go", "automata.go"],
 [("recognizers of the word breaker", "uax29/uax29.go: rule_* functions, WordBreaker.StartRulesFor, ProceedWithRune, LongestActiveMatch, Penalties"), ("dispatch of runes to recognizers", "automata.go: PublishRuneEvent, Recognizer.RuneEvent")],
 "model extraction by abstract interpretation of the SSA form, then an exhaustive product with a reference transducer for WB3-WB16/WB999",
 "other", "Every state function is interpreted abstractly per character class; the product of the extracted machine with the reference transducer is explored to a fixed point, bounded only in the number of ignored characters in a row (4 quick, more thorough). The class of a code point is C01's matter; ExtPict characters that also are ALetter after ZWJ are outside of the alphabet.",
 "Product of the extracted recognizer machine with the reference transducer of WB3-WB16 and WB999: when a position is no longer covered by the longest active match (or the text ends), the sum of the penalties given to it allows a break iff the reference has a boundary there.",
 [SSA, "penalties set by the rules are summed per position, as documented for the segmenter", "code points are represented by their UAX#29 class (see C01)"],
 "The state functions of the recognizers are found from the API (constructor, StartRulesFor) and interpreted per class, so they may be rewritten, renamed or merged. The interpretation yields a finite transducer with registers (expected class, match length, fields of the breaker); its product with a reference transducer written from the text of UAX#29 is explored completely over the class alphabet. A disagreement is reported with the shortest class sequence and the state function. Found W01's genuine defect (WB7b).")

prop("G01", "Grapheme cluster boundaries follow the rules of UAX#29",
 "For every sequence of grapheme-break and emoji classes, a segmenter using the grapheme breaker may break between two code points exactly where the UAX#29 extended grapheme cluster rules GB3–GB13 and GB999 have a boundary, and never where they forbid one.",
 ["inputs"], "every finite sequence of grapheme-break classes (and Extended_Pictographic) followed by the end of the text",
 "The rules look at an unbounded context (pairs of regional indicators, emoji ZWJ sequences with any number of extenders, Hangul syllables); tests only look at a few strings.",
 ["grapheme/grapheme.go", "automata.go"],
 [("recognizers of the grapheme breaker", "grapheme/grapheme.go: rule_* functions, Breaker.StartRulesFor, ProceedWithRune, LongestActiveMatch, Penalties"), ("dispatch of runes to recognizers", "automata.go: PublishRuneEvent, Recognizer.RuneEvent")],
 "model extraction by abstract interpretation of the SSA form, then an exhaustive product with a reference transducer for GB3-GB13/GB999",
 "other", "As W01. The classes of code points are the matter of C02 and C03.",
 "Product of the extracted recognizer machine with the reference transducer of GB3-GB13 and GB999: when a position is no longer covered by the longest active match (or the text ends), the sum of the penalties given to it allows a break iff the reference has a boundary there.",
 [SSA, "code points are represented by their grapheme class (see C02), Extended_Pictographic being a class of its own (see C03)"],
 "Same machinery as W01 with a reference transducer for the grapheme cluster rules. Found the genuine defect in GB9b.")

prop("C01", "Every code point has its UAX#29 word class",
 "After setup, ClassForRune and the word breaker's CodePointClassFor give every code point its Word_Break class (Extended_Pictographic characters without a class of their own get one of their own in the breaker), and the exported range tables contain exactly the code points of their class. No code point makes the lookup panic.",
 ["inputs"], "all 1,114,112 code points except U+0000, which is the end-of-text signal of this library",
 "Tests look up the few hundred characters of the conformance test file; a wrong entry shows only for text using that character.",
 ["uax29/uax29.go", "uax29/uax29classes.go", "emoji/emojiclasses.go"],
 [("class lookup", "uax29/uax29.go: ClassForRune, WordBreaker.CodePointClassFor, SetupUAX29Classes"), ("class tables", "uax29/uax29classes.go: setupUAX29Classes"), ("pictographs", "emoji/emojiclasses.go: setupEmojisClasses")],
 "abstract interpretation of initialisers and setup functions with range tables as sets of code points; path conditions of the lookup evaluated for all code points against reference data",
 "other", "Exhaustive over all code points. The reference are the code points on which the Unicode versions 11 to 15 agree (the tables of the repository are of version 11/12), so entries Unicode changed since are not judged.",
 "Package initialisers and the setup functions are interpreted, rangetable.New/Merge yielding sets of code points; the lookup functions are interpreted for an unknown rune, and their path conditions are evaluated for every code point and compared with the Unicode character database.",
 [SSA, "rangetable.New and Merge build the union of their arguments, unicode.Is tests membership", "the reference data in checker/data/word.txt, derived from the Unicode 15.0 data of the installed Perl and restricted to what has not changed since version 11"],
 "The lookup is not executed: its paths are conditions on set membership and comparisons of the rune with constants, and partition the code points.")

prop("C02", "Every code point has its grapheme cluster class",
 "After setup, ClassForRune and the grapheme breaker's CodePointClassFor give every code point its Grapheme_Cluster_Break class (Extended_Pictographic characters get a class of their own in the breaker), and the exported range tables contain exactly the code points of their class. No code point makes the lookup panic.",
 ["inputs"], "all 1,114,112 code points except U+0000, which is the end-of-text signal of this library, and the surrogates",
 "Tests look up the few hundred characters of the conformance test file; a wrong entry shows only for text using that character.",
 ["grapheme/grapheme.go", "grapheme/graphemeclasses.go", "emoji/emojiclasses.go"],
 [("class lookup", "grapheme/grapheme.go: ClassForRune, Breaker.CodePointClassFor, SetupGraphemeClasses"), ("class tables", "grapheme/graphemeclasses.go: setupGraphemeClasses"), ("pictographs", "emoji/emojiclasses.go: setupEmojisClasses")],
 "abstract interpretation of initialisers and setup functions with range tables as sets of code points; path conditions of the lookup evaluated for all code points against reference data",
 "other", "As C01. A genuine defect (class of U+FFFD) is recorded as a known finding, since an existing test relies on it.",
 "As C01, for the grapheme classes.",
 [SSA, "rangetable.New and Merge build the union of their arguments, unicode.Is tests membership", "the reference data in checker/data/grapheme.txt, derived as for C01"],
 "Same machinery as C01. Found the classification of U+FFFD as Control.")

prop("C03", "Emoji properties of every code point are those of Unicode",
 "After setup, the exported emoji tables contain exactly the code points having that property, and EmojisClassForRune gives a property the code point has, or -1 exactly for code points without any emoji property.",
 ["inputs"], "all 1,114,112 code points except U+0000",
 "There is no test of the emoji package; clients (word, grapheme and line breaking, width) use the tables for every character.",
 ["emoji/emoji.go", "emoji/emojiclasses.go"],
 [("emoji tables", "emoji/emojiclasses.go: setupEmojisClasses, range tables"), ("emoji lookup", "emoji/emoji.go: EmojisClassForRune, SetupEmojisClasses")],
 "abstract interpretation of initialisers and setup functions with range tables as sets of code points; path conditions of the lookup evaluated for all code points against reference data",
 "other", "Exhaustive over all code points; code points whose property changed between Unicode 11 and 15 are not judged.",
 "As C01, for the emoji tables and their lookup.",
 [SSA, "rangetable.New builds the union of its arguments, unicode.Is tests membership", "the reference data in checker/data/emoji.txt, derived as for C01"],
 "Same machinery as C01.")

prop("P01", "A rune event reaches every subscriber exactly once",
 "Publishing a rune calls every subscribed recognizer exactly once with that rune and its class, keeps exactly those subscribed which are not done, tells exactly the others that they have been unsubscribed, and reports the longest match of those still active. Penalties reported by subscribers are added up position by position, without changing the slices the subscribers hand out.",
 ["histories", "inputs"], "every number of subscribers up to the bound, every combination of finished and continuing subscribers, every order of match lengths, and the event after it; 72 subscribers with up to 70 penalties and one pattern of finished ones",
 "Which subscribers finish together and in which order of match lengths depends on the text; tests have two subscribers.",
 ["automata.go", "prioq.go"],
 [("publisher", "automata.go: DefaultRunePublisher.PublishRuneEvent, SubscribeMe, SetPenaltyAggregator"), ("priority queue", "prioq.go: Fix, bubbleUp, Push, Pop")],
 "abstract interpretation with trace partitioning over the SSA form; subscribers are opaque, their answers path conditions",
 "other", "All combinations up to 3 (quick) or 4 (thorough) subscribers with opaque recognizers; the match lengths take all orderings.",
 "PublishRuneEvent is interpreted for queues of n opaque subscribers built through SubscribeMe, n up to the bound, for every combination of done/not done and every ordering of match lengths, and once more on the resulting queue; calls, survivors, the return value and the aggregate of the penalties are compared with the contract.",
 [SSA, "subscribers do not subscribe or unsubscribe others during an event"],
 "Deliveries, unsubscriptions, the returned longest match, the remaining queue and the aggregated penalties are compared with the contract on every abstract path, for every subset of finishing subscribers. The priority queue is covered through its users only, so it can be rewritten.")

prop("Q01", "The queue of subscribers offers finished subscribers first",
 "For every sequence of operations on a rune publisher (SubscribeMe/Push of active or finished subscribers; Pop; PopDone; Fix of a subscriber after its Done state changed), Len is the number of subscribers held, Top and Pop deliver a held subscriber and one which is Done if there is any, PopDone delivers a Done subscriber if there is any and nil otherwise. No subscriber is lost or delivered twice, and no operation panics (Pop and PopDone of a nil publisher deliver nil).",
 ["histories"], "every sequence of operations with up to 5 (thorough: 9) subscribers held at the same time, and any Done states; four patterns of 300 subscribers pushed, changed, and popped",
 "Orders of operations and Done states multiply; tests use a handful of sequences.",
 ["prioq.go", "automata.go"],
 [("queue operations", "prioq.go: DefaultRunePublisher.Push, Pop, PopDone, Top, Fix, Len"), ("subscription", "automata.go: DefaultRunePublisher.SubscribeMe")],
 "abstract interpretation over go/ssa of the queue operations on abstract queues (Done states in order, subscribers interchangeable), transition system explored to a fixed point",
 "other", "The number of subscribers is bounded, the number of operations is not: the abstract transition system is closed under all operations.",
 "From the empty publisher, every operation is interpreted on every reachable abstract queue; the result of each operation is compared with a set of subscribers and their Done states, and a panicking path is a violation.",
 [SSA, "Fix is called with the position of the subscriber whose Done state has changed, before another one changes, as PublishRuneEvent does"],
 "The queue is found as the slice of interface values inside of the publisher; if it is stored otherwise, Fix is left out and reported as undecided, and sequences of up to 6 operations are explored.")

prop("P02", "Pooled recognizers carry nothing over from an earlier use",
 "A recognizer handed out for a new match behaves like a freshly created one: nothing a client can observe depends on an earlier use of the pooled object. A recognizer is put back at most once per release and is not written to afterwards; an event runs the current step exactly once and installs the step it returns.",
 ["histories"], "every history of uses of a pooled recognizer",
 "A stale field shows only if the pool happens to hand out that object again for a recognizer that reads the field.",
 ["automata.go"],
 [("recognizer pool", "automata.go: NewPooledRecognizer, Recognizer.Unsubscribed, releaseIntoPool"), ("recognizer protocol", "automata.go: Recognizer.RuneEvent, MatchLength, Done")],
 "dataflow over object contents by abstract interpretation: release and borrow composed with opaque old contents (non-interference)",
 "proof", "Non-interference: after release and borrow no field depends on the opaque old content. The protocol part interprets RuneEvent with an opaque step function.",
 "Unsubscribed is interpreted on a recognizer with opaque content, NewPooledRecognizer on what is left of it: every field of the result has to be independent of the old content, except fields that are always written before they are read. RuneEvent is interpreted with an opaque step function.",
 [SSA, "the object pool hands out an object at most once until it is returned"],
 "A taint-like argument on field contents. Found the genuine defect: UserData survived the pool.")

prop("S01", "Segmenting conserves the text",
 "Whatever the sequence of segment requests, with or without a bound, the segments returned are consecutive, non-overlapping pieces of the input in order, without loss, duplication or alteration, as long as no error is reported; a bounded request never returns text beyond its bound. If the end of the text is a break opportunity, the segments together are the whole text, however long it is.",
 ["inputs", "histories"], "every text, every breaker obeying the contract of unicode breakers, every sequence of Next and BoundedNext calls within the explored length",
 "Where break opportunities, bounds and the end of input meet depends on the text, the breaker and the calls; tests use one breaker and a handful of sentences.",
 ["segment/segment.go", "segment/deque.go"],
 [("segmenter", "segment/segment.go: Segmenter.Next, BoundedNext, getFrontSegment, readRune, readEnoughInput"), ("queue of look-ahead runes", "segment/deque.go")],
 "abstract interpretation with trace partitioning of the segmenter on an abstract reader, abstract breakers and unknown penalties",
 "other", "Texts of 0..2 (thorough 3) opaque runes with all look-ahead behaviours and all feasible/infeasible penalties, plus long texts of 70, 130 and 4200 runes; beyond that, the argument is by bound.",
 "NewSegmenter, Init/InitFromSlice, Next and BoundedNext are interpreted on opaque runes r0, r1, … and a breaker whose match lengths follow all patterns and whose penalties are unknown integers; the concatenation of the segments has to be a prefix of the text at any time and the whole text in the end.",
 [SSA, "breakers obey their contract: a penalty is final once the position is not covered by the longest active match"],
 "Found two genuine defects, both repaired: truncation of segments longer than 4096 runes, and text lost or overrun when the end of the text is near a bound.")

prop("S02", "Errors of the segmenter are reported, never swallowed",
 "A failed request returns false, and the reason is available: a call before initialisation reports the not-initialized error, an error of the reader is reported unchanged once the text before it has been delivered, a segment that does not fit the buffer reports the too-long error, and the regular end of the text reports none. No call panics.",
 ["fault_sequences", "inputs"], "every position of a read error or buffer overflow in the explored texts, and calls before initialisation",
 "The error depends on where the reader fails relative to the look-ahead of the breakers; tests have no failing reader.",
 ["segment/segment.go"],
 [("error handling of the segmenter", "segment/segment.go: Segmenter.Next, Err, setErr, readRune, getFrontSegment"), ("errors", "segment/segment.go: ErrNotInitialized, ErrTooLong, ErrBoundReached")],
 "abstract interpretation with trace partitioning; the reader fails at every position",
 "other", "Read errors at every position of texts of 0..2 opaque runes with every look-ahead pattern; buffers of 1..5 runes with segments of 1..4 runes.",
 "The segmenter is interpreted with a reader failing after n runes, without initialisation, and with client buffers smaller and larger than the segment; results and Err() are compared with the contract on every path.",
 [SSA],
 "Found two genuine defects, both repaired: Next before Init panicked, a segment too long for the buffer was cut silently.")

prop("S03", "A segmenter can be re-initialised at any time",
 "After initialising a segmenter with a new text, its segments, penalties, errors and the events its breakers receive are those of a fresh segmenter for the new text, whatever was done with the previous text: nothing read, partially read, read to its end, stopped at a bound or by an error. Before the first request for the new text there is no segment, no penalty and no error, and the buffer may be replaced.",
 ["histories"], "every explored history of the first text, followed by every explored second text",
 "The state left by the first text depends on where it was abandoned; tests re-initialise only after complete texts.",
 ["segment/segment.go", "segment/deque.go"],
 [("initialisation", "segment/segment.go: Segmenter.Init, InitFromSlice, reset"), ("queue", "segment/deque.go: Clear")],
 "abstract interpretation: the second text is interpreted from the states the first one leaves, and compared with the reference segmenter",
 "other", "Histories: before any call, in the middle, at the end, after a bound, after a read error, after a call without initialisation, after a segment too long; second texts of 0..2 opaque runes with all look-ahead patterns.",
 "The abstract states after each kind of history are the starting states for Init with a second text, whose calls are compared with the reference segmenter.",
 [SSA, "the breakers themselves start afresh with a new text, as their contract demands"],
 "Found a genuine defect, repaired: the error of the previous text survived.")

prop("S04", "Segments end exactly at the break opportunities of the breakers",
 "A segment ends after a rune exactly if the primary breaker (or the secondary one) has given that position a penalty that allows a break; both penalties are reported with the segment, summed over all penalties given to that position. Every rune of the text, its class and one end-of-text signal go to every breaker exactly once and in order, and no segment is delivered before the decision about its end is final.",
 ["inputs", "schedules"], "every text and look-ahead behaviour within the explored bounds, unknown penalties, one to six breakers, both settings of the zero-penalty option",
 "Combinations of look-ahead, summed penalties and two breakers are rare in test texts.",
 ["segment/segment.go"],
 [("break policy", "segment/segment.go: isPossibleBreak, insertPenalties, readEnoughInput, printQ, Penalties"), ("breaker contract", "segment/segment.go: UnicodeBreaker")],
 "abstract interpretation with trace partitioning, compared with a reference segmenter",
 "other", "Texts of 0..2 (thorough 3) opaque runes with one breaker, up to 2 with two to six breakers, and matches of 4 and 6 runes which end with penalties for all of them; penalties are unknown integers, so every feasibility combination is covered.",
 "For every look-ahead pattern of breakers obeying the contract, every path through Next is compared with a reference segmenter (segment, both penalties, events delivered to the breakers).",
 [SSA, "breakers obey their contract"],
 "A reference segmenter, which needs no queue, decides on each path where the segment has to end; penalties are symbolic sums.")

prop("S05", "The default breaker separates words and white space",
 "The default segmenter breaker reports a position as a break opportunity exactly where a run of white space and a run of other characters meet, in either order, and at the end of the text; the penalty before white space differs from the one after it as documented. The state does not leak from one text to the next.",
 ["inputs"], "every sequence of white-space, other and end-of-text runes up to the bound",
 "A counter that is off by one shows only for certain run lengths or after an end of text.",
 ["segment/simplewordbreak.go"],
 [("default breaker", "segment/simplewordbreak.go: SimpleWordBreaker")],
 "abstract interpretation over all sequences of rune kinds up to a length, runes opaque",
 "other", "All sequences over {word, space, end of text} of length 6 (thorough 8); the class is checked for every code point of Unicode.",
 "The methods of the default breaker are interpreted for every sequence of rune kinds up to the bound; match length and penalties are compared with the specification.",
 [SSA, "white space is what unicode.IsSpace says, as documented"],
 "All kinds of runes are covered by a path condition on unicode.IsSpace.")

prop("S06", "The look-ahead queue behaves as a sequence",
 "The segmenter's queue of pending runes returns runes and penalties unchanged and in order, for every history of insertions and removals: reaching, wrapping around and growing past its capacity, and shrinking again.",
 ["histories"], "every ring position up to 64 combined with element counts around all capacity limits, and every operation on it; for two ring positions growing up to 1026 and 4098 elements",
 "Errors in ring arithmetic show only when the content wraps around at the moment it grows; tests never fill the queue.",
 ["segment/deque.go"],
 [("ring buffer", "segment/deque.go: deque")],
 "abstract interpretation of the queue operations with opaque contents, compared with the sequence they stand for",
 "other", "Ring positions 0..64 (thorough 0..129) combined with 17 element counts around 16, 32, 64, 128 (two positions up to 4098), elements opaque. Internal type: if it is renamed or replaced, the check has nothing to look at and says so.",
 "Every operation, and every operation after Clear, is interpreted on the queues reached by pushing and popping, for ring positions and element counts around the capacity limits; contents are opaque symbols and have to come out as the sequence says.",
 [SSA],
 "Contents are opaque, so one abstract run stands for all texts.")

BIDI_ASM = ["the scanner delivers scraps as B01 demands (maximal runs of one class after W1–W3, consecutive positions, one terminating null scrap)", "inputs are UTF-8; legacy embeddings and overrides (LRE..PDF), FSI and isolates that are never closed are outside of the alphabet (documented as unsupported)"]
prop("B02", "Weak and neutral Bidi classes are resolved as UAX#9 says",
 "For every sequence of Bidi classes in a left-to-right or right-to-left paragraph, within and across isolating run sequences, the resolver assigns every run of characters the class which rules W4–W7 and N1–N2 of UAX#9 prescribe: separators and terminators next to numbers, European numbers after left-to-right text, and neutrals between strong types, at the start, at the end, and on both sides of an isolate.",
 ["inputs"], "every sequence of runs of Bidi classes up to 6 runs, and unbounded sequences with a bounded window of unresolved runs; isolates nested once (thorough: twice)",
 "The resolver is a table of rewriting rules matched against a sliding window; which rule applies first, and how much is left in the window, depends on long contexts no test enumerates.",
 ["bidi/resolver.go", "bidi/actions.go", "bidi/uaxrules.go", "bidi/trie"],
 [("rule matcher", "bidi/resolver.go: parser, match and reduce loops of ResolveParagraph"), ("rules", "bidi/actions.go: W4–W7, N1, N2"), ("rule trie", "bidi/uaxrules.go, bidi/trie")],
 "model extraction by abstract interpretation of the SSA form with trace partitioning; product of the extracted parser with a reference for W4-W7, N1, N2",
 "other", "ResolveParagraph is interpreted for short sequences completely, and for unbounded sequences modulo an abstraction of the settled left part, whose elements are forgotten only after they have been compared with the reference. Bracket pairs (N0) are B04's matter, W1–W3 are B01's.",
 "Product of the resolver (interpreted from ResolveParagraph on, the environment delivering any run at each receive from the scanner's channel) with a reference written from the text of W4–W7, N1, N2; the class of every character of the result, and of every settled element, has to be that of the reference.",
 [SSA] + BIDI_ASM,
 "The rule trie is built by interpreting its constructor, so rules, their order and the matcher can be reorganised freely; only the result is judged. Found eight genuine defects, all repaired.")

prop("B03", "Resolving Bidi levels conserves the text",
 "The resolved levels of a paragraph describe its text completely: the directional runs are consecutive, without gap or overlap, from the first to the last character, and nested isolates lie within their parents and hold exactly the text between isolate initiator and terminator.",
 ["inputs"], "every sequence of runs of supported Bidi classes up to 6 runs, unbounded sequences with a bounded window of unresolved runs, and every sequence of up to 4 runs including unsupported classes and isolates that are not closed",
 "Rules replace several runs by fewer ones; text gets lost only if a particular combination of runs is in the window at the end of a match.",
 ["bidi/resolver.go", "bidi/actions.go", "bidi/scrap.go"],
 [("rule actions", "bidi/actions.go: functions returning replaced scraps"), ("collapsing", "bidi/scrap.go: collapse, appendAllChildren"), ("reduce", "bidi/resolver.go: parser.reduce, pass1, pass2")],
 "model extraction by abstract interpretation of the SSA form with trace partitioning; positions of the result compared with those delivered",
 "other", "Same exploration as B02, judging positions and nesting instead of classes; additionally short texts with FSI, legacy formatting classes and unclosed isolates, for which only the coverage of the text by the outermost runs is judged.",
 "As B02; every path's result has to partition the positions delivered by the scanner, recursively for isolates.",
 [SSA] + BIDI_ASM[:1],
 "Independent of the rules applied. Found the defect of N1-3 and others returning fewer scraps than they matched, repaired.")

prop("B05", "Resolving a paragraph terminates without panic",
 "Whatever runs the scanner delivers, the resolver of a paragraph terminates: it consumes runs until the end of the text, applies rules only finitely often, never panics, and returns.",
 ["inputs", "schedules"], "every sequence of runs of supported Bidi classes up to 6 runs, unbounded sequences with a bounded window of unresolved runs, and every sequence of up to 4 runs including unsupported classes and isolates that are not closed",
 "A rule that re-creates its own left-hand side, or a receive after the end of the text, hangs for particular class sequences only.",
 ["bidi/resolver.go", "bidi/actions.go", "bidi/uaxrules.go"],
 [("rewriting loop", "bidi/resolver.go: match/reduce until no rule applies"), ("channel protocol", "bidi/resolver.go: read from the scanner's channel")],
 "model extraction by abstract interpretation of the SSA form with trace partitioning; divergence, panics and channel protocol judged on every path",
 "other", "Same exploration as B03; a path that exceeds a generous budget of steps without receiving another run is reported as divergence.",
 "As B02; every path has to end with a result, without panic, and without receiving after the final run.",
 [SSA] + BIDI_ASM[:1],
 "Found a genuine defect (rules returning more than they matched never came to an end), repaired.")

prop("B01", "The Bidi scanner delivers every character once and then ends",
 "For every text, the scanner of a Bidi paragraph hands every character to the resolver exactly once, in order, in runs of contiguous byte positions, up to the first paragraph separator (or the end of the text, if separators are ignored), with its Bidi class changed by rules W1–W3 only (context taken within the isolating run sequence), and reports the end exactly once; afterwards its goroutine ends.",
 ["inputs", "schedules"], "every sequence of characters of all Bidi classes followed by the end of the text, isolates nested once (thorough: twice); left-to-right and right-to-left paragraphs, paragraph separators recognised or ignored",
 "Melding and the strong context of W2 and W3 reach arbitrarily far back and across isolates; a goroutine left behind or a signal sent twice is not visible in the result of a test.",
 ["bidi/scanner.go", "bidi/resolver.go"],
 [("scanner goroutine", "bidi/scanner.go: bidiScanner.Scan, nextRune"), ("strong context of W1–W3", "bidi/scanner.go: rule application in Scan and post-processing"), ("start of the goroutine", "bidi/resolver.go: ResolveParagraph")],
 "model extraction by abstract interpretation of the SSA form (the goroutine as a reactive machine, states merged modulo a bounded past), product with a reference transducer for W1-W3 and the channel protocol",
 "other", "Exhaustive over character sequences of any length: the machine's states are explored to a fixed point, one or more sample characters standing for each class. Width of a character is abstracted to that of the samples; invalid UTF-8 is not part of the alphabet.",
 "The function started by the go statement of ResolveParagraph is interpreted with an environment that delivers any character at each read; every run sent has to be the next part of the text, with the class and direction the reference for W1–W3 gives, until one final null run, after which nothing is sent and the goroutine returns.",
 [SSA, "bufio.Scanner with a split function for runes delivers the runes of the text in order", "inputs are valid UTF-8; texts with LRE, RLE, LRO, RLO, PDF or FSI are delivered but their class context is not judged"],
 "Private names are not needed: the machine starts at ResolveParagraph. Found the strong context lost behind isolates and numbers, and a goroutine that never ended for an empty text; both repaired.")

prop("B04", "Bidi resolution of whole paragraphs follows W1–W7 and N0–N2",
 "For every text with properly nested isolates, ResolveParagraph returns, for every character, the class the rules W1–W7, N0 (bracket pairs, including canonically equivalent brackets and non-spacing marks behind brackets), N1 and N2 prescribe in the paragraph's direction; scanner and resolver never deadlock, no goroutine is left behind and nothing panics.",
 ["inputs", "schedules"], "every text of 3 characters over one or more samples of every Bidi class incl. brackets and isolates, and of 5 characters over L, R, EN, opening and closing brackets, and isolates (thorough: 4 and 6), and the texts of 18 longer templates (8 to 17 characters: consecutive and nested isolates with pairs of brackets of their own, content and context of pairs, marks behind brackets, numbers next to brackets) and of 9 templates of 70 to 1500 characters (exceeding the initial sizes of stacks and lists; isolates nested 24 deep), in paragraphs of both directions",
 "Bracket pairs need the strong types inside and before them; the scanner and the resolver, each consistent by itself, may disagree on positions of brackets. Tests contain a few pairs only.",
 ["bidi/scanner.go", "bidi/resolver.go", "bidi/brackets.go", "bidi/scrap.go"],
 [("bracket pairs", "bidi/brackets.go: bracketPairHandler, bracketStack"), ("N0", "bidi/resolver.go: pass2, handling of bracket pairs"), ("two threads", "bidi/resolver.go: ResolveParagraph starts the scanner and receives its runs")],
 "abstract interpretation of both threads as coroutines over go/ssa with trace partitioning; product with a reference for W1-W7 and N0-N2",
 "other", "Bounded in the length of the text (bound given above), complete within: all paths of ResolveParagraph and of the goroutine it starts are interpreted. The bracket stack's overflow at 63 open brackets and the complete bracket table are outside of the bound.",
 "ResolveParagraph and the scanner goroutine are interpreted together, the environment choosing each character; on every path the resulting classes have to be those of the reference, written from the text of UAX#9, both threads have to end, and no path may panic or wait for ever.",
 [SSA] + BIDI_ASM[1:],
 "Found that bracket pairs deeper than the stack made the scanner lose all pairs, that U+232A and U+3009 were not taken for equivalent, and others; all repaired.")

prop("B06", "Options and out-of-line markup of Bidi resolving are respected",
 "ResolveParagraph respects its options in every combination and order, the last one winning (nil options are skipped, RecognizeLegacy has no effect): paragraph direction, paragraph separators as end of the text or as white space, test mode for upper-case letters and isolate delimiters. A markup function is asked exactly once at every character position from 0 up to and including the end of the text, in order; the isolates it opens and closes (a PDI before an initiator at the same position) act as the corresponding characters of length zero.",
 ["inputs", "histories"], "26 combinations of options, with every text of 3 characters over classes affected by them; markup: every text of up to 5 characters and delimiters over several alphabets (thorough: 4 and 6)",
 "Options interact with the state of the scanner; markup positions between, before and behind characters and combined delimiters are hardly sampled by tests.",
 ["bidi/scanner.go", "bidi/resolver.go"],
 [("options", "bidi/scanner.go: DefaultDirection, IgnoreParagraphSeparators, TestMode, RecognizeLegacy"), ("markup", "bidi/scanner.go: nextRune, OutOfLineBidiMarkup, markupToBidi")],
 "abstract interpretation of options, scanner and resolver over go/ssa, the markup function being an unknown that answers anything; product with a reference",
 "other", "As B04; bounded in the length of the text.",
 "As B04, with the options constructed by interpreting the exported option functions, and the markup function as part of the environment: each call is judged by the position asked for, and its answer is an input as characters are.",
 [SSA] + BIDI_ASM[1:],
 "Found that markup was never asked for at position 0 and that options could not be unset; repaired.")

prop("B07", "Reordering and splitting resolved Bidi levels conserve the text",
 "The runs of an Ordering hold every byte position of the text exactly once, Length being the sum of a run's segments; every piece of text lies in a segment whose direction is that of its resolved class (numbers are left-to-right), and DirectionAt gives the same answer for it. Split(at) distributes text and isolates to two levels which again have these properties for [0,at) and the rest (positions lowered by at, if asked for), also when they are split again. Reorder, Split, DirectionAt and iterating (in either direction, the reverse one giving the reverse sequence, EOF being true exactly after the last segment) change neither the levels nor the runs they are applied to, and never panic.",
 ["inputs", "histories"], "resolved levels of every shape of up to 3 pieces of text and isolates (nested twice) with runs of class L, R, EN, AN and unknown lengths, cut at every position, and cut again (thorough: up to 5 pieces); 14 wider shapes (up to 7 runs, 4 isolates in a row, 5 nested) cut once",
 "Line wrapping applies Split at any position, within isolates or just before them, and calls Reorder for each line; shared slices are changed by one operation and show up in another one later.",
 ["bidi/reordering.go", "bidi/doc.go"],
 [("reordering", "bidi/reordering.go: ResolvedLevels.Reorder, reorder, flatten"), ("splitting", "bidi/reordering.go: ResolvedLevels.Split, split, shiftzero"), ("query", "bidi/reordering.go: DirectionAt, Run.SegmentIterator")],
 "abstract interpretation over go/ssa with symbolic positions (linear expressions over unknown lengths), heap contents compared before and after for purity",
 "other", "Complete for the shapes within the bound: lengths and the position of the cut are unknowns, so that one abstract run stands for all texts of that shape. The visual order itself (L2) is not judged, since the library leaves part of it to its clients.",
 "Resolved levels are built as abstract values whose runs have symbolic lengths; the operations are interpreted on them, branches on positions being decided by linear facts or explored both ways. The segments have to partition the symbolic interval, and everything reachable from the receiver has to be the same before and after.",
 [SSA, "resolved levels have the form B03 demands; adjacent runs are of different classes"],
 "Found seven genuine defects (text lost at the start of an isolate, levels destroyed by Reorder and by Split, isolates lost or at wrong positions after Split, iterator reversing the run, DirectionAt ignoring isolates, panic for FSI), all repaired.")

prop("B08", "The threads of a Bidi resolver share no unprotected memory",
 "The goroutine scanning a paragraph and the thread resolving it never access the same memory location, one of them writing, without a common lock, for every text and under every schedule: lists of bracket pairs, the list of isolating run sequences, scanner state and options.",
 ["schedules", "inputs"], "every pair of accesses of the goroutine and of its starter, for every schedule and every text (paths are over-approximated)",
 "The two threads run nearly in lock-step, so that the unsynchronised access is rarely executed at the wrong time; the race detector sees the interleavings of a test run only.",
 ["bidi/scanner.go", "bidi/resolver.go", "bidi/brackets.go"],
 [("start of the goroutine", "bidi/resolver.go: parser.ResolveLevels"), ("pair handlers", "bidi/brackets.go: bracketPairHandler, guarded by mx"), ("list of isolating run sequences", "bidi/scanner.go: handleIsolatingRunSwitch, findBD16ForPos")],
 "inclusion-based points-to analysis (field-sensitive, contexts per goroutine) and must-lockset dataflow analysis over go/ssa",
 "other", "Every pair of accesses to memory both threads can reach is an obligation. A lock is taken for common if the lock expressions denote the same objects; a lock belonging to an object of the same allocation site as another one is not told apart from it. Values handed over by the channel are taken for private to the receiver.",
 "Points-to sets of all variables of the module; locations reachable from the arguments of the go statement or from package variables, accessed by the goroutine and by the code following the go statement. For each pair with a write, the sets of locks held on all paths have to have a lock in common (read locks do not protect writes).",
 [SSA, "the race detector's definition of a race; external packages do not access objects of this module concurrently", "the markup function of the client does not access the resolver"],
 "Independent of names: goroutine, locks and shared objects are found from the go statement. Found a genuine data race on the list of isolating run sequences, repaired.")

prop("X01", "Concurrent use of independent objects is free of data races",
 "Functions and methods of the API may be used concurrently as long as no object is shared by the callers: package-level state changed after initialisation is set up once, under synchronisation, before anything reads it. SetupGraphemeClasses, SetupEmojisClasses, SetupUAX29Classes, NewWordBreaker, StringFromString and StringFromBytes may be called concurrently and return only after the tables they set up are complete.",
 ["schedules", "histories"], "every pair of accesses of every two exported functions and methods (of packages uax, bidi, emoji, grapheme, segment, shaping, uax11, uax29) to memory reachable from package variables, under every schedule",
 "A class table which is set up lazily, or a package-level cache, works in every sequential test; the failure needs two first calls at the same time.",
 ["emoji/emoji.go", "grapheme/grapheme.go", "grapheme/string.go", "uax29/uax29.go", "bidi/resolver.go", "uax11/width.go", "uax.go", "automata.go"],
 [("set-up", "emoji.go, grapheme.go, uax29.go: setupOnce"), ("rules of the Bidi resolver", "bidi/resolver.go: prepareRulesTrie"), ("package variables", "all packages")],
 "inclusion-based points-to analysis and must-analysis of locks and sync.Once tokens over go/ssa",
 "other", "Every pair of accesses to memory reachable from a package variable is an obligation. Reading tables without the documented set-up having been called is the client's responsibility and not judged, unless the function performs the set-up itself. package uax14 (does not compile) and internal packages are not part of the API.",
 "For every exported function and method, and the goroutines started by it, the accesses to memory reachable from package variables with the locks held, the Onces known to be done (sync.Once.Do returned) and the Once being run. Two accesses, one of them a write, have to share a lock, or the write is inside of a Once known to be done at the other one. For the set-up functions, the Onces writing the tables have to be done when they return.",
 [SSA, "package initialisation happens before any use of the API", "objects created by a client are used by one thread at a time", "external packages are safe for concurrent use"],
 "Private names are not needed: package variables, Onces and locks are found by the analysis. Found that NewWordBreaker read the class tables without synchronisation, repaired.")

prop("U01", "Display width of graphemes and strings follows UAX#11",
 "For every code point a grapheme may start with, Width is 0, 1 or 2: 0 for an empty grapheme, one which starts with an illegal byte, and zero width characters such as ZERO WIDTH SPACE and ZERO WIDTH JOINER; 2 for characters of East Asian Width W or F, for characters with emoji presentation, and for emoji with emoji presentation selected by U+FE0F; 1 otherwise. In an East Asian context (EastAsianContext, ForceEastAsian, an East Asian script, or an East Asian locale given or taken from the environment) ambiguous and neutral characters are 2 wide, too; without a context, with an empty one, or with a western script or locale they are 1 wide. StringWidth is the sum of the widths of the graphemes of a string. No preceding set-up is required, and a context may be used again.",
 ["inputs", "configurations"], "all code points with every East Asian Width, with and without variation selector, in 45 contexts",
 "Tests add up the widths of five characters and two strings, in two contexts, after the emoji classes have been set up.",
 ["uax11/width.go", "emoji/emoji.go"],
 [("width of a grapheme", "uax11/width.go: Width, StringWidth, graphemeWidth"), ("contexts and resolution of categories", "uax11/width.go: resolveToNarrow, resolveToWide, evaluateContext, findResolver, ContextFromEnvironment"), ("emoji", "emoji/emoji.go")],
 "abstract interpretation of Width for an unknown code point per East Asian Width and context; path conditions evaluated for all code points against reference data; interpretation over sample strings with a segmenter that may break anywhere",
 "other", "The East Asian Width is a parameter of the analysis (the tables of golang.org/x/text/width are trusted), as are the script of a locale and the confidence of a language match. Other format characters (Cf) than five common ones, U+FFFD and code points whose emoji property changed between Unicode versions are only required to have a width of 0, 1 or 2. In the quick tier only part of the contexts is combined with every width and selector.",
 "Width is interpreted for a grapheme of unknown content and length starting with code point r, for each value of East Asian Width, presence of U+FE0F and context; the conditions on r of its paths are evaluated for every code point and compared with the rule. Then Width and StringWidth are interpreted for sample graphemes and strings.",
 [SSA, "golang.org/x/text/width and language and jibber_jabber behave as documented", "the reference data in checker/data/emoji.txt"],
 "The context is built from its exported fields only; globals and the environment context come from interpreting the initialisers and ContextFromEnvironment. Library calls are replaced by their results for the scenario, so the logic of the context may be rewritten. Genuine defects found and repaired: digits, # and * and all other emoji of default text presentation were 2 wide; Width panicked if the emoji classes had not been set up; ZERO WIDTH SPACE and the like were 1 or 2 wide; scripts Jpan, Kore, Hrkt were no East Asian context.")

prop("U02", "The first legal code point is found",
 "For every string, PositionOfFirstLegalRune returns the byte position of the first legal code point (an encoded U+FFFD and U+0000 are legal) together with the prefix cut off, or -1 and the complete string if there is none. It always terminates.",
 ["inputs"], "every sequence of up to 3 units (thorough: 4) out of all lengths of legal code points and all kinds of illegal bytes, and longer illegal beginnings",
 "The one test uses two strings; what matters is the combination of continuation bytes, truncated sequences, surrogates and overlong encodings at the beginning.",
 ["uax.go"],
 [("search for a legal code point", "uax.go: PositionOfFirstLegalRune")],
 "abstract interpretation of the SSA form with byte contents tracked as constants, one abstract run per text of a bounded grammar; divergence bound on loops",
 "other", "Bounded: texts of the grammar up to the given number of units. The property depends on the beginning of a text only.",
 "PositionOfFirstLegalRune is interpreted for each text of the grammar; position and prefix are compared with the definition, a loop with more iterations than bytes is reported as divergence.",
 [SSA, "functions of unicode/utf8 behave as documented"],
 "Genuine defects found and repaired: an endless loop for a text which starts with a continuation byte, and U+FFFD was not regarded as legal.")

prop("R01", "A grapheme string is its text, broken into graphemes",
 "StringFromString and StringFromBytes accept every text of up to 32766 bytes. The graphemes Nth(0)…Nth(Len()-1) of the string are those the segmenter delivers for the text from its first legal code point up to the next illegal byte, in order, and put together they are this text; String returns this text; an index outside panics. Texts of more than 65535 bytes are rejected, none is broken up wrongly.",
 ["inputs"], "all texts of up to 3 (thorough: 4) code points of every encoded length or illegal bytes with every segmentation, and texts around the limits of the internal representations (127 to 1000 and 32764 to 131112 bytes)",
 "Three internal representations with different offset types; errors show for particular lengths, for breaks at particular positions, or for texts with illegal bytes.",
 ["grapheme/string.go"],
 [("construction", "grapheme/string.go: StringFromString, StringFromBytes, makeShortString, makeMidString, makeLongString, prepareBreaking"), ("access", "grapheme/string.go: Nth, Len, String of the representations"), ("reading legal runes", "grapheme/string.go: the rune reader")],
 "abstract interpretation of the SSA form with byte contents tracked as constants, the segmenter being replaced by one that breaks anywhere; one abstract run per text and segmentation",
 "other", "Bounded as given. The breaks are arbitrary (the rules are G01's matter), so a representation cannot rely on a particular segmentation. Texts from 32767 to 65535 bytes may be accepted or rejected.",
 "The constructors are interpreted, the segmenter being a stub that reads its input by interpreting the rune reader and breaks at chosen positions; Len, String and Nth of the result are interpreted and compared with the definition.",
 [SSA, "the segmenter delivers the segments of its input (S01), whatever the rules say"],
 "Genuine defects found and repaired: text behind an illegal byte was kept, text before the first legal code point shifted the offsets, and an encoded U+FFFD ended the text.")

prop("B09", "Exactly the bracket pairs of UAX#9 are paired, up to 63 deep",
 "In a Bidi paragraph, an opening bracket of UAX#9 forms a pair with the closing bracket of its own kind, or a canonically equivalent one, and with no other one, for every bracket of Unicode (Bidi_Paired_Bracket); other characters looking like brackets form no pairs. Rule BD16 allows for 63 open brackets in an isolating run sequence: when there are more, no further pairs are found in this isolating run sequence, and those found before are kept; other isolating run sequences are not affected.",
 ["inputs"], "every opening with every closing bracket of BidiBrackets.txt (Unicode 13), in paragraphs of both directions; 62 to 65 open brackets, with and without isolates",
 "A bracket missing or wrong in the table shows only for text with this bracket; the limit of 63 needs a text with as many.",
 ["bidi/bracketpairs.go", "bidi/brackets.go", "bidi/scanner.go"],
 [("table of pairs", "bidi/bracketpairs.go: uax9BracketPairs"), ("BD16", "bidi/brackets.go: pushOpening, findPair, push, popWith, canonical")],
 "abstract interpretation of both threads as coroutines over go/ssa; product with a reference for BD16 and N0",
 "other", "Complete for pairs of brackets (every opening one with every closing one); thorough adds every second opening bracket in between. Nesting is covered around the limit by given texts. The 4 pairs Unicode 14 introduced are not judged.",
 "ResolveParagraph and the scanner goroutine are interpreted together for texts R o R c (and L o L c), the environment choosing the closing bracket; the class of the closing bracket in the result tells whether a pair has been found. Nested brackets likewise.",
 [SSA] + BIDI_ASM[1:],
 "Only results are judged, so the table may have any form. The repair of the overflow (f7b0fd0) is confirmed by this check.")

prop("A01", "Shaping tables contain exactly the code points of their category",
 "Every exported table of package shaping (ARAB_*: Joining_Type, UISC_*: Indic_Syllabic_Category, UIPC_*: Indic_Positional_Category) contains exactly the code points with this property value, is a well-formed unicode.RangeTable (ascending disjoint ranges, R16/R32 and LatinOffset right), and tables of one property have no code point in common.",
 ["inputs"], "all 1,114,112 code points, for each of the 56 tables",
 "There are no tests of the package; a wrong entry shows only for text using that character.",
 ["shaping/arabictables.go", "shaping/uisctables.go", "shaping/uipctables.go"],
 [("joining types", "shaping/arabictables.go"), ("Indic categories", "shaping/uisctables.go, shaping/uipctables.go")],
 "abstract interpretation of the package initialiser; constant tables compared with reference data as sets of code points",
 "other", "Exhaustive over all code points. Code points whose value changed between Unicode 13 and 15, or which are unassigned in Unicode 13, may be in the table or not; so may be code points of Joining_Type U or T which ArabicShaping.txt does not list.",
 "The initialiser of package shaping is interpreted; every exported table is read from the resulting state, checked for the form package unicode relies on when searching, and compared with the Unicode character database, code point by code point; tables of a property are compared with each other.",
 [SSA, "the reference data in checker/data/shaping.txt, derived from the Unicode 15.0 data of the installed Perl restricted to characters of Unicode 13"],
 "Found that every table contained U+0000 and lacked its last range, repaired (tables and the generator).")

na("L01", "Line break opportunities follow the rules of UAX#14",
 "For every sequence of line-break classes, a segmenter using the line wrapper may break between two code points exactly where the UAX#14 rules LB2–LB31 allow or demand a break.",
 ["inputs"], "every finite sequence of line-break classes",
 "The rules look at an unbounded context, as those of UAX#29 do.",
 ["uax14/uax14.go", "uax14/rules.go"],
 [("recognizers of the line wrapper", "uax14/uax14.go: rule_* functions")],
 "Package uax14 does not compile at this commit: its class tables (uax14classes.go) are missing from the repository, so there is no program whose types and SSA form could be analysed, and no user can observe its behaviour.")

na("L02", "Segmenting takes time linear in the text",
 "Segmenting a text takes time and memory bounded by a linear function of its length (per break rule), so that no input makes the segmenter or the Bidi resolver quadratic.",
 ["inputs"], "every text",
 "Cost grows with run-time quantities tests on short texts do not reach.",
 ["segment/segment.go", "automata.go", "bidi/resolver.go"],
 [("look-ahead queue", "segment/segment.go: Segmenter.readEnoughInput, segment/deque.go")],
 "A bound on running time depends on the number of live recognizers, on look-ahead distances and on amortised growth of buffers; no sound static cost analysis for these loops over interface calls is in reach, and an unsound one would raise alarms on refactorings.")

na("L03", "Bidi runs are put into the visual order of rule L2",
 "For every paragraph, reordering yields the runs in the visual order of rule L2 of UAX#9.",
 ["inputs"], "every paragraph",
 "Nesting of runs and isolates is unbounded.",
 ["bidi/reordering.go"],
 [("reordering", "bidi/reordering.go: ResolvedLevels.Reorder")],
 "The library keeps no embedding levels (runs are L, R, EN or AN, isolates are nested runs) and its documentation does not promise L2 for mixed runs of numbers, so there is no behaviour of this code the property could be decided against; B07 decides that reordering conserves the text.")

na("L04", "Weights of break rules order the break opportunities",
 "Break opportunities demanded by a rule of higher weight carry penalties at least as demanding as those of rules of lower weight, for every weight given to a breaker.",
 ["inputs"], "every text and every weight",
 "Weights are numbers given by the caller.",
 ["uax29/uax29.go", "grapheme/grapheme.go"],
 [("weights", "uax29/uax29.go: WordBreaker, grapheme/grapheme.go: Breaker")],
 "Penalties are sums of rule penalties over all recognizers which match at a position; how many of them add up depends on the text without a static bound, and the breakers of this commit ignore or only partly use the weight, so the statement has no settled meaning in this code.")

na("L05", "A breaker used for a second text starts afresh",
 "Initialising a segmenter in the middle of a text leaves no recognizer of the earlier text active in the breakers it was created with.",
 ["histories"], "every pair of texts and every point at which the first one is abandoned",
 "Tests run a segmenter to the end of its text.",
 ["segment/segment.go", "uax29/uax29.go", "grapheme/grapheme.go"],
 [("initialisation", "segment/segment.go: Segmenter.Init")],
 "The interface UnicodeBreaker has no way to reset a breaker: the first code point of the new text reaches the recognizers of the old one by design. A repair needs a new method in a public interface; S03 decides what Init itself can guarantee.")

na("L06", "The hash trie finds exactly the words stored in it",
 "For every set of category sequences stored in a trie which has been frozen, looking up a sequence yields the position it was allocated, and no other sequence is found.",
 ["histories"], "every sequence of insertions that fits into the trie",
 "Collisions in the hash trie need particular sets of words.",
 ["bidi/trie/hashtrie.go"],
 [("insertion and lookup", "bidi/trie/hashtrie.go: AllocPositionForWord, Iterator.Next")],
 "Where a family of children is put depends on probing an array of hundreds of cells by values computed from earlier insertions; with symbolic words every probe branches on aliasing of every cell, and interpreting concrete sets of words would be running the code. The one trie the library uses is interpreted from its initialiser as part of B02.")

na("L07", "The table generators reproduce the Unicode files",
 "For every file in the format of the Unicode character database, the generators write tables with exactly the code points listed per category.",
 ["inputs"], "every input file",
 "Generators are run by hand.",
 ["internal/ucdparse/scan.go", "internal/ucdparse/gentables.go", "internal/tablegen/main.go"],
 [("parser", "internal/ucdparse: Parse"), ("generator", "internal/tablegen/main.go")],
 "The parser works on lines of text through bufio, strconv and fmt and writes program text by templates; abstracting all of these functions leaves nothing of the property. What users rely on, the tables themselves, is decided by C01, C02, C03 and A01.")

na("L08", "Words, graphemes and Bidi runs of a text equal those of the standards",
 "For every text given as bytes, the words, graphemes and Bidi levels delivered are those of the current Unicode standards.",
 ["inputs"], "every text",
 "Composition of all parts of the library.",
 ["segment/segment.go", "uax29/uax29.go", "grapheme/grapheme.go", "bidi/resolver.go"],
 [("composition", "segment, uax29, grapheme, bidi")],
 "The composition is decided in parts (classes: C01–C03; rules: W01, G01; dispatch: P01, P02; segmenter: S01–S06); an end-to-end equality over all texts and newer Unicode versions is outside of what a static argument can bound. For Bidi, unclosed isolate initiators, FSI and the explicit embeddings deviate from UAX#9 by design of the library.")
