From 3b86ddd37806966ce49517f62c9c633096271bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 01/31] fix: runesio: define AsRunesWriter, without which
 package linebreak does not compile

---
 terminal/runes/runesio/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..35b275d 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -27,6 +27,17 @@ func NewWriter(w io.Writer) Writer {
 	}
 }
 
+// AsRunesWriter yields a runes Writer from an io.Writer.
+//
+// The provided writer is returned as is whenever it already knows how to write runes.
+func AsRunesWriter(w io.Writer) Writer {
+	if rw, ok := w.(Writer); ok {
+		return rw
+	}
+
+	return NewWriter(w)
+}
+
 func (rw *runesWriter) WriteRune(r rune) (int, error) {
 	return rw.writeRune(r)
 }
-- 
2.43.0


From b1c86a379becb2755add9ac922a15772bd2bf18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 02/31] fix: ansi: read the rune that follows a 3-digit
 parameter

ESC[38;5;255m was not recognized as a start sequence, and a token ending in
ESC[123 panicked.
---
 terminal/ansi/ansi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..91e5ec7 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -239,13 +239,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	nextStart, _ = rdr.Seek(0, io.SeekCurrent)
 
 	hasZeroArg := true
-	for i := 0; i < maxDigits; i++ {
+	for i := 0; i <= maxDigits; i++ { // up to maxDigits digits, plus the rune that follows
 		r, _, err = rdr.ReadRune()
 		if err != nil {
 			break
 		}
 
-		if !unicode.IsDigit(r) {
+		if i == maxDigits || !unicode.IsDigit(r) {
 			break
 		}
 
@@ -261,13 +261,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		runeCount++
 		nextStart++
 
-		for i := 0; i < maxDigits; i++ {
+		for i := 0; i <= maxDigits; i++ {
 			r, _, err = rdr.ReadRune()
 			if err != nil {
 				break
 			}
 
-			if !unicode.IsDigit(r) {
+			if i == maxDigits || !unicode.IsDigit(r) {
 				break
 			}
 
-- 
2.43.0


From 43403e6cd424cce1cb17264666cf6cc121ace0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 03/31] fix: ansi: detect an escape sequence that follows a
 stray ESC

---
 terminal/ansi/ansi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 91e5ec7..ea493b3 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -328,7 +328,8 @@ func decodeText(rdr *runesio.SliceReader) []rune {
 				return rdr.Slice(int(current), int(current)+runeCount)
 			}
 
-			runeCount++
+			// not a sequence: resume from the rune that follows, which may be an ESC
+			_, _ = rdr.Seek(-1, io.SeekCurrent)
 		}
 
 		runeCount++
-- 
2.43.0


From 3dbf1d6c8a69ca74f996aa174e8bc65e4c77257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 04/31] fix: ansi: a truncated sequence does not swallow the
 next one

---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index ea493b3..cfcc432 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -294,7 +294,7 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		sequenceKind = otherSequence
 	}
 
-	if err == nil {
+	if err == nil && r != esc { // a truncated sequence does not swallow the ESC that introduces the next one
 		runeCount++
 		nextStart++
 	}
-- 
2.43.0


From 70eb69bb157daeccb7692d6bf6818e1df760099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 05/31] fix: runes: Widths agrees with Width on THREE-EM DASH
 and invalid runes

Widths reported 0 for U+2E3B and panicked on runes out of the unicode range.
---
 terminal/runes/width.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..dc9b32f 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -48,9 +48,8 @@ func Widths(runes []rune, opts ...Option) (width int) {
 		return width
 	}
 
-	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
-		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		width += Width(r) // Width knows about the runes that do not fit in the lookup table
 	}
 
 	return width
-- 
2.43.0


From 8c5d1bac932f4360f9433b84bd892883cc840218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 06/31] fix: hyphenator: select patterns for language tags with
 a region or an extension

de-DE, de-AT, fr-FR, en-AU, es-MX... were hyphenated with the en-US patterns.
---
 wordbreak/hyphenator/languages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..3b57766 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,9 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	_, index, _ := langMatcher.Match(tag) // the matched tag may come with extensions, e.g. "de-u-rg-atzzzz": use its index
 
-	switch matched {
+	switch supportedLanguages[index] {
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From e7bf870f00712fdf87e1aa195354862737910109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 07/31] fix: hyphenator: exceptions are not case sensitive,
 like patterns

---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..db6fcca 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -84,7 +84,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	lowered := make([]rune, 0, len(word)) // exceptions are stored in lower case
+	for _, r := range word {
+		lowered = append(lowered, unicode.ToLower(r))
+	}
+
+	val := h.exceptions.Get(lowered)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From 173af074bcd36e1354a2bc57ba6a0a2a5f6685dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 08/31] fix: hyphenator: read the last exception of a section
 closed on the same line

"some-thing}" in the en-GB rules was stored as the word "something}".
---
 wordbreak/hyphenator/dictionary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..e3489fb 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -115,7 +115,7 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		case strings.HasPrefix(line, exceptionsSection):
 			// decode the exceptions section
 			for scanner.Scan() {
-				line = scanner.Text()
+				line = strings.TrimSuffix(scanner.Text(), "}") // the section may close on its last word
 				dict.exceptions.Put(dict.readException(line))
 			}
 
-- 
2.43.0


From a9c40b0c0914b821deaa4752e76f122e7104800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 09/31] fix: hyphenator: apply the patterns that start at the
 last letter, in words of any length

WithMinRight(1) ignored them, WithMinRight(0) yielded empty parts, and the last
break point of a word longer than 30 runes could be dropped.
---
 wordbreak/hyphenator/hyphenator.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index db6fcca..2b02402 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -59,10 +59,10 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	// allocate buffers once for all iterations
 	hasPatterns := false
 	allBreakPoints := make([][]int, 0, wordLength+2)
-	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
+	positions := make([]int, wordLength+3) // the resulting hyphenation positions: covers ".word." and the position past it
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
-	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
+	for i := 0; i <= wordLength; i++ { // ".word.", "word.", "ord.", "rd.", "d."
 		allBreakPoints, hasPatterns = h.isPattern(i, word, fragmentBuffer, allBreakPoints)
 		if hasPatterns {
 			positions = mergeBreakPoints(positions, allBreakPoints, i)
@@ -73,12 +73,8 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 
 	// ensure provided positions are consistent
 	// ex: [0 1 2 0 0 0 3 0 0 1]
-	switch {
-	case positions[0] > 0: // sometimes hyphen before first letter is "allowed"
-		positions[0] = 0
-	case len(positions) > wordLength && positions[wordLength] > 0:
-		positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
-	}
+	positions[0] = 0          // sometimes hyphen before first letter is "allowed"
+	positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
 
 	return h.splitAtPositions(word, wordLength, positions)
 }
-- 
2.43.0


From 5c7399e2ae022d8a7e5fa329d4ca24fd49d75e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 10/31] fix: linebreak: accumulate demerits, so that the breaks
 found are optimal and deterministic

The total demerits of a breakpoint were copied from the previous one instead of
being accumulated, and candidates were picked by map iteration order: the same
paragraph was wrapped differently from one call to the next.
---
 linebreak/knuth_plass.go       | 24 ++++++++++++------------
 linebreak/knuth_plass_types.go | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..d8d1d72 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -185,7 +185,7 @@ func (l *LineBreaker) mainLoop(index int) {
 
 	var (
 		currentLine int // will range over lines starting from 1
-		candidates  map[fitnessClass]*breakPoint
+		candidates  []candidateT
 	)
 
 	lowestDemerits := maxDemerit
@@ -209,8 +209,8 @@ func (l *LineBreaker) mainLoop(index int) {
 				demerits, currentClass := l.demeritsAndClass(active, node, ratio)
 				lowestDemerits = minf(lowestDemerits, demerits)
 
-				if demerits < candidates[currentClass].totalDemerits {
-					candidates[currentClass] = active
+				if demerits < candidates[currentClass].demerits {
+					candidates[currentClass] = candidateT{active: active, demerits: demerits}
 				}
 			}
 
@@ -230,28 +230,28 @@ func (l *LineBreaker) mainLoop(index int) {
 	}
 }
 
-func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
+func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates []candidateT) {
 	sum := l.sumFromNode(index)
 
 	for class, candidate := range candidates {
-		if candidate.totalDemerits >= maxDemerit || candidate.totalDemerits > lowestDemerits+l.demerits.fitness {
+		if candidate.active == nil || candidate.demerits > lowestDemerits+l.demerits.fitness {
 			// skip default candidate
 			continue
 		}
 
 		newBreak := newBreakPoint(
-			index,                                    // break at node index
-			candidate.totalDemerits, candidate.ratio, // ratings for this break point
-			candidate.line+1,
-			class,
-			sum,       // totals after this node
-			candidate, // link to the previous candidate breakpoint
+			index,                                      // break at node index
+			candidate.demerits, candidate.active.ratio, // ratings for this break point
+			candidate.active.line+1,
+			fitnessClass(class),
+			sum,              // totals after this node
+			candidate.active, // link to the previous candidate breakpoint
 		)
 
 		if activeElement != nil {
 			_ = l.activeNodes.InsertBefore(newBreak, activeElement)
 
-			return
+			continue
 		}
 
 		_ = l.activeNodes.PushBack(newBreak)
diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index ee38301..6852c4d 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -34,6 +34,12 @@ type (
 		next          *breakPoint
 	}
 
+	// candidateT is the best way found so far to reach a breakpoint with a line of a given fitness class
+	candidateT struct {
+		active   *breakPoint // the breakpoint this line starts from
+		demerits float64     // total demerits up to the end of this line
+	}
+
 	nodeType uint8
 
 	demeritsT struct {
@@ -143,12 +149,12 @@ func newFitnessClass(ratio float64) fitnessClass {
 	}
 }
 
-func defaultCandidates() map[fitnessClass]*breakPoint {
-	return map[fitnessClass]*breakPoint{
-		fitnessClassZero:  newBreakPoint(0, maxDemerit, 0, 0, fitnessClassZero, sums{}, nil),
-		fitnessClassOne:   newBreakPoint(0, maxDemerit, 0, 0, fitnessClassOne, sums{}, nil),
-		fitnessClassTwo:   newBreakPoint(0, maxDemerit, 0, 0, fitnessClassTwo, sums{}, nil),
-		fitnessClassThree: newBreakPoint(0, maxDemerit, 0, 0, fitnessClassThree, sums{}, nil),
+func defaultCandidates() []candidateT {
+	return []candidateT{
+		fitnessClassZero:  {demerits: maxDemerit},
+		fitnessClassOne:   {demerits: maxDemerit},
+		fitnessClassTwo:   {demerits: maxDemerit},
+		fitnessClassThree: {demerits: maxDemerit},
 	}
 }
 
-- 
2.43.0


From 606d4381bcce6dc7826496be1976d7bba310fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 11/31] fix: linebreak: render a soft hyphen only where a word
 is hyphenated

WithHyphenPenalty(p) rendered a hyphen at the end of every line that broke at any
other penalty of the same value (0: spaces, 200: hard hyphens, 400: punctuation).
---
 linebreak/linebreaker.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..c0e72e4 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -177,9 +177,9 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if len(node.value) > 0 && index == len(line.nodes)-1 {
 					// render a soft hyphen node
-					_, _ = runesWriter.WriteRunes(hyphen)
+					_, _ = runesWriter.WriteRunes(node.value)
 				}
 			}
 		}
@@ -290,13 +290,16 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 func (l *LineBreaker) pushHyphen() []nodeT {
 	if l.renderHyphens {
 		// when rendering hyphens, the penalty incurs some consumed width
+		softHyphen := newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty)
+		softHyphen.value = hyphen
+
 		return []nodeT{
 			// justified:
 			// newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			softHyphen,
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
-- 
2.43.0


From af9e494c4b50b839b645d38d198fe7f1f8bb5d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 12/31] fix: linebreak: forget about the attributes of the
 previous paragraph

---
 linebreak/linebreaker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index c0e72e4..910b23c 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -79,6 +79,7 @@ func New(opts ...Option) *LineBreaker {
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
+	l.attrList = attributes.NewState() // forget about the attributes of a previous paragraph
 	l.nodes = l.leftAlignedNodes(tokens)
 
 	// 2. build a model for desired widths for lines
-- 
2.43.0


From cb83be0075ce2eb947d8eb14a0476f2878cfe737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 13/31] fix: linebreak: keep the escape sequences that come
 without text

The stop sequence at the head of a token such as ESC[0mword was lost.
---
 linebreak/linebreaker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 910b23c..312a49e 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -217,6 +217,12 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 	for _, stripped := range ansi.StripToken(token) { // there may be several start/stop escape sequences: break them down
 		tokenState := newTokenState(stripped, l.attrList)
 
+		if len(stripped.Text) == 0 && len(stripped.StartSequence)+len(stripped.StopSequence) > 0 {
+			// escape sequences without any text, e.g. a token that begins with a stop sequence: render them as an empty box
+			tokenState.Start(nil)
+			nodes = append(nodes, newBox(noWidth, nil, tokenState.Current()))
+		}
+
 		// this text has been stripped from start/stop escape sequences. The attribute renderer will remember the start/stop sequences.
 		// We don't necessarily need to create as many renderers, but we must keep track of the state
 		for _, strippedFromPunct := range l.punctuator(stripped.Text) { // split punctuation marks as well as separators such as "/", "|", "_"...
-- 
2.43.0


From 1091e176a007915ed3f6ea7d85e2be0ff044fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 14/31] fix: attributes: close and restore the attributes in
 effect at a line break

EndOfLine and StartOfLine relied on the nesting level only: an attribute that
had been stopped was started again when another one was still open or followed
immediately, and an iterator that had consumed nothing rendered the first one.
---
 attributes/state.go | 103 +++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 63 deletions(-)

diff --git a/attributes/state.go b/attributes/state.go
index 95c3965..87e6001 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -97,97 +97,74 @@ func (i *StateIterator) Item() Renderer {
 	return i.current.Value.(Renderer)
 }
 
-func (i *StateIterator) backtrack(level int) *list.Element {
-	if i.current == nil {
+// opened yields the renderers which have their start sequence still in effect after the current renderer, outermost first.
+//
+// A stop sequence closes the latest start sequence.
+func (i *StateIterator) opened() []Renderer {
+	if i.start || i.current == nil {
 		return nil
 	}
 
-	current := i.current
-	/*
+	first := i.current
+	for first.Prev() != nil {
+		first = first.Prev()
+	}
+
+	var opened []Renderer
+	for current := first; current != nil; current = current.Next() {
 		attribute := current.Value.(Renderer)
-		currentLevel := attribute.Level()
-	*/
-
-	// backtrack to the first renderer for this level
-	for current != nil {
-		lookback := current.Prev()
-		if lookback == nil {
-			return current
+
+		if attribute.HasStart() {
+			opened = append(opened, attribute)
 		}
 
-		attribute := lookback.Value.(Renderer)
-		if attribute.Level() < level {
-			return current
+		if attribute.HasStop() && len(opened) > 0 {
+			opened = opened[:len(opened)-1]
 		}
 
-		current = lookback
+		if current == i.current {
+			break
+		}
 	}
 
-	return nil
+	return opened
 }
 
 // StartOfLine restores the state of attributes to start a new line.
 func (i *StateIterator) StartOfLine(w runesio.Writer) {
-	if i.current == nil {
-		return
-	}
-
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
-
-	// starts all rendering sequences for this level
-	for current != nil {
-		attribute := current.Value.(Renderer)
-
+	for _, attribute := range i.opened() {
 		attribute.Start(w)
-
-		if current == i.current {
-			break
-		}
-
-		current = current.Next()
 	}
 }
 
 // EndOfLine closes the state of attributes to end the line with an empty state.
 func (i *StateIterator) EndOfLine(w runesio.Writer) {
-	if i.current == nil {
+	remaining := len(i.opened())
+	if remaining == 0 {
 		return
 	}
 
-	// if the end of line was preceded by a stop, go down 1 level
-	attribute := i.current.Value.(Renderer)
-	currentLevel := attribute.Level()
-	if attribute.HasStop() {
-		currentLevel--
-	}
+	// look ahead for the sequences that stop the attributes still in effect, innermost first
+	nested := 0
+	for current := i.current.Next(); current != nil && remaining > 0; current = current.Next() {
+		attribute := current.Value.(Renderer)
 
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
+		if attribute.HasStart() {
+			nested++
+		}
 
-	// stop all sequences up to the last renderer at this level
-	for current != nil {
-		attribute := current.Value.(Renderer)
-		level := attribute.Level()
+		if !attribute.HasStop() {
+			continue
+		}
 
-		if level < currentLevel {
-			break
+		if nested > 0 {
+			// this stops an attribute that starts on the following lines
+			nested--
+
+			continue
 		}
 
 		attribute.Stop(w)
-
-		current = current.Next()
+		remaining--
 	}
 }
-- 
2.43.0


From bb9f378256ab298aadec27ed656e6cbd73922c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 15/31] fix: linebreak: a line that cannot shrink never exceeds
 the desired width

With WithTolerance(10000) or more, overfull lines were considered feasible.
---
 linebreak/knuth_plass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index d8d1d72..23f1bd0 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -37,7 +37,7 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / shrink
 		}
 
-		return infinity
+		return math.Inf(1) // cannot shrink: not feasible, whatever the tolerance
 
 	default:
 		// perfect match
-- 
2.43.0


From 7f9684a558e6ce21460646cbbd60e9b47fe651ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 16/31] fix: ansi: do not write into the runes passed as input

An unrecognized sequence was appended in place to the input: this is a data race
when the same runes are stripped by several goroutines.
---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index cfcc432..a796d5c 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -134,7 +134,7 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 				groups[1] = endANSI // should normally never end up here
 			} else {
 				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...) // never write into the input
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From 9bcb3c16e50d3951914262fda488bb13f0955ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 17/31] fix: linebreak: a line may start with a punctuation
 mark or a hyphen

The stretch that precedes such a mark was discarded after a line break, but not the
one that cancels it, so a line starting with a mark could only be set on an exact fit.
---
 linebreak/linebreaker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 312a49e..ee3f12c 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -235,9 +235,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				// the punctuation mark. E.g. ";", "&", "." should probably deserve a special processing.
 				// For the moment, this package essentially supports rendering with fixed-width fonts on a terminal, so this is not really needed.
 				nodes = append(nodes,
+					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
 					newPenalty(noWidth, infinity, unflaggedPenalty),
-					newGlue(noWidth, l.glueStretch, noShrink), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
-					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()),
+					newGlue(noWidth, l.glueStretch, noShrink),                 // comes after the box: a glue at the start of a line is discarded
 					newPenalty(noWidth, l.punctuationPenalty, flaggedPenalty), // this penalty won't be mixed with hyphens
 					newGlue(noWidth, -l.glueStretch, noShrink),
 				)
@@ -258,9 +258,9 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				if hyphenator.IsHyphen(word) {
 					tokenState.Start(word)
 					nodes = append(nodes,
+						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, infinity, unflaggedPenalty),
 						newGlue(noWidth, l.glueStretch, noShrink),
-						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, l.hardHyphenPenalty, flaggedPenalty), // this penalty won't be mixed with soft hyphens
 						newGlue(noWidth, -l.glueStretch, noShrink),
 					)
-- 
2.43.0


From b02235187222c32e2623bbe05bf72caac7f9a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 18/31] fix: linebreak: words may be broken without rendering
 hyphens

Without stretch before the break, WithRenderHyphens(false) allowed a word to be broken
only on a line which fits exactly.
---
 linebreak/linebreaker.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index ee3f12c..75365e1 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -295,25 +295,23 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 }
 
 func (l *LineBreaker) pushHyphen() []nodeT {
+	// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
+	softHyphen := newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty)
+
 	if l.renderHyphens {
 		// when rendering hyphens, the penalty incurs some consumed width
-		softHyphen := newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty)
+		softHyphen.width = l.hyphenWidth
 		softHyphen.value = hyphen
-
-		return []nodeT{
-			// justified:
-			// newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
-			// ragged right:
-			newPenalty(noWidth, infinity, unflaggedPenalty),
-			newGlue(noWidth, l.glueStretch, noShrink),
-			softHyphen,
-			newGlue(noWidth, -l.glueStretch, noShrink),
-		}
 	}
 
 	return []nodeT{
-		// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
-		newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty),
+		// justified:
+		// newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+		// ragged right:
+		newPenalty(noWidth, infinity, unflaggedPenalty),
+		newGlue(noWidth, l.glueStretch, noShrink),
+		softHyphen,
+		newGlue(noWidth, -l.glueStretch, noShrink),
 	}
 }
 
-- 
2.43.0


From 8d6d63306eafc8f2f03e2edc3f36047b500e9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 19/31] fix: linebreak: one space between tokens, whatever the
 measure of a space

---
 linebreak/linebreaker.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 75365e1..ff2a095 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -112,10 +112,6 @@ func (l *LineBreaker) scale(in float64) float64 {
 	return math.Round(in * l.scaleFactor)
 }
 
-func (l *LineBreaker) downScale(in float64) float64 {
-	return math.Round(in / l.scaleFactor)
-}
-
 func skipNodes(start int, nodes []nodeT) int {
 	for j, node := range nodes[start:] {
 		// skip nodes after a line break
@@ -174,8 +170,11 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 					pad += line.ratio * node.stretch
 				}
 
-				spaces := repeatRunes(space, int(l.downScale(pad)))
-				_, _ = runesWriter.WriteRunes(spaces)
+				if l.spaceWidth > 0 {
+					// the measure of a space is not necessarily 1
+					spaces := repeatRunes(space, int(math.Round(pad/l.spaceWidth)))
+					_, _ = runesWriter.WriteRunes(spaces)
+				}
 
 			case node.isPenalty():
 				if len(node.value) > 0 && index == len(line.nodes)-1 {
-- 
2.43.0


From 78fd6c16e1b0938f5fa90f0a916ebb8e8b570d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 20/31] fix: linebreak: no line starts with the space that
 follows a token ending with a mark and an escape sequence

---
 linebreak/linebreaker.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index ff2a095..2d1e5ae 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -290,7 +290,27 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 		tokenState.Stop()
 	}
 
-	return nodes
+	return trimBreaks(nodes)
+}
+
+// trimBreaks removes the break points of a token which are followed by nothing but escape sequences:
+// the next line would start with the space that comes after the token.
+func trimBreaks(nodes []nodeT) []nodeT {
+	trailing := len(nodes)
+	for trailing > 0 && nodes[trailing-1].isBox() && len(nodes[trailing-1].value) == 0 {
+		trailing--
+	}
+
+	if trailing == len(nodes) {
+		return nodes
+	}
+
+	text := trailing
+	for text > 0 && !nodes[text-1].isBox() {
+		text--
+	}
+
+	return append(nodes[:text], nodes[trailing:]...)
 }
 
 func (l *LineBreaker) pushHyphen() []nodeT {
-- 
2.43.0


From 12f3bd4fff8b91a10a66ccbf7a861375f3ba6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 21/31] fix: linebreak: the last line is never too loose,
 whatever the tolerance

---
 linebreak/knuth_plass.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 23f1bd0..a6282ac 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -21,6 +21,10 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 	switch {
 	case actualWidth < idealWidth:
 		// need to stretch
+		if toNode.isForcedBreak() {
+			return 0.00 // the last line is filled with an infinite glue: it is never too loose
+		}
+
 		stretch := sum.stretch - fromBreakPoint.totals.stretch
 
 		if stretch > 0 {
-- 
2.43.0


From 1e7a598cda7288f4ccb7a200812884235ebf11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 22/31] fix: linebreak: lines do not exceed a requested width
 that is not an integer

---
 linebreak/linebreaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 2d1e5ae..2a71195 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -100,7 +100,7 @@ func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]str
 func (l *LineBreaker) buildUniformLengths(width float64) []float64 {
 	lengths := make([]float64, 1)
 	for i := range lengths {
-		lengths[i] = l.scale(width)
+		lengths[i] = math.Floor(width*l.scaleFactor + 1e-9) // not rounded: lines never exceed the requested width
 	}
 
 	return lengths
-- 
2.43.0


From c039ff59dd84d8426e6cdf372f960a10d4507af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 23/31] fix: linebreak: an infinite tolerance does not accept
 lines that overflow

---
 linebreak/linebreaker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 2a71195..f1c3f7f 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -50,6 +50,8 @@ func New(opts ...Option) *LineBreaker {
 		options:  defaultOptions(opts),
 	}
 
+	l.tolerance = math.Min(l.tolerance, math.MaxFloat64) // even an infinite tolerance does not accept lines that overflow
+
 	l.spaceWidth = l.scale(l.measurer(space))
 	if l.wordBreak {
 		l.hyphenWidth = l.scale(l.measurer(hyphen))
-- 
2.43.0


From c5b735e29fec2d1a9e282b0f71d5d3c8794d9dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 24/31] fix: linebreak: a large tolerance does not accept
 breaks without any stretch

---
 linebreak/knuth_plass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index a6282ac..497373d 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -31,7 +31,7 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / stretch
 		}
 
-		return infinity
+		return math.Inf(1) // cannot stretch: not feasible, whatever the tolerance
 
 	case actualWidth > idealWidth:
 		// need to shrink
-- 
2.43.0


From b2a7cdf11e4c5990db86d76d01dccfbdecb006d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 25/31] fix: linebreak: an empty paragraph has no lines

---
 linebreak/linebreaker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index f1c3f7f..fb15f66 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -80,6 +80,10 @@ func New(opts ...Option) *LineBreaker {
 //
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
+	if len(tokens) == 0 {
+		return nil, nil // nothing to set
+	}
+
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.attrList = attributes.NewState() // forget about the attributes of a previous paragraph
 	l.nodes = l.leftAlignedNodes(tokens)
-- 
2.43.0


From 87fd3fb66466ff42021005b440f3f4f85008e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 26/31] fix: linebreak: the last line is not empty

---
 linebreak/linebreaker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index fb15f66..6af4414 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -361,6 +361,7 @@ func (l *LineBreaker) leftAlignedNodes(tokens []string) []nodeT {
 
 	// last token: complete the list of nodes with a final infinite glue and penalty.
 	nodes = append(nodes, l.boxNodes([]rune(tokens[len(tokens)-1]))...)
+	nodes = append(nodes, newPenalty(noWidth, infinity, unflaggedPenalty)) // no break before the final glue: the last line would be empty
 	nodes = append(nodes, newGlue(noWidth, infinity, noShrink))
 	nodes = append(nodes, newPenalty(noWidth, -infinity, flaggedPenalty))
 
-- 
2.43.0


From dd77dd650e501bd9ef3e6c778dad43a9a9421899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 27/31] fix: ansi: only ASCII digits are parameters of a
 sequence

---
 terminal/ansi/ansi.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index a796d5c..7b4583c 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -2,7 +2,6 @@ package ansi
 
 import (
 	"io"
-	"unicode"
 
 	"github.com/fredbi/go-typeset/terminal/runes/runesio"
 )
@@ -245,7 +244,7 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 			break
 		}
 
-		if i == maxDigits || !unicode.IsDigit(r) {
+		if i == maxDigits || !isDigit(r) {
 			break
 		}
 
@@ -267,7 +266,7 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 				break
 			}
 
-			if i == maxDigits || !unicode.IsDigit(r) {
+			if i == maxDigits || !isDigit(r) {
 				break
 			}
 
@@ -302,6 +301,11 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	return rdr.Slice(int(current), int(current)+runeCount), sequenceKind
 }
 
+// isDigit tells if a rune is a digit in the parameters of a sequence: these are ASCII.
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 func decodeText(rdr *runesio.SliceReader) []rune {
 	var runeCount int
 
-- 
2.43.0


From ea0f70bb15d1321d20d47e06a4178dcd975933a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 28/31] fix: linebreak: no panic when the measure of a space
 overflows

---
 linebreak/linebreaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6af4414..b8a5f26 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -198,7 +198,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 }
 
 func repeatRunes(in []rune, times int) []rune {
-	if len(in) == 0 || times == 0 {
+	if len(in) == 0 || times <= 0 { // times is negative when the measures overflow
 		return []rune{}
 	}
 
-- 
2.43.0


From 5c0588eaef03fad862a5b72595412151913b29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 29/31] fix: hyphenator: report the errors of reading a pattern
 file

---
 wordbreak/hyphenator/dictionary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index e3489fb..440c4a2 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -132,6 +132,10 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	return dict, nil
 }
 
-- 
2.43.0


From 7521155c561d01de3eaf385f32eb20f42da88ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:51 +0000
Subject: [PATCH 30/31] fix: languages: the generator reports the errors of
 reading and writing

---
 wordbreak/hyphenator/languages/strip_comments.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wordbreak/hyphenator/languages/strip_comments.go b/wordbreak/hyphenator/languages/strip_comments.go
index 8eae926..2a9e4cc 100644
--- a/wordbreak/hyphenator/languages/strip_comments.go
+++ b/wordbreak/hyphenator/languages/strip_comments.go
@@ -17,6 +17,10 @@ var texComment = regexp.MustCompile(`^(.+?)\s*%.*$`)
 
 func main() {
 	if err := filepath.WalkDir("tex", func(pth string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
+
 		if d.IsDir() || !strings.HasSuffix(d.Name(), ".tex") {
 			return nil
 		}
@@ -36,13 +40,14 @@ func strip(pth string) error {
 		_ = file.Close()
 	}()
 	destination := filepath.Base(pth)
-	output, err := os.Create(destination)
+	created, err := os.Create(destination)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		_ = output.Close()
+		_ = created.Close()
 	}()
+	output := bufio.NewWriter(created)
 
 	scanner := bufio.NewScanner(file)
 	for scanner.Scan() {
@@ -58,7 +63,11 @@ func strip(pth string) error {
 		}
 	}
 
-	return nil
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+
+	return output.Flush()
 }
 
 func isTeXComment(line string) bool {
-- 
2.43.0


From 4611f8f88ae4b514d39c9746715164b01915f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 31/31] fix: the generator of width tables fails when a file
 can't be fetched entirely

The tables were silently overwritten with truncated or empty ones: neither the
status of the answer nor reading errors were checked.
---
 terminal/runes/build_tables.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/terminal/runes/build_tables.go b/terminal/runes/build_tables.go
index 370c700..e6eb449 100644
--- a/terminal/runes/build_tables.go
+++ b/terminal/runes/build_tables.go
@@ -56,20 +56,32 @@ func main() {
 	// retrieve unicode property EastAsianWidth
 	resp, err := http.Get(targetWidthProperties)
 	if err != nil {
-		log.Fatal("retrieving %s: %v", targetWidthProperties, err)
+		log.Fatalf("retrieving %s: %v", targetWidthProperties, err)
 	}
 	defer resp.Body.Close()
 
-	_ = eastasian(f, resp.Body)
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("retrieving %s: %s", targetWidthProperties, resp.Status)
+	}
+
+	if err := eastasian(f, resp.Body); err != nil {
+		log.Fatalf("reading %s: %v", targetWidthProperties, err)
+	}
 
 	// retrieve unicode emojis with Extended_Pictographics
 	resp, err = http.Get(targetEmojiProperties)
 	if err != nil {
-		log.Fatal("retrieving %s: %v", targetEmojiProperties, err)
+		log.Fatalf("retrieving %s: %v", targetEmojiProperties, err)
 	}
 	defer resp.Body.Close()
 
-	_ = emoji(f, resp.Body)
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("retrieving %s: %s", targetEmojiProperties, resp.Status)
+	}
+
+	if err := emoji(f, resp.Body); err != nil {
+		log.Fatalf("reading %s: %v", targetEmojiProperties, err)
+	}
 
 	out, err := format.Source(f.Bytes())
 	if err != nil {
@@ -172,6 +184,10 @@ func eastasian(out io.Writer, in io.Reader) error {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+
 	cmb = shapeup(cmb)
 	generate(out, "combining", cmb)
 	fmt.Fprintln(out)
@@ -228,6 +244,10 @@ func emoji(out io.Writer, in io.Reader) error {
 		})
 	}
 
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+
 	arr = shapeup(arr)
 	generate(out, "emoji", arr)
 
-- 
2.43.0

