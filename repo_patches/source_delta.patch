From f2b77c7f89a5a86549c91869525764313550050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 01/35] fix: sequence and repetition put back look-ahead chars
 exactly once

---
 rule_concatenate.go | 8 ++------
 rule_repetition.go  | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..68d1690 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -37,7 +37,7 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 	}
 	cs := charstream
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs = newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
@@ -54,11 +54,7 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 			evalResult.CharsRead = append(evalResult.CharsRead, extraChars...)
 			evalResult.CharsUnused = result.CharsUnused
 		} else {
-			resultCharsUsed := result.charsUsed()
-			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
+			evalResult.CharsUnused = evalResult.CharsUnused[result.countCharsUsed():] // unusedLeft
 		}
 
 		if !result.Sticky {
diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..06c5b7d 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -47,7 +47,7 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs = newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
@@ -67,11 +67,7 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			evalResult.CharsRead = append(evalResult.CharsRead, extraChars...)
 			evalResult.CharsUnused = result.CharsUnused
 		} else {
-			resultCharsUsed := result.charsUsed()
-			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
+			evalResult.CharsUnused = evalResult.CharsUnused[result.countCharsUsed():] // unusedLeft
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From c7030a3aab30cc72a843d63ceef2987903798026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 02/35] fix: repetition of a rule that matches nothing stops
 instead of looping forever

---
 rule_repetition.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index 06c5b7d..f623ddb 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -81,6 +81,11 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			break
 		}
 
+		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {
+			// the rule matches without using any char, it would match forever
+			break
+		}
+
 		if node.Position == nil {
 			node.Position = result.Node.Position
 		}
-- 
2.43.0


From 8d9d3a1778be851c643964acbfd2e6dbf81a14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 03/35] fix: choice ambiguity is a tie for the longest match
 and gives back the chars read

---
 rule_choice.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..def9645 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -64,7 +64,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			if result.Node != nil {
 				resultsMatched = append(resultsMatched, result)
 			} else {
-				if result.ErrIdx > maxErrCursor {
+				if maxErr == nil || result.ErrIdx > maxErrCursor {
 					maxErrCursor = result.ErrIdx
 					maxErr = result.Error
 				}
@@ -78,31 +78,34 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			resultFound = resultsMatched[0]
 			break
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
-			maxUsed := 0
+			maxUsed := -1
+			var resultTied *EvalResult // another result using as many chars as resultFound
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed < maxUsed {
 					continue
 				}
 				if countCharsUsed == maxUsed {
-					if resultFound == nil {
-						resultFound = result
-						continue
-					}
-					// we found ambiguity
-					var buf strings.Builder
-					if inst.name == "" {
-						buf.WriteString("ambiguity found:")
-					} else {
-						buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
-					}
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
-					evalResult.Error = errors.New(buf.String())
-					return evalResult
+					resultTied = result
+					continue
 				}
 				maxUsed = countCharsUsed
 				resultFound = result
+				resultTied = nil
+			}
+			if resultTied != nil {
+				// we found ambiguity
+				var buf strings.Builder
+				if inst.name == "" {
+					buf.WriteString("ambiguity found:")
+				} else {
+					buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
+				}
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultTied.Node.RuleName, string(resultTied.Node.Text())))
+				evalResult.Error = errors.New(buf.String())
+				evalResult.CharsUnused = evalResult.CharsRead
+				return evalResult
 			}
 			break
 		}
-- 
2.43.0


From 2dc4c464aa70455f89f2d0a774a8de1435203dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 04/35] fix: text matched by several exclude rules of a block
 is excluded and not lost

---
 rule.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rule.go b/rule.go
index 6a413d8..fe6b23d 100644
--- a/rule.go
+++ b/rule.go
@@ -304,13 +304,7 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 				continue
 			}
 			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				return evalResult
+				continue // the same text is matched by another rule already
 			}
 			maxUsed = countCharsUsed
 			maxResult = result
-- 
2.43.0


From e5075261fc91d2555847f1eb8df1d2155bbb80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 05/35] fix: block accounts for every char read once and in
 order, empty escape match is no escape

---
 rule_block.go | 51 +++++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index cb40c07..fcaba81 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -71,15 +71,23 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 
 	cs := charstream
-	var charsUsed []rune
-	var charsUnused []rune
+	var charsUsed []rune   // chars already part of the block
+	var charsUnused []rune // chars read from the charstream, but not (yet) part of the block
+	// consume takes the chars used by a result out of all the chars read ahead so far, cs continues right after them
+	consume := func(charsRead []rune, countUsed int) {
+		if len(charsRead) > len(charsUnused) {
+			charsUnused = charsRead
+		}
+		charsUsed = append(charsUsed, charsUnused[:countUsed]...)
+		charsUnused = charsUnused[countUsed:]
+		cs = newCharstreamPrepend(charstream, charsUnused)
+	}
 
 	// check the open chars of the block text
 	result := inst.open.Eval(grammar, cs, flagLeadingSpaces)
 	if result.Node != nil {
 		node.ChildNodes = append(node.ChildNodes, result.Node) // the 1st child of block node is always open node
-		charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-		charsUnused = result.CharsUnused
+		consume(result.CharsRead, result.countCharsUsed())
 		node.Position = result.Node.Position
 	} else {
 		evalResult.Error = result.Error
@@ -95,9 +103,8 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		Sticky:   true,
 	}
 	node.ChildNodes = append(node.ChildNodes, content)
-	cs = newCharstreamPrepend(cs, charsUnused)
 	content.Position = cs.Position()
-	var closeResult *EvalResult
+	countBeforeClose := 0
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
@@ -105,9 +112,8 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
-			if result.Node != nil {
-				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-				charsUnused = result.CharsUnused
+			if result.Node != nil && result.countCharsUsed() > 0 {
+				consume(result.CharsRead, result.countCharsUsed())
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
 				// content.Chars = append(content.Chars, result.charsUsed()...) // the escape char should NOT be preserved
@@ -127,55 +133,48 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 				}
 				*/
 			} else {
-				charsUnused = result.CharsRead
+				consume(result.CharsRead, 0)
 			}
 		}
 
 		// find exclude match(es)
-		cs = newCharstreamPrepend(cs, charsUnused)
 		if len(inst.excludes) > 0 {
 			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
 			if resultExclude.Node != nil { // found one
 				if escaped {
-					charsUsed = append(charsUsed, resultExclude.charsUsed()...)
-					charsUnused = resultExclude.CharsUnused
+					consume(resultExclude.CharsRead, resultExclude.countCharsUsed())
 					content.Chars = append(content.Chars, resultExclude.charsUsed()...)
 					continue
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				consume(resultExclude.CharsRead, 0)
+				evalResult.CharsRead = append(charsUsed, charsUnused...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
-			charsUnused = resultExclude.CharsRead
+			consume(resultExclude.CharsRead, 0)
 		}
 
 		// check close rule
-		cs = newCharstreamPrepend(cs, charsUnused)
 		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space
-		charsUnused = result.CharsUnused
 		if result.Node != nil {
+			countBeforeClose = len(charsUsed)
+			consume(result.CharsRead, result.countCharsUsed())
 			if escaped {
-				charsUsed = append(charsUsed, result.charsUsed()...)
 				content.Chars = append(content.Chars, result.charsUsed()...)
 				continue
 			}
-			closeResult = result
 			if !inst.virtualClose {
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
 			}
-			charsUsed = append(charsUsed, content.Chars...)
-			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 			break
 		} else {
+			consume(result.CharsRead, 0)
 			content.Chars = append(content.Chars, escapeChars...)
 		}
-		cs = newCharstreamPrepend(cs, charsUnused)
 		char := cs.Peek()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
@@ -183,14 +182,14 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		char = cs.Next()
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
-		charsUnused = nil
+		consume([]rune{char}, 1)
 	}
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
 		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
+			evalResult.CharsUnused = evalResult.CharsRead[countBeforeClose:]
 		} else {
 			evalResult.CharsUnused = charsUnused
 		}
-- 
2.43.0


From d96c11662bd7964480038b9916f3b956f618b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 06/35] fix: range matches a skipped whitespace only within its
 bounds

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From 0e03ff05503f290cb5448500f41e40fc7394b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 07/35] fix: group node has the position of its content

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 81c392d209018bac23ac221d245eb85c3b16b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 08/35] fix: range node has the position of the matched char

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..71d660b 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -45,6 +44,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				node.Chars = append(node.Chars, char)
 				evalResult.Node = node
 				return evalResult
@@ -57,6 +57,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	char := charstream.Peek()
 	if inst.begin <= char && char <= inst.end {
 		// matched
+		node.Position = startPos
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
-- 
2.43.0


From 48154a1e0d56d1ec5bf0af75d1d5d46a494a62fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 09/35] fix: position of chars starting with whitespace and of
 empty string

---
 rule_terminal_chars.go  | 2 +-
 rule_terminal_string.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..0bcaba8 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -51,7 +51,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
+		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..2ea511b 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -74,7 +74,11 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 		evalResult.ErrIdx = charstream.Cursor()
 		return evalResult
 	}
-	node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	if len(inst.text) == 0 {
+		node.Position = charstream.Position()
+	} else {
+		node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	}
 	node.Chars = append(node.Chars, inst.text...)
 	evalResult.Node = node
 	return evalResult
-- 
2.43.0


From 5161631e3a0be8f6e5a7f450238af51e5f57c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 10/35] fix: Position of a charstream takes the lock it needs

---
 charstream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index c92c025..929bf14 100644
--- a/charstream.go
+++ b/charstream.go
@@ -287,8 +287,8 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	inst.lock.Lock() // the positionMap is updated
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
@@ -506,6 +506,9 @@ func (inst *CharstreamPrepend) Match(input []rune) ([]rune, bool) {
 }
 
 func (inst *CharstreamPrepend) Position() *Position {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
 	if inst.cursor >= len(inst.prepend) {
 		return inst.charstream.Position()
 	}
-- 
2.43.0


From a93f13fa6d50c8f191451322ce298def48070dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 11/35] fix: SkipSpaces returns a copy instead of the chars of
 the stream itself

---
 charstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/charstream.go b/charstream.go
index 929bf14..4a639f7 100644
--- a/charstream.go
+++ b/charstream.go
@@ -381,7 +381,8 @@ func (inst *CharstreamString) SkipSpaces() []rune {
 	}
 
 	if inst.cursor > beginCur {
-		spaces := inst.chars[beginCur:inst.cursor]
+		// a copy, the caller must not get hold of the chars in the stream
+		spaces := append([]rune(nil), inst.chars[beginCur:inst.cursor]...)
 		inst.positionMap.update(beginCur, spaces...)
 		return spaces
 	}
-- 
2.43.0


From 3e8acbdf8f281557be10afe8555d61134a812c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 12/35] fix: chars read ahead by root rules are neither dropped
 nor repeated in next round

---
 grammar.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index c39d380..cc55392 100644
--- a/grammar.go
+++ b/grammar.go
@@ -327,19 +327,19 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		return nil, fmt.Errorf("Empty Stream/EOF encountered")
 	}
 	ast := &AST{}
-	cs := charstream
+	var cs ICharstream
 	var charsUnused []rune
 	flagLeadingSpaces := SUGGEST_SKIP
 	for {
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
 		resultsMatched := make(map[string]*EvalResult)
 		resultsError := make(map[string]*EvalResult)
-		var maxCharsRead []rune
+		maxCharsRead := charsUnused // chars left over from previous round are read already
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
+			cs = newCharstreamPrepend(charstream, maxCharsRead)
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
@@ -394,7 +394,6 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
-		cs = charstream
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From 41857502c658efb1b741002e8ca2860eab867c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 13/35] fix: root rules are ambiguous only when they tie for
 the longest match

---
 grammar.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index cc55392..6dfcdd6 100644
--- a/grammar.go
+++ b/grammar.go
@@ -376,16 +376,18 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			var maxResult *EvalResult
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
-				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
-					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
-						result.Node.RuleName, string(result.CharsRead),
-						maxResult.Node.RuleName, string(maxResult.CharsRead))
-				}
 				if countCharsUsed >= maxCountCharsUsed {
 					maxResult = result
 					maxCountCharsUsed = countCharsUsed
 				}
 			}
+			for _, result := range resultsMatched {
+				if result.countCharsUsed() == maxCountCharsUsed && result != maxResult {
+					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
+						result.Node.RuleName, string(result.CharsRead),
+						maxResult.Node.RuleName, string(maxResult.CharsRead))
+				}
+			}
 			ast.Nodes = append(ast.Nodes, maxResult.Node)
 			if maxResult.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
-- 
2.43.0


From 86dc62388c04974c36a12daecb12d4aecdfd34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 14/35] fix: root rule that matches nothing does not make the
 parsing loop forever

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 6dfcdd6..063641a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -344,7 +344,7 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
 			}
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 { // no progress is made without using a char
 				resultsMatched[name] = result
 			}
 			if result.Error != nil {
-- 
2.43.0


From f1ddba93aa4577dddc27956676aa1c090ef37d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 15/35] fix: EvalEmbed does not loop forever on a rule that
 matches nothing

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 063641a..229cc6f 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or nothing is matched
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-- 
2.43.0


From b1a065fe2b19d3ff5e2d4c5f370143e626baf9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 16/35] fix: EvalEmbed does not pile up streams, which takes
 quadratic time and stack

---
 grammar.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 229cc6f..ffd8771 100644
--- a/grammar.go
+++ b/grammar.go
@@ -255,14 +255,22 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	rule := record.Rule()
 	node := &Node{RuleType: TypeEmbed, RuleName: ruleName}
 	evalResult.Node = node
-	cs := NewCharstreamFromString(sample)
+	charstream := NewCharstreamFromString(sample)
+	var charsUnused []rune // chars read ahead, always put back on the original stream so that streams don't pile up
 	var result *EvalResult
 	var text []rune
 	for {
+		cs := newCharstreamPrepend(charstream, charsUnused)
 		result = rule.Eval(inst, cs, NOT_SKIP)
-		cs = newCharstreamPrepend(cs, result.CharsUnused)
+		if len(charsUnused) < len(result.CharsRead) {
+			charsUnused = result.CharsRead
+		}
 		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or nothing is matched
+			cs = newCharstreamPrepend(charstream, charsUnused)
 			char := cs.Next()
+			if len(charsUnused) > 0 {
+				charsUnused = charsUnused[1:]
+			}
 			if char == EOFChar {
 				if len(text) > 0 {
 					textNode := &Node{RuleType: TypeText, RuleName: "_"}
@@ -281,6 +289,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 				node.ChildNodes = append(node.ChildNodes, textNode)
 			}
 			node.ChildNodes = append(node.ChildNodes, result.Node)
+			charsUnused = charsUnused[result.countCharsUsed():]
 		}
 	}
 	return evalResult
-- 
2.43.0


From 991181438663f566692ab6960d334d2c74719061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 17/35] fix: merged sticky node is virtual/nondata only if all
 its parts are, no data is removed with it

---
 node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node.go b/node.go
index 6ecb557..070ab88 100644
--- a/node.go
+++ b/node.go
@@ -158,6 +158,9 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 			if prevNode != nil && prevNode.Sticky {
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
+				// the merged node can be removed only if all the nodes merged can
+				prevNode.Virtual = prevNode.Virtual && node.Virtual
+				prevNode.NonData = prevNode.NonData && node.NonData
 				continue
 			}
 			// all children of a sticky node can be drop, we only need to keep the text
-- 
2.43.0


From 6103d6f8d1c2508b5daebbe1941b0f4ef6259be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 18/35] fix: tokenized node is not merged to its left sibling

---
 node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 070ab88..16733db 100644
--- a/node.go
+++ b/node.go
@@ -155,7 +155,7 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 		if node.Sticky {
 			// the node is sticky node that can be merged to previous sticky node if there is one
 			nodeText := node.Text()
-			if prevNode != nil && prevNode.Sticky {
+			if prevNode != nil && prevNode.Sticky && !node.Tokenized {
 				// previous node is steaky, node and prevNode can be merge
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
 				// the merged node can be removed only if all the nodes merged can
@@ -163,6 +163,9 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 				prevNode.NonData = prevNode.NonData && node.NonData
 				continue
 			}
+			if prevNode != nil {
+				prevNode.Sticky = false // the node is a token, it starts a new run of sticky nodes
+			}
 			// all children of a sticky node can be drop, we only need to keep the text
 			node.Chars = nodeText
 			node.ChildNodes = nil
-- 
2.43.0


From c1201118e69cb28053cd8cf253566a5bf93e9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 19/35] fix: removing redundant nodes does not move nodes in or
 out of a block, which changes the text

---
 node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 16733db..39a5be0 100644
--- a/node.go
+++ b/node.go
@@ -226,7 +226,7 @@ func (inst *Node) RemoveRedundantNodes() {
 		if len(onlyChild.Chars) > 0 { // leaf node
 			inst.Chars = onlyChild.Chars
 			inst.ChildNodes = nil
-		} else { // intermediate node that can be dropped after all its children promoted
+		} else if inst.canPromoteChildrenOf(onlyChild) { // intermediate node that can be dropped after all its children promoted
 			inst.ChildNodes = onlyChild.ChildNodes
 		}
 	}
@@ -240,7 +240,7 @@ func (inst *Node) RemoveRedundantNodes() {
 			continue
 		}
 
-		if child.RuleName == "" && len(child.ChildNodes) > 0 {
+		if child.RuleName == "" && len(child.ChildNodes) > 0 && inst.canPromoteChildrenOf(child) {
 			children = append(children, child.ChildNodes...)
 		} else {
 			children = append(children, child) // this child is leaf node
@@ -255,6 +255,12 @@ func (inst *Node) RemoveRedundantNodes() {
 	}
 }
 
+// The text of a block's child nodes is not separated by spaces, while the text of any other node's child nodes
+// is. Moving child nodes in or out of a block would change the text.
+func (inst *Node) canPromoteChildrenOf(child *Node) bool {
+	return (inst.RuleType == TypeBlock) == (child.RuleType == TypeBlock)
+}
+
 // The input config must not be nil, or this call will panic
 func (inst *Node) header(config *NodeTreeConfig) string {
 	var buf strings.Builder
-- 
2.43.0


From ae424b6429cce70ef3c189bf0559d56d3b88ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 20/35] fix: Validate recomputes root rules and terminals from
 scratch

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index ffd8771..1e31e0a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -224,6 +224,9 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	// rules may have been added since last validation
+	inst.terminals = make(map[string]*RuleRecord)
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
-- 
2.43.0


From 2e8124c2c65239b31c3d2f247a75de862a0e4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 21/35] fix: rule that fails to parse leaves no usages behind
 in the grammar

---
 grammar.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/grammar.go b/grammar.go
index 1e31e0a..ddc67cc 100644
--- a/grammar.go
+++ b/grammar.go
@@ -113,6 +113,7 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	}
 	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
+		inst.removeUsages(ruleName) // the rule is not part of the grammar
 		return nil, err
 	}
 	rule = r
@@ -211,6 +212,23 @@ func (inst *Grammar) AddUsage(ruleName string, userRule string) {
 	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
 }
 
+// removeUsages removes all usages by a rule
+func (inst *Grammar) removeUsages(userRule string) {
+	for ruleName, users := range inst.nonRoots {
+		var others []string
+		for _, user := range users {
+			if user != userRule {
+				others = append(others, user)
+			}
+		}
+		if len(others) == 0 {
+			delete(inst.nonRoots, ruleName)
+		} else {
+			inst.nonRoots[ruleName] = others
+		}
+	}
+}
+
 func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
-- 
2.43.0


From 12eb14ee7c7f4dfefa35d2767933ccb0f9c3b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 22/35] fix: print repetition with equal bounds so that it
 keeps its maximum

---
 rule_repetition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index f623ddb..14d8a9e 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -252,7 +252,7 @@ func (inst *RepetitionRule) StringWithIndent(indent string) string {
 func (inst *RepetitionRule) repetitionSpecString(buf *strings.Builder) {
 	if inst.min == inst.max {
 		if inst.min != 0 {
-			buf.WriteString(fmt.Sprintf("<%d>", inst.min))
+			buf.WriteString(fmt.Sprintf("<%d,%d>", inst.min, inst.max)) // a single number means no maximum
 		}
 	} else {
 		if inst.max == 0 {
-- 
2.43.0


From cc50315ecfe9b7511b9c84c8b5ef79d3ca8b69ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 23/35] fix: print range with annotations once and with quote
 and backslash ends as unicode

---
 rule_terminal_range.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 71d660b..2a5376d 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -77,19 +77,19 @@ func (inst *TerminalRangeRule) String() string {
 	beginStr := ""
 	endStr := ""
 	if inst.beginAsUnicode {
-		beginStr = fmt.Sprintf("%s\\u%04X", annotations, inst.begin)
+		beginStr = fmt.Sprintf("\\u%04X", inst.begin)
 	} else {
-		if inst.begin == '\'' {
-			beginStr = "'\\''"
+		if inst.begin == '\'' || inst.begin == '\\' {
+			beginStr = fmt.Sprintf("\\u%04X", inst.begin)
 		} else {
 			beginStr = "'" + string(inst.begin) + "'"
 		}
 	}
 	if inst.endAsUnicode {
-		endStr = fmt.Sprintf("%s\\u%04X", annotations, inst.end)
+		endStr = fmt.Sprintf("\\u%04X", inst.end)
 	} else {
-		if inst.end == '\'' {
-			endStr = "'\\''"
+		if inst.end == '\'' || inst.end == '\\' {
+			endStr = fmt.Sprintf("\\u%04X", inst.end)
 		} else {
 			endStr = "'" + string(inst.end) + "'"
 		}
-- 
2.43.0


From ab4f1d0995099e38896a0688d99fe4910d3211e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 24/35] fix: print quote, backslash and newline in chars and
 string literals escaped

---
 rule.go                 | 18 ++++++++++++++++++
 rule_terminal_chars.go  |  6 +-----
 rule_terminal_string.go |  2 +-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/rule.go b/rule.go
index fe6b23d..ee6cc41 100644
--- a/rule.go
+++ b/rule.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"unicode/utf8"
 )
 
 const (
@@ -226,6 +227,23 @@ func (inst *ruleBase) StringWithIndent(indent string) string {
 	return "#!NotImplemented!"
 }
 
+// escapeLiteral returns the text in the form it appears in a literal enclosed in the quote char
+func escapeLiteral(text []rune, quote rune) string {
+	var buf strings.Builder
+	for _, char := range text {
+		switch {
+		case char == quote || char == EscapeSymbol:
+			buf.WriteRune(EscapeSymbol)
+			buf.WriteRune(char)
+		case char == '\n' || !utf8.ValidRune(char):
+			buf.WriteString(fmt.Sprintf("\\u%04X", char))
+		default:
+			buf.WriteRune(char)
+		}
+	}
+	return buf.String()
+}
+
 func leadingWhiteSpace(input []rune) []rune {
 	var wspaces []rune
 	for _, char := range input {
diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index 0bcaba8..19f868c 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -2,7 +2,6 @@ package xbnf
 
 import (
 	"fmt"
-	"strings"
 )
 
 type TerminalCharsRule struct {
@@ -84,10 +83,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 // Returns the rule definition string in xbnf format
 func (inst *TerminalCharsRule) String() string {
 	annotations := string(inst.annotation())
-	str := string(inst.text)
-	if strings.ContainsRune(str, '\'') {
-		str = strings.ReplaceAll(str, "'", "\\'")
-	}
+	str := escapeLiteral(inst.text, '\'')
 	return fmt.Sprintf("%s'%s'", annotations, str)
 }
 
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 2ea511b..f512b42 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -87,7 +87,7 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 
 // Returns the rule definition string in xbnf format
 func (inst *TerminalStringRule) String() string {
-	str := string(inst.text)
+	str := escapeLiteral(inst.text, '"')
 	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
 }
 
-- 
2.43.0


From 9707dcf138d979455aaee3bb89491d764ee5378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 25/35] fix: print block so that a rule with several parts
 inside it stays one rule

---
 rule_block.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index fcaba81..28d2bc5 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -27,20 +27,20 @@ func (inst *BlockRule) String() string {
 	var buf strings.Builder
 	buf.WriteString(string(inst.annotation()))
 	buf.WriteRune(blockOpenSymbol)
-	buf.WriteString(inst.open.String())
+	buf.WriteString(stringInBlock(inst.open))
 
 	if inst.escape != nil {
 		buf.WriteRune(' ')
-		buf.WriteString(inst.escape.String())
+		buf.WriteString(stringInBlock(inst.escape))
 	}
 
 	for _, exclude := range inst.excludes {
 		buf.WriteString(" ^")
-		buf.WriteString(exclude.String())
+		buf.WriteString(stringInBlock(exclude))
 	}
 
 	buf.WriteRune(' ')
-	buf.WriteString(inst.close.String())
+	buf.WriteString(stringInBlock(inst.close))
 	if inst.virtualClose {
 		buf.WriteRune(' ')
 		buf.WriteRune(blockVirtualClose)
@@ -49,6 +49,35 @@ func (inst *BlockRule) String() string {
 	return buf.String()
 }
 
+// stringInBlock returns the definition string of a rule inside a block. The rules inside a block are separated by
+// space, therefore the parts of one rule have to be separated by another whitespace.
+func stringInBlock(rule IRule) string {
+	var parts []string
+	switch r := rule.(type) {
+	case *ConcatenateRule:
+		for _, part := range r.rules {
+			parts = append(parts, stringInBlock(part))
+		}
+	case *ChoiceRule:
+		if len(r.annotation()) > 0 {
+			return r.String()
+		}
+		for i, group := range r.groups {
+			for j, part := range group {
+				if j > 0 {
+					parts = append(parts, string(ChoiceSymbol))
+				} else if i > 0 {
+					parts = append(parts, string(ChoiceOrderSymbol))
+				}
+				parts = append(parts, stringInBlock(part))
+			}
+		}
+	default:
+		return rule.String()
+	}
+	return strings.Join(parts, "\t")
+}
+
 func (inst *BlockRule) StringWithIndent(indent string) string {
 	return fmt.Sprintf("%s%s", indent, inst.String())
 }
-- 
2.43.0


From 5aecbd29c7cce27b920f2cac99f3dd5d3ce855ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 26/35] fix: any whitespace, not just a space, may precede a
 choice operator

---
 rule_choice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index def9645..4379228 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -132,10 +132,11 @@ func inChoice(grammar *Grammar, name string, firstRule IRule, cs ICharstream) (*
 EXIT:
 	for {
 		char := cs.Peek()
-		switch char {
-		case ' ': // ignore space
+		if IsWhiteSpace(char) { // ignore space
 			cs.Next()
 			continue
+		}
+		switch char {
 		case ChoiceSymbol:
 			cs.Next()
 			rule, err := grammar.parseOne(name, cs)
-- 
2.43.0


From d525debd37941b870836731cf0dc4b16361c22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 27/35] fix: any whitespace may follow a choice operator

---
 grammar.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index ddc67cc..d5955f5 100644
--- a/grammar.go
+++ b/grammar.go
@@ -625,10 +625,11 @@ func (inst *Grammar) parseOne(name string, cs ICharstream) (IRule, error) {
 	isTokenized := false
 	for {
 		char := cs.Peek()
-		switch char {
-		case ' ', '\n', '\t', '\r':
+		if IsWhiteSpace(char) {
 			cs.Next()
 			continue
+		}
+		switch char {
 		case EOFChar:
 			return nil, fmt.Errorf("EOF encountered, no more rule")
 		case VirtualSymbol, NonDataSymbol, TokenizedSymbol:
-- 
2.43.0


From 816740efdfc881c8a4d5f369846f58e61bc606c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 28/35] fix: command line works with only -rule

---
 main/xbnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/xbnf.go b/main/xbnf.go
index 6905d5f..8972462 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -34,7 +34,7 @@ func main() {
 		fmt.Printf("ERROR: Command line arguments must contains at least one of -xbnf or -rule\n")
 		printHelp()
 		return
-	} else {
+	} else if *ruleFile != "" {
 		fmt.Printf("Adding rule(s) from XBNF file: %s\n", *ruleFile)
 		g, err := xbnf.NewGrammarFromFile(*ruleFile)
 		if err != nil {
-- 
2.43.0


From 4628b47c5e645657f8a4f66a23307d00bbd95bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 29/35] fix: command line does not parse with a grammar that
 fails validation

---
 main/xbnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main/xbnf.go b/main/xbnf.go
index 8972462..343ad57 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -60,6 +60,7 @@ func main() {
 	err := grammar.Validate()
 	if err != nil {
 		fmt.Printf("ERROR: %s\n", err)
+		return
 	}
 	grammarStr := grammar.Serialize(false)
 	grammarStr = strings.ReplaceAll(grammarStr, "\n", "\n    ")
-- 
2.43.0


From 832ded2ee0a6f4f3414c72ea8944a00a445e1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 30/35] verif: hook to build put-back streams, only with build
 tag verif

---
 verif_hooks.go | 10 ++++++++++
 1 file changed, 10 insertions(+)
 create mode 100644 verif_hooks.go

diff --git a/verif_hooks.go b/verif_hooks.go
new file mode 100644
index 0000000..aaf793a
--- /dev/null
+++ b/verif_hooks.go
@@ -0,0 +1,10 @@
+//go:build verif
+// +build verif
+
+package xbnf
+
+// VerifPrepend gives verification harnesses the stream used internally to put chars back in front of another
+// stream. It's only part of builds with the verif tag.
+func VerifPrepend(base ICharstream, chars []rune) ICharstream {
+	return newCharstreamPrepend(base, chars)
+}
-- 
2.43.0


From 59b620f2ac09021c7d344b15fff0c28a8e1b95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 31/35] fix: position of a char on the first line after later
 lines are read

---
 charstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/charstream.go b/charstream.go
index 4a639f7..65dc880 100644
--- a/charstream.go
+++ b/charstream.go
@@ -105,6 +105,11 @@ func (inst *positionMap) lookup(idx int) *Position {
 		maxLineIdx = maxLineIdx - 1
 	}
 
+	if idx < inst.lines[0] {
+		// the 1st line has no line in front of it
+		return &Position{Line: 1, Col: idx + 1}
+	}
+
 	lineIdx := 0
 	var col int
 	// do reverse linear lookup (TODO: binary lookup should be faster)
-- 
2.43.0


From 6c74109e0e8f24d77012a76a0d879a288bf49eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 32/35] fix: position of a block whose open rule matched no
 char

---
 rule_block.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rule_block.go b/rule_block.go
index 28d2bc5..a41a39e 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -222,6 +222,9 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		} else {
 			evalResult.CharsUnused = charsUnused
 		}
+		if node.Position == nil { // the open rule matched no char
+			node.Position = content.Position
+		}
 		evalResult.Node = node
 	}
 
-- 
2.43.0


From 3a28536cc681d8eb5627d5e06453750d34f3cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 33/35] fix: annotation that precedes no rule is refused, also
 with whitespace before a choice operator

---
 grammar.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index d5955f5..7b95bba 100644
--- a/grammar.go
+++ b/grammar.go
@@ -507,6 +507,9 @@ EXIT:
 			isVirtual = false
 			rules = append(rules, rule)
 		case ChoiceSymbol, ChoiceOrderSymbol: // '|' or '>'
+			if isVirtual || isNonData || isTokenized { // with whitespace in between
+				return nil, fmt.Errorf("annotation symbol can not appear before choice symbol '%c'", char)
+			}
 			size := len(rules)
 			switch size {
 			case 0:
@@ -605,10 +608,12 @@ EXIT:
 			}
 		}
 	}
-	switch len(rules) {
-	case 0:
+	switch {
+	case len(rules) == 0:
 		return nil, fmt.Errorf("no rule found")
-	case 1:
+	case isVirtual || isNonData || isTokenized:
+		return nil, fmt.Errorf("annotation symbol must be followed by a rule")
+	case len(rules) == 1:
 		return rules[0], nil
 	default:
 		rule := &ConcatenateRule{}
-- 
2.43.0


From 1a607ebfb4cbef80930f2d1e8107f0d487b4d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 34/35] fix: keep named nodes without text when redundant nodes
 are removed

RemoveRedundantNodes dropped an unnamed node without text together with the named
nodes in it, so that in '[1, []]' the second element was lost at level DataOnly.
---
 node.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 39a5be0..f21716d 100644
--- a/node.go
+++ b/node.go
@@ -235,8 +235,8 @@ func (inst *Node) RemoveRedundantNodes() {
 	// if a child does not have ruleName, and it's not leaf node (ie, has child nodes), premote
 	// its children to this node's children. ie. grandchildren becomes children
 	for _, child := range inst.ChildNodes { // range over slice in golang is order guaranteed
-		// remove the child if it is empty and unnamed after virtual node removed
-		if len(child.Text()) == 0 && child.RuleName == "" {
+		// remove the child if it is empty and unnamed after virtual node removed, unless there is a named node in it
+		if len(child.Text()) == 0 && !child.hasNamedNode() {
 			continue
 		}
 
@@ -255,6 +255,19 @@ func (inst *Node) RemoveRedundantNodes() {
 	}
 }
 
+// whether this node, or any node in the tree rooted at this node, has a name
+func (inst *Node) hasNamedNode() bool {
+	if inst.RuleName != "" {
+		return true
+	}
+	for _, child := range inst.ChildNodes {
+		if child.hasNamedNode() {
+			return true
+		}
+	}
+	return false
+}
+
 // The text of a block's child nodes is not separated by spaces, while the text of any other node's child nodes
 // is. Moving child nodes in or out of a block would change the text.
 func (inst *Node) canPromoteChildrenOf(child *Node) bool {
-- 
2.43.0


From 9257d269c4402a758620d401790c3a10b5e251da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 35/35] fix: a backslash escapes the end of a range as it does
 the begin

---
 rule_terminal_range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 2a5376d..78d28e1 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -121,8 +121,8 @@ func inRange(cs ICharstream, beginChar rune, beginAsUnicode bool) (IRule, error)
 				}
 				endChar = unicode
 				endAsUnicode = true
-			} else {
-				return nil, fmt.Errorf("char range: end char missing unicode escape \\u")
+			} else { // a bare \ just escape the next char, same as in the begin char
+				endChar = cs.Next()
 			}
 		}
 		char = cs.Next() // expecting a closing "'"
-- 
2.43.0

