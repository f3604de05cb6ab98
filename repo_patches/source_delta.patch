From b23c50c5f71c73dd2f7f2aba65a4ebcfbf814c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 01/32] fix: position lookup of a char in the first line once
 more lines are read

---
 charstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index c92c025..1a4cbb6 100644
--- a/charstream.go
+++ b/charstream.go
@@ -94,8 +94,8 @@ func (inst *positionMap) lookup(idx int) *Position {
 	// char at idx hasn't been read yet
 	if idx > inst.lines[maxLineIdx] {
 		return nil
-	} else if maxLineIdx == 0 {
-		// only 1 line read
+	} else if maxLineIdx == 0 || idx < inst.lines[0] {
+		// only 1 line read, or a char in the 1st line (before its newline char)
 		return &Position{Line: 1, Col: idx + 1}
 	}
 
-- 
2.43.0


From 185940647a430f287dacfdbf1fbb9917183822f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 02/32] fix: data races of Position on shared character streams

---
 charstream.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index 1a4cbb6..afe8e43 100644
--- a/charstream.go
+++ b/charstream.go
@@ -287,8 +287,8 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	inst.lock.Lock() // the position map is updated below
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
@@ -506,6 +506,9 @@ func (inst *CharstreamPrepend) Match(input []rune) ([]rune, bool) {
 }
 
 func (inst *CharstreamPrepend) Position() *Position {
+	inst.lock.RLock()
+	defer inst.lock.RUnlock()
+
 	if inst.cursor >= len(inst.prepend) {
 		return inst.charstream.Position()
 	}
-- 
2.43.0


From 3351a76e816e36a8c3b8d123ea94448e354b94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 03/32] fix: sequences and repetitions push every unused char
 back exactly once

---
 rule_concatenate.go | 7 +++----
 rule_repetition.go  | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..44cd22a 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -36,9 +36,11 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		NonData:   inst.nondata,
 	}
 	cs := charstream
+	var pushBack []rune // the chars read by the last rule but unused, other unused chars are still in the cs
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs = newCharstreamPrepend(cs, pushBack)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
+		pushBack = result.CharsUnused
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
 		// Note the result.CharsRead may be less or more than current evalResult.CharsUnused, and the evelResult.CharsRead
@@ -56,9 +58,6 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..f2bb23e 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -46,12 +46,14 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 	cs := charstream
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
+	var pushBack []rune // the chars read by the last match but unused, other unused chars are still in the cs
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		cs = newCharstreamPrepend(cs, pushBack)
 		if cs.Peek() == EOFChar {
 			break
 		}
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
+		pushBack = result.CharsUnused
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
 		// Note the result.CharsRead may be less or more than current evalResult.CharsUnused, and the evelResult.CharsRead
@@ -69,9 +71,6 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From 4365cff4dd554eaaf57edf5b421cafa22283171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 04/32] fix: a repetition of something that matches nothing no
 longer repeats forever

---
 rule_repetition.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rule_repetition.go b/rule_repetition.go
index f2bb23e..e6678d2 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -84,6 +84,11 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			break
 		}
 
+		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {
+			// the match consumes nothing, so would any further one: it would repeat forever
+			break
+		}
+
 		if node.Position == nil {
 			node.Position = result.Node.Position
 		}
-- 
2.43.0


From fadbafbc4a3740511003d1a99591023990c52bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 05/32] fix: an embedded match of nothing no longer loops
 forever

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index c39d380..02f8580 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or a match of nothing
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
-- 
2.43.0


From 0f67484ac8be0b4818ecefabf54f915d2bcafcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 06/32] fix: a root rule that matches nothing no longer stops a
 parse from advancing

Every root is evaluated on its own push-back of what the earlier ones read.
---
 grammar.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index 02f8580..3c3e325 100644
--- a/grammar.go
+++ b/grammar.go
@@ -339,12 +339,12 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		resultsError := make(map[string]*EvalResult)
 		var maxCharsRead []rune
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
-			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
+			ruleCs := newCharstreamPrepend(cs, maxCharsRead)
+			result := ruleRecord.rule.Eval(inst, ruleCs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
 			}
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 { // a root must consume something
 				resultsMatched[name] = result
 			}
 			if result.Error != nil {
-- 
2.43.0


From ca120e31145b5ac883ca30f89e6f6145fb7c042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 07/32] fix: chars pushed back but not read by any root are no
 longer dropped from the text

---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 3c3e325..8a9a16f 100644
--- a/grammar.go
+++ b/grammar.go
@@ -351,6 +351,9 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 				resultsError[name] = result
 			}
 		}
+		if len(maxCharsRead) < len(charsUnused) { // the roots have not read all chars pushed back
+			maxCharsRead = charsUnused
+		}
 		matches := len(resultsMatched)
 		switch matches {
 		case 0:
-- 
2.43.0


From 247f91b4542ba900929239490bb5711aed06b3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 08/32] fix: root rules are ambiguous only when they tie for
 the longest match

---
 grammar.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8a9a16f..2b5feeb 100644
--- a/grammar.go
+++ b/grammar.go
@@ -377,18 +377,24 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		default: // we found more than 1 matches, the most greedy one wins
 			maxCountCharsUsed := 0
 			var maxResult *EvalResult
+			var tie *EvalResult // another match as long as the maxResult
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
-					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
-						result.Node.RuleName, string(result.CharsRead),
-						maxResult.Node.RuleName, string(maxResult.CharsRead))
+					tie = result
+					continue
 				}
 				if countCharsUsed >= maxCountCharsUsed {
 					maxResult = result
 					maxCountCharsUsed = countCharsUsed
+					tie = nil
 				}
 			}
+			if tie != nil {
+				return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
+					tie.Node.RuleName, string(tie.CharsRead),
+					maxResult.Node.RuleName, string(maxResult.CharsRead))
+			}
 			ast.Nodes = append(ast.Nodes, maxResult.Node)
 			if maxResult.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
-- 
2.43.0


From 3812b98e4fea504cf2a92b9e5514c1e16eaa21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 09/32] fix: alternatives are ambiguous only when they tie for
 the longest match

---
 rule_choice.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..09a8a11 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -79,6 +79,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			break
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
 			maxUsed := 0
+			var tie *EvalResult // another match as long as the resultFound
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
 				if countCharsUsed < maxUsed {
@@ -89,21 +90,26 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 						resultFound = result
 						continue
 					}
-					// we found ambiguity
-					var buf strings.Builder
-					if inst.name == "" {
-						buf.WriteString("ambiguity found:")
-					} else {
-						buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
-					}
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
-					evalResult.Error = errors.New(buf.String())
-					return evalResult
+					tie = result
+					continue
 				}
+				tie = nil
 				maxUsed = countCharsUsed
 				resultFound = result
 			}
+			if tie != nil {
+				// we found ambiguity
+				var buf strings.Builder
+				if inst.name == "" {
+					buf.WriteString("ambiguity found:")
+				} else {
+					buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
+				}
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", tie.Node.RuleName, string(tie.Node.Text())))
+				evalResult.Error = errors.New(buf.String())
+				return evalResult
+			}
 			break
 		}
 	}
-- 
2.43.0


From 0b5cb264c63e13a19b86e0aef730cd4c45b9547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 10/32] fix: an ambiguous choice does not match, all chars it
 read are unused

---
 rule_choice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rule_choice.go b/rule_choice.go
index 09a8a11..7700d8f 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -108,6 +108,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 				buf.WriteString(fmt.Sprintf("\t\n%s: %s", tie.Node.RuleName, string(tie.Node.Text())))
 				evalResult.Error = errors.New(buf.String())
+				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
 			break
-- 
2.43.0


From fff51b85c5363af3d21d8177e644e3b1d59b1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 11/32] fix: text excluded by two exclude rules of a block is
 still excluded

---
 rule.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/rule.go b/rule.go
index 6a413d8..8de4945 100644
--- a/rule.go
+++ b/rule.go
@@ -269,8 +269,8 @@ func validateRuleName(ruleName string) (validRuleName string, err error) {
 	return
 }
 
-// Given a list of rules, find the most greedy match. If no rule matches, return a evalResult with
-// nil node.
+// Given a list of rules, find the most greedy match, the first one of them if there are several. If no
+// rule matches, return a evalResult with nil node.
 func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int, rules []IRule) *EvalResult {
 	evalResult := &EvalResult{}
 	var resultsMatched []*EvalResult
@@ -304,13 +304,7 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 				continue
 			}
 			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				return evalResult
+				continue // as long as the match already found
 			}
 			maxUsed = countCharsUsed
 			maxResult = result
-- 
2.43.0


From 8b4dcb720efc8a585b9b85519e91c674dd539deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 12/32] fix: a block reports exactly the chars it read and
 used, in order

Escaped text, look-ahead of the close and exclude rules and escapes that match nothing
were counted twice, dropped or put in front of the text before them.
---
 rule_block.go | 67 ++++++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index cb40c07..85fd5d7 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -71,15 +71,26 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 
 	cs := charstream
-	var charsUsed []rune
-	var charsUnused []rune
+	var charsUsed []rune   // the chars of this block so far
+	var charsUnused []rune // the chars read after the charsUsed, they are pushed back for each evaluation
+	read := func(result *EvalResult) {
+		if len(result.CharsRead) > len(charsUnused) {
+			charsUnused = result.CharsRead
+		}
+	}
+	use := func(count int) []rune {
+		chars := charsUnused[:count]
+		charsUsed = append(charsUsed, chars...)
+		charsUnused = charsUnused[count:]
+		return chars
+	}
 
 	// check the open chars of the block text
 	result := inst.open.Eval(grammar, cs, flagLeadingSpaces)
 	if result.Node != nil {
 		node.ChildNodes = append(node.ChildNodes, result.Node) // the 1st child of block node is always open node
-		charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-		charsUnused = result.CharsUnused
+		read(result)
+		use(result.countCharsUsed())
 		node.Position = result.Node.Position
 	} else {
 		evalResult.Error = result.Error
@@ -97,19 +108,18 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(cs, charsUnused)
 	content.Position = cs.Position()
-	var closeResult *EvalResult
 	var escapeChars []rune
 	for {
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		// check if we have an escape as next match
 		escaped := false
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
 			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
-			if result.Node != nil {
-				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-				charsUnused = result.CharsUnused
+			read(result)
+			if result.Node != nil && result.countCharsUsed() > 0 {
 				escaped = true
-				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
+				escapeChars = use(result.countCharsUsed()) // save the escapeChars so we can decide later whether to include them in the result content
 				// content.Chars = append(content.Chars, result.charsUsed()...) // the escape char should NOT be preserved
 				// check if there is an escape token after escape token
 				/**
@@ -126,56 +136,47 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 					charsUnused = result.CharsRead
 				}
 				*/
-			} else {
-				charsUnused = result.CharsRead
 			}
 		}
 
 		// find exclude match(es)
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		if len(inst.excludes) > 0 {
 			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
+			read(resultExclude)
 			if resultExclude.Node != nil { // found one
 				if escaped {
-					charsUsed = append(charsUsed, resultExclude.charsUsed()...)
-					charsUnused = resultExclude.CharsUnused
-					content.Chars = append(content.Chars, resultExclude.charsUsed()...)
+					content.Chars = append(content.Chars, use(resultExclude.countCharsUsed())...)
 					continue
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
+				evalResult.CharsRead = append(charsUsed, charsUnused...)
 				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
-			charsUnused = resultExclude.CharsRead
 		}
 
 		// check close rule
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space
-		charsUnused = result.CharsUnused
+		read(result)
 		if result.Node != nil {
 			if escaped {
-				charsUsed = append(charsUsed, result.charsUsed()...)
-				content.Chars = append(content.Chars, result.charsUsed()...)
+				content.Chars = append(content.Chars, use(result.countCharsUsed())...)
 				continue
 			}
-			closeResult = result
 			if !inst.virtualClose {
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
+				use(result.countCharsUsed())
 			}
-			charsUsed = append(charsUsed, content.Chars...)
-			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 			break
 		} else {
 			content.Chars = append(content.Chars, escapeChars...)
 		}
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		char := cs.Peek()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
@@ -183,17 +184,17 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		char = cs.Next()
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
-		charsUnused = nil
+		if len(charsUnused) > 0 {
+			use(1)
+		} else {
+			charsUsed = append(charsUsed, char)
+		}
 	}
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
-		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
-		} else {
-			evalResult.CharsUnused = charsUnused
-		}
+		evalResult.CharsUnused = charsUnused
 		evalResult.Node = node
 	}
 
-- 
2.43.0


From c8049591cfab208feea00faadae867acf817971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 13/32] fix: a group node has the position of its content

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 7ce9b09392b8efc1175977dcde5fbe8a91794381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 14/32] fix: a range matches a skipped white space only if it
 is inside the range

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From 9373fddac1d212327b3f4a7ab72e626028ee6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 15/32] fix: a range node has the position of the char it
 matched

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..5891918 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -46,6 +45,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				evalResult.Node = node
 				return evalResult
 			}
@@ -57,6 +57,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	char := charstream.Peek()
 	if inst.begin <= char && char <= inst.end {
 		// matched
+		node.Position = startPos
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
-- 
2.43.0


From 846a57a6efa00425e76f758f4d4474d2c39e22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 16/32] fix: a chars literal starting with white space has the
 position of its first char

---
 rule_terminal_chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..0bcaba8 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -51,7 +51,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
+		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
-- 
2.43.0


From ac72433a5d425eeed5a54ee7d6cde94b11fbdab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 17/32] fix: parts that match nothing do not decide the
 position of a node

---
 rule_block.go       | 3 +++
 rule_concatenate.go | 2 +-
 rule_repetition.go  | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index 85fd5d7..729ac9e 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -108,6 +108,9 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	node.ChildNodes = append(node.ChildNodes, content)
 	cs = newCharstreamPrepend(cs, charsUnused)
 	content.Position = cs.Position()
+	if node.Position == nil { // nothing to be read as open
+		node.Position = content.Position
+	}
 	var escapeChars []rune
 	for {
 		cs = newCharstreamPrepend(charstream, charsUnused)
diff --git a/rule_concatenate.go b/rule_concatenate.go
index 44cd22a..30558bf 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -72,7 +72,7 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 			return evalResult
 		}
 
-		if node.Position == nil {
+		if node.Position == nil && result.countCharsUsed() > 0 {
 			node.Position = result.Node.Position
 		}
 
diff --git a/rule_repetition.go b/rule_repetition.go
index e6678d2..9e1510c 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -89,7 +89,7 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			break
 		}
 
-		if node.Position == nil {
+		if node.Position == nil && result.countCharsUsed() > 0 {
 			node.Position = result.Node.Position
 		}
 
-- 
2.43.0


From ad8b503dfa0b4f90b1fe4c8fa0c7587a5c7ef23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 18/32] fix: validating again forgets the roots and terminals
 that no longer are

---
 grammar.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grammar.go b/grammar.go
index 2b5feeb..ab3d2bd 100644
--- a/grammar.go
+++ b/grammar.go
@@ -224,6 +224,7 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	inst.terminals = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
@@ -231,6 +232,7 @@ func (inst *Grammar) Validate() error {
 		}
 		inst.terminals[name] = record
 	}
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, ruleRecord := range inst.ruleRecords {
 		_, exists := inst.nonRoots[name]
 		if !exists {
-- 
2.43.0


From 03bd65dcd952505bcafd7e0786330d38f1855352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 19/32] fix: a rejected rule definition leaves no references
 behind in the grammar

---
 grammar.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/grammar.go b/grammar.go
index ab3d2bd..8571dfa 100644
--- a/grammar.go
+++ b/grammar.go
@@ -113,6 +113,7 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	}
 	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
+		inst.removeUsages(ruleName)
 		return nil, err
 	}
 	rule = r
@@ -211,6 +212,23 @@ func (inst *Grammar) AddUsage(ruleName string, userRule string) {
 	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
 }
 
+// removeUsages forgets the rules referenced by a rule, whose definition turned out to be invalid
+func (inst *Grammar) removeUsages(userRule string) {
+	for ruleName, users := range inst.nonRoots {
+		var others []string
+		for _, user := range users {
+			if user != userRule {
+				others = append(others, user)
+			}
+		}
+		if len(others) == 0 {
+			delete(inst.nonRoots, ruleName)
+		} else {
+			inst.nonRoots[ruleName] = others
+		}
+	}
+}
+
 func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
-- 
2.43.0


From 206079c961539dcad00f14f55b019ddf64b8e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 20/32] fix: an exact repetition is printed with its maximum

<3> reads as 3 or more times, <3,3> as exactly 3 times.
---
 rule_repetition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_repetition.go b/rule_repetition.go
index 9e1510c..f953beb 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -255,7 +255,7 @@ func (inst *RepetitionRule) StringWithIndent(indent string) string {
 func (inst *RepetitionRule) repetitionSpecString(buf *strings.Builder) {
 	if inst.min == inst.max {
 		if inst.min != 0 {
-			buf.WriteString(fmt.Sprintf("<%d>", inst.min))
+			buf.WriteString(fmt.Sprintf("<%d,%d>", inst.min, inst.max))
 		}
 	} else {
 		if inst.max == 0 {
-- 
2.43.0


From 1a0e062d1e575631f2da1d2c2b179a0968091726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 21/32] fix: quotes and backslashes in literals are printed
 escaped

---
 rule_terminal_chars.go  | 2 +-
 rule_terminal_string.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index 0bcaba8..3a57740 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -84,7 +84,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 // Returns the rule definition string in xbnf format
 func (inst *TerminalCharsRule) String() string {
 	annotations := string(inst.annotation())
-	str := string(inst.text)
+	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\")
 	if strings.ContainsRune(str, '\'') {
 		str = strings.ReplaceAll(str, "'", "\\'")
 	}
diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..cbdb185 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -83,7 +83,8 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 
 // Returns the rule definition string in xbnf format
 func (inst *TerminalStringRule) String() string {
-	str := string(inst.text)
+	str := strings.ReplaceAll(string(inst.text), "\\", "\\\\")
+	str = strings.ReplaceAll(str, "\"", "\\\"")
 	return fmt.Sprintf("%s\"%s\"", string(inst.annotation()), str)
 }
 
-- 
2.43.0


From 9c48a5f037d8dcf5381d2f306811ca9ca55ff57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 22/32] fix: ranges are printed with one set of annotations and
 escaped ends

---
 rule_terminal_range.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 5891918..cee9c46 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -77,19 +77,19 @@ func (inst *TerminalRangeRule) String() string {
 	beginStr := ""
 	endStr := ""
 	if inst.beginAsUnicode {
-		beginStr = fmt.Sprintf("%s\\u%04X", annotations, inst.begin)
+		beginStr = fmt.Sprintf("\\u%04X", inst.begin)
 	} else {
-		if inst.begin == '\'' {
-			beginStr = "'\\''"
+		if inst.begin == '\'' || inst.begin == EscapeSymbol {
+			beginStr = "'\\" + string(inst.begin) + "'"
 		} else {
 			beginStr = "'" + string(inst.begin) + "'"
 		}
 	}
 	if inst.endAsUnicode {
-		endStr = fmt.Sprintf("%s\\u%04X", annotations, inst.end)
+		endStr = fmt.Sprintf("\\u%04X", inst.end)
 	} else {
-		if inst.end == '\'' {
-			endStr = "'\\''"
+		if inst.end == '\'' || inst.end == EscapeSymbol {
+			endStr = "'\\" + string(inst.end) + "'"
 		} else {
 			endStr = "'" + string(inst.end) + "'"
 		}
-- 
2.43.0


From dcafa0049115fcdae6af0430cc2b3d24a3410864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 23/32] fix: the end of a range is read like any other char
 literal

'a'-''' is rejected and '\'' or '\\' can be the end of a range.
---
 rule_terminal_range.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index cee9c46..15e6b84 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -113,6 +113,9 @@ func inRange(cs ICharstream, beginChar rune, beginAsUnicode bool) (IRule, error)
 	endChar = cs.Next() // expecting a open "'" or "\"
 	if endChar == CharsSymbol {
 		endChar = cs.Next()
+		if endChar == CharsSymbol {
+			return nil, fmt.Errorf("char range: missing the end char")
+		}
 		if endChar == EscapeSymbol { // escape char
 			if cs.Peek() == 'u' { // it's an unicode escape (with leading '\u')
 				unicode, err := parseUnicodeEscape(cs)
@@ -122,7 +125,7 @@ func inRange(cs ICharstream, beginChar rune, beginAsUnicode bool) (IRule, error)
 				endChar = unicode
 				endAsUnicode = true
 			} else {
-				return nil, fmt.Errorf("char range: end char missing unicode escape \\u")
+				endChar = cs.Next() // a bare \ makes the next char literal
 			}
 		}
 		char = cs.Next() // expecting a closing "'"
-- 
2.43.0


From e9bf92764786216fbe303376bdcd224b62431b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 24/32] fix: any white space may precede a choice symbol

After anything but a plain space the rest of the choice became a nested choice,
with its own ordered groups.
---
 rule_choice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rule_choice.go b/rule_choice.go
index 7700d8f..9920cb0 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -136,10 +136,11 @@ func inChoice(grammar *Grammar, name string, firstRule IRule, cs ICharstream) (*
 EXIT:
 	for {
 		char := cs.Peek()
-		switch char {
-		case ' ': // ignore space
+		if IsWhiteSpace(char) { // ignore space
 			cs.Next()
 			continue
+		}
+		switch char {
 		case ChoiceSymbol:
 			cs.Next()
 			rule, err := grammar.parseOne(name, cs)
-- 
2.43.0


From f421f65d0f81ff25889169d44da3ea0130608746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 25/32] fix: no annotation is accepted in front of a choice
 symbol

---
 grammar.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grammar.go b/grammar.go
index 8571dfa..7456873 100644
--- a/grammar.go
+++ b/grammar.go
@@ -505,6 +505,10 @@ EXIT:
 			isVirtual = false
 			rules = append(rules, rule)
 		case ChoiceSymbol, ChoiceOrderSymbol: // '|' or '>'
+			// rule annotations can not appear before them, even with spaces in between
+			if isVirtual || isNonData || isTokenized {
+				return nil, fmt.Errorf("annotation symbol can not appear before choice symbol '%c'", char)
+			}
 			size := len(rules)
 			switch size {
 			case 0:
-- 
2.43.0


From 35656cf65e11d595309087f480093744020c3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 26/32] fix: sequences and choices inside a block are printed
 in a group

---
 rule_block.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index 729ac9e..faf637d 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -27,20 +27,20 @@ func (inst *BlockRule) String() string {
 	var buf strings.Builder
 	buf.WriteString(string(inst.annotation()))
 	buf.WriteRune(blockOpenSymbol)
-	buf.WriteString(inst.open.String())
+	buf.WriteString(blockPartString(inst.open))
 
 	if inst.escape != nil {
 		buf.WriteRune(' ')
-		buf.WriteString(inst.escape.String())
+		buf.WriteString(blockPartString(inst.escape))
 	}
 
 	for _, exclude := range inst.excludes {
 		buf.WriteString(" ^")
-		buf.WriteString(exclude.String())
+		buf.WriteString(blockPartString(exclude))
 	}
 
 	buf.WriteRune(' ')
-	buf.WriteString(inst.close.String())
+	buf.WriteString(blockPartString(inst.close))
 	if inst.virtualClose {
 		buf.WriteRune(' ')
 		buf.WriteRune(blockVirtualClose)
@@ -49,6 +49,16 @@ func (inst *BlockRule) String() string {
 	return buf.String()
 }
 
+// blockPartString returns the definition of a rule in a block. A rule that contains spaces must be
+// grouped, as the rules of a block are separated by spaces.
+func blockPartString(rule IRule) string {
+	switch rule.(type) {
+	case *ConcatenateRule, *ChoiceRule:
+		return fmt.Sprintf("%c %s %c", GroupOpenSymbol, rule.String(), GroupCloseSymbol)
+	}
+	return rule.String()
+}
+
 func (inst *BlockRule) StringWithIndent(indent string) string {
 	return fmt.Sprintf("%s%s", indent, inst.String())
 }
-- 
2.43.0


From 22100d7271dd8cf6681a472b58869f22cc269466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 27/32] fix: rules given with -rule need no -xbnf file

---
 main/xbnf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/xbnf.go b/main/xbnf.go
index 6905d5f..8972462 100644
--- a/main/xbnf.go
+++ b/main/xbnf.go
@@ -34,7 +34,7 @@ func main() {
 		fmt.Printf("ERROR: Command line arguments must contains at least one of -xbnf or -rule\n")
 		printHelp()
 		return
-	} else {
+	} else if *ruleFile != "" {
 		fmt.Printf("Adding rule(s) from XBNF file: %s\n", *ruleFile)
 		g, err := xbnf.NewGrammarFromFile(*ruleFile)
 		if err != nil {
-- 
2.43.0


From e16e68cfd2751696a5cdbcac273734265c9bfdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 28/32] fix: the parts of a block stay together when redundant
 nodes are removed

Removing redundant nodes moved the open, content and close nodes of an
unnamed block into the node above, and the nodes below a part of a block
into the block, which added spaces to (or dropped them from) the text of
the tree. The parts of a block are now kept in it.
---
 node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 6ecb557..88bc4c2 100644
--- a/node.go
+++ b/node.go
@@ -220,7 +220,7 @@ func (inst *Node) RemoveRedundantNodes() {
 		if len(onlyChild.Chars) > 0 { // leaf node
 			inst.Chars = onlyChild.Chars
 			inst.ChildNodes = nil
-		} else { // intermediate node that can be dropped after all its children promoted
+		} else if inst.RuleType != TypeBlock && onlyChild.RuleType != TypeBlock { // intermediate node that can be dropped after all its children promoted
 			inst.ChildNodes = onlyChild.ChildNodes
 		}
 	}
@@ -234,7 +234,8 @@ func (inst *Node) RemoveRedundantNodes() {
 			continue
 		}
 
-		if child.RuleName == "" && len(child.ChildNodes) > 0 {
+		// the open/content/close nodes of a block are always kept together in the block
+		if child.RuleName == "" && len(child.ChildNodes) > 0 && inst.RuleType != TypeBlock && child.RuleType != TypeBlock {
 			children = append(children, child.ChildNodes...)
 		} else {
 			children = append(children, child) // this child is leaf node
-- 
2.43.0


From 326c68f145b5080c30fa7a34e0fdd91497808b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 29/32] fix: the text of a tree stays the same when sticky
 nodes next to an empty one are merged

---
 node.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 88bc4c2..0385e52 100644
--- a/node.go
+++ b/node.go
@@ -322,19 +322,24 @@ func (inst *Node) Text() []rune {
 		return inst.Chars
 	}
 	var text []rune
-	var prevNode *Node
+	// whether all nodes from the last one with text on are sticky; nodes without text in between count
+	// too, since MergeStickyNodes does not merge across a non-sticky one
+	sticky := true
 	var prevText []rune
 	for _, node := range inst.ChildNodes {
 		nodeText := node.Text()
+		sticky = sticky && node.Sticky
 		if inst.RuleType != TypeBlock && // for block node, we don't want to insert a space between its open/content/close nodes
 			len(prevText) > 0 && !IsWhiteSpace(prevText[len(prevText)-1]) && // if the proceeding char is a whitespace, we don't need to add a space
 			len(nodeText) > 0 && !IsWhiteSpace(nodeText[0]) && // if the 1st char is a white space, we don't need to add a space
-			(!prevNode.Sticky || !node.Sticky) {
+			!sticky {
 			text = append(text, ' ')
 		}
 		text = append(text, nodeText...)
 		prevText = text
-		prevNode = node
+		if len(nodeText) > 0 {
+			sticky = node.Sticky
+		}
 	}
 	return text
 }
-- 
2.43.0


From 3f323c0c46255b853b0a6901ac1e6642613a3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 30/32] fix: a merged node has the position of its first char
 when it starts with an empty node

---
 node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node.go b/node.go
index 0385e52..3a6b440 100644
--- a/node.go
+++ b/node.go
@@ -157,6 +157,10 @@ func MergeStickyNodes(nodes []*Node) []*Node {
 			nodeText := node.Text()
 			if prevNode != nil && prevNode.Sticky {
 				// previous node is steaky, node and prevNode can be merge
+				if len(prevNode.Chars) == 0 && len(nodeText) > 0 {
+					// the merged text starts here, what was merged so far has none
+					prevNode.Position = node.Position
+				}
 				prevNode.Chars = append(prevNode.Chars, nodeText...)
 				continue
 			}
-- 
2.43.0


From 32430c03d4a55cf98f6a85ea4229da98642eee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 31/32] fix: keep the explanation of an alternative that fails
 at the very start of a choice

---
 rule_choice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_choice.go b/rule_choice.go
index 9920cb0..43b480e 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -64,7 +64,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			if result.Node != nil {
 				resultsMatched = append(resultsMatched, result)
 			} else {
-				if result.ErrIdx > maxErrCursor {
+				if maxErr == nil || result.ErrIdx > maxErrCursor {
 					maxErrCursor = result.ErrIdx
 					maxErr = result.Error
 				}
-- 
2.43.0


From 75b50822cc6a198212e846aecde09333b38036ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 32/32] fix: report a range missing after trailing spaces as
 missing at EOF, not at L0:0

---
 rule_terminal_range.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 15e6b84..58dcd82 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -66,7 +66,11 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	}
 
 	evalResult.CharsUnused = evalResult.CharsRead
-	evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
+	if char == EOFChar { // nothing but skipped spaces
+		evalResult.Error = fmt.Errorf("missing %s at EOF", inst.desc())
+	} else {
+		evalResult.Error = fmt.Errorf("missing %s at %s", inst.desc(), startPos.String())
+	}
 	evalResult.ErrIdx = charstream.Cursor()
 	return evalResult
 }
-- 
2.43.0

