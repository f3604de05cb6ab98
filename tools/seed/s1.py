S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
add('c01-match-short','C01',[('charstream.go',('func (inst *CharstreamString) Match','	if input == nil || len(input) == 0 {\n		return nil, true\n	}'),
'''	if len(input) == 0 {
		return nil, true
	}
	if len(inst.chars)-inst.cursor < len(input) { // there is not enough text left
		return nil, false
	}''')],'a match of text longer than what is left, whose beginning is there','a match no longer takes the characters up to the first one that differs',
'''	cs := NewCharstreamFromString("ab")
	got, ok := cs.Match([]rune("abc"))
	if ok || string(got) != "ab" || cs.Cursor() != 2 {
		t.Fatalf("%q %v %d", string(got), ok, cs.Cursor())
	}''')
add('c01-skip-boundary','C01',[('charstream.go',('func (inst *CharstreamPrepend) SkipSpaces','''	for {
		char := inst.peek()
		if char == EOFChar {
			break
		}
		if !IsWhiteSpace(char) {
			break
		}
		charsRead = append(charsRead, inst.next())
	}
	return charsRead'''),'''	if inst.cursor >= len(inst.prepend) {
		return inst.charstream.SkipSpaces()
	}
	for _, char := range inst.prepend[inst.cursor:] {
		if !IsWhiteSpace(char) {
			break
		}
		charsRead = append(charsRead, inst.next())
	}
	return charsRead''')],'pushed back white space that continues in the rest of the text','skipping spaces stops at the end of the pushed back characters',
'''	base := NewCharstreamFromString("a  b")
	base.Next()
	base.Next()
	cs := newCharstreamPrepend(base, []rune(" "))
	if s := cs.SkipSpaces(); string(s) != "  " || cs.Peek() != 'b' {
		t.Fatalf("%q", string(s))
	}''')
add('c02-newline-col','C02',[('charstream.go','''		if lineIdx > 0 {
			col = idx - inst.lines[lineIdx-1]''','''		if lineIdx > 0 && lineIdx < maxLineIdx {
			col = idx - inst.lines[lineIdx-1]''')],'the last character read so far, on a line after the first','the column of the last character read is counted from the start of the text',
'''	cs := NewCharstreamFromString("a\\nbc\\n\\nd")
	for i := 0; i < 4; i++ {
		cs.Next()
	}
	if p := cs.PositionLookup(3); p.String() != "L2:2" {
		t.Fatal(p)
	}''')
add('c02-skip-update','C02',[('charstream.go','''		inst.positionMap.update(beginCur, spaces...)''','''		inst.positionMap.update(inst.cursor-1, spaces[len(spaces)-1])''')],'a skipped run of white space with a newline that is not its last character','newlines inside skipped white space are not counted',
'''	cs := NewCharstreamFromString("a\\n b")
	cs.Next()
	cs.SkipSpaces()
	if p := cs.Position(); p.String() != "L2:2" {
		t.Fatal(p)
	}''')
add('c03-next-split','C03',[('charstream.go',('func (inst *CharstreamString) Next() rune','''	inst.lock.Lock()
	defer inst.lock.Unlock()

	return inst.next()'''),'''	if char := inst.Peek(); char == EOFChar {
		return char
	}
	inst.lock.RLock()
	idx := inst.cursor
	inst.lock.RUnlock()

	inst.lock.Lock()
	defer inst.lock.Unlock()
	inst.cursor = idx + 1
	inst.positionMap.update(idx, inst.chars[idx])
	return inst.chars[idx]''')],'two goroutines read at the same time, both between the two locked sections','a character is delivered to two goroutines',
'''	for i := 0; i < 3000; i++ {
		cs := NewCharstreamFromString("0123456789abcdefghij")
		var wg sync.WaitGroup
		var seen [8]map[rune]int
		for k := range seen {
			seen[k] = map[rune]int{}
			wg.Add(1)
			go func(m map[rune]int) {
				defer wg.Done()
				defer func() { recover() }()
				for c := cs.Next(); c != EOFChar; c = cs.Next() {
					m[c]++
				}
			}(seen[k])
		}
		wg.Wait()
		all := map[rune]int{}
		for _, m := range seen {
			for c, n := range m {
				all[c] += n
			}
		}
		for c, n := range all {
			if n != 1 {
				t.Fatalf("%c delivered %d times", c, n)
			}
		}
		if len(all) != 20 {
			t.Fatalf("%d", len(all))
		}
	}''',imports=['sync'])
add('c03-peek-unlocked','C03',[('charstream.go',('func (inst *CharstreamPrepend) Peek() rune','''	inst.lock.RLock()
	defer inst.lock.RUnlock()
	if inst.prepend != nil && inst.cursor < len(inst.prepend) {
		return inst.prepend[inst.cursor]
	}
	return inst.charstream.Peek()'''),'''	return inst.peek()''')],'one goroutine peeks while another reads the same stream with pushed-back characters','a data race between Peek and Next',
'''	base := NewCharstreamFromString("ab")
	base.Next()
	cs := newCharstreamPrepend(base, []rune("a"))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); cs.Next() }()
	go func() { defer wg.Done(); cs.Peek() }()
	wg.Wait()''',imports=['sync'],race=True)
add('c04-leading-prefix','C04',[('rule_terminal_chars.go','''		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]''','''		skippedWSpaces = skippedWSpaces[:len(leadingWSpaces)]''')],'a literal that starts with white space after other white space of another kind','the literal\'s own white space is compared with the wrong end of the skipped white space',
'''	g := gr(t, "a = ' x'")
	if u := used(g, "a", "\\t x"); u != "\\t x" {
		t.Fatalf("%q", u)
	}
	if u := used(g, "a", " \\tx"); u != "<none>" {
		t.Fatalf("%q", u)
	}''')
add('c04-char-last-space','C04',[('rule_terminal_char.go','''			for i, wspace := range skippedSpaces {
				if wspace == inst.text {''','''			for i := len(skippedSpaces) - 1; i >= 0; i-- {
				if skippedSpaces[i] == inst.text {''')],'a white space character literal with several of them in the text','a white space literal takes the last of several white space characters',
'''	g := gr(t, "a = ' '")
	if u := used(g, "a", "   x"); u != " " {
		t.Fatalf("%q", u)
	}''')
add('c05-empty-repetition','C05',[('rule_concatenate.go','''		if result.Node.RuleType != TypeOption ||''','''		if (result.Node.RuleType != TypeOption && result.Node.RuleType != TypeRepetition) ||''')],'a repetition without a match between a non-sticky part and a char literal preceded by white space','after an empty repetition white space is still skipped as the part before it allowed',
'''	g := gr(t, "a = \\"x\\" {'y'} 'z'")
	if u := used(g, "a", "x z"); u != "<none>" {
		t.Fatalf("%q", u)
	}''')
add('c05-option-sticky','C05',[('rule_option.go','''	if evalResult.Node == nil {
		evalResult.Node = node // OptionRule''','''	if evalResult.Node == nil {
		evalResult.Sticky = true // nothing there
		evalResult.Node = node   // OptionRule''')],'a group with an option of a non-sticky rule that does not match, followed by white space','an option without match is sticky whatever its content',
'''	g := gr(t, "a = ('x' [\\"y\\"]) 'z'")
	if u := used(g, "a", "x z"); u != "x z" {
		t.Fatalf("%q", u)
	}''')
add('c06-max-one','C06',[('rule_repetition.go','''		if inst.max > 0 && len(nodes) == int(inst.max) {''','''		if inst.max > inst.min && len(nodes) == int(inst.max) {''')],'a repetition with the same minimum and maximum and more matches in the text','an exact repetition has no maximum',
'''	g := gr(t, "a = {'x'}<2,2>")
	if u := used(g, "a", "xxx"); u != "xx" {
		t.Fatalf("%q", u)
	}''')
add('c06-fail-consumes','C06',[('rule_repetition.go','''		evalResult.CharsUnused = evalResult.CharsRead
		if evalResult.Error == nil {''','''		if evalResult.Error == nil {
			evalResult.CharsUnused = evalResult.CharsRead''')],'a repetition with a minimum that has some matches, but too few, followed by other text','a repetition with too few matches keeps the characters it matched',
'''	g := gr(t, "a = {'x'}<2,3> > 'x' 'y'")
	if u := used(g, "a", "xy"); u != "x" && u != "xy" {
		t.Fatalf("%q", u)
	}
	r := gr(t, "b = {'x'}<2,3>").EvalRule("b", "xy")
	if r.Node != nil || len(r.CharsUnused) != len(r.CharsRead) {
		t.Fatalf("%q %q", string(r.CharsRead), string(r.CharsUnused))
	}''')
add('c07-lose-read','C07',[('rule_choice.go','''			if len(evalResult.CharsRead) < len(result.CharsRead) {
				evalResult.CharsRead = result.CharsRead
			}''','''			if result.Node != nil || len(evalResult.CharsRead) < len(result.CharsRead) {
				evalResult.CharsRead = result.CharsRead
			}''')],'three alternatives: the first reads far ahead in vain, the second matches less','the third alternative is tried at the wrong place of the text',
'''	g := gr(t, "a = 'xyz' | 'x' | 'xy'")
	if u := used(g, "a", "xya"); u != "xy" {
		t.Fatalf("%q", u)
	}''')
add('c07-empty-no-match','C07',[('rule_choice.go','''		} else if matches == 1 {
			resultFound = resultsMatched[0]
			break
		} else {''','''		} else if matches == 1 {
			resultFound = resultsMatched[0]
			if resultFound.countCharsUsed() == 0 { // a later group may do better
				continue
			}
			break
		} else {''')],'an ordered choice whose first group matches nothing','a group that matches the empty text no longer ends the choice',
'''	g := gr(t, "a = ['x'] > 'y'")
	if u := used(g, "a", "y"); u != "" {
		t.Fatalf("%q", u)
	}''')
add('c08-escape-stays','C08',[('rule_block.go','''	var escapeChars []rune
	for {''','''	var escapeChars []rune
	escaped := false
	for {'''),('rule_block.go','''		escaped := false
		escapeChars = nil
''','''		if len(escapeChars) == 0 {
			escaped = false
		}
		escapeChars = nil
''')],'an escaped closing text directly followed by a closing text','the closing text after an escaped one is taken for escaped as well',
'''	g := gr(t, "a = <'(' '\\\\\\\\' ')'>")
	if u := used(g, "a", "(\\\\))x)"); u != "(\\\\))" {
		t.Fatalf("%q", u)
	}''')
add('c08-close-skips','C08',[('rule_block.go','''		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space''','''		result := inst.close.Eval(grammar, cs, flagLeadingSpaces)''')],'white space in front of the closing text of a block at a place where white space may be skipped','white space at the end of a block\'s content is lost',
'''	g := gr(t, "a = <'(' ')'>")
	r := g.EvalRule("a", "(x )")
	if s := string(r.Node.ChildNodes[1].Chars); s != "x " {
		t.Fatalf("%q", s)
	}''')
add('c09-chars-unused','C09',[('rule_terminal_chars.go',('charsRead, succeeded := charstream.Match(text)','''		evalResult.CharsUnused = evalResult.CharsRead'''),'''		evalResult.CharsUnused = charsRead''')],'white space in front of text that only begins like the literal','the skipped white space is not given back when the literal does not match',
'''	r := gr(t, "a = 'xy'").EvalRule("a", " xz")
	if len(r.CharsUnused) != len(r.CharsRead) {
		t.Fatalf("%q %q", string(r.CharsRead), string(r.CharsUnused))
	}''')
add('c04-range-unused','C04',[('rule_terminal_range.go','''				evalResult.CharsUnused = skippedWSpaces[i+1:]
''','''				evalResult.CharsUnused = evalResult.CharsRead[len(evalResult.CharsRead)-i:]
''')],'a range of white space characters on several of them','a range that matches skipped white space reports the wrong characters as unused',
'''	r := gr(t, "a = \\\\u0009-\\\\u0009").EvalRule("a", "\\t\\tx")
	if string(r.CharsUnused) != "\\t" {
		t.Fatalf("%q %q", string(r.CharsRead), string(r.CharsUnused))
	}''')
add('c10-unused-of-winner','C10',[('grammar.go','''			charsUnused = maxCharsRead[maxResult.countCharsUsed():]''','''			charsUnused = maxResult.CharsUnused''')],'two roots match, a third one has read further than the winner','characters read by another root are dropped from the text',
'''	g := gr(t, "a = 'x'\\nb = 'xy'\\nc = 'xyzz'\\nd = 'z'\\ne = 'q'")
	for i := 0; i < 50; i++ {
		ast, err := g.EvalRaw(NewCharstreamFromString("xyzq"))
		if err != nil || string(ast.Nodes[len(ast.Nodes)-2].Text()) != "z" {
			t.Fatal(err)
		}
	}''')
add('c10-unused-single','C10',[('grammar.go','''			charsUnused = maxCharsRead[result.countCharsUsed():]''','''			charsUnused = result.CharsUnused''')],'one root matches, another one has read further in vain','characters read by a root that does not match are dropped from the text',
'''	g := gr(t, "a = 'x'\\nb = 'xyz'\\nc = 'y'\\nd = 'q'")
	for i := 0; i < 50; i++ {
		ast, err := g.EvalRaw(NewCharstreamFromString("xyq"))
		if err != nil || len(ast.Nodes) != 3 {
			t.Fatal(err)
		}
	}''')
add('c11-order','C11',[('grammar.go','''			if len(maxCharsRead) < len(result.CharsRead) {
				maxCharsRead = result.CharsRead
			}''','''			if len(maxCharsRead) == 0 || result.Node != nil {
				maxCharsRead = result.CharsRead
			}''')],'three roots of different reach, in an unlucky order of the map','the outcome of a parse depends on the order in which the roots are tried',
'''	g := gr(t, "a = 'x'\\nb = 'xyz'\\nc = 'xy'")
	for i := 0; i < 200; i++ {
		ast, err := g.EvalRaw(NewCharstreamFromString("xyx"))
		if err != nil || len(ast.Nodes) != 2 || ast.Nodes[0].RuleName != "c" {
			t.Fatal(err)
		}
	}''')
add('c12-choice-pos','C12',[('rule_choice.go','''		node.Position = resultFound.Node.Position''','''		position := *resultFound.Node.Position
		node.Position = &position''')],'a choice whose alternative matches nothing at the end of the text','evaluating a choice crashes',
'''	g := gr(t, "a = ['x'] | 'y'")
	if u := used(g, "a", "z"); u != "" {
		t.Fatalf("%q", u)
	}''')
add('c12-block-eof','C12',[('rule_block.go','''		if char == EOFChar {
			evalResult.Error =''','''		if char == EOFChar && !escaped {
			evalResult.Error =''')],'a block without end whose text ends with the escape','evaluation never returns',
'''	g := gr(t, "a = <'(' '\\\\\\\\' ')'>")
	done := make(chan bool)
	go func() { g.EvalRule("a", "(x\\\\"); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}''',imports=['time'])
add('c13-text-buffer','C13',[('grammar.go',('} else { // find a match','''				text = nil'''),'''				text = text[:0]''')],'two stretches of text with a match in between, the second no longer than the first','the text before a match is overwritten by the text after it',
'''	r := gr(t, "a = 'x'").EvalEmbed("a", "abxcd")
	if s := string(r.Node.ChildNodes[0].Chars); s != "ab" {
		t.Fatalf("%q", s)
	}''')
add('c13-unused-lost','C13',[('grammar.go','''		cs = newCharstreamPrepend(cs, result.CharsUnused)
		if result.Node == nil''','''		if result.Node == nil || len(cs.SkipSpaces()) == 0 {
			cs = newCharstreamPrepend(cs, result.CharsUnused)
		}
		if result.Node == nil''')],'white space after a match','white space after a match is dropped',
'''	r := gr(t, "a = 'x'").EvalEmbed("a", "x b")
	if n := len(r.Node.ChildNodes); n != 2 || string(r.Node.ChildNodes[1].Chars) != " b" {
		t.Fatal(n)
	}''')
add('c14-char-pos','C14',[('rule_terminal_char.go','''	node.Position = charstream.Position()
''','''	node.Position = startPos
''')],'white space in front of a char literal','a char node points at the white space skipped before it',
'''	r := gr(t, "a = 'x'").EvalRule("a", " x")
	if p := r.Node.Position.String(); p != "L1:2" {
		t.Fatal(p)
	}''')
add('c14-prepend-cursor','C14',[('charstream.go',('func (inst *CharstreamPrepend) Cursor() int','''	return inst.charstream.Cursor() - len(inst.prepend) + inst.cursor'''),'''	if inst.cursor == 0 {
		return inst.charstream.Cursor() - len(inst.prepend)
	}
	return inst.charstream.Cursor()''')],'a string matched partly from pushed-back characters','a node matched from pushed-back characters has a wrong position',
'''	g := gr(t, "a = 'wxyz' | 'w' 'xy'")
	r := g.EvalRule("a", "\\nwxyq")
	if p := r.Node.ChildNodes[0].ChildNodes[1]; p.Position.String() != "L2:2" {
		t.Fatal(p.Position)
	}
	g = gr(t, "a = 'wxyz' | \\"wx\\"")
	r = g.EvalRule("a", "wxyq")
	if p := r.Node.ChildNodes[0]; p.Position.String() != "L1:1" {
		t.Fatal(p.Position)
	}''')
