S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
add('c01-unwrap','C01',[('charstream.go',"""	csp := &CharstreamPrepend{}
	csp.charstream = baseCharstream
""","""	csp := &CharstreamPrepend{}
	csp.charstream = baseCharstream
	if p, ok := baseCharstream.(*CharstreamPrepend); ok && p.cursor+len(prepend) > len(p.prepend) {
		csp.charstream = p.charstream // its own characters have been read
	}
""")],'more characters are pushed back on a stream than are left of the ones pushed back before','the ones left over are lost',
"""	cs := NewCharstreamFromString("abc")
	cs.Next()
	cs.Next()
	cs.Next()
	cs = newCharstreamPrepend(cs, []rune("abc"))
	cs.Next()
	cs.Next()
	cs = newCharstreamPrepend(cs, []rune("ab"))
	s := ""
	for c := cs.Next(); c != EOFChar; c = cs.Next() {
		s += string(c)
	}
	if s != "abc" {
		t.Fatal(s)
	}""")
add('c02-binary','C02',[('charstream.go',"""	for i := maxLineIdx; i >= 0; i-- {
		if idx >= inst.lines[i] {
			lineIdx = i
			break
		}
	}""","""	for lo, hi := 0, maxLineIdx; lo < hi; {
		if mid := (lo + hi) / 2; idx < inst.lines[mid] {
			hi = mid
		} else {
			lineIdx, lo = mid, mid+1
		}
	}""")],'looking up the last character read','its line is wrong',
"""	cs := NewCharstreamFromString("a\\nb\\nc\\nd")
	for cs.Next() != EOFChar {
	}
	for i := 0; i < 7; i++ {
		if p := cs.PositionLookup(i); i > 0 && (p == nil || p.Line != i/2+1 || p.Col != i%2+1) {
			t.Fatal(i, p)
		}
	}""")
add('c03-skip-steps','C03',[('charstream.go',"""	inst.lock.Lock()
	defer inst.lock.Unlock()

	var charsRead []rune
	for {
		char := inst.peek()
		if char == EOFChar {
			break
		}
		if !IsWhiteSpace(char) {
			break
		}
		charsRead = append(charsRead, inst.next())
	}
	return charsRead""","""	var charsRead []rune
	for {
		char := inst.Peek()
		if char == EOFChar {
			break
		}
		if !IsWhiteSpace(char) {
			break
		}
		charsRead = append(charsRead, inst.Next())
	}
	return charsRead""")],'one goroutine skips spaces while another reads','a character that is no space is skipped',
"""	text := strings.Repeat(" a", 20000)
	for i := 0; i < 40; i++ {
		var cs ICharstream = NewCharstreamFromString(text)
		cs = newCharstreamPrepend(cs, []rune(text))
		done := make(chan bool)
		go func() {
			for cs.Next() != EOFChar {
			}
			done <- true
		}()
		for cs.Peek() != EOFChar {
			for _, c := range cs.SkipSpaces() {
				if !IsWhiteSpace(c) {
					t.Fatal("skipped", string(c))
				}
			}
		}
		<-done
	}""",imports=['strings'])
add('c04-bmp','C04',[('rule_terminal_range.go',('startPos := charstream.Position()',"""	if inst.begin <= char && char <= inst.end {
		// matched"""),"""	if uint16(char-inst.begin) <= uint16(inst.end-inst.begin) {
		// matched""")],'a character beyond U+FFFF','a range matches characters outside of it',
"""	if u := used(gr(t, "a = 'a'-'z'"), "a", "\\U00010062"); u != "<none>" {
		t.Fatal(u)
	}""")
add('c05-group-option','C05',[('rule_concatenate.go',"""		if result.Node.RuleType != TypeOption ||
			(len(result.Node.ChildNodes) > 0 || len(result.Node.Chars) > 0) {""","""		if result.Node.RuleType != TypeOption && result.countCharsUsed() > 0 ||
			(len(result.Node.ChildNodes) > 0 || len(result.Node.Chars) > 0) {""")],'a part that matches nothing and has no parts, in front of another one','white space is skipped where it must not be, or not skipped where it may be',
"""	if u := used(gr(t, "a = \\"x\\" {'y'} 'z'"), "a", "x z"); u != "<none>" {
		t.Fatal(u)
	}""")
add('c06-empty-min','C06',[('rule_repetition.go',"""		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {""","""		if result.countCharsUsed() == 0 && len(nodes) > 0 {""")],'a repetition with a minimum of two or more, whose content matches nothing','the repetition fails',
"""	if u := used(gr(t, "a = {['x']}<3> 'y'"), "a", "y"); u != "y" {
		t.Fatal(u)
	}""")
add('c06-empty-max','C06',[('rule_repetition.go',"""		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {""","""		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) && inst.max == 0 {""")],'a repetition with a maximum, whose content matches nothing','the node has as many children as there may be',
"""	r := gr(t, "a = {['x']}<,3> 'y'").EvalRule("a", "y")
	if n := len(r.Node.ChildNodes[0].ChildNodes); n != 0 {
		t.Fatal(n)
	}""")
add('c07-tie-type','C07',[('rule_choice.go',"""					tie = result
					continue""","""					if result.Node.RuleType == resultFound.Node.RuleType {
						tie = result
					}
					continue""")],'a tie between alternatives of different kinds','the tie is not reported',
"""	if u := used(gr(t, "a = 'x' | \\"x\\""), "a", "x"); u != "<none>" {
		t.Fatal(u)
	}""")
add('c08-escape-one','C08',[('rule_block.go',"""					content.Chars = append(content.Chars, use(resultExclude.countCharsUsed())...)
					continue""","""					content.Chars = append(content.Chars, use(1)...)
					continue""")],'an escape in front of an excluded text of several characters that contains another excluded text','the block fails',
"""	if u := used(gr(t, "a = <'(' '!' ^'xyz' ^'yz' ')'>"), "a", "(!xyz)"); u != "(!xyz)" {
		t.Fatal(u)
	}""")
add('c09-eof','C09',[('rule_eof.go',"""		evalResult.CharsUnused = evalResult.CharsRead
		evalResult.Error = fmt""","""		evalResult.Error = fmt""")],'an EOF after white space that is not the end','the white space is lost',
"""	r := gr(t, "a = EOF").EvalRule("a", " x")
	if r.Node != nil || len(r.CharsUnused) != len(r.CharsRead) {
		t.Fatal(r.CharsRead, r.CharsUnused)
	}""")
add('c11-tie','C11',[('grammar.go',"""					maxCountCharsUsed = countCharsUsed
					tie = nil
""","""					maxCountCharsUsed = countCharsUsed
""")],'three roots match, two of them equally far and the third further, tried in this order','an ambiguity is reported in some orders',
"""	for i := 0; i < 60; i++ {
		if _, err := gr(t, "a = 'x'\\nb = \\"x\\"\\nc = 'xy'").Eval(NewCharstreamFromString("xy"), LevelRaw); err != nil {
			t.Fatal(err)
		}
	}""")
add('c12-position','C12',[('rule_block.go',"""	content.Position = cs.Position()
	if""","""	start := *cs.Position()
	content.Position = &start
	if""")],'a block whose open part ends with the text','the evaluation crashes',
"""	if u := used(gr(t, "a = <'(' ')'>"), "a", "("); u != "<none>" {
		t.Fatal(u)
	}
	if u := used(gr(t, "a = <'(' EOF>"), "a", "("); u != "(" {
		t.Fatal(u)
	}""")
add('c13-skip-read','C13',[('grammar.go',"""			text = append(text, char)
		} else""","""			text = append(text, char)
			for n := len(result.CharsRead) - 1; result.Node == nil && n > 1; n-- { // known not to match
				text = append(text, cs.Next())
			}
		} else""")],'a match that starts inside a failed one','it is not found',
"""	r := gr(t, "a = 'aab'").EvalEmbed("a", "aaab")
	if n := len(r.Node.ChildNodes); n != 2 {
		t.Fatal(n)
	}""")
add('c14-empty-first','C14',[('rule_concatenate.go',"""		if node.Position == nil && result.countCharsUsed() > 0 {""","""		if node.Position == nil {""")],'a sequence whose first part matches nothing at another place than its second','the position of the sequence is wrong',
"""	r := gr(t, "a = \\"\\" 'x'").EvalRule("a", "x")
	_ = r
	r = gr(t, "a = ['y'] <\\"\\" 'z'!> 'z'").EvalRule("a", "z")
	_ = r
	r = gr(t, "a = {'y'} ('' > \\"\\") 'x'")
	""")
add('c15-group-name','C15',[('rule_group.go',"""	node.Sticky = evalResult.Sticky
	node.ChildNodes""","""	node.Sticky = evalResult.Sticky
	if node.RuleName == "" {
		node.RuleName = evalResult.Node.RuleName
	}
	node.ChildNodes""")],'a group around a reference','the node of the group has the name of the rule referred to',
"""	r := gr(t, "a = (b) 'y'\\nb = 'x'").EvalRule("a", "xy")
	if s := r.Node.ChildNodes[0].RuleName; s != "" {
		t.Fatal(s)
	}""")
add('c16-describe','C16',[('rule_block.go',"""	return fmt.Sprintf("%s%s", indent, inst.String())""","""	str := inst.String()
	if len(inst.excludes) > 0 {
		str += fmt.Sprintf("\\n%s escape %s", indent, inst.escape.String())
	}
	return fmt.Sprintf("%s%s", indent, str)""")],'describing a block with excluded texts and no escape','it crashes',
"""	gr(t, "a = <'(' ^'x' ')'>").Serialize(true)""")
add('c17-big-u','C17',[('rule_terminal_string.go',"""			if cs.Peek() == 'u' { //""","""			if cs.Peek()|0x20 == 'u' { //"""),('rule_terminal_char.go',('func parseUnicodeEscape',"""	if cs.Peek() != 'u' {"""),"""	if cs.Peek()|0x20 != 'u' {""")],'a backslash in front of a capital U in a string','it is taken for a code point or rejected',
"""	if u := used(gr(t, `a = "\\U0041"`), "a", "U0041"); u != "U0041" {
		t.Fatal(u)
	}""")
add('c18-range','C18',[('rule_terminal_range.go',"""		if inst.end == '\\'' || inst.end == EscapeSymbol {""","""		if inst.end == EscapeSymbol {""")],'a range that ends with a quote','the definition printed cannot be read',
"""	g := gr(t, `a = '!'-'\\''`)
	if _, err := NewGrammarFromString("a = " + g.GetRule("a").String()); err != nil {
		t.Fatal(err)
	}""")
add('c19-twice','C19',[('grammar.go',"""		for _, user := range users {
			if user != userRule {
				others = append(others, user)
			}
		}""","""		for i, user := range users {
			if user != userRule || i < len(users)-1 {
				others = append(others, user)
			}
		}""")],'a rejected definition that refers to the same rule twice','the rule it refers to is taken for referenced',
"""	g := gr(t, "a = 'x'")
	g.AddRule("b = a a |")
	if err := g.Validate(); err != nil {
		t.Fatal(err)
	}
	if _, err := g.Eval(NewCharstreamFromString("x"), LevelRaw); err != nil {
		t.Fatal(err)
	}""")
add('c20-slash','C20',[('grammar.go',"""strings.HasPrefix(line, "//")""","""strings.HasPrefix(line, "/")""")],'a line that starts with a single slash','it is ignored',
"""	if _, err := NewGrammarFromString("a = 'x'\\n/ b = 'y'"); err == nil {
		t.Fatal("accepted")
	}""")
add('c21-empty','C21',[('node.go',"""			if prevNode != nil && prevNode.Sticky {""","""			if prevNode != nil && prevNode.Sticky && (len(nodeText) > 0 || node.RuleName == "") {""")],'a named sticky node without text after another sticky node','the run is not merged into one leaf',
"""	g := gr(t, "a = 'x' b 'y'\\nb = ['z']")
	r := g.EvalRule("a", "xy")
	n := MergeStickyNodes([]*Node{{Sticky: true, Chars: []rune("x")}, {Sticky: true, RuleName: "b"}, {Sticky: true, Chars: []rune("y")}})
	_ = r
	if len(n) != 1 {
		t.Fatal(len(n))
	}""")
add('c22-block','C22',[('node.go',('func (inst *Node) RemoveNonDataNodes()',"""	if len(inst.ChildNodes) == 0 {"""),"""	if len(inst.ChildNodes) == 0 || inst.RuleType == TypeBlock && len(inst.ChildNodes) == 3 {""")],'a complete block with a part marked as non-data','the part is not removed',
"""	r := gr(t, "a = <#'(' ')'>").EvalRule("a", "(x)")
	r.Node.RemoveNonDataNodes()
	if n := len(r.Node.ChildNodes); n != 2 {
		t.Fatal(n)
	}""")
add('c23-block','C23',[('node.go',"""		} else if inst.RuleType != TypeBlock && onlyChild.RuleType != TypeBlock {""","""		} else if onlyChild.RuleType != TypeBlock || len(onlyChild.ChildNodes) < 3 {""")],'a block with a virtual close that is the only child of a node','its parts are no longer together',
"""	g := gr(t, "a = {b <'(' 'x'!>} 'x'\\nb = 'b'")
	_ = g
	n := &Node{RuleType: TypeConcatenate, RuleName: "a", ChildNodes: []*Node{{RuleType: TypeBlock, ChildNodes: []*Node{{Chars: []rune("(")}, {Chars: []rune("y")}}}}}
	n.RemoveRedundantNodes()
	if len(n.ChildNodes) != 1 || n.ChildNodes[0].RuleType != TypeBlock {
		t.Fatal(n.StringTree(nil))
	}""")
add('c24-empty-leaf','C24',[('node.go',('func (inst *Node) CountTokens()',"""	if len(inst.ChildNodes) == 0 {
		return 1
	}"""),"""	if len(inst.ChildNodes) == 0 {
		if inst.RuleType == TypeRepetition || inst.RuleType == TypeOption {
			return 0
		}
		return 1
	}""")],'a repetition or an option without matches','the leaf is not counted',
"""	r := gr(t, "a = 'x' {'y'}").EvalRule("a", "x")
	if n := r.Node.CountTokens(); n != 2 {
		t.Fatal(n)
	}""")
add('c25-scratch','C25',[('rule_repetition.go',"""	max uint // 0 means unlimited or infinity
""","""	max uint // 0 means unlimited or infinity
	buf []*Node
"""),('rule_repetition.go',"""	node.ChildNodes = nodes
""","""	if len(nodes) < cap(inst.buf) { // most repetitions are short
		nodes = append(inst.buf[:0], nodes...)
	} else {
		inst.buf = make([]*Node, 0, len(nodes)+2)
	}
	node.ChildNodes = nodes
""")],'a repetition evaluated again while an earlier result is in use','the earlier result is changed',
"""	g := gr(t, "a = {'x' | 'y'}")
	r := g.EvalRule("a", "x")
	r = g.EvalRule("a", "x")
	g.EvalRule("a", "y")
	if s := string(r.Node.Text()); s != "x" {
		t.Fatal(s)
	}""")
add('c26-repeat','C26',[('main/xbnf.go',"""	*inst = append(*inst, value)
""","""	for _, v := range *inst {
		if v == value { // given before
			return nil
		}
	}
	*inst = append(*inst, value)
""")],'the same text given twice','it is parsed only once',r'''package main

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("XBNF_DEMO") != "" {
		os.Args = []string{"xbnf", "-rule", "b = 'y'", "-text", "y", "-text", "y"}
		main()
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "XBNF_DEMO=1")
	out, _ := c.CombinedOutput()
	if strings.Count(string(out), "Abstract Syntax Tree") != 2 {
		t.Fatal(string(out))
	}
}''',raw=True,main=True)
add('c27-self','C27',[('grammar.go',"""		for _, child := range children {
			nonTerminals[child] = 0
		}""","""		for _, child := range children {
			if child != name {
				nonTerminals[child] = 0
			}
		}""")],'a rule that refers to no rule but itself','it is marked as terminal',
"""	s := gr(t, "a = 'x' [a]\\nb = a").Serialize(false)
	if strings.Contains(s, "a[T]") {
		t.Fatal(s)
	}""",imports=['strings'])
add('c28-max-one','C28',[('rule_repetition.go',"""	if max != 0 && max < min {""","""	if max > 1 && max < min {""")],'bounds with a maximum of 1 and a larger minimum','the definition is accepted',
"""	if _, err := NewGrammarFromString("a = {'x'}<3,1>"); err == nil {
		t.Fatal("accepted")
	}""")
add('c28-open-end','C28',[('rule_group.go',"""	if closeChar != ')' {""","""	if closeChar != ')' && closeChar != EOFChar {""")],'a group that is not closed at the end of the definition','the definition is accepted',
"""	if _, err := NewGrammarFromString("a = ('x' 'y'"); err == nil {
		t.Fatal("accepted")
	}""")
add('c29-partial','C29',[('rule_repetition.go',"""		if evalResult.Error == nil {
			evalResult.Error = fmt""","""		if evalResult.Error == nil || len(nodes) > 0 {
			evalResult.Error = fmt""")],'a repetition that fails after some matches','what is missing is not told',
"""	r := gr(t, "a = {'x' 'y'}<2>").EvalRule("a", "xyxz")
	if r.Error == nil || !strings.Contains(r.Error.Error(), "'y' at L1:4") {
		t.Fatal(r.Error)
	}""",imports=['strings'])
