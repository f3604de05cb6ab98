S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
add('c02-first-newline','C02',[('charstream.go','''	if maxLineIdx > 0 && inst.lines[maxLineIdx] == inst.lines[maxLineIdx-1] {''','''	if maxLineIdx > 1 && inst.lines[maxLineIdx] == inst.lines[maxLineIdx-1] {''')],'the last character read is the first newline','the newline of the first line is said to be in the second line',
'''	cs := NewCharstreamFromString("ab\\nc")
	for i := 0; i < 3; i++ {
		cs.Next()
	}
	if p := cs.PositionLookup(2); p.String() != "L1:3" {
		t.Fatal(p)
	}''')
add('c08-virtual-escape','C08',[('rule_block.go',('if result.Node != nil {\n			if escaped','''			if escaped {'''),'''			if escaped && !inst.virtualClose { // a virtual close is no part of the block''')],'a block with a virtual close and an escape, and an escaped closing text','an escaped closing text ends a block with virtual close',
'''	g := gr(t, "a = <'(' '\\\\\\\\' ')' !>")
	if u := used(g, "a", "(x\\\\)y)"); u != "(x\\\\)y" {
		t.Fatalf("%q", u)
	}''')
add('c08-exclude-first','C08',[('rule_block.go','''		if len(inst.excludes) > 0 {''','''		if len(inst.excludes) > 0 && len(content.Chars) > 0 {''')],'an excluded text directly after the opening text','an excluded text right at the start of a block is accepted',
'''	g := gr(t, "a = <'(' ^'x' ')'>")
	if u := used(g, "a", "(x)"); u != "<none>" {
		t.Fatalf("%q", u)
	}''')
add('c12-option-pos','C12',[('rule_option.go','''	node.Position = evalResult.Node.Position''','''	position := *evalResult.Node.Position
	node.Position = &position''')],'an option whose content matches without taking text','evaluating an option crashes',
'''	g := gr(t, "a = [{'x'}] 'y'")
	if u := used(g, "a", "y"); u != "y" {
		t.Fatalf("%q", u)
	}''')
add('c12-greedy-nil','C12',[('rule.go','''			if countCharsUsed < maxUsed {''','''			if countCharsUsed <= maxUsed {''')],'a block with two exclude rules that both match nothing','evaluating a block crashes',
'''	g := gr(t, "a = <'(' ^['x'] ^['y'] ')'>")
	if u := used(g, "a", "(z)"); u != "<none>" {
		t.Fatalf("%q", u)
	}''')
add('c13-skip','C13',[('grammar.go','''		result = rule.Eval(inst, cs, NOT_SKIP)''','''		result = rule.Eval(inst, cs, SUGGEST_NOT_SKIP)''')],'white space in front of a match of a string literal','white space before a match is no longer kept in a text node',
'''	r := gr(t, "a = \\"x\\"").EvalEmbed("a", "b x")
	if s := string(r.Node.ChildNodes[0].Chars); s != "b " {
		t.Fatalf("%q", s)
	}''')
add('c14-prepend-cursor','C14',[('charstream.go',('func (inst *CharstreamPrepend) Cursor() int','''	return inst.charstream.Cursor() - len(inst.prepend) + inst.cursor'''),'''	if inst.cursor == 0 {
		return inst.charstream.Cursor() - len(inst.prepend)
	}
	return inst.charstream.Cursor()''')],'a string matched from pushed-back characters, not all of which it takes','a node matched from pushed-back characters has a wrong position',
'''	g := gr(t, "a = 'wxyz' | \\"wx\\"")
	r := g.EvalRule("a", "wxyq")
	if p := r.Node.ChildNodes[0]; p.Position.String() != "L1:1" {
		t.Fatal(p.Position)
	}''')
add('c15-option-leak','C15',[('grammar.go',('case OptionOpenSymbol: // \'[\'','''			isNonData = false
'''),'')],'a non-data annotation on an option followed by another part','the part after an annotated option is marked too',
'''	g := gr(t, "a = #['x'] 'y'")
	r := g.EvalRule("a", "xy")
	if r.Node.ChildNodes[1].NonData || !r.Node.ChildNodes[0].NonData {
		t.Fatal(r.StringTree(nil))
	}''')
add('c15-no-inversion','C15',[('rule_reference.go','''			if evalResult.Node.NonData { // nondata && nondata is data
				evalResult.Node.NonData = false
			} else {
				evalResult.Node.NonData = true
			}''','''			evalResult.Node.NonData = true''')],'a non-data annotation on a reference to a rule that is non-data already','the mark of the referenced rule is not inverted',
'''	g := gr(t, "a = 'x' #b\\nb = #'y'")
	r := g.EvalRule("a", "xy")
	if r.Node.ChildNodes[1].NonData {
		t.Fatal(r.StringTree(nil))
	}''')
add('c15-choice-annotation','C15',[('grammar.go',('func (inst *Grammar) parseOne','''			rule, err := inRepetition(inst, name, cs)
			if err != nil {
				return nil, err
			}
			rule.setAnnotation(isTokenized, isNonData, isVirtual)'''),'''			rule, err := inRepetition(inst, name, cs)
			if err != nil {
				return nil, err
			}
			rule.setAnnotation(isTokenized, isVirtual, isNonData)''')],'an annotated repetition as a later alternative of a choice','virtual and non-data marks of such a repetition are swapped',
'''	g := gr(t, "a = 'x' | #{'y'}+")
	r := g.EvalRule("a", "yy")
	if n := r.Node.ChildNodes[0]; !n.NonData || n.Virtual {
		t.Fatal(r.StringTree(nil))
	}''')
add('c16-comment-eof','C16',[('grammar.go','''				if char == '\\n' || char == EOFChar {
					break
				}''','''				if char == '\\n' {
					break
				}''')],'a definition that ends with a comment without a line break','reading the definition never ends',
'''	done := make(chan bool)
	go func() {
		g := NewGrammar()
		g.AddRule("a = 'x' // done")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}''',imports=['time'])
add('c16-choice-single','C16',[('rule_choice.go','''	buf.WriteString(" and " + rules[count-1].desc())''','''	buf.WriteString(" and " + rules[count-1].Name() + inst.groups[1][0].desc())''')],'a description of an unnamed choice without ordered groups','describing a choice with a single group crashes',
'''	g := gr(t, "a = ('x' | 'y') 'z'")
	if u := used(g, "a", "q"); u != "<none>" {
		t.Fatalf("%q", u)
	}''')
add('c16-empty-chars','C16',[('rule_terminal_char.go','''	case 0:
		return nil, fmt.Errorf("terminal char(s) must contains a least 1 character")
	case 1:''','''	case 0:
		if cs.Peek() != CharRangeSymbol {
			return nil, fmt.Errorf("terminal char(s) must contains a least 1 character")
		}
		fallthrough
	case 1:''')],'a range with an empty literal as its beginning','reading the definition crashes',
'''	g := NewGrammar()
	if _, err := g.AddRule("a = ''-'z'"); err == nil {
		t.Fatal("accepted")
	}''')
add('c17-hex-f','C17',[('rule_terminal_char.go','''			('a' <= char && char <= 'f') ||''','''			('a' <= char && char < 'f') ||''')],'a lower case f in a code point escape','a code point escape with an f is rejected',
'''	g := gr(t, "a = '\\\\u006f'")
	if u := used(g, "a", "o"); u != "o" {
		t.Fatalf("%q", u)
	}''')
add('c17-newline-escape','C17',[('rule_terminal_string.go','''				char = cs.Next()
			}
		}
		buf.WriteRune(char)''','''				char = cs.Next()
				if char == 't' {
					char = '\\t'
				}
			}
		}
		buf.WriteRune(char)''')],'a backslash in front of the letter t in a string','a backslash no longer makes the next character literal',
'''	g := gr(t, `a = "x\\ty"`)
	if u := used(g, "a", "xty"); u != "xty" {
		t.Fatalf("%q", u)
	}''')
add('c17-range-open','C17',[('rule_terminal_range.go','''		char = cs.Next() // expecting a closing "'"
		if char != CharsSymbol {''','''		char = cs.Next() // expecting a closing "'"
		if char != CharsSymbol && char != EOFChar {''')],'a range whose end is not terminated at the end of the definition','an unterminated range end is accepted',
'''	g := NewGrammar()
	if _, err := g.AddRule("a = 'x'-'z"); err == nil {
		t.Fatal("accepted")
	}''')
add('c18-short-escape','C18',[('rule_terminal_char.go','''		return fmt.Sprintf("%s\\\\u%04X", annotations, inst.text)''','''		return fmt.Sprintf("%s\\\\u%X", annotations, inst.text)''')],'a code point escape below 1000 (hexadecimal)','a code point escape is printed with fewer than four digits',
'''	g := gr(t, "a = \\\\u00e9")
	if _, err := NewGrammar().AddRule("b = " + g.GetRule("a").String()); err != nil {
		t.Fatal(err)
	}''')
add('c18-plus','C18',[('rule_repetition.go','''			if inst.min == 1 {
				buf.WriteRune('+')''','''			if inst.min >= 1 {
				buf.WriteRune('+')''')],'a repetition with a minimum of at least two and no maximum','the minimum of an open repetition is lost when it is printed',
'''	g := gr(t, "a = {'x'}<2,0>")
	h := gr(t, "a = "+g.GetRule("a").String())
	if u := used(h, "a", "x"); u != "<none>" {
		t.Fatalf("%q", u)
	}''')
add('c18-two-marks','C18',[('rule.go','''	if inst.nondata {
		annotation = append(annotation, NonDataSymbol)''','''	if inst.nondata && !inst.virtual {
		annotation = append(annotation, NonDataSymbol)''')],'a part that is virtual and non-data','the non-data annotation of a virtual part is not printed',
'''	g := gr(t, "a = ~#'x'")
	h := gr(t, "a = "+g.GetRule("a").String())
	if !h.GetRule("a").IsNonData() {
		t.Fatal("lost")
	}''')
add('c19-stale-validate','C19',[('grammar.go','''	nonTerminals := make(map[string]byte)
	for name, children''','''	if inst.validated && len(inst.rootRules) > 0 {
		return nil
	}
	inst.validated = true
	nonTerminals := make(map[string]byte)
	for name, children''')],'a rule added after a first validation','validating again does nothing',
'''	g := gr(t, "a = 'x'")
	g.AddRule("b = c")
	if g.Validate() == nil {
		t.Fatal("undefined rule not reported")
	}''')
add('c19-digits','C19',[('grammar.go','''	ruleRecord, exists := inst.ruleRecords[ruleName]
	if exists {''','''	ruleRecord, exists := inst.ruleRecords[ruleName]
	if exists && ruleRecord.line > 1 {''')],'a second definition of the rule that was defined first','the first rule can be defined twice',
'''	g := NewGrammar()
	g.AddRule("a = 'x'")
	if _, err := g.AddRule("a = 'y'"); err == nil {
		t.Fatal("accepted")
	}''')
add('c19-name','C19',[('rule.go','''char == '_' || ('0' <= char && char <= '9'):''','''char == '_' || ('0' <= char && char <= '9') || unicode.IsLetter(char):'''),('rule.go','''	"strings"
	"sync"
''','''	"strings"
	"sync"
	"unicode"
''')],'a rule name with a letter that is not an English one','rule names may contain letters of any alphabet',
'''	g := NewGrammar()
	if _, err := g.AddRule("a\\u00e9 = 'x'"); err == nil {
		t.Fatal("accepted")
	}''')
add('c20-indented-comment','C20',[('grammar.go','''		line = strings.TrimSpace(line)
		if len(line) == 0 || strings.HasPrefix(line, "//") {''','''		comment := strings.HasPrefix(line, "//")
		line = strings.TrimSpace(line)
		if len(line) == 0 || comment {''')],'a comment line that starts with white space','an indented comment is taken for a rule',
'''	gr(t, "a = 'x'\\n  // comment\\nb = 'y'")''')
add('c20-last-equal','C20',[('grammar.go',('func NewGrammarFromString','''		tokens := strings.SplitN(line, "=", 2)'''),'''		tokens := strings.SplitN(line, " = ", 2)''')],'a line with no space around its equal sign','an equal sign without spaces does not separate name and definition',
'''	g := gr(t, "a='x'")
	if u := used(g, "a", "x"); u != "x" {
		t.Fatalf("%q", u)
	}''')
add('c20-line','C20',[('grammar.go','''			return nil, fmt.Errorf("L#%d: rule [%s] - %s", i+1, name, err)''','''			return nil, fmt.Errorf("L#%d: rule [%s] - %s", len(grammar.ruleRecords)+1, name, err)''')],'an error after a blank line or comment','the wrong line number is reported',
'''	_, err := NewGrammarFromString("// c\\n\\na = 'x'\\nb = 'y")
	if err == nil || !strings.Contains(err.Error(), "#4") {
		t.Fatal(err)
	}''',imports=['strings'])
add('c21-sticky-left','C21',[('node.go','''		if prevNode != nil {
			prevNode.Sticky = false
		}
		prevNode = nil
''','''		prevNode = nil
''')],'a sticky node followed by a non-sticky one','a merged node stays sticky and is merged again later',
'''	r := gr(t, "a = 'x' \\"y\\" 'z'").EvalRule("a", "xyz")
	r.MergeStickyNodes()
	if r.Node.ChildNodes[0].Sticky {
		t.Fatal("sticky")
	}''')
add('c21-block','C21',[('node.go','''	if inst.RuleType == TypeBlock {
		for _, node''','''	if inst.RuleType == TypeBlock && inst.RuleName != "" {
		for _, node''')],'a block without a name','the opening text, content and closing text of a block are merged',
'''	r := gr(t, "a = 'x' <'(' ')'>").EvalRule("a", "x(y)")
	r.MergeStickyNodes()
	if n := len(r.Node.ChildNodes[1].ChildNodes); n != 3 {
		t.Fatal(n)
	}''')
add('c22-order','C22',[('grammar.go','''	case LevelNoVertual:
		ast.MergeStickyNodes()
		ast.RemoveVirtualNodes()''','''	case LevelNoVertual:
		ast.RemoveVirtualNodes()
		ast.MergeStickyNodes()''')],'a virtual node between two sticky nodes','neighbours of a virtual node are merged into one token',
'''	ast, err := gr(t, "a = 'x' ~\\"-\\" 'y'").Eval(NewCharstreamFromString("x-y"), LevelNoVertual)
	if err != nil || ast.CountTokens() != 2 {
		t.Fatal(ast.StringTree(nil))
	}''')
add('c22-single-child','C22',[('node.go',('func (inst *Node) RemoveNonDataNodes()','''		node.RemoveNonDataNodes()
		dataNodes = append(dataNodes, node)'''),'''		if len(node.ChildNodes) > 1 {
			node.RemoveNonDataNodes()
		}
		dataNodes = append(dataNodes, node)''')],'a non-data node that is the only child of its parent','a non-data node is not removed',
'''	r := gr(t, "a = \\"x\\" [#\\"y\\"]").EvalRule("a", "xy")
	r.Node.RemoveNonDataNodes()
	if s := string(r.Node.Text()); s != "x" {
		t.Fatal(s)
	}''')
add('c23-named-empty','C23',[('node.go','''		if len(child.Text()) == 0 && child.RuleName == "" {''','''		if len(child.Text()) <= 1 && child.RuleName == "" {''')],'an unnamed leaf with a single character next to others','an unnamed leaf with text is dropped',
'''	r := gr(t, "a = \\"xx\\" \\"y\\"").EvalRule("a", "xxy")
	r.Node.RemoveRedundantNodes()
	if s := string(r.Node.Text()); s != "xx y" {
		t.Fatal(s)
	}''')
add('c23-named-leaf','C23',[('node.go','''	if len(inst.ChildNodes) == 1 && inst.ChildNodes[0].RuleName == "" && len(inst.ChildNodes[0].ChildNodes) == 0 {''','''	if len(inst.ChildNodes) == 1 && len(inst.ChildNodes[0].ChildNodes) == 0 && (inst.RuleName == "" || inst.ChildNodes[0].RuleName == "") {''')],'an unnamed node whose only child is a named leaf','a named leaf is dropped',
'''	r := gr(t, "a = \\"x\\" [b]\\nb = \\"y\\"").EvalRule("a", "xy")
	r.MergeStickyNodes()
	r.Node.RemoveRedundantNodes()
	if s := r.Node.StringTree(nil); !strings.Contains(s, ":b") {
		t.Fatal(s)
	}''',imports=['strings'])
add('c24-tokens','C24',[('node.go','''	if len(inst.ChildNodes) == 0 {
		return 1
	}
	count := 0''','''	if len(inst.Chars) > 0 {
		return 1
	}
	count := 0''')],'a leaf without text (an empty option)','leaves without text are not counted as tokens',
'''	r := gr(t, "a = 'x' ['y']").EvalRule("a", "x")
	if n := r.Node.CountTokens(); n != 2 {
		t.Fatal(n)
	}''')
add('c24-embed','C24',[('node.go','''TypeChoice, TypeConcatenate, TypeEmbed:''','''TypeChoice, TypeConcatenate:''')],'a tree of an embedded search','the matches of an embedded search are not printed',
'''	r := gr(t, "a = 'x'").EvalEmbed("a", "yx")
	if s := r.Node.StringTree(nil); !strings.Contains(s, ">x<") {
		t.Fatal(s)
	}''',imports=['strings'])
add('c25-alias','C25',[('rule_terminal_chars.go','''	node.Chars = append(node.Chars, inst.text...)''','''	node.Chars = inst.text''')],'a tree changed after parsing','changing a tree changes the grammar',
'''	g := gr(t, "a = 'xy'")
	r := g.EvalRule("a", "xy")
	r.Node.Chars[0] = 'z'
	if u := used(g, "a", "xy"); u != "xy" {
		t.Fatalf("%q", u)
	}''')
add('c25-cache','C25',[('rule_reference.go','''	refName string
}''','''	refName string
	record  *RuleRecord // found at the first evaluation
}'''),('rule_reference.go','''	ruleRecord := grammar.GetRecord(inst.refName)
	if ruleRecord == nil {''','''	if inst.record == nil {
		inst.record = grammar.GetRecord(inst.refName)
	}
	ruleRecord := inst.record
	if ruleRecord == nil {''')],'two goroutines evaluate a reference for the first time','evaluating a reference writes to the grammar',
'''	g := gr(t, "a = b\\nb = 'x'")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); g.EvalRule("a", "x") }()
	}
	wg.Wait()''',imports=['sync'],race=True)
MAIN='''
package main

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_ARGS") != "" {
		os.Args = append([]string{"xbnf"}, strings.Split(os.Getenv("DEMO_ARGS"), "|")...)
		main()
		os.Exit(0)
	}
	d := t.TempDir()
	run := func(args ...string) string {
		cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$")
		cmd.Env = append(os.Environ(), "DEMO_ARGS="+strings.Join(args, "|"))
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fatal(err, string(out))
		}
		return string(out)
	}
	file := func(name, text string) string {
		if err := os.WriteFile(d+"/"+name, []byte(text), 0600); err != nil {
			t.Fatal(err)
		}
		return d + "/" + name
	}
	_ = file
%s
}
'''
# the flag package is set up by main itself, so main must run before flag.Parse of testing: use go run
add('c26-continue','C26',[('main/xbnf.go',('textfile := range textFiles','''		text, err := ioutil.ReadFile(textfile)
		if err != nil {
			fmt.Printf("ERROR: %s", err)
			return
		}'''),'''		text, err := ioutil.ReadFile(textfile)
		if err != nil {
			fmt.Printf("ERROR: %s", err)
			continue
		}''')],'two files, the first cannot be read','files after one that cannot be read are still parsed',
MAIN%'''	out := run("-rule", "a = 'x'", "-file", d+"/none", "-file", file("f", "x"))
	if strings.Contains(out, "Abstract Syntax Tree") {
		t.Fatal(out)
	}''',raw=True,main=True)
add('c26-trim','C26',[('main/xbnf.go',('textfile := range textFiles','''		cs := xbnf.NewCharstreamFromString(string(text))'''),'''		cs := xbnf.NewCharstreamFromString(strings.TrimSpace(string(text)))''')],'a file that ends with white space the grammar has a rule for','white space at the ends of a file is dropped',
MAIN%'''	out := run("-rule", "a = 'x ' 'y'", "-rule", "b = ' '", "-file", file("f", "x y  "))
	if strings.Count(out, "/") == 0 || strings.Count(out, ":b:") != 2 {
		t.Fatal(out)
	}''',raw=True,main=True)
