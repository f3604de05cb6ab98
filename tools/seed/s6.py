S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
add('c02-window','C02',[('charstream.go',"""	for i := maxLineIdx; i >= 0; i-- {
		if idx""","""	for i := maxLineIdx; i >= 0 && i > maxLineIdx-8; i-- { // only what was read lately is looked up
		if idx""")],'looking up a character more than eight lines back','the line of such a character is wrong',
"""	cs := NewCharstreamFromString("a\\nb\\nc\\nd\\ne\\nf\\ng\\nh\\ni\\nj\\nk\\nl\\nm")
	for cs.Next() != EOFChar {
	}
	if p := cs.PositionLookup(4); p == nil || p.Line != 3 || p.Col != 1 {
		t.Fatal(p)
	}""")
add('c26-validate','C26',[('main/xbnf.go',"""	err := grammar.Validate()
	if err""","""	var err error
	if *ruleFile == "" { // otherwise already validated
		err = grammar.Validate()
	}
	if err""")],'a rule file and a rule option that refers to a rule of the file','the rule given as option is never tried',r'''package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("XBNF_DEMO") != "" {
		os.Args = []string{"xbnf", "-xbnf", os.Getenv("XBNF_DEMO"), "-rule", "b = a 'y'", "-text", "xy"}
		main()
		return
	}
	f := filepath.Join(t.TempDir(), "r.xbnf")
	if err := os.WriteFile(f, []byte("a = 'x'"), 0o644); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "XBNF_DEMO="+f)
	out, _ := c.CombinedOutput()
	if strings.Contains(string(out), "ERROR") || !strings.Contains(string(out), "Abstract Syntax Tree") {
		t.Fatal(string(out))
	}
}''',raw=True,main=True)
add('c14-block-content','C14',[('rule_block.go',"""	content.Position = cs.Position()
""","""	content.Position = charstream.Position()
""")],'a block whose open part reads further than it matches','the content of the block has a wrong position',
"""	r := gr(t, "a = <(\\"<\\" | \\"<ab\\") '>'>").EvalRule("a", "<ac>")
	if p := r.Node.ChildNodes[1].Position; p == nil || p.Col != 2 {
		t.Fatal(p)
	}""")
add('c09-escape-eof','C09',[('rule_block.go',"""		if char == EOFChar {
			evalResult.Error""","""		if char == EOFChar && !escaped {
			evalResult.Error""")],'a text that ends with the escape of an unfinished block','a character that is not in the text is reported as read',
"""	r := gr(t, "a = <'(' '\\\\\\\\' ')'>").EvalRule("a", "(x\\\\")
	if s := string(r.CharsRead); s != "(x\\\\" {
		t.Fatalf("%q", s)
	}""")
add('c16-exclude','C16',[('rule_block.go',"""		excludeRule, err := grammar.parse(name, cs, []rune{' ', blockCloseSymbol, blockVirtualClose})
		if err != nil {""","""		excludeRule, err := grammar.parse(name, cs, []rune{' ', blockCloseSymbol, blockVirtualClose})
		if err != nil && excludeRule != nil {""")],'a block definition whose exclude part is not well formed, while what follows is','the definition is accepted and crashes when it is printed',
"""	g, err := NewGrammarFromString("a = <'(' ^> ')'>")
	if err == nil {
		g.GetRule("a").String()
	}
	g, err = NewGrammarFromString("a = <'(' ^\\\\x ')'>\\nx = 'x'")
	if err == nil {
		g.GetRule("a").String()
	}""")
add('c19-self','C19',[('grammar.go',('func (inst *Grammar) Validate() error',"""		_, exists := inst.nonRoots[name]
		if !exists {
			inst.rootRules"""),"""		users, exists := inst.nonRoots[name]
		if !exists || len(users) == 1 && users[0] == name {
			inst.rootRules""")],'a rule that only itself refers to','such a rule is tried when parsing',
"""	if _, err := gr(t, "b = 'y'\\na = 'x' [a]").Eval(NewCharstreamFromString("x"), LevelBasic); err == nil {
		t.Fatal("parsed")
	}""")
add('c25-cap','C25',[('rule_terminal_string.go',"""	node.Chars = append(node.Chars, inst.text...)
""","""	node.Chars = inst.text[:len(inst.text):len(inst.text)] // appending copies
""")],'a caller that changes a character of a node','the string of the rule is changed too',
"""	g := gr(t, "a = \\"xy\\"")
	g.EvalRule("a", "xy").Node.Chars[0] = 'z'
	if u := used(g, "a", "xy"); u != "xy" {
		t.Fatal(u)
	}""")
add('c01-match-split','C01',[('charstream.go',('func (inst *CharstreamPrepend) Match',"""	for _, inputChar := range input {
		char := inst.next()"""),"""	for i, inputChar := range input {
		if i > 0 && inst.cursor == len(inst.prepend) && i == inst.cursor { // the rest is in the stream
			return inst.charstream.Match(input[i:])
		}
		char := inst.next()""")],'a match that starts with the pushed back characters and goes on after them','the pushed back characters are missing in the result',
"""	cs := NewCharstreamFromString("abcd")
	cs.Next()
	cs.Next()
	cs = newCharstreamPrepend(cs, []rune("ab"))
	r, ok := cs.Match([]rune("abc"))
	if !ok || string(r) != "abc" {
		t.Fatal(string(r), ok)
	}""")
add('c06-cap','C06',[('rule_repetition.go',"""		if inst.max > 0 && len(nodes) == int(inst.max) { // found max number of matches
			break""","""		if inst.max > 0 && len(nodes) == int(inst.max&0xff) { // found max number of matches
			break""")],'a repetition with a maximum above 255 and as many matches','the repetition stops too early',
"""	g := gr(t, "a = { 'x' }<0,300>")
	text := strings.Repeat("x", 299)
	if u := used(g, "a", text); u != text {
		t.Fatal(len(u))
	}""",imports=['strings'])
add('c24-marks','C24',[('node.go',"""	if inst.NonData {
		buf.WriteRune(NonDataSymbol)
	}
	if inst.Virtual {
		buf.WriteRune(VirtualSymbol)
	}""","""	if inst.Virtual {
		buf.WriteRune(VirtualSymbol)
	} else if inst.NonData {
		buf.WriteRune(NonDataSymbol)
	}""")],'a node that is both virtual and non-data','only one of its marks is printed',
"""	s := gr(t, "a = ~#'x'").EvalRule("a", "x").Node.StringTree(nil)
	if !strings.Contains(s, "#") || !strings.Contains(s, "~") {
		t.Fatal(s)
	}""",imports=['strings'])
add('c18-unicode','C18',[('rule_terminal_char.go','return fmt.Sprintf("%s\\\\u%04X", annotations, inst.text)','return fmt.Sprintf("%s%U", annotations, inst.text)[:0] + fmt.Sprintf("%s\\\\u%02X", annotations, inst.text)')],'a code point below 1000 given as escape','the printed escape has less than four digits',
"""	g := gr(t, "a = \\\\u00E9")
	if _, err := NewGrammarFromString("a = " + g.GetRule("a").String()); err != nil {
		t.Fatal(err)
	}""")
add('c28-close-parts','C28',[('rule_block.go',"""	closeRule, err := grammar.parse(name, cs, []rune{blockCloseSymbol, blockVirtualClose})""","""	closeRule, err := grammar.parseOne(name, cs)
	cs.SkipSpaces()""")],'a block with an exclude or escape whose close part is a sequence','such a block is rejected',
"""	if _, err := NewGrammarFromString("a = <'(' ^'x' 'y' 'z'>"); err != nil {
		t.Fatal(err)
	}""")
add('c28-ref-digit','C28',[('rule_reference.go',"""		if (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z') || char == '_' || (char >= '0' && char <= '9') {""","""		if (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z') || char == '_' || (char > '0' && char <= '9') {""")],'a reference to a rule whose name contains the digit 0','the definition is rejected',
"""	if _, err := NewGrammarFromString("a = x10\\nx10 = 'x'"); err != nil {
		t.Fatal(err)
	}""")
add('c29-root','C29',[('grammar.go',"""			if result.Error != nil {
				resultsError[name] = result""","""			if result.Error != nil && len(result.CharsRead) > 0 {
				resultsError[name] = result""")],'a root that fails without reading anything','the rejection of the text does not say what this root reports',
"""	_, err := gr(t, "a = 'x'").EvalRaw(NewCharstreamFromString("y"))
	if err == nil || !strings.Contains(err.Error(), "missing") {
		t.Fatal(err)
	}""",imports=['strings'])
add('c12-name','C12',[('grammar.go',('func (inst *Grammar) EvalEmbed',"""	if record == nil {
		evalResult.Error = fmt.Errorf("rule '%s' not defined", ruleName)
		return evalResult
	}
	rule := record.Rule()
	node :="""),"""	if record == nil && !inst.validated {
		evalResult.Error = fmt.Errorf("rule '%s' not defined", ruleName)
		return evalResult
	}
	rule := record.Rule()
	node :="""),('grammar.go',"""	inst.terminals = make(map[string]*RuleRecord)
	for name""","""	inst.terminals = make(map[string]*RuleRecord)
	inst.validated = true
	for name""")],'an embedded search for a rule that is not defined, after validation','the search crashes',
"""	g := gr(t, "a = 'x'")
	if err := g.Validate(); err != nil {
		t.Fatal(err)
	}
	if r := g.EvalEmbed("b", "x"); r.Error == nil {
		t.Fatal(r)
	}""")
