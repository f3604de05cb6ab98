S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
add('c14-option-last','C14',[('rule_option.go','	node.Position = evalResult.Node.Position\n','	node.Position = evalResult.Node.Position\n	if n := len(evalResult.Node.ChildNodes); n > 1 && evalResult.Node.RuleType == TypeRepetition {\n		node.Position = evalResult.Node.ChildNodes[n-1].Position\n	}\n')],'an option of a repetition that matches several times','the option has the position of the last match',
"""	r := gr(t, "a = [{'x'}]").EvalRule("a", "xxx")
	if p := r.Node.Position; p.Line != 1 || p.Col != 1 {
		t.Fatal(p)
	}""")
add('c09-choice-block','C09',[('rule_choice.go','			if len(evalResult.CharsRead) < len(result.CharsRead) {','			if len(evalResult.CharsRead) < len(result.CharsRead) || result.Node != nil && result.Node.RuleType == TypeBlock {')],'a block is an alternative after one that has read further','the characters read beyond the block are lost',
"""	cs := NewCharstreamFromString("(x)yz.")
	r := gr(t, "a = \\"(x)yz!\\" | <'(' ')'>").GetRule("a").Eval(NewGrammar(), cs, SUGGEST_SKIP)
	if len(r.CharsRead) != cs.Cursor() {
		t.Fatal(string(r.CharsRead), cs.Cursor())
	}""")
add('c20-equals-run','C20',[('grammar.go',('func NewGrammarFromString','		ruleStr := strings.TrimSpace(tokens[1])'),'		ruleStr := strings.TrimSpace(strings.TrimLeft(tokens[1], "="))')],'a line with two equal signs in a row','the line is accepted',
"""	if _, err := NewGrammarFromString("a == 'x'"); err == nil {
		t.Fatal("accepted")
	}""")
add('c20-hash','C20',[('grammar.go','strings.HasPrefix(line, "//")','strings.HasPrefix(line, "//") || strings.HasPrefix(line, "#")')],'a line that starts with a number sign','the line is ignored',
"""	if _, err := NewGrammarFromString("a = 'x'\\n#b = 'y'"); err == nil {
		t.Fatal("accepted")
	}""")
add('c11-node-chars','C11',[('rule_terminal_chars.go','node.Chars = append(node.Chars, inst.text...)','node.Chars = inst.text[:len(inst.text):cap(inst.text)]')],'a tree is changed, then the same text is parsed again','the text is rejected',
"""	g := gr(t, "a = 'xyz'")
	one, err := g.EvalRaw(NewCharstreamFromString("xyz"))
	if err != nil {
		t.Fatal(err)
	}
	one.Nodes[0].Chars[0] = 'Q'
	if two, err := g.EvalRaw(NewCharstreamFromString("xyz")); err != nil || string(two.Text()) != "xyz" {
		t.Fatal("another tree")
	}""")
add('c19-eof-prefix','C19',[('rule_reference.go','if ruleName == "EOF" {','if strings.HasPrefix(ruleName, "EOF") {')],'a reference to a rule whose name begins like EOF','it is taken for the end of the text',
"""	g := gr(t, "EOFx = 'q'\\nu = 'u' EOFx")
	if u := used(g, "u", "uq"); u != "uq" {
		t.Fatal(u)
	}""")
add('c26-same-text','C26',[('main/xbnf.go','	for _, text := range texts {\n','	for i, text := range texts {\n		if i > 1 && text == texts[i-1] {\n			continue // has just been parsed\n		}\n')],'the same text is given three times','it is parsed only twice',
"""package main

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("VM_DEMO") != "" {
		os.Args = []string{"xbnf", "-rule", "a = 'x'", "-text", "x", "-text", "x", "-text", "x"}
		main()
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "VM_DEMO=1")
	o, _ := c.CombinedOutput()
	if n := strings.Count(string(o), "Abstract Syntax Tree"); n != 3 {
		t.Fatal(n)
	}
}""",main=True,raw=True)
add('c08-longest','C08',[('rule.go',"""		for _, result := range resultsMatched {
			countCharsUsed := result.countCharsUsed()
			if countCharsUsed < maxUsed {
				continue
			}""","""		for _, result := range resultsMatched {
			countCharsUsed := result.countCharsUsed()
			if countCharsUsed+1 < maxUsed {
				continue
			}""")],'an escape in front of a text left out that is another one and one character more','only the shorter one is escaped',
"""	if u := used(gr(t, "a = <'(' '!' ^'x)' ^'x' ')'>"), "a", "(!x))"); u != "(!x))" {
		t.Fatal(u)
	}""")
