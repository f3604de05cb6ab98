S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
MAIN='''
package main

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_ARGS") != "" {
		os.Args = append([]string{"xbnf"}, strings.Split(os.Getenv("DEMO_ARGS"), "|")...)
		main()
		os.Exit(0)
	}
	d := t.TempDir()
	run := func(args ...string) string {
		cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$")
		cmd.Env = append(os.Environ(), "DEMO_ARGS="+strings.Join(args, "|"))
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fatal(err, string(out))
		}
		return string(out)
	}
	file := func(name, text string) string {
		if err := os.WriteFile(d+"/"+name, []byte(text), 0600); err != nil {
			t.Fatal(err)
		}
		return d + "/" + name
	}
	_ = file
%s
}
'''

add('c13-adjacent','C13',[('grammar.go',('if result.Node == nil ||','			text = append(text, char)'),"""			if char == '\\n' && len(text) > 0 {
				node.ChildNodes = append(node.ChildNodes, &Node{RuleType: TypeText, RuleName: "_", Chars: text})
				text = nil
			}
			text = append(text, char)""")],'a line break inside text between matches','text between matches is split into adjacent text nodes',
"""	r := gr(t, "a = 'x'").EvalEmbed("a", "b\\nc")
	if n := len(r.Node.ChildNodes); n != 1 {
		t.Fatal(n)
	}""")
add('c16-block-close','C16',[('rule_block.go',"""	closeRule, err := grammar.parse(name, cs, []rune{blockCloseSymbol, blockVirtualClose})
	if err != nil {
		return nil, err
	}
	block.close = closeRule""","""	closeRule, err := grammar.parse(name, cs, []rune{blockCloseSymbol, blockVirtualClose})
	if err != nil && cs.Peek() != blockCloseSymbol {
		return nil, err
	}
	block.close = closeRule""")],'a block with an exclude rule and no closing rule','a block without closing rule is accepted and crashes when it is printed',
"""	g := NewGrammar()
	if r, err := g.AddRule("a = <'(' ^'x'>"); err == nil {
		r.String()
	}""")
add('c16-group-hang','C16',[('rule_repetition.go',"""			case ' ', '\\t', '\\n':
				continue
			case '>':
				break EXIT_MAX""","""			case ' ', '\\t', '\\n', EOFChar:
				continue
			case '>':
				break EXIT_MAX""")],'a repetition bound that is not closed at the end of the definition','reading an unfinished repetition bound never ends',
"""	done := make(chan bool)
	go func() {
		NewGrammar().AddRule("a = {'x'}<1,2")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}""",imports=['time'])
add('c18-quote','C18',[('rule_terminal_char.go',"""	if inst.text == '\\'' {
		return annotations + "'\\\\''"
	}
""","")],'a char literal that is a quote','a quote is printed as a literal that cannot be read',
"""	g := gr(t, "a = '\\\\''")
	if _, err := NewGrammar().AddRule("b = " + g.GetRule("a").String()); err != nil {
		t.Fatal(err)
	}""")
add('c18-order','C18',[('rule_choice.go',"""		rule0 := group[0]
		rules := group[1:]""","""		rule0 := group[0]
		rules := group[len(group)-len(group)/2:]""")],'an ordered choice with three alternatives in a later group','an alternative of a later group is not printed',
"""	g := gr(t, "a = 'w' > 'x' | 'y' | 'z'")
	h := gr(t, "a = "+g.GetRule("a").String())
	if u := used(h, "a", "y"); u != "y" {
		t.Fatalf("%q", u)
	}""")
add('c18-lower-range','C18',[('rule_terminal_range.go',"""	if inst.endAsUnicode {""","""	if inst.endAsUnicode || inst.end < ' ' {""")],'a range whose end is a control character written as such','the range prints differently after it was read back',
"""	g := gr(t, "a = '\\x01'-'\\x02'")
	h := gr(t, "a = "+g.GetRule("a").String())
	if g.GetRule("a").String() != h.GetRule("a").String() {
		t.Fatalf("%q %q", g.GetRule("a").String(), h.GetRule("a").String())
	}
	if u := used(h, "a", "\\x02"); u != "\\x02" {
		t.Fatalf("%q", u)
	}""")
add('c20-semicolon','C20',[('grammar.go',"""	lines := strings.Split(grammarText, "\\n")
	for i, line""","""	lines := strings.Split(strings.TrimSpace(grammarText), "\\n")
	for i, line""")],'an error in a grammar text that starts with blank lines','line numbers are counted from the first line that is not blank',
"""	_, err := NewGrammarFromString("\\n\\na = 'x'\\nb = 'y")
	if err == nil || !strings.Contains(err.Error(), "#4") {
		t.Fatal(err)
	}""",imports=['strings'])
add('c21-last-sticky','C21',[('node.go',"""	if prevNode != nil {
		prevNode.Sticky = false
	}
	return children""","""	if prevNode != nil && len(children) > 1 {
		prevNode.Sticky = false
	}
	return children""")],'a node whose children are all sticky','the only merged leaf stays sticky',
"""	r := gr(t, "a = \\"w\\" ('x' 'y')+").EvalRule("a", "wxy")
	_ = r
	ast, err := gr(t, "a = 'x' 'y'").Eval(NewCharstreamFromString("xy"), LevelBasic)
	if err != nil || ast.CountStickyNodes() != 0 {
		t.Fatal(err)
	}""".replace("	r := gr(t, \\\"a","	r := gr(t, \\\"a"))
add('c22-root','C22',[('ast.go',('func (inst *AST) RemoveNonDataNodes()',"""		if node.NonData {
			continue
		}"""),"""		if node.NonData && len(inst.Nodes) > 1 {
			continue
		}""")],'a tree whose only node is non-data','a non-data node stays when it is the only one',
"""	ast, err := gr(t, "a = #(\\"x\\" 'y')").Eval(NewCharstreamFromString("xy"), LevelDataOnly)
	if err != nil || len(ast.Nodes) != 0 {
		t.Fatal(err)
	}""")
add('c22-virtual-leaf','C22',[('node.go',('func (inst *Node) RemoveVirtualNodes()',"""		if node.Virtual {
			continue
		}"""),"""		if node.Virtual && !node.Sticky {
			continue
		}""")],'a virtual node that is still sticky: removal without merging first','sticky virtual nodes are not removed',
"""	r := gr(t, "a = \\"x\\" ~'y'").EvalRule("a", "xy")
	r.Node.RemoveVirtualNodes()
	if s := string(r.Node.Text()); s != "x" {
		t.Fatal(s)
	}""")
add('c23-promote-named','C23',[('node.go',"""		onlyChild := inst.ChildNodes[0]
		if len(onlyChild.Chars) > 0 { // leaf node
			inst.Chars = onlyChild.Chars""","""		onlyChild := inst.ChildNodes[0]
		if text := onlyChild.Text(); len(text) > 0 && inst.RuleType == TypeOption { // leaf node
			inst.Chars = text
			inst.ChildNodes = nil
		} else if len(onlyChild.Chars) > 0 { // leaf node
			inst.Chars = onlyChild.Chars""")],'an option around an unnamed node with a named child','the named nodes inside an option are dropped',
"""	r := gr(t, "a = \\"x\\" [(b \\"z\\")]\\nb = \\"y\\"").EvalRule("a", "xyz")
	r.MergeStickyNodes()
	r.Node.RemoveRedundantNodes()
	if s := r.Node.StringTree(nil); !strings.Contains(s, ":b") {
		t.Fatal(s)
	}""",imports=['strings'])
add('c26-trim','C26',[('main/xbnf.go',('textfile := range textFiles',"""		cs := xbnf.NewCharstreamFromString(string(text))"""),"""		cs := xbnf.NewCharstreamFromString(strings.TrimSpace(string(text)))""")],'a file that ends with white space the grammar has a rule for','white space at the ends of a file is dropped',
MAIN%"""	out := run("-rule", "a = 'x ' 'y'", "-rule", "b = ' '", "-file", file("f", "x y  "))
	if !strings.Contains(out, ">x y  <") {
		t.Fatal(out)
	}""",raw=True,main=True)
