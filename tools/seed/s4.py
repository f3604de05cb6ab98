S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

add('c18-quotes','C18',[('rule_terminal_chars.go',r"""		str = strings.ReplaceAll(str, "'", "\\'")""",r"""		str = strings.Replace(str, "'", "\\'", 1)""")],'a literal with more than one quote','only the first quote of a literal is escaped when it is printed',
"""	g := gr(t, `a = 'x\\'\\''`)
	h, err := NewGrammarFromString("a = " + g.GetRule("a").String())
	if err != nil {
		t.Fatal(err)
	}
	if u := used(h, "a", "x''"); u != "x''" {
		t.Fatalf("%q", u)
	}""")
add('c18-block-escape','C18',[('rule_block.go',"""	for _, exclude := range inst.excludes {
		buf.WriteString(" ^")""","""	for i, exclude := range inst.excludes {
		if i > 0 && inst.escape != nil {
			buf.WriteString(", ")
		}
		buf.WriteString(" ^")""")],'a block with an escape and two exclude rules','such a block is printed with a comma',
"""	g := gr(t, `a = <'(' '\\\\' ^'x' ^'y' ')'>`)
	if _, err := NewGrammarFromString("a = " + g.GetRule("a").String()); err != nil {
		t.Fatal(err)
	}""")
add('c21-last-sticky','C21',[('node.go',"""	if prevNode != nil {
		prevNode.Sticky = false
	}
	return children""","""	if prevNode != nil && len(children) > 1 {
		prevNode.Sticky = false
	}
	return children""")],'a node whose children are all sticky','the only merged leaf stays sticky',
"""	ast, err := gr(t, "a = 'x' 'y'").Eval(NewCharstreamFromString("xy"), LevelBasic)
	if err != nil || ast.CountStickyNodes() != 0 {
		t.Fatal(err)
	}""")
add('c21-run-of-three','C21',[('node.go',"""				prevNode.Chars = append(prevNode.Chars, nodeText...)
				continue""","""				prevNode.Chars = append(prevNode.Chars, nodeText...)
				prevNode.Sticky = node.Sticky && !node.Virtual
				continue""")],'a virtual sticky node with a sticky node after it','a run of sticky nodes is split after a virtual one',
r"""	r := gr(t, "a = \"w\" 'x' ~'y' 'z'").EvalRule("a", "wxyz")
	r.MergeStickyNodes()
	if n := len(r.Node.ChildNodes); n != 2 {
		t.Fatal(n)
	}""")
add('c22-deep','C22',[('node.go',('func (inst *Node) RemoveVirtualNodes()',"""		node.RemoveVirtualNodes()
		nonVirtual"""),"""		if !node.NonData {
			node.RemoveVirtualNodes()
		}
		nonVirtual""")],'a virtual node below a non-data node','virtual nodes inside non-data nodes are not removed',
r"""	r := gr(t, "a = \"x\" #(\"y\" ~\"z\")").EvalRule("a", "xyz")
	r.Node.RemoveVirtualNodes()
	if s := string(r.Node.Text()); s != "x y" {
		t.Fatal(s)
	}""")
