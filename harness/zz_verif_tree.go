package xbnf

import "strconv"

// Harnesses for the operations on trees: C21 to C24.

func tCopy(n *Node) *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Chars = append([]rune(nil), n.Chars...)
	c.ChildNodes = nil
	for _, k := range n.ChildNodes {
		c.ChildNodes = append(c.ChildNodes, tCopy(k))
	}
	return &c
}

func tCopies(ns []*Node) []*Node {
	var out []*Node
	for _, n := range ns {
		out = append(out, tCopy(n))
	}
	return out
}

// tSame asserts that two trees are equal.
func tSame(a, b *Node, what string) {
	vAssert(a.RuleType == b.RuleType, what+": rule type")
	vAssert(a.RuleName == b.RuleName, what+": rule name")
	vAssert(a.Virtual == b.Virtual && a.NonData == b.NonData && a.Tokenized == b.Tokenized, what+": marks")
	vAssert(a.Sticky == b.Sticky, what+": stickiness")
	la, ca := vmPosOf(a.Position)
	lb, cb := vmPosOf(b.Position)
	vAssert(la == lb && ca == cb, what+": position")
	vAssert(len(a.ChildNodes) == len(b.ChildNodes), what+": number of children")
	if len(a.ChildNodes) == 0 && len(b.ChildNodes) == 0 {
		vAssert(vmSameRunes(tLeaf(a), tLeaf(b)), what+": text")
	}
	if len(a.ChildNodes) == len(b.ChildNodes) {
		for i := range a.ChildNodes {
			tSame(a.ChildNodes[i], b.ChildNodes[i], what)
		}
	}
}

func tSames(as, bs []*Node, what string) {
	vAssert(len(as) == len(bs), what+": number of nodes")
	if len(as) == len(bs) {
		for i := range as {
			tSame(as[i], bs[i], what)
		}
	}
}

// tLeaf is the text of a leaf; the end of the text has none.
func tLeaf(n *Node) []rune {
	if len(n.Chars) == 1 && n.Chars[0] == EOFChar {
		return nil
	}
	return n.Chars
}

func tJoin(n *Node) []rune { return mLeaves(n, nil) }

func tJoins(ns []*Node) []rune {
	var out []rune
	for _, n := range ns {
		out = mLeaves(n, out)
	}
	return out
}

// tText is the text of a tree as documented: the leaves in order, with a space between two texts that
// do not have white space there, but not inside a block or between sticky neighbours.
func tText(n *Node) []rune {
	if len(n.ChildNodes) == 0 || len(n.Chars) > 0 {
		return tLeaf(n)
	}
	var out []rune
	last := -1 // the last child with text
	for i, k := range n.ChildNodes {
		t := tText(k)
		if len(t) == 0 {
			continue
		}
		if last >= 0 && n.RuleType != TypeBlock && !tAllSticky(n.ChildNodes[last:i+1]) &&
			!vmIsSpace(out[len(out)-1]) && !vmIsSpace(t[0]) {
			out = append(out, ' ')
		}
		out = append(out, t...)
		last = i
	}
	return out
}

// tOnlySpaces asserts that b is a but for single spaces added.
func tOnlySpaces(a, b []rune, what string) {
	i := 0
	added := false
	for _, c := range b {
		if i < len(a) && a[i] == c {
			i++
			added = false
			continue
		}
		vAssert(c == ' ' && !added, what)
		added = true
	}
	vAssert(i == len(a), what)
}

func tAllSticky(ns []*Node) bool {
	for _, n := range ns {
		if !n.Sticky {
			return false
		}
	}
	return true
}

func tAnySticky(ns []*Node) bool {
	for _, n := range ns {
		if n.Sticky || tAnySticky(n.ChildNodes) {
			return true
		}
	}
	return false
}

// tMergeAll is what merging the sticky nodes of a list of siblings is documented to do.
func tMergeAll(ns []*Node) []*Node {
	var out []*Node
	for i := 0; i < len(ns); i++ {
		n := tCopy(ns[i])
		if !n.Sticky {
			out = append(out, tMerge(n))
			continue
		}
		text := tJoin(n)
		for i+1 < len(ns) && ns[i+1].Sticky {
			i++
			more := tJoin(ns[i])
			if len(text) == 0 && len(more) > 0 {
				n.Position = ns[i].Position
			}
			text = append(text, more...)
		}
		n.Chars, n.ChildNodes, n.Sticky = text, nil, false
		out = append(out, n)
	}
	return out
}

// tMerge is what merging below a node does; n is changed.
func tMerge(n *Node) *Node {
	if len(n.ChildNodes) == 0 {
		return n
	}
	if n.RuleType == TypeBlock {
		var kids []*Node
		for _, k := range n.ChildNodes {
			k = tMerge(tCopy(k))
			k.Sticky = false
			kids = append(kids, k)
		}
		n.ChildNodes = kids
		return n
	}
	n.ChildNodes = tMergeAll(n.ChildNodes)
	return n
}

func tDrop(ns []*Node, gone func(*Node) bool) []*Node {
	var out []*Node
	for _, n := range ns {
		if gone(n) {
			continue
		}
		c := tCopy(n)
		c.ChildNodes = tDrop(n.ChildNodes, gone)
		out = append(out, c)
	}
	return out
}

func tVirtual(n *Node) bool { return n.Virtual }
func tNonData(n *Node) bool { return n.NonData }

// tShape is mShape with annotations and names inside: kind 0 to 7 as in mShape, 8 to 13 with marks.
func tShape(m int) *mR {
	k := vChoose(14)
	if k < 8 {
		return mShapeOf(k, m)
	}
	mk := []int{mVirtual, mNonData, mVirtual | mNonData}[vChoose(3)] // not mToken: see VK21_Token
	switch k {
	case 8: // a marked part in a sequence
		return mCat(mC('a').mark(mk), mOp(mRf("ra")), mC('b'))
	case 9: // marked references
		return mCat(mRf("ra").mark(mk), mRp(mRf("rs").mark(mk), 0, 0), mOp(mS("b")))
	case 10: // a marked group with unmarked parts in it
		return mCat(mGr(mCat(mS("a"), mOp(mC('b').mark(mk)))).mark(mk^mVirtual), mOp(mS("b")))
	case 11: // a block with marked delimiters
		return mCat(mBl(mCs("ab").mark(mk), mC('b').mark(mk)), mOp(mC('a')))
	case 12: // an unnamed block inside unnamed groups
		return mOp(mGr(mBl(mC('a'), mC('b'))))
	default: // nested unnamed sequences
		return mCat(mGr(mCat(mGr(mCat(mS("a"))), mOp(mS("b")))), mRp(mGr(mCh([]int{1, 1}, mGr(mC('b')), mS("a").mark(mk))), 0, 0))
	}
}

// tParse parses a text with a grammar whose only root has the shape chosen.
func tParse(m int) (*Grammar, []rune, *AST) {
	r := tShape(m)
	g := mAux((&mG{}).add("r", mGr(mCat(mGr(r), mOp(mRf("ra")), mOp(mRf("rs")), mOp(mRf("ro"))))))
	x := mBuild(g)
	t := mText(3)
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	if err != nil {
		vAssume(false)
	}
	return x, t, ast
}

// tTree makes a tree: leaves that are sticky or not, empty or not, named or not, sequences and blocks
// of up to w children and up to d levels. A node is only sticky when all nodes below it are, and no
// block is sticky, as evaluation makes them.
func tTree(d, w int, marks bool) *Node {
	n := &Node{RuleType: TypeChar, Position: &Position{Line: 1, Col: 1}}
	kinds := 5
	if d > 0 {
		kinds = 7
	}
	k := vChoose(kinds)
	switch k {
	case 0, 1: // a leaf, sticky or not
		n.Chars = []rune{vRune()}
		n.Sticky = k == 0
	case 2, 3: // nothing, sticky or not
		n.RuleType = TypeOption
		n.Sticky = k == 2
	case 4:
		n.RuleType = TypeEOF
		n.Chars = []rune{EOFChar}
		n.Sticky = true
	case 5: // a sequence
		n.RuleType = TypeConcatenate
		c := 1 + vChoose(w)
		n.Sticky = vBool()
		for i := 0; i < c; i++ {
			kid := tTree(d-1, w, marks)
			if n.Sticky && !kid.Sticky {
				vAssume(false)
			}
			n.ChildNodes = append(n.ChildNodes, kid)
		}
	case 6: // a block
		n.RuleType = TypeBlock
		c := 2 + vChoose(2)
		for i := 0; i < c; i++ {
			if i == 0 && d > 1 {
				n.ChildNodes = append(n.ChildNodes, tTree(d-1, w, marks))
				continue
			}
			n.ChildNodes = append(n.ChildNodes, &Node{RuleType: TypeChars, Chars: []rune{vRune()}, Sticky: i == 2})
		}
	}
	if k != 4 {
		n.RuleName = []string{"", "n"}[vChoose(2)]
	}
	if marks {
		switch vChoose(3) {
		case 1:
			n.Virtual = true
		case 2:
			n.NonData = true
			n.Tokenized = true
		}
	}
	return n
}

func tForest(marks bool) []*Node {
	var ns []*Node
	for i := 1 + vChoose(vParam("top", 2)); i > 0; i-- {
		ns = append(ns, tTree(vParam("d", 1), vParam("w", 2), marks))
	}
	for i, n := range ns {
		n.Position = &Position{Line: i + 1, Col: 2}
	}
	return ns
}

// ---- C21 ----

func tCheckMerge(ast *AST) {
	raw := tCopies(ast.Nodes)
	text := ast.Text()
	text = append([]rune(nil), text...)
	want := tMergeAll(raw)
	ast.MergeStickyNodes()
	tSames(ast.Nodes, want, "merging")
	vAssert(!tAnySticky(ast.Nodes), "a sticky node is left after merging")
	vAssert(vmSameRunes(tJoins(raw), tJoins(ast.Nodes)), "merging changes the text of the leaves")
	_ = text
	ast.MergeStickyNodes()
	tSames(ast.Nodes, want, "merging again")
	vAssert(vmSameRunes(ast.Text(), text), "merging changes the text")
}

// VC21_Parse: merging in the trees of parses.
//
//verif:prop C21
//verif:quick n=3 m=10
//verif:thorough n=4 m=14
//verif:thorough n=3 m=26
//verif:reach merged
func VC21_Parse() {
	_, _, ast := tParse(vParam("m", 12))
	if ast.CountStickyNodes() > 0 {
		vReach("merged")
	}
	tCheckMerge(ast)
	vObserve("nodes", ast.CountNodes())
}

// VC21_Tree: merging in trees of any shape.
//
//verif:prop C21
//verif:quick d=1 w=2 top=2
//verif:thorough d=1 w=3 top=3
//verif:thorough d=2 w=2 top=1
//verif:reach sticky
func VC21_Tree() {
	ast := &AST{Nodes: tForest(false)}
	if tAnySticky(ast.Nodes) {
		vReach("sticky")
	}
	tCheckMerge(ast)
	vObserve("nodes", ast.CountNodes())
}

// VC21_Runs: long runs of siblings with any marks.
//
//verif:prop C21
//verif:quick top=4 d=0
//verif:thorough top=5 d=0
//verif:reach run
func VC21_Runs() {
	var ns []*Node
	k := 1 + vChoose(vParam("top", 4))
	run := 0
	for i := 0; i < k; i++ {
		n := &Node{RuleType: TypeChar, Position: &Position{Line: 1, Col: i + 1}, RuleName: "n"}
		if vBool() {
			n.Chars = []rune{vRune()}
		}
		n.Sticky = vBool()
		if vBool() {
			n.Virtual, n.NonData = i%2 == 0, i%2 == 1
		}
		if n.Sticky {
			run++
		} else {
			run = 0
		}
		if run > 2 {
			vReach("run")
		}
		ns = append(ns, n)
	}
	ast := &AST{Nodes: ns}
	if vBool() {
		ast.Nodes = []*Node{{RuleType: TypeConcatenate, Position: &Position{Line: 1, Col: 1}, ChildNodes: ns}}
	}
	tCheckMerge(ast)
	vObserve("nodes", ast.CountNodes())
}

// VC21_Rule: merging in the result of evaluating one rule; the characters read stay as they are.
//
//verif:prop C21
//verif:quick n=3 m=12
//verif:thorough n=4 m=14
//verif:thorough n=3 m=26
//verif:reach merged
func VC21_Rule() {
	g := mAux((&mG{}).add("r", tShape(vParam("m", 12))))
	x := mGrammar(g)
	t := mText(3)
	res := x.EvalRule("r", string(t))
	if res.Node == nil {
		res.MergeStickyNodes()
		vAssume(false)
	}
	read := append([]rune(nil), res.CharsRead...)
	un := append([]rune(nil), res.CharsUnused...)
	text := append([]rune(nil), res.Node.Text()...)
	want := tMerge(tCopy(res.Node))
	want.Sticky = false
	res.MergeStickyNodes()
	got := tCopy(res.Node)
	got.Sticky = false
	tSame(got, want, "merging")
	vAssert(!tAnySticky(res.Node.ChildNodes), "a sticky node is left below the node merged")
	vAssert(vmSameRunes(res.Node.Text(), text), "merging changes the text")
	vAssert(vmSameRunes(res.CharsRead, read) && vmSameRunes(res.CharsUnused, un), "merging changes the characters read")
	res.MergeStickyNodes()
	got = tCopy(res.Node)
	got.Sticky = false
	tSame(got, want, "merging again")
	vReach("merged")
	vObserve("text", len(text))
}

// VK21_Token shows the recorded finding about the token annotation.
//
//verif:prop K21
func VK21_Token() {
	x, err := NewGrammarFromString("r = 'a' $'b'")
	if err != nil {
		return
	}
	ast, err := x.Eval(NewCharstreamFromString("ab"), LevelBasic)
	if err != nil {
		return
	}
	vAssert(ast.CountTokens() == 2, "a node with the token annotation is merged into the sticky node before it")
}

// ---- C22 ----

func tCheckRemove(ast *AST, nondata bool) {
	gone := tVirtual
	if nondata {
		gone = tNonData
	}
	want := tDrop(ast.Nodes, gone)
	if nondata {
		ast.RemoveNonDataNodes()
	} else {
		ast.RemoveVirtualNodes()
	}
	tSames(ast.Nodes, want, "removing")
}

// VC22_Parse: removing marked nodes in the trees of parses, merged or not.
//
//verif:prop C22
//verif:quick n=3 m=7
//verif:thorough n=4 m=12
//verif:thorough n=3 m=26
//verif:reach removed
func VC22_Parse() {
	_, _, ast := tParse(vParam("m", 8))
	if vBool() {
		ast.MergeStickyNodes()
	}
	n := ast.CountNodes()
	nd := vBool()
	tCheckRemove(ast, nd)
	if ast.CountNodes() < n {
		vReach("removed")
	}
	tCheckRemove(ast, !nd)
	vObserve("nodes", n, ast.CountNodes())
}

// VC22_Tree: removing marked nodes in trees of any shape.
//
//verif:prop C22
//verif:quick d=1 w=2 top=1
//verif:thorough d=1 w=2 top=2
//verif:thorough d=1 w=3 top=1
//verif:reach removed
func VC22_Tree() {
	ast := &AST{Nodes: tForest(true)}
	n := ast.CountNodes()
	nd := vBool()
	if vBool() {
		root := &Node{RuleType: TypeConcatenate, RuleName: "top", ChildNodes: ast.Nodes, Virtual: true, NonData: true}
		gone := tVirtual
		if nd {
			gone = tNonData
		}
		want := tDrop(ast.Nodes, gone)
		if nd {
			root.RemoveNonDataNodes()
		} else {
			root.RemoveVirtualNodes()
		}
		tSames(root.ChildNodes, want, "removing below a node")
		vAssert(root.Virtual && root.NonData && root.RuleName == "top", "the node itself is changed")
		return
	}
	tCheckRemove(ast, nd)
	if ast.CountNodes() < n {
		vReach("removed")
	}
	tCheckRemove(ast, !nd)
	vObserve("nodes", n, ast.CountNodes())
}

// VC22_Levels: each level of simplification is the documented sequence of steps.
//
//verif:prop C22
//verif:quick n=3 m=6
//verif:thorough n=4 m=8
//verif:thorough n=3 m=20
//verif:reach raw basic novirtual data
func VC22_Levels() {
	x, t, ast := tParse(vParam("m", 6))
	level := []int{LevelRaw, LevelBasic, LevelNoVertual, LevelDataOnly}[vChoose(4)]
	got, err := x.Eval(NewCharstreamFromString(string(t)), level)
	vAssert(err == nil && got != nil, "a text that parses is rejected at another level")
	if err != nil {
		return
	}
	switch level {
	case LevelRaw:
		vReach("raw")
		tSames(got.Nodes, ast.Nodes, "raw level")
	case LevelBasic:
		vReach("basic")
		ast.Nodes = tMergeAll(ast.Nodes)
		ast.RemoveRedundantNodes()
		tSames(got.Nodes, ast.Nodes, "basic level")
	case LevelNoVertual:
		vReach("novirtual")
		ast.Nodes = tDrop(tMergeAll(ast.Nodes), tVirtual)
		ast.RemoveRedundantNodes()
		tSames(got.Nodes, ast.Nodes, "no-virtual level")
	case LevelDataOnly:
		vReach("data")
		ast.Nodes = tDrop(tDrop(tMergeAll(ast.Nodes), tVirtual), tNonData)
		ast.RemoveRedundantNodes()
		tSames(got.Nodes, ast.Nodes, "data level")
	}
}

// ---- C23 ----

// tNamed lists the named nodes that have text, in order.
func tNamed(ns []*Node, out []*Node) []*Node {
	for _, n := range ns {
		if n.RuleName != "" && len(tJoin(n)) > 0 {
			out = append(out, n)
		}
		out = tNamed(n.ChildNodes, out)
	}
	return out
}

func tDepths(ns []*Node, d int, out []int) []int {
	for _, n := range ns {
		e := d
		if n.RuleName != "" && len(tJoin(n)) > 0 {
			out = append(out, d)
			e++
		}
		out = tDepths(n.ChildNodes, e, out)
	}
	return out
}

// tRedundant counts the unnamed nodes below the given ones that have children or no text, leaving out
// blocks and the parts of blocks.
func tRedundant(ns []*Node) int {
	c := 0
	for _, n := range ns {
		for _, k := range n.ChildNodes {
			if k.RuleName == "" && len(tJoin(k)) == 0 ||
				k.RuleName == "" && len(k.ChildNodes) > 0 && k.RuleType != TypeBlock && n.RuleType != TypeBlock {
				c++
			}
		}
		c += tRedundant(n.ChildNodes)
	}
	return c
}

// tEmpty counts the named nodes without text, and those of them that are not below an unnamed node
// without text.
func tEmpty(ns []*Node, below bool) (all, kept int) {
	for _, n := range ns {
		empty := len(tJoin(n)) == 0
		if empty && n.RuleName != "" {
			all++
			if !below {
				kept++
			}
		}
		a, k := tEmpty(n.ChildNodes, below || empty && n.RuleName == "")
		all += a
		kept += k
	}
	return
}

func tCheckRedundant(ast *AST, exact bool) {
	raw := tCopies(ast.Nodes)
	all, kept := tEmpty(raw, false)
	text := append([]rune(nil), ast.Text()...)
	named := tNamed(raw, nil)
	depths := tDepths(raw, 0, nil)
	ast.RemoveRedundantNodes()
	vAssert(vmSameRunes(tJoins(raw), tJoins(ast.Nodes)), "removing redundant nodes changes the text of the leaves")
	if exact {
		vAssert(vmSameRunes(ast.Text(), text), "removing redundant nodes changes the text")
	}
	got := tNamed(ast.Nodes, nil)
	vAssert(len(got) == len(named), "a named node with text is lost")
	if len(got) == len(named) {
		for i, n := range got {
			m := named[i]
			vAssert(n.RuleName == m.RuleName && n.RuleType == m.RuleType, "the named nodes are not in order")
			vAssert(n.Virtual == m.Virtual && n.NonData == m.NonData && n.Tokenized == m.Tokenized && n.Sticky == m.Sticky, "a named node has changed")
			vAssert(n.Position == nil && m.Position == nil || n.Position != nil && m.Position != nil && *n.Position == *m.Position, "a named node has moved")
			vAssert(vmSameRunes(tJoin(n), tJoin(m)), "a named node has another text")
		}
		ds := tDepths(ast.Nodes, 0, nil)
		for i := range ds {
			vAssert(ds[i] == depths[i], "a named node is below another named node than before")
		}
	}
	vAssert(len(ast.Nodes) == len(raw), "a root is lost")
	empties, _ := tEmpty(ast.Nodes, false)
	vAssert(empties >= kept, "a named node without text is lost that is not part of an unnamed one")
	vAssert(empties <= all, "a named node has lost its text")
	for _, n := range ast.Nodes {
		if !n.NonData {
			vAssert(tRedundant([]*Node{n}) == 0, "a redundant node is left")
		}
	}
}

// VC23_Parse: redundant nodes in the trees of parses, at every level.
//
//verif:prop C23
//verif:quick n=3 m=10
//verif:thorough n=4 m=12
//verif:thorough n=3 m=26
//verif:reach redundant
func VC23_Parse() {
	_, _, ast := tParse(vParam("m", 10))
	lvl := vChoose(4)
	switch lvl {
	case 0: // unmerged
	case 1:
		ast.MergeStickyNodes()
	case 2:
		ast.MergeStickyNodes()
		ast.RemoveVirtualNodes()
	case 3:
		ast.MergeStickyNodes()
		ast.RemoveVirtualNodes()
		ast.RemoveNonDataNodes()
	}
	n := ast.CountNodes()
	tCheckRedundant(ast, lvl > 0)
	if ast.CountNodes() < n {
		vReach("redundant")
	}
	vObserve("nodes", n, ast.CountNodes())
}

// VC23_Tree: redundant nodes in trees of any shape.
//
//verif:prop C23
//verif:quick d=1 w=2 top=2
//verif:thorough d=1 w=3 top=2
//verif:thorough d=2 w=2 top=1
//verif:reach redundant
func VC23_Tree() {
	ast := &AST{Nodes: tForest(false)}
	ast.MergeStickyNodes()
	n := ast.CountNodes()
	tCheckRedundant(ast, true)
	if ast.CountNodes() < n {
		vReach("redundant")
	}
	vObserve("nodes", n, ast.CountNodes())
}

// ---- C24 ----

func tCount(ns []*Node) (nodes, leaves, sticky int) {
	for _, n := range ns {
		a, b, c := tCount(n.ChildNodes)
		nodes += a + 1
		leaves += b
		sticky += c
		if len(n.ChildNodes) == 0 {
			leaves++
		}
		if n.Sticky {
			sticky++
		}
	}
	return
}

// tPrint prints a tree the way it is documented to look: every line of a node's subtree is prefixed
// with the branches above it.
func tPrint(n *Node, prefix []rune, cfg *NodeTreeConfig) []rune {
	out := []rune(n.Position.String() + ":" + n.RuleName)
	if cfg.PrintRuleType {
		out = append(out, []rune("/"+string(n.RuleType))...)
	}
	for _, m := range []struct {
		on bool
		c  rune
	}{{n.Tokenized, '$'}, {n.NonData, '#'}, {n.Virtual, '~'}, {n.Sticky, '+'}} {
		if m.on {
			out = append(out, m.c)
		}
	}
	if len(n.ChildNodes) == 0 || cfg.PrintNonleafNodeText {
		out = append(out, []rune(": >")...)
		below := prefix
		for _, c := range tText(n) {
			out = append(out, c)
			if c == '\n' {
				out = append(out, below...)
			}
		}
		out = append(out, '<')
	}
	for i, k := range n.ChildNodes {
		out = append(out, '\n')
		out = append(out, prefix...)
		more := []rune("│  ")
		if i == len(n.ChildNodes)-1 {
			out = append(out, []rune("└──")...)
			more = []rune("   ")
		} else {
			out = append(out, []rune("├──")...)
		}
		out = append(out, tPrint(k, append(append([]rune(nil), prefix...), more...), cfg)...)
	}
	return out
}

func tCheckCounts(ast *AST, cfg *NodeTreeConfig) {
	nodes, leaves, sticky := tCount(ast.Nodes)
	vAssert(ast.CountNodes() == nodes, "the number of nodes is wrong")
	vAssert(ast.CountTokens() == leaves, "the number of leaves is wrong")
	vAssert(ast.CountStickyNodes() == sticky, "the number of sticky nodes is wrong")
	var text []rune
	for _, n := range ast.Nodes {
		a, b, c := tCount([]*Node{n})
		vAssert(n.CountNodes() == a && n.CountTokens() == b && n.CountStickyNodes() == c, "a count of a node is wrong")
		t := tText(n)
		vAssert(vmSameRunes(n.Text(), t), "the text of a node is wrong")
		text = append(text, t...)
	}
	vAssert(vmSameRunes(ast.Text(), text), "the text of the tree is wrong")
	use := cfg
	if use == nil {
		use = DefaultNodeTreeConfig()
	}
	for i, n := range ast.Nodes {
		if i < 2 {
			got := []rune(n.StringTree(cfg))
			vAssert(vmSameRunes(got, tPrint(n, nil, use)), "a tree is printed wrongly")
		}
	}
	// the whole tree: two lines in front, the nodes with branches four wide
	want := []rune("Abstract Syntax Tree\n├─ file:" + ast.Filename)
	for i, n := range ast.Nodes {
		if i == 0 {
			want = append(want, []rune("\n├─ Nodes: "+strconv.Itoa(len(ast.Nodes)))...)
		}
		if i == len(ast.Nodes)-1 {
			want = append(want, []rune("\n└───")...)
			want = append(want, tPrint(n, []rune("    "), use)...)
		} else {
			want = append(want, []rune("\n├───")...)
			want = append(want, tPrint(n, []rune("│   "), use)...)
		}
	}
	if len(ast.Nodes) > 0 {
		vAssert(vmSameRunes([]rune(ast.StringTree(cfg)), want), "the printed tree is wrong")
	}
}

func tConfig() *NodeTreeConfig {
	switch vChoose(4) {
	case 0:
		return nil
	case 1:
		return &NodeTreeConfig{PrintRuleType: true, PrintNonleafNodeText: true}
	case 2:
		return &NodeTreeConfig{}
	default:
		return &NodeTreeConfig{PrintNonleafNodeText: true, VerboseNodeText: true}
	}
}

// VC24_Parse: counts, texts and renderings of the trees of parses before and after simplification.
//
//verif:prop C24
//verif:quick n=2 m=10
//verif:thorough n=3 m=8
//verif:thorough n=4 m=6
//verif:reach raw simple
func VC24_Parse() {
	x, t, ast := tParse(vParam("m", 6))
	cfg := tConfig()
	if vBool() {
		vReach("raw")
		ast.Filename = "f.txt"
		tCheckCounts(ast, cfg)
	} else {
		vReach("simple")
		simple, err := x.Eval(NewCharstreamFromString(string(t)), vChoose(3))
		if err != nil {
			vAssume(false)
		}
		tCheckCounts(simple, cfg)
	}
	vObserve("nodes", ast.CountNodes())
}

// VC24_Tree: the same for trees of any shape with any marks.
//
//verif:prop C24
//verif:quick d=1 w=2 top=1
//verif:thorough d=1 w=2 top=2
//verif:thorough d=1 w=3 top=1
//verif:reach tree
func VC24_Tree() {
	ns := tForest(true)
	ast := &AST{Nodes: ns}
	vReach("tree")
	tCheckCounts(ast, []*NodeTreeConfig{nil, {PrintNonleafNodeText: true}}[vChoose(2)])
}

// VC24_Result: the rendering of the result of evaluating one rule or searching for it.
//
//verif:prop C24
//verif:quick n=2 m=8
//verif:thorough n=3 m=12
//verif:reach match no embed
func VC24_Result() {
	g := mAux((&mG{}).add("r", mShape(vParam("m", 8), 8)))
	x := mGrammar(g)
	t := mText(2)
	var res *EvalResult
	if vBool() {
		res = x.EvalRule("r", string(t))
	} else {
		res = x.EvalEmbed("r", string(t))
		vReach("embed")
	}
	s := []rune(res.StringTree(nil))
	if res.Node == nil {
		vReach("no")
		return
	}
	vReach("match")
	want := tPrint(res.Node, []rune("    "), DefaultNodeTreeConfig())
	vAssert(len(s) >= len(want) && vmSameRunes(s[len(s)-len(want):], want), "the tree of a result is printed wrongly")
	nodes, leaves, sticky := tCount([]*Node{res.Node})
	vAssert(res.Node.CountNodes() == nodes && res.Node.CountTokens() == leaves && res.Node.CountStickyNodes() == sticky, "a count of a node is wrong")
	vAssert(vmSameRunes(res.Node.Text(), tText(res.Node)), "the text of a node is wrong")
	vObserve("nodes", nodes, leaves, sticky)
}
