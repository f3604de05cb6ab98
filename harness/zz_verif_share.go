package xbnf

// Harnesses for sharing a grammar: C25.

// VC25_Eval: evaluating a rule of any shape changes nothing in the grammar and shares nothing with
// it, also when the results are changed afterwards.
//
//verif:prop C25
//verif:quick n=3 m=14
//verif:thorough n=3 m=26
//verif:thorough n=4 m=16
//verif:weight 3
//verif:reach match no
//verif:note every write to memory reachable from the grammar during evaluation is a violation
func VC25_Eval() {
	r := tShape(vParam("m", 26))
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	x.Validate()
	t := mText(2)
	vFreeze("grammar", x)
	res := x.EvalRule("r", string(t))
	vAssert(!vShares(res, x), "the result shares memory with the grammar")
	if res.Node == nil {
		vReach("no")
		return
	}
	vReach("match")
	before := mUsed(res)
	res.MergeStickyNodes()
	res.Node.RemoveVirtualNodes()
	res.Node.RemoveNonDataNodes()
	res.Node.RemoveRedundantNodes()
	tScribble(res.Node)
	again := x.EvalRule("r", string(t))
	vAssert(again.Node != nil && mUsed(again) == before, "the same evaluation has another result the second time")
	vObserve("used", before)
}

// tScribble overwrites everything in a tree.
func tScribble(n *Node) {
	for i := range n.Chars {
		n.Chars[i] = '#'
	}
	n.Chars = append(n.Chars[:0], '#', '#', '#')
	n.Virtual, n.NonData, n.Sticky, n.Tokenized = !n.Virtual, !n.NonData, !n.Sticky, !n.Tokenized
	if n.Position != nil {
		n.Position.Line = -1
	}
	n.RuleName = "#"
	for _, k := range n.ChildNodes {
		tScribble(k)
	}
	n.ChildNodes = nil
}

// VC25_Parse: the same for whole parses and embedded searches.
//
//verif:prop C25
//verif:quick n=4
//verif:thorough n=5
//verif:thorough n=6
//verif:reach parse embed rejected
func VC25_Parse() {
	g, roots := mGrammars(vChoose(mGrammarCount))
	x := mBuild(g)
	t := mText(3)
	vFreeze("grammar", x)
	if vBool() {
		ast, err := x.Eval(NewCharstreamFromString(string(t)), vChoose(4)-1)
		if err != nil {
			vReach("rejected")
			vAssert(!vShares(err, x), "the error shares memory with the grammar")
			return
		}
		vReach("parse")
		vAssert(!vShares(ast, x), "the tree shares memory with the grammar")
		for _, n := range ast.Nodes {
			tScribble(n)
		}
		raw, err := x.EvalRaw(NewCharstreamFromString(string(t)))
		nodes, ok := mParse(g, roots, t)
		mSameAST(t, raw, err, nodes, ok, mTREE)
		return
	}
	res := x.EvalEmbed(roots[0], string(t))
	vReach("embed")
	vAssert(!vShares(res, x), "the result shares memory with the grammar")
	n := res.Node.CountNodes()
	tScribble(res.Node)
	vAssert(x.EvalEmbed(roots[0], string(t)).Node.CountNodes() == n, "the same search has another result the second time")
}

// VC25_Par: several goroutines evaluate rules of one grammar, each on its own text.
//
//verif:prop C25
//verif:quick n=1 preempt=1
//verif:thorough n=2 preempt=1
//verif:thorough n=1 preempt=2
//verif:reach both
//verif:note the goroutines are run in every order of their switch points within the bound, and all their accesses are checked for data races
func VC25_Par() {
	g, roots := mGrammars(vChoose(mGrammarCount))
	x := mBuild(g)
	n := vParam("n", 1)
	t1, t2 := vRunes(n), vRunes(n)
	var a1, a2 *AST
	var e1, e2 error
	vPar(func() {
		a1, e1 = x.EvalRaw(NewCharstreamFromString(string(t1)))
	}, func() {
		a2, e2 = x.EvalRaw(NewCharstreamFromString(string(t2)))
	})
	vReach("both")
	nodes, ok := mParse(g, roots, t1)
	mSameAST(t1, a1, e1, nodes, ok, mTREE|mPOS)
	nodes, ok = mParse(g, roots, t2)
	mSameAST(t2, a2, e2, nodes, ok, mTREE|mPOS)
}
