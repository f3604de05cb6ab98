package xbnf

// Harnesses for the accounting of evaluations, whole parses, embedded search, positions and
// annotations: C09 to C15, C25.

// mShape chooses a rule over the first m rules of the menu: kind 0 a rule of the menu, 1 a sequence,
// 2 an unordered and 3 an ordered choice, 4 a repetition, 5 an option of a sequence, 6 a block,
// 7 a sequence with a repetition in front.
func mShape(m int, kinds int) *mR { return mShapeOf(vChoose(kinds), m) }

func mShapeOf(kind int, m int) *mR {
	switch kind {
	case 0:
		return mMenu(vChoose(mMenuSize))
	case 1:
		return mCat(mMenu(vChoose(m)), mMenu(vChoose(m)))
	case 2:
		return mCh([]int{2}, mMenu(vChoose(m)), mMenu(vChoose(m)))
	case 3:
		return mCh([]int{1, 1}, mMenu(vChoose(m)), mMenu(vChoose(m)))
	case 4:
		b := vChoose(4)
		return mRp(mMenu(vChoose(m)), []int{0, 1, 2, 0}[b], []int{0, 0, 2, 1}[b])
	case 5:
		return mOp(mGr(mCat(mMenu(vChoose(m)), mMenu(vChoose(m)))))
	case 6:
		return mBlockShape(false)
	default:
		return mCat(mRp(mMenu(vChoose(m)), 0, 0), mMenu(vChoose(m)))
	}
}

// mStart makes a stream over the text of which pre characters have been read and back of them pushed
// back, in one or two layers; the next character is number pre-back.
func mStart(t []rune, pre, back int, layers int) ICharstream {
	cs := NewCharstreamFromString(string(t))
	for i := 0; i < pre; i++ {
		cs.Next()
	}
	if back == 0 {
		return cs
	}
	p := append([]rune(nil), t[pre-back:pre]...)
	if layers == 2 && back > 1 {
		cs = newCharstreamPrepend(cs, p)
		cs.Next()
		return newCharstreamPrepend(cs, p[:1])
	}
	return newCharstreamPrepend(cs, p)
}

// mAccount asserts the accounting rules of one evaluation that started at index p of the text.
func mAccount(t []rune, p int, cs ICharstream, res *EvalResult) {
	read := len(res.CharsRead)
	vAssert(p+read <= len(t), "more characters are reported as read than there are")
	vAssert(vmSameRunes(res.CharsRead, t[p:p+read]), "the characters reported as read are not the next ones of the text")
	un := len(res.CharsUnused)
	vAssert(un <= read, "more characters are reported as unused than were read")
	vAssert(vmSameRunes(res.CharsUnused, t[p+read-un:p+read]), "the characters reported as unused are not the last ones read")
	if res.Node == nil {
		vAssert(un == read, "a rule that does not match has used characters")
	}
	vAssert(cs.Cursor() == p+read, "the stream has not advanced by the number of characters reported as read")
	// pushing the unused characters back restores the text
	cs = newCharstreamPrepend(cs, res.CharsUnused)
	for i := p + read - un; i < len(t); i++ {
		vAssert(cs.Next() == t[i], "the text after the match is not what follows")
	}
	vAssert(cs.Next() == EOFChar, "text is left over after the end")
}

// VC09_Account: every shape of rule, on fresh and pushed-back streams.
//
//verif:prop C09
//verif:quick n=3 m=11
//verif:thorough n=3 m=26 modes=3
//verif:thorough n=4 m=20
//verif:thorough n=5 m=14
//verif:reach match no unused pushed
func VC09_Account() {
	r := mShape(vParam("m", 14), 8)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	t := mText(3)
	flag := []int{mSkip, mSkipNo, mSkipNever}[vChoose(vParam("modes", 1))]
	pre, back := 0, 0
	if len(t) > 1 && vBool() { // the last but one or all characters have been read and pushed back
		pre = len(t) - vChoose(2)
		back = pre
		vReach("pushed")
	}
	cs := mStart(t, pre, back, 1)
	res := x.GetRule("r").Eval(x, cs, flag)
	mAccount(t, pre-back, cs, res)
	if res.Node == nil {
		vReach("no")
	} else {
		vReach("match")
		if len(res.CharsUnused) > 0 {
			vReach("unused")
		}
	}
	vObserve("read", len(res.CharsRead), len(res.CharsUnused))
}

// VC09_Chain: rules evaluated one after the other, each on the stream with the unused characters of
// the one before pushed back.
//
//verif:prop C09
//verif:quick n=4
//verif:thorough n=5
//verif:thorough n=6
//verif:reach three
func VC09_Chain() {
	rules := []*mR{
		mCat(mC('a'), mC('b'), mC('c')),
		mCh([]int{2}, mCs("abc"), mC('a')),
		mCat(mC('a'), mRp(mGr(mCat(mC('b'), mC('c'))), 0, 0)),
		mBl(mC('a'), mCs("bc")),
		mCat(mOp(mCs("ab")), mS("")),
	}
	rules[3].vclose = vBool()
	t := vRunes(vParam("n", 4))
	cs := NewCharstreamFromString(string(t))
	p := 0
	for k := 0; k < 3; k++ {
		g := mAux((&mG{}).add("r", rules[vChoose(len(rules))]))
		x := mGrammar(g)
		res := x.GetRule("r").Eval(x, cs, mSkip)
		read, un := len(res.CharsRead), len(res.CharsUnused)
		vAssert(p+read <= len(t) && un <= read, "more characters are reported than there are")
		vAssert(vmSameRunes(res.CharsRead, t[p:p+read]), "the characters reported as read are not the next ones of the text")
		vAssert(vmSameRunes(res.CharsUnused, t[p+read-un:p+read]), "the characters reported as unused are not the last ones read")
		vAssert(cs.Cursor() == p+read, "the stream has not advanced by the number of characters reported as read")
		cs = newCharstreamPrepend(cs, res.CharsUnused)
		p += read - un
		if k == 2 && p > 2 {
			vReach("three")
		}
	}
	for i := p; i < len(t); i++ {
		vAssert(cs.Next() == t[i], "the text after the match is not what follows")
	}
	vAssert(cs.Next() == EOFChar, "text is left over after the end")
	vObserve("end", p)
}

// ---- C10, C11 ----

// mGrammars is a choice of grammars with several rules; roots lists the names no rule refers to.
func mGrammars(i int) (g *mG, roots []string) {
	g = &mG{}
	switch i {
	case 0: // two roots that overlap, one refers to a common rule
		g.add("a", mCat(mRf("c"), mOp(mC('b'))))
		g.add("b", mCs("bc"))
		g.add("c", mC('a'))
		return g, []string{"a", "b"}
	case 1: // words and numbers
		g.add("w", mCat(mRg('a', 'b'), mRp(mRg('a', 'b'), 0, 0)))
		g.add("n", mCat(mS(""), mOp(mC('-')), mRg('0', '9')))
		return g, []string{"w", "n"}
	case 2: // roots with a common prefix, the longest wins
		g.add("a", mC('a'))
		g.add("ab", mCs("ab"))
		g.add("b", mS("b"))
		return g, []string{"a", "ab", "b"}
	case 3: // ties
		g.add("a", mC('a'))
		g.add("s", mS("a"))
		g.add("b", mCat(mC('a'), mC('b')))
		return g, []string{"a", "s", "b"}
	case 4: // a root that can match nothing
		g.add("o", mOp(mC('a')))
		g.add("r", mRp(mC('b'), 0, 0))
		return g, []string{"o", "r"}
	case 5: // sequences with look-ahead over several parts
		g.add("a", mCat(mC('a'), mOp(mGr(mCat(mC('b'), mC('c')))), mOp(mCs("bb"))))
		g.add("b", mC('b'))
		return g, []string{"a", "b"}
	case 6: // a list, with white space between the parts
		g.add("l", mCat(mS("("), mRp(mRf("i"), 0, 0), mS(")")))
		g.add("i", mCh([]int{1, 1}, mRf("l"), mC('a')))
		return &mG{names: append([]string{"top"}, g.names...), rules: append([]*mR{mCat(mRf("l"), mOp(mS(",")))}, g.rules...)}, []string{"top"}
	case 7: // end of text as part of a rule
		g.add("line", mCat(mC('a'), mGr(mCh([]int{2}, mC('\n'), mE()))))
		g.add("b", mC('b'))
		return g, []string{"line", "b"}
	case 8: // a repetition that may stop before its end
		g.add("r", mRp(mGr(mCat(mC('a'), mC('b'))), 0, 2))
		g.add("a", mC('a'))
		g.add("c", mS("c"))
		return g, []string{"r", "a", "c"}
	case 9: // blocks
		g.add("q", mBl(mC('\''), mC('\'')))
		e := mBl(mC('a'), mC('b'))
		e.esc, e.exc = mC('\\'), []*mR{mC('\n')}
		g.add("e", e)
		return g, []string{"q", "e"}
	case 10: // a block that leaves its close to what follows
		v := mBl(mS(""), mC(','))
		v.vclose = true
		g.add("v", mCat(v, mC(',')))
		return g, []string{"v"}
	case 11: // one short and one long match, a tie for the short ones only
		g.add("a", mC('a'))
		g.add("b", mRg('a', 'a'))
		g.add("c", mCs("aa"))
		return g, []string{"a", "b", "c"}
	case 12: // many roots, some match and others read further
		g.add("a", mC('x'))
		g.add("b", mCs("xy"))
		g.add("c", mCs("xyzz"))
		g.add("d", mC('z'))
		g.add("e", mCat(mC('x'), mC('y'), mC('y')))
		return g, []string{"a", "b", "c", "d", "e"}
	}
	panic("mGrammars")
}

const mGrammarCount = 13

// mBuild reads the grammar with the rules given as lines of a text.
func mBuild(g *mG) *Grammar {
	var text []rune
	for i, n := range g.names {
		text = append(text, []rune(n+" = ")...)
		text = append(text, mDef(g.rules[i])...)
		text = append(text, '\n')
	}
	x, err := NewGrammarFromString(string(text))
	if err != nil { // a literal with a newline: add the rules one by one
		x = mGrammar(g)
		err = x.Validate()
	}
	vAssert(err == nil, "a valid grammar is rejected")
	if err != nil {
		vAssume(false)
	}
	return x
}

func mSameAST(t []rune, ast *AST, err error, nodes []*mN, ok bool, what int) {
	vAssert((err == nil) == ok, "a text is accepted that the grammar does not cover, or one it covers is rejected")
	vAssert((ast != nil) == (err == nil), "neither a tree nor an error, or both")
	if err != nil || !ok || ast == nil {
		return
	}
	vAssert(len(ast.Nodes) == len(nodes), "the tree has the wrong number of nodes")
	if len(ast.Nodes) == len(nodes) {
		for i, n := range ast.Nodes {
			mSame(t, n, nodes[i], what)
		}
	}
}

func mLeaves(n *Node, out []rune) []rune {
	if len(n.ChildNodes) == 0 {
		if len(n.Chars) == 1 && n.Chars[0] == EOFChar {
			return out
		}
		return append(out, n.Chars...)
	}
	for _, c := range n.ChildNodes {
		out = mLeaves(c, out)
	}
	return out
}

// VC10_Text: the leaves of a raw parse are the text but for white space, and a text the grammar does
// not cover is rejected.
//
//verif:prop C10
//verif:quick n=5
//verif:thorough n=6
//verif:thorough n=7
//verif:reach accepted rejected
func VC10_Text() {
	gi := vChoose(mGrammarCount)
	g, roots := mGrammars(gi)
	x := mBuild(g)
	t := mText(5)
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	nodes, ok := mParse(g, roots, t)
	mSameAST(t, ast, err, nodes, ok, mTREE)
	if err != nil || ast == nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	var l []rune
	for _, n := range ast.Nodes {
		l = mLeaves(n, l)
	}
	if gi != 9 {
		// without escapes: drop nothing but white space, keep the order
		j := 0
		for _, c := range t {
			if j < len(l) && l[j] == c {
				j++
			} else {
				vAssert(vmIsSpace(c), "text is lost or out of order")
			}
		}
		vAssert(j == len(l), "text is invented")
	}
	vObserve("leaves", len(l), len(ast.Nodes))
}

// VC10_Shapes: one root of any shape.
//
//verif:prop C10
//verif:quick n=3 m=12
//verif:thorough n=4 m=16
//verif:thorough n=3 m=26
//verif:reach accepted rejected
func VC10_Shapes() {
	r := mShape(vParam("m", 12), 8)
	g := mAux((&mG{}).add("r", mGr(mCat(mGr(r), mOp(mRf("ra")), mOp(mRf("rs")), mOp(mRf("ro"))))))
	x := mBuild(g)
	t := mText(3)
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	nodes, ok := mParse(g, []string{"r"}, t)
	mSameAST(t, ast, err, nodes, ok, mTREE)
	if err != nil {
		vReach("rejected")
	} else {
		vReach("accepted")
	}
	vObserve("acc", err == nil)
}

// VC11_Order: every iteration order over the rules gives the same outcome.
//
//verif:prop C11
//verif:quick n=3
//verif:thorough n=4
//verif:thorough n=5
//verif:reach accepted rejected
//verif:note all iteration orders of every map iterated during the evaluation are explored
func VC11_Order() {
	g, roots := mGrammars(vChoose(mGrammarCount))
	x := mBuild(g)
	t := mText(3)
	vMapOrder(true)
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	vMapOrder(false)
	nodes, ok := mParse(g, roots, t)
	mSameAST(t, ast, err, nodes, ok, mTREE|mSTICKY|mMARK)
	if err != nil {
		vReach("rejected")
	} else {
		vReach("accepted")
	}
}

// VC11_Again: texts parsed before, in whatever order, make no difference.
//
//verif:prop C11
//verif:quick n=3 k=2
//verif:thorough n=4 k=2
//verif:thorough n=3 k=3
//verif:reach accepted rejected
func VC11_Again() {
	g, roots := mGrammars(vChoose(mGrammarCount))
	x := mBuild(g)
	for i := vParam("k", 2); i > 0; i-- {
		t := mText(3)
		ast, err := x.Eval(NewCharstreamFromString(string(t)), LevelRaw)
		nodes, ok := mParse(g, roots, t)
		mSameAST(t, ast, err, nodes, ok, mTREE|mSTICKY|mMARK)
		if err != nil {
			vReach("rejected")
		} else {
			vReach("accepted")
			// what is done with the tree afterwards does not matter either
			ast.MergeStickyNodes()
			ast.RemoveVirtualNodes()
			ast.RemoveRedundantNodes()
		}
	}
	vObserve("n", len(g.names))
}

// VC11_Keep: later parses leave the trees of earlier ones alone, and an earlier text parsed once more
// gives the same tree.
//
//verif:prop C11
//verif:quick n=3
//verif:thorough n=3 levels=3
//verif:reach accepted rejected
func VC11_Keep() {
	var g *mG
	if i := vChoose(mGrammarCount + 2); i < mGrammarCount {
		g, _ = mGrammars(i)
	} else if i == mGrammarCount { // tokens of several characters
		g = &mG{}
		g.add("t", mCat(mCs("abc"), mGr(mCh([]int{1, 1}, mRg('a', 'y'), mC('z')))))
		g.add("u", mCs("bca"))
	} else {
		g = &mG{}
		g.add("t", mCat(mS("abc"), mRp(mRg('a', 'y'), 0, 0)))
	}
	x := mBuild(g)
	level := []int{LevelBasic, LevelDataOnly, LevelRaw}[vChoose(vParam("levels", 1))]
	text := func() []rune {
		if vBool() {
			return append([]rune("abc"), vRunes(1)...)
		}
		return mText(vParam("n", 2))
	}
	t := text()
	first, err := x.Eval(NewCharstreamFromString(string(t)), level)
	if err != nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	was := tCopies(first.Nodes)
	ast, err := x.Eval(NewCharstreamFromString(string(text())), level)
	tSames(first.Nodes, was, "an earlier tree after another parse")
	if err == nil {
		for _, n := range ast.Nodes {
			tScribble(n)
		}
		tSames(first.Nodes, was, "an earlier tree after a later one is changed")
	}
	ast, err = x.Eval(NewCharstreamFromString(string(t)), level)
	vAssert(err == nil, "a text is rejected the second time")
	if err == nil {
		tSames(ast.Nodes, was, "the tree of the same text")
	}
	vObserve("nodes", first.CountNodes())
}

// VC11_Other: what other grammars with rules of the same names are used for makes no difference.
//
//verif:prop C11
//verif:quick n=2
//verif:thorough n=3
//verif:reach accepted rejected
func VC11_Other() {
	i := vChoose(mGrammarCount)
	g, roots := mGrammars(i)
	g2, roots2 := mGrammars((i + 1 + vChoose(vParam("others", 3))) % mGrammarCount)
	x := mBuild(g)
	x2 := mBuild(g2)
	t := mText(vParam("n", 2))
	ast2, err2 := x2.Eval(NewCharstreamFromString(string(t)), LevelRaw)
	ast, err := x.Eval(NewCharstreamFromString(string(t)), LevelRaw)
	nodes, ok := mParse(g, roots, t)
	mSameAST(t, ast, err, nodes, ok, mTREE|mSTICKY|mMARK)
	nodes, ok = mParse(g2, roots2, t)
	mSameAST(t, ast2, err2, nodes, ok, mTREE|mSTICKY|mMARK)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
	vObserve("n", len(g.names))
}

// ---- C12 ----

// mWild is a menu of rules that match nothing or nest in unusual ways.
func mWild(i int) *mR {
	switch i {
	case 0:
		return mS("")
	case 1:
		return mOp(mC('a'))
	case 2:
		return mRp(mC('a'), 0, 0)
	case 3:
		return mE()
	case 4:
		return mRp(mOp(mC('a')), 0, 0)
	case 5:
		return mRp(mS(""), 1, 0)
	case 6:
		return mRp(mRp(mC('a'), 0, 0), 2, 0)
	case 7:
		b := mBl(mS(""), mC('b'))
		b.vclose = true
		return b
	case 8:
		b := mBl(mOp(mC('a')), mE())
		b.esc = mOp(mC('\\'))
		return b
	case 9:
		b := mBl(mC('a'), mS(""))
		b.exc = []*mR{mOp(mC('b'))}
		return b
	case 10:
		b := mBl(mS(""), mE())
		b.esc = mS("")
		return b
	case 11:
		return mGr(mCh([]int{2}, mOp(mC('a')), mOp(mC('b'))))
	case 12:
		return mRf("nowhere")
	case 13:
		b := mBl(mS(""), mE())
		b.vclose = true
		b.esc = mC('\\')
		return b
	case 14:
		return mGr(mCat(mOp(mS("a")), mOp(mC('b'))))
	case 15:
		return mC('b')
	}
	panic("mWild")
}

// VC12_Rule: evaluating any of the unusual rules and their combinations ends without a crash.
//
//verif:prop C12
//verif:quick n=2 m=16 modes=1
//verif:thorough n=3 m=16 modes=3
//verif:thorough n=4 m=16 modes=1
//verif:reach match no
//verif:note a path that does not end within the step limit is replayed on the compiled code with a time limit and reported as a violation if it does not end there either
func VC12_Rule() {
	m := vParam("m", 16)
	a := mWild(vChoose(m))
	var r *mR
	switch vChoose(7) {
	case 0:
		r = mRp(a, vChoose(3), 0)
	case 1:
		r = mCat(a, mWild(vChoose(m)))
	case 2:
		r = mCh([]int{1, 1}, a, mWild(vChoose(m)))
	case 3:
		r = mRp(mGr(mCat(a, mWild(vChoose(m)))), 0, 0)
	case 4:
		r = mRp(mGr(mCh([]int{2}, a, mWild(vChoose(m)))), 1, 3)
	case 5:
		r = mBl(a, mWild(vChoose(m)))
		r.vclose = vBool()
	case 6:
		r = mBl(mS(""), mC('b'))
		r.esc = a
		r.exc = []*mR{mWild(vChoose(m))}
	}
	g := (&mG{}).add("r", r)
	x := mGrammar(g)
	flag := []int{mSkip, mSkipNo, mSkipNever}[vChoose(vParam("modes", 1))]
	t := mText(2)
	res := x.GetRule("r").Eval(x, NewCharstreamFromString(string(t)), flag)
	if res.Node != nil {
		vReach("match")
		res.Node.Text()
	} else {
		vReach("no")
	}
	vObserve("used", mUsed(res))
}

// VC12_Nest: unusual rules inside each other and in every part of a block.
//
//verif:prop C12
//verif:quick n=2 m=16
//verif:thorough n=3 m=16 modes=3
//verif:thorough n=4 m=16
//verif:reach match no
func VC12_Nest() {
	m := vParam("m", 16)
	a := mWild(vChoose(m))
	var r *mR
	switch vChoose(8) {
	case 0:
		r = mOp(mGr(a))
	case 1:
		r = mOp(mOp(a))
	case 2:
		r = mGr(mCh([]int{1, 1}, mGr(a), mOp(a)))
	case 3:
		r = mCat(mGr(a), mOp(mOp(a)), mRp(mRp(a, 0, 0), 1, 2))
	case 4:
		r = mBl(mC('a'), mC('b'))
		r.exc = []*mR{a, mWild(vChoose(m))}
	case 5:
		r = mBl(mS(""), mC('b'))
		r.esc = mC('\\')
		r.exc = []*mR{mC('x'), a, mOp(a)}
	case 6:
		r = mBl(mOp(a), mGr(mCh([]int{2}, a, mC('b'))))
		r.esc = mGr(a)
	case 7:
		r = mCat(mBl(a, a), mRp(mBl(a, mE()), 0, 0))
		r.kids[0].vclose = vBool()
	}
	g := (&mG{}).add("r", r)
	x := mGrammar(g)
	flag := []int{mSkip, mSkipNo, mSkipNever}[vChoose(vParam("modes", 1))]
	res := x.GetRule("r").Eval(x, NewCharstreamFromString(string(mText(2))), flag)
	if res.Node != nil {
		vReach("match")
		res.Node.Text()
		_ = res.StringTree(nil)
	} else {
		vReach("no")
	}
	vObserve("used", mUsed(res))
}

// VC12_Whole: parsing whole texts and searching them for embedded matches ends without a crash.
//
//verif:prop C12
//verif:quick n=3
//verif:thorough n=4
//verif:thorough n=5
//verif:reach raw embed
func VC12_Whole() {
	g := &mG{}
	g.add("r", mWild(vChoose(12)))
	if vBool() {
		g.add("s", mWild(vChoose(16)))
	}
	x := mGrammar(g)
	x.Validate()
	t := mText(3)
	if vBool() {
		x.Eval(NewCharstreamFromString(string(t)), LevelDataOnly)
		vReach("raw")
	} else {
		res := x.EvalEmbed("r", string(t))
		vReach("embed")
		vObserve("embed", len(res.Node.ChildNodes))
	}
}

// VC12_Misuse: everything a user can ask for of a grammar, validated or not, with rules that are
// there and rules that are not.
//
//verif:prop C12
//verif:quick n=2
//verif:thorough n=4
//verif:reach valid missing
func VC12_Misuse() {
	x := NewGrammar()
	for i := vChoose(3); i > 0; i-- {
		if _, err := x.AddRule([]string{"r = s | 'x'", "s = 'a' ['b'] EOF"}[i-1]); err != nil {
			vAssert(false, "a valid definition is rejected")
		}
	}
	if vBool() {
		x.ParseRule("t", []string{"t2 'a'", "'a", "{r}+"}[vChoose(3)])
	}
	times := vChoose(3)
	for i := 0; i < times; i++ {
		x.Validate()
	}
	if times > 0 {
		vReach("valid")
	}
	name := []string{"r", "s", "t", "t2", "nowhere", "", "EOF", "r "}[vChoose(8)]
	t := string(mText(2))
	if x.GetRule(name) == nil {
		vReach("missing")
	}
	var res *EvalResult
	switch vChoose(7) {
	case 0:
		res = x.EvalEmbed(name, t)
	case 1:
		res = x.EvalRule(name, t)
	case 2:
		ast, err := x.Eval(NewCharstreamFromString(t), []int{LevelRaw, LevelBasic, LevelDataOnly, LevelNoVertual, 17}[vChoose(5)])
		vAssert(ast != nil || err != nil, "neither a tree nor an error")
	case 3:
		x.EvalRaw(NewCharstreamFromString(t))
	case 4:
		vAssert(len(x.Serialize(vBool())) > 0, "no listing")
	case 5:
		if rule := x.GetRule(name); rule != nil {
			res = rule.Eval(x, NewCharstreamFromString(t), mFlag())
			vAssert(len(rule.String()) > 0 && len(rule.StringWithIndent("  ")) > 0, "a rule without a description")
		}
	case 6:
		x.GetRecord(name)
		x.AddUsage(name, "r")
		x.Validate()
	}
	if res != nil {
		vAssert(res.Node != nil || res.Error != nil, "neither a node nor an error")
	}
}

// VC12_Deep: recursive grammars without left recursion on any text.
//
//verif:prop C12
//verif:quick n=5
//verif:thorough n=6
//verif:thorough n=7
//verif:reach accepted rejected
func VC12_Deep() {
	g := &mG{}
	switch vChoose(4) {
	case 0: // nested brackets
		g.add("e", mCh([]int{1, 1}, mGr(mCat(mS("("), mRp(mRf("e"), 0, 0), mS(")"))), mC('a')))
	case 1: // right recursion
		g.add("e", mCat(mC('a'), mOp(mRf("e"))))
	case 2: // mutual recursion
		g.add("e", mCat(mC('a'), mOp(mRf("f"))))
		g.add("f", mCat(mC('b'), mGr(mCh([]int{2}, mRf("e"), mS("")))))
	case 3: // arithmetic
		g.add("e", mCat(mRf("t"), mRp(mGr(mCat(mS("+"), mRf("t"))), 0, 0)))
		g.add("t", mCh([]int{2}, mRg('0', '9'), mGr(mCat(mS("("), mRf("e"), mS(")")))))
	}
	x := mGrammar(g)
	t := mText(5)
	res := x.EvalRule("e", string(t))
	v := mNamed(g, "e", t, 0, mSkip)
	mCompare(t, res, v, 0, 0)
	if v.ok {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
	vObserve("end", v.ok, v.end)
}

// ---- C13 ----

// VC13_Embed: embedded search against the definition: leftmost matches, the text between them in
// text nodes, nothing lost.
//
//verif:prop C13
//verif:quick n=4 m=16
//verif:thorough n=5 m=26
//verif:thorough n=6 m=26
//verif:reach matches text none adjacent
func VC13_Embed() {
	var r *mR
	switch vChoose(3) {
	case 0:
		r = mMenu(vChoose(vParam("m", 16)))
	case 1:
		r = []*mR{mCat(mC('a'), mC('b')), mCs("aab"), mCat(mC('a'), mRp(mRg('0', '9'), 1, 0), mC('b')),
			mCat(mS("a"), mS("b")), mRp(mGr(mCat(mC('a'), mC('b'))), 2, 3), mCat(mOp(mC(' ')), mC('a'))}[vChoose(6)]
	case 2:
		r = mBl([]*mR{mC('a'), mCs("ab")}[vChoose(2)], []*mR{mC('b'), mE()}[vChoose(2)])
		r.vclose = vBool()
		if vBool() {
			r.esc = mC('\\')
		}
	}
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	t := mText(4)
	res := x.EvalEmbed("r", string(t))
	vAssert(res.Node != nil, "no node for an embedded search")
	vAssert(res.Error == nil, "an error for an embedded search of a defined rule")
	kids := res.Node.ChildNodes
	i := 0
	next := func() *Node {
		vAssert(i < len(kids), "a part of the text is missing")
		if i >= len(kids) {
			vAssume(false)
		}
		i++
		return kids[i-1]
	}
	var text []rune
	flush := func() {
		if len(text) == 0 {
			return
		}
		n := next()
		vAssert(n.RuleType == TypeText, "text between matches is not in a text node")
		vAssert(vmSameRunes(n.Chars, text), "text between matches is not kept")
		vReach("text")
		text = nil
	}
	last := -1
	for p := 0; p < len(t); {
		v := mNamed(g, "r", t, p, mSkipNever)
		if v.ok && v.end > p {
			flush()
			mSame(t, next(), v.n, mTREE)
			vReach("matches")
			if last == p {
				vReach("adjacent")
			}
			p = v.end
			last = p
			continue
		}
		text = append(text, t[p])
		p++
	}
	if last < 0 {
		vReach("none")
	}
	flush()
	vAssert(i == len(kids), "there are more nodes than parts of the text")
	vObserve("kids", len(kids))
}

// VC13_Unknown: an unknown rule name is an error.
//
//verif:prop C13
//verif:quick n=2
//verif:thorough n=3
//verif:reach unknown
func VC13_Unknown() {
	g := mAux(&mG{})
	x := mGrammar(g)
	name := vRunes(vParam("n", 2))
	if x.GetRecord(string(name)) != nil {
		vAssume(false)
	}
	t := mText(2)
	res := x.EvalEmbed(string(name), string(t))
	vAssert(res.Error != nil && res.Node == nil, "an unknown rule is not reported")
	res = x.EvalRule(string(name), string(t))
	vAssert(res.Error != nil && res.Node == nil, "an unknown rule is not reported")
	vReach("unknown")
}

// ---- C14 ----

// VC14_Pos: positions of all nodes, for every shape of rule, on texts with newlines.
//
//verif:prop C14
//verif:quick n=3 m=14
//verif:thorough n=3 m=26
//verif:thorough n=4 m=20
//verif:thorough n=5 m=14
//verif:reach match line2
func VC14_Pos() {
	r := mShape(vParam("m", 14), 8)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	t := mText(3)
	v := mCheck(g, x, "r", t, mSkip, mPOS)
	if v.ok && v.n.pos >= 0 {
		vReach("match")
		if l, _ := vmPos(t, v.n.pos); l > 1 {
			vReach("line2")
		}
		vObserve("pos", v.n.pos)
	}
}

// VC14_Back: positions on pushed-back streams that start inside the text, in every mode.
//
//verif:prop C14
//verif:quick n=4
//verif:thorough n=5
//verif:thorough n=6
//verif:reach match
func VC14_Back() {
	r := mMenu(vChoose(mMenuSize))
	if vBool() {
		r = mCat(r, mOp(mRg('a', 'z')))
	}
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	n := vParam("n", 4)
	t := vRunes(n)
	pre := 1 + vChoose(n)
	back := vChoose(pre)
	p := pre - back
	cs := mStart(t, pre, back, 1+vChoose(2))
	flag := []int{mSkip, mSkipNever}[vChoose(2)]
	res := x.GetRule("r").Eval(x, cs, flag)
	v := mNamed(g, "r", t, p, flag)
	mCompare(t, res, v, p, mPOS)
	if v.ok {
		vReach("match")
	}
	vObserve("pos", v.ok, v.end)
}

// VC14_Parse: positions in whole parses.
//
//verif:prop C14
//verif:quick n=4
//verif:thorough n=5
//verif:thorough n=6
//verif:reach accepted
func VC14_Parse() {
	g, roots := mGrammars(vChoose(mGrammarCount))
	x := mBuild(g)
	t := mText(4)
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	nodes, ok := mParse(g, roots, t)
	if err != nil || !ok {
		return
	}
	vReach("accepted")
	mSameAST(t, ast, err, nodes, ok, mPOS)
	vObserve("acc", len(nodes))
}

// mTok is a leaf of a tree whose sticky nodes have been merged.
type mTok struct {
	chars []rune
	pos   int
}

func mTextOf(n *mN) mTok {
	if len(n.kids) == 0 {
		if n.typ == TypeEOF {
			return mTok{nil, -1}
		}
		return mTok{n.chars, n.pos}
	}
	var all []rune
	for _, k := range n.kids {
		all = append(all, mTextOf(k).chars...)
	}
	return mTok{all, n.pos}
}

// mTokens lists the leaves with text once runs of sticky siblings are one leaf each.
func mTokens(ns []*mN, block bool, out []mTok) []mTok {
	for i := 0; i < len(ns); i++ {
		n := ns[i]
		if block || !n.sticky {
			if len(n.kids) == 0 {
				if t := mTextOf(n); len(t.chars) > 0 {
					out = append(out, t)
				}
				continue
			}
			out = mTokens(n.kids, n.typ == TypeBlock, out)
			continue
		}
		t := mTextOf(n)
		for i+1 < len(ns) && ns[i+1].sticky {
			i++
			m := mTextOf(ns[i])
			if len(t.chars) == 0 {
				t.pos = m.pos
			}
			t.chars = append(append([]rune(nil), t.chars...), m.chars...)
		}
		if len(t.chars) > 0 {
			out = append(out, t)
		}
	}
	return out
}

func mLeafNodes(ns []*Node, out []*Node) []*Node {
	for _, n := range ns {
		if len(n.ChildNodes) == 0 && len(n.Chars) > 0 && !(len(n.Chars) == 1 && n.Chars[0] == EOFChar) {
			out = append(out, n)
		}
		out = mLeafNodes(n.ChildNodes, out)
	}
	return out
}

// VC14_Tokens: positions of the leaves of simplified trees.
//
//verif:prop C14
//verif:quick n=3 m=10
//verif:thorough n=4 m=12
//verif:thorough n=3 m=27
//verif:reach token line2
func VC14_Tokens() {
	r := mShape(vParam("m", 10), 8)
	if vBool() {
		r = mCat(mS("a"), mOp(mGr(r)), mC('b'))
	}
	g := mAux((&mG{}).add("top", mCat(mRf("r"), mOp(mRf("ra")), mOp(mRf("rs")), mOp(mRf("ro")))).add("r", r))
	x := mBuild(g)
	t := mText(3)
	nodes, ok := mParse(g, []string{"top"}, t)
	ast, err := x.Eval(NewCharstreamFromString(string(t)), LevelBasic)
	if err != nil || !ok {
		return
	}
	toks := mTokens(nodes, false, nil)
	got := mLeafNodes(ast.Nodes, nil)
	vAssert(len(got) == len(toks), "a leaf is missing or added")
	if len(got) != len(toks) {
		return
	}
	for i, n := range got {
		vAssert(vmSameRunes(n.Chars, toks[i].chars), "a leaf has the wrong text")
		l, c := vmPos(t, toks[i].pos)
		nl, nc := vmPosOf(n.Position)
		vAssert(nl == l && nc == c, "a leaf's position is not that of the first character of its text")
		if l > 1 {
			vReach("line2")
		}
		vReach("token")
	}
	vObserve("leaves", len(got))
}

// ---- C15 ----

// VC15_Marks: annotations in front of every kind of rule part.
//
//verif:prop C15
//verif:quick n=2
//verif:thorough n=3
//verif:thorough n=4
//verif:reach match ref inner
func VC15_Marks() {
	part := []*mR{mC('a'), mCs("ab"), mS("a"), mRg('a', 'b'), mOp(mC('a')), mRp(mC('a'), 0, 0),
		mGr(mCat(mC('a'), mC('b'))), mBl(mC('a'), mC('b')), mRf("x"), mE()}[vChoose(10)]
	mk := vChoose(8)
	g := &mG{}
	var r *mR
	switch vChoose(7) {
	case 0:
		r = mCat(part.mark(mk), mOp(mS("b")))
	case 1:
		r = mCat(mOp(mC('b')), part.mark(mk), mOp(mS("a")))
		vReach("inner")
	case 2:
		r = mCh([]int{2}, part.mark(mk), mCs("bb"))
	case 3:
		r = mCh([]int{1, 1}, mCs("bb"), part.mark(mk))
	case 4:
		r = mOp(part.mark(mk))
	case 5:
		r = mRp(part.mark(mk), 1, 2).mark(vChoose(8))
	case 6:
		r = part.mark(mk)
	}
	g.add("r", r)
	xm := 0
	if part.k == mRef {
		vReach("ref")
		xm = vChoose(8)
	}
	g.add("x", mGr(mC('a')).mark(xm))
	x := mGrammar(g)
	v := mCheck(g, x, "r", mText(2), mSkip, mMARK)
	if v.ok {
		vReach("match")
	}
	vObserve("end", v.ok, v.end)
}

// VC15_Names: nodes carry the name of the rule that produced them; annotations on a reference count
// for that use only, also through chains of references and for several uses.
//
//verif:prop C15
//verif:quick n=2 base=2
//verif:thorough n=3 base=4
//verif:thorough n=4 base=4
//verif:reach match twice
func VC15_Names() {
	g := &mG{}
	m1, m2, m3 := vChoose(8), vChoose(8), vChoose(8)
	kind := vChoose(5)
	base := []*mR{mC('a'), mS("a"), mGr(mC('a')), mRp(mC('a'), 1, 1)}[vChoose(vParam("base", 2))]
	switch kind {
	case 0: // alias of an alias
		g.add("r", mRf("y").mark(m1))
		g.add("y", mRf("x").mark(m2))
		g.add("x", base.mark(m3))
	case 1: // two uses with different marks
		g.add("r", mCat(mRf("x").mark(m1), mRf("x").mark(m2)))
		g.add("x", base.mark(m3))
		vReach("twice")
	case 2:
		g.add("r", mRp(mGr(mCh([]int{1, 1}, mRf("x").mark(m1), mRf("y"))), 0, 0))
		g.add("y", mC('b').mark(m2))
		g.add("x", base.mark(m3))
	case 3: // block parts
		b := mBl(mRf("x").mark(m1), mRf("y").mark(m2))
		g.add("r", b)
		g.add("x", base.mark(m3))
		g.add("y", mC('b'))
	case 4: // a reference alone inside a rule without a name
		if m3 != 0 && m3 != 6 {
			vAssume(false)
		}
		in := mRf("x").mark(m1)
		switch vChoose(7) {
		case 0:
			in = mGr(in)
		case 1:
			in = mOp(in)
		case 2:
			in = mRp(in, 0, 0)
		case 3:
			in = mRp(in, 1, 1)
		case 4:
			in = mGr(mCh([]int{1, 1}, mRf("y"), in))
		case 5:
			in = mGr(mGr(in))
		case 6:
			in = mBl(mGr(in), mRf("y"))
		}
		g.add("r", mCat(in.mark(m2), mOp(mRf("y"))))
		g.add("x", base.mark(m3))
		g.add("y", mC('b'))
	}
	x := mGrammar(g)
	t := mText(2)
	v := mCheck(g, x, "r", t, mSkip, mMARK)
	if v.ok {
		vReach("match")
		// the same again: the first use has not changed the marks
		mCheck(g, x, "r", t, mSkip, mMARK)
		mCheck(g, x, "x", t, mSkip, mMARK)
	}
	vObserve("end", v.ok, v.end)
}

// VC10_Ahead: roots that read a different distance ahead of what they match: what the winner leaves
// unread is read again, and nothing else.
//
//verif:prop C10
//verif:quick n=2 m=5
//verif:thorough n=4 m=9
//verif:thorough n=5 m=6
//verif:reach accepted rejected far
func VC10_Ahead() {
	word := []rune("abcdefghij")[:1+vChoose(vParam("m", 5))]
	lit := append(append([]rune(nil), word[1:]...), '!') // the word goes on with a mark
	g := &mG{}
	opt := mOp(mS(string(lit)))
	var roots []string
	switch vChoose(3) {
	case 0: // the winner itself reads ahead
		g.add("a", mCat(mC('a'), opt))
		roots = append(roots, "a")
	case 1: // it is a root that does not match that reads ahead
		g.add("a", mC('a'))
		g.add("l", mCat(mC('a'), mS(string(lit))))
		roots = append(roots, "a", "l")
	default: // two distances, in and behind a repetition
		g.add("a", mRp(mGr(mCat(mC('a'), opt)), 0, 0))
		g.add("l", mCat(mC('a'), mOp(mS("b?"))))
		roots = append(roots, "a", "l")
	}
	for _, c := range word[1:] {
		g.add("o"+string(c), mC(c))
		roots = append(roots, "o"+string(c))
	}
	g.add("e", mRg('!', '?'))
	roots = append(roots, "e")
	x := mBuild(g)
	t := append(append([]rune(nil), word...), vRunes(vParam("n", 2))...)
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	nodes, ok := mParse(g, roots, t)
	mSameAST(t, ast, err, nodes, ok, mTREE)
	if err != nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	if len(word) > 2 && len(ast.Nodes) > 2 {
		vReach("far")
	}
	vObserve("nodes", len(ast.Nodes))
}
