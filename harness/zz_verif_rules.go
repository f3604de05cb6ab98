package xbnf

// Harnesses for the evaluation of rules: C04 to C09.

// mFlag chooses a leading space mode.
func mFlag() int { return []int{mSkipNo, mSkip, mSkipNever}[vChoose(3)] }

// mLitRunes are literal characters that need no escape in a definition.
func mLitRunes(n int) []rune {
	l := vRunes(n)
	for _, c := range l {
		vAssume(vAnd(c != '\'', vAnd(c != '"', c != '\\')))
	}
	return l
}

// VC04_Term: every kind of terminal with symbolic literals, on any text, in every mode.
//
//verif:prop C04
//verif:quick lit=2 n=3
//verif:thorough lit=3 n=4
//verif:reach char chars string range empty no space-lit
func VC04_Term() {
	var r *mR
	var label string
	switch vChoose(5) {
	case 0:
		r, label = &mR{k: mChar, lit: mLitRunes(1)}, "char"
	case 1:
		n := 2 + vChoose(vParam("lit", 2)-1)
		r, label = &mR{k: mChars, lit: mLitRunes(n)}, "chars"
	case 2:
		n := 1 + vChoose(vParam("lit", 2))
		r, label = &mR{k: mString, lit: mLitRunes(n)}, "string"
	case 3:
		r, label = mS(""), "empty"
	case 4:
		r, label = &mR{k: mRange, lit: mLitRunes(2)}, "range"
	}
	g := (&mG{}).add("r", r)
	x := mGrammar(g)
	t := vRunes(vChoose(vParam("n", 3) + 1))
	v := mCheck(g, x, "r", t, mFlag(), mTREE)
	if v.ok {
		vReach(label)
		if len(r.lit) > 0 && vmIsSpace(r.lit[0]) {
			vReach("space-lit")
		}
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// ---- C05 ----

const mC05 = mTREE | mSTICKY

// mText is a symbolic text of at most param n characters.
func mText(def int) []rune { return vRunes(vChoose(vParam("n", def) + 1)) }

// VC05_Cat2: sequences of two parts, every pair of the menu, in every mode.
//
//verif:prop C05
//verif:quick n=3
//verif:thorough n=4
//verif:thorough n=5
//verif:reach match no spaced
func VC05_Cat2() {
	r := mCat(mMenu(vChoose(mMenuSize)), mMenu(vChoose(mMenuSize)))
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	t := mText(3)
	flag := mFlag()
	v := mCheck(g, x, "r", t, flag, mC05)
	if v.ok {
		vReach("match")
		if len(t) > 2 && vmIsSpace(t[1]) && v.end > 2 {
			vReach("spaced")
		}
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC05_Cat3: sequences of three parts.
//
//verif:prop C05
//verif:quick n=3 m=14
//verif:thorough n=4 m=26
//verif:reach match no
func VC05_Cat3() {
	m := vParam("m", 14)
	a, b, c := vChoose(m), vChoose(m), vChoose(m)
	r := mCat(mMenu(a), mMenu(b), mMenu(c))
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	t := mText(3)
	v := mCheck(g, x, "r", t, mSkip, mC05)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC05_Wrap: options, groups and references around every rule of the menu, followed by a part that
// shows where they stopped and whether white space may follow.
//
//verif:prop C05
//verif:quick n=3
//verif:thorough n=5
//verif:reach option group reference undefined twice
func VC05_Wrap() {
	in := mMenu(vChoose(mMenuSize))
	var r *mR
	g := mAux(&mG{})
	k := vChoose(6)
	switch k {
	case 0:
		r = mOp(in)
	case 1:
		r = mGr(in)
	case 2:
		g.add("in", in)
		r = mRf("in")
	case 3:
		r = mOp(mGr(in))
	case 4:
		g.add("in", mGr(in))
		r = mGr(mOp(mRf("in")))
	case 5:
		r = mGr(mCat(mOp(mRf("nowhere")), mOp(in)))
	}
	if vBool() {
		r = mCat(r, mC('b'))
	}
	g.add("r", r)
	x := mGrammar(g)
	v := mCheck(g, x, "r", mText(3), mFlag(), mC05)
	vReach([]string{"option", "group", "reference", "twice", "twice", "undefined"}[k])
	vObserve("end", v.ok, v.end)
}

// ---- C06 ----

// VC06_Rep: repetitions of every rule of the menu with all bounds up to the given ones, alone or
// followed by a part that shows where they stopped.
//
//verif:prop C06
//verif:quick n=3 min=2 max=3
//verif:thorough n=5 min=3 max=4
//verif:thorough n=6 min=3 max=4
//verif:reach fail some many exact
func VC06_Rep() {
	in := mMenu(vChoose(mMenuSize))
	min, max := vChoose(vParam("min", 2)+1), vChoose(vParam("max", 3)+1)
	if max > 0 && max < min {
		vAssume(false)
	}
	r := mRp(in, min, max)
	switch vChoose(3) {
	case 1:
		r = mCat(r, mC('b'))
	case 2:
		r = mCat(mS("b"), r, mS("b"))
	}
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	v := mCheck(g, x, "r", mText(4), mFlag(), mTREE|mUSED)
	if !v.ok {
		vReach("fail")
	} else if len(v.n.kids) > 2 {
		vReach("many")
	} else {
		vReach("some")
	}
	if v.ok && max > 0 && len(v.n.kids) == max {
		vReach("exact")
	}
	vObserve("end", v.ok, v.end)
}

// VC06_Nest: repetitions of sequences that need more than one character of look-ahead.
//
//verif:prop C06
//verif:quick n=5
//verif:thorough n=7
//verif:reach fail match
func VC06_Nest() {
	var in *mR
	switch vChoose(5) {
	case 0:
		in = mGr(mCat(mC('a'), mC('b'), mC('c')))
	case 1:
		in = mGr(mCat(mS("a"), mOp(mCs("bc"))))
	case 2:
		in = mGr(mCh([]int{2}, mCs("ab"), mCs("aba")))
	case 3:
		in = mGr(mCat(mRp(mC('a'), 0, 2), mC('b')))
	case 4:
		in = mRp(mGr(mCat(mC('a'), mC('b'))), 1, 2)
	}
	var r *mR
	switch vChoose(3) {
	case 0:
		r = mRp(in, 0, 0)
	case 1:
		r = mRp(in, 2, 0)
	case 2:
		r = mCat(mRp(in, 0, 2), mCs("ab"))
	}
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	v := mCheck(g, x, "r", vRunes(vParam("n", 5)), mSkip, mTREE|mUSED)
	if v.ok {
		vReach("match")
	} else {
		vReach("fail")
	}
	vObserve("end", v.ok, v.end)
}

// ---- C07 ----

// VC07_Two: choices of two alternatives, unordered and ordered, alone or inside a sequence.
//
//verif:prop C07
//verif:quick n=3
//verif:thorough n=3 wrap=3 modes=3
//verif:thorough n=4 wrap=3
//verif:thorough n=5
//verif:reach match no ambiguous ordered longest
func VC07_Two() {
	a, b := mMenu(vChoose(mMenuSize)), mMenu(vChoose(mMenuSize))
	groups := []int{2}
	if vBool() {
		groups = []int{1, 1}
		vReach("ordered")
	}
	r := mCh(groups, a, b)
	switch vChoose(vParam("wrap", 2)) {
	case 1:
		r = mCat(mGr(r), mC('b'))
	case 2:
		r = mCat(mS("b"), mGr(r))
	}
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	flag := []int{mSkip, mSkipNo, mSkipNever}[vChoose(vParam("modes", 1))]
	v := mCheck(g, x, "r", mText(3), flag, mTREE|mSTICKY)
	switch {
	case v.amb:
		vReach("ambiguous")
	case v.ok:
		vReach("match")
		if v.end > 1 {
			vReach("longest")
		}
	default:
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC07_Three: three alternatives in every grouping; the alternatives of a group written in another
// order give the same result.
//
//verif:prop C07
//verif:quick n=3 m=9
//verif:thorough n=3 m=13 modes=3
//verif:thorough n=4 m=15
//verif:thorough n=3 m=26
//verif:reach match no ambiguous
func VC07_Three() {
	m := vParam("m", 12)
	alt := []*mR{mMenu(vChoose(m)), mMenu(vChoose(m)), mMenu(vChoose(m))}
	groups := [][]int{{3}, {2, 1}, {1, 2}, {1, 1, 1}}[vChoose(4)]
	r := mCh(groups, alt...)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	t := mText(3)
	flag := []int{mSkip, mSkipNo, mSkipNever}[vChoose(vParam("modes", 1))]
	v := mCheck(g, x, "r", t, flag, mTREE)
	// reverse the alternatives inside the groups
	var back []*mR
	i := 0
	for _, n := range groups {
		for j := n - 1; j >= 0; j-- {
			back = append(back, alt[i+j])
		}
		i += n
	}
	gb := mAux((&mG{}).add("r", mCh(groups, back...)))
	xb := mGrammar(gb)
	res := xb.GetRule("r").Eval(xb, NewCharstreamFromString(string(t)), flag)
	mCompare(t, res, v, 0, mTREE)
	switch {
	case v.amb:
		vReach("ambiguous")
	case v.ok:
		vReach("match")
	default:
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// ---- C08 ----

// mBlockShape chooses a block: open, escape, excludes, close, virtual close.
func mBlockShape(full bool) *mR {
	opens := []*mR{mC('a'), mS("a"), mS(""), mCs("ab"), mRf("ra"), mOp(mC('a'))}
	closes := []*mR{mC('b'), mCs("bc"), mGr(mCh([]int{2}, mC('b'), mE())), mC('\n'), mS("b"),
		mGr(mCat(mC('b'), mC('c'))), mRp(mC('b'), 2, 2), mE()}
	escs := []*mR{nil, mC('\\'), mCs("e\\"), mC('b'), mOp(mC('\\')), mGr(mCh([]int{2}, mC('\\'), mCs("\\\\")))}
	excs := [][]*mR{nil, {mC('x')}, {mC('x'), mCs("xx")}, {mCs("bx")}, {mC('x'), mRg('x', 'x')}, {mE()},
		{mGr(mCat(mC('x'), mC('x')))}}
	no, nc, ne, nx := 4, 4, 3, 3
	if full {
		no, nc, ne, nx = len(opens), len(closes), len(escs), len(excs)
	}
	o, c, e, x := vChoose(no), vChoose(nc), vChoose(ne), vChoose(nx)
	odd := 0 // unusual parts
	for _, b := range []bool{o > 2, c > 3, e > 2, x > 2} {
		if b {
			odd++
		}
	}
	if full && odd > vParam("odd", 2) {
		vAssume(false)
	}
	r := mBl(opens[o], closes[c])
	r.esc, r.exc = escs[e], excs[x]
	r.vclose = vBool()
	return r
}

// VC08_Block: blocks of all shapes on any text.
//
//verif:prop C08
//verif:quick n=4
//verif:thorough n=5
//verif:thorough n=6
//verif:reach match no escaped virtual excluded
func VC08_Block() {
	r := mBlockShape(false)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	t := mText(4)
	v := mCheck(g, x, "r", t, mSkip, mTREE|mSTICKY)
	if v.ok {
		vReach("match")
		if r.vclose {
			vReach("virtual")
		}
		if r.esc != nil && v.end > 3 && len(v.n.kids[1].chars) == 1 {
			vReach("escaped")
		}
	} else {
		vReach("no")
		if r.exc != nil && len(t) == 2 && t[1] == 'x' {
			vReach("excluded")
		}
	}
	vObserve("end", v.ok, v.end)
}

// VC08_More: unusual parts (open, close, escape and excludes that match several characters, nothing,
// or the end of text).
//
//verif:prop C08
//verif:quick n=3 odd=1
//verif:thorough n=3 odd=4 modes=3
//verif:thorough n=4 odd=2
//verif:reach match no
func VC08_More() {
	r := mBlockShape(true)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	flag := []int{mSkip, mSkipNo, mSkipNever}[vChoose(vParam("modes", 1))]
	v := mCheck(g, x, "r", mText(3), flag, mTREE|mSTICKY)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC08_Excl: several texts left out of a block, in every order, some the beginning of others or of the
// close: the longest one counts, with and without an escape in front.
//
//verif:prop C08
//verif:quick n=4
//verif:thorough n=5
//verif:thorough n=6
//verif:reach match no
func VC08_Excl() {
	some := func(i int) *mR {
		return []*mR{mC('x'), mCs("xb"), mCs("xbb"), mC('b'), mGr(mCh([]int{2}, mC('x'), mCs("xb")))}[i]
	}
	b := mBl(mC('a'), []*mR{mC('b'), mCs("bb"), mCs("xb")}[vChoose(3)])
	b.esc = []*mR{mC('\\'), mC('b'), nil}[vChoose(3)]
	i := vChoose(5)
	j := (i + 1 + vChoose(4)) % 5
	b.exc = []*mR{some(i), some(j)}
	if vBool() {
		b.exc = append(b.exc, some((j+1)%5))
	}
	b.vclose = vBool()
	g := mAux((&mG{}).add("r", b))
	x := mGrammar(g)
	t := append([]rune{'a'}, vRunes(vParam("n", 4))...)
	v := mCheck(g, x, "r", t, mSkip, mTREE|mUSED)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC08_Follow: what follows a block, in particular after a virtual close, and blocks in repetitions.
//
//verif:prop C08
//verif:quick n=5
//verif:thorough n=6
//verif:thorough n=7
//verif:reach match no
func VC08_Follow() {
	b := mBl([]*mR{mC('a'), mS("")}[vChoose(2)], []*mR{mC('b'), mCs("bc")}[vChoose(2)])
	b.vclose = vBool()
	if vBool() {
		b.esc = mC('\\')
	}
	if vBool() {
		b.exc = []*mR{mC('x')}
	}
	var r *mR
	switch vChoose(3) {
	case 0:
		r = mCat(b, mC('b'))
	case 1:
		r = mRp(mGr(mCat(b, mOp(mS("b")))), 0, 0)
	case 2:
		r = mCh([]int{2}, b, mGr(mCat(mC('a'), mC('c'))))
	}
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	v := mCheck(g, x, "r", vRunes(vParam("n", 5)), mSkip, mTREE)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}
