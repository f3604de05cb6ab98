package xbnf

import (
	"strconv"
	"strings"
)

// Long inputs: mostly fixed text with a few free characters at chosen places, for what only shows
// beyond some size.

// mLong is a text of n times unit with k free characters put in at index at.
func mLong(unit string, n, at, k int) []rune {
	t := []rune(strings.Repeat(unit, n))
	if at > len(t) {
		at = len(t)
	}
	out := append([]rune(nil), t[:at]...)
	out = append(out, vRunes(k)...)
	return append(out, t[at:]...)
}

// VC01_Long: long texts, long matches and long runs of white space, pushed back in whole or in part.
//
//verif:prop C01
//verif:quick n=70 m=300
//verif:thorough n=70 m=1100
//verif:thorough n=600 m=4200
//verif:reach next spaces match back
func VC01_Long() {
	n := []int{vParam("n", 70), vParam("m", 300)}[vChoose(2)]
	unit := []string{"x", " ", "\n", "\U0001F600", "ab\n "}[vChoose(5)]
	text := mLong(unit, n, n-vChoose(2), 2)
	cs := NewCharstreamFromString(string(text))
	cur := 0
	switch vChoose(3) {
	case 0:
		for ; cur < n; cur++ {
			vAssert(cs.Next() == text[cur], "Next did not deliver the next character")
		}
		vReach("next")
	case 1:
		e := mSpaceEnd(text, 0)
		r := cs.SkipSpaces()
		vAssert(vmSameRunes(r, text[:e]), "the spaces skipped are not the run of white space")
		cur = e
		vReach("spaces")
	case 2:
		w := append([]rune(nil), text...)
		w[n-1] = vRune()
		r, ok := cs.Match(w)
		vAssert(ok == (w[n-1] == text[n-1]), "a match has the wrong result")
		cur = n
		if ok {
			cur = len(text)
		}
		vAssert(vmSameRunes(r, text[:cur]), "a match took the wrong characters")
		vReach("match")
	}
	vAssert(cs.Cursor() == cur, "the cursor is not the number of characters delivered")
	if cur > 0 {
		j := []int{cur, (cur + 1) / 2, 1}[vChoose(3)]
		cs = newCharstreamPrepend(cs, append([]rune(nil), text[cur-j:cur]...))
		cur -= j
		vReach("back")
	}
	if vBool() {
		e := mSpaceEnd(text, cur)
		vAssert(vmSameRunes(cs.SkipSpaces(), text[cur:e]), "the spaces skipped are not the run of white space")
		cur = e
	}
	for ; cur < len(text); cur++ {
		vAssert(cs.Next() == text[cur], "the rest of the text is not delivered in order")
	}
	vAssert(cs.Next() == EOFChar && cs.Cursor() == len(text), "no end of text after the last character")
}

// VC02_Long: positions in texts with many lines and with long lines.
//
//verif:prop C02
//verif:quick n=70 m=300
//verif:thorough n=300 m=1100
//verif:reach many
func VC02_Long() {
	n := []int{vParam("n", 70), vParam("m", 300)}[vChoose(2)]
	unit := []string{"x", "\n", "a\n", "ab c\n"}[vChoose(4)]
	text := mLong(unit, n, []int{n - 1, n / 2}[vChoose(2)], 2)
	cs := NewCharstreamFromString(string(text))
	stop := []int{len(text), n - 1, n / 2}[vChoose(3)]
	if vBool() {
		w := append([]rune(nil), text[:stop]...)
		_, ok := cs.Match(w)
		vAssert(ok, "a text does not match itself")
	} else {
		for cs.Cursor() < stop {
			if len(cs.SkipSpaces()) == 0 {
				cs.Next()
			}
		}
	}
	cur := cs.Cursor()
	if vBool() {
		j := cur / 2
		cs = newCharstreamPrepend(cs, append([]rune(nil), text[cur-j:cur]...))
	}
	for _, i := range []int{0, 1, n / 3, cur / 2, cur - 2, cur - 1} {
		l, c := vmPosOf(cs.PositionLookup(i))
		wl, wc := vmPos(text, i)
		vAssert(l == wl && c == wc, "PositionLookup gives a wrong position")
	}
	l, c := vmPosOf(cs.Position())
	wl, wc := vmPos(text, cs.Cursor())
	vAssert(l == wl && c == wc, "Position is not that of the next character")
	if wl > 30 {
		vReach("many")
	}
}

// mLongRules are rules for long texts, with the texts.
func mLongRules(i, n int) (r *mR, unit string) {
	switch i {
	case 0:
		return mRp(mC('a'), 0, 0), "a"
	case 1:
		return mRp(mC('a'), n-1, n+1), "a"
	case 2:
		return mRp(mGr(mCat(mC('a'), mS("b"))), n/2, 0), "a b"
	case 3:
		return mRp(mGr(mCat(mOp(mC('x')), mCs("ab"))), 10, 0), "ab"
	case 4:
		return mRp(mGr(mCh([]int{2, 1}, mCs("ab"), mC('a'), mS("c"))), 0, 0), "aba c"
	case 5:
		return mRp(mS("a"), 0, 12), "a\n"
	case 6:
		return mCat(mRp(mRg('a', 'z'), 1, 0), mC('!')), "ab"
	}
	panic("mLongRules")
}

// VC06_Long: repetitions with many matches and large bounds.
//
//verif:prop C06
//verif:quick n=40 m=11
//verif:thorough n=130 m=12
//verif:thorough n=300 m=101
//verif:steps 200000000
//verif:reach match fail
func VC06_Long() {
	n := []int{vParam("n", 40), vParam("m", 12)}[vChoose(2)]
	r, unit := mLongRules(vChoose(7), n)
	t := mLong(unit, n, []int{len(unit) * n, len(unit) * (n - 1), len(unit)}[vChoose(3)], 2)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	v := mCheck(g, x, "r", t, mSkip, mTREE|mPOS|mUSED)
	if v.ok {
		vReach("match")
	} else {
		vReach("fail")
	}
	vObserve("end", v.ok, v.end)
}

// VC06_Bounds: bounds of several digits, around powers of two and of ten.
//
//verif:prop C06
//verif:quick max=300
//verif:thorough max=1100
//verif:steps 200000000
//verif:reach match fail
func VC06_Bounds() {
	n := []int{99, 100, 127, 128, 255, 256, 257, 300, 1000, 1024}[vChoose(10)]
	if n > vParam("max", 300) {
		vAssume(false)
	}
	r := []*mR{mRp(mC('a'), 0, n), mRp(mC('a'), n, 0), mRp(mC('a'), n, n), mRp(mC('a'), n-1, n+1)}[vChoose(4)]
	t := make([]rune, n-2, n+2)
	for i := range t {
		t[i] = 'a'
	}
	for i := []int{0, 2, 4}[vChoose(3)]; i > 0; i-- {
		t = append(t, 'a')
	}
	t = append(t, vRunes(1)...)
	g := (&mG{}).add("r", r)
	x := mGrammar(g)
	v := mNamed(g, "r", t, 0, mSkip)
	res := x.GetRule("r").Eval(x, NewCharstreamFromString(string(t)), mSkip)
	mCompare(t, res, v, 0, mUSED)
	if v.ok {
		vAssert(res.Node == nil || len(res.Node.ChildNodes) == len(v.n.kids), "a repetition has another number of matches")
		vReach("match")
	} else {
		vReach("fail")
	}
	vObserve("end", v.ok, v.end)
}

// VC28_Bounds: bounds of several digits are read as they are written.
//
//verif:prop C28
//verif:quick max=300
//verif:thorough max=1100
//verif:steps 200000000
//verif:reach match fail
func VC28_Bounds() { VC06_Bounds() }

// VC05_Long: sequences of many parts.
//
//verif:prop C05
//verif:quick n=12
//verif:thorough n=40
//verif:reach match no
func VC05_Long() {
	n := vParam("n", 12)
	kind := vChoose(4)
	r := &mR{k: mConcat}
	var t []rune
	for i := 0; i < n; i++ {
		c := rune('a' + i%20)
		switch kind {
		case 0:
			r.kids = append(r.kids, mC(c))
		case 1:
			r.kids = append(r.kids, mS(string([]rune{c})))
		case 2:
			r.kids = append(r.kids, mOp(mC(c)))
		case 3:
			r.kids = append(r.kids, []*mR{mC(c), mS(string([]rune{c})), mOp(mC(c)), mGr(mC(c))}[i%4])
		}
		t = append(t, c)
	}
	at := []int{0, n / 2, n - 1, n}[vChoose(4)]
	t = append(append(append([]rune(nil), t[:at]...), vRunes(1)...), t[at:]...)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	v := mCheck(g, x, "r", t, mSkip, mTREE|mPOS|mSTICKY)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC07_Long: choices of many alternatives in one or many groups.
//
//verif:prop C07
//verif:quick n=12
//verif:thorough n=40
//verif:reach match no ambiguous
func VC07_Long() {
	n := vParam("n", 12)
	kind := vChoose(4)
	r := &mR{k: mChoice}
	for i := 0; i < n; i++ {
		c := rune('a' + i%10)
		switch kind {
		case 0: // one group of single characters and pairs
			if i < 10 {
				r.kids = append(r.kids, mC(c))
			} else if i == n-1 {
				r.kids = append(r.kids, mRg('c', 'd')) // as far as two of the characters
			} else {
				r.kids = append(r.kids, mCs(string([]rune{c, 'x'})))
			}
		case 1: // every alternative its own group
			r.kids = append(r.kids, mCs(strings.Repeat("a", n-i)))
			r.groups = append(r.groups, 1)
		case 2: // longer and longer
			r.kids = append(r.kids, mCs(strings.Repeat("a", i+1)))
		case 3: // groups of two
			r.kids = append(r.kids, []*mR{mC(c), mS(string([]rune{c}) + "b")}[i%2])
			if i%2 == 1 {
				r.groups = append(r.groups, 2)
			}
		}
	}
	switch {
	case len(r.groups) == 0:
		r.groups = []int{n}
	case kind == 3 && n%2 == 1:
		r.groups = append(r.groups, 1)
	}
	var t []rune
	switch kind {
	case 0, 3:
		t = vRunes(2)
	default:
		t = mLong("a", n-1, []int{0, n / 2, n - 1}[vChoose(3)], 1)
	}
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	v := mCheck(g, x, "r", t, mSkip, mTREE|mPOS)
	switch {
	case v.ok:
		vReach("match")
	case v.amb:
		vReach("ambiguous")
	default:
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC08_Long: blocks with long content.
//
//verif:prop C08
//verif:quick n=70
//verif:thorough n=300
//verif:reach match no
func VC08_Long() {
	n := vParam("n", 70)
	r := mBl(mCs("/*"), mCs("*/"))
	unit := []string{"x", "*", " ", "\n", "\\*/"}[vChoose(5)]
	if vBool() {
		r.esc = mC('\\')
	}
	if vBool() {
		r.exc = []*mR{mCs("**x"), mC('!')}
	}
	r.vclose = vBool()
	t := append([]rune("/*"), mLong(unit, n, []int{0, n - 1}[vChoose(2)], 2)...)
	t = append(t, []rune([]string{"*/", "**/ */", ""}[vChoose(3)])...)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	v := mCheck(g, x, "r", t, mSkip, mTREE|mPOS|mUSED)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC10_Long: whole parses of long texts.
//
//verif:prop C10
//verif:quick n=30
//verif:thorough n=100
//verif:thorough n=300
//verif:steps 200000000
//verif:reach accepted rejected
func VC10_Long() {
	n := vParam("n", 30)
	gi := vChoose(5)
	g, roots := mGrammars([]int{1, 2, 6, 7, 9}[gi])
	unit := []string{"ab 12 ", "ab ab\n", "((a) a)", "a\nb", "'x 'a\\b b"}[gi]
	x := mBuild(g)
	t := mLong(unit, n, []int{len(unit) * n, len(unit) * (n / 2)}[vChoose(2)], 1)
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	nodes, ok := mParse(g, roots, t)
	mSameAST(t, ast, err, nodes, ok, mTREE|mPOS)
	if err != nil || ast == nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	vObserve("nodes", len(nodes))
}

// VC12_Long: rules nested deeply, and texts nested deeply.
//
//verif:prop C12
//verif:quick n=25
//verif:thorough n=60
//verif:steps 60000000
//verif:reach match no
func VC12_Long() {
	n := vParam("n", 25)
	g := &mG{}
	var t []rune
	switch vChoose(3) {
	case 0: // options and groups around a character
		r := mC('a')
		for i := 0; i < n; i++ {
			r = []*mR{mOp(r), mGr(r)}[i%2]
		}
		g.add("r", mCat(r, mC('b')))
		t = vRunes(2)
	case 1: // a chain of references
		for i := 0; i < n; i++ {
			g.add([]string{"r", "n" + strconv.Itoa(i)}[sgn(i)], mCat(mOp(mC('x')), mRf("n"+strconv.Itoa(i+1))))
		}
		g.add("n"+strconv.Itoa(n), mC('a'))
		t = vRunes(2)
	case 2: // nested parentheses
		g.add("r", mGr(mCh([]int{2}, mC('a'), mGr(mCat(mS("("), mRf("r"), mS(")"))))))
		t = append([]rune(strings.Repeat("(", n)+"a"+strings.Repeat(")", n-1)), vRunes(2)...)
	}
	x := mGrammar(g)
	v := mCheck(g, x, "r", t, mSkip, mTREE)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC12_Parts: every number of parts in a sequence, a choice, a set and a text, failing at any of them.
//
//verif:prop C12
//verif:quick n=12
//verif:thorough n=40
//verif:reach match no
func VC12_Parts() {
	n := 2 + vChoose(vParam("n", 12)-1)
	set := make([]rune, n)
	for i := range set {
		set[i] = rune('a' + i%20)
	}
	at := vChoose(n)
	t := append(append(append([]rune(nil), set[:at]...), vRunes(1)...), set[at:]...)
	var r *mR
	switch vChoose(5) {
	case 0:
		r = &mR{k: mConcat}
		for _, c := range set {
			r.kids = append(r.kids, mC(c))
		}
	case 1:
		r = &mR{k: mChoice, groups: []int{n}}
		for _, c := range set {
			r.kids = append(r.kids, mC(c))
		}
		t = t[at:]
	case 2:
		r = &mR{k: mChoice}
		for i := range set {
			if i == 0 {
				r.kids = append(r.kids, mC(set[n-1]))
			} else {
				r.kids = append(r.kids, mCs(string(set[n-1-i:])))
			}
			r.groups = append(r.groups, 1)
		}
		t = t[at:]
	case 3:
		r = mCs(string(set))
	case 4: // a block with many parts left out
		r = mBl(mC('<'), mC('>'))
		for _, c := range set {
			r.exc = append(r.exc, mC(c))
		}
		t = append([]rune{'<'}, t[at:at+1]...)
		t = append(t, '>')
	}
	g := (&mG{}).add("r", r)
	x := mGrammar(g)
	v := mCheck(g, x, "r", t, mSkip, mTREE|mUSED)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	_ = x.GetRule("r").String()
	vObserve("end", v.ok, v.end)
}

func sgn(i int) int {
	if i > 0 {
		return 1
	}
	return 0
}

// VC13_Long: embedded searches in long texts.
//
//verif:prop C13
//verif:quick n=40
//verif:thorough n=100
//verif:reach some
func VC13_Long() {
	n := vParam("n", 40)
	k := vChoose(3)
	r := []*mR{mCat(mC('$'), mRp(mRg('a', 'z'), 1, 0)), mBl(mC('<'), mC('>')), mCs("ab")}[k]
	unit := []string{"x $ab. ", "x<y> > ", "aab"}[k]
	t := mLong(unit, n, []int{len(unit) * n, len(unit)*(n/2) + 2}[vChoose(2)], 2)
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	res := x.EvalEmbed("r", string(t))
	vAssert(res.Node != nil && res.Error == nil, "no result for an embedded search")
	if res.Node == nil {
		return
	}
	mParts(g, res.Node.ChildNodes, t)
	vReach("some")
	vObserve("kids", len(res.Node.ChildNodes))
}

// mParts checks the parts of an embedded search for r.
func mParts(g *mG, kids []*Node, t []rune) {
	i := 0
	var text []rune
	flush := func() {
		if len(text) == 0 {
			return
		}
		vAssert(i < len(kids), "a part of the text is missing")
		if i >= len(kids) {
			vAssume(false)
		}
		vAssert(kids[i].RuleType == TypeText && vmSameRunes(kids[i].Chars, text), "text between matches is not kept in a text node")
		i++
		text = nil
	}
	for p := 0; p < len(t); {
		v := mNamed(g, "r", t, p, mSkipNever)
		if v.ok && v.end > p {
			flush()
			vAssert(i < len(kids), "a match is missing")
			if i >= len(kids) {
				vAssume(false)
			}
			mSame(t, kids[i], v.n, mTREE)
			i++
			p = v.end
			continue
		}
		text = append(text, t[p])
		p++
	}
	flush()
	vAssert(i == len(kids), "there are more nodes than parts of the text")
}

// VC04_Long: long literals and long white space in front of them.
//
//verif:prop C04
//verif:quick n=40
//verif:thorough n=300
//verif:reach match no
func VC04_Long() {
	n := vParam("n", 40)
	lit := []string{strings.Repeat("ab", n/2), strings.Repeat(" ", n) + "a", "a" + strings.Repeat("é \U0001F600", n/3)}[vChoose(3)]
	r := []*mR{mCs(lit), mS(lit), mC('a'), mRg('a', 'c')}[vChoose(4)]
	t := append([]rune(strings.Repeat([]string{" ", "\n", "\u2003"}[vChoose(3)], []int{0, n, n + 1}[vChoose(3)])), []rune(lit)...)
	at := []int{0, len(t) / 2, len(t) - 1, len(t)}[vChoose(4)]
	t = append(append(append([]rune(nil), t[:at]...), vRunes(1)...), t[at:]...)
	g := (&mG{}).add("r", r)
	x := mGrammar(g)
	v := mCheck(g, x, "r", t, mFlag(), mTREE|mPOS|mUSED)
	if v.ok {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC18_Long: long literals, many parts, many alternatives, large bounds, deep nesting.
//
//verif:prop C18
//verif:quick n=14
//verif:thorough n=40
//verif:reach match no
func VC18_Long() {
	n := vParam("n", 14)
	var r *mR
	switch vChoose(6) {
	case 0:
		r = mCs(strings.Repeat("a'\\\" ", n))
	case 1:
		r, _ = mLongRules(1+vChoose(3), 99+n)
	case 2:
		r = &mR{k: mChoice}
		for i := 0; i < n; i++ {
			r.kids = append(r.kids, mCs(strings.Repeat("a", i+1)))
			if i%3 == 0 {
				r.groups = append(r.groups, 0)
			}
			r.groups[len(r.groups)-1]++
		}
	case 3:
		r = &mR{k: mConcat}
		for i := 0; i < n; i++ {
			r.kids = append(r.kids, mOp(mC(rune('a'+i%3))).mark(i%4))
		}
	case 4:
		r = mC('a')
		for i := 0; i < n; i++ {
			r = []*mR{mOp(r), mGr(mCat(mC('b'), r)), mRp(r, i, i+1)}[i%3].mark(i % 3)
		}
	case 5:
		r = mBl(mCs(strings.Repeat("a", n)), mCs(strings.Repeat("b", n)))
		for i := 0; i < n; i++ {
			r.exc = append(r.exc, mC(rune('c'+i)))
		}
	}
	v18Same(r, append(mLong("a", 3, 2, 2), []rune("bbb")...))
}

// v18Same: the printed definition reads back, prints identically and behaves the same on the text.
func v18Same(r *mR, t []rune) {
	g := mAux((&mG{}).add("r", r))
	x := mGrammar(g)
	def := x.GetRule("r").String()
	y := NewGrammar()
	for i, n := range g.names {
		d := string(mDef(g.rules[i]))
		if n == "r" {
			d = def
		}
		_, err := y.ParseRule(n, d)
		vAssert(err == nil, "a printed definition is rejected")
		if err != nil {
			return
		}
	}
	vAssert(y.GetRule("r").String() == def, "a printed definition read back prints differently")
	a := x.GetRule("r").Eval(x, NewCharstreamFromString(string(t)), mSkip)
	b := y.GetRule("r").Eval(y, NewCharstreamFromString(string(t)), mSkip)
	vAssert((a.Node == nil) == (b.Node == nil) && mUsed(a) == mUsed(b), "a printed definition read back behaves differently")
	if a.Node != nil {
		vReach("match")
	} else {
		vReach("no")
	}
	vObserve("len", len(def), mUsed(a))
}

// VC20_Long: grammar texts with many lines, and with long ones.
//
//verif:prop C20
//verif:quick n=130
//verif:thorough n=1100
//verif:steps 60000000
//verif:reach accepted rejected long
func VC20_Long() {
	n := vParam("n", 12)
	var b strings.Builder
	bad := -1
	switch vChoose(3) {
	case 1:
		bad = n - 1
	case 2:
		bad = n / 2
	}
	for i := 0; i < n; i++ {
		if i == bad {
			b.WriteString("x = [\n")
			continue
		}
		b.WriteString("r" + strconv.Itoa(i) + " = 'a'")
		if i%3 == 1 {
			b.WriteString(" // comment")
		}
		b.WriteString("\n")
		if i%5 == 4 {
			b.WriteString("\n")
		}
	}
	long := bad < 0 && vBool()
	if long {
		// longer than usual buffers
		b.WriteString("long = '" + strings.Repeat("a", 70000) + "'\nlast = 'c'\n")
		vReach("long")
	}
	c := vRune()
	if c == '\'' || c == '\\' || c == '\n' {
		vAssume(false)
	}
	b.WriteString("z = '" + string(c) + "'")
	g, err := NewGrammarFromString(b.String())
	if bad >= 0 {
		vAssert(err != nil, "a wrong line is accepted")
		if err != nil {
			line := strconv.Itoa(bad + 1 + bad/5)
			vAssert(vHasNumber(err.Error(), line), "an error does not name its line")
		}
		vReach("rejected")
		return
	}
	vAssert(err == nil, "a valid grammar is rejected")
	if err != nil {
		return
	}
	for i := 0; i < n; i++ {
		vAssert(g.GetRule("r"+strconv.Itoa(i)) != nil, "a rule is missing")
	}
	res := g.EvalRule("z", string(c))
	vAssert(res.Node != nil && vmSameRunes(res.Node.Chars, []rune{c}), "the last line defines another rule")
	if long {
		vAssert(g.GetRule("long") != nil && g.GetRule("last") != nil, "a rule is missing")
	}
	vReach("accepted")
}

// vHasNumber: the text contains the number, not as a part of a longer one.
func vHasNumber(s, n string) bool {
	for i := 0; i+len(n) <= len(s); i++ {
		if s[i:i+len(n)] != n {
			continue
		}
		before := i > 0 && s[i-1] >= '0' && s[i-1] <= '9'
		after := i+len(n) < len(s) && s[i+len(n)] >= '0' && s[i+len(n)] <= '9'
		if !before && !after {
			return true
		}
	}
	return false
}

// tBig makes large trees: wide ones and deep ones, with two nodes of any kind at chosen places.
func tBig(n int) []*Node {
	leaf := func(i int) *Node {
		k := &Node{RuleType: TypeChar, Position: &Position{Line: 1 + i/9, Col: 1 + i%9}, Chars: []rune{rune('a' + i%26)}}
		switch i % 7 {
		case 0, 1, 2:
			k.Sticky = true
		case 3:
			k.RuleName = "n"
		case 4:
			k.Virtual = true
			k.RuleName = "v"
		case 5:
			k.NonData = true
		case 6:
			k.Chars = nil
			k.RuleType = TypeOption
		}
		return k
	}
	made := false
	any := func(i int) *Node {
		if made && vParam("free", 1) == 0 {
			return leaf(i)
		}
		made = true
		k := leaf(6)
		if vBool() {
			k.RuleType, k.Chars = TypeChar, []rune{'z'}
			if vParam("free", 1) == 1 {
				k.Chars[0] = vRune()
			} else {
				k.Chars[0] = []rune{'z', ' ', '\n'}[vChoose(3)]
			}
		}
		k.Sticky = vBool()
		k.RuleName = []string{"", "m"}[vChoose(2)]
		k.Virtual = vBool()
		k.NonData = vBool()
		return k
	}
	at := []int{0, n / 2, n - 2}[vChoose(3)]
	switch vChoose(3) {
	case 0: // many roots
		var ns []*Node
		for i := 0; i < n; i++ {
			ns = append(ns, leaf(i))
		}
		ns[at], ns[at+1] = any(at), any(at+1)
		return ns
	case 1: // many children
		top := &Node{RuleType: TypeConcatenate, RuleName: []string{"", "top"}[vChoose(2)], Position: &Position{Line: 1, Col: 1}}
		for i := 0; i < n; i++ {
			top.ChildNodes = append(top.ChildNodes, leaf(i))
		}
		top.ChildNodes[at], top.ChildNodes[at+1] = any(at), any(at+1)
		return []*Node{top, leaf(3)}
	default: // many levels
		k := any(n)
		for i := n - 1; i >= 0; i-- {
			up := &Node{RuleType: []Type{TypeConcatenate, TypeRepetition, TypeGroup}[i%3], Position: &Position{Line: 1, Col: n - i}}
			if i%4 == 1 {
				up.RuleName = "up"
			}
			switch i % 3 {
			case 0:
				up.ChildNodes = []*Node{leaf(i), k, leaf(i + 1)}
			case 1:
				up.ChildNodes = []*Node{leaf(i), k}
			case 2:
				up.ChildNodes = []*Node{k}
			}
			if i == at {
				up.Virtual, up.NonData = vBool(), vBool()
				up.ChildNodes = append(up.ChildNodes, any(i))
			}
			k = up
		}
		return []*Node{k}
	}
}

// VC21_Big: merging in large trees.
//
//verif:prop C21
//verif:quick n=14
//verif:thorough n=30
//verif:thorough n=100
//verif:steps 60000000
//verif:reach sticky
func VC21_Big() {
	ast := &AST{Nodes: tBig(vParam("n", 14))}
	if tAnySticky(ast.Nodes) {
		vReach("sticky")
	}
	tCheckMerge(ast)
	vObserve("nodes", ast.CountNodes())
}

// VC22_Big: removing marked nodes in large trees.
//
//verif:prop C22
//verif:quick n=14
//verif:thorough n=30
//verif:thorough n=100
//verif:steps 60000000
//verif:reach removed
func VC22_Big() {
	ast := &AST{Nodes: tBig(vParam("n", 14))}
	n := ast.CountNodes()
	tCheckRemove(ast, vBool())
	if ast.CountNodes() < n {
		vReach("removed")
	}
	vObserve("nodes", n, ast.CountNodes())
}

// VC23_Big: redundant nodes in large trees.
//
//verif:prop C23
//verif:quick n=14
//verif:thorough n=30
//verif:thorough n=100
//verif:steps 60000000
//verif:reach redundant
func VC23_Big() {
	ast := &AST{Nodes: tBig(vParam("n", 14))}
	ast.MergeStickyNodes()
	n := ast.CountNodes()
	tCheckRedundant(ast, true)
	if ast.CountNodes() < n {
		vReach("redundant")
	}
	vObserve("nodes", n, ast.CountNodes())
}

// VC24_Big: counts, texts and renderings of large trees.
//
//verif:prop C24
//verif:quick n=14 free=0
//verif:thorough n=40 free=0
//verif:steps 60000000
//verif:reach big
func VC24_Big() {
	ast := &AST{Nodes: tBig(vParam("n", 14))}
	vReach("big")
	tCheckCounts(ast, []*NodeTreeConfig{nil, {PrintNonleafNodeText: true}}[vChoose(2)])
}

// VC17_Long: long literals with an escape somewhere.
//
//verif:prop C17
//verif:quick n=40
//verif:thorough n=300
//verif:reach literal
func VC17_Long() {
	n := vParam("n", 40)
	c := vRune()
	if c < 0x20 || c > 0xFFFF {
		vAssume(false)
	}
	q := []string{"'", "\""}[vChoose(2)]
	body := strings.Repeat([]string{"x", "\\\\", "\\u0041", "é "}[vChoose(4)], n)
	want := []rune(strings.NewReplacer("\\\\", "\\", "\\u0041", "A").Replace(body))
	esc := "\\" + string(c)
	if c == 'u' {
		vAssume(false)
	}
	if vBool() {
		body += esc
		want = append(want, c)
	} else {
		body = esc + body
		want = append([]rune{c}, want...)
	}
	rule := dTry(NewGrammar(), []rune(q+body+q))
	vAssert(rule != nil, "a valid literal is rejected")
	if rule == nil {
		return
	}
	res := rule.Eval(NewGrammar(), NewCharstreamFromString(string(want)), NOT_SKIP)
	vAssert(res.Node != nil && mUsed(res) == len(want), "a literal does not stand for the characters written")
	bad := append([]rune(nil), want...)
	bad[n/2]++
	res = rule.Eval(NewGrammar(), NewCharstreamFromString(string(bad)), NOT_SKIP)
	vAssert(res.Node == nil, "a literal stands for other characters than those written")
	vReach("literal")
}

// VC19_Long: roots and undefined references of larger grammars.
//
//verif:prop C19
//verif:quick n=14
//verif:thorough n=60
//verif:reach valid undefined
func VC19_Long() {
	n := vParam("n", 14)
	g := NewGrammar()
	kind := vChoose(4)
	used := make([]bool, n+1)
	order := vChoose(2)
	for i := 0; i < n; i++ {
		k := i
		if order == 1 {
			k = n - 1 - i
		}
		to := []int{k + 1, 0, k, (k*7 + 3) % n}[kind]
		if k == to || kind == 0 && k == n-1 {
			to = -1
		}
		def := "'" + string(rune(0x4E00+k)) + "'"
		if to >= 0 {
			def += " [r" + strconv.Itoa(to) + "]"
			used[to] = true
		}
		_, err := g.AddRule("r" + strconv.Itoa(k) + " = " + def)
		vAssert(err == nil, "a valid rule is rejected")
		if i == n/2 {
			g.Validate()
		}
	}
	_, err := g.AddRule("r" + strconv.Itoa(vChoose(n)) + " = 'x'")
	vAssert(err != nil, "a rule is defined twice")
	if vBool() {
		_, err = g.AddRule("more = 'm' [nowhere]")
		vAssert(err == nil, "a valid rule is rejected")
		vAssert(g.Validate() != nil, "a reference to an undefined rule is not reported")
		vReach("undefined")
		return
	}
	vAssert(g.Validate() == nil, "a valid grammar is rejected")
	vReach("valid")
	c := vRune()
	_, perr := g.EvalRaw(NewCharstreamFromString(string([]rune{c})))
	root := false
	for i := 0; i < n; i++ {
		if !used[i] {
			root = vOr(root, c == rune(0x4E00+i))
		}
	}
	vAssert((perr == nil) == root, "the roots are not the rules no rule refers to")
}

// VC27_Long: the listing of larger grammars.
//
//verif:prop C27
//verif:quick n=12
//verif:thorough n=120
//verif:reach listed
func VC27_Long() {
	n := vParam("n", 12)
	fromText := vBool()
	kind := vChoose(3)
	g := NewGrammar()
	text := ""
	for i := 0; i < n; i++ {
		to := []int{i + 1, 0, i + 2}[kind]
		def := "'a'"
		if to < n && to != i {
			def += " [r" + strconv.Itoa(to) + "]"
		}
		text += "r" + strconv.Itoa(i) + " = " + def + "\n\n"
		if !fromText {
			_, err := g.AddRule("r" + strconv.Itoa(i) + " = " + def)
			vAssert(err == nil, "a valid rule is rejected")
		}
	}
	var err error
	if fromText {
		g, err = NewGrammarFromString(text)
	} else {
		err = g.Validate()
	}
	vAssert(err == nil, "a valid grammar is rejected")
	if err != nil {
		return
	}
	roots, users, rules := lList(g.Serialize(vBool()))
	wantRoots := []int{1, n - 1, 2}[kind]
	vAssert(len(roots) == wantRoots && len(users) == n-wantRoots, "the listing shows other roots or references")
	j := 0
	for i := 0; i < n; i++ {
		line := i + 1
		if fromText {
			line = 2*i + 1
		}
		found := false
		for ; j < len(rules) && !found; j++ {
			r := rules[j]
			c := strings.Index(r, ":")
			e := strings.Index(r, " = ")
			if c < 0 || e < c {
				continue
			}
			no, err := strconv.Atoi(strings.TrimLeft(r[:c], "L"))
			found = err == nil && no == line && strings.TrimSuffix(strings.TrimSpace(r[c+1:e]), "[T]") == "r"+strconv.Itoa(i)
		}
		vAssert(found, "the listing does not show a rule in its line, in order")
	}
	vReach("listed")
}

// VC16_Long: deeply nested and long definitions, cut off anywhere.
//
//verif:prop C16
//verif:quick n=30
//verif:thorough n=100
//verif:steps 60000000
//verif:reach accepted rejected
func VC16_Long() {
	n := vParam("n", 30)
	k := vChoose(8)
	open := []string{"(", "[", "{", "<'a' ", "#(", "~[", "'a' | (", "{"}[k]
	close := []string{")", "]", "}", ">", ")", "]", ")", "}<1,2>"}[k]
	def := []rune(strings.Repeat(open, n) + "'b'" + strings.Repeat(close, n))
	switch vChoose(3) {
	case 0:
		def = def[:len(def)-vChoose(len(close)+2)]
	case 1:
		def = append(def, vRune())
	case 2:
		def[len(def)/2] = vRune()
	}
	g := NewGrammar()
	rule := dTry(g, def)
	if rule == nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	dUse(g, rule, []rune("ab"))
	vObserve("rule", len(rule.String()))
}
