package xbnf

import "strings"

// ---- C29: failures are explained ----

// xPositions are the positions a message names.
func xPositions(s string) (out []string) {
	for i := 0; i < len(s); i++ {
		if s[i] != 'L' {
			continue
		}
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j == i+1 || j == len(s) || s[j] != ':' {
			continue
		}
		k := j + 1
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			k++
		}
		if k > j+1 {
			out = append(out, s[i:k])
		}
	}
	return
}

func xItoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return xItoa(n/10) + string(rune('0'+n%10))
}

func xPos(t []rune, i int) string {
	l, c := vmPos(t, i)
	return "L" + xItoa(l) + ":" + xItoa(c)
}

// xError checks a message about text t: it says something, and the positions it names are places of
// the text from a certain one on.
func xError(err error, t []rune, from int) string {
	vAssert(err != nil, "a failure without an error")
	if err == nil {
		vAssume(false)
	}
	s := err.Error()
	vAssert(len(s) > 0, "an error without a message")
	if strings.Contains(s, "%!") {
		vAssert(strings.Contains(string(t), "%!"), "an error message with a hole")
	}
	for _, p := range xPositions(s) {
		ok := false
		for i := from; i < len(t); i++ {
			if xPos(t, i) == p {
				ok = true
			}
		}
		vAssert(ok, "an error message names a place that is not in the text")
	}
	return s
}

// VC29_Rules: rules of every kind that do not match.
//
//verif:prop C29
//verif:quick n=2 m=27
//verif:thorough n=3 m=27
//verif:reach failed
func VC29_Rules() {
	r := tShape(vParam("m", 27))
	g := mAux(&mG{}).add("r", r)
	x := mGrammar(g)
	t := mText(2)
	flag := mFlag()
	res := x.GetRule("r").Eval(x, NewCharstreamFromString(string(t)), flag)
	if res.Node != nil {
		vAssume(false)
	}
	vReach("failed")
	xError(res.Error, t, 0)
	vObserve("failed")
}

// VC29_Terminals: a terminal that does not match is missing at the place it was looked for.
//
//verif:prop C29
//verif:quick n=3
//verif:thorough n=4
//verif:reach eof place
func VC29_Terminals() {
	r := []*mR{mC('a'), mS("ab"), mCs("ab"), mRg('b', 'x'), mC(' '), mS(" a"), mCs("\n "), mRg('\t', ' '), mE()}[vChoose(9)]
	g := (&mG{}).add("q", mGr(r)).add("r", r)
	x := mGrammar(g)
	t := mText(3)
	p := vChoose(len(t) + 1)
	back := vChoose(p + 1)
	cs := mStart(t, p, back, 1+vChoose(2))
	p -= back
	res := x.GetRule([]string{"q", "r"}[vChoose(2)]).Eval(x, cs, mFlag())
	if res.Node != nil {
		vAssume(false)
	}
	s := xError(res.Error, t, p)
	e := mSpaceEnd(t, p)
	ps := xPositions(s)
	if e == len(t) && strings.Contains(s, "EOF") || r.k == mEOF {
		vReach("eof")
		vAssert(len(ps) == 0, "a terminal is missing at two places")
		return
	}
	vReach("place")
	vAssert(len(ps) == 1, "the message does not tell where a terminal is missing")
	for _, q := range ps {
		vAssert(q == xPos(t, p) || e < len(t) && q == xPos(t, e), "a terminal is reported missing at another place")
	}
	vObserve("missing", p)
}

// xPart is the message of a part evaluated on its own.
func xPart(x *Grammar, name string, t []rune, p int, flag int) (string, int) {
	res := x.GetRule(name).Eval(x, mStart(t, p, 0, 1), flag)
	if res.Node != nil {
		vAssume(false) // only when a part is ambiguous
	}
	return xError(res.Error, t, p), res.ErrIdx
}

// VC29_Parts: what is missing in a part is what is missing in the whole.
//
//verif:prop C29
//verif:quick n=2 m=8 kinds=6
//verif:quick n=3 m=13 kinds=6
//verif:thorough n=3 m=27 kinds=6
//verif:weight 2
//verif:reach part first group choice repetition block
func VC29_Parts() {
	m := vParam("m", 8)
	a, b := mMenu(vChoose(m)), mMenu(vChoose(m))
	g := mAux(&mG{}).add("pa", mGr(a)).add("pb", mGr(b))
	kind := vChoose(vParam("kinds", 6))
	var r *mR
	switch kind {
	case 0:
		r = mCat(a, b)
	case 1:
		r = mCh([]int{2}, a, b)
	case 2:
		r = mCh([]int{1, 1}, a, b)
	case 3:
		r = mRp(a, 2, 0)
	case 4:
		r = mGr(mGr(a))
	case 5:
		r = mBl(mGr(a), mC('b'))
	}
	g.add("r", r)
	x := mGrammar(g)
	t := mText(2)
	flag := mFlag()
	res := x.GetRule("r").Eval(x, NewCharstreamFromString(string(t)), flag)
	if res.Node != nil {
		vAssume(false)
	}
	s := xError(res.Error, t, 0)
	v := mEval(g, a, "", t, 0, flag)
	if v.amb {
		vAssume(false)
	}
	switch kind {
	case 0:
		name, p := "pa", 0
		if v.ok {
			name, p = "pb", v.end
			if v.n.typ != TypeOption || len(v.n.kids) > 0 {
				flag = mSkip
				if v.sticky {
					flag = mSkipNo
				}
			}
			vReach("part")
		} else {
			vReach("first")
		}
		e, _ := xPart(x, name, t, p, flag)
		vAssert(strings.Contains(s, e), "a sequence does not tell which part is missing where")
	case 1, 2:
		if v.ok {
			vAssert(strings.Contains(s, "ambig"), "an ambiguity is not called one")
			return
		}
		e, i := xPart(x, "pa", t, 0, flag)
		f, j := xPart(x, "pb", t, 0, flag)
		vAssert(i >= j && strings.Contains(s, e) || j >= i && strings.Contains(s, f), "a choice does not tell what is missing in the alternative that came furthest")
		vReach("choice")
	case 3:
		p, n := 0, 0
		for v.ok && v.end < len(t) {
			p = v.end
			n++
			if n > 2 {
				return
			}
			v = mEval(g, a, "", t, p, flag)
		}
		if v.ok || len(t) == 0 {
			return // not enough of them
		}
		e, _ := xPart(x, "pa", t, p, flag)
		vAssert(strings.Contains(s, e), "a repetition does not tell what is missing where")
		vReach("repetition")
	case 4:
		e, _ := xPart(x, "pa", t, 0, flag)
		vAssert(strings.Contains(s, e), "a group does not tell what is missing where")
		vReach("group")
	case 5:
		if v.ok {
			vAssert(strings.Contains(s, "EOF"), "a block without an end is not reported as one")
			vReach("block")
			return
		}
		e, _ := xPart(x, "pa", t, 0, flag)
		vAssert(strings.Contains(s, e), "a block does not tell what is missing where")
	}
	vObserve("failed", kind)
}

// VC29_Furthest: a choice tells what is missing in the alternative that came furthest: an alternative is
// a sequence of characters, so how far it came is the number of characters it shares with the text.
//
//verif:prop C29
//verif:quick n=3
//verif:thorough n=4
//verif:reach first second both
func VC29_Furthest() {
	chars := []rune("abc")
	seq := func(s []rune, shapes int) *mR {
		var parts []*mR
		for _, c := range s {
			parts = append(parts, mC(c))
		}
		switch vChoose(shapes) {
		case 1:
			parts = append(parts[:1:1], mGr(mCat(parts[1:]...)))
		case 2:
			parts[len(parts)-1] = mRp(parts[len(parts)-1], 1, 0)
		case 3:
			parts = append(parts, mOp(mC('x')))
		}
		return mGr(mCat(parts...))
	}
	a := chars[:2+vChoose(2)]
	var b []rune
	for i := 1 + vChoose(3); i > 0; i-- {
		b = append(b, chars[vChoose(3)])
	}
	sa, sb := seq(a, 4), mC(b[0])
	if len(b) > 1 {
		sb = seq(b, 1)
	}
	if vBool() {
		a, b, sa, sb = b, a, sb, sa
	}
	r := mCh([][]int{{2}, {1, 1}}[vChoose(2)], sa, sb)
	if vBool() {
		r = mCat(mOp(mC('z')), mGr(r))
	}
	x := mGrammar((&mG{}).add("r", r))
	t := vRunes(vParam("n", 3))
	for _, c := range t {
		if vmIsSpace(c) {
			vAssume(false) // else how far an alternative came depends on where space may be
		}
	}
	res := x.GetRule("r").Eval(x, NewCharstreamFromString(string(t)), mFlag())
	if res.Node != nil {
		vAssume(false)
	}
	s := xError(res.Error, t, 0)
	if strings.Contains(s, "ambig") {
		vAssume(false)
	}
	if len(t) > 0 && t[0] == 'z' && r.k == mConcat {
		vAssume(false)
	}
	common := func(w []rune) int {
		i := 0
		for i < len(w) && i < len(t) && w[i] == t[i] {
			i++
		}
		return i
	}
	i, j := common(a), common(b)
	if i == len(a) || j == len(b) {
		vAssume(false)
	}
	quoted := func(w []rune, i int) bool { return strings.Contains(s, "'"+string(w[i:i+1])+"'") }
	switch {
	case i > j:
		vReach("first")
		vAssert(quoted(a, i), "a choice does not tell what is missing in the alternative that came furthest")
	case j > i:
		vReach("second")
		vAssert(quoted(b, j), "a choice does not tell what is missing in the alternative that came furthest")
	default:
		vReach("both")
		vAssert(quoted(a, i) || quoted(b, j), "a choice does not tell what is missing in an alternative")
	}
}

// VC29_Undefined: a rule that is not defined is named.
//
//verif:prop C29
//verif:quick n=2
//verif:thorough n=4
//verif:reach named
func VC29_Undefined() {
	g := NewGrammar()
	def := []string{"nowhere", "(nowhere)", "{nowhere}+", "{nowhere}<2,3>", "'a' nowhere", "nowhere|nowhere", "nowhere > nowhere", "(nowhere | nowhere) 'a'",
		"<nowhere 'b'>", "#nowhere", "[nowhere] nowhere", "{'a'} nowhere", "other"}[vChoose(13)]
	g.ParseRule("other", "['b'] nowhere")
	rule, err := g.ParseRule("r", def)
	vAssert(err == nil, "a valid definition is rejected")
	if err != nil {
		return
	}
	t := append([]rune{'a'}, mText(2)...)
	flag := mFlag()
	res := rule.Eval(g, NewCharstreamFromString(string(t)), flag)
	vAssert(res.Node == nil, "a rule that is not defined matches")
	s := xError(res.Error, t, 0)
	vAssert(strings.Contains(s, "nowhere"), "the rule that is not defined is not named")
	vReach("named")
	err = g.Validate()
	vAssert(err != nil && strings.Contains(xError(err, nil, 0), "nowhere"), "the rule that is not defined is not named")
	vAssert(strings.Contains(xError(g.EvalRule("missing", "a").Error, nil, 0), "missing"), "the rule that is not defined is not named")
	vAssert(strings.Contains(xError(g.EvalEmbed("missing", "a").Error, nil, 0), "missing"), "the rule that is not defined is not named")
}

// VC29_Parse: texts that are rejected.
//
//verif:prop C29
//verif:quick n=2
//verif:quick n=3 order=1
//verif:thorough n=4
//verif:reach start later tie empty
func VC29_Parse() {
	i := vChoose(mGrammarCount)
	g, roots := mGrammars(i)
	x := mBuild(g)
	t := mText(2)
	vMapOrder(vParam("order", 0) == 1)
	ast, err := x.Eval(NewCharstreamFromString(string(t)), []int{LevelRaw, LevelBasic}[vChoose(2)])
	vMapOrder(false)
	vAssert((ast == nil) == (err != nil), "neither a tree nor an error, or both")
	if err == nil {
		vAssume(false)
	}
	if len(t) == 0 {
		vReach("empty")
		xError(err, t, 0)
		return
	}
	// where does the parse stop?
	flag := mSkip
	cur := 0
	var fit []string
	for {
		best := mV{end: cur}
		fit = nil
		for _, name := range roots {
			v := mNamed(g, name, t, cur, flag)
			if !v.ok || v.end == cur || v.end < best.end {
				continue
			}
			if v.end > best.end {
				fit = nil
			}
			best = v
			fit = append(fit, name)
		}
		if len(fit) != 1 {
			break
		}
		cur = best.end
		if cur >= len(t) {
			vAssert(false, "a text the grammar covers is rejected")
			return
		}
		flag = mSkip
		if best.sticky {
			flag = mSkipNo
		}
	}
	s := xError(err, t, cur)
	if len(fit) > 1 {
		vReach("tie")
		vAssert(strings.Contains(s, "ambig"), "an ambiguity is not called one")
		return
	}
	if cur == 0 {
		vReach("start")
	} else {
		vReach("later")
	}
	for _, name := range roots {
		res := x.GetRule(name).Eval(x, mStart(t, cur, 0, 1), flag)
		if res.Node == nil {
			vAssert(strings.Contains(s, xError(res.Error, t, cur)), "the message does not tell what is missing for a root")
		}
	}
	vObserve("rejected", cur)
}

// VC29_Definitions: definitions and grammar texts that are rejected.
//
//verif:prop C29
//verif:quick n=3
//verif:thorough n=5
//verif:reach rule text
func VC29_Definitions() {
	g := NewGrammar()
	g.ParseRule("x", "'x'")
	var def []rune
	switch vChoose(4) {
	case 0:
		def = vRunes(vChoose(vParam("n", 3) + 1))
	case 1:
		def = dFill(dHoles[vChoose(len(dHoles))])
	case 2:
		def = yEdit(1)
	case 3:
		def = append([]rune{'%'}, vRunes(vChoose(vParam("n", 3)))...)
	}
	var err error
	switch vChoose(4) {
	case 0:
		vReach("rule")
		_, err = g.ParseRule("y", string(def))
	case 1:
		_, err = g.AddRule(string(def))
	case 2:
		_, err = g.ParseRule(string(def), "'y'")
	case 3:
		vReach("text")
		_, err = NewGrammarFromString(string(def))
	}
	if err == nil {
		vAssume(false)
	}
	s := err.Error()
	vAssert(len(s) > 0, "an error without a message")
	if strings.Contains(s, "%!") {
		vAssert(strings.Contains(string(def), "%!"), "an error message with a hole")
	}
	vObserve("rejected")
}
