package xbnf

import "strconv"

// A reference semantics of xbnf, written against the documentation and independently of the code
// under test: rules are small trees (mR), matching works on indexes of the text (mEval), and nothing
// is ever pushed back. The definition text of a rule is produced by mDef, so the code under test
// only ever sees definitions and texts.

const (
	mChar = iota
	mChars
	mString
	mRange
	mConcat
	mRep
	mOpt
	mGroup
	mChoice
	mBlock
	mRef
	mEOF
)

const ( // annotation bits
	mVirtual = 1
	mNonData = 2
	mToken   = 4
)

type mR struct {
	k      int
	lit    []rune // char, chars, string; range: first and last
	kids   []*mR  // concat parts, choice alternatives, content; block: open and close
	groups []int  // choice: sizes of the ordered groups
	min    int
	max    int
	ref    string
	esc    *mR
	exc    []*mR
	vclose bool
	mk     int
}

// mG is a grammar: named rules in order of definition.
type mG struct {
	names []string
	rules []*mR
}

func (g *mG) add(name string, r *mR) *mG {
	g.names = append(g.names, name)
	g.rules = append(g.rules, r)
	return g
}

func (g *mG) get(name string) *mR {
	for i, n := range g.names {
		if n == name {
			return g.rules[i]
		}
	}
	return nil
}

// constructors

func mC(c rune) *mR               { return &mR{k: mChar, lit: []rune{c}} }
func mCs(s string) *mR            { return &mR{k: mChars, lit: []rune(s)} }
func mS(s string) *mR             { return &mR{k: mString, lit: []rune(s)} }
func mRg(a, b rune) *mR           { return &mR{k: mRange, lit: []rune{a, b}} }
func mCat(r ...*mR) *mR           { return &mR{k: mConcat, kids: r} }
func mRp(r *mR, min, max int) *mR { return &mR{k: mRep, kids: []*mR{r}, min: min, max: max} }
func mOp(r *mR) *mR               { return &mR{k: mOpt, kids: []*mR{r}} }
func mGr(r *mR) *mR               { return &mR{k: mGroup, kids: []*mR{r}} }
func mRf(name string) *mR         { return &mR{k: mRef, ref: name} }
func mE() *mR                     { return &mR{k: mEOF} }

func mCh(groups []int, r ...*mR) *mR { return &mR{k: mChoice, kids: r, groups: groups} }

func mBl(open, close *mR) *mR { return &mR{k: mBlock, kids: []*mR{open, close}} }

func (r *mR) mark(mk int) *mR {
	c := *r
	c.mk = mk
	return &c
}

// mDef writes the definition of a rule.
func mDef(r *mR) []rune {
	var b []rune
	if r.mk&mVirtual != 0 {
		b = append(b, '~')
	}
	if r.mk&mNonData != 0 {
		b = append(b, '#')
	}
	if r.mk&mToken != 0 {
		b = append(b, '$')
	}
	lit := func(q rune, s []rune) {
		b = append(b, q)
		for _, c := range s {
			if c == q || c == '\\' {
				b = append(b, '\\')
			}
			b = append(b, c)
		}
		b = append(b, q)
	}
	str := func(s string) { b = append(b, []rune(s)...) }
	sub := func(s *mR) { b = append(b, mDef(s)...) }
	switch r.k {
	case mChar, mChars:
		lit('\'', r.lit)
	case mString:
		lit('"', r.lit)
	case mRange:
		lit('\'', r.lit[:1])
		str("-")
		lit('\'', r.lit[1:])
	case mConcat:
		for i, k := range r.kids {
			if i > 0 {
				str(" ")
			}
			sub(k)
		}
	case mRep:
		str("{")
		sub(r.kids[0])
		str("}")
		switch {
		case r.min == 0 && r.max == 0:
		case r.min == 1 && r.max == 0:
			str("+")
		case r.max == 0:
			str("<" + strconv.Itoa(r.min) + ">")
		default:
			str("<" + strconv.Itoa(r.min) + "," + strconv.Itoa(r.max) + ">")
		}
	case mOpt:
		str("[")
		sub(r.kids[0])
		str("]")
	case mGroup:
		str("(")
		sub(r.kids[0])
		str(")")
	case mChoice:
		i := 0
		for gi, n := range r.groups {
			for j := 0; j < n; j++ {
				if j > 0 {
					str(" | ")
				} else if gi > 0 {
					str(" > ")
				}
				sub(r.kids[i])
				i++
			}
		}
	case mBlock:
		str("<")
		sub(r.kids[0])
		str(" ")
		if r.esc != nil {
			sub(r.esc)
			str(" ")
		}
		for _, x := range r.exc {
			str("^")
			sub(x)
			str(" ")
		}
		sub(r.kids[1])
		if r.vclose {
			str(" !")
		}
		str(">")
	case mRef:
		str(r.ref)
	case mEOF:
		str("EOF")
	}
	return b
}

// mGrammar has the code under test read the grammar.
func mGrammar(g *mG) *Grammar {
	x := NewGrammar()
	for i, n := range g.names {
		_, err := x.ParseRule(n, string(mDef(g.rules[i])))
		vAssert(err == nil, "a valid definition is rejected")
		if err != nil {
			vAssume(false)
		}
	}
	return x
}

// ---- evaluation ----

// mN is a node of the expected tree.
type mN struct {
	typ    Type
	name   string
	chars  []rune
	kids   []*mN
	pos    int // index of the first character of the node's own text, -1 when it has none
	sticky bool
	mk     int
}

// mV is the result of an evaluation that started at some index.
type mV struct {
	ok     bool
	end    int // index after the text used
	n      *mN
	sticky bool
	amb    bool
}

const (
	mSkipNo    = SUGGEST_NOT_SKIP
	mSkip      = SUGGEST_SKIP
	mSkipNever = NOT_SKIP
)

func mSpaceEnd(t []rune, p int) int {
	for p < len(t) && vmIsSpace(t[p]) {
		p++
	}
	return p
}

func mFail(sticky bool) mV { return mV{sticky: sticky} }

func mFirst(kids []*mN) int {
	for _, k := range kids {
		if k.pos >= 0 {
			return k.pos
		}
	}
	return -1
}

func mEval(g *mG, r *mR, name string, t []rune, p int, flag int) mV {
	n := &mN{name: name, pos: -1, mk: r.mk}
	switch r.k {
	case mChar:
		n.typ, n.sticky = TypeChar, true
		if p >= len(t) {
			return mFail(true)
		}
		s := p
		if flag == mSkip {
			e := mSpaceEnd(t, p)
			if e > p && vmIsSpace(r.lit[0]) {
				for i := p; i < e; i++ {
					if t[i] == r.lit[0] {
						n.chars, n.pos = t[i:i+1], i
						return mV{ok: true, end: i + 1, n: n, sticky: true}
					}
				}
				return mFail(true)
			}
			s = e
		}
		if s < len(t) && t[s] == r.lit[0] {
			n.chars, n.pos = t[s:s+1], s
			return mV{ok: true, end: s + 1, n: n, sticky: true}
		}
		return mFail(true)
	case mRange:
		n.typ, n.sticky = TypeChars, true
		s := p
		if p >= len(t) {
			return mFail(true)
		}
		if flag == mSkip {
			e := mSpaceEnd(t, p)
			for s < e && !(r.lit[0] <= t[s] && t[s] <= r.lit[1]) {
				s++
			}
		}
		if s < len(t) && r.lit[0] <= t[s] && t[s] <= r.lit[1] {
			n.chars, n.pos = t[s:s+1], s
			return mV{ok: true, end: s + 1, n: n, sticky: true}
		}
		return mFail(true)
	case mChars, mString:
		n.typ, n.sticky = TypeChars, true
		skips := flag == mSkip
		if r.k == mString {
			n.typ, n.sticky = TypeString, false
			skips = flag != mSkipNever
		}
		if p >= len(t) {
			return mFail(n.sticky)
		}
		s := p
		if skips {
			e := mSpaceEnd(t, p)
			lead := mSpaceEnd(r.lit, 0)
			if e-p < lead {
				return mFail(n.sticky)
			}
			s = e - lead
		}
		if s+len(r.lit) > len(t) {
			return mFail(n.sticky)
		}
		for i, c := range r.lit {
			if t[s+i] != c {
				return mFail(n.sticky)
			}
		}
		if len(r.lit) > 0 {
			n.chars, n.pos = t[s:s+len(r.lit)], s
		}
		return mV{ok: true, end: s + len(r.lit), n: n, sticky: n.sticky}
	case mConcat:
		n.typ = TypeConcatenate
		sticky := true
		cur := p
		for _, k := range r.kids {
			v := mEval(g, k, "", t, cur, flag)
			if !v.sticky {
				sticky = false
			}
			if !v.ok {
				return mFail(sticky)
			}
			if v.n.typ != TypeOption || len(v.n.kids) > 0 {
				flag = mSkip
				if v.sticky {
					flag = mSkipNo
				}
			}
			cur = v.end
			n.kids = append(n.kids, v.n)
		}
		n.sticky, n.pos = sticky, mFirst(n.kids)
		return mV{ok: true, end: cur, n: n, sticky: sticky}
	case mRep:
		n.typ = TypeRepetition
		sticky := true
		cur := p
		for cur < len(t) {
			v := mEval(g, r.kids[0], "", t, cur, flag)
			if !v.sticky {
				sticky = false
			}
			if !v.ok || v.end == cur && len(n.kids) >= r.min {
				break
			}
			cur = v.end
			n.kids = append(n.kids, v.n)
			if r.max > 0 && len(n.kids) == r.max {
				break
			}
		}
		if len(n.kids) < r.min {
			return mFail(sticky)
		}
		n.sticky, n.pos = sticky, mFirst(n.kids)
		return mV{ok: true, end: cur, n: n, sticky: sticky}
	case mOpt:
		n.typ = TypeOption
		v := mEval(g, r.kids[0], "", t, p, flag)
		n.sticky = v.sticky
		if !v.ok {
			return mV{ok: true, end: p, n: n, sticky: v.sticky}
		}
		n.kids, n.pos = []*mN{v.n}, v.n.pos
		return mV{ok: true, end: v.end, n: n, sticky: v.sticky}
	case mGroup:
		n.typ = TypeGroup
		v := mEval(g, r.kids[0], "", t, p, flag)
		n.sticky = v.sticky
		if !v.ok {
			return v
		}
		n.kids, n.pos = []*mN{v.n}, v.n.pos
		return mV{ok: true, end: v.end, n: n, sticky: v.sticky}
	case mChoice:
		n.typ = TypeChoice
		sticky := true
		i := 0
		for _, size := range r.groups {
			best := mV{end: -1}
			for j := 0; j < size; j++ {
				v := mEval(g, r.kids[i], "", t, p, flag)
				i++
				if !v.sticky {
					sticky = false
				}
				if !v.ok || v.end < best.end {
					continue
				}
				if v.end == best.end {
					best.amb = true
					continue
				}
				best = v
				best.amb = false
			}
			if best.end < 0 {
				continue
			}
			if best.amb {
				return mV{amb: true}
			}
			n.kids, n.pos, n.sticky = []*mN{best.n}, best.n.pos, sticky
			return mV{ok: true, end: best.end, n: n, sticky: sticky}
		}
		return mFail(sticky)
	case mBlock:
		n.typ = TypeBlock
		o := mEval(g, r.kids[0], "", t, p, flag)
		if !o.ok {
			return mFail(false)
		}
		cur := o.end
		content := &mN{typ: TypeChars, sticky: true, pos: cur}
		for {
			escaped := false
			var escText []rune
			if r.esc != nil {
				e := mEval(g, r.esc, "", t, cur, mSkipNever)
				if e.ok && e.end > cur {
					escaped, escText, cur = true, t[cur:e.end], e.end
				}
			}
			xend := -1
			for _, x := range r.exc {
				v := mEval(g, x, "", t, cur, mSkipNever)
				if v.ok && v.end > xend {
					xend = v.end
				}
			}
			if xend >= 0 {
				if !escaped {
					return mFail(false)
				}
				content.chars = append(content.chars, t[cur:xend]...)
				cur = xend
				continue
			}
			c := mEval(g, r.kids[1], "", t, cur, mSkipNever)
			if c.ok && escaped {
				content.chars = append(content.chars, t[cur:c.end]...)
				cur = c.end
				continue
			}
			if c.ok {
				n.kids = []*mN{o.n, content}
				if !r.vclose {
					n.kids = append(n.kids, c.n)
					cur = c.end
				}
				break
			}
			if cur >= len(t) {
				return mFail(false)
			}
			// an escape in front of anything else stays, twice (that is pinned by TestBlock)
			content.chars = append(content.chars, escText...)
			content.chars = append(content.chars, escText...)
			content.chars = append(content.chars, t[cur])
			cur++
		}
		if len(content.chars) == 0 {
			content.pos = -1
		}
		n.pos = mFirst(n.kids)
		return mV{ok: true, end: cur, n: n}
	case mRef:
		target := g.get(r.ref)
		if target == nil {
			return mFail(false)
		}
		v := mEval(g, target, r.ref, t, p, flag)
		if v.ok {
			v.n.mk ^= r.mk
		}
		return v
	case mEOF:
		n.typ, n.name, n.sticky = TypeEOF, "EOF", true
		s := p
		if flag == mSkip {
			s = mSpaceEnd(t, p)
		}
		if s < len(t) {
			return mFail(true)
		}
		n.chars = []rune{EOFChar}
		return mV{ok: true, end: s, n: n, sticky: true}
	}
	panic("mEval")
}

// mNamed evaluates a named rule.
func mNamed(g *mG, name string, t []rune, p int, flag int) mV {
	return mEval(g, g.get(name), name, t, p, flag)
}

// mParse is the parse of a whole text by the given roots.
func mParse(g *mG, roots []string, t []rune) (nodes []*mN, ok bool) {
	flag := mSkip
	for cur := 0; cur < len(t); {
		best := mV{end: cur}
		for _, name := range roots {
			v := mNamed(g, name, t, cur, flag)
			if !v.ok || v.end == cur || v.end < best.end {
				continue
			}
			if v.end == best.end {
				best.amb = true
				continue
			}
			best = v
			best.amb = false
		}
		if !best.ok || best.amb {
			return nil, false
		}
		nodes = append(nodes, best.n)
		cur = best.end
		flag = mSkip
		if best.sticky {
			flag = mSkipNo
		}
	}
	return nodes, len(nodes) > 0
}

// ---- comparison ----

const ( // aspects of a tree
	mTREE   = 1 // shape, kinds and leaf text
	mSTICKY = 2
	mPOS    = 4
	mMARK   = 8  // names and annotations
	mUSED   = 16 // a rule that does not match uses nothing
)

// mSame asserts that the node is the expected one in the given aspects.
func mSame(t []rune, n *Node, m *mN, what int) {
	vAssert(n != nil, "a node is missing")
	if n == nil {
		return
	}
	if what&mTREE != 0 {
		vAssert(n.RuleType == m.typ, "a node has the wrong type")
		if len(n.ChildNodes) == 0 {
			vAssert(vmSameRunes(n.Chars, m.chars), "a leaf has the wrong text")
		}
	}
	vAssert(len(n.ChildNodes) == len(m.kids), "a node has the wrong number of children")
	if what&mSTICKY != 0 {
		vAssert(n.Sticky == m.sticky, "a node has the wrong stickiness")
	}
	if what&mPOS != 0 && m.pos >= 0 {
		l, c := vmPos(t, m.pos)
		nl, nc := vmPosOf(n.Position)
		vAssert(nl == l && nc == c, "a node's position is not that of the first character of its text")
	}
	if what&mMARK != 0 {
		vAssert(n.RuleName == m.name, "a node has the wrong name")
		vAssert(n.Virtual == (m.mk&mVirtual != 0), "a node has the wrong virtual mark")
		vAssert(n.NonData == (m.mk&mNonData != 0), "a node has the wrong non-data mark")
		vAssert(n.Tokenized == (m.mk&mToken != 0), "a node has the wrong token mark")
	}
	if len(n.ChildNodes) == len(m.kids) {
		for i, k := range n.ChildNodes {
			mSame(t, k, m.kids[i], what)
		}
	}
}

// mUsed is the number of characters a result used, from its public fields.
func mUsed(r *EvalResult) int { return len(r.CharsRead) - len(r.CharsUnused) }

// mCheck evaluates the named rule of both grammars on the text and compares them: match, amount
// used and the given aspects of the tree.
func mCheck(g *mG, x *Grammar, name string, t []rune, flag int, what int) mV {
	want := mNamed(g, name, t, 0, flag)
	res := x.GetRule(name).Eval(x, NewCharstreamFromString(string(t)), flag)
	mCompare(t, res, want, 0, what)
	return want
}

func mCompare(t []rune, res *EvalResult, want mV, start int, what int) {
	vAssert(res != nil, "no result")
	if want.ok {
		vAssert(res.Node != nil, "the rule does not match where it should")
	} else {
		vAssert(res.Node == nil, "the rule matches where it should not")
		if what&mUSED != 0 {
			vAssert(mUsed(res) == 0, "a rule that does not match has used characters")
		}
		return
	}
	if res.Node == nil {
		return
	}
	vAssert(mUsed(res) == want.end-start, "the rule uses a wrong number of characters")
	if what != 0 {
		mSame(t, res.Node, want.n, what)
	}
}

// mAux adds the named rules the menu refers to.
func mAux(g *mG) *mG {
	g.add("ra", mC('a'))
	g.add("rs", mS("b"))
	g.add("ro", mOp(mC('a')))
	return g
}

const mTerms = 8
const mMenuSize = 32

// mMenu is a menu of small rules: all kinds, over the letters a, b, c and the space.
func mMenu(i int) *mR {
	switch i {
	case 0:
		return mC('a')
	case 1:
		return mS("a")
	case 2:
		return mCs("ab")
	case 3:
		return mS("")
	case 4:
		return mRg('a', 'b')
	case 5:
		return mC(' ')
	case 6:
		return mS("b")
	case 7:
		return mC('b')
	// composites
	case 8:
		return mOp(mC('a'))
	case 9:
		return mOp(mS("b"))
	case 10:
		return mRp(mC('a'), 0, 0)
	case 11:
		return mGr(mCh([]int{2}, mC('a'), mCs("ab")))
	case 12:
		return mGr(mCat(mC('a'), mS("b")))
	case 13:
		return mRf("ra")
	case 14:
		return mBl(mC('a'), mC('b'))
	case 15:
		b := mBl(mS(""), mC('b'))
		b.vclose = true
		return b
	case 16:
		return mRp(mS("a"), 1, 2)
	case 17:
		return mGr(mCh([]int{1, 1}, mS("a"), mC('b')))
	case 18:
		return mRf("rs")
	case 19:
		return mRf("ro")
	case 20:
		return mE()
	case 21:
		return mGr(mCat(mOp(mC('a')), mC('b')))
	case 22:
		return mRp(mGr(mCat(mC('a'), mC('b'))), 0, 0)
	case 23:
		return mOp(mCs("aa"))
	case 24:
		return mRp(mOp(mC('b')), 1, 3)
	case 25:
		b := mBl(mC('a'), mC('b'))
		b.esc = mC('\\')
		return b
	case 26:
		return mRg('\t', ' ')
	case 27: // more space than the text may have
		return mS("  b")
	case 28:
		return mCs(" \nb")
	case 29: // looks further ahead than it matches
		return mOp(mGr(mCat(mC('a'), mC('b'), mC('c'))))
	case 30:
		return mBl(mGr(mCh([]int{2}, mC('a'), mCs("ab"))), mC('b'))
	case 31:
		b := mBl(mOp(mCs("ac")), mGr(mCh([]int{2}, mC('b'), mCs("bbb"))))
		b.exc = []*mR{mCs("ca")}
		return b
	}
	panic("mMenu")
}
