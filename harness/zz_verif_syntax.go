package xbnf

// ---- C28: the syntax of definitions ----

// yP reads a definition by the documented syntax and builds the reference rule for it. Where the
// documentation leaves open what a text means (see skip) nothing is asserted.
type yP struct {
	t    []rune
	i    int
	bad  bool
	skip bool
}

const yEnd = rune(-1)

func (p *yP) peek() rune {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return yEnd
}

func (p *yP) next() rune {
	c := p.peek()
	if p.i < len(p.t) {
		p.i++
	}
	return c
}

func (p *yP) fail() *mR {
	p.bad = true
	return nil
}

func (p *yP) open() *mR { // the meaning is left open
	p.skip = true
	return nil
}

func (p *yP) stop() bool { return p.bad || p.skip }

func (p *yP) spaces() {
	for p.i < len(p.t) && vmIsSpace(p.t[p.i]) {
		if c := p.t[p.i]; c != ' ' && c != '\t' && c != '\n' && c != '\r' {
			p.skip = true // no other space is documented
			return
		}
		p.i++
	}
}

func yMark(c rune) int {
	switch c {
	case '~':
		return mVirtual
	case '#':
		return mNonData
	case '$':
		return mToken
	}
	return 0
}

// seq reads the parts up to a closing character. In a block the parts of the block are separated
// by spaces.
func (p *yP) seq(close rune, block bool, last bool) *mR {
	var parts []*mR
	mk := 0
	p.spaces()
	for !p.stop() {
		c := p.peek()
		if c == yEnd || c == close || block && c == '!' || block && !last && c == ' ' {
			break
		}
		if vmIsSpace(c) {
			if block && c != ' ' {
				return p.open()
			}
			p.spaces()
			continue
		}
		if m := yMark(c); m != 0 {
			mk |= m
			p.next()
			if p.peek() == '|' {
				return p.fail()
			}
			continue
		}
		if c == '|' || c == '>' {
			if mk != 0 || len(parts) == 0 {
				return p.fail()
			}
			if block {
				return p.open()
			}
			parts[len(parts)-1] = p.choice(parts[len(parts)-1])
			continue
		}
		if c == '/' {
			p.next()
			if p.next() != '/' {
				return p.fail()
			}
			for p.peek() != yEnd {
				if p.next() == '\n' {
					return p.open() // a comment in the middle
				}
			}
			break
		}
		r := p.part(mk)
		mk = 0
		parts = append(parts, r)
	}
	if p.stop() {
		return nil
	}
	if len(parts) == 0 {
		return p.fail()
	}
	if mk != 0 {
		return p.open() // an annotation in front of nothing
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mCat(parts...)
}

func (p *yP) choice(first *mR) *mR {
	r := mCh([]int{1}, first)
	for {
		p.spaces()
		if p.stop() {
			return nil
		}
		switch p.peek() {
		case '|':
			r.groups[len(r.groups)-1]++
		case '>':
			r.groups = append(r.groups, 1)
		default:
			return r
		}
		p.next()
		mk := 0
		for {
			p.spaces()
			if p.stop() {
				return nil
			}
			m := yMark(p.peek())
			if m == 0 {
				break
			}
			mk |= m
			p.next()
		}
		if c := p.peek(); c == yEnd || c == '/' {
			return p.fail()
		}
		k := p.part(mk)
		if p.stop() {
			return nil
		}
		r.kids = append(r.kids, k)
	}
}

func (p *yP) part(mk int) *mR {
	c := p.peek()
	var r *mR
	switch {
	case c == '\'' || c == '"' || c == '\\':
		r = p.lit(c)
	case c == '(':
		p.next()
		if k := p.seq(')', false, false); !p.stop() {
			r = mGr(k)
			p.want(')')
		}
	case c == '[':
		p.next()
		if k := p.seq(']', false, false); !p.stop() {
			r = mOp(k)
			p.want(']')
		}
	case c == '{':
		p.next()
		if k := p.seq('}', false, false); !p.stop() {
			p.want('}')
			if !p.stop() {
				r = mRp(k, 0, 0)
				p.bounds(r)
			}
		}
	case c == '<':
		r = p.block()
	case dAlpha(c) || c == '_':
		var n []rune
		for c = p.peek(); c != yEnd && (dAlpha(c) || c == '_' || '0' <= c && c <= '9'); c = p.peek() {
			n = append(n, p.next())
		}
		r = mRf(string(n))
		if string(n) == "EOF" {
			r = mE()
		}
	default:
		return p.fail()
	}
	if p.stop() || r == nil {
		return nil
	}
	r.mk = mk
	return r
}

func (p *yP) want(c rune) {
	if p.next() != c {
		p.bad = true
	}
}

// one reads one character of a literal: ok tells whether there is one before the closing quote.
func (p *yP) one(q rune) (c rune, ok bool) {
	c = p.next()
	if c == yEnd {
		p.bad = true
	}
	if p.bad || c == q {
		return c, false
	}
	if c != '\\' {
		return c, true
	}
	if p.peek() == 'u' {
		return p.code(), !p.bad
	}
	c = p.next()
	if c == yEnd {
		p.bad = true
	}
	return c, !p.bad
}

// code reads a code point from its u on.
func (p *yP) code() rune {
	if p.next() != 'u' {
		p.bad = true
		return 0
	}
	v := 0
	for i := 0; i < 4; i++ {
		d, ok := dHex(p.next())
		if !ok {
			p.bad = true
			return 0
		}
		v = v*16 + d
	}
	if v >= 0xD800 && v <= 0xDFFF {
		p.skip = true
	}
	return rune(v)
}

func (p *yP) lit(q rune) *mR {
	p.next()
	var s []rune
	if q == '\\' {
		s = append(s, p.code())
	} else {
		for {
			c, ok := p.one(q)
			if !ok {
				break
			}
			s = append(s, c)
		}
	}
	if p.stop() {
		return nil
	}
	if q == '"' {
		return &mR{k: mString, lit: s}
	}
	switch len(s) {
	case 0:
		return p.fail()
	case 1:
	default:
		return &mR{k: mChars, lit: s}
	}
	if p.peek() != '-' {
		return &mR{k: mChar, lit: s}
	}
	p.next()
	switch p.next() {
	case '\\':
		s = append(s, p.code())
	case '\'':
		c, ok := p.one('\'')
		if !ok {
			return p.fail()
		}
		s = append(s, c)
		p.want('\'')
	default:
		p.bad = true
	}
	return &mR{k: mRange, lit: s}
}

func (p *yP) bounds(r *mR) {
	switch p.peek() {
	case '*':
		p.next()
	case '+':
		r.min = 1
		p.next()
	case '<':
		p.next()
		min, a := p.number()
		if p.stop() {
			return
		}
		max, b := 0, 0
		c := p.next()
		if c == ',' {
			max, b = p.number()
			if p.stop() {
				return
			}
			if c = p.next(); c == ',' {
				c = yEnd
			}
		}
		if c != '>' {
			p.bad = true
			return
		}
		if a == 0 && b == 0 || b > 0 && max == 0 {
			p.skip = true // no bound at all, or a maximum of zero
			return
		}
		if b > 0 && max < min {
			p.bad = true
		}
		r.min, r.max = min, max
	}
}

// number reads the digits of a bound and the spaces around them.
func (p *yP) number() (v int, n int) {
	sp := func() {
		for p.peek() == ' ' {
			p.next()
		}
		if c := p.peek(); c != yEnd && vmIsSpace(c) {
			p.skip = true
		}
	}
	sp()
	for c := p.peek(); '0' <= c && c <= '9'; c = p.peek() {
		v = v*10 + int(p.next()-'0')
		n++
	}
	sp()
	if n > 6 || p.peek() >= '0' && p.peek() <= '9' {
		p.skip = true
	}
	return
}

func (p *yP) block() *mR {
	p.next()
	b := mBl(nil, nil)
	if b.kids[0] = p.seq('>', true, false); p.stop() {
		return nil
	}
	p.spaces()
	if p.stop() {
		return nil
	}
	if p.peek() != '^' {
		r := p.seq('>', true, false)
		if p.stop() {
			return nil
		}
		p.spaces()
		if c := p.peek(); c == '>' || c == '!' {
			b.kids[1] = r
			return p.closing(b)
		}
		b.esc = r
	}
	for {
		p.spaces()
		if p.stop() || p.peek() != '^' {
			break
		}
		p.next()
		x := p.seq('>', true, false)
		if p.stop() {
			return nil
		}
		b.exc = append(b.exc, x)
	}
	if p.stop() {
		return nil
	}
	if b.kids[1] = p.seq('>', true, true); p.stop() {
		return nil
	}
	return p.closing(b)
}

func (p *yP) closing(b *mR) *mR {
	c := p.next()
	if c == '!' {
		b.vclose = true
		p.spaces()
		c = p.next()
	}
	if c != '>' {
		return p.fail()
	}
	return b
}

// yRead is the reference rule for a definition, or nil if it is malformed. A definition whose
// meaning is left open is not considered any further.
func yRead(def []rune) *mR {
	for len(def) > 0 && vmIsSpace(def[len(def)-1]) {
		def = def[:len(def)-1]
	}
	for len(def) > 0 && vmIsSpace(def[0]) {
		def = def[1:]
	}
	p := &yP{t: def}
	r := p.seq(yEnd, false, false)
	if p.skip {
		vAssume(false)
	}
	if !p.bad && p.i < len(p.t) {
		p.bad = true
	}
	if p.bad {
		return nil
	}
	return r
}

var yG = mAux(&mG{}).add("x", mS("x"))

// yCheck has the definition read and compares what it accepts with the reference.
func yCheck(def []rune, n int) {
	want := yRead(def)
	g := mGrammar(yG)
	rule := dTry(g, def)
	if want == nil {
		vAssert(rule == nil, "a malformed definition is accepted")
		vReach("rejected")
		return
	}
	vAssert(rule != nil, "a well formed definition is rejected")
	if rule == nil {
		return
	}
	vReach("accepted")
	t := vRunes(vChoose(n + 1))
	v := mEval(yG, want, "thisrule", t, 0, SUGGEST_SKIP)
	if v.ok {
		vReach("match")
	}
	mCompare(t, rule.Eval(g, NewCharstreamFromString(string(t)), SUGGEST_SKIP), v, 0, mTREE|mMARK)
	vObserve("rule", v.end)
}

// VC28_Any: arbitrary definition texts.
//
//verif:prop C28
//verif:quick n=3 t=1
//verif:quick n=4 t=0
//verif:thorough n=5 t=1
//verif:thorough n=6 t=0
//verif:reach accepted rejected match
func VC28_Any() {
	yCheck(vRunes(vChoose(vParam("n", 3)+1)), vParam("t", 1))
}

// VC28_Holes: definitions with unknown characters in critical places.
//
//verif:prop C28
//verif:quick t=1
//verif:thorough t=3
//verif:reach accepted rejected match
func VC28_Holes() {
	yCheck(dFill(dHoles[vChoose(len(dHoles))]), vParam("t", 1))
}

// yBases are well formed definitions, cut into pieces.
var yBases = [][]string{
	{"'a'", " ", "|", " ", "'ab'", " ", "\"b\""},
	{"\"a\"", "|", "'b'", ">", "ra", "|", "'c'"},
	{"(", "'a'", " ", "'b'", ")", "|", "'ab'"},
	{"[", "'a'", "]", " ", "'b'"},
	{"{", "'a'", "}", "+", " ", "'b'"},
	{"{", "\"a\"", "|", "'b'", "}", "<", "1", ",", "2", ">"},
	{"<", "'a'", " ", "'b'", ">", "'c'"},
	{"<", "'a'", " ", "'\\\\'", " ", "^", "'c'", " ", "'b'", ">"},
	{"<", "'a'", " ", "^", "'c'", "'a'", " ", "'b'", "!", ">", " ", "'b'"},
	{"~", "'a'", " ", "#", "$", "\"b\"", "|", "~", "'b'"},
	{"'a'", "-", "'c'", " ", "\\u0061", "-", "\\u0062", "|", "~", "\\u0063"},
	{"ra", " ", "EOF", " ", "// c"},
	{"[", "{", "(", "'a'", ")", "}", "]", "'b'"},
	{"<", "(", "'a'", "|", "'b'", ")", " ", "[", "'c'", "]", "'b'", ">"},
}

var yPieces = []string{" ", "(", ")", "[", "]", "{", "}", "<", ">", "!", "^", "|", "~", "#", "'a'", "'", "\"", "-", "+", "*", ",", "1", "x", "//", "\n", "\t"}

// yEdit is a well formed definition with some pieces taken out, put in, exchanged or replaced.
func yEdit(edits int) []rune {
	ps := append([]string(nil), yBases[vChoose(len(yBases))]...)
	for e := edits; e > 0; e-- {
		i := vChoose(len(ps))
		switch vChoose(5) {
		case 0: // as it is
			e = 0
		case 1:
			ps = append(ps[:i:i], ps[i+1:]...)
		case 2:
			x := yPieces[vChoose(len(yPieces))]
			ps = append(append(ps[:i:i], x), ps[i:]...)
		case 3:
			j := (i + 1) % len(ps)
			ps[i], ps[j] = ps[j], ps[i]
		case 4:
			ps[i] = yPieces[vChoose(len(yPieces))]
		}
		if len(ps) == 0 {
			break
		}
	}
	var def []rune
	for _, s := range ps {
		def = append(def, []rune(s)...)
	}
	return def
}

// VC28_Edits: well formed definitions with a piece taken out, put in, exchanged or replaced.
//
//verif:prop C28
//verif:quick t=1
//verif:quick t=2 two=1
//verif:thorough t=3
//verif:thorough t=2 two=1
//verif:weight 3
//verif:reach accepted rejected match
func VC28_Edits() {
	yCheck(yEdit(vParam("two", 0)+1), vParam("t", 1))
}

// VC18_Edits: whatever is accepted of these is printed and read again.
//
//verif:prop C18
//verif:quick t=2
//verif:thorough t=3
//verif:thorough t=2 two=1
//verif:weight 2
//verif:reach match
func VC18_Edits() {
	def := yEdit(vParam("two", 0) + 1)
	g := mGrammar(yG)
	rule := dTry(g, def)
	if rule == nil {
		vAssume(false)
	}
	dAgain(g, rule, "rule2", mText(vParam("t", 2)))
}

// VC15_Trailing: an annotation with no part behind it, and a comment, mark nothing.
//
//verif:prop C15
//verif:quick n=2
//verif:thorough n=3
//verif:reach match
func VC15_Trailing() {
	body := []string{"'a'", "~'a'", "#'a' 'b'", "'a' $['b']", "x 'b'", "~x", "('a' 'b')", "{#'a'}", "<'a' 'b'>", "'a'|~\"b\""}[vChoose(10)]
	def := body + []string{"", " ", " ~", " #", "~#", " $ ~ "}[vChoose(6)] + []string{"", "// c", " // ~ 'b'", "//"}[vChoose(4)]
	want := yRead([]rune(body))
	g := mGrammar(yG)
	rule := dTry(g, []rune(def))
	if rule == nil { // not claimed: whether an annotation at the end is malformed
		vAssume(false)
	}
	t := vRunes(vChoose(vParam("n", 2) + 1))
	v := mEval(yG, want, "thisrule", t, 0, SUGGEST_SKIP)
	if v.ok {
		vReach("match")
	}
	mCompare(t, rule.Eval(g, NewCharstreamFromString(string(t)), SUGGEST_SKIP), v, 0, mTREE|mMARK)
	vObserve("end", v.end)
}

// VC15_Spelled: annotations in front of every way of writing a part, in every place, with or
// without spaces after them and written more than once.
//
//verif:prop C15
//verif:quick n=1
//verif:thorough n=3
//verif:weight 2
//verif:reach match
func VC15_Spelled() {
	part := []string{"'a'", "'ab'", "\"a\"", "'a'-'b'", "\\u0061", "\\u0061-'b'", "'a'-\\u0062", "'\\u0061'", "['a']", "{'a'}", "{'a'}+", "('a')",
		"<'a' 'b'>", "<'a' \"\" !>", "x", "EOF"}[vChoose(16)]
	mark := []string{"", "~", "#", "$", "~#", "$ ~", "# #", "~\t$\n#"}[vChoose(8)]
	place := vChoose(14)
	if place >= 11 && (mark == "$ ~" || mark == "# #" || mark == "~\t$\n#") {
		vAssume(false) // spaces separate the parts of a block
	}
	pre, post := "", ""
	switch place {
	case 0:
		post = " ['b']"
	case 1:
		pre, post = "['b']", " 'b'"
	case 2:
		post = "|'bb'"
	case 3:
		pre = "'bb'|"
	case 4:
		pre, post = "'bb' > ", " > 'c'"
	case 5:
		pre, post = "['c']  'bb' | 'c' | ", " ['c']"
	case 6:
		pre, post = "[ ", " ]"
	case 7:
		pre, post = "{", "}<1, 2>"
	case 8:
		pre, post = "(", ")"
	case 9:
		pre, post = "~'b' | (", " #['c'])"
	case 10:
		pre, post = "$['b'] ", ""
	case 11:
		pre, post = "<", " 'b'>"
	case 12:
		pre, post = "<'b' ", ">"
	case 13:
		pre, post = "<'b' ^'c' ", "!>"
	}
	def := []rune(pre + mark + part + post)
	want := yRead(def)
	g := mGrammar(yG)
	rule := dTry(g, def)
	vAssert(want != nil && rule != nil, "a well formed definition is rejected")
	if rule == nil || want == nil {
		return
	}
	t := mText(1)
	if vBool() {
		t = append([]rune{'a'}, t...)
	} else {
		t = append([]rune{'b'}, t...)
	}
	v := mEval(yG, want, "thisrule", t, 0, SUGGEST_SKIP)
	if v.ok {
		vReach("match")
	}
	mCompare(t, rule.Eval(g, NewCharstreamFromString(string(t)), SUGGEST_SKIP), v, 0, mMARK)
	vObserve("rule", v.end)
}
