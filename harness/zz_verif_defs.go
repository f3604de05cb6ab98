package xbnf

// Harnesses for reading and printing definitions: C16 to C20.

import "strings"

// dTry reads a definition; the rule name cannot be referred to by the definitions tried here, so
// nothing is left recursive.
func dTry(g *Grammar, def []rune) IRule {
	rule, err := g.ParseRule("thisrule", string(def))
	vAssert((rule != nil) == (err == nil), "neither a rule nor an error, or both")
	if err != nil {
		return nil
	}
	return rule
}

// dUse prints, describes and evaluates an accepted rule.
func dUse(g *Grammar, rule IRule, t []rune) {
	rule.String()
	rule.StringWithIndent("  ")
	rule.Name()
	rule.IsVirtual()
	rule.IsNonData()
	rule.IsTokenized()
	g.Validate()
	g.Serialize(true)
	if t != nil {
		res := rule.Eval(g, NewCharstreamFromString(string(t)), SUGGEST_SKIP)
		res.StringTree(nil)
		if res.Error != nil {
			_ = res.Error.Error()
		}
		g.Eval(NewCharstreamFromString(string(t)), LevelBasic)
	}
}

// dTokens are the pieces definitions are put together from.
var dTokens = []string{"'a'", "'a", "\"b\"", "x", " ", "(", ")", "[", "]", "{", "}", "<", ">", "!", "^", "|", "~", "$",
	"-", "'", "\"", "\\", "\\u0061", "+", "*", "1", ",", "EOF", "//", "\n", "#", "_", "=", ";"}

// VC16_Any: arbitrary definition texts.
//
//verif:prop C16
//verif:quick n=4
//verif:thorough n=5
//verif:thorough n=6
//verif:weight 2
//verif:reach accepted rejected
func VC16_Any() {
	def := vRunes(vChoose(vParam("n", 3) + 1))
	g := NewGrammar()
	rule := dTry(g, def)
	if rule == nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	dUse(g, rule, []rune("a"))
	vObserve("rule", len(rule.String()))
}

// VC16_Tokens: all definitions of a number of pieces.
//
//verif:prop C16
//verif:quick k=3 m=34
//verif:thorough k=4 m=34
//verif:thorough k=5 m=17
//verif:reach accepted rejected
func VC16_Tokens() {
	var def []rune
	for i := vChoose(vParam("k", 3)) + 1; i > 0; i-- {
		def = append(def, []rune(dTokens[vChoose(vParam("m", 34))])...)
	}
	g := NewGrammar()
	g.ParseRule("x", "\"x\"")
	rule := dTry(g, def)
	if rule == nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	dUse(g, rule, []rune("a a"))
	vObserve("rule", len(rule.String()))
}

// dHoles are definitions with holes for symbolic characters (written as a tilde-free '@').
var dHoles = []string{"'@@'", "\"@@\"", "'\\u00@@'", "\\u00@@", "'a'@'b'", "'a'-@@", "'a'-'@@", "{'a'}@@", "{'a'}<@@>", "{'a'}<1@@>", "{'a'}<1,@@",
	"<'a'@'b'>", "<'a' @@'b'>", "<'a' 'b'@@", "<'a' '\\\\' @'c' 'b'@>", "('a' @@ 'b')", "['a'@@", "'a' @ 'b' @ 'c'", "'a' |@@", "@ 'a' |'b'", "(@'a')@",
	"{@'a' | 'b'@}", "<(@'a') ('b')@>", "x@@", "EOF@@", "'a' /@@", "@@'a'", "{{'a'}@}@", "[['a']@]@", "<<'a' 'b'>@'c'>", "#@~@'a'", "{'a'}<@,@>"}

// dFill fills the holes of a definition with symbolic characters.
func dFill(s string) []rune {
	var out []rune
	for _, c := range s {
		if c == '@' {
			c = vRune()
		}
		out = append(out, c)
	}
	return out
}

// VC16_Holes: definitions with two unknown characters in critical places.
//
//verif:prop C16
//verif:quick
//verif:reach accepted rejected
func VC16_Holes() {
	def := dFill(dHoles[vChoose(len(dHoles))])
	g := NewGrammar()
	g.ParseRule("x", "\"x\"")
	rule := dTry(g, def)
	if rule == nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	dUse(g, rule, []rune("ab"))
	vObserve("rule", len(rule.String()))
}

// dShapes are rules of all kinds with places for the rules they are made of.
var dShapes = []string{"(@)", "[@]", "{@}", "{@}<2>", "{@}<1,>", "{@}<,2>", "@ @", "@ | @", "@ > @", "<@ @>", "<@ @ @!>", "<@ ^@ @>", "<@ ^@ ^@ @!>", "<@ @ ^@ @>",
	"~@", "#@", "$@", "(@ | @)", "[@ > @]", "{@ @}<1>"}

var dLeaves = []string{"'a'", "\"b\"", "x", "'a'-'c'", "EOF"}

// dShape is a rule of up to d levels; one place, any, holds the deeper rule.
func dShape(d int) string {
	if d == 0 {
		return dLeaves[vChoose(vParam("leaves", 3))]
	}
	s := dShapes[vChoose(vParam("shapes", 20))]
	n := 0
	for _, c := range s {
		if c == '@' {
			n++
		}
	}
	deep := vChoose(n)
	out := ""
	i := 0
	for _, c := range s {
		if c != '@' {
			out += string(c)
			continue
		}
		if i == deep {
			out += dShape(d - 1)
		} else {
			out += dLeaves[i%2]
		}
		i++
	}
	return out
}

// VC16_Shapes: nested rules of all kinds, with all optional parts there or not.
//
//verif:prop C16
//verif:quick d=2 n=1
//verif:thorough d=2 n=2 leaves=5
//verif:thorough d=3 n=1
//verif:reach accepted rejected
func VC16_Shapes() {
	def := dShape(vParam("d", 2))
	g := NewGrammar()
	g.ParseRule("x", "\"x\"")
	rule := dTry(g, []rune(def))
	if rule == nil {
		vReach("rejected")
		return
	}
	vReach("accepted")
	dUse(g, rule, append([]rune("a"), vRunes(vParam("n", 1))...))
	vObserve("rule", len(rule.String()))
}

// VC16_Grammar: arbitrary grammar texts.
//
//verif:prop C16
//verif:quick n=3
//verif:thorough n=4
//verif:reach accepted rejected
func VC16_Grammar() {
	n := vParam("n", 3)
	var text []rune
	switch vChoose(6) {
	case 0:
		text = vRunes(vChoose(n + 1))
	case 1:
		text = dFill("a@@'b'")
	case 2:
		text = dFill("a='b'@@")
	case 3:
		text = dFill("@a = 'b'\n@ = 'c'")
	case 4:
		text = dFill("a = b\nb = @@")
	case 5:
		text = dFill("a = @b\n//@\n@b = \"c\"")
	}
	g, err := NewGrammarFromString(string(text))
	vAssert((g != nil) == (err == nil), "neither a grammar nor an error, or both")
	if err != nil {
		vReach("rejected")
		_ = err.Error()
		return
	}
	vReach("accepted")
	g.Serialize(true)
	g.Serialize(false)
	g.EvalRaw(NewCharstreamFromString(""))
	g.StringRuleRelation("%s")
	vObserve("accepted")
}

// ---- C17 ----

// dLiteral is the meaning of the characters between two quotes: ok tells whether they are well formed,
// and closed whether the literal extends exactly to their end.
func dLiteral(q rune, s []rune) (lit []rune, ok bool) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == q {
			return nil, false
		}
		if c != '\\' {
			lit = append(lit, c)
			continue
		}
		i++
		if i == len(s) {
			return nil, false
		}
		if s[i] != 'u' {
			lit = append(lit, s[i])
			continue
		}
		v := 0
		for k := 0; k < 4; k++ {
			i++
			if i == len(s) {
				return nil, false
			}
			d, ok := dHex(s[i])
			if !ok {
				return nil, false
			}
			v = v*16 + d
		}
		lit = append(lit, rune(v))
	}
	return lit, true
}

func dHex(c rune) (int, bool) {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0'), true
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10, true
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10, true
	}
	return 0, false
}

func dSurrogate(lit []rune) bool {
	for _, c := range lit {
		if c >= 0xD800 && c <= 0xDFFF {
			return true
		}
	}
	return false
}

// dMeans asserts that the rule matches exactly the given text: the text itself, and no text of the
// same length that differs.
func dMeans(g *Grammar, rule IRule, lit []rune) {
	res := rule.Eval(g, NewCharstreamFromString(string(lit)+"z"), NOT_SKIP)
	vAssert(res.Node != nil, "a literal does not match its text")
	if res.Node != nil {
		vAssert(vmSameRunes(res.Node.Chars, lit), "a literal stands for other characters")
		vAssert(mUsed(res) == len(lit), "a literal consumes another number of characters")
	}
	if len(lit) == 0 {
		return
	}
	t := vRunes(len(lit))
	same := true
	for i := range t {
		same = vAnd(same, t[i] == lit[i])
	}
	if same {
		vAssume(false)
	}
	res = rule.Eval(g, NewCharstreamFromString(string(t)), NOT_SKIP)
	vAssert(res.Node == nil, "a literal matches another text")
}

// VC17_Quoted: quoted literals with any characters between the quotes.
//
//verif:prop C17
//verif:quick n=6
//verif:thorough n=7
//verif:thorough n=8
//verif:weight 2
//verif:reach accepted rejected char chars string
func VC17_Quoted() {
	q := []rune{'\'', '"'}[vChoose(2)]
	s := vRunes(vChoose(vParam("n", 4) + 1))
	dQuoted(q, s)
}

func dQuoted(q rune, s []rune) {
	def := append(append([]rune{q}, s...), q)
	lit, ok := dLiteral(q, s)
	// a quote between the quotes ends the literal there: something else is defined
	for i, esc := 0, false; i < len(s); i++ {
		if s[i] == q && !esc {
			vAssume(false)
		}
		esc = !esc && s[i] == '\\'
	}
	if q == '\'' && len(lit) == 0 {
		ok = false // no character at all
	}
	if ok && dSurrogate(lit) {
		vAssume(false)
	}
	g := NewGrammar()
	rule := dTry(g, def)
	vAssert((rule != nil) == ok, "a well formed literal is rejected or a malformed one accepted")
	if rule == nil || !ok {
		vReach("rejected")
		return
	}
	vReach("accepted")
	switch {
	case q == '"':
		vReach("string")
	case len(lit) > 1:
		vReach("chars")
	default:
		vReach("char")
	}
	dMeans(g, rule, lit)
	vObserve("lit", len(lit))
}

// VC17_Escapes: the four digits of code point escapes, inside literals and on their own.
//
//verif:prop C17
//verif:quick
//verif:reach accepted bare
func VC17_Escapes() {
	g := NewGrammar()
	switch vChoose(4) {
	case 0:
		dQuoted('\'', append([]rune("\\u"), vRunes(4)...))
	case 1:
		dQuoted('"', append([]rune("\\u"), append(vRunes(4), 'x')...))
	case 2:
		dQuoted('"', append([]rune("\\\\u"), vRunes(2)...))
	case 3: // on its own, with whatever follows
		s := append([]rune("\\u"), vRunes(4)...)
		lit, ok := dLiteral('"', s)
		for _, c := range s[2:] {
			if c == '"' {
				ok = false
			}
		}
		if ok && dSurrogate(lit) {
			vAssume(false)
		}
		rule := dTry(g, s)
		vAssert((rule != nil) == ok, "a well formed code point is rejected or a malformed one accepted")
		if rule != nil && ok {
			vReach("bare")
			dMeans(g, rule, lit)
		}
	}
}

// VC17_Range: the ends of ranges follow the same rules.
//
//verif:prop C17
//verif:quick n=2
//verif:thorough n=3
//verif:reach accepted rejected
func VC17_Range() {
	// one end is fixed, the other made of any characters in one of three forms
	form := vChoose(4)
	var end []rune
	var lit []rune
	ok := true
	switch form {
	case 0: // quoted
		s := vRunes(vChoose(vParam("n", 2) + 1))
		for i, esc := 0, false; i < len(s); i++ {
			if s[i] == '\'' && !esc {
				vAssume(false)
			}
			esc = !esc && s[i] == '\\'
		}
		end = append(append([]rune{'\''}, s...), '\'')
		lit, ok = dLiteral('\'', s)
	case 1: // quoted code point
		s := append([]rune("\\u00"), vRunes(2)...)
		end = append(append([]rune{'\''}, s...), '\'')
		lit, ok = dLiteral('\'', s)
	case 2: // code point on its own
		end = append([]rune("\\u00"), vRunes(2)...)
		lit, ok = dLiteral('\'', end)
	case 3: // not quoted
		end = vRunes(1)
		ok = false
	}
	ok = ok && len(lit) == 1
	first := vBool()
	var def []rune
	if first {
		if form == 0 && len(lit) != 1 || form == 3 {
			vAssume(false)
		}
		def = append(append(append(def, end...), '-'), []rune("'~'")...)
	} else {
		def = append(append(def, []rune("'!'-")...), end...)
	}
	if ok && (lit[0] >= 0xD800 && lit[0] <= 0xDFFF) {
		vAssume(false)
	}
	g := NewGrammar()
	rule := dTry(g, def)
	vAssert((rule != nil) == ok, "a well formed range is rejected or a malformed one accepted")
	if rule == nil || !ok {
		vReach("rejected")
		return
	}
	vReach("accepted")
	lo, hi := '!', lit[0]
	if first {
		lo, hi = lit[0], '~'
	}
	c := vRune()
	res := rule.Eval(g, NewCharstreamFromString(string([]rune{c})), NOT_SKIP)
	vAssert((res.Node != nil) == vAnd(lo <= c, c <= hi), "a range matches the wrong characters")
}

// VC17_Open: literals without an end.
//
//verif:prop C17
//verif:quick n=3
//verif:thorough n=5
//verif:reach rejected
func VC17_Open() {
	q := []rune{'\'', '"'}[vChoose(2)]
	s := vRunes(vChoose(vParam("n", 3) + 1))
	for i, esc := 0, false; i < len(s); i++ {
		if s[i] == q && !esc {
			vAssume(false)
		}
		esc = !esc && s[i] == '\\'
	}
	rule := dTry(NewGrammar(), append([]rune{q}, s...))
	vAssert(rule == nil, "a literal without an end is accepted")
	vReach("rejected")
}

// ---- C18 ----

// dAgain prints a rule, reads it again and compares the two on a text.
func dAgain(g *Grammar, rule IRule, name string, t []rune) {
	s := rule.String()
	again, err := g.ParseRule(name, s)
	vAssert(err == nil, "the printed definition is rejected")
	if err != nil {
		return
	}
	vAssert(again.String() == s, "the rule read back prints differently")
	vAssert(again.IsVirtual() == rule.IsVirtual() && again.IsNonData() == rule.IsNonData() && again.IsTokenized() == rule.IsTokenized(),
		"the rule read back has other annotations")
	flag := []int{SUGGEST_SKIP, NOT_SKIP}[vChoose(vParam("modes", 1))]
	a := rule.Eval(g, NewCharstreamFromString(string(t)), flag)
	b := again.Eval(g, NewCharstreamFromString(string(t)), flag)
	vAssert((a.Node == nil) == (b.Node == nil), "the rule read back matches other texts")
	if a.Node != nil && b.Node != nil {
		vReach("match")
		vAssert(mUsed(a) == mUsed(b), "the rule read back consumes another amount")
		vAssert(vmSameRunes(tJoin(a.Node), tJoin(b.Node)), "the rule read back matches other characters")
		vAssert(a.Sticky == b.Sticky, "the rule read back has another stickiness")
		vAssert(dMarks(a.Node) == dMarks(b.Node), "annotations are lost in the definition printed")
	}
	vObserve("print", len(s))
}

// dMarks counts the marks on the leaves and named nodes of a tree (groups may be added by printing).
func dMarks(n *Node) int {
	c := 0
	if n.Virtual {
		c++
	}
	if n.NonData {
		c += 100
	}
	if n.Tokenized {
		c += 10000
	}
	for _, k := range n.ChildNodes {
		c += dMarks(k)
	}
	return c
}

func dGrammar() *Grammar {
	return mGrammar(mAux(&mG{}))
}

// VC18_Shapes: rules of every shape.
//
//verif:prop C18
//verif:quick n=2 m=26
//verif:thorough n=3 m=26 modes=2
//verif:thorough n=4 m=16
//verif:weight 3
//verif:reach match
func VC18_Shapes() {
	g := dGrammar()
	r := tShape(vParam("m", 26))
	rule, err := g.ParseRule("rule1", string(mDef(r)))
	vAssert(err == nil, "a valid rule is rejected")
	if err != nil {
		return
	}
	dAgain(g, rule, "rule2", mText(2))
}

// VC18_Nested: rules inside rules inside rules, with annotations.
//
//verif:prop C18
//verif:quick n=2
//verif:thorough n=2 modes=2 in=6
//verif:thorough n=3 in=6
//verif:weight 3
//verif:reach match
func VC18_Nested() {
	g := dGrammar()
	var r *mR
	base := func() *mR {
		return []*mR{mC('a'), mS("b"), mRg('a', 'b'), mRf("ra"), mCs("ab"), mE()}[vChoose(vParam("in", 3))]
	}
	r = base()
	for i := 0; i < 2; i++ {
		mk := []int{0, mVirtual, mNonData | mToken, 7}[vChoose(4)]
		if mk != 0 {
			r = r.mark(mk)
		}
		switch vChoose(8) {
		case 0:
			r = mGr(r)
		case 1:
			r = mOp(r)
		case 2:
			b := vChoose(6)
			r = mRp(r, []int{0, 0, 1, 2, 2, 0}[b], []int{0, 1, 0, 0, 2, 2}[b])
		case 3:
			r = mGr(mCat(r, mS("b")))
		case 4:
			r = mGr(mCh([]int{2}, r, mCs("bb")))
		case 5:
			r = mGr(mCh([]int{1, 2}, r, mCs("bb"), mC('c')))
		case 6:
			r = mBl(mGr(r), mC('b'))
			r.vclose = vBool()
		case 7:
			b := mBl(mC('a'), mGr(r))
			b.esc = mC('\\')
			b.exc = []*mR{mC('\n')}
			r = b
		}
	}
	rule, err := g.ParseRule("rule1", string(mDef(r)))
	vAssert(err == nil, "a valid rule is rejected")
	if err != nil {
		return
	}
	dAgain(g, rule, "rule2", mText(2))
}

// VC18_Literals: literals with any characters.
//
//verif:prop C18
//verif:quick n=3
//verif:thorough n=4 modes=2
//verif:thorough n=5
//verif:reach match
func VC18_Literals() {
	g := NewGrammar()
	n := vParam("n", 2)
	var r *mR
	switch vChoose(5) {
	case 0:
		r = &mR{k: mChar, lit: vRunes(1)}
	case 1:
		r = &mR{k: mChars, lit: vRunes(2 + vChoose(n-1))}
	case 2:
		r = &mR{k: mString, lit: vRunes(vChoose(n + 1))}
	case 3:
		r = &mR{k: mRange, lit: vRunes(2)}
	case 4: // inside a block
		r = mBl(&mR{k: mChar, lit: vRunes(1)}, &mR{k: mString, lit: vRunes(1)})
	}
	rule, err := g.ParseRule("rule1", string(mDef(r)))
	vAssert(err == nil, "a valid rule is rejected")
	if err != nil {
		return
	}
	t := vRunes(n)
	if r.k == mBlock {
		t = append(append(append([]rune(nil), r.kids[0].lit...), t...), r.kids[1].lit...)
	}
	dAgain(g, rule, "rule2", t)
}

// VC18_Escapes: literals written with escapes.
//
//verif:prop C18
//verif:quick
//verif:reach match
func VC18_Escapes() {
	g := NewGrammar()
	def := dFill([]string{"'\\@'", "\"\\@a\"", "'\\u00@@'", "\\u00@@", "'\\u00@@x'", "'a'-\\u00@@", "\\u00@@-'z'", "\"\\u00@@\"", "'\\@'-'\\@'",
		"'\\u00@@'-'\\u00ff'", "<'\\@' '\\u005c' '\\@'>", "\\u00@@-\\u0100"}[vChoose(12)])
	rule := dTry(g, def)
	if rule == nil {
		vAssume(false)
	}
	dAgain(g, rule, "rule2", vRunes(2))
}

// VC18_Texts: whatever definition text is accepted.
//
//verif:prop C18
//verif:quick n=3 k=3
//verif:thorough n=4 k=4
//verif:reach match
func VC18_Texts() {
	g := NewGrammar()
	g.ParseRule("x", "\"x\"")
	var def []rune
	switch vChoose(3) {
	case 0:
		def = vRunes(vParam("n", 3))
	case 1:
		for i := vChoose(vParam("k", 3)) + 1; i > 0; i-- {
			def = append(def, []rune(dTokens[vChoose(len(dTokens))])...)
		}
	case 2:
		def = dFill(dHoles[vChoose(len(dHoles))])
	}
	rule := dTry(g, def)
	if rule == nil {
		vAssume(false)
	}
	dAgain(g, rule, "rule2", []rune("ab"))
}

// ---- C19 ----

// dAlpha tells whether c is a letter or underscore or digit a name may consist of.
func dAlpha(c rune) bool { return vOr(vAnd('a' <= c, c <= 'z'), vAnd('A' <= c, c <= 'Z')) }

func dNameOK(n []rune) bool {
	if len(n) == 0 || !dAlpha(n[0]) {
		return false
	}
	for _, c := range n[1:] {
		if !vOr(dAlpha(c), vOr(c == '_', vAnd('0' <= c, c <= '9'))) {
			return false
		}
	}
	return true
}

// VC19_Names: every name of up to n characters, given to both ways of adding a rule.
//
//verif:prop C19
//verif:quick n=4
//verif:thorough n=5
//verif:reach valid invalid referred
func VC19_Names() {
	name := vRunes(vChoose(vParam("n", 3) + 1))
	g := NewGrammar()
	ok := dNameOK(name)
	var rule IRule
	var err error
	if vBool() {
		rule, err = g.ParseRule(string(name), "'q'")
	} else {
		// white space around the name is not part of it, and the first equal sign ends it
		for _, c := range name {
			if c == '=' {
				vAssume(false)
			}
		}
		if len(name) > 0 && (vmIsSpace(name[0]) || vmIsSpace(name[len(name)-1])) {
			vAssume(false)
		}
		rule, err = g.AddRule(" " + string(name) + "\t= 'q'")
	}
	vAssert((err == nil) == ok, "an invalid name is accepted or a valid one rejected")
	vAssert((rule != nil) == (err == nil), "neither a rule nor an error, or both")
	vAssert((g.GetRule(string(name)) != nil) == ok && (g.GetRecord(string(name)) != nil) == ok, "a rule is known that was not accepted, or the other way round")
	vAssert(g.Validate() == nil, "a grammar without references is not valid")
	_, perr := g.EvalRaw(NewCharstreamFromString("q"))
	vAssert((perr == nil) == ok, "the rule is not a root, or there is a root that was not accepted")
	if !ok {
		vReach("invalid")
		return
	}
	vReach("valid")
	vAssert(rule.Name() == string(name), "a rule has another name than it was given")
	_, err = g.ParseRule(string(name), "'z'")
	vAssert(err != nil, "a name is defined twice")
	vAssert(g.GetRule(string(name)) == rule, "a rejected definition replaces the rule")
	_, err = g.AddRule(string(name) + "='z'")
	vAssert(err != nil && g.GetRule(string(name)) == rule, "a name is defined twice")
	if vm := string(name); vm == "EOF" || vm == "user" {
		return // the predefined name stands for the end of the text
	}
	_, err = g.ParseRule("user", "'u' "+string(name))
	vAssert(err == nil, "a reference to a rule is rejected")
	vAssert(g.Validate() == nil, "a grammar is not valid whose references are defined")
	_, perr = g.EvalRaw(NewCharstreamFromString("q"))
	vAssert(perr != nil, "a rule that is referred to is tried as a root")
	_, perr = g.EvalRaw(NewCharstreamFromString("uq"))
	vAssert(perr == nil, "a reference does not stand for the rule of its name")
	vReach("referred")
}

type dOp struct {
	name string
	def  string
	refs string // one letter for each name referred to
	ok   bool
}

// dOps are additions to a grammar; the text of a rule starts with its name, and all references are optional.
var dOps = []dOp{
	{"a", "\"a\"", "", true},
	{"a", "\"a\" [b]", "b", true},
	{"a", "\"a\" {a | b}", "ab", true},
	{"b", "\"b\"", "", true},
	{"b", "\"b\" [<(c) 'x'>]", "c", true},
	{"b", "\"b\" [a] [c] [a]", "ac", true},
	{"c", "\"c\" [EOF]", "", true},
	{"c", "\"c\" [b > d]", "bd", true},
	{"a", "\"a\" [b", "b", false},
	{"c", "\"c\" | ", "", false},
	{"d", "\"d\" (c ')", "c", false},
	{"b", "", "", false},
	{"b", "\"b\" [c] [c] ~ > a", "c", false},
	{"d", "\"d\" [a]", "a", true},
	{"d", "\"d\" {[c]<}", "c", false},
	{"1a", "\"a\" [b]", "b", false},
	{"a", "\"a\" [a] [b] [a", "ab", false},
}

// VC19_Add: sequences of additions and validations.
//
//verif:prop C19
//verif:quick k=2 m=17 order=1
//verif:quick k=3 m=17
//verif:thorough k=3 m=17 order=1
//verif:thorough k=4 m=17
//verif:thorough k=5 m=12
//verif:weight 3
//verif:reach added rejected twice valid undefined
func VC19_Add() {
	g := NewGrammar()
	names := []string{"a", "b", "c", "d"}
	def := map[string]dOp{}
	rules := map[string]IRule{}
	m := vParam("m", 17)
	for i := vParam("k", 3); i > 0; i-- {
		if i < vParam("k", 3) && vBool() {
			g.Validate()
		}
		op := dOps[vChoose(m)]
		_, twice := def[op.name]
		var rule IRule
		var err error
		if i == 1 && vBool() {
			rule, err = g.ParseRule(op.name, op.def)
		} else {
			rule, err = g.AddRule(op.name + " = " + op.def)
		}
		vAssert((err == nil) == (op.ok && !twice), "a valid definition is rejected or an invalid one accepted")
		vAssert((rule != nil) == (err == nil), "neither a rule nor an error, or both")
		if op.ok && !twice {
			def[op.name] = op
			rules[op.name] = rule
			vReach("added")
		} else if twice {
			vReach("twice")
		} else {
			vReach("rejected")
		}
	}
	used := map[byte]bool{}
	for _, n := range names {
		op, ok := def[n]
		vAssert((g.GetRule(n) != nil) == ok, "a rule is known that was not accepted, or the other way round")
		if ok {
			vAssert(g.GetRule(n) == rules[n] && rules[n].Name() == n, "a rule is replaced")
		}
		for j := 0; j < len(op.refs); j++ {
			used[op.refs[j]] = true
		}
	}
	undefined := ""
	for _, n := range names {
		if _, ok := def[n]; used[n[0]] && !ok {
			undefined += n
		}
	}
	vMapOrder(vParam("order", 0) == 1)
	err := g.Validate()
	vMapOrder(false)
	vAssert((err != nil) == (undefined != ""), "validation reports a missing rule that is there, or misses one")
	if err != nil {
		vReach("undefined")
		named := false
		for j := 0; j < len(undefined); j++ {
			if dContains(err.Error(), "'"+undefined[j:j+1]+"'") {
				named = true
			}
		}
		vAssert(named, "validation does not name the missing rule")
		return
	}
	vReach("valid")
	for _, n := range names {
		_, ok := def[n]
		_, perr := g.EvalRaw(NewCharstreamFromString(n))
		vAssert((perr == nil) == (ok && !used[n[0]]), "the roots are not the rules no rule refers to")
	}
	vObserve("rules", len(def))
}

func dContains(s, part string) bool {
	a, b := []rune(s), []rune(part)
	for i := 0; i+len(b) <= len(a); i++ {
		if vmSameRunes(a[i:i+len(b)], b) {
			return true
		}
	}
	return false
}

// ---- C20 ----

func dSpaces(n int) string {
	var out []rune
	for i := vChoose(n + 1); i > 0; i-- {
		c := vRune()
		if !vmIsSpace(c) || c == '\n' {
			vAssume(false)
		}
		out = append(out, c)
	}
	return string(out)
}

// dLine makes a line of a grammar text: what it defines, if anything (name ""), and whether it is valid.
func dLine(m int) (line string, name, def string, ok bool) {
	switch vChoose(4) {
	case 0:
		return dSpaces(vParam("sp", 1)), "", "", true
	case 1:
		return dSpaces(1) + "//" + []string{"", " a = 'x'", string(vRunesLine(1))}[vChoose(3)], "", "", true
	case 2:
		return []string{"a", "a 'x'", "=", "a==", "= 'x'", "1 = 'x'", "a = 'x", "a = // 'x'", "/ a = 'x'", "a, b = 'x'"}[vChoose(10)], "bad", "", false
	default:
		name = []string{"a", "b"}[vChoose(2)]
		def = []string{"'x'", "\"=\"", "'//'", "\"y\" [a]", "b | c", "'z' | \\u003d"}[vChoose(m)]
		line = dSpaces(1) + name + []string{"=", " = ", "\t ="}[vChoose(vParam("eq", 2))] + def
		line += []string{"", " ", " // c = 'd'", "//", "\r"}[vChoose(5)]
		return line, name, def, true
	}
}

func vRunesLine(n int) []rune {
	t := vRunes(n)
	for _, c := range t {
		if c == '\n' {
			vAssume(false)
		}
	}
	return t
}

// VC20_Lines: a grammar text against adding the definitions of its lines one by one.
//
//verif:prop C20
//verif:quick k=2 m=6 eq=2
//verif:thorough k=3 m=4 eq=2
//verif:thorough k=2 m=6 eq=3 sp=3
//verif:thorough k=3 m=6 eq=3
//verif:reach accepted rejected undefined
func VC20_Lines() {
	k := vParam("k", 2)
	text := ""
	want := NewGrammar()
	failed := 0
	var names []string
	for i := 1; i <= k; i++ {
		line, name, def, ok := dLine(vParam("m", 6))
		if i > 1 {
			text += "\n"
		}
		text += line
		if name == "" || failed > 0 {
			continue
		}
		if !ok {
			failed = i
			continue
		}
		if _, err := want.ParseRule(name, def); err != nil {
			failed = i
		}
		names = append(names, name)
	}
	if vBool() {
		text += "\n"
	}
	dCompareText(text, want, failed, names)
}

func dCompareText(text string, want *Grammar, failed int, names []string) {
	g, err := NewGrammarFromString(text)
	vAssert((g != nil) == (err == nil), "neither a grammar nor an error, or both")
	if failed > 0 {
		vReach("rejected")
		vAssert(err != nil, "a grammar text with an invalid line is accepted")
		if err != nil {
			vAssert(dContains(err.Error(), "L#"+string(rune('0'+failed))+":"), "the error does not name the line it is on")
		}
		return
	}
	werr := want.Validate()
	vAssert((err != nil) == (werr != nil), "a grammar text with a reference to a missing rule is accepted, or one without is rejected")
	if err != nil || werr != nil {
		vReach("undefined")
		return
	}
	vReach("accepted")
	for _, n := range append([]string{"a", "b", "c"}, names...) {
		r, w := g.GetRule(n), want.GetRule(n)
		vAssert((r == nil) == (w == nil), "a line defines no rule, or a rule is defined that is not in the text")
		if r != nil && w != nil {
			vAssert(r.String() == w.String() && r.Name() == w.Name(), "a line defines another rule")
		}
	}
	for _, t := range []string{"x", "=", "//", "y", "z"} {
		_, e1 := g.EvalRaw(NewCharstreamFromString(t))
		_, e2 := want.EvalRaw(NewCharstreamFromString(t))
		vAssert((e1 == nil) == (e2 == nil), "the grammar text does not parse what its rules do")
	}
	vObserve("names", len(names))
}

// VC20_Any: free characters anywhere in the lines of a grammar text.
//
//verif:prop C20
//verif:quick holes=0
//verif:quick holes=1
//verif:thorough holes=2
//verif:reach accepted rejected undefined
func VC20_Any() {
	kinds := []string{
		"a = 'x'\n@@", "@@a = 'x'", "a @@'x'", "a = @@'x'", "a = 'x'@@", "@@ = 'x'", "@ @ = 'x'\nb = a", "a@= 'x' // @",
		"@@\n@", "a = 'x'\n@@b = 'y'", "a = 'x'\nb @@ 'y'", "a = b\n@ = 'y' @", "a = 'x'\n/@b = 'y'", "@/ a = 'x'",
	}
	if vParam("holes", 0) == 1 {
		kinds = []string{"a = 'x'\n@@@", "@@@ = 'x'", "a @@@'x'", "a = 'x'@@@", "@ @ @'x'", "a = 'x'@@b = 'y'", "a @ 'x'@b @ 'y'", "@@@"}
	}
	if vParam("holes", 0) == 2 {
		kinds = []string{"a = 'x'\n@@@@", "@@@@ = 'x'", "a @@@@'x'", "a = 'x'@@@@", "@ @@ @'x'", "a = 'x'@@@b = 'y'", "@a @ 'x'@b @ 'y'@", "@@@@@"}
	}
	t := dFill(kinds[vChoose(len(kinds))])
	// read the lines directly
	want := NewGrammar()
	failed := 0
	line := 1
	var names []string
	for i := 0; i <= len(t); line++ {
		eq, end := -1, i
		for ; end < len(t) && t[end] != '\n'; end++ {
			if eq < 0 && t[end] == '=' {
				eq = end
			}
		}
		first := i
		for first < end && vmIsSpace(t[first]) {
			first++
		}
		blank := first == end || end-first >= 2 && t[first] == '/' && t[first+1] == '/'
		if !blank && failed == 0 {
			if eq < 0 {
				failed = line
			} else {
				name := strings.TrimSpace(string(t[first:eq]))
				_, err := want.ParseRule(name, strings.TrimSpace(string(t[eq+1:end])))
				if err != nil {
					failed = line
				}
				names = append(names, name)
			}
		}
		i = end + 1
	}
	dCompareText(string(t), want, failed, names)
}

// VC20_Numbers: the number of the line with the error, and of the first definition of a name.
//
//verif:prop C20
//verif:quick k=5
//verif:thorough k=8
//verif:reach error twice
func VC20_Numbers() {
	k := vParam("k", 5)
	text := ""
	first := vChoose(k - 1)
	bad := first + 1 + vChoose(k-first-1)
	kind := vChoose(4)
	for i := 0; i < k; i++ {
		switch {
		case i == first:
			text += "a = 'x'"
		case i == bad:
			text += []string{"a = 'y'", "b", "b = (", "a_a a = 'x'"}[kind]
		default:
			text += []string{"", "// a", "c" + string(rune('0'+i)) + " = \"c\""}[vChoose(3)]
		}
		text += "\n"
	}
	g, err := NewGrammarFromString(text)
	vAssert(err != nil && g == nil, "a grammar text with an invalid line is accepted")
	if err == nil {
		return
	}
	vReach("error")
	vAssert(dContains(err.Error(), "L#"+string(rune('1'+bad))+":"), "the error does not name the line it is on")
	if kind == 0 {
		vReach("twice")
		vAssert(dContains(err.Error(), "line "+string(rune('1'+first))), "the error does not name the line of the first definition")
	}
}

// VC20_File: a grammar read from a file is the grammar of its text, and errors name the file.
//
//verif:prop C20
//verif:quick n=2
//verif:thorough n=3
//verif:reach accepted rejected missing
func VC20_File() {
	text := string(dFill([]string{"a = 'x'\n@", "a = 'x'@@", "@@\na = 'x'", "a@=@'x'"}[vChoose(4)]))
	f := vFile(text)
	g, err := NewGrammarFromFile(f)
	w, werr := NewGrammarFromString(text)
	vAssert((err != nil) == (werr != nil) && (g != nil) == (err == nil), "a grammar file is not read like its text")
	if err != nil || werr != nil {
		vReach("rejected")
		vAssert(dContains(err.Error(), werr.Error()) && dContains(err.Error(), f), "the error of a grammar file does not name the file and the cause")
		return
	}
	vReach("accepted")
	for _, n := range []string{"a", "aa"} {
		r, q := g.GetRule(n), w.GetRule(n)
		vAssert((r == nil) == (q == nil) && (r == nil || r.String() == q.String()), "a grammar file is not read like its text")
	}
	if vBool() {
		vReach("missing")
		g, err = NewGrammarFromFile(f + ".missing")
		vAssert(g == nil && err != nil, "a missing file is not reported")
	}
}
