package xbnf

import "strings"

// ---- C30: the sample grammars ----

const (
	sJSON  = "main/samples/json/json.xbnf"
	sArith = "main/samples/arithmetic/arithmetic.xbnf"
	sProp  = "main/samples/property/property.xbnf"
)

// sGrammar has the code under test read a sample grammar.
func sGrammar(file string) *Grammar {
	text := vRepo(file)
	vAssert(len(text) > 0, "a sample grammar is missing")
	g, err := NewGrammarFromString(text)
	vAssert(err == nil, "a sample grammar is rejected")
	if err != nil {
		vAssume(false)
	}
	return g
}

// sModel is the same grammar for the reference semantics, with its roots.
func sModel(file string) (g *mG, roots []string) {
	g = &mG{}
	for _, line := range strings.Split(vRepo(file), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "//") {
			continue
		}
		i := strings.Index(line, "=")
		r := yRead([]rune(line[i+1:]))
		vAssert(r != nil, "a definition of a sample grammar is malformed")
		g.add(strings.TrimSpace(line[:i]), r)
	}
	used := map[string]bool{}
	for _, r := range g.rules {
		sRefs(r, used)
	}
	for _, n := range g.names {
		if !used[n] {
			roots = append(roots, n)
		}
	}
	return g, roots
}

func sRefs(r *mR, used map[string]bool) {
	if r == nil {
		return
	}
	if r.k == mRef {
		used[r.ref] = true
	}
	for _, k := range r.kids {
		sRefs(k, used)
	}
	sRefs(r.esc, used)
	for _, k := range r.exc {
		sRefs(k, used)
	}
}

// jP recognises JSON and collects the scalars.
type jP struct {
	t       []rune
	scalars [][]rune
	kvs     int
}

func sDigit(c rune) bool { return vAnd('0' <= c, c <= '9') }

// val is the index after the value that starts at i (after white space), or -1.
func (p *jP) val(i int) int {
	i = mSpaceEnd(p.t, i)
	if i >= len(p.t) {
		return -1
	}
	switch c := p.t[i]; {
	case c == '[':
		i = mSpaceEnd(p.t, i+1)
		if i < len(p.t) && p.t[i] == ']' {
			return i + 1
		}
		for {
			if i = p.val(i); i < 0 {
				return -1
			}
			i = mSpaceEnd(p.t, i)
			if i >= len(p.t) {
				return -1
			}
			if p.t[i] == ']' {
				return i + 1
			}
			if p.t[i] != ',' {
				return -1
			}
			i++
		}
	case c == '{':
		i = mSpaceEnd(p.t, i+1)
		from := 0
		if i < len(p.t) && p.t[i] == '}' {
			return i + 1
		}
		for {
			i = mSpaceEnd(p.t, i)
			from = len(p.scalars)
			if i >= len(p.t) || p.t[i] != '"' {
				return -1
			}
			if i = p.str(i); i < 0 {
				return -1
			}
			i = mSpaceEnd(p.t, i)
			if i >= len(p.t) || p.t[i] != ':' {
				return -1
			}
			if i = p.val(i + 1); i < 0 {
				return -1
			}
			for _, s := range p.scalars[from:] {
				if len(s) > 0 || s == nil { // a member without any text leaves nothing
					p.kvs++
					break
				}
			}
			i = mSpaceEnd(p.t, i)
			if i >= len(p.t) {
				return -1
			}
			if p.t[i] == '}' {
				return i + 1
			}
			if p.t[i] != ',' {
				return -1
			}
			i++
		}
	case c == '"':
		return p.str(i)
	case c == 't':
		return p.word(i, "true")
	case c == 'f':
		return p.word(i, "false")
	case c == 'n':
		return p.word(i, "null")
	default:
		return p.num(i)
	}
}

func (p *jP) word(i int, w string) int {
	for j, c := range []rune(w) {
		if i+j >= len(p.t) || p.t[i+j] != c {
			return -1
		}
	}
	p.scalars = append(p.scalars, []rune(w))
	return i + len(w)
}

func (p *jP) num(i int) int {
	s := i
	if p.t[i] == '-' {
		i++
	}
	e := sDigits(p.t, i)
	if e == i {
		return -1
	}
	if e < len(p.t) && p.t[e] == '.' {
		if f := sDigits(p.t, e+1); f > e+1 {
			e = f
		}
	}
	p.scalars = append(p.scalars, p.t[s:e])
	return e
}

func sDigits(t []rune, i int) int {
	for i < len(t) && sDigit(t[i]) {
		i++
	}
	return i
}

func (p *jP) str(i int) int {
	s := i + 1
	plain := true
	for i = s; i < len(p.t); i++ {
		switch p.t[i] {
		case '"':
			if plain {
				p.scalars = append(p.scalars, append([]rune{}, p.t[s:i]...))
			} else {
				p.scalars = append(p.scalars, nil) // how the sample shows escapes is not compared
			}
			return i + 1
		case '\n':
			return -1
		case '\\':
			plain = false
			i++
		}
	}
	return -1
}

// sCountNamed counts the nodes with a name.
func sCountNamed(ns []*Node, name string) int {
	n := 0
	for _, k := range ns {
		if k.RuleName == name {
			n++
		}
		n += sCountNamed(k.ChildNodes, name)
	}
	return n
}

// sJSONCheck parses a text by the sample and compares it with the recogniser.
func sJSONCheck(t []rune) {
	g := sGrammar(sJSON)
	p := &jP{t: t}
	ok := len(t) > 0
	for i := 0; ok && i < len(t); {
		if i = p.val(i); i < 0 {
			ok = false
		}
	}
	ast, err := g.Eval(NewCharstreamFromString(string(t)), LevelDataOnly)
	vObserve("ok", ok, p.kvs)
	if !ok {
		vAssert(err != nil, "the sample accepts a text that is not JSON")
		vReach("rejected")
		return
	}
	vAssert(err == nil && ast != nil, "the sample rejects a JSON text")
	if ast == nil {
		return
	}
	vReach("accepted")
	vAssert(sCountNamed(ast.Nodes, "kv") == p.kvs, "the tree does not have one node for each member of an object")
	var want [][]rune
	plain := true
	for _, s := range p.scalars {
		if s == nil {
			plain = false
		}
		if len(s) > 0 {
			want = append(want, s)
		}
	}
	if !plain {
		return
	}
	var got [][]rune
	for _, l := range mLeafNodes(ast.Nodes, nil) {
		if x := l.Text(); len(x) > 0 {
			got = append(got, x)
		}
	}
	vAssert(len(got) == len(want), "the leaves of the data tree are not the scalars of the text")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		vAssert(vmSameRunes(got[i], want[i]), "a leaf of the data tree is not the scalar written")
	}
}

// VC30_Json: arbitrary texts.
//
//verif:prop C30
//verif:quick n=3
//verif:thorough n=4
//verif:reach accepted rejected
func VC30_Json() { sJSONCheck(mText(3)) }

var sJSONTexts = []string{
	`[1,-2.5]`, `{"a":"b"}`, `[ ]`, `{ }`, `{"a":[null,true],"b":{}}`, `[[1],"x\"y"]`, ` "a b" `, `"":`, `[false,{"":0}]`, `-0.10`, `{"k" : -1 , "l":[]}`,
}

// sEdit is one of the texts with a character put in or replaced by an arbitrary one, or taken out.
func sEdit(texts []string, from, to rune) []rune {
	t := []rune(texts[vChoose(len(texts))])
	for e := vParam("edits", 1); e > 0; e-- {
		i := vChoose(len(t))
		switch vChoose(3) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t = append(append(t[:i:i], vRune()), t[i:]...)
		case 2:
			t = append([]rune(nil), t...)
			t[i] = vRune()
		}
	}
	if from > 0 {
		for _, c := range t {
			vAssume(vOr(c < from, c > to))
		}
	}
	return t
}

// VC30_JsonEdits: JSON texts with a character replaced, put in or taken out.
//
//verif:prop C30
//verif:quick edits=1
//verif:thorough edits=2
//verif:reach accepted rejected
//verif:weight 2
func VC30_JsonEdits() { sJSONCheck(sEdit(sJSONTexts, 0, 0)) }

// aP recognises arithmetic expressions and counts terms and factors.
type aP struct {
	t                    []rune
	exprs, terms, factor int
}

func sLetter(c rune) bool {
	return vOr(vAnd('a' <= c, c <= 'z'), vAnd('A' <= c, c <= 'Z'))
}

func (p *aP) at(i int, c rune) bool { return i < len(p.t) && p.t[i] == c }

// list is the index after operands joined by one of two operators, or -1.
func (p *aP) list(i int, o1, o2 rune, operand func(int) int) int {
	e := operand(i)
	if e < 0 {
		return -1
	}
	for e < len(p.t) && vOr(p.t[e] == o1, p.t[e] == o2) {
		x := operand(e + 1)
		if x < 0 {
			break
		}
		e = x
	}
	return e
}

func (p *aP) expr(i int) int {
	e := p.list(i, '+', '-', p.term)
	if e >= 0 {
		p.exprs++
	}
	return e
}

func (p *aP) term(i int) int { return p.list(i, '*', '/', p.operand) }

func (p *aP) operand(i int) int {
	if i >= len(p.t) {
		return -1
	}
	if p.t[i] == '(' {
		e := p.expr(i + 1)
		if e < 0 || !p.at(e, ')') {
			return -1
		}
		return e + 1
	}
	if sLetter(p.t[i]) {
		for i++; i < len(p.t) && vOr(sLetter(p.t[i]), vOr(sDigit(p.t[i]), p.t[i] == '_')); {
			i++
		}
		return i
	}
	s := i
	if p.t[i] == '-' {
		s++
	}
	e := sDigits(p.t, s)
	best := -1
	if e > s {
		best = e
	}
	if p.at(e, '.') {
		if f := sDigits(p.t, e+1); f > e+1 {
			return f
		}
	}
	if p.at(i, '0') && i+1 < len(p.t) {
		in := func(c rune) bool { return false }
		switch p.t[i+1] {
		case 'x':
			in = func(c rune) bool {
				return vOr(sDigit(c), vOr(vAnd('A' <= c, c <= 'F'), vAnd('a' <= c, c <= 'f')))
			}
		case 'o':
			in = func(c rune) bool { return vAnd('0' <= c, c <= '7') }
		case 'b':
			in = func(c rune) bool { return vAnd('0' <= c, c <= '1') }
		}
		f := i + 2
		for f < len(p.t) && in(p.t[f]) {
			f++
		}
		if f > i+2 {
			best = f
		}
	}
	return best
}

func sArithCheck(t []rune) {
	for _, c := range t {
		vAssume(!vmIsSpace(c))
	}
	g := sGrammar(sArith)
	p := &aP{t: t}
	ok := len(t) > 0
	var ends []int
	for i := 0; ok && i < len(t); {
		if i = p.expr(i); i < 0 {
			ok = false
		}
		ends = append(ends, i)
	}
	ast, err := g.Eval(NewCharstreamFromString(string(t)), LevelBasic)
	vObserve("ok", ok, len(ends))
	if !ok {
		vAssert(err != nil, "the sample accepts a text that is not arithmetic")
		vReach("rejected")
		return
	}
	vAssert(err == nil && ast != nil, "the sample rejects an expression")
	if ast == nil {
		return
	}
	vReach("accepted")
	vAssert(len(ast.Nodes) == len(ends), "the tree does not have one root for each expression")
	if len(ast.Nodes) != len(ends) {
		return
	}
	from := 0
	for i, n := range ast.Nodes {
		vAssert(vmSameRunes(mLeaves(n, nil), t[from:ends[i]]), "an expression does not have the text written")
		from = ends[i]
	}
}

// VC30_Arith: arbitrary texts without white space.
//
//verif:prop C30
//verif:quick n=3
//verif:thorough n=4
//verif:reach accepted rejected
func VC30_Arith() { sArithCheck(mText(3)) }

// VC30_ArithEdits: expressions with a character replaced, put in or taken out.
//
//verif:prop C30
//verif:quick edits=1
//verif:thorough edits=2
//verif:reach accepted rejected
func VC30_ArithEdits() {
	sArithCheck(sEdit([]string{"1+2*3", "(a-b)/-0.5", "0x1F+0o7", "a_1*(2)", "-1--1", "0b1/.5", "((x))"}, 0, 0))
}

// VC30_Samples: what the sample grammars make of a text is what their definitions say.
//
//verif:prop C30
//verif:quick n=2 edits=1
//verif:thorough n=3 edits=2
//verif:reach accepted rejected
//verif:weight 2
func VC30_Samples() {
	var texts []string
	file := ""
	switch vChoose(3) {
	case 0:
		file, texts = sJSON, sJSONTexts
	case 1:
		file = sArith
		texts = []string{"1 + 2", "( a )\n-b", "1.5 * 0x2"}
	case 2:
		file = sProp
		texts = []string{"a=b", " k : v\nl=w", "x\ny=z", "a\\=b=c", "\n\tkey = v \\\n w\n"}
	}
	var t []rune
	if vBool() {
		t = mText(2)
	} else {
		t = sEdit(texts, 0, 0)
	}
	x := sGrammar(file)
	g, roots := sModel(file)
	nodes, ok := mParse(g, roots, t)
	if ok {
		vReach("accepted")
	} else {
		vReach("rejected")
	}
	ast, err := x.EvalRaw(NewCharstreamFromString(string(t)))
	vObserve("ok", ok)
	mSameAST(t, ast, err, nodes, ok, mTREE|mMARK|mPOS)
}
