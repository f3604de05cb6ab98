package xbnf

// Harnesses for the character stream: C01, C02, C03.

// vmSpaces is the documented set of white-space characters.
var vmSpaces = []rune{0x9, 0xA, 0xB, 0xC, 0xD, 0x20, 0x85, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003,
	0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000}

func vmIsSpace(c rune) bool {
	r := false
	for _, s := range vmSpaces {
		r = vOr(r, c == s)
	}
	return r
}

func vmSameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vAnd(ok, a[i] == b[i])
	}
	return ok
}

// vmPos is the true position of index i of the text (0, 0 when there is none).
func vmPos(text []rune, i int) (int, int) {
	if i < 0 || i >= len(text) {
		return 0, 0
	}
	line, col := 1, 1
	for k := 0; k < i; k++ {
		if text[k] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}

func vmPosOf(p *Position) (int, int) {
	if p == nil {
		return 0, 0
	}
	return p.Line, p.Col
}

// VC01_White: the white-space table is the documented one, for every character.
//
//verif:prop C01
//verif:reach space other
func VC01_White() {
	c := vRune()
	is := IsWhiteSpace(c)
	vAssert(is == vmIsSpace(c), "IsWhiteSpace differs from the documented table")
	if is {
		vReach("space")
	} else {
		vReach("other")
	}
	vObserve("white", c, is)
}

// VC01_Ops: any sequence of operations against a list-and-index model.
//
//verif:prop C01
//verif:quick n=3 ops=3 m=2
//verif:thorough n=3 ops=4 m=2
//verif:thorough n=5 ops=4 m=3
//verif:reach next-eof peek skip match mismatch match-eof push push-nested
func VC01_Ops() {
	text := vRunes(vChoose(vParam("n", 3) + 1))
	cs := NewCharstreamFromString(string(text))
	cur := 0  // characters delivered
	peak := 0 // most characters ever delivered
	pushed := 0
	for k := vParam("ops", 3); k > 0; k-- {
		op := vChoose(5)
		switch op {
		case 0:
			c := cs.Next()
			if cur < len(text) {
				vAssert(c == text[cur], "Next did not deliver the next character")
				cur++
			} else {
				vAssert(c == EOFChar, "Next at the end of text is not EOF")
				vReach("next-eof")
			}
		case 1:
			c := cs.Peek()
			if cur < len(text) {
				vAssert(c == text[cur], "Peek is not the next character")
				vReach("peek")
			} else {
				vAssert(c == EOFChar, "Peek at the end of text is not EOF")
			}
		case 2:
			sp := cs.SkipSpaces()
			j := cur
			for j < len(text) && vmIsSpace(text[j]) {
				j++
			}
			vAssert(vmSameRunes(sp, text[cur:j]), "SkipSpaces did not take the maximal run of white space")
			if j > cur {
				vReach("skip")
			}
			cur = j
		case 3:
			want := vRunes(vChoose(vParam("m", 2) + 1))
			got, ok := cs.Match(want)
			j, all := cur, true
			for i := range want {
				if j >= len(text) {
					all = false
					vReach("match-eof")
					break
				}
				j++
				if text[j-1] != want[i] {
					all = false
					vReach("mismatch")
					break
				}
			}
			if ok && len(want) > 0 {
				vReach("match")
			}
			vAssert(ok == all, "Match result is wrong")
			vAssert(vmSameRunes(got, text[cur:j]), "Match did not report the characters it took")
			cur = j
		case 4:
			if cur == 0 {
				vAssume(false)
			}
			j := 1 + vChoose(cur)
			cs = newCharstreamPrepend(cs, append([]rune(nil), text[cur-j:cur]...))
			cur -= j
			vReach("push")
			if pushed > 0 {
				vReach("push-nested")
			}
			pushed++
		}
		if cur > peak {
			peak = cur
		}
		vAssert(cs.Cursor() == cur, "the cursor is not the number of characters delivered")
	}
	vObserve("state", text, cs.Cursor())
	// the rest of the text still comes exactly once, then EOF for good
	for cur < len(text) {
		vAssert(cs.Next() == text[cur], "the rest of the text is not delivered in order")
		cur++
	}
	vAssert(cs.Next() == EOFChar, "no EOF after the last character")
	vAssert(cs.Next() == EOFChar, "EOF is not kept")
	vAssert(cs.Peek() == EOFChar, "Peek after the end is not EOF")
	vAssert(cs.Cursor() == len(text), "cursor at the end is not the length of the text")
}

// VC01_Push: deep nesting of push-backs, with characters consumed from each before the next.
//
//verif:prop C01
//verif:quick n=4 depth=3
//verif:thorough n=5 depth=4
//verif:reach three
func VC01_Push() {
	n := vParam("n", 4)
	text := vRunes(n)
	cs := NewCharstreamFromString(string(text))
	cur := 0
	for d := vParam("depth", 3); d > 0; d-- {
		k := vChoose(n - cur + 1)
		for ; k > 0; k-- {
			vAssert(cs.Next() == text[cur], "Next did not deliver the next character")
			cur++
		}
		if cur > 0 {
			j := 1 + vChoose(cur)
			cs = newCharstreamPrepend(cs, append([]rune(nil), text[cur-j:cur]...))
			cur -= j
		}
		vAssert(cs.Cursor() == cur, "the cursor is not the number of characters delivered")
		if d == 1 {
			vReach("three")
		}
	}
	for cur < n {
		vAssert(cs.Peek() == text[cur], "Peek is not the next character")
		vAssert(cs.Next() == text[cur], "the rest of the text is not delivered in order")
		cur++
		vAssert(cs.Cursor() == cur, "the cursor is not the number of characters delivered")
	}
	vAssert(cs.Next() == EOFChar, "no EOF after the last character")
}

// VC02_Ops: positions against line and column counted from the text.
//
//verif:prop C02
//verif:quick n=3 ops=3
//verif:thorough n=4 ops=4
//verif:thorough n=5 ops=4
//verif:reach lookup line2 here-none push lookup-unread lookup-neg
func VC02_Ops() {
	text := vRunes(vChoose(vParam("n", 3) + 1))
	cs := NewCharstreamFromString(string(text))
	cur, peak := 0, 0
	query := func() {
		line, col := vmPosOf(cs.Position())
		wl, wc := vmPos(text, cur)
		vAssert(line == wl && col == wc, "Position is not that of the next character")
		if wl == 0 {
			vReach("here-none")
		}
		i := vConcrete(vInt(-1, len(text)))
		line, col = vmPosOf(cs.PositionLookup(i))
		wl, wc = vmPos(text, i)
		if i >= peak {
			wl, wc = 0, 0
			vReach("lookup-unread")
			if i == 0 && line != 0 {
				wl, wc = 1, 1 // the first character is always at 1:1
			}
		}
		if i < 0 {
			vReach("lookup-neg")
		}
		if wl > 0 {
			vReach("lookup")
		}
		if wl > 1 {
			vReach("line2")
		}
		vAssert(line == wl && col == wc, "PositionLookup gives a wrong position")
	}
	for k := vParam("ops", 3); k > 0; k-- {
		op := vChoose(5)
		switch op {
		case 0:
			if cs.Next() != EOFChar {
				cur++
			}
		case 1:
			cur += len(cs.SkipSpaces())
		case 2:
			w := vRune()
			r, _ := cs.Match([]rune{w, w})
			cur += len(r)
		case 3:
			if cur == 0 {
				vAssume(false)
			}
			j := 1 + vChoose(cur)
			cs = newCharstreamPrepend(cs, append([]rune(nil), text[cur-j:cur]...))
			cur -= j
			vReach("push")
		case 4:
			query()
		}
		if cur > peak {
			peak = cur
		}
	}
	query()
	line, col := vmPosOf(cs.PositionLookup(0))
	vObserve("pos", text, cur, line, col)
}

// VC02_All: after reading everything, every character has its true position, whatever was asked
// before.
//
//verif:prop C02
//verif:quick n=5
//verif:thorough n=7
//verif:reach third
func VC02_All() {
	n := vParam("n", 5)
	text := vRunes(n)
	cs := NewCharstreamFromString(string(text))
	ask := vBool()
	for i := 0; i < n; i++ {
		if ask {
			cs.Position()
		}
		cs.Next()
	}
	vAssert(cs.Position() == nil, "a position at the end of text")
	for i := 0; i < n; i++ {
		line, col := vmPosOf(cs.PositionLookup(i))
		wl, wc := vmPos(text, i)
		vAssert(line == wl && col == wc, "PositionLookup gives a wrong position")
		if wl == 3 {
			vReach("third")
		}
	}
	vAssert(cs.PositionLookup(n) == nil && cs.PositionLookup(-1) == nil, "a position outside the text")
}

// ---- C03 ----

const vmStreamOps = 8

// vmDo performs one stream operation and returns its result as integers.
func vmDo(cs ICharstream, op int, w []rune) []int {
	switch op {
	case 0:
		return []int{int(cs.Next())}
	case 1:
		return []int{int(cs.Peek())}
	case 2:
		return vmInts(cs.SkipSpaces())
	case 3:
		r, ok := cs.Match(w)
		out := vmInts(r)
		if ok {
			return append(out, 1)
		}
		return append(out, 0)
	case 4:
		return []int{cs.Cursor()}
	case 5:
		l, c := vmPosOf(cs.Position())
		return []int{l, c}
	case 6:
		l, c := vmPosOf(cs.PositionLookup(1))
		return []int{l, c}
	default:
		return vmInts([]rune{cs.Next(), cs.Next()})
	}
}

func vmInts(rs []rune) []int {
	out := make([]int, 0, len(rs)+1)
	for _, r := range rs {
		out = append(out, int(r))
	}
	return out
}

func vmSameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vAnd(ok, a[i] == b[i])
	}
	return ok
}

func vmStream(text []rune, kind, pre int) ICharstream {
	cs := NewCharstreamFromString(string(text))
	for i := 0; i < pre; i++ {
		cs.Next()
	}
	if pre > 0 && kind >= 1 {
		cs = newCharstreamPrepend(cs, append([]rune(nil), text[:pre]...))
	}
	if pre > 1 && kind >= 2 {
		cs.Next()
		cs = newCharstreamPrepend(cs, append([]rune(nil), text[:1]...))
	}
	return cs
}

// VC03_Pairs: two goroutines, one call each (op 7 is two calls).
//
//verif:prop C03
//verif:quick n=2
//verif:thorough n=3
//verif:reach both plain pushed nested
//verif:note goroutines switch at lock operations only; accesses between them are covered by a happens-before race check, so every interleaving is covered as long as no race is reported
func VC03_Pairs() {
	n := vParam("n", 2)
	kind := vChoose(3)
	pre := vChoose(n + 1)
	if kind > 0 && pre < kind {
		vAssume(false)
	}
	a, b := vChoose(vmStreamOps), vChoose(vmStreamOps)
	if a > b || a == 7 && b == 7 {
		vAssume(false)
	}
	text := vRunes(n)
	w := vRunes(2)
	cs := vmStream(text, kind, pre)
	var ra, rb []int
	vPar(func() { ra = vmDo(cs, a, w) }, func() { rb = vmDo(cs, b, w) })
	end := vmInts([]rune{cs.Next()})
	// the sequential orders of the calls
	ok := false
	orders := 2
	if b == 7 {
		orders = 3
	}
	for o := 0; o < orders; o++ {
		s := vmStream(text, kind, pre)
		var xa, xb []int
		switch o {
		case 0:
			xa = vmDo(s, a, w)
			xb = vmDo(s, b, w)
		case 1:
			xb = vmDo(s, b, w)
			xa = vmDo(s, a, w)
		case 2:
			c1 := s.Next()
			xa = vmDo(s, a, w)
			xb = vmInts([]rune{c1, s.Next()})
		}
		ok = vOr(ok, vAnd(vAnd(vmSameInts(ra, xa), vmSameInts(rb, xb)), vmSameInts(end, vmInts([]rune{s.Next()}))))
	}
	vAssert(ok, "no sequential order of the calls explains the results")
	switch kind {
	case 0:
		vReach("plain")
	case 1:
		vReach("pushed")
	default:
		vReach("nested")
	}
	vReach("both")
	vObserve("res", len(ra), len(rb), end[0])
}

// VC03_Three: three goroutines taking characters.
//
//verif:prop C03
//verif:quick
//verif:thorough
//verif:reach three
func VC03_Three() {
	kind := vChoose(3)
	text := vRunes(3)
	pre := 0
	if kind > 0 {
		pre = kind
	}
	cs := vmStream(text, kind, pre)
	var r [3]rune
	vPar(func() { r[0] = cs.Next() }, func() { r[1] = cs.Next() }, func() { r[2] = cs.Next() })
	perms := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	want := text
	if kind == 0 && pre > 0 {
		want = text[pre:]
	}
	ok := false
	for _, p := range perms {
		ok = vOr(ok, vAnd(vAnd(r[0] == want[p[0]], r[1] == want[p[1]]), r[2] == want[p[2]]))
	}
	vAssert(ok, "a character was lost or delivered twice")
	vReach("three")
}
