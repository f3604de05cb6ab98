package xbnf

// Rules of every kind inside rules of every kind.

// mNested wraps one of in leaves depth times in rules of every kind.
func mNested(in, depth int) *mR {
	leaf := vChoose(in)
	r := []*mR{mC('a'), mS("b"), mC(' '), mCs("ab"), mRg('\n', 'b'), mS("a"), mRf("rs"), mC('\n')}[leaf]
	for i := 0; i < depth; i++ {
		switch vChoose(13) {
		case 0:
			r = mOp(r)
		case 1:
			r = mGr(r)
		case 2:
			r = mRp(r, 0, 0)
		case 3:
			r = mRp(r, 2, 3)
		case 4:
			r = mGr(mCat(r, mC('b')))
		case 5:
			r = mGr(mCat(mOp(mS("a")), r))
		case 6:
			r = mGr(mCh([]int{2}, mC('b'), r))
		case 7:
			r = mGr(mCh([]int{1, 1}, mCs("ba"), r))
		case 8: // the content of a block
			r = mBl(mGr(r), mC('b'))
			r.vclose = vBool()
		case 9:
			b := mBl(mC('a'), mGr(r))
			b.exc = []*mR{mCs("bb")}
			r = b
		case 10: // in front of what it may have read too much of
			r = mGr(mCat(r, mS("a"), mOp(mC('b'))))
		case 11: // beside a rule that reads everything and fails
			r = mGr(mCh([]int{2}, mGr(mCat(mRp(mRg('\n', 'b'), 0, 0), mC('z'))), r))
		case 12:
			r = mGr(mCh([]int{2}, r, mGr(mCat(mRp(mRg('\n', 'b'), 0, 0), mC('z')))))
		}
	}
	return r
}

// VC09_Nest: every kind of rule inside every kind of rule.
//
//verif:prop C09
//verif:quick n=2 in=8 depth=2
//verif:quick n=3 in=2 depth=2
//verif:thorough n=3 in=8 depth=2
//verif:thorough n=3 in=3 depth=3
//verif:thorough n=4 in=6 depth=2
//verif:reach match no unused
func VC09_Nest() {
	g := mAux((&mG{}).add("r", mNested(vParam("in", 4), vParam("depth", 2))))
	x := mGrammar(g)
	t := mText(2)
	cs := mStart(t, 0, 0, 1)
	res := x.GetRule("r").Eval(x, cs, mSkip)
	mAccount(t, 0, cs, res)
	if res.Node == nil {
		vReach("no")
	} else {
		vReach("match")
		if len(res.CharsUnused) > 0 {
			vReach("unused")
		}
	}
	vObserve("read", len(res.CharsRead), len(res.CharsUnused))
}

func mNestCheck(what int) {
	g := mAux((&mG{}).add("r", mNested(vParam("in", 4), vParam("depth", 2))))
	x := mGrammar(g)
	v := mCheck(g, x, "r", mText(2), mSkip, what)
	switch {
	case v.ok:
		vReach("match")
	default:
		vReach("no")
	}
	vObserve("end", v.ok, v.end)
}

// VC14_Nest: positions of every kind of rule inside every kind of rule.
//
//verif:prop C14
//verif:quick n=2 in=8 depth=2
//verif:quick n=3 in=2 depth=2
//verif:thorough n=3 in=8 depth=2
//verif:thorough n=3 in=3 depth=3
//verif:thorough n=4 in=6 depth=2
//verif:reach match no
func VC14_Nest() { mNestCheck(mPOS | mUSED) }

// VC05_Nest: trees and spaces of every kind of rule inside every kind of rule.
//
//verif:prop C05
//verif:quick n=2 in=8 depth=2
//verif:quick n=3 in=2 depth=2
//verif:thorough n=3 in=8 depth=2
//verif:thorough n=3 in=3 depth=3
//verif:thorough n=4 in=6 depth=2
//verif:reach match no
func VC05_Nest() { mNestCheck(mTREE | mUSED | mSTICKY) }
