package main

import (
	"strings"

	"github.com/cnsgfk/xbnf"
)

// Harnesses for the command line tool: C26.

func kCount(s, part string) int {
	n := 0
	a, b := []rune(s), []rune(part)
	for i := 0; i+len(b) <= len(a); i++ {
		if kAt(a, i, b) {
			n++
		}
	}
	return n
}

func kAt(a []rune, i int, b []rune) bool {
	for j := range b {
		if a[i+j] != b[j] {
			return false
		}
	}
	return true
}

// kFrom finds part in s from i on and returns the place behind it, or -1.
func kFrom(s []rune, i int, part string) int {
	b := []rune(part)
	for ; i+len(b) <= len(s); i++ {
		if kAt(s, i, b) {
			return i + len(b)
		}
	}
	return -1
}

var kFiles = []string{"a = 'x' [b]\nb = \"b\"\n", "// only a comment\n", "a = 'x\n", "a = 'x' [nowhere]\n", "a = \"x\" #'y' ~'z'\n", "s = ' '\nn = '\\u000A'\nx = 'x'\n"}
var kRules = []string{"c = 'c' ~\"d\"", "a = 'z'", "no rule", "d = ['c'] nowhere", "b = #'x' {\"y\"}"}

// kText is a text to be parsed: fixed or with unknown characters.
func kText(m int) string {
	switch vChoose(m) {
	case 0:
		return "xb"
	case 1:
		return "q"
	case 2:
		return string(vRunes(1))
	case 3:
		return "c" + string(vRunes(1))
	case 4:
		return " x\n"
	case 5:
		return "x" + string(vRunes(1)) + " "
	default:
		return "-text"
	}
}

// VC26_Options: combinations of options.
//
//verif:prop C26
//verif:quick rules=1 texts=2 files=1 m=3 r=5
//verif:quick rules=2 texts=1 files=0 m=5 r=5
//verif:quick rules=1 texts=0 files=2 m=4 r=4
//verif:quick rules=1 texts=3 files=0 m=2 r=5
//verif:quick rules=1 texts=0 files=3 m=2 r=5
//verif:quick rules=3 texts=1 files=0 m=2 r=5
//verif:thorough rules=2 texts=1 files=1 m=5 r=5
//verif:thorough rules=1 texts=1 files=2 m=5 r=4
//verif:thorough rules=2 texts=2 files=2 m=3 r=5
//verif:reach tree error nogrammar badfile badrule undefined
func VC26_Options() {
	var args []string
	types := vBool()
	if types {
		args = append(args, "-showNodeType")
	}
	grammar := xbnf.NewGrammar()
	failed := false
	none := true
	var missing string
	switch f := vChoose(len(kFiles) + 2); {
	case f == len(kFiles): // no rule file
	case f == len(kFiles)+1:
		missing = "no-such-rule-file"
		args = append(args, "-xbnf", missing)
		failed, none = true, false
		vReach("badfile")
	default:
		args = append(args, "-xbnf", vFile(kFiles[f]))
		none = false
		g, err := xbnf.NewGrammarFromString(kFiles[f])
		if err != nil {
			failed = true
			vReach("badfile")
		} else {
			grammar = g
		}
	}
	for i := vChoose(vParam("rules", 1) + 1); i > 0; i-- {
		r := kRules[vChoose(vParam("r", 5))]
		args = append(args, "-rule", r)
		none = false
		if !failed {
			if _, err := grammar.AddRule(r); err != nil {
				failed = true
				vReach("badrule")
			}
		}
	}
	var inputs []string
	unreadable := -1
	for i := vChoose(vParam("texts", 1) + 1); i > 0; i-- {
		t := kText(vParam("m", 3))
		args = append(args, "-text", t)
		inputs = append(inputs, t)
	}
	for i := vChoose(vParam("files", 1) + 1); i > 0; i-- {
		if vChoose(3) == 0 {
			args = append(args, "-file", "no-such-file")
			if unreadable < 0 {
				unreadable = len(inputs)
			}
			inputs = append(inputs, "")
			continue
		}
		t := kText(vParam("m", 3))
		args = append(args, "-file", vFile(t))
		inputs = append(inputs, t)
	}

	out, code := vRunMain(args...)
	vAssert(code == 0, "the tool crashes")
	if len(args) == 0 {
		vAssert(kCount(out, "Abstract Syntax Tree") == 0, "a tree is printed without a text")
		return
	}
	errors := kCount(out, "ERROR: ")
	trees := kCount(out, "Abstract Syntax Tree")
	if none {
		vReach("nogrammar")
		vAssert(errors == 1 && trees == 0, "missing rules are not reported")
		return
	}
	if failed {
		vAssert(errors == 1 && trees == 0, "a rule file or rule that cannot be read is not reported")
		return
	}
	want := 0
	if grammar.Validate() != nil {
		want++
		vReach("undefined")
	}
	conf := xbnf.DefaultNodeTreeConfig()
	conf.PrintRuleType = types
	pos := 0
	rs := []rune(out)
	n := 0
	for i, t := range inputs {
		if i == unreadable {
			want++
			vReach("error")
			break
		}
		ast, err := grammar.Eval(xbnf.NewCharstreamFromString(t), xbnf.LevelBasic)
		if err != nil {
			want++
			vReach("error")
			break
		}
		ast.RemoveVirtualNodes()
		ast.RemoveNonDataNodes()
		ast.RemoveRedundantNodes()
		pos = kFrom(rs, pos, strings.TrimSpace(ast.StringTree(conf)))
		vAssert(pos >= 0, "the tree of a text or file is not printed, or not in order")
		if pos < 0 {
			return
		}
		n++
		vReach("tree")
	}
	vAssert(trees == n, "the wrong number of trees is printed")
	vAssert(errors == want, "the wrong number of errors is printed")
	vObserve("trees", trees, errors)
}

// VC26_Texts: any short text, given as an option or as a file, reaches the grammar as it is.
//
//verif:prop C26
//verif:quick n=2
//verif:thorough n=3
//verif:reach tree error file
func VC26_Texts() {
	file := []string{"s = ' '\nn = '\\u000A'\nx = 'x'\n", "r = 'x' {\"y\"} [s]\ns = ' '\n", "q = <'x' 'y'> [EOF]\nz = ^'z'\n", "r = {'x'}+ ['\\u000A']"}[vChoose(4)]
	g, err := xbnf.NewGrammarFromString(file)
	args := []string{"-xbnf", vFile(file)}
	t := string(vRunes(vChoose(vParam("n", 2) + 1)))
	if vBool() {
		vReach("file")
		args = append(args, "-file", vFile(t))
	} else {
		args = append(args, "-text", t)
	}
	out, code := vRunMain(args...)
	vAssert(code == 0, "the tool crashes")
	errors := kCount(out, "ERROR: ")
	trees := kCount(out, "Abstract Syntax Tree")
	if err == nil {
		err = g.Validate()
	}
	if err != nil {
		vAssert(errors > 0, "a rule file that cannot be read is not reported")
		return
	}
	ast, err := g.Eval(xbnf.NewCharstreamFromString(t), xbnf.LevelBasic)
	if err != nil {
		vReach("error")
		vAssert(errors == 1 && trees == 0, "a text that cannot be parsed is not reported")
		return
	}
	vReach("tree")
	ast.RemoveVirtualNodes()
	ast.RemoveNonDataNodes()
	ast.RemoveRedundantNodes()
	conf := xbnf.DefaultNodeTreeConfig()
	conf.PrintRuleType = false
	vAssert(errors == 0 && trees == 1, "a text that can be parsed is not")
	vAssert(kFrom([]rune(out), 0, strings.TrimSpace(ast.StringTree(conf))) >= 0, "the tree of a text or file is not printed")
}
