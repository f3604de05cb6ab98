package xbnf

import (
	"strconv"
	"strings"
)

// ---- C27: the listing of a grammar ----

type lRule struct {
	name, def, refs string
}

var lRules = []lRule{
	{"a", "#$\"a\"", ""},
	{"a", "~\"a\" [bb]", "b"},
	{"bb", "'x' | {c b2} | c", "c2"},
	{"bb", "<a 'x'!> c", "ac"},
	{"c", "#'c' [EOF]", ""},
	{"c", "('c' > [a]) {c}<,2>", "ac"},
	{"b2", "~'\\u0041'-'Z'", ""},
	{"bb", "c ['y']", "c"},
	{"b", "c", "c"},
	{"c", "'c' [c]", "c"},
	{"bbb", "~'x'", ""},
	{"d", "$~#\"d\"", ""},
}

var lNames = map[byte]string{'a': "a", 'b': "bb", 'c': "c", '2': "b2", '1': "b", '3': "bbb"}

// lList reads a listing: the roots, the users of every rule that has some, and the lines of the rules.
func lList(s string) (roots []string, users map[string][]string, rules []string) {
	const r, m, l = "Root Rules: ", "Rule Reference Map: ", "Rules:"
	i, j := strings.Index(s, r), strings.Index(s, m)
	k := strings.LastIndex(s, "\n"+l)
	vAssert(i >= 0 && j > i && k > j, "a part of the listing is missing")
	if !(i >= 0 && j > i && k > j) {
		vAssume(false)
	}
	split := func(s string) (out []string) {
		for _, n := range strings.Split(s, ",") {
			if n = strings.TrimSpace(n); n != "" {
				out = append(out, n)
			}
		}
		return
	}
	roots = split(s[i+len(r) : j])
	users = map[string][]string{}
	for _, n := range strings.Split(s[j+len(m):k], "\n") {
		c := strings.Index(n, ":")
		if c < 0 {
			vAssert(strings.TrimSpace(n) == "", "a line of the reference map names no rule")
			continue
		}
		name := strings.TrimSpace(n[:c])
		_, twice := users[name]
		vAssert(!twice, "a rule is in the reference map twice")
		users[name] = split(n[c+1:])
	}
	for _, n := range strings.Split(s[k+1+len(l):], "\n") {
		if strings.TrimSpace(n) != "" {
			rules = append(rules, strings.TrimSpace(n))
		}
	}
	return
}

func lHas(l []string, s string) int {
	n := 0
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return n
}

// VC27_List: the listing of grammars read from text or put together rule by rule.
//
//verif:prop C27
//verif:quick k=2 m=12
//verif:quick k=3 m=9 order=1
//verif:thorough k=4 m=12
//verif:thorough k=3 m=7 order=1
//verif:reach text added invalid
func VC27_List() {
	k := vParam("k", 3)
	fromText := vBool()
	text := ""
	line := 0
	var defs []lRule
	var nums []int
	g := NewGrammar()
	for i := 0; i < k; i++ {
		if fromText {
			for j := vChoose(3); j > 0; j-- {
				text += []string{"\n", "// x = 'y'\n"}[j-1]
				line++
			}
		}
		d := lRules[vChoose(vParam("m", 11))]
		for _, x := range defs {
			if x.name == d.name {
				vAssume(false)
			}
		}
		line++
		defs = append(defs, d)
		nums = append(nums, line)
		text += d.name + " = " + d.def + "\n"
		if !fromText {
			_, err := g.AddRule(d.name + "=" + d.def)
			vAssert(err == nil, "a valid definition is rejected")
			if vBool() {
				_, err = g.AddRule("x = 'x' [" + d.name)
				vAssert(err != nil, "an invalid definition is accepted")
			}
		}
	}
	var err error
	if fromText {
		g, err = NewGrammarFromString(text)
	} else {
		err = g.Validate()
	}
	if err != nil {
		vReach("invalid")
		return
	}
	if fromText {
		vReach("text")
	} else {
		vReach("added")
	}
	vMapOrder(vParam("order", 0) == 1)
	s := g.Serialize(false)
	vMapOrder(false)
	roots, users, rules := lList(s)
	vAssert(len(rules) == k, "the listing does not have one line per rule")
	if len(rules) != k {
		return
	}
	nroots, nused := 0, 0
	for i, d := range defs {
		r := rules[i]
		c := strings.Index(r, ":")
		e := strings.Index(r, " = ")
		vAssert(c > 0 && e > c, "a line of the listing names no rule")
		if !(c > 0 && e > c) {
			return
		}
		n, err := strconv.Atoi(strings.TrimLeft(r[:c], "L"))
		vAssert(err == nil && n == nums[i], "the listing shows a rule under another line or out of order")
		head := strings.TrimSpace(r[c+1 : e])
		term := strings.HasSuffix(head, "[T]")
		vAssert(term == (d.refs == ""), "the listing marks a rule as terminal that refers to others, or does not mark one that does not")
		head = strings.TrimSuffix(head, "[T]")
		rule := g.GetRule(d.name)
		want := d.name
		if rule.IsVirtual() {
			want = "!" + want
		}
		vAssert(head == want, "the listing shows another rule in a line")
		vAssert(r[e+3:] == strings.TrimSpace(rule.String()), "the listing shows another definition")
		// who refers to the rule?
		var us []string
		for _, x := range defs {
			for j := 0; j < len(x.refs); j++ {
				if lNames[x.refs[j]] == d.name && lHas(us, x.name) == 0 {
					us = append(us, x.name)
				}
			}
		}
		if len(us) == 0 {
			nroots++
			vAssert(lHas(roots, d.name) == 1, "a root is not listed as one")
			vAssert(len(users[d.name]) == 0, "a rule no rule refers to is in the reference map")
			continue
		}
		nused++
		vAssert(lHas(roots, d.name) == 0, "a rule that is referred to is listed as a root")
		for _, u := range us {
			vAssert(lHas(users[d.name], u) > 0, "a reference is missing in the reference map")
		}
		for _, u := range users[d.name] {
			vAssert(lHas(us, u) == 1, "the reference map shows a reference that is not there")
		}
	}
	vAssert(len(roots) == nroots && len(users) == nused, "the listing shows rules that are not there")
	long := g.Serialize(true)
	lr, lu, _ := lList(long)
	vAssert(len(lr) == len(roots) && len(lu) == len(users), "the detailed listing shows other roots or references")
	for i, d := range defs {
		j := strings.Index(long, rules[i])
		vAssert(j >= 0, "the detailed listing does not show a rule")
		if j < 0 {
			return
		}
		long = long[j+len(rules[i]):]
		_ = d
	}
	vObserve("rules", k, nroots)
}
