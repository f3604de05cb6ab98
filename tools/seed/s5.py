S=[]
def add(id,prop,edits,needs,breaks,demo,**k): S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))

add('c27-usage-prefix','C27',[('grammar.go',"""	inst.nonRoots[ruleName] = append(inst.nonRoots[ruleName], userRule)
}""","""	users := inst.nonRoots[ruleName]
	if len(users) > 0 && strings.HasPrefix(users[len(users)-1], userRule) { // already listed
		return
	}
	inst.nonRoots[ruleName] = append(users, userRule)
}""")],'a rule used first by one rule and then by another whose name is a prefix of the name of the first','the second user is missing in the reference map and is marked as terminal',
"""	g := gr(t, "ab = x\\na = x\\nx = 'x'")
	s := g.Serialize(false)
	if !strings.Contains(s, "ab,a,") || strings.Contains(s, " a[T]") {
		t.Fatal(s)
	}""",imports=['strings'])
add('c27-truncate','C27',[('grammar.go','nameFmtStr := fmt.Sprintf("%%-%ds", maxNameLen)','nameFmtStr := fmt.Sprintf("%%-%d.%ds", maxNameLen, maxNameLen)'),
 ('grammar.go','maxNameLen = maxNameLen + 4 //','maxNameLen = maxNameLen + 3 //')],'the rule with the longest name is virtual and terminal','its token mark is cut off in the listing',
"""	g := gr(t, "abc = ~'x'\\nd = 'y'")
	if s := g.Serialize(false); !strings.Contains(s, "!abc[T]") {
		t.Fatal(s)
	}""",imports=['strings'])
add('c27-line','C27',[('grammar.go',"""	record.line = inst.maxLine
""","""	record.line = len(inst.ruleRecords) + 1
""")],'a grammar text with blank lines or comments between rules','rules are listed with the number of the rule instead of the line',
"""	g := gr(t, "// c\\na = 'x'\\n\\nb = a")
	if s := g.Serialize(false); !strings.Contains(s, "L0002: a") || !strings.Contains(s, "L0004: b") {
		t.Fatal(s)
	}""",imports=['strings'])
add('c28-virtual-unclosed','C28',[('rule_block.go',"""				cs.SkipSpaces()
				peek = cs.Next()
				if peek != blockCloseSymbol {""","""				cs.SkipSpaces()
				peek = cs.Next()
				if peek != blockCloseSymbol && peek != EOFChar {""")],'a block with virtual close whose closing bracket is missing at the end of the definition','the unfinished block is accepted',
"""	if _, err := NewGrammarFromString("a = <'(' ')' !"); err == nil {
		t.Fatal("accepted")
	}
	if _, err := NewGrammarFromString("a = <'(' ')' !>"); err != nil {
		t.Fatal(err)
	}""")
add('c28-max-min','C28',[('rule_repetition.go',"""	if max != 0 && max < min {""","""	if max != 0 && max+1 < min {""")],'repetition bounds whose maximum is one less than the minimum','such bounds are accepted',
"""	if _, err := NewGrammarFromString("a = { 'x' }<3,2>"); err == nil {
		t.Fatal("accepted")
	}""")
add('c28-bits','C28',[('rule_repetition.go',"""		m, err := strconv.ParseUint(minStr, 10, 32)""","""		m, err := strconv.ParseUint(minStr, 10, 8)""")],'a repetition with a minimum of 256 or more','such bounds are rejected',
"""	if _, err := NewGrammarFromString("a = { 'x' }<300,>"); err != nil {
		t.Fatal(err)
	}""")
add('c28-choice-last','C28',[('grammar.go',"""				// last rule will participate in the choice, and be replaced by the choice rule
				rule, err := inChoice(inst, name, rules[size-1], cs)""","""				// last rule will participate in the choice, and be replaced by the choice rule
				rule, err := inChoice(inst, name, rules[1], cs)""")],'a sequence of three or more parts, the last of which is a choice','the choice starts with the second part of the sequence',
"""	g := gr(t, "a = 'x' 'y' 'z' | 'w'")
	if u := used(g, "a", "xyz"); u != "xyz" {
		t.Fatal(u)
	}
	if u := used(g, "a", "xyy"); u != "<none>" {
		t.Fatal(u)
	}""")
add('c28-groups','C28',[('rule_choice.go',"""			groups = append(groups, rules)
			rules = nil
""","""			groups = append(groups, rules)
			rules = rules[:0]
""")],'an ordered choice','the alternatives of a later group replace those of an earlier one',
"""	g := gr(t, "a = 'x' | 'y' > 'z'")
	if u := used(g, "a", "x"); u != "x" {
		t.Fatal(u)
	}""")
add('c29-concat-idx','C29',[('rule_concatenate.go',"""			evalResult.Error = fmt.Errorf("%s: %s", inst.desc(), result.Error)
			evalResult.ErrIdx = result.ErrIdx
			return evalResult""","""			evalResult.Error = fmt.Errorf("%s: %s", inst.desc(), result.Error)
			return evalResult""")],'a choice in which a sequence came further than another alternative','the choice reports what the other alternative reports',
"""	r := gr(t, "a = 'v' | ('x' 'y' 'z')").EvalRule("a", "xyw")
	if r.Error == nil || !strings.Contains(r.Error.Error(), "'z'") || !strings.Contains(r.Error.Error(), "L1:3") {
		t.Fatal(r.Error)
	}""",imports=['strings'])
add('c29-place','C29',[('rule_terminal_char.go',"""	startPos := charstream.Position()

	if flagLeadingSpaces == SUGGEST_SKIP {
		skippedSpaces := charstream.SkipSpaces()
		evalResult.CharsRead""","""	startPos := charstream.Position()

	if flagLeadingSpaces == SUGGEST_SKIP {
		skippedSpaces := charstream.SkipSpaces()
		startPos = charstream.Position()
		evalResult.CharsRead""")],'only white space is left where a character is looked for','the message says that the character is missing at L0:0',
"""	r := gr(t, "a = 'x'").EvalRule("a", "  ")
	if r.Error == nil || strings.Contains(r.Error.Error(), "L0:0") {
		t.Fatal(r.Error)
	}""",imports=['strings'])
add('c29-undefined','C29',[('rule_reference.go',"""			Error: fmt.Errorf("rule '%s' not defined", inst),""","""			Error: fmt.Errorf("rule '%s' not defined", inst.name),""")],'a reference to a rule that is not defined','the message does not name the rule',
"""	g := NewGrammar()
	g.AddRule("a = 'x' nope")
	r := g.EvalRule("a", "xy")
	if r.Error == nil || !strings.Contains(r.Error.Error(), "'nope'") {
		t.Fatal(r.Error)
	}""",imports=['strings'])
add('c02-binary','C02',[('charstream.go',"""	for i := maxLineIdx; i >= 0; i-- {
		if idx >= inst.lines[i] {
			lineIdx = i
			break
		}
	}
""","""	for lo, hi := 0, maxLineIdx; lo <= hi; {
		mid := (lo + hi) / 2
		if idx >= inst.lines[mid] {
			lineIdx = mid
			lo = mid + 2
		} else {
			hi = mid - 1
		}
	}
""")],'a text of several lines','the line of some characters is found wrongly',
"""	text := "a\\nb\\nc\\nd\\ne\\nf"
	cs := NewCharstreamFromString(text)
	for cs.Next() != EOFChar {
	}
	for i := range text {
		if p := cs.PositionLookup(i); p == nil || p.Line != i/2+1 || p.Col != i%2+1 {
			t.Fatal(i, p)
		}
	}""")
add('c04-nbsp-leading','C04',[('rule.go',"""	for _, char := range input {
		if IsWhiteSpace(char) {
			wspaces""","""	for _, char := range input {
		if char == ' ' || char == '\\t' || char == '\\n' || char == '\\r' {
			wspaces""")],'a literal that starts with a white space character other than the usual ones','the literal never matches where white space is skipped',
"""	g := gr(t, "a = '\\\\u00A0x'")
	if u := used(g, "a", "\\u00a0x"); u != "\\u00a0x" {
		t.Fatalf("%q", u)
	}""")
add('c05-ref-option','C05',[('rule_concatenate.go',"""		if result.Node.RuleType != TypeOption ||
			(len(""","""		if _, isOption := rule.(*OptionRule); !isOption ||
			(len(""")],'a reference to a named option without match between two parts','white space after it is handled as if the option had matched',
"""	g := gr(t, "a = \\"x\\" o 'z'\\no = ['y']")
	if u := used(g, "a", "x z"); u != "x z" {
		t.Fatal(u)
	}""")
add('c08-close-skip','C08',[('rule_block.go',"""		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space""","""		result := inst.close.Eval(grammar, cs, SUGGEST_NOT_SKIP) // do not skip space""")],'a block closed by a string with white space before it','white space at the end of the content is dropped',
"""	r := gr(t, "a = <'(' \\"end\\">").EvalRule("a", "(x  end")
	if s := string(r.Node.Text()); s != "(x  end" {
		t.Fatal(s)
	}""")
add('c09-lead','C09',[('rule_terminal_string.go',"""			// for sure not match
			evalResult.CharsUnused = evalResult.CharsRead
""","""			// for sure not match
""")],'a string that starts with more white space than the text has','the white space read is said to be used by a rule that does not match',
"""	g := gr(t, "a = 'q' | [\\"  x\\"] ' ' 'y'")
	r := g.EvalRule("a", " y")
	if r.Node == nil || len(r.CharsRead)-len(r.CharsUnused) != 2 {
		t.Fatal(r)
	}""")
add('c13-skip','C13',[('grammar.go',"""		result = rule.Eval(inst, cs, NOT_SKIP)
""","""		result = rule.Eval(inst, cs, SUGGEST_NOT_SKIP)
""")],'white space in front of a string searched for','the white space is neither in a text nor in a match',
"""	r := gr(t, "a = \\"x\\"").EvalEmbed("a", "y x")
	if len(r.Node.ChildNodes) != 2 || string(r.Node.ChildNodes[0].Chars) != "y " {
		t.Fatal(r.StringTree(nil))
	}""")
add('c14-chars-lead','C14',[('rule_terminal_chars.go',"""		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
""","""		startCursor = startCursor + len(skippedWSpaces)
""")],'a literal that starts with white space, where white space is skipped','its position is after its own white space',
"""	r := gr(t, "a = ' xy'").EvalRule("a", "   xy")
	if p := r.Node.Position; p == nil || p.Col != 3 {
		t.Fatal(p)
	}""")
add('c15-unicode-choice','C15',[('grammar.go',('func (inst *Grammar) parseOne',"""			rule, err := inUnicode(cs)
			if err != nil {
				return nil, err
			}
			rule.setAnnotation(isTokenized, isNonData, isVirtual)
			return rule, nil"""),"""			return inUnicode(cs)""")],'an annotated code point as the second or later alternative of a choice','the annotation is ignored',
"""	r := gr(t, "a = 'x' | ~\\\\u0041").EvalRule("a", "A")
	if r.Node == nil || !r.Node.ChildNodes[0].Virtual {
		t.Fatal(r.StringTree(nil))
	}""")
add('c17-bits','C17',[('rule_terminal_char.go',"strconv.ParseInt(string(hexChars), 16, 32)","strconv.ParseInt(string(hexChars), 16, 16)")],'a code point escape of 8000 or more','such escapes are rejected',
"""	g, err := NewGrammarFromString("a = \\\\u9FA5")
	if err != nil {
		t.Fatal(err)
	}
	if u := used(g, "a", "\\u9fa5"); u != "\\u9fa5" {
		t.Fatal(u)
	}""")
add('c18-exact','C18',[('rule_repetition.go',"""		if inst.min != 0 {
			buf.WriteString(fmt.Sprintf("<%d,%d>", inst.min, inst.max))
		}""","""		if inst.min != 0 {
			buf.WriteString(fmt.Sprintf("<%d>", inst.min))
		}""")],'a repetition whose minimum and maximum are the same','the maximum is lost when it is printed',
"""	g := gr(t, "a = { 'x' }<2,2>")
	h := gr(t, "a = "+g.GetRule("a").String())
	if u := used(h, "a", "xxx"); u != "xx" {
		t.Fatal(u)
	}""")
add('c20-comment','C20',[('grammar.go',"""		line = strings.TrimSpace(line)
		if len(line) == 0 || strings.HasPrefix(line, "//") {""","""		comment := strings.HasPrefix(line, "//")
		line = strings.TrimSpace(line)
		if len(line) == 0 || comment {""")],'a comment line with white space in front','the comment is read as a rule',
"""	if _, err := NewGrammarFromString("a = 'x'\\n  // note"); err != nil {
		t.Fatal(err)
	}""")
add('c20-last-equals','C20',[('grammar.go',('func NewGrammarFromString',"""		tokens := strings.SplitN(line, "=", 2)
		if len(tokens) != 2 {"""),"""		tokens := strings.Split(line, "=")
		if len(tokens) == 3 { // the definition itself contains an equal sign
			tokens = []string{tokens[0], tokens[1] + "=" + tokens[2]}
		}
		if len(tokens) != 2 {""")],'a definition with two or more equal signs','the line is rejected',
"""	if _, err := NewGrammarFromString("a = '=' | '=='"); err != nil {
		t.Fatal(err)
	}""")
add('c23-named-empty','C23',[('node.go',"""		if len(child.Text()) == 0 && child.RuleName == "" {
			continue""","""		if len(child.Text()) == 0 && len(child.ChildNodes) == 0 {
			continue""")],'a named node without text','the named node is removed',
"""	ast, err := gr(t, "a = \\"x\\" o \\"y\\"\\no = [\\"z\\"]").Eval(NewCharstreamFromString("x y"), LevelBasic)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(ast.Nodes[0].ChildNodes); n != 3 {
		t.Fatal(ast.StringTree(nil))
	}""")
add('c24-sticky-raw','C24',[('node.go',"""	count := 0
	if inst.Sticky {
		count++
	}
	for""","""	count := 0
	if inst.Sticky {
		return 1 // a sticky node is one token
	}
	for""")],'a sticky node with sticky nodes below it, in a tree not yet merged','only the upper node is counted',
"""	r := gr(t, "a = 'x' 'y'").EvalRule("a", "xy")
	if n := r.Node.CountStickyNodes(); n != 3 {
		t.Fatal(n)
	}""")
add('c26-rules-only','C26',[('main/xbnf.go',"""	} else if *ruleFile != "" {""","""	} else if *ruleFile != "" && len(rules) == 0 {""")],'a rule file and a rule option together','the rule file is ignored',r'''package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("XBNF_DEMO") != "" {
		os.Args = []string{"xbnf", "-xbnf", os.Getenv("XBNF_DEMO"), "-rule", "b = a 'y'", "-text", "xy"}
		main()
		return
	}
	f := filepath.Join(t.TempDir(), "r.xbnf")
	if err := os.WriteFile(f, []byte("a = 'x'"), 0o644); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "XBNF_DEMO="+f)
	out, _ := c.CombinedOutput()
	if strings.Contains(string(out), "ERROR") || !strings.Contains(string(out), "Abstract Syntax Tree") {
		t.Fatal(string(out))
	}
}''',raw=True,main=True)
