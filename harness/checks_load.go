package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// ---- layouts

var comments = []string{"", " a comment", "x = 'y'", " ( \" ' unbalanced", "//", " 世界 = é", "=", " \\u12", "\t| >"}

// comment is the text of a comment, seldom a long one
func comment(r *rand.Rand) string {
	s := pick(r, comments)
	if r.IntN(40) == 0 {
		s = strings.Repeat(s+"-", pick(r, sizes)/(len(s)+1)+1)
	}
	return s
}

// def writes a definition on one line
func (l *Layout) def(name string, r *Rule) string {
	s := l.ws(false, false) + name + l.ws(false, false) + "=" + l.ws(false, false) + l.top(r, false) + l.ws(false, false)
	if l.chance(15) {
		s += "//" + comment(l.Rand)
	}
	return s
}

// file writes all definitions, with comment and blank lines in between. lineOf tells where each is, from 1.
func (l *Layout) file(g *Grammar) (text string, lineOf map[string]int) {
	lineOf = map[string]int{}
	var b strings.Builder
	line := 1
	end := "\n"
	if l.chance(20) {
		end = "\r\n"
	}
	put := func(s string) {
		b.WriteString(s + end)
		line++
	}
	for i, n := range g.Names {
		for l.chance(25) {
			if l.chance(50) {
				put(l.ws(false, false))
			} else {
				put(l.ws(false, false) + "//" + comment(l.Rand))
			}
		}
		lineOf[n] = line
		s := l.def(n, g.Rules[n])
		if i == len(g.Names)-1 && l.chance(50) {
			b.WriteString(s)
			line++
		} else {
			put(s)
		}
	}
	return b.String(), lineOf
}

// loadCfg makes grammars with every notation in them
func loadCfg(c *Case) Cfg {
	cfg := mixedCfg(c)
	cfg.Annot = []int{0, 15, 50}[c.IntN(3)]
	cfg.Depth = 1 + c.IntN(4)
	cfg.MaxRules = 4
	cfg.Hostile = []int{3, 15, 40}[c.IntN(3)]
	cfg.UniEsc = []int{0, 30}[c.IntN(2)]
	cfg.Names = c.IntN(2) == 0
	switch c.IntN(10) {
	case 0, 1, 2:
		cfg.Alpha = alphaSpecial
	case 3, 4:
		cfg.Alpha = alphaUni
	case 5:
		cfg.Alpha = alphaASCII
	case 6:
		cfg.Alpha = alphaOdd
	}
	if c.IntN(3) == 0 {
		cfg.WSTerm = 20
	}
	if c.IntN(3) == 0 {
		cfg.W[KBlock], cfg.W[KRange] = 8, 10
	}
	return cfg
}

// byRule loads a grammar rule by rule
func byRule(defs [][2]string, parse bool) (*xbnf.Grammar, error) {
	gr := xbnf.NewGrammar()
	for _, d := range defs {
		var err error
		var r xbnf.IRule
		if parse {
			r, err = gr.ParseRule(d[0], d[1])
		} else {
			r, err = gr.AddRule(d[0] + "=" + d[1])
		}
		if err != nil {
			return nil, fmt.Errorf("%s: %v", d[0], err)
		}
		if r == nil || gr.GetRule(d[0]) != r {
			return nil, fmt.Errorf("%s: the rule given back is not that of the grammar", d[0])
		}
	}
	if err := gr.Validate(); err != nil {
		return nil, err
	}
	return gr, nil
}

func scratchFile(c *Case, name, text string) string {
	dir := filepath.Join(os.TempDir(), fmt.Sprintf("vx-scratch-%d", os.Getpid()))
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, name)
	if os.WriteFile(f, []byte(text), 0644) != nil {
		return ""
	}
	return f
}

func dropScratch() {
	os.RemoveAll(filepath.Join(os.TempDir(), fmt.Sprintf("vx-scratch-%d", os.Getpid())))
}

// ways are the grammars got from one known structure on all loading paths, each in its own layout
func (c *Case) ways(g *Grammar) (res []*xbnf.Grammar, names []string) {
	add := func(name, text string, f func() (*xbnf.Grammar, error)) bool {
		c.Set("grammar", text)
		c.Set("way", name)
		var gr *xbnf.Grammar
		var err error
		if !c.Guard("loading", func() { gr, err = f() }) {
			return false
		}
		if err != nil || gr == nil {
			c.Violate("load", "%s: a well-formed grammar is refused: %v", name, err)
			return false
		}
		c.Count("grammars loaded", 1)
		res = append(res, gr)
		names = append(names, name)
		return true
	}
	plain := g.Text()
	if !add("string, plain layout", plain, func() (*xbnf.Grammar, error) { return xbnf.NewGrammarFromString(plain) }) {
		return nil, nil
	}
	l := &Layout{Rand: c.Rand}
	text, _ := l.file(g)
	if !add("string", text, func() (*xbnf.Grammar, error) { return xbnf.NewGrammarFromString(text) }) {
		return nil, nil
	}
	if c.IntN(3) == 0 {
		text2, _ := l.file(g)
		if f := scratchFile(c, "g.xbnf", text2); f != "" {
			defer dropScratch()
			if !add("file", text2, func() (*xbnf.Grammar, error) { return xbnf.NewGrammarFromFile(f) }) {
				return nil, nil
			}
		}
	}
	for _, parse := range []bool{false, true} {
		ln := &Layout{Rand: c.Rand, Newlines: true}
		var defs [][2]string
		for _, n := range g.Names {
			s := ln.ws(false, false) + ln.top(g.Rules[n], false) + ln.ws(false, false)
			if ln.chance(15) {
				s += "//" + comment(ln.Rand)
			}
			name := n
			if !parse {
				name = ln.ws(false, false) + n
			}
			defs = append(defs, [2]string{name, s})
		}
		c.Shuffle(len(defs), func(i, j int) { defs[i], defs[j] = defs[j], defs[i] })
		what := "AddRule"
		if parse {
			what = "ParseRule"
		}
		trimmed := func() (*xbnf.Grammar, error) {
			gr := xbnf.NewGrammar()
			for _, d := range defs {
				var err error
				if parse {
					_, err = gr.ParseRule(d[0], d[1])
				} else {
					_, err = gr.AddRule(d[0] + " = " + d[1])
				}
				if err != nil {
					return nil, fmt.Errorf("%s = %s: %v", d[0], d[1], err)
				}
			}
			return gr, gr.Validate()
		}
		if !add(what, fmt.Sprintf("%q", defs), trimmed) {
			return nil, nil
		}
	}
	return
}

// sameText loads one text on all paths: the grammars must print alike
func (c *Case) sameText(g *Grammar) bool {
	text, _ := (&Layout{Rand: c.Rand}).file(g)
	c.Set("grammar", text)
	var printed [4]string
	var errs [4]error
	ok := c.Guard("loading", func() {
		var gr *xbnf.Grammar
		for i := range printed {
			switch i {
			case 0:
				gr, errs[i] = xbnf.NewGrammarFromString(text)
			case 1, 2:
				gr = xbnf.NewGrammar()
				for _, line := range strings.Split(text, "\n") {
					line = strings.TrimSpace(line)
					if line == "" || strings.HasPrefix(line, "//") || errs[i] != nil {
						continue
					}
					if i == 1 {
						_, errs[i] = gr.AddRule(line)
					} else {
						name, def, _ := strings.Cut(line, "=")
						_, errs[i] = gr.ParseRule(strings.TrimSpace(name), def)
					}
				}
				if errs[i] == nil {
					errs[i] = gr.Validate()
				}
			case 3:
				if c.IntN(3) > 0 {
					continue
				}
				if f := scratchFile(c, "g.xbnf", text); f != "" {
					gr, errs[i] = xbnf.NewGrammarFromFile(f)
					dropScratch()
				}
			}
			if errs[i] == nil {
				printed[i] = rulesText(gr, g.Names) + normalRelation(gr)
			}
		}
	})
	if !ok {
		return false
	}
	for i, what := range []string{"a string", "rules by AddRule", "rules by ParseRule", "a file"} {
		if errs[i] != nil {
			c.Violate("load", "loaded as %s: %v", what, errs[i])
			return false
		}
		if printed[i] != "" && printed[i] != printed[0] {
			c.Violate("layout", "loaded as %s the grammar is\n%s\nloaded as a string\n%s", what, printed[i], printed[0])
			return false
		}
	}
	c.Count("texts loaded on several paths", 1)
	return true
}

// ---- faults

// badDefs are definitions no grammar may have
var badDefs = []string{"", "( 'a'", "'a' )", "[ 'a'", "'a' ]", "{ 'a'", "'a' }", "'a", "\"a", "''", "| 'a'", "'a' |", "'a' >", "> 'a'", "'a' | | 'b'",
	"'a' > > 'b'", "'a' | > 'b'", "< 'a' >", "< >", "< 'a' 'b'", "{ }", "( )", "[ ]", "{ 'a' }<x>", "{ 'a' }<3,2>", "{ 'a' }<1,2,3>", "{ 'a' }<1",
	"{ 'a' }<-1>", "{ 'a' }<99999999999999999999>", "{ 'a' }<4294967296>", "{ 'a' }<1,4294967296>", "{ 'a' }<,99999999999999999999>", "{ 'a' }<4294967295,4294967296>", "'a'-", "'a'-b", "'a'-''", "'ab'-'c'", "'a'-'bc'", "\\u12", "\\u12G4", "\\x", "\\", "@", "=", "&",
	"'a' / 'b'", "'a' /", "123", "~", "~ #", "'a' ~", "( 'a' ~ )", "[ 'a' # ]", "{ $ }", "~| 'a'", "'a' ~| 'b'", "'a' ~ | 'b'", "'a' # > 'b'", "'a' | ~",
	"( 'a' ]", "( [ 'a' ) ]", "\"\\u12\"", "'\\u12'", "\"\\", "'\\'", "EOF-'a'", "< 'a' ^'b' 'c' ^'d' 'e' >", "< ^'a' 'b' >", "< 'a' ^'b' >",
	"< 'a' 'b'! 'c' >", "< 'a' 'b' !", "( )( )", "'a' 'b' !", "* 'a'", "'a'*", "a*", "+", "-'a'", "'a' - 'b'", "#", "$$", "'a' 'b' <", "'a' | ( )",
	"^ 'a'", "\"a\"-\"b\"", "a.b", "// c", "'a' | // c", "é", "'a' 世", ")", "]", "}", ">", "|", "( 'a' | )", "[ | 'a' ]", "{ 'a' | }", "'a' ( 'b'", "\"a\" \"", "'a' '"}

// badTails make any definition malformed when put behind it
var badTails = []string{" )", " ]", " }", " |", " >", " @", " 'x", " \"x", " ''", " ~", " # ", " [ 'a'", " ( 'b'", " { 'c'", " <'a'", " / x", " { 'a' }<2,1>",
	" { 'a' }<b>", " \\u12", " \\q", " 'a'-", " 'a'-''", " ( )", " [ ]", " { }", " 7", " é", " < 'a' >", " | | 'a'", " 'a' > )", " ^", " ! ", " ( 'a' ]", " { [ 'a' } ]", " ~ | 'a'"}

var badHeads = []string{"| ", "> ", ") ", "] ", "} ", "@ ", "'' ", "( ) ", "&& ", "7 ", "^", "* ", "{ ", "[ ", "( ", "< | ", "~ | "}

var badNames = []string{"", "1a", "_a", "a-b", "a b", "é", "~a", "!a", "a.b", "a\tb", "aé", "#a", "'a'", "a!", "_", "$a", "a(", "世", "9", "a'b", "a\"", "0x", "<a>", "a|b", "aЖ", "=", "=a", "a=", "==", " =a", "a=b", "'='", "a//b", "a:", ":a", "a:=", "\ufeffa", "a\u200b", "a\x00"}

var goodNames = []string{"a", "A", "z", "Z", "a1", "a_", "A_B9", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "a_1_b__", "a0123456789", "eof", "Eof", "m", "M"}

func (c *Case) badDef(g *Grammar, r *Rule) string {
	switch c.IntN(4) {
	case 0:
		return pick(c.Rand, badDefs)
	case 1:
		return pick(c.Rand, badHeads) + r.String()
	}
	return r.String() + pick(c.Rand, badTails)
}

// namesLine tells whether a message contains the number as a number of its own
func namesLine(msg string, line int) bool {
	return regexp.MustCompile(fmt.Sprintf(`(^|[^0-9])0*%d($|[^0-9])`, line)).MatchString(msg)
}

// someRule is any place in a definition
func (c *Case) someRule(r *Rule, ok func(*Rule) bool) *Rule {
	var all []*Rule
	r.walk(func(k *Rule) {
		if ok(k) {
			all = append(all, k)
		}
	})
	if len(all) == 0 {
		return nil
	}
	return pick(c.Rand, all)
}

func (c *Case) rejected(text string, line int, what string) bool {
	c.Set("grammar", text)
	var gr *xbnf.Grammar
	var err error
	judge := func(way string) bool {
		if err == nil || gr != nil {
			c.Violate("accepted", "%s: %s is accepted", way, what)
			return false
		}
		if line > 0 && !namesLine(strings.ReplaceAll(err.Error(), "vx-scratch", ""), line) {
			c.Violate("line", "%s: the error does not name line %d: %v", way, line, err)
			return false
		}
		c.Count("faults rejected", 1)
		if line > 0 {
			c.Count("lines named", 1)
		}
		return true
	}
	if !c.Guard("loading", func() { gr, err = xbnf.NewGrammarFromString(text) }) || !judge("string") {
		return false
	}
	if c.IntN(8) == 0 {
		if f := scratchFile(c, "g.xbnf", text); f != "" {
			defer dropScratch()
			if !c.Guard("loading", func() { gr, err = xbnf.NewGrammarFromFile(f) }) {
				return false
			}
			if err != nil {
				err = fmt.Errorf("%s", strings.ReplaceAll(err.Error(), f, "FILE"))
			}
			if !judge("file") {
				return false
			}
		}
	}
	return true
}

// what lines may end with, and texts
var someSpaces = []string{"", " ", "", " ", "\t", "  ", "\r"}
var lineEnds = []string{"", "", "\n", "\n", "\r\n", "\n\n", "\n\t\n", "\n// end", " ", "\n//\n"}

// oneFault puts one fault into a well-formed grammar text
func (c *Case) oneFault() {
	g := gen(c, loadCfg(c))
	gr := g.grammar(-1)
	l := &Layout{Rand: c.Rand}
	text, lineOf := l.file(gr)
	c.Set("grammar", text)
	var err error
	if !c.Guard("loading", func() { _, err = xbnf.NewGrammarFromString(text) }) {
		return
	}
	if err != nil {
		c.Violate("load", "a well-formed grammar is refused: %v", err)
		return
	}
	c.Count("well-formed grammars", 1)
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	name := pick(c.Rand, gr.Names)
	at := lineOf[name] - 1
	insert := func(s string) int { // before or after any line
		i := c.IntN(len(lines) + 1)
		lines = append(lines[:i:i], append([]string{s}, lines[i:]...)...)
		return i
	}
	switch kind := c.IntN(6); kind {
	case 0: // a definition is malformed
		bad := c.badDef(gr, gr.Rules[name])
		lines[at] = name + " = " + bad
		if c.rejected(strings.Join(lines, "\n")+pick(c.Rand, lineEnds), at+1, fmt.Sprintf("the malformed definition %q", bad)) {
			c.Seen(bad)
		}
	case 1: // a line without an equal sign
		s := pick(c.Rand, []string{"abc", "abc 'x'", "'x' | 'y'", "/ abc", "( 'a' )", name, "#", "\x1a", "\x00", "\ufeff", "\u200b", ";", "/* c */", "# c", "-- c", "/", ")", "{", "}", "'", "\"", "|", "<", ">", "EOF", "$" + name, "\\", "\xff", name + " : 'x'", name + " 'x'", ".", "---", "0", "/ /"})
		i := insert(s)
		c.rejected(strings.Join(lines, "\n")+pick(c.Rand, lineEnds), i+1, "a line without equal sign")
	case 2: // a bad name
		n := pick(c.Rand, badNames)
		if strings.HasPrefix(n, "//") { // a comment
			return
		}
		i := insert(pick(c.Rand, someSpaces) + n + pick(c.Rand, someSpaces) + "=" + pick(c.Rand, someSpaces) + gr.Rules[name].String() + pick(c.Rand, someSpaces))
		c.rejected(strings.Join(lines, "\n")+pick(c.Rand, lineEnds), i+1, fmt.Sprintf("the name %q", n))
	case 3: // defined twice
		def := gr.Rules[name].String()
		if c.IntN(2) == 0 {
			def = gr.Rules[pick(c.Rand, gr.Names)].String()
		}
		i := c.IntN(len(lines)-at) + at + 1 // behind the first one
		lines = append(lines[:i:i], append([]string{name + " = " + def}, lines[i:]...)...)
		c.rejected(strings.Join(lines, "\n")+pick(c.Rand, lineEnds), i+1, "a second definition of "+name)
	default: // refers to what nobody defines
		bad := cloneGrammar(gr)
		var r *Rule
		r = c.someRule(bad.Rules[name], func(k *Rule) bool { return k.K <= KRef })
		if r == nil {
			return
		}
		*r = Rule{K: KRef, Ref: pick(c.Rand, []string{"undefined", "nosuch_1", "R", "r", "_", "_", "_x", "__", "_r0", "x9_", "eof", "_EOF", "EOF_", "EOFx", "Eof", "EOF9", "XEOF", "EO"})}
		for _, near := range nearNames(c, gr.Names, 4) { // a name that is nearly one that is defined
			if nameLike.MatchString(near) && near != "EOF" && c.IntN(2) == 0 {
				r.Ref = near
			}
		}
		if bad.Rules[r.Ref] != nil {
			return
		}
		for n := c.IntN(4) * c.IntN(2); n > 0; n-- { // not just once
			if k := c.someRule(bad.Rules[pick(c.Rand, bad.Names)], func(k *Rule) bool { return k.K <= KRef }); k != nil {
				*k = Rule{K: KRef, Ref: r.Ref}
			}
		}
		text, _ := l.file(bad)
		if c.rejected(text, 0, "a reference to the undefined rule "+r.Ref) {
			c.Seen(bad.Rules[name].String())
		}
	}
}

// rootsShown are the root rules as the grammar prints them
func rootsShown(s string) []string {
	line, _, _ := strings.Cut(s, "\n")
	var res []string
	for _, n := range strings.Split(strings.TrimPrefix(line, "Root Rules: "), ",") {
		if n = strings.TrimSpace(n); n != "" {
			res = append(res, n)
		}
	}
	sort.Strings(res)
	return res
}

var nameLike = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)

// undefinedIn tells whether some definition refers to a rule that is not defined
func undefinedIn(g *Grammar) string {
	res := ""
	g.walk(func(r *Rule) {
		if r.K == KRef && g.Rules[r.Ref] == nil {
			res = r.Ref
		}
	})
	return res
}

// history adds good and bad definitions one by one, validates in between, and parses
func (c *Case) history() {
	cfg := rootCfg(c)
	cfg.MinRules, cfg.MaxRules = 3, 7
	cfg.W[KRef] = []int{4, 10, 20}[c.IntN(3)]
	gn := gen(c, cfg)
	all := gn.grammar(-1)
	order := c.Perm(len(all.Names))
	real := xbnf.NewGrammar()
	have := newGrammar()
	twin := xbnf.NewGrammar() // the same without what is rejected
	var log strings.Builder
	valid := false
	look := func() (s string, ok bool) {
		ok = c.Guard("printing", func() {
			ser := real.Serialize(true)
			s = normal(ser) + rulesText(real, all.Names) + strings.Join(rootsShown(ser), ",")
		})
		return
	}
	parses := func(x []rune) (s string, ok bool) {
		ok = c.Guard("parsing", func() {
			ast, err := real.EvalRaw(xbnf.NewCharstreamFromString(string(x)))
			s = fmt.Sprintf("%v\n%s", err != nil, showAST(ast))
		})
		return
	}
	reject := func() bool {
		name := all.Names[order[c.IntN(len(order))]]
		def := c.badDef(all, all.Rules[pick(c.Rand, all.Names)])
		switch c.IntN(6) {
		case 0:
			name = pick(c.Rand, badNames)
			if c.IntN(2) == 0 {
				def = all.Rules[pick(c.Rand, all.Names)].String()
			}
		case 1, 2:
			if len(have.Names) > 0 { // once more
				name = pick(c.Rand, have.Names)
				if c.IntN(2) == 0 {
					def = all.Rules[pick(c.Rand, all.Names)].String()
				}
			}
		case 3:
			name = "zz9"
		}
		before, ok := look()
		if !ok {
			return false
		}
		var x []rune
		var parsedBefore string
		if valid && len(have.Names) > 0 {
			x = gn.wholeText(have, 10)
			if _, _, ok := modelParse(have, x, false, modelBudget); !ok {
				x = nil
			}
		}
		if x != nil {
			if parsedBefore, ok = parses(x); !ok {
				return false
			}
		}
		fmt.Fprintf(&log, "bad: %s = %s\n", name, def)
		c.Set("grammar", log.String())
		var err error
		if !c.Guard("adding", func() {
			if c.IntN(2) == 0 {
				_, err = real.AddRule(name + " = " + def)
			} else {
				_, err = real.ParseRule(name, def)
			}
		}) {
			return false
		}
		if err == nil {
			c.Violate("accepted", "the definition %q = %q is accepted", name, def)
			return false
		}
		c.Count("definitions rejected", 1)
		after, ok := look()
		if !ok {
			return false
		}
		if before != after {
			c.Violate("changed", "the rejected definition %q = %q changed the grammar from\n%s\nto\n%s", name, def, before, after)
			return false
		}
		if x != nil {
			c.Set("text", fmt.Sprintf("%q", string(x)))
			parsed, ok := parses(x)
			if !ok {
				return false
			}
			if parsed != parsedBefore {
				c.Violate("changed", "the rejected definition %q = %q changed a parse from\n%s\nto\n%s", name, def, parsedBefore, parsed)
				return false
			}
		}
		return true
	}
	validate := func() bool {
		log.WriteString("validate\n")
		c.Set("grammar", log.String())
		var err error
		if !c.Guard("validating", func() { err = real.Validate(); twin.Validate() }) {
			return false
		}
		c.Count("validations", 1)
		und := undefinedIn(have)
		valid = err == nil
		if (err != nil) != (und != "") {
			c.Violate("validate", "undefined: %q, but validation says %v", und, err)
			return false
		}
		if err != nil {
			c.Count("open grammars refused", 1)
			return true
		}
		var ser string
		if !c.Guard("printing", func() { ser = real.Serialize(false) }) {
			return false
		}
		roots := append([]string(nil), have.roots()...)
		sort.Strings(roots)
		if got := rootsShown(ser); strings.Join(got, ",") != strings.Join(roots, ",") {
			c.Violate("roots", "root rules %v instead of %v", got, roots)
			return false
		}
		c.Distinct("root sets", roots...)
		for i := 0; i < 4 && len(have.Names) > 0; i++ {
			x := []rune(string(gn.wholeText(have, 10)))
			if i > 1 { // what a rule that is no root matches
				x = []rune(string(gn.textFor(have, have.Rules[pick(c.Rand, have.Names)], 10)))
			}
			p := c.parseOneText(have, real, x)
			c.Set("grammar", log.String())
			if c.failed {
				return false
			}
			if p != nil && c.report(p.D, "match", "name", "shape", "outcome") {
				return false
			}
		}
		return true
	}
	for _, i := range order {
		for c.IntN(3) == 0 {
			if !reject() {
				return
			}
		}
		if c.IntN(3) == 0 && !validate() {
			return
		}
		n := all.Names[i]
		l := &Layout{Rand: c.Rand, Newlines: true}
		def := l.top(all.Rules[n], false)
		fmt.Fprintf(&log, "add: %s = %s\n", n, def)
		c.Set("grammar", log.String())
		var err error
		var r xbnf.IRule
		if !c.Guard("adding", func() {
			r, err = real.AddRule(n + " = " + def)
			twin.AddRule(n + " = " + def)
		}) {
			return
		}
		if err != nil || r == nil || real.GetRule(n) == nil || real.GetRecord(n) == nil {
			c.Violate("load", "the well-formed definition %s = %s is refused: %v", n, def, err)
			return
		}
		have.add(n, all.Rules[n])
		valid = false
		c.Count("definitions added", 1)
	}
	if validate() && reject() {
		validate()
	}
	if !c.failed {
		var got, want string
		if !c.Guard("printing", func() { got, want = normal(real.Serialize(true)), normal(twin.Serialize(true)) }) {
			return
		}
		if got != want {
			c.Violate("changed", "after rejected definitions the grammar is\n%s\ninstead of\n%s", got, want)
			return
		}
	}
	c.Seen(log.String())
	c.Sample(log.String())
}

func fixedFaults(c *Case) {
	try := func(name, def string) (err1, err2, err3 error, ok bool) {
		c.Set("grammar", name+" = "+def)
		ok = c.Guard("loading", func() {
			_, err1 = xbnf.NewGrammarFromString("\n// comment\n\n" + name + " = " + def)
			_, err2 = xbnf.NewGrammar().AddRule(name + " = " + def)
			_, err3 = xbnf.NewGrammar().ParseRule(name, def)
		})
		return
	}
	for _, def := range badDefs {
		e1, e2, e3, ok := try("a", def)
		if !ok {
			return
		}
		if e1 == nil || e2 == nil || e3 == nil {
			c.Violate("accepted", "the definition %q is accepted: %v, %v, %v", def, e1, e2, e3)
			return
		}
		if !namesLine(e1.Error(), 4) {
			c.Violate("line", "the error of %q does not name line 4: %v", def, e1)
			return
		}
		c.Count("faults rejected", 1)
	}
	for _, n := range badNames {
		e1, e2, e3, ok := try(n, "'x'")
		if !ok {
			return
		}
		if e1 == nil || e2 == nil || e3 == nil {
			c.Violate("accepted", "the name %q is accepted: %v, %v, %v", n, e1, e2, e3)
			return
		}
		c.Count("faults rejected", 1)
	}
	for _, n := range goodNames {
		for _, m := range goodNames {
			if m == n {
				continue
			}
			var err error
			text := n + " = 'x' [ " + m + " ]\n" + m + " = \"y\"\n"
			c.Set("grammar", text)
			if !c.Guard("loading", func() { _, err = xbnf.NewGrammarFromString(text) }) {
				return
			}
			if err != nil {
				c.Violate("load", "refused: %v", err)
				return
			}
			c.Count("well-formed grammars", 1)
		}
	}
	for _, n := range []string{"/nonexistent/dir/g.xbnf", os.TempDir()} {
		var gr *xbnf.Grammar
		var err error
		if !c.Guard("loading", func() { gr, err = xbnf.NewGrammarFromFile(n) }) {
			return
		}
		if err == nil || gr != nil {
			c.Violate("accepted", "the file %s loads", n)
			return
		}
	}
}

// ---- round trip

// twin is what two grammars do with the same text
func (c *Case) twin(g *Grammar, gn *Gen, a, b *xbnf.Grammar, what string, texts int) bool {
	for i := 0; i < texts; i++ {
		name := pick(c.Rand, g.Names)
		whole := c.IntN(2) == 0
		var x []rune
		var ok bool
		if whole {
			x = gn.wholeText(g, mixedWS(c))
			_, _, ok = modelParse(g, x, false, modelBudget)
		} else {
			x = gn.textFor(g, g.Rules[name], mixedWS(c))
			_, _, ok = modelEval(g, g.Rules[name], x, 0, fSkip, false, modelBudget)
		}
		if !ok {
			continue
		}
		c.Set("rule", name)
		c.Set("text", fmt.Sprintf("%q", string(x)))
		lev := c.IntN(4) - 1
		run := func(gr *xbnf.Grammar) (s string, matched, ok bool) {
			ok = c.Guard("evaluation", func() {
				if whole {
					ast, err := gr.Eval(xbnf.NewCharstreamFromString(string(x)), lev)
					s = fmt.Sprintf("%v\n%s", err != nil, showAST(ast))
					matched = ast != nil
				} else {
					r := gr.EvalRule(name, string(x))
					s = showResult(r)
					matched = r.Node != nil
				}
			})
			return
		}
		sa, matched, ok := run(a)
		if !ok {
			return false
		}
		sb, _, ok := run(b)
		if !ok {
			return false
		}
		if sa != sb {
			c.Violate("roundtrip", "%s: gives\n%s\ninstead of\n%s", what, sb, sa)
			return false
		}
		c.Count("results compared", 1)
		if matched {
			c.Count("matches compared", 1)
		}
	}
	return true
}

func (c *Case) roundTrip(g *Grammar, gn *Gen, text string) {
	c.Set("grammar", text)
	var orig *xbnf.Grammar
	var err error
	if !c.Guard("loading", func() { orig, err = xbnf.NewGrammarFromString(text) }) {
		return
	}
	if err != nil {
		c.Count("grammar refused", 1) // C15 judges that
		return
	}
	c.Count("grammars loaded", 1)
	printed := map[string]string{}
	var ser, serDetail string
	if !c.Guard("printing", func() {
		for _, n := range g.Names {
			printed[n] = orig.GetRule(n).String()
		}
		ser, serDetail = orig.Serialize(false), orig.Serialize(true)
	}) {
		return
	}
	var file strings.Builder
	var defs [][2]string
	for _, n := range g.Names {
		p := printed[n]
		for _, s := range []string{ser, serDetail} {
			if !strings.Contains(s, "= "+p+"\n") {
				c.Violate("roundtrip", "the printed grammar does not contain the definition %s = %s:\n%s", n, p, s)
				return
			}
		}
		fmt.Fprintf(&file, "%s = %s\n", n, p)
		defs = append(defs, [2]string{n, p})
		c.Count("definitions printed", 1)
	}
	c.Set("printed", file.String())
	for i, f := range []func() (*xbnf.Grammar, error){
		func() (*xbnf.Grammar, error) { return byRule(defs, true) },
		func() (*xbnf.Grammar, error) { return byRule(defs, false) },
		func() (*xbnf.Grammar, error) { return xbnf.NewGrammarFromString(file.String()) },
	} {
		var again *xbnf.Grammar
		if !c.Guard("loading the printed rules", func() { again, err = f() }) {
			return
		}
		if err != nil {
			c.Violate("roundtrip", "the printed definitions do not load (way %d): %v", i, err)
			return
		}
		for _, n := range g.Names {
			var p string
			if !c.Guard("printing", func() { p = again.GetRule(n).String() }) {
				return
			}
			if p != printed[n] {
				c.Violate("roundtrip", "%s is printed as %s, and after loading that (way %d) as %s", n, printed[n], i, p)
				return
			}
		}
		if i == 1 {
			continue
		}
		if !c.twin(g, gn, orig, again, fmt.Sprintf("the grammar rebuilt from the printed definitions (way %d)", i), 4) {
			return
		}
	}
	c.Seen(file.String())
	c.Sample(fmt.Sprintf("grammar:\n%sprinted:\n%s", text, file.String()))
}

// fixedPrintTerminals prints and reloads a terminal of every kind for very many characters
func fixedPrintTerminals(c *Case) {
	step := rune(7)
	if c.Tier == "thorough" {
		step = 1
	}
	for ch := rune(0); ch <= 0x10FFFF; ch++ {
		if ch >= 0x600 && ch%step != 0 && ch&0xFF != 0xFF && ch&0xFF != 0xFE {
			continue
		}
		if ch >= 0xD800 && ch <= 0xDFFF {
			continue
		}
		g := newGrammar()
		kinds := []*Rule{{K: KChar, T: []rune{ch}}, {K: KStr, T: []rune{ch}}, {K: KChars, T: []rune{'x', ch, 'u'}}, {K: KRange, Lo: ch, Hi: 0x10FFFF}, {K: KRange, Lo: 0, Hi: ch}}
		if ch < 0x10000 {
			kinds = append(kinds, &Rule{K: KChar, T: []rune{ch}, UniEscaped: true}, &Rule{K: KRange, Lo: ch, Hi: ch, UniEscaped: true})
		}
		if ch >= 0x600 {
			kinds = kinds[int(ch/step)%len(kinds):][:1]
		}
		for i, r := range kinds {
			g.add(fmt.Sprintf("r%d", i), r)
		}
		text := g.Text()
		c.Set("grammar", text)
		var err error
		var orig *xbnf.Grammar
		if !c.Guard("loading", func() { orig, err = xbnf.NewGrammarFromString(text) }) {
			return
		}
		if err != nil {
			c.Count("grammar refused", 1)
			continue
		}
		for i, r := range kinds {
			name := fmt.Sprintf("r%d", i)
			var p, p2 string
			var same bool
			var detail string
			if !c.Guard("round trip", func() {
				p = orig.GetRule(name).String()
				var again *xbnf.Grammar
				again, err = xbnf.NewGrammarFromString("q = " + p)
				if err != nil {
					return
				}
				p2 = again.GetRule("q").String()
				x := string([]rune{ch})
				if r.K == KChars {
					x = string(r.T)
				}
				a, b := orig.EvalRule(name, x), again.EvalRule("q", x)
				if a.Node != nil {
					a.Node.RuleName = ""
				}
				if b.Node != nil {
					b.Node.RuleName = ""
				}
				detail = showResult(a) + showResult(b)
				same = a.Node != nil && showResult(a) == showResult(b)
			}) {
				return
			}
			if err != nil || p2 != p || !same {
				c.Violate("roundtrip", "%s is printed as %s, which loads (%v) as %s; %s", r, p, err, p2, detail)
				return
			}
			c.Count("definitions printed", 1)
		}
	}
}

func init() {
	register(&Check{
		ID: "C14", Quick: 60000, Thorough: 600000,
		Rule:  "Random grammars of every notation (all terminals, escapes, annotations, bounds, blocks, nestings), written in random layouts, are loaded, each rule printed, and the grammar rebuilt from the printed definitions rule by rule and as a text: it must load, print the same and give the same trees and results, for whole texts and single rules. Definitions of odd looks that load (random sequences of the notation's pieces, random edits of written definitions) are printed and rebuilt, too. Non-trivial: rebuilt and compared; distinct printed grammars are counted. The fixed case prints and reloads terminals for a large part of all characters.",
		Need:  map[string]int{"definitions printed": 5000, "matches compared": 3000, "definitions of odd looks rebuilt": 2000},
		Fixed: []func(*Case){fixedPrintTerminals},
		Random: func(c *Case) {
			if c.IntN(6) == 0 {
				c.soupTrips()
				return
			}
			gn := gen(c, loadCfg(c))
			var g *Grammar
			if c.IntN(30) == 0 {
				g, gn.Alpha = realGrammar(c.IntN(4))
			} else {
				g = gn.grammar(-1)
			}
			l := &Layout{Rand: c.Rand}
			if c.IntN(2) == 0 {
				l.Rand = nil
			}
			text, _ := l.file(g)
			c.roundTrip(g, gn, text)
		},
	})

	register(&Check{
		ID: "C15", Quick: 80000, Thorough: 500000,
		Rule: "Grammars of known structure are written in several random layouts (whitespace of all kinds, comments, blank lines, CRLF, redundant escapes, equivalent bounds, order and repetition of annotations, newlines where definitions are added one by one) and loaded as string, as file, with AddRule and with ParseRule in shuffled order. All must load, print alike, and evaluate as the model of the intended structure says: acceptance, extent, tree, names, marks. Definitions of odd looks (random sequences of the notation's pieces, random edits of written definitions) are read by an independent reader of the notation: those it finds well-formed must load and print as what it read does. Non-trivial: some text matched or a structure compared; distinct grammars are counted.",
		Need: map[string]int{"grammars loaded": 10000, "matches": 5000, "structures compared": 1500},
		Random: func(c *Case) {
			if c.IntN(5) == 0 {
				c.soups(true)
				return
			}
			gn := gen(c, loadCfg(c))
			var g *Grammar
			if c.IntN(40) == 0 {
				g, gn.Alpha = realGrammar(c.IntN(4))
			} else {
				g = gn.grammar(-1)
			}
			all, names := c.ways(g)
			if c.failed || all == nil {
				return
			}
			if !c.sameText(g) {
				return
			}
			hit := false
			for i := 0; i < 6; i++ {
				k := i % len(all)
				c.Set("way", names[k])
				if c.IntN(2) == 0 {
					p := c.parseOneText(g, all[k], []rune(string(gn.wholeText(g, mixedWS(c)))))
					if c.failed {
						return
					}
					if p == nil {
						continue
					}
					if c.report(p.D, "match", "shape", "name", "chars", "flags", "outcome") {
						return
					}
					hit = hit || p.Want.OK
					continue
				}
				name := pick(c.Rand, g.Names)
				e := c.evalOne(g, all[k], name, []rune(string(gn.textFor(g, g.Rules[name], mixedWS(c)))), 0, 0, flags[c.IntN(3)])
				if c.failed {
					return
				}
				if e == nil {
					continue
				}
				if c.report(e.D, "match", "end", "shape", "name", "chars", "flags", "sticky") {
					return
				}
				hit = hit || e.Want.N != nil && e.Want.End > 0
			}
			if hit {
				c.Seen(g.Text())
				c.Sample(c.Detail["grammar"])
			}
		},
	})

	register(&Check{
		ID: "C16", Quick: 144000, Thorough: 800000,
		Rule:  "One fault (malformed definition, missing equal sign, bad name, second definition, undefined reference at any depth) is put into a well-formed grammar text in a random layout: loading must fail, and for a bad line name that line; without the fault it must load. In histories, good and bad definitions are added one by one in random order and the grammar is validated and used in between: rejected definitions must leave the printed grammar and parses as they were, validation must fail exactly while some reference is open, and then root rules and parses must be those of the rules added so far. Definitions of odd looks (random sequences of the notation's pieces, random edits of written definitions) are judged malformed or well-formed by an independent reader of the notation: the one must be rejected and change nothing, the other must load. Non-trivial: fault rejected or history completed; distinct ones are counted.",
		Need:  map[string]int{"faults rejected": 3000, "lines named": 2000, "definitions rejected": 3000, "definitions added": 5000, "open grammars refused": 500, "well-formed grammars": 3000, "malformed definitions of odd looks": 5000, "well-formed definitions of odd looks": 1000},
		Fixed: []func(*Case){fixedFaults},
		Random: func(c *Case) {
			switch c.IntN(5) {
			case 0, 1:
				c.oneFault()
			case 2, 3:
				c.history()
			default:
				c.soups(false)
			}
		},
	})
}
