package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// Cases with one thing in them far bigger than the random ones have: sizes at which counters, buffers and shortcuts
// of an implementation may give way. The model is the same as for the random cases, with a larger budget.

const bigBudget = 40000000

type bigCase struct {
	what  string
	g     *Grammar
	texts []string
	parse bool // the texts are also parsed as a whole
	find  bool // and searched
}

func gram1(rules ...interface{}) *Grammar {
	g := newGrammar()
	for i := 0; i < len(rules); i += 2 {
		g.add(rules[i].(string), rules[i+1].(*Rule))
	}
	return g
}

var bigSizes = []int{255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097}
var hugeSizes = []int{65535, 65536, 65537, 70000, 80000}

// bigCases makes the cases of one size
func bigCases(n int) (cs []bigCase) {
	add := func(what string, g *Grammar, parse, find bool, texts ...string) {
		cs = append(cs, bigCase{what, g, texts, parse, find})
	}
	as := repeat("a", n)
	few := n // of something with several chars, so that no text gets so long that copying it often takes minutes
	if n > 5000 {
		few = n / 7
	}
	add("repetition of a char", gram1("r0", seq(rep(0, 0, ch('a')), ch('b'))), true, false, as+"b", as, as+" b", as[:n-1]+" ab")
	add("repetition with fixed count", gram1("r0", rep(n, n, ch('a'))), true, false, as, as[:n-1], as+"a")
	add("repetition with a minimum", gram1("r0", seq(rep(n, 0, ch('a')), opt(str("b")))), true, false, as, as[:n-1], as+"aa b")
	add("repetition with a maximum", gram1("r0", seq(rep(0, n, ch('a')), rep(0, 0, ch('a')), ch('b'))), true, false, as+"b", as[:n-1]+"b", as+"aab")
	add("repetition of sequences", gram1("r0", rep(0, 0, seq(ref("k"), str(":"), ref("v"), opt(str(",")))), "k", rep(1, 0, rng('a', 'z')), "v", rep(1, 0, rng('0', '9'))), true, false,
		repeat("ab : 12,\n", few), repeat("k:1", few), repeat("k:1,", few)+"x")
	add("long reading ahead", gram1("r0", seq(opt(seq(rep(0, 0, ch('a')), ch('b'))), alt(seq(rep(0, 0, ch('a')), ch('c')), seq(rep(0, 0, ch('a')), ch('d')), ref("x"))), "x", seq(rep(0, 0, ch('a')), opt(ch('e')))), true, false,
		as, as+"b"+as+"c", as+"c", as+"d", as+"f", as+"b"+as+"\n"+as)
	add("chars", gram1("r0", seq(chars("x"+as), ch('y'))), true, true, "x"+as+"y", "x"+as[:n-1]+"y", " \n\tx"+as+"y", "x"+as, "x"+as+" y")
	add("string", gram1("r0", seq(str("x"+as), str("y"))), true, true, "x"+as+"y", "x"+as[:n-1]+"y", " \n\tx"+as+" y", "x"+as, "zx"+as+"yx"+as+"y")
	sp := repeat(" ", n)
	mixed := strings.Repeat(" \t\n\u3000\u2028\r", n/6+1)
	add("whitespace", gram1("r0", seq(str("a"), ch('b'), chars("cd"), rng('x', 'z'), str("e"))), true, true, "a"+sp+"bcdx"+sp+"e", sp+"a"+mixed+"bcdy"+mixed+"e", "a"+sp, "ab"+sp+"cdxe", mixed+"abcdz"+sp+"f")
	add("whitespace as text", gram1("r0", seq(str(sp+"a"), rep(0, 0, ch(' ')), ch('b'))), true, true, sp+"a"+sp+"b", mixed+sp+"ab", sp+" a b", sp[1:]+"a", sp+"ab")
	text := strings.Repeat("wörld 世界 😀\n\t", n/10+1)
	block := &Rule{K: KBlock, Open: str("("), Close: ch(')')}
	add("block", gram1("r0", seq(block, opt(str(";")))), true, true, "("+text+") ;", "("+text, "x("+text+")("+text+");;")
	esc := &Rule{K: KBlock, Open: ch('"'), Esc: ch('\\'), Close: ch('"')}
	add("block with escapes", gram1("r0", esc), true, true, `"`+strings.Repeat(`a\"`, few)+`"`, `"`+as+`\"`+as+`"`, `"`+as+`\"`+as, `"`+strings.Repeat(`\"`, few))
	comment := &Rule{K: KBlock, Open: chars("/*"), Excl: []*Rule{chars("/*"), chars("#!")}, Esc: ch('%'), Close: chars("*/")}
	add("block with excluded texts", gram1("r0", comment), true, true, "/*"+strings.Repeat("* /", few)+"*/", "/*"+as+"%/*"+as+"*/", "/*"+as+"/*"+as+"*/", "/*"+as+"#"+as+"!*/"+as)
	line := &Rule{K: KBlock, Open: ch('#'), Close: ch('\n'), VClose: true}
	add("lines", gram1("r0", rep(0, 0, alt(ref("nl"), ref("c"), ref("w"))), "nl", ch('\n'), "c", line, "w", rep(1, 0, rng('a', 'z'))), true, false, strings.Repeat("#x y\nab\n\n", n/4+1), strings.Repeat("ab\r\n", n/4+1), as+"#"+as+"\n"+as)
	add("many root nodes", gram1("r0", ch('a'), "r1", str("b"), "r2", seq(str("a"), str("c")), "r3", rep(1, 0, ch('d'))), true, true, repeat("a", few), repeat("a b", few), repeat("ab", few)+"a c", repeat("b\n", few)+"x", repeat("b", few)+repeat("d", few))
	if n <= 4097 {
		k := min(n, 1025)
		var kids, texts []*Rule
		var want, group strings.Builder
		for i := 0; i < k; i++ {
			c := rune('a' + i%26)
			kids = append(kids, ch(c))
			want.WriteRune(c)
			texts = append(texts, str(fmt.Sprintf("w%dx", i)))
			group.WriteString("(")
		}
		w := want.String()
		add("sequence", gram1("r0", seq(kids...)), true, false, w, w[:k-1], w+"a", w[:k/2]+" "+w[k/2:])
		alts := alt(texts...)
		add("choice", gram1("r0", alts), true, true, "w0x", fmt.Sprintf("w%dx", k-1), fmt.Sprintf("w%dx", k), fmt.Sprintf("w%dx w%dx", k/2, k-2))
		tie := append([]*Rule{chars("zz")}, texts...)
		add("choice with a tie", gram1("r0", alt(append(tie, seq(ch('z'), ch('z')))...)), true, false, "zz", "z", "w0x")
		longer := append([]*Rule{chars("w0x")}, texts...)
		add("choice with a longer last", gram1("r0", seq(alt(append(longer, chars("w0xy"))...), opt(ch('y')))), true, false, "w0xy", "w0xyy", "w1xy", "w0x")
		var groups [][]*Rule
		for _, t := range texts {
			groups = append(groups, []*Rule{t})
		}
		groups = append(groups, []*Rule{chars("w"), seq(ch('w'), ch('1'))})
		add("ordered choice", gram1("r0", choice(groups...)), true, false, "w0x", fmt.Sprintf("w%dx", k-1), "w", "w1", "w1y", "v")
		// many root rules
		g := newGrammar()
		all, back := "", ""
		for i := 0; i < k/4; i++ {
			if i%2 == 0 {
				g.add(fmt.Sprintf("r%d", i), str(fmt.Sprintf("k%d;", i)))
			} else {
				g.add(fmt.Sprintf("r%d", i), chars(fmt.Sprintf("k%d;", i)))
			}
			all += fmt.Sprintf("k%d;", i)
			back = fmt.Sprintf("k%d; ", i) + back
		}
		add("many root rules", g, true, false, all, back, all+"k;", "k1;k2;k3", "k2; k4;")
		// a chain of references, and of wrappings
		g = newGrammar()
		d := min(k, 400)
		wrap := []func(*Rule) *Rule{func(r *Rule) *Rule { return r }, grp, opt, func(r *Rule) *Rule { return rep(0, 2, r) }, func(r *Rule) *Rule { return alt(r, str("q")) }, func(r *Rule) *Rule { return seq(r, opt(str("p"))) }}
		h := newGrammar()
		for i := 0; i < d; i++ {
			next := ref(fmt.Sprintf("r%d", i+1))
			if i%3 == 0 {
				next.Virt = true
			}
			if i%5 == 0 {
				next.Tok = true
			}
			g.add(fmt.Sprintf("r%d", i), next)
			j := i % len(wrap)
			if j == 3 && i > 12 { // not many of these on each other
				j = 1
			}
			h.add(fmt.Sprintf("r%d", i), wrap[j](ref(fmt.Sprintf("r%d", i+1))))
		}
		g.add(fmt.Sprintf("r%d", d), nond(str("ab")))
		h.add(fmt.Sprintf("r%d", d), chars("ab"))
		add("chain of references", g, true, true, "ab", " ab ab", "b")
		add("chain of rules", h, true, false, "ab", "abp", "abab", "q")
		// nesting of the text
		e := min(k, 500)
		add("nested text", gram1("r0", seq(ch('('), opt(ref("r0")), ch(')')), "s", seq(str("x"), rep(0, 0, ref("r0")), eof())), true, false,
			"x"+repeat("(", e)+repeat(")", e), "x"+repeat("(", e)+repeat(")", e-1), repeat("(", e)+repeat(")", e), "x"+repeat("()", n))
		add("nested list", gram1("r0", seq(str("["), opt(ref("l")), str("]")), "l", seq(ref("e"), rep(0, 0, seq(str(","), ref("e")))), "e", alt(str("1"), str("[")), "t", rep(0, 0, alt(ref("r0"), str("-")))), true, true,
			"["+strings.Repeat("1, ", n)+"1]", strings.Repeat("[1,\n1] -", n), "["+strings.Repeat("1,", n)+"]")
	}
	return
}

func (c *Case) bigSet(cs bigCase) { c.Set("big", cs.what) }

// runBig runs the cases of one size and judges the given kinds of differences
func runBig(n, part, parts int, kinds ...string) func(*Case) {
	return func(c *Case) {
		c.budget = bigBudget
		for i, cs := range bigCases(n) {
			if i%parts != part {
				continue
			}
			c.bigSet(cs)
			gr := c.usable(cs.g)
			if gr == nil {
				if !c.failed {
					c.Violate("load", "a well-formed grammar with something big is refused: %s", c.Detail["load error"])
				}
				return
			}
			for ti, t := range cs.texts {
				x := []rune(t)
				e := c.evalOne(cs.g, gr, cs.g.Names[0], x, 0, 0, flags[ti%3])
				if c.failed {
					return
				}
				if e == nil {
					c.Count("big case beyond the budget", 1)
				} else {
					c.Count("big evaluations", 1)
					if c.report(e.D, kinds...) {
						return
					}
					if e.Got.Node == nil && (e.Got.ErrIdx < 0 || e.Got.ErrIdx > len(x)) {
						c.Violate("err", "index %d of the error is not within the text of %d chars", e.Got.ErrIdx, len(x))
						return
					}
				}
				if cs.parse {
					p := c.parseOneText(cs.g, gr, x)
					if c.failed {
						return
					}
					if p == nil {
						c.Count("big case beyond the budget", 1)
					} else {
						c.Count("big parses", 1)
						if c.report(p.D, kinds...) {
							return
						}
					}
				}
			}
			c.Seen(cs.what, fmt.Sprint(n))
		}
	}
}

// runBigSearch searches texts of one size, with long free text, long matches and many of both
func runBigSearch(n int) func(*Case) {
	return func(c *Case) {
		c.budget = bigBudget
		for _, cs := range bigCases(n) {
			if !cs.find || n > 1025 { // trying a long match everywhere takes quadratic time
				continue
			}
			c.bigSet(cs)
			gr := c.usable(cs.g)
			if gr == nil {
				return
			}
			for _, t := range cs.texts {
				if len(t) > 20000 && strings.HasPrefix(cs.what, "block") {
					continue // each unclosed block is scanned to the end from every place: inherent
				}
				if !c.embedOne(cs.g, gr, cs.g.Names[0], []rune(t)) {
					return
				}
				c.Count("big searches", 1)
			}
		}
		g := gram1("r0", seq(chars("ab"), opt(str("c"))))
		gr := c.usable(g)
		if gr == nil {
			return
		}
		free := repeat("xy\n", n/3+1)
		for _, t := range []string{free, free + "ab" + free, "ab" + free + "abc" + free + "ab", repeat("ab c", n), repeat("abx", n), free + repeat("a", n) + "b", repeat("😀", n) + "ab", repeat(" ", n) + "ab" + repeat(" ", n) + "c"} {
			if !c.embedOne(g, gr, "r0", []rune(t)) {
				return
			}
			c.Count("big searches", 1)
			c.Seen(fmt.Sprint(n), t[:10])
		}
	}
}

// bigTrees makes wide and deep trees
func bigTrees(n int) (ts [][]*Node) {
	leaf := func(t string, sticky bool) *Node {
		return &Node{Type: "chars", Chars: []rune(t), Sticky: sticky, Pos: -1, Line: 1, Col: 1}
	}
	inner := func(kids ...*Node) *Node { return &Node{Type: "concatenate", Kids: kids, Pos: -1, Line: 1, Col: 1} }
	for k := 0; k < 6; k++ {
		var kids []*Node
		for i := 0; i < n; i++ {
			l := leaf(string(rune('a'+i%26)), k == 0 || k == 1 && i%2 == 0 || k == 2 && i%300 != 299)
			switch k {
			case 3:
				l = inner(l)
				l.Virt = i%3 == 0
			case 4:
				l.Nond, l.Virt, l.Name = i%2 == 0, i%5 == 0, []string{"", "n"}[i%2]
			case 5:
				l = &Node{Type: "option", Kids: []*Node{leaf("ab", true)}, Sticky: i%7 > 0, Tok: i%50 == 0, Pos: -1}
			}
			kids = append(kids, l)
		}
		ts = append(ts, []*Node{inner(kids...)}, cloneNodes(kids))
	}
	if n >= 1000 { // long texts
		for k := 0; k < 3; k++ {
			var kids []*Node
			for i := 0; i < 40; i++ {
				l := leaf(strings.Repeat(string(rune('a'+i%26)), n/4+i), k == 0 || k == 1 && i%20 != 19)
				if k == 2 {
					l = inner(leaf(strings.Repeat("x", n), true), leaf(strings.Repeat("y ", n), true))
					l.Virt, l.Nond = i%3 == 0, i%4 == 0
				}
				kids = append(kids, l)
			}
			ts = append(ts, []*Node{inner(kids...)}, cloneNodes(kids))
		}
	}
	for k := 0; k < 4; k++ {
		d := min(n, 150)
		top := leaf("x", true)
		for i := 0; i < d; i++ {
			switch k {
			case 0:
				top = &Node{Type: "group", Kids: []*Node{top}, Pos: -1}
			case 1:
				top = &Node{Type: "concatenate", Name: []string{"", "r"}[i%2], Kids: []*Node{leaf("a", true), top, leaf("b", true)}, Pos: -1}
			case 2:
				top = &Node{Type: "group", Kids: []*Node{top}, Sticky: true, Tok: i%10 == 9, Pos: -1}
			case 3:
				top = &Node{Type: "block", Kids: []*Node{leaf("(", true), leaf(" c ", true), top}, Pos: -1, Nond: i%20 == 19}
			}
		}
		ts = append(ts, []*Node{top})
	}
	return
}

func runBigTrees(n int, judge func(c *Case, raw []*Node, origin string) bool) func(*Case) {
	return func(c *Case) {
		for i, t := range bigTrees(n) {
			c.Set("tree", fmt.Sprintf("big tree %d of size %d", i, n))
			c.Count("big trees", 1)
			if !judge(c, t, "random") {
				return
			}
			c.Seen("big tree", fmt.Sprint(i, n))
		}
	}
}

// runBigStreams reads long texts with long lines and many lines
func runBigStreams(n int) func(*Case) {
	return func(c *Case) {
		for _, t := range []string{repeat("a", n), repeat("\n", n), repeat("ab\n", n/3+1), repeat("a", n) + "\n" + repeat("世", n), repeat(" ", n) + "x" + repeat("\u2028\r\n", n/3)} {
			x := []rune(t)
			for _, back := range []int{0, n / 2, n, len(x)} {
				if back > 0 && !hookBuild {
					continue
				}
				c.streamWalk(x, min(back, len(x)))
				if c.failed {
					return
				}
			}
			c.Seen("big stream", t[:2], fmt.Sprint(n))
		}
	}
}

// streamWalk uses one stream from start to end, with odd steps, from the start or with the first back chars put back
func (c *Case) streamWalk(x []rune, back int) {
	lines := allLines(x)
	c.Set("text", clip(fmt.Sprintf("%q", string(x)), 300))
	c.Set("put back", fmt.Sprint(back))
	c.Guard("reading a long text", func() {
		s := xbnf.NewCharstreamFromString(string(x))
		if back > 0 {
			for i := 0; i < back; i++ {
				s.Next()
			}
			s = prepend(s, append([]rune(nil), x[:back]...))
		}
		cur := 0
		for steps := 0; cur < len(x) || steps < 5; steps++ {
			var o sOp
			switch steps % 8 {
			case 0:
				o = sOp{Kind: opNext}
			case 1:
				o = sOp{Kind: opPeek}
			case 2:
				k := min(len(x)-cur, []int{1, 10, 300, 5000}[steps/8%4])
				o = sOp{Kind: opMatch, Arg: append([]rune{}, x[cur:cur+k]...)}
			case 3:
				o = sOp{Kind: opSkip}
			case 4:
				o = sOp{Kind: opPosition}
			case 5:
				if cur == 0 {
					continue
				}
				o = sOp{Kind: opLookup, Idx: []int{0, cur - 1, cur / 2, max(cur-300, 0)}[steps/8%4]}
			case 6:
				o = sOp{Kind: opCursor}
			case 7: // a match that fails at its last char
				if cur >= len(x) {
					continue
				}
				k := min(len(x)-cur, []int{2, 600, 20, 4200}[steps/8%4])
				o = sOp{Kind: opMatch, Arg: append([]rune{}, x[cur:cur+k]...)}
				o.Arg[k-1]++
			}
			r := doOp(s, o)
			ok, next := stepOp(x, lines, cur, o, r)
			if !ok {
				c.Violate("stream", "after %d chars: %s", cur, clip(o.show(r), 300))
				return
			}
			cur = next
			if cur >= len(x) {
				steps = max(steps, 0)
			}
			c.Count("long text operations", 1)
			if steps > 10*len(x)+100 {
				c.Violate("stream", "the text does not end")
				return
			}
		}
	})
}

// runBigLoad loads grammars with something big in them on all paths
func runBigLoad(n int, what ...string) func(*Case) {
	return func(c *Case) {
		c.budget = bigBudget
		for _, cs := range bigCases(n) {
			if len(what) > 0 && !strings.Contains(strings.Join(what, ";"), cs.what) {
				continue
			}
			c.bigSet(cs)
			all, names := c.ways(cs.g)
			if c.failed || all == nil || !c.sameText(cs.g) {
				return
			}
			for k, gr := range all {
				c.Set("way", names[k])
				for ti, t := range cs.texts {
					if ti > 1 {
						break
					}
					e := c.evalOne(cs.g, gr, cs.g.Names[0], []rune(t), 0, 0, xbnf.SUGGEST_SKIP)
					if c.failed || e != nil && c.report(e.D, "match", "end", "shape", "name", "chars", "flags", "sticky") {
						return
					}
				}
			}
			c.Count("big grammars", 1)
			c.Seen(cs.what, fmt.Sprint(n))
		}
	}
}

func runBigPrint(n int, what ...string) func(*Case) {
	return func(c *Case) {
		for _, cs := range bigCases(n) {
			if len(what) > 0 && !strings.Contains(strings.Join(what, ";"), cs.what) {
				continue
			}
			c.bigSet(cs)
			c.roundTrip(cs.g, gen(c, baseCfg()), cs.g.Text())
			if c.failed {
				return
			}
			// what is printed is what was meant
			again := ""
			gr := c.usable(cs.g)
			if gr == nil || !c.Guard("printing", func() {
				for _, n := range cs.g.Names {
					again += n + " = " + gr.GetRule(n).String() + "\n"
				}
				gr, _ = xbnf.NewGrammarFromString(again)
			}) {
				return
			}
			if gr == nil {
				c.Violate("roundtrip", "the printed definitions do not load")
				return
			}
			c.budget = bigBudget
			for ti, t := range cs.texts {
				e := c.evalOne(cs.g, gr, cs.g.Names[0], []rune(t), 0, 0, flags[ti%3])
				if c.failed || e != nil && c.report(e.D, "match", "end", "shape", "name", "chars", "flags") {
					return
				}
			}
			c.Count("big grammars", 1)
		}
	}
}

// runBigLayout loads a text with long comments, long gaps or many lines that mean nothing
func runBigLayout(n int) func(*Case) {
	return func(c *Case) {
		g := gram1("r0", seq(str("a"), opt(ref("r1")), grp(alt(ch('c'), rng('d', 'f')))), "r1", rep(2, 3, ch('b')))
		defs := []string{`"a" [ r1 ] ( 'c' | 'd'-'f' )`, `{ 'b' }<2,3>`}
		sp := strings.Repeat(" ", n)
		for _, comment := range []string{"-", " 'x'", "= ", "x = 'y' ", "/", "世界 "} {
			comment = "//" + strings.Repeat(comment, n/len(comment)+1)
			c.loadsAs(g, "long comments", "r0 = "+defs[0]+comment+"\n"+comment+"\nr1 = "+defs[1]+" "+comment)
			if c.failed {
				return
			}
		}
		gaps := strings.NewReplacer(" ", sp)
		c.loadsAs(g, "long gaps", sp+"r0"+sp+"="+sp+gaps.Replace(defs[0])+sp+"\n"+sp+"\nr1"+sp+"="+gaps.Replace(defs[1])+sp)
		for _, none := range []string{"\n", "//\n", " \r\n", "// x = 'y'\n"} {
			if !c.failed {
				c.loadsAs(g, "many lines without rules", strings.Repeat(none, n)+"r0 = "+defs[0]+"\n"+strings.Repeat(none, n)+"r1 = "+defs[1]+strings.Repeat("\n"+none, n))
			}
		}
		c.Seen("big layout", fmt.Sprint(n))
	}
}

// loadsAs loads a text that denotes g
func (c *Case) loadsAs(g *Grammar, what, text string) {
	c.Set("big", what)
	c.Set("grammar", clip(text, 500))
	var gr *xbnf.Grammar
	var err error
	if !c.Guard("loading", func() { gr, err = xbnf.NewGrammarFromString(text) }) {
		return
	}
	if err != nil {
		c.Violate("load", "a well-formed grammar with %s is refused: %s", what, clip(err.Error(), 300))
		return
	}
	if gr.GetRecord("x") != nil || gr.GetRecord("r0") == nil || gr.GetRecord("r1") == nil {
		c.Violate("load", "a grammar with %s has other rules than were written", what)
		return
	}
	for _, t := range []string{"abbc", "abbbd", "ac", "abc", "abbbbc", "af", "ag", "b"} {
		e := c.evalOne(g, gr, "r0", []rune(t), 0, 0, xbnf.SUGGEST_SKIP)
		if c.failed || e != nil && c.report(e.D, "match", "end", "shape", "name", "chars", "flags", "sticky") {
			return
		}
	}
	c.Count("big grammars", 1)
}

// runBigListing lists grammars with many rules, long ones, and many references
func runBigListing(n int) func(*Case) {
	return func(c *Case) {
		many := newGrammar()
		for i := 0; i < n; i++ {
			r := chars(fmt.Sprintf("k%d", i))
			switch {
			case i%50 == 7:
				r = seq(ref("r0"), ch('x'), ref("r1"))
			case i%9 == 4:
				r = opt(ref(fmt.Sprintf("r%d", i/2)))
			}
			many.add(fmt.Sprintf("r%d", i), r)
		}
		var refs []*Rule
		for i := 0; i < n; i++ {
			refs = append(refs, ref([]string{"r1", "r1", "r2"}[i%3]))
		}
		cs := []bigCase{{"many rules", many, nil, false, false}, {"many references", gram1("r0", seq(refs...), "r1", ch('x'), "r2", seq(ref("r1"), str("y")), "r3", rep(0, 0, alt(refs[0], refs[2]))), nil, false, false}}
		for _, b := range append(cs, bigCases(n)...) {
			c.bigSet(b)
			l := &Layout{Rand: c.Rand}
			text, lineOf := l.file(b.g)
			var real *xbnf.Grammar
			var err error
			if !c.Guard("loading", func() { real, err = xbnf.NewGrammarFromString(text) }) {
				return
			}
			if err != nil {
				c.Count("grammar refused", 1)
				continue
			}
			var rules []ruleHere
			for _, name := range b.g.Names {
				rules = append(rules, ruleHere{name, b.g.Rules[name], lineOf[name]})
			}
			if !c.judgeListing(real, rules, terminalsOf(rules)) {
				return
			}
			c.Count("big grammars", 1)
		}
		c.Seen("big listing", fmt.Sprint(n))
	}
}

// runLongListing lists the rules of a grammar text with few rules on very many lines, then adds some more
func runLongListing(c *Case) {
	var b strings.Builder
	var rules []ruleHere
	line := 1
	for i, at := range []int{1, 2, 9, 10, 11, 98, 99, 100, 101, 254, 255, 256, 999, 1000, 1001, 4095, 8999, 9998, 9999, 10000, 10001, 20000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 100001, 123456} {
		for ; line < at; line++ {
			if line%1000 == 7 {
				b.WriteString("// comment")
			}
			b.WriteByte('\n')
		}
		r := ruleHere{fmt.Sprintf("r%d", (i*7)%31), chars(fmt.Sprintf("k%d", i)), line}
		if i%3 == 1 {
			r.rule = opt(ref(fmt.Sprintf("r%d", i)))
		}
		fmt.Fprintf(&b, "%s = %s", r.name, r.rule)
		rules = append(rules, r)
	}
	c.Set("grammar", "few rules on 123456 lines")
	for trail := 0; trail < 2; trail++ {
		text := b.String() + strings.Repeat("\n", trail*5)
		var real *xbnf.Grammar
		var err error
		if !c.Guard("loading", func() { real, err = xbnf.NewGrammarFromString(text) }) {
			return
		}
		if err != nil {
			c.Violate("load", "few rules on many lines: %v", err)
			return
		}
		if !c.judgeListing(real, rules, terminalsOf(rules)) {
			return
		}
		more := append([]ruleHere(nil), rules...)
		for i := 0; i < 3; i++ {
			m := ruleHere{fmt.Sprintf("more%d", 9-i), chars("m"), 0}
			if !c.Guard("adding", func() { _, err = real.AddRule(m.name + " = " + m.rule.String()); real.Validate() }) {
				return
			}
			more = append(more, m)
			if !c.judgeListing(real, more, terminalsOf(more)) {
				return
			}
		}
	}
	c.Count("big grammars", 1)
	c.Seen("long listing")
}

// bigFile is a grammar text of many lines; bad is put in as line number at, if at is positive
func bigFile(n, at int, bad string) string {
	var b strings.Builder
	for i := 1; i <= n; i++ {
		switch {
		case i == at:
			b.WriteString(bad)
		case i%7 == 3:
			b.WriteString("// a comment = 'x'")
		case i%11 == 4:
		case i%5 == 0:
			fmt.Fprintf(&b, "n%d = <\"k%d(\" \\u0029> | n%d", i, i, i+1)
		case i == n:
			fmt.Fprintf(&b, "n%d = 'x'", i)
		default:
			fmt.Fprintf(&b, "n%d = \"w%d\"", i, i)
		}
		b.WriteString("\n")
	}
	return b.String()
}

// runBigFaults puts a fault on one of many lines
func runBigFaults(n int) func(*Case) {
	return func(c *Case) {
		lines := []int{1, 2, 127, 128, 255, 256, 257, 999, 1000, 1001, n / 2, n - 1, n}
		c.Set("grammar", fmt.Sprintf("bigFile of %d lines", n))
		good := bigFile(n, 0, "")
		defined, refers := map[string]bool{}, map[string]bool{}
		for _, l := range strings.Split(good, "\n") {
			if name, def, ok := strings.Cut(l, " = "); ok && !strings.HasPrefix(l, "//") {
				defined[name] = true
				if i := strings.LastIndex(def, "| "); i >= 0 {
					refers[def[i+2:]] = true
				}
			}
		}
		extra := ""
		for name := range refers {
			if !defined[name] {
				extra += name + " = 'y'\n"
			}
		}
		var gr *xbnf.Grammar
		var err error
		if !c.Guard("loading", func() { gr, err = xbnf.NewGrammarFromString(good + extra) }) {
			return
		}
		if err != nil {
			c.Violate("load", "a well-formed grammar of %d lines is refused: %v", n, err)
			return
		}
		for name := range defined {
			if gr.GetRecord(name) == nil {
				c.Violate("load", "%s is not in the grammar loaded from %d lines", name, n)
				return
			}
		}
		if extra != "" && !c.rejected(good, 0, "a grammar with undefined rules") {
			return
		}
		for _, at := range lines {
			if at < 1 || at > n {
				continue
			}
			for _, bad := range []string{"bad = ( 'a'", "no equal sign", "n1 n2 = 'x'"} {
				if !c.rejected(bigFile(n, at, bad)+extra, at, fmt.Sprintf("%q on line %d of %d", bad, at, n)) {
					return
				}
				c.Count("big grammars", 1)
			}
		}
		c.Seen("big file", fmt.Sprint(n))
	}
}

func init() {
	bigFixed = func() {
		app := func(id string, fs ...func(*Case)) { checks[id].Fixed = append(checks[id].Fixed, fs...) }
		for id, kinds := range map[string][]string{
			"C01": {"read", "end", "match"}, "C02": {"match", "end", "chars", "read"}, "C03": {"match", "end", "sticky"}, "C04": {"match", "end", "shape", "name", "chars"},
			"C05": {"match", "end", "shape", "chars"}, "C06": {"match", "end", "chars", "read", "shape"}, "C07": {"match", "chars", "shape", "outcome"}, "C08": {"match", "name", "shape", "outcome"},
			"C10": {"pos"}, "C18": {"shape", "name", "chars"}, "C19": {"flags"}, "C24": {"err", "outcome", "match"}} {
			checks[id].BigFrom = len(checks[id].Fixed) + 1
			for _, n := range bigSizes {
				for part := 0; part < 2; part++ {
					app(id, runBig(n, part, 2, kinds...))
				}
			}
			for part := 0; part < 4; part++ {
				app(id, runBig(hugeSizes[part%len(hugeSizes)], part, 4, kinds...))
			}
			need := checks[id].Need
			if need == nil {
				need = map[string]int{}
				checks[id].Need = need
			}
			need["big evaluations"] = 100
		}
		for _, n := range append(append([]int{}, bigSizes...), hugeSizes[0], hugeSizes[3]) {
			app("C23", runBigSearch(n))
		}
		for _, n := range []int{255, 256, 257, 1000, 3000, 5000, 10000, 70000} {
			app("C20", runBigTrees(n, (*Case).judgeMerge))
			app("C21", runBigTrees(n, (*Case).judgeRemoval))
			if n <= 10000 {
				app("C22", runBigTrees(n, (*Case).judgeRedundant))
				app("C27", runBigTrees(n, (*Case).judgeAccessors))
			}
		}
		for _, n := range []int{257, 1025} {
			app("C15", runBigLoad(n))
			app("C14", runBigPrint(n))
		}
		app("C15", runBigLoad(70000, "chars", "string", "repetition with fixed count"))
		app("C14", runBigPrint(70000, "chars", "string", "repetition with fixed count"))
		for _, n := range []int{300, 1100, 5000, 70000} {
			if n <= 5000 {
				app("C16", runBigFaults(n))
			}
			app("C15", runBigLayout(n))
		}
		for _, n := range []int{257, 1025} {
			app("C28", runBigListing(n))
		}
		app("C28", runLongListing)
		for _, n := range append(append([]int{}, bigSizes...), hugeSizes...) {
			app("C11", runBigStreams(n))
		}
	}
}

var bigFixed func()
