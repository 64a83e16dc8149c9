package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// one parse of a whole text
type Pv struct {
	G    *Grammar
	Real *xbnf.Grammar
	X    []rune
	M    *Model
	Want ParseRes
	AST  *xbnf.AST
	Err  error
	D    Diffs
}

func modelParse(g *Grammar, x []rune, strict bool, budget int) (m *Model, res ParseRes, ok bool) {
	m = &Model{G: g, X: x, Budget: budget, Strict: strict}
	ok = m.try(func() { res = m.parse() })
	return
}

func cmpParse(want ParseRes, x []rune, ast *xbnf.AST, err error) (d Diffs) {
	if (ast == nil) == (err == nil) {
		d.add("outcome", "tree: %v, error: %v", ast != nil, err)
		return
	}
	if ast != nil && len(ast.Nodes) == 0 {
		d.add("outcome", "empty tree")
		return
	}
	if ast == nil {
		if want.OK {
			d.add("match", "refused: %v", err)
		}
		return
	}
	if !want.OK {
		d.add("match", "accepted, but nothing matches at %d (ambiguous: %v)", want.At, want.Amb)
		return
	}
	if len(ast.Nodes) != len(want.Nodes) {
		d.add("shape", "%d nodes instead of %d", len(ast.Nodes), len(want.Nodes))
		return
	}
	for i, n := range ast.Nodes {
		if hasNil(n) {
			d.add("shape", "nil node")
			return
		}
		cmpNode(want.Nodes[i], fromReal(n), x, fmt.Sprintf("[%d]", i), &d)
	}
	return
}

// parseOneText parses a text in the model and by the code
func (c *Case) parseOneText(g *Grammar, gr *xbnf.Grammar, x []rune) *Pv {
	p := &Pv{G: g, Real: gr, X: x}
	var ok bool
	p.M, p.Want, ok = modelParse(g, x, false, c.budget)
	if !ok {
		c.Count("beyond the budget", 1)
		return nil
	}
	c.Set("rule", "")
	c.Set("text", fmt.Sprintf("%q", string(x)))
	rec := newRec(string(x), opLimit(p.M.Steps, len(x)))
	if !c.Guard("parsing", func() { p.AST, p.Err = gr.EvalRaw(rec) }) {
		return nil
	}
	p.D = cmpParse(p.Want, x, p.AST, p.Err)
	if p.M.IneffEscapes > 0 && len(p.D) > 0 {
		if _, strict, ok := modelParse(g, x, true, c.budget); ok && len(cmpParse(strict, x, p.AST, p.Err)) == 0 {
			p.D = nil
		}
	}
	c.Count("whole texts", 1)
	c.countModel(p.M)
	c.Count("rounds with several root rules matching", p.Want.Roots)
	if p.Want.OK {
		c.Count("whole texts parsed", 1)
		c.Count("root matches", len(p.Want.Nodes))
	} else if p.Want.Amb {
		c.Count("root ambiguities", 1)
	}
	return p
}

func (c *Case) parseMany(gen *Gen, g *Grammar, texts, ws int, f func(*Pv) bool) {
	gr := c.usable(g)
	if gr == nil {
		return
	}
	nontrivial := false
	for i := 0; i < texts; i++ {
		x := []rune(string(gen.wholeText(g, ws)))
		p := c.parseOneText(g, gr, x)
		if c.failed {
			return
		}
		if p == nil {
			continue
		}
		if p.Want.OK {
			nontrivial = true
		}
		if !f(p) {
			return
		}
	}
	if nontrivial {
		c.Seen(g.Text())
		c.Sample(fmt.Sprintf("grammar:\n%slast text: %s", g.Text(), c.Detail["text"]))
	}
}

// rootCfg makes grammars with several root rules
func rootCfg(c *Case) Cfg {
	cfg := mixedCfg(c)
	cfg.MinRules, cfg.MaxRules = 2, 6
	cfg.W[KRef] = []int{1, 4, 8}[c.IntN(3)]
	cfg.Depth = 1 + c.IntN(3)
	if c.IntN(2) == 0 {
		cfg.Alpha = [][]rune{alphaTiny, alphaSmall}[c.IntN(2)]
	}
	return cfg
}

// aligned tells whether the leaves of a raw tree, in order, are the chars of the text, but for skipped whitespace
// and, in blocks with an escape, dropped chars. This needs no model of matching.
func aligned(g *Grammar, nodes []*Node, x []rune) (bool, string) {
	escapes := false
	g.walk(func(r *Rule) { escapes = escapes || r.K == KBlock && r.Esc != nil })
	states := map[int]bool{0: true}
	var walk func(n *Node, content bool) (bool, string)
	walk = func(n *Node, content bool) (bool, string) {
		if len(n.Kids) > 0 {
			for i, k := range n.Kids {
				if ok, msg := walk(k, n.Type == "block" && i == 1); !ok {
					return false, msg
				}
			}
			return true, ""
		}
		next := map[int]bool{}
		for p := range states {
			if content && escapes {
				// a subsequence: escapes may be left out
				q := p
				for _, ch := range n.Chars {
					for q < len(x) && x[q] != ch {
						q++
					}
					if q >= len(x) {
						q = -1
						break
					}
					q++
				}
				if q >= 0 {
					next[q] = true
					for q < len(x) { // the last chars may have been found too early, and an escape may follow them
						q++
						next[q] = true
					}
				}
				continue
			}
			for q := p; ; q++ {
				if q+len(n.Chars) <= len(x) && sameRunes(x[q:q+len(n.Chars)], n.Chars) {
					next[q+len(n.Chars)] = true
				}
				if q >= len(x) || !isWS(x[q]) {
					break
				}
			}
		}
		if len(next) == 0 {
			return false, fmt.Sprintf("leaf %q does not follow in the text", string(n.Chars))
		}
		states = next
		return true, ""
	}
	for _, n := range nodes {
		if ok, msg := walk(n, false); !ok {
			return false, msg
		}
	}
	for p := range states {
		rest := p
		for rest < len(x) && isWS(x[rest]) {
			rest++
		}
		if rest == len(x) {
			return true, ""
		}
	}
	return false, "the text goes on after the last leaf"
}

func init() {
	const how = "Random grammars without left recursion with several root rules, and texts put together from matches of root rules, then mutated; each text is parsed by the real code and compared with an independent position-indexed model. "

	register(&Check{
		ID: "C07", Quick: 65000, Thorough: 900000,
		Rule:  how + "Judged: accepted or not, and the leaves of the raw tree against the text, once by the model and once by a model-free alignment of leaves and text. Non-trivial: some text was accepted; distinct grammars are counted.",
		Need:  map[string]int{"whole texts parsed": 1000, "aligned": 1000, "rounds with several root rules matching": 500},
		Fixed: []func(*Case){func(c *Case) { knownEscape(c, true) }, fixedRealGrammars},
		Random: func(c *Case) {
			g := gen(c, rootCfg(c))
			gr := g.grammar(-1)
			c.parseMany(g, gr, 8, mixedWS(c), func(p *Pv) bool {
				if c.report(p.D, "match", "chars", "shape", "outcome") {
					return false
				}
				if p.AST != nil && p.M.IneffEscapes == 0 {
					c.Count("aligned", 1)
					if ok, msg := aligned(p.G, fromRealAll(p.AST.Nodes), p.X); !ok {
						c.Violate("account", "%s:\n%s", msg, dumpAll(fromRealAll(p.AST.Nodes)))
						return false
					}
				}
				return true
			})
		},
	})

	register(&Check{
		ID: "C08", Quick: 12000, Thorough: 400000,
		Rule: how + "Each text is parsed 8 times with one grammar and with grammars whose definitions are written in other orders: all must give the same tree, or all fail. Acceptance, root rule taken and ambiguity are compared with the model. Non-trivial: some text was accepted; distinct grammars are counted.",
		Need: map[string]int{"whole texts parsed": 1000, "repeated parses": 10000, "root ambiguities": 200, "rounds with several root rules matching": 500},
		Random: func(c *Case) {
			cfg := rootCfg(c)
			cfg.MinRules, cfg.MaxRules = 3, 7
			cfg.W[KRef] = []int{0, 1, 4}[c.IntN(3)]
			if c.IntN(3) > 0 {
				cfg.Alpha = alphaTiny
			}
			g := gen(c, cfg)
			gr := g.grammar(-1)
			perm := cloneGrammar(gr)
			c.Shuffle(len(perm.Names), func(i, j int) { perm.Names[i], perm.Names[j] = perm.Names[j], perm.Names[i] })
			var real2 *xbnf.Grammar
			c.parseMany(g, gr, 5, mixedWS(c), func(p *Pv) bool {
				if c.report(p.D, "match", "name", "shape", "outcome") {
					return false
				}
				if real2 == nil {
					text := c.Detail["grammar"]
					real2 = c.usable(perm)
					c.Set("grammar shuffled", c.Detail["grammar"])
					c.Set("grammar", text)
					if real2 == nil {
						return false
					}
				}
				var first []*Node
				if p.AST != nil {
					first = fromRealAll(p.AST.Nodes)
				}
				for k := 0; k < 8; k++ {
					use := p.Real
					if k%2 == 1 {
						use = real2
					}
					var ast *xbnf.AST
					var err error
					if !c.Guard("parsing again", func() { ast, err = use.EvalRaw(newRec(string(p.X), opLimit(p.M.Steps, len(p.X)))) }) {
						return false
					}
					c.Count("repeated parses", 1)
					if (ast == nil) != (p.AST == nil) {
						c.Violate("determinism", "parse %d (shuffled: %v): tree %v, the first one: %v (%v, %v)", k, k%2 == 1, ast != nil, p.AST != nil, err, p.Err)
						return false
					}
					if ast != nil && !sameTrees(fromRealAll(ast.Nodes), first) {
						c.Violate("determinism", "parse %d (shuffled: %v) gives\n%sthe first one\n%s", k, k%2 == 1, dumpAll(fromRealAll(ast.Nodes)), dumpAll(first))
						return false
					}
				}
				return true
			})
		},
	})

	register(&Check{
		ID: "C24", Quick: 40000, Thorough: 700000,
		Rule:  how + "Judged: at every level tree or error and never both, acceptance the same at all levels and as in the model; every rule evaluation without a node carries an error with an index within the text; no message contains formatting artefacts, nor those for undefined names and empty texts; in grammars that were never validated and lack some rules, a reference to a missing rule matches nothing. Non-trivial: some text was accepted; distinct grammars are counted.",
		Need:  map[string]int{"whole texts parsed": 1000, "levels": 5000, "no matches": 1000, "undefined names": 100, "messages": 5000, "evaluations with missing rules": 1000},
		Fixed: []func(*Case){fixedOutcomes},
		Random: func(c *Case) {
			cfg := rootCfg(c)
			if c.IntN(3) == 0 {
				cfg.Hostile, cfg.Alpha = 30, []rune("ab%ds1")
			}
			g := gen(c, cfg)
			gr := g.grammar(-1)
			if c.IntN(6) == 0 {
				c.openEvals(g, gr)
				return
			}
			c.parseMany(g, gr, 5, mixedWS(c), func(p *Pv) bool {
				if c.report(p.D, "outcome", "match") {
					return false
				}
				if p.Err != nil {
					c.Count("messages", 1)
					if messageArtefact(p.Err.Error(), gr.Text(), string(p.X)) {
						c.Violate("outcome", "message %q", p.Err)
						return false
					}
				}
				for _, level := range []int{xbnf.LevelRaw, xbnf.LevelBasic, xbnf.LevelNoVertual, xbnf.LevelDataOnly} {
					var ast *xbnf.AST
					var err error
					if !c.Guard("parsing at a level", func() { ast, err = p.Real.Eval(newRec(string(p.X), opLimit(p.M.Steps, len(p.X))), level) }) {
						return false
					}
					c.Count("levels", 1)
					if (ast == nil) == (err == nil) || (ast == nil) != (p.AST == nil) {
						c.Violate("outcome", "level %d: tree %v, error %v; raw: tree %v, error %v", level, ast != nil, err, p.AST != nil, p.Err)
						return false
					}
					if ast != nil {
						for _, n := range ast.Nodes {
							if hasNil(n) {
								c.Violate("outcome", "level %d: nil node", level)
								return false
							}
						}
					}
				}
				return true
			})
			if c.failed {
				return
			}
			c.evalMany(g, gr, 4, mixedWS(c), func(e *Ev) bool {
				if c.report(e.D, "err", "match") {
					return false
				}
				if e.Got.Node == nil {
					if i := e.Got.ErrIdx; i < 0 || i > len(e.X) {
						c.Violate("outcome", "error index %d in a text of %d chars: %v", i, len(e.X), e.Got.Error)
						return false
					}
					c.Count("messages", 1)
					if messageArtefact(e.Got.Error.Error(), gr.Text(), string(e.X)) {
						c.Violate("outcome", "message %q", e.Got.Error)
						return false
					}
				}
				return true
			})
			if c.failed {
				return
			}
			real := c.usable(gr)
			if real == nil {
				return
			}
			c.undefined(real, "no_such_rule", string(g.wholeText(gr, 10)))
			for _, n := range nearNames(c, gr.Names, 2) {
				if !c.failed {
					c.undefined(real, n, string(g.wholeText(gr, 10)))
				}
			}
		},
	})
}

// openEvals judges what a grammar that was never validated and lacks some rules makes of texts: where a missing rule
// is needed, nothing matches.
func (c *Case) openEvals(g *Gen, gr *Grammar) {
	real := xbnf.NewGrammar()
	open := newGrammar()
	for i, n := range gr.Names {
		if i > 0 && c.IntN(3) == 0 {
			continue
		}
		open.add(n, gr.Rules[n])
		var err error
		if !c.Guard("adding", func() { _, err = real.ParseRule(n, gr.Rules[n].String()) }) {
			return
		}
		if err != nil {
			return
		}
	}
	if len(open.Names) == len(gr.Names) {
		return
	}
	c.Set("grammar", open.Text())
	for k := 0; k < 6; k++ {
		name := gr.Names[0]
		if k%2 == 1 {
			name = pick(c.Rand, open.Names)
		}
		e := c.evalOne(open, real, name, []rune(string(g.textFor(gr, gr.Rules[name], mixedWS(c)))), 0, 0, flags[c.IntN(3)])
		if c.failed {
			return
		}
		if e == nil {
			continue
		}
		if c.report(e.D, "err", "match", "end") {
			return
		}
		if i := e.Got.ErrIdx; e.Got.Node == nil && (i < 0 || i > len(e.X)) {
			c.Violate("outcome", "error index %d in a text of %d chars: %v", i, len(e.X), e.Got.Error)
			return
		}
		if e.Got.Error != nil && messageArtefact(e.Got.Error.Error(), open.Text(), string(e.X)) {
			c.Violate("outcome", "message %q", e.Got.Error)
			return
		}
		if !c.cheap(real, real.GetRule(name), e.X) {
			if c.failed {
				return
			}
			continue
		}
		var found *xbnf.EvalResult
		if !c.Guard("EvalEmbed", func() { found = real.EvalEmbed(name, string(e.X)) }) {
			return
		}
		if found == nil || found.Node == nil || hasNil(found.Node) {
			c.Violate("outcome", "searching with a rule of a grammar that lacks some gives no node, or nil nodes")
			return
		}
		c.Count("evaluations with missing rules", 1)
		c.Seen(open.Text())
	}
}

var fmtArtefact = regexp.MustCompile(`%!.\(|%!\(|<nil>|\(0x[0-9a-f]{6,}|0xc0[0-9a-f]{6,}`)

// messageArtefact finds formatting artefacts in a message about the given texts
func messageArtefact(msg string, about ...string) bool {
	if msg == "" {
		return true
	}
	found := fmtArtefact.FindString(msg)
	if found == "" {
		return false
	}
	for _, a := range about {
		if fmtArtefact.MatchString(a) || strings.Contains(a, "%!") {
			return false // it may be a quotation
		}
	}
	return true
}

func artefact(s string) bool {
	return s == "" || strings.Contains(s, "%!") || strings.Contains(s, "<nil>") || strings.Contains(s, "0x")
}

// undefined checks the outcomes for a name nobody defined and for the empty text
func (c *Case) undefined(gr *xbnf.Grammar, name, text string) {
	c.Set("rule", name)
	c.Set("text", fmt.Sprintf("%q", text))
	var r1, r2 *xbnf.EvalResult
	var ast *xbnf.AST
	var err error
	if !c.Guard("evaluating an undefined rule", func() {
		r1 = gr.EvalRule(name, text)
		r2 = gr.EvalEmbed(name, text)
	}) {
		return
	}
	c.Count("undefined names", 1)
	for i, r := range []*xbnf.EvalResult{r1, r2} {
		what := []string{"EvalRule", "EvalEmbed"}[i]
		if r == nil || r.Node != nil || r.Error == nil {
			c.Violate("outcome", "%s of an undefined rule gives no error, or a node", what)
			return
		}
		msg := r.Error.Error()
		if !strings.Contains(msg, name) || artefact(strings.ReplaceAll(msg, name, "")) {
			c.Violate("outcome", "%s of an undefined rule: message %q", what, r.Error)
			return
		}
	}
	for _, level := range []int{xbnf.LevelRaw, xbnf.LevelBasic, xbnf.LevelNoVertual, xbnf.LevelDataOnly} {
		if !c.Guard("parsing the empty text", func() { ast, err = gr.Eval(xbnf.NewCharstreamFromString(""), level) }) {
			return
		}
		if ast != nil || err == nil || artefact(err.Error()) {
			c.Violate("outcome", "empty text at level %d: tree %v, error %v", level, ast != nil, err)
			return
		}
	}
}

func fixedOutcomes(c *Case) {
	for _, text := range []string{"a = 'x'", "a = { 'x' }", "a = [ \"\" ]", "a = EOF", "a = < 'x' 'y' >", "a = b 'x'\nb = 'y' | 'z'", ""} {
		var gr *xbnf.Grammar
		var err error
		c.Set("grammar", text)
		if !c.Guard("loading", func() { gr, err = xbnf.NewGrammarFromString(text) }) || err != nil {
			continue
		}
		for _, t := range []string{"", "x", " ", "xyz\n"} {
			c.undefined(gr, "nosuch", t)
			if c.failed {
				return
			}
		}
	}
	// a reference to an undefined rule in a grammar that was not validated
	gr := xbnf.NewGrammar()
	c.Guard("adding rules", func() { gr.AddRule("a = 'x' missing"); gr.AddRule("b = missing | 'y'"); gr.AddRule("e = [ missing ]") })
	for _, name := range []string{"a", "b", "e"} {
		for _, t := range []string{"", "x", "y", "xy"} {
			var r *xbnf.EvalResult
			if !c.Guard("evaluation", func() { r = gr.EvalRule(name, t) }) {
				return
			}
			if r == nil || (r.Node == nil && (r.Error == nil || artefact(r.Error.Error()))) {
				c.Violate("outcome", "evaluating %s on %q: %+v", name, t, r)
				return
			}
		}
	}
}

// ---- grammars as people write them

func jsonGrammar() *Grammar {
	g := newGrammar()
	digits := alt(ch('0'), ch('1'), ch('2'), ch('3'), ch('4'), ch('5'), ch('6'), ch('7'), ch('8'), ch('9'))
	g.add("digit", digits)
	g.add("integer", seq(ref("digit"), rep(0, 0, ref("digit"))))
	g.add("float", seq(ref("integer"), ch('.'), ref("digit"), rep(0, 0, ref("digit"))))
	g.add("number", seq(str(""), opt(ch('-')), alt(ref("integer"), ref("float"))))
	g.add("string", &Rule{K: KBlock, Open: nond(ch('"')), Esc: ch('\\'), Excl: []*Rule{ch('\n')}, Close: nond(ch('"'))})
	g.add("bool", alt(str("true"), str("false")))
	g.add("literal", alt(ref("number"), ref("string"), ref("bool"), str("null")))
	g.add("array", seq(nond(str("[")), opt(seq(ref("value"), rep(0, 0, seq(nond(str(",")), ref("value"))))), nond(str("]"))))
	g.add("kv", seq(ref("string"), nond(str(":")), ref("value")))
	g.add("object", seq(nond(str("{")), opt(seq(ref("kv"), rep(0, 0, seq(nond(str(",")), ref("kv"))))), nond(str("}"))))
	g.add("value", alt(ref("literal"), ref("array"), ref("object")))
	g.add("json", ref("value"))
	return g
}

func arithGrammar() *Grammar {
	g := newGrammar()
	g.add("exprs", seq(ref("expr"), rep(0, 0, seq(rep(1, 0, alt(str("\n"), str("\r"))), ref("expr")))))
	g.add("expr", seq(ref("term"), rep(0, 0, seq(ref("term_operator"), ref("term")))))
	g.add("term_operator", grp(alt(str("+"), str("-"))))
	g.add("term", seq(ref("factor"), rep(0, 0, seq(ref("factor_operator"), ref("factor")))))
	g.add("factor_operator", grp(alt(str("*"), str("/"))))
	g.add("factor", alt(ref("literal"), ref("variable"), seq(str("("), ref("expr"), str(")"))))
	g.add("literal", alt(ref("integer"), ref("float")))
	g.add("integer", alt(ref("integer_dec"), ref("integer_oct"), ref("integer_hex"), ref("integer_bin")))
	g.add("integer_dec", seq(opt(ch('-')), ref("digit_dec"), rep(0, 0, ref("digit_dec"))))
	g.add("integer_hex", seq(chars("0x"), ref("digit_hex"), rep(0, 0, ref("digit_hex"))))
	g.add("integer_oct", seq(chars("0o"), ref("digit_oct"), rep(0, 0, ref("digit_oct"))))
	g.add("integer_bin", seq(chars("0b"), ref("digit_bin"), rep(0, 0, ref("digit_bin"))))
	g.add("float", seq(opt(ch('-')), rep(0, 0, ref("digit_dec")), ch('.'), ref("digit_dec"), rep(0, 0, ref("digit_dec"))))
	g.add("digit_dec", rng('0', '9'))
	g.add("digit_hex", alt(rng('0', '9'), rng('A', 'F'), rng('a', 'f')))
	g.add("digit_oct", rng('0', '7'))
	g.add("digit_bin", rng('0', '1'))
	g.add("variable", seq(ref("letter"), rep(0, 0, alt(ref("letter"), ref("digit_dec"), ch('_')))))
	g.add("letter", alt(ref("lower"), ref("upper")))
	g.add("upper", rng('A', 'Z'))
	g.add("lower", rng('a', 'z'))
	return g
}

func propertyGrammar() *Grammar {
	g := newGrammar()
	ws := func() *Rule { return virt(rep(0, 0, alt(ref("SPACE"), ref("TAB"), ref("NL")))) }
	end := func() *Rule { return virt(grp(alt(ref("NL"), eof()))) }
	g.add("SPACE", ch(' '))
	g.add("TAB", ch('\t'))
	g.add("NL", ch('\n'))
	g.add("key", seq(ws(), &Rule{K: KBlock, Open: str(""), Esc: ch('\\'), Excl: []*Rule{ref("NL")}, Close: virt(grp(alt(str("="), str(":"))))}))
	g.add("value", seq(ws(), &Rule{K: KBlock, Open: str(""), Esc: ch('\\'), Close: end()}))
	g.add("emptykey", seq(ws(), &Rule{K: KBlock, Open: str(""), Excl: []*Rule{grp(alt(ch('='), ch(':')))}, Close: end()}))
	g.add("property", seq(alt(ref("emptykey"), seq(ref("key"), ref("value"))), virt(rep(0, 0, alt(ref("SPACE"), ref("NL"), ref("TAB"))))))
	return g
}

// program is a small language with keywords, comments and nested statements
func programGrammar() *Grammar {
	g := newGrammar()
	g.add("stmt", alt(ref("assign"), ref("ifs"), ref("block"), ref("call")))
	g.add("assign", seq(ref("ident"), nond(str("=")), ref("value"), nond(str(";"))))
	g.add("call", seq(ref("ident"), nond(str("(")), opt(seq(ref("value"), rep(0, 0, seq(nond(str(",")), ref("value"))))), nond(str(")")), nond(str(";"))))
	g.add("ifs", seq(str("if"), nond(str("(")), ref("value"), nond(str(")")), ref("stmt"), opt(seq(str("else"), ref("stmt")))))
	g.add("block", seq(nond(str("{")), rep(0, 0, ref("stmt")), nond(str("}"))))
	g.add("value", alt(ref("ident"), ref("num"), ref("text"), grp(seq(ref("ident"), str("+"), ref("value")))))
	g.add("ident", seq(str(""), ref("letter"), rep(0, 0, alt(ref("letter"), ref("digit"), ch('_')))))
	g.add("num", seq(str(""), tok(opt(ch('-'))), ref("digit"), rep(0, 3, ref("digit"))))
	g.add("text", seq(str(""), &Rule{K: KBlock, Open: nond(ch('\'')), Esc: ch('\\'), Close: nond(ch('\''))}))
	g.add("comment", virt(&Rule{K: KBlock, Open: str("/*"), Close: chars("*/")}))
	g.add("letter", alt(rng('a', 'z'), rng('A', 'Z')))
	g.add("digit", rng('0', '9'))
	return g
}

func realGrammar(i int) (*Grammar, []rune) {
	switch i % 4 {
	case 0:
		return jsonGrammar(), []rune("{}[]:,\"\\01-.tfn a")
	case 1:
		return arithGrammar(), []rune("0123xobaF_+-*/()\n. z")
	case 2:
		return propertyGrammar(), []rune("=:\\\nab \t")
	}
	return programGrammar(), []rune("if(else){};=+'\\,/*ab1_ ")
}

// fixedRealGrammars drives the grammars people would write with long derived texts
func fixedRealGrammars(c *Case) {
	n := 60
	if c.Tier == "thorough" {
		n = 1500
	}
	for i := 0; i < n; i++ {
		g, alpha := realGrammar(i)
		gn := &Gen{Rand: c.Rand, Cfg: Cfg{Alpha: alpha}}
		gr := c.usable(g)
		if gr == nil {
			return
		}
		for k := 0; k < 4; k++ {
			d := &Deriver{Rand: c.Rand, G: g, Alpha: alpha, WS: 10, Max: 60}
			d.rule(g.Rules[pick(c.Rand, g.roots())], 0)
			if k > 1 {
				d.mutate()
			}
			_ = gn
			p := c.parseOneText(g, gr, []rune(string(d.out)))
			if c.failed {
				return
			}
			if p == nil {
				continue
			}
			if c.report(p.D, "match", "chars", "shape", "outcome") {
				return
			}
			if p.AST != nil && p.M.IneffEscapes == 0 {
				c.Count("aligned", 1)
				if ok, msg := aligned(p.G, fromRealAll(p.AST.Nodes), p.X); !ok {
					c.Violate("account", "%s:\n%s", msg, dumpAll(fromRealAll(p.AST.Nodes)))
					return
				}
			}
		}
	}
}
