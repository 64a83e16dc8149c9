package main

import (
	"fmt"

	"github.com/cnsgfk/xbnf"
)

const modelBudget = 30000

// one evaluation of one rule, model and code side by side
type Ev struct {
	G    *Grammar
	Real *xbnf.Grammar
	Name string
	X    []rune
	Pos  int
	Back int
	Flag int
	M    *Model
	Want Res
	Rec  *Rec
	Got  *xbnf.EvalResult
	D    Diffs
}

func (e *Ev) describe(c *Case) {
	c.Set("rule", e.Name)
	c.Set("text", fmt.Sprintf("%q", string(e.X)))
	c.Set("at", fmt.Sprint(e.Pos))
	c.Set("put back", fmt.Sprint(e.Back))
	c.Set("flag", fmt.Sprint(e.Flag))
}

// countModel adds up what the model saw, which is what the evaluated code had to deal with
func (c *Case) countModel(m *Model) {
	c.Count("ambiguous choices", m.Ambiguities)
	c.Count("repetitions ended by an empty match", m.EmptyReps)
	c.Count("escapes protecting something", m.Escapes)
	c.Count("escapes protecting nothing", m.IneffEscapes)
	c.Count("excluded text met", m.ExclHits)
	c.Count("reusable closes", m.VCloses)
	c.Count("sequences given up after some elements", m.FailedAhead)
	c.Count("choices with several matches", m.MultiMatch)
	c.Count("choices decided by a later group", m.GroupFallbacks)
	c.Count("repetitions stopped by their maximum", m.MaxReached)
	c.Count("repetitions below their minimum", m.MinMissed)
}

// modelEval evaluates in the model; ok is false if it takes too long
func modelEval(g *Grammar, r *Rule, x []rune, pos, flag int, strict bool, budget int) (m *Model, res Res, ok bool) {
	m = &Model{G: g, X: x, Budget: budget, Strict: strict}
	ok = m.try(func() { res = m.eval(r, pos, flag) })
	return
}

// evalOne evaluates one rule. It returns nil if the case is beyond the budget of the model or the code crashed.
func (c *Case) evalOne(g *Grammar, gr *xbnf.Grammar, name string, x []rune, pos, back, flag int) *Ev {
	e := &Ev{G: g, Real: gr, Name: name, X: x, Pos: pos, Back: back, Flag: flag}
	var ok bool
	e.M, e.Want, ok = modelEval(g, g.Rules[name], x, pos, flag, false, c.budget)
	if !ok {
		c.Count("beyond the budget", 1)
		return nil
	}
	e.describe(c)
	rule := gr.GetRule(name)
	if rule == nil {
		c.Violate("match", "rule %s is gone", name)
		return nil
	}
	e.Rec, e.Got, ok = evalAt(c, gr, rule, x, pos, back, flag, opLimit(e.M.Steps, len(x)))
	if !ok {
		return nil
	}
	e.D = cmpResult(e.Want, pos, x, e.Got)
	if len(e.D) > 0 && e.M.IneffEscapes > 0 {
		if _, strictRes, ok := modelEval(g, g.Rules[name], x, pos, flag, true, c.budget); ok {
			if d := cmpResult(strictRes, pos, x, e.Got); len(d) == 0 {
				e.D = nil
			}
		}
	} else if e.M.IneffEscapes > 0 && e.Want.N != nil {
		if _, strictRes, ok := modelEval(g, g.Rules[name], x, pos, flag, true, c.budget); ok {
			if d := cmpResult(strictRes, pos, x, e.Got); len(d.only("chars")) > 0 {
				c.Count("escapes protecting nothing, doubled", 1)
			}
		}
	}
	c.Count("rule evaluations", 1)
	c.countModel(e.M)
	if e.Want.N != nil {
		c.Count("matches", 1)
		if e.Want.End > pos {
			c.Count("chars matched", e.Want.End-pos)
		}
	} else {
		c.Count("no matches", 1)
	}
	if e.Got != nil && len(e.Got.CharsUnused) > 0 {
		c.Count("chars read ahead and given back", len(e.Got.CharsUnused))
	}
	return e
}

var flags = []int{xbnf.SUGGEST_SKIP, xbnf.SUGGEST_NOT_SKIP, xbnf.NOT_SKIP}

// evalMany evaluates rules of a grammar on several texts, f judges each
func (c *Case) evalMany(gen *Gen, g *Grammar, texts, ws int, f func(*Ev) bool) {
	gr := c.usable(g)
	if gr == nil {
		return
	}
	nontrivial := false
	for i := 0; i < texts; i++ {
		name := g.Names[0]
		if c.IntN(3) == 0 {
			name = pick(c.Rand, g.Names)
		}
		x := []rune(string(gen.textFor(g, g.Rules[name], ws)))
		flag := flags[c.IntN(3)]
		if c.IntN(3) == 0 {
			flag = xbnf.SUGGEST_SKIP
		}
		pos, back := 0, 0
		if len(x) > 0 && c.IntN(4) == 0 {
			pos = c.IntN(len(x) + 1)
		}
		if hookBuild && pos < len(x) && c.IntN(4) == 0 {
			back = c.IntN(len(x) - pos + 1)
		}
		e := c.evalOne(g, gr, name, x, pos, back, flag)
		if c.failed {
			return
		}
		if e == nil {
			continue
		}
		if e.Want.N != nil && e.Want.End > pos {
			nontrivial = true
		}
		if !f(e) {
			return
		}
	}
	if c.IntN(12) == 0 && !gen.isBig {
		c.allShort(g, gr, f)
		if c.failed {
			return
		}
	}
	if nontrivial {
		c.Seen(g.Text())
		c.Sample(fmt.Sprintf("grammar:\n%slast text: %s", g.Text(), c.Detail["text"]))
	}
}

// allShort evaluates a rule on all texts of up to 4 chars made of two chars of the grammar and a space
func (c *Case) allShort(g *Grammar, gr *xbnf.Grammar, f func(*Ev) bool) {
	var of []rune
	g.walk(func(r *Rule) {
		for _, ch := range append([]rune{r.Lo, r.Hi}, r.T...) {
			if ch != 0 && ch != ' ' && len(of) < 20 {
				of = append(of, ch)
			}
		}
	})
	if len(of) == 0 {
		return
	}
	c.Shuffle(len(of), func(i, j int) { of[i], of[j] = of[j], of[i] })
	abc := []rune{' ', of[0]}
	for _, ch := range of[1:] {
		if ch != of[0] {
			abc = append(abc, ch)
			break
		}
	}
	name := g.Names[0]
	if c.IntN(4) == 0 {
		name = pick(c.Rand, g.Names)
	}
	flag := flags[c.IntN(3)]
	level, dear := [][]rune{nil}, 0
	for n := 0; n <= 4; n++ {
		var next [][]rune
		for _, x := range level {
			e := c.evalOne(g, gr, name, x, 0, 0, flag)
			if c.failed {
				return
			}
			if e == nil {
				if dear++; dear > 3 {
					return
				}
				continue
			}
			if !f(e) {
				return
			}
			for _, ch := range abc {
				next = append(next, append(x[:len(x):len(x)], ch))
			}
		}
		level = next
	}
	c.Count("grammars tried with all short texts", 1)
}

func gen(c *Case, cfg Cfg) *Gen { return &Gen{Rand: c.Rand, Cfg: cfg} }

// mixedCfg is a random profile for all-round checks
func mixedCfg(c *Case) Cfg {
	cfg := baseCfg()
	switch c.IntN(16) {
	case 0, 1, 2:
		cfg.Alpha = alphaTiny
	case 3, 4:
		cfg.Alpha = alphaMid
	case 5, 6:
		cfg.Alpha = alphaUni
	case 7, 8:
		cfg.Alpha = alphaSpecial
	case 9:
		cfg.Alpha = twoOf(c.Rand, alphaOdd)
	case 10:
		cfg.Alpha = twoOf(c.Rand, alphaASCII)
	}
	if c.IntN(4) == 0 {
		cfg.WSTerm = 25
	}
	cfg.Annot = []int{0, 10, 40}[c.IntN(3)]
	cfg.Depth = 2 + c.IntN(3)
	cfg.Names = c.IntN(3) == 0
	cfg.UniEsc = 20
	switch c.IntN(5) {
	case 0: // many alternatives
		cfg.W[KChoice] = 25
	case 1:
		cfg.W[KRep], cfg.W[KConcat] = 15, 20
	case 2:
		cfg.W[KBlock] = 10
	}
	return cfg
}

func mixedWS(c *Case) int { return []int{0, 10, 30, 60}[c.IntN(4)] }

func init() {
	const how = "Random grammars without left recursion (shapes, alphabets, whitespace and annotations vary by case) and texts derived from them, then mutated; each rule is evaluated by the real code on a recording stream at some index, with one of the three whitespace modes, and the result is compared with an independent position-indexed model of the notation. "

	register(&Check{
		ID: "C01", Quick: 65000, Thorough: 900000,
		Rule:  how + "Judged: chars read against the stream and the text, chars unused, cursor movement, and a second evaluation on the stream with the unused chars put back. Non-trivial: a grammar some text of which was matched with at least one char; distinct grammars are counted.",
		Need:  map[string]int{"matches": 1000, "chars read ahead and given back": 1000, "resumed": 100},
		Fixed: []func(*Case){fixedResume},
		Random: func(c *Case) {
			g := gen(c, mixedCfg(c))
			gr := g.grammar(-1)
			c.evalMany(g, gr, 8, mixedWS(c), func(e *Ev) bool {
				if c.report(e.D, "read", "end", "match") {
					return false
				}
				// the stream below moved by exactly the chars reported as read (those put back before had been read already)
				moved := e.Rec.cs.Cursor() - e.Pos
				exp := len(e.Got.CharsRead)
				if exp < e.Back {
					exp = e.Back
				}
				if moved != exp {
					c.Violate("read", "%d chars taken from the stream, %d reported as read (%d had been put back before)", moved, len(e.Got.CharsRead), e.Back)
					return false
				}
				return c.resume(e)
			})
		},
	})

	register(&Check{
		ID: "C02", Quick: 78000, Thorough: 900000,
		Rule:  how + "Here rules are terminals, alone or as elements of small sequences, with chars from all of Unicode, whitespace and boundary code points. Judged: match or not, chars of the node, chars consumed. Non-trivial: something was matched; distinct grammars are counted.",
		Need:  map[string]int{"matches": 1000},
		Fixed: []func(*Case){fixedTerminals},
		Random: func(c *Case) {
			cfg := baseCfg()
			cfg.W = [numKinds]int{KChar: 10, KChars: 10, KStr: 10, KRange: 10, KEOF: 4, KConcat: 5, KRef: 2, KOpt: 2, KRep: 2, KChoice: 2}
			cfg.Alpha = [][]rune{alphaTiny, alphaSmall, alphaUni, alphaUni, alphaSpecial, randomAlpha(c)}[c.IntN(6)]
			cfg.WSTerm = []int{0, 20, 50, 90}[c.IntN(4)]
			cfg.Depth = c.IntN(2)
			cfg.MaxLen = 5
			cfg.MaxRules = 4
			cfg.UniEsc = 30
			g := gen(c, cfg)
			gr := g.grammar(-1)
			c.evalMany(g, gr, 10, []int{0, 15, 40, 70}[c.IntN(4)], func(e *Ev) bool {
				return !c.report(e.D, "match", "end", "chars", "read")
			})
		},
	})

	register(&Check{
		ID: "C03", Quick: 96000, Thorough: 800000,
		Rule:  how + "Texts have much whitespace of all kinds between and inside tokens. Judged: match, chars consumed, stickiness of results and nodes. The whitespace predicate is tried on every code point. Non-trivial: something was matched; distinct grammars are counted.",
		Need:  map[string]int{"matches": 1000},
		Fixed: []func(*Case){fixedWhiteSpaceSet},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			cfg.Annot = []int{0, 0, 15, 50}[c.IntN(4)]
			if c.IntN(3) == 0 {
				cfg.W[KRef] = 20
			}
			cfg.WSTerm = []int{0, 5, 25}[c.IntN(3)]
			cfg.W[KConcat], cfg.W[KOpt], cfg.W[KStr] = 20, 8, 10
			cfg.Alpha = [][]rune{alphaTiny, alphaSmall, alphaMid, alphaUni}[c.IntN(4)]
			g := gen(c, cfg)
			gr := g.grammar([]int{int(KConcat), int(KConcat), int(KRep), int(KChoice), int(KOpt), -1}[c.IntN(6)])
			c.evalMany(g, gr, 10, []int{20, 40, 60}[c.IntN(3)], func(e *Ev) bool {
				return !c.report(e.D, "match", "end", "sticky")
			})
		},
	})

	register(&Check{
		ID: "C04", Quick: 60000, Thorough: 700000,
		Rule: how + "The rules evaluated are choices with many overlapping alternatives in one or several groups. Judged: match or not (ambiguity included), alternative taken, chars consumed; then the alternatives of each group are written in another order and the outcome must stay the same. Non-trivial: something was matched; distinct grammars are counted.",
		Need: map[string]int{"matches": 1000, "ambiguous choices": 200, "choices with several matches": 500, "choices decided by a later group": 200, "permuted": 500},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			cfg.W[KChoice] = 18
			cfg.Alpha = [][]rune{alphaTiny, alphaTiny, alphaSmall}[c.IntN(3)]
			cfg.MaxKids = 5
			cfg.Depth = 2 + c.IntN(2)
			g := gen(c, cfg)
			gr := g.grammar(int(KChoice))
			var evs []*Ev
			c.evalMany(g, gr, 8, mixedWS(c), func(e *Ev) bool {
				evs = append(evs, e)
				return !c.report(e.D, "match", "end", "shape", "name", "chars")
			})
			if c.failed || len(evs) == 0 {
				return
			}
			perm := cloneGrammar(gr)
			perm.walk(func(r *Rule) {
				for _, group := range r.Groups {
					c.Shuffle(len(group), func(i, j int) { group[i], group[j] = group[j], group[i] })
				}
			})
			c.Set("grammar before", c.Detail["grammar"])
			real2 := c.usable(perm)
			if real2 == nil {
				return
			}
			for _, e := range evs {
				if e.Back > 0 {
					continue
				}
				e.describe(c)
				_, res, ok := evalAt(c, real2, real2.GetRule(e.Name), e.X, e.Pos, 0, e.Flag, opLimit(e.M.Steps, len(e.X)))
				if !ok {
					return
				}
				c.Count("permuted", 1)
				a, b := e.Got, res
				if (a.Node == nil) != (b.Node == nil) {
					c.Violate("order", "with the alternatives in another order: match %v instead of %v", b.Node != nil, a.Node != nil)
					return
				}
				if a.Node == nil {
					continue
				}
				if len(a.CharsRead)-len(a.CharsUnused) != len(b.CharsRead)-len(b.CharsUnused) || !sameTree(fromReal(a.Node), fromReal(b.Node)) {
					c.Violate("order", "with the alternatives in another order:\n%sinstead of\n%s", dump(fromReal(b.Node)), dump(fromReal(a.Node)))
					return
				}
			}
		},
	})

	register(&Check{
		ID: "C05", Quick: 78000, Thorough: 900000,
		Rule:  how + "The rules evaluated are sequences, options, groups, references and bounded repetitions, nested. Judged: match or not, chars consumed, number of repetitions. Non-trivial: something was matched; distinct grammars are counted.",
		Need:  map[string]int{"matches": 1000, "sequences given up after some elements": 500, "repetitions stopped by their maximum": 200, "repetitions below their minimum": 200},
		Fixed: []func(*Case){fixedBounds},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			cfg.W = [numKinds]int{KChar: 8, KChars: 8, KStr: 7, KRange: 3, KEOF: 1, KRef: 9, KConcat: 14, KChoice: 4, KGroup: 5, KOpt: 8, KRep: 14, KBlock: 1}
			cfg.Depth = 3 + c.IntN(2)
			if cfg.WSTerm > 10 {
				cfg.WSTerm = 10
			}
			g := gen(c, cfg)
			gr := g.grammar([]int{int(KConcat), int(KRep), int(KOpt), int(KGroup), int(KRef), -1}[c.IntN(6)])
			c.evalMany(g, gr, 8, mixedWS(c), func(e *Ev) bool {
				return !c.report(e.D, "match", "end", "shape", "chars")
			})
		},
	})

	register(&Check{
		ID: "C06", Quick: 80000, Thorough: 1000000,
		Rule:  how + "The rules evaluated are blocks with overlapping open, escape, exclude and close rules, alone or in sequences. Judged: match or not, content, chars consumed and given back. Non-trivial: something was matched; distinct grammars are counted.",
		Need:  map[string]int{"matches": 1000, "escapes protecting something": 200, "excluded text met": 200, "reusable closes": 100},
		Fixed: []func(*Case){func(c *Case) { knownEscape(c, false) }},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			cfg.Alpha = [][]rune{alphaTiny, alphaTiny, alphaSmall, []rune("\"\\/*ab\n"), alphaUni}[c.IntN(5)]
			cfg.W[KBlock] = 16
			cfg.Depth = 1 + c.IntN(3)
			cfg.MaxRules = 4
			g := gen(c, cfg)
			kind := int(KBlock)
			if c.IntN(4) == 0 {
				kind = int(KConcat)
			}
			var gr *Grammar
			if c.IntN(3) == 0 {
				gr = g.focusBlock()
			} else {
				gr = g.grammar(kind)
			}
			c.evalMany(g, gr, 10, []int{0, 5, 20}[c.IntN(3)], func(e *Ev) bool {
				return !c.report(e.D, "match", "end", "chars", "read", "shape")
			})
		},
	})

	register(&Check{
		ID: "C10", Quick: 45000, Thorough: 600000,
		Rule: how + "Texts have many newlines, carriage returns, other whitespace and wide chars. Judged: the position of every node with text, for single rules and for whole parses. Non-trivial: something was matched; distinct grammars are counted.",
		Need: map[string]int{"matches": 1000, "nodes below line 1": 1000, "whole texts parsed": 300},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			cfg.WSTerm = []int{4, 15, 40}[c.IntN(3)]
			if c.IntN(3) == 0 {
				cfg.Alpha = append([]rune{'\n'}, cfg.Alpha...)
			}
			g := gen(c, cfg)
			gr := g.grammar(-1)
			ws := []int{20, 40, 60}[c.IntN(3)]
			var judge func(n *Node, path string) bool
			lines := 0
			judge = func(n *Node, path string) bool {
				if n.Line > 1 {
					lines++
				}
				if hasText(n) && n.Line == 0 {
					c.Violate("pos", "%s%s has text but no position", path, n.Type)
					return false
				}
				if len(n.Kids) > 0 && hasText(n) {
					for _, k := range n.Kids {
						if k.Line > 0 {
							if k.Line != n.Line || k.Col != n.Col {
								c.Violate("pos", "%s%s is at %d:%d, its first positioned child at %d:%d", path, n.Type, n.Line, n.Col, k.Line, k.Col)
								return false
							}
							break
						}
					}
				}
				for _, k := range n.Kids {
					if !judge(k, path+n.Type+"/") {
						return false
					}
				}
				return true
			}
			c.evalMany(g, gr, 6, ws, func(e *Ev) bool {
				if c.report(e.D, "pos") {
					return false
				}
				return e.Got.Node == nil || judge(fromReal(e.Got.Node), "")
			})
			if c.failed {
				return
			}
			c.parseMany(g, gr, 3, ws, func(p *Pv) bool {
				if c.report(p.D, "pos") {
					return false
				}
				if p.AST != nil {
					for _, n := range p.AST.Nodes {
						if !judge(fromReal(n), "") {
							return false
						}
					}
				}
				return true
			})
			c.Count("nodes below line 1", lines)
		},
	})

	register(&Check{
		ID: "C18", Quick: 60000, Thorough: 700000,
		Rule: how + "Judged: kind, name, number and kind of children of every node of the raw tree, for single rules and whole parses, and that every node is derived by its rule. Non-trivial: something was matched; distinct grammars are counted.",
		Need: map[string]int{"matches": 1000, "nodes": 10000, "whole texts parsed": 300},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			g := gen(c, cfg)
			gr := g.grammar(-1)
			nodes := 0
			c.evalMany(g, gr, 7, mixedWS(c), func(e *Ev) bool {
				if c.report(e.D, "shape", "name", "chars") {
					return false
				}
				if e.Got.Node != nil {
					nodes += e.Got.Node.CountNodes()
					if msg := derives(gr, gr.Rules[e.Name], fromReal(e.Got.Node)); msg != "" {
						c.Violate("derivation", "%s", msg)
						return false
					}
				}
				return true
			})
			if c.failed {
				return
			}
			c.parseMany(g, gr, 3, mixedWS(c), func(p *Pv) bool { return !c.report(p.D, "shape", "name", "chars") })
			c.Count("nodes", nodes)
		},
	})

	register(&Check{
		ID: "C19", Quick: 45000, Thorough: 600000,
		Rule: how + "Elements are annotated at random, references through several levels. Judged: the marks on every node; then all annotations are taken out of the grammar and the outcome must be the same but for the marks. Non-trivial: a tree with a marked node; distinct grammars are counted.",
		Need: map[string]int{"matches": 1000, "marked nodes": 1000, "compared without annotations": 500},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			cfg.Annot = []int{20, 40, 70}[c.IntN(3)]
			cfg.W[KRef] = 16
			cfg.MinRules = 3
			cfg.W[KEOF] = 2
			g := gen(c, cfg)
			gr := g.grammar(-1)
			var evs []*Ev
			marked := 0
			c.evalMany(g, gr, 8, mixedWS(c), func(e *Ev) bool {
				if c.report(e.D, "flags") {
					return false
				}
				evs = append(evs, e)
				if e.Want.N != nil {
					marked += countMarked(e.Want.N)
				}
				return true
			})
			c.Count("marked nodes", marked)
			if c.failed || len(evs) == 0 {
				return
			}
			bare := cloneGrammar(gr)
			bare.walk(func(r *Rule) { r.Tok, r.Virt, r.Nond = false, false, false })
			real2 := c.usable(bare)
			if real2 == nil {
				return
			}
			for _, e := range evs {
				e.describe(c)
				_, res, ok := evalAt(c, real2, real2.GetRule(e.Name), e.X, e.Pos, 0, e.Flag, opLimit(e.M.Steps, len(e.X)))
				if !ok {
					return
				}
				c.Count("compared without annotations", 1)
				a, b := e.Got, res
				if (a.Node == nil) != (b.Node == nil) {
					c.Violate("annotation", "without annotations: match %v instead of %v", b.Node != nil, a.Node != nil)
					return
				}
				if a.Node != nil {
					ta, tb := clearMarks(fromReal(a.Node)), clearMarks(fromReal(b.Node))
					if len(a.CharsRead)-len(a.CharsUnused) != len(b.CharsRead)-len(b.CharsUnused) || !sameTree(ta, tb) {
						c.Violate("annotation", "without annotations:\n%sinstead of\n%s", dump(tb), dump(ta))
						return
					}
				}
			}
		},
	})
}

func countMarked(n *Node) int {
	k := 0
	if n.Tok || n.Virt || n.Nond {
		k = 1
	}
	for _, kid := range n.Kids {
		k += countMarked(kid)
	}
	return k
}

func clearMarks(n *Node) *Node {
	n.Tok, n.Virt, n.Nond = false, false, false
	for _, k := range n.Kids {
		clearMarks(k)
	}
	return n
}

// randomAlpha is a few code points from all of Unicode
func randomAlpha(c *Case) []rune {
	var res []rune
	for len(res) < 5 {
		var r rune
		switch c.IntN(4) {
		case 0:
			r = rune(c.IntN(0x80))
		case 1:
			r = rune(c.IntN(0x800))
		case 2:
			r = rune(c.IntN(0x10000))
		default:
			r = rune(c.IntN(0x110000))
		}
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		res = append(res, r, r+1)
		if res[len(res)-1] == 0xD800 || res[len(res)-1] > 0x10FFFF {
			res = res[:len(res)-1]
		}
	}
	return res
}

// resume puts the unused chars back and evaluates a rule from there
func (c *Case) resume(e *Ev) bool {
	if !hookBuild || e.Got == nil {
		return true
	}
	next := pick(c.Rand, e.G.Names)
	pos := e.Pos + len(e.Got.CharsRead) - len(e.Got.CharsUnused)
	flag := flags[c.IntN(3)]
	m, want, ok := modelEval(e.G, e.G.Rules[next], e.X, pos, flag, false, modelBudget)
	if !ok {
		return true
	}
	back := append([]rune(nil), e.Got.CharsUnused...)
	if e.Back > len(e.Got.CharsRead) {
		back = append(back, e.X[e.Pos+len(e.Got.CharsRead):e.Pos+e.Back]...)
	}
	var got *xbnf.EvalResult
	e.Rec.Limit += opLimit(m.Steps, len(e.X))
	cur, peek := 0, rune(0)
	if !c.Guard("evaluation after the chars are put back", func() {
		cs := prepend(e.Rec, back)
		cur, peek = cs.Cursor(), cs.Peek()
		got = e.Real.GetRule(next).Eval(e.Real, cs, flag)
	}) {
		return false
	}
	c.Count("resumed", 1)
	c.Set("resumed with", fmt.Sprintf("%s at %d, flag %d", next, pos, flag))
	exp := rune(-1)
	if pos < len(e.X) {
		exp = e.X[pos]
	}
	if cur != pos || peek != exp {
		c.Violate("read", "with the unused chars put back the stream is at %d before %q instead of at %d before %q", cur, peek, pos, exp)
		return false
	}
	d := cmpResult(want, pos, e.X, got)
	if m.IneffEscapes > 0 {
		d = d.only("read", "end", "match")
	}
	return !c.report(d, "read", "end", "match")
}

func fixedResume(c *Case) {
	// sequences of evaluations through a text of words, each continuing where the one before ended
	g := newGrammar()
	g.add("word", seq(rng('a', 'z'), rep(0, 0, alt(rng('a', 'z'), ch('_')))))
	g.add("two", seq(ref("word"), ref("word")))
	g.add("pair", alt(seq(ref("word"), chars("::"), ref("word")), ref("word")))
	g.add("num", rep(2, 3, rng('0', '9')))
	x := []rune("ab cd_e::f  g 12 345 6 h::i::j  k")
	gr := c.usable(g)
	if gr == nil {
		return
	}
	for _, order := range [][]string{{"word", "two", "pair", "num"}, {"pair", "num", "word"}, {"two", "pair"}, {"num", "pair", "word", "two"}} {
		pos, steps := 0, 0
		var back []rune
		rec := newRec(string(x), 1000000)
		if !hookBuild {
			return
		}
		for pos < len(x) && steps < 200 {
			moved := false
			for _, name := range order {
				steps++
				m := &Model{G: g, X: x, Budget: 1 << 20}
				want := m.eval(g.Rules[name], pos, 1)
				var got *xbnf.EvalResult
				c.Set("rule", name)
				c.Set("text", fmt.Sprintf("%q", string(x[pos:])))
				if !c.Guard("evaluation", func() { got = gr.GetRule(name).Eval(gr, prepend(rec, back), 1) }) {
					return
				}
				if c.report(cmpResult(want, pos, x, got), "read", "end", "match") {
					return
				}
				if len(got.CharsRead) >= len(back) {
					back = got.CharsRead
				}
				if got.Node != nil && len(got.CharsRead) > len(got.CharsUnused) {
					used := len(got.CharsRead) - len(got.CharsUnused)
					back = back[used:]
					pos += used
					moved = true
				}
				back = append([]rune(nil), back...)
			}
			if !moved {
				pos++
				if len(back) > 0 {
					back = back[1:]
				} else {
					rec.Next()
				}
			}
		}
	}
}

func fixedWhiteSpaceSet(c *Case) {
	n := 0
	for r := rune(-2); r <= 0x110010; r++ {
		var is bool
		if !c.Guard("IsWhiteSpace", func() { is = xbnf.IsWhiteSpace(r) }) {
			return
		}
		if is != isWS(r) {
			c.Violate("whitespace", "IsWhiteSpace(%U) is %v", r, is)
			return
		}
		if is {
			n++
		}
	}
	c.Count("whitespace chars", n)
	// each of them is skipped, and only they are
	g := newGrammar()
	g.add("s", seq(str("a"), str("b")))
	g.add("k", seq(chars("aa"), ch('b')))
	g.add("e", seq(str("a"), eof()))
	gr := c.usable(g)
	if gr == nil {
		return
	}
	try := append(append([]rune(nil), allWS...), 0x08, 0x0E, 0x1F, 0x84, 0x86, 0x9F, 0xA1, 0x180E, 0x200B, 0x200C, 0x200D, 0x2027, 0x202A, 0x202E, 0x2030, 0x205E, 0x2060, 0x2FFF, 0x3001, 0xFEFF, 0)
	for _, w := range try {
		for _, f := range []string{"a%sb", "%sab", "aa%sb", "%saab", "a%s%sb", "a%s"} {
			x := []rune(replaceAll(f, string(w)))
			for _, name := range g.Names {
				for _, flag := range flags {
					e := c.evalOne(g, gr, name, x, 0, 0, flag)
					if e == nil || c.report(e.D, "match", "end", "sticky") {
						return
					}
				}
			}
		}
	}
}

func fixedTerminals(c *Case) {
	// every terminal kind on every boundary code point, hit and just missed
	points := []rune{0, 1, 0x1F, 0x20, 0x21, 'a', 'Z', 0x7E, 0x7F, 0x80, 0x84, 0x85, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0x1680, 0x2000, 0x200A, 0x200B, 0x2028, 0x3000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF, '\n', '\'', '"', '\\'}
	valid := func(r rune) bool { return r >= 0 && r <= 0x10FFFF && !(r >= 0xD800 && r <= 0xDFFF) }
	for _, p := range points {
		g := newGrammar()
		g.add("c", ch(p))
		g.add("cs", chars(string([]rune{p, 'x'})))
		g.add("cs2", chars(string([]rune{'x', p})))
		g.add("s", str(string([]rune{p})))
		g.add("s2", str(string([]rune{p, p})))
		if valid(p + 2) {
			g.add("r", rng(p, p+2))
		}
		if valid(p - 2) {
			g.add("r2", rng(p-2, p))
		}
		g.add("r3", rng(p, p))
		gr := c.usable(g)
		if gr == nil {
			continue
		}
		for d := rune(-3); d <= 3; d++ {
			q := p + d
			if !valid(q) {
				continue
			}
			for _, text := range [][]rune{{q}, {q, 'x'}, {q, q}, {'x', q}, {' ', q}, {' ', q, 'x'}, {' ', '\n', q, q, q}, {q, ' ', q}, {}} {
				for _, name := range g.Names {
					for _, flag := range flags {
						e := c.evalOne(g, gr, name, text, 0, 0, flag)
						if e == nil || c.report(e.D, "match", "end", "chars", "read") {
							return
						}
					}
				}
			}
		}
	}
}

func fixedBounds(c *Case) {
	// every small pair of bounds on every small number of repetitions
	for min := 0; min <= 4; min++ {
		for max := 0; max <= 5; max++ {
			if max != 0 && max < min {
				continue
			}
			for _, body := range []*Rule{ch('a'), chars("ab"), str("a"), seq(ch('a'), opt(ch('b'))), alt(ch('a'), chars("aa")), ref("inner")} {
				g := newGrammar()
				g.add("r", rep(min, max, cloneRule(body)))
				g.add("s", seq(rep(min, max, cloneRule(body)), chars("ac")))
				g.add("o", seq(opt(seq(rep(min, max, cloneRule(body)), ch('c'))), rep(0, 0, ch('a'))))
				g.add("inner", seq(ch('a'), rep(0, 1, ch('b'))))
				gr := c.usable(g)
				if gr == nil {
					continue
				}
				for n := 0; n <= 7; n++ {
					for _, unit := range []string{"a", "ab", "a "} {
						for _, tail := range []string{"", "c", "ac", "b", " a"} {
							text := ""
							for i := 0; i < n; i++ {
								text += unit
							}
							for _, name := range []string{"r", "s", "o"} {
								e := c.evalOne(g, gr, name, []rune(text+tail), 0, 0, flags[n%3])
								if e == nil {
									if c.failed {
										return
									}
									continue
								}
								if c.report(e.D, "match", "end", "shape", "chars") {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// derives tells whether a raw tree is a derivation by a rule: every node by the rule it stands for. It says what's wrong.
func derives(g *Grammar, r *Rule, n *Node) string {
	if r.K == KRef {
		d := g.Rules[r.Ref]
		if d == nil {
			return "undefined " + r.Ref
		}
		return derives(g, d, n)
	}
	if n.Type != nodeType[r.K] {
		return fmt.Sprintf("node of type %q for a %s rule", n.Type, kindNames[r.K])
	}
	name := r.Name
	if r.K == KEOF {
		name = "EOF"
	}
	if n.Name != name {
		return fmt.Sprintf("node named %q for rule %q", n.Name, name)
	}
	kids := func(rules ...*Rule) string {
		if len(n.Kids) != len(rules) {
			return fmt.Sprintf("%s node with %d children instead of %d", n.Type, len(n.Kids), len(rules))
		}
		for i, k := range rules {
			if msg := derives(g, k, n.Kids[i]); msg != "" {
				return msg
			}
		}
		return ""
	}
	switch r.K {
	case KChar, KChars, KStr:
		if !sameRunes(n.Chars, r.T) || len(n.Kids) > 0 {
			return fmt.Sprintf("chars %q for terminal %q", string(n.Chars), string(r.T))
		}
	case KRange:
		if len(n.Chars) != 1 || n.Chars[0] < r.Lo || n.Chars[0] > r.Hi || len(n.Kids) > 0 {
			return fmt.Sprintf("chars %q for range %q-%q", string(n.Chars), r.Lo, r.Hi)
		}
	case KEOF:
		if !n.IsEOF {
			return "EOF node without the EOF char"
		}
	case KConcat:
		return kids(r.Kids...)
	case KGroup:
		return kids(r.Kids[0])
	case KOpt:
		if len(n.Kids) == 0 {
			return ""
		}
		return kids(r.Kids[0])
	case KRep:
		if len(n.Kids) < r.Min || (r.Max > 0 && len(n.Kids) > r.Max) {
			return fmt.Sprintf("%d repetitions, bounds are %d,%d", len(n.Kids), r.Min, r.Max)
		}
		for _, k := range n.Kids {
			if msg := derives(g, r.Kids[0], k); msg != "" {
				return msg
			}
		}
	case KChoice:
		if len(n.Kids) != 1 {
			return fmt.Sprintf("choice with %d children", len(n.Kids))
		}
		last := ""
		for _, group := range r.Groups {
			for _, k := range group {
				if last = derives(g, k, n.Kids[0]); last == "" {
					return ""
				}
			}
		}
		return "choice of none of its alternatives: " + last
	case KBlock:
		exp := 3
		if r.VClose {
			exp = 2
		}
		if len(n.Kids) != exp {
			return fmt.Sprintf("block with %d children instead of %d", len(n.Kids), exp)
		}
		if msg := derives(g, r.Open, n.Kids[0]); msg != "" {
			return "open: " + msg
		}
		if ct := n.Kids[1]; ct.Type != "chars" || ct.Name != "" || len(ct.Kids) > 0 {
			return "block content is a " + ct.Type
		}
		if !r.VClose {
			if msg := derives(g, r.Close, n.Kids[2]); msg != "" {
				return "close: " + msg
			}
		}
	}
	return ""
}

func replaceAll(f, w string) string {
	res := ""
	for i := 0; i < len(f); i++ {
		if f[i] == '%' {
			res += w
			i++
		} else {
			res += string(f[i])
		}
	}
	return res
}

const findingEscape = "ineffective-escape-doubled"

// knownEscape runs the listed input of the finding that an escape protecting nothing is kept twice
func knownEscape(c *Case, whole bool) {
	g := newGrammar()
	g.add("s", &Rule{K: KBlock, Open: ch('"'), Esc: ch('\\'), Close: ch('"')})
	x := []rune(`"a\nb"`)
	gr := c.usable(g)
	if gr == nil {
		return
	}
	c.Set("text", string(x))
	var got []rune
	if !c.Guard("evaluation", func() {
		var n *xbnf.Node
		if whole {
			ast, err := gr.EvalRaw(xbnf.NewCharstreamFromString(string(x)))
			if err != nil || len(ast.Nodes) != 1 {
				return
			}
			n = ast.Nodes[0]
		} else {
			n = gr.EvalRule("s", string(x)).Node
		}
		if n != nil && len(n.ChildNodes) == 3 {
			got = n.ChildNodes[1].Chars
		}
	}) {
		return
	}
	switch string(got) {
	case `a\nb`:
	case `a\\nb`:
		c.Known(findingEscape)
	default:
		c.Violate("chars", "content of %s is %q", string(x), string(got))
	}
}
