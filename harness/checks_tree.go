package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
)

func sameText(a, b []rune) bool { return sameRunes(a, b) }

// keptOnly tells whether a node occurs more than once
func keptOnly(after []*xbnf.Node) string {
	var walk func(ns []*xbnf.Node, f func(*xbnf.Node))
	walk = func(ns []*xbnf.Node, f func(*xbnf.Node)) {
		for _, n := range ns {
			f(n)
			walk(n.ChildNodes, f)
		}
	}
	msg := ""
	seen := map[*xbnf.Node]bool{}
	walk(after, func(n *xbnf.Node) {
		if seen[n] {
			msg = "a node occurs twice in the tree"
		}
		seen[n] = true
	})
	return msg
}

// unlike gives the first node that is no node of base behind those found before
func unlike(base, got []*Node) *Node {
	var all, left []*Node
	walkNodes(base, func(n, p *Node) { all = append(all, n) })
	walkNodes(got, func(n, p *Node) { left = append(left, n) })
	for _, n := range all {
		if len(left) == 0 {
			return nil
		}
		k := left[0]
		if n.Type == k.Type && n.Name == k.Name && n.Line == k.Line && n.Col == k.Col && n.Tok == k.Tok && n.Virt == k.Virt && n.Nond == k.Nond && sameText(textOf(n), textOf(k)) {
			left = left[1:]
		}
	}
	if len(left) == 0 {
		return nil
	}
	return left[0]
}

// named is the tree of the named nodes with text
func named(ns []*Node) []*Node {
	var res []*Node
	for _, n := range ns {
		sub := named(n.Kids)
		t := textOf(n)
		if n.Name == "" || len(t) == 0 {
			res = append(res, sub...)
			continue
		}
		c := *n
		c.Chars = t
		c.Kids = sub
		res = append(res, &c)
	}
	return res
}

// emptiesKept tells whether the named nodes of got are those of base, in order and as deep
func emptiesKept(base, got []*Node) string {
	list := func(ns []*Node) []string {
		var res []string
		var walk func(n *Node, depth int)
		walk = func(n *Node, depth int) {
			if n.Name != "" {
				res = append(res, fmt.Sprintf("%s/%s at L%d:%d marks %v %v %v depth %d text %v", n.Name, n.Type, n.Line, n.Col, n.Tok, n.Virt, n.Nond, depth, len(textOf(n)) > 0))
				depth++
			}
			for _, k := range n.Kids {
				walk(k, depth)
			}
		}
		for _, n := range ns {
			walk(n, 0)
		}
		return res
	}
	want, have := list(base), list(got)
	for i, w := range want {
		if i >= len(have) || have[i] != w {
			return "the named node " + w + " is gone"
		}
	}
	if len(have) > len(want) {
		return "there are named nodes that were not there"
	}
	return ""
}

// noNames tells that neither a node nor any node in it has a name
func noNames(n *Node) bool {
	if n.Name != "" {
		return false
	}
	for _, k := range n.Kids {
		if !noNames(k) {
			return false
		}
	}
	return true
}

func init() {
	const how = "Raw trees come from parses of random annotated grammars and from a random tree generator (marks, names, blocks, end-of-file, empty nodes, all stickiness patterns). "

	register(&Check{
		ID: "C20", Quick: 120000, Thorough: 1500000,
		Rule: how + "Each is merged by the real code and compared node by node with an own model of merging; leaf text must be preserved, nothing may stay sticky, and merging again must change nothing. Non-trivial: every tree; distinct trees are counted.",
		Need: map[string]int{"raw trees of parses": 2000, "random trees": 2000, "nodes merged away": 2000},
		Random: func(c *Case) {
			c.manyTrees(c.judgeMerge)
		},
	})

	register(&Check{
		ID: "C21", Quick: 120000, Thorough: 1500000,
		Rule: how + "Removal of virtual and of non-data nodes is compared with a plain filter, alone and in both orders; for parses, the text and marks of the tree at every simplification level are compared with own merging and filtering of the raw tree. Non-trivial: every tree; distinct trees are counted.",
		Need: map[string]int{"raw trees of parses": 2000, "random trees": 2000, "nodes removed": 2000, "levels": 2000},
		Random: func(c *Case) {
			if c.IntN(3) == 0 {
				c.levels()
				return
			}
			c.manyTrees(c.judgeRemoval)
		},
	})

	register(&Check{
		ID: "C22", Quick: 160000, Thorough: 1500000,
		Rule: how + "Token-merged (and partly filtered) trees are reduced by the real code; judged by laws: text and leaf text as before, the tree of named nodes with text as before, no new or repeated node, no unnamed inner node left below a root except around blocks, no unnamed leaf as an only child and no unnamed node without text; a root reduced alone is as reduced with its tree. Non-trivial: every tree; distinct trees are counted.",
		Need: map[string]int{"raw trees of parses": 2000, "random trees": 2000, "nodes dropped": 2000, "named nodes": 2000},
		Random: func(c *Case) {
			c.manyTrees(c.judgeRedundant)
		},
	})

	register(&Check{
		ID: "C27", Quick: 30000, Thorough: 1000000,
		Rule: how + "Raw, merged and reduced trees: text, node, token and sticky counts and the printed tree (all settings, drawing chars left out) are compared with plain traversals. Non-trivial: every tree; distinct trees are counted.",
		Need: map[string]int{"raw trees of parses": 2000, "random trees": 2000, "printed": 2000},
		Fixed: []func(*Case){func(c *Case) {
			var ast *xbnf.AST
			var node *xbnf.Node
			sum := -1
			if !c.Guard("accessors of no tree", func() {
				sum = len(ast.Text()) + ast.CountNodes() + ast.CountTokens() + ast.CountStickyNodes() + node.CountNodes() + node.CountTokens() + node.CountStickyNodes()
				ast.StringTree(nil)
			}) {
				return
			}
			if sum != 0 {
				c.Violate("count", "no tree at all has text, nodes, tokens or sticky nodes")
			}
		}},
		Random: func(c *Case) {
			c.manyTrees(c.judgeAccessors)
		},
	})
}

func (c *Case) judgeMerge(raw []*Node, origin string) bool {
	ast := astOf(raw)
	if !c.Guard("MergeStickyNodes", func() { ast.MergeStickyNodes() }) {
		return false
	}
	got := fromRealAll(ast.Nodes)
	want := mergeModel(cloneNodes(raw))
	if !sameMerged(got, want) {
		c.Violate("merge", "merged to\n%sinstead of\n%s", dumpAll(got), dumpAll(want))
		return false
	}
	sticky := false
	walkNodes(got, func(n, p *Node) { sticky = sticky || n.Sticky })
	if sticky {
		c.Violate("merge", "a sticky node is left:\n%s", dumpAll(got))
		return false
	}
	a, b := 0, 0
	walkNodes(raw, func(n, p *Node) { a++ })
	walkNodes(got, func(n, p *Node) { b++ })
	c.Count("nodes merged away", a-b)
	if origin == "parse" { // sticky inner nodes have only sticky nodes below: no space is put between
		if l1, l2 := leavesAll(raw), leavesAll(got); !sameText(l1, l2) {
			c.Violate("merge", "the leaves spell %q instead of %q", string(l2), string(l1))
			return false
		}
	}
	if !c.Guard("MergeStickyNodes", func() { ast.MergeStickyNodes() }) {
		return false
	}
	for i, n := range raw { // alone, and through a result
		alone, res := toReal(n), &xbnf.EvalResult{Node: toReal(n)}
		if !c.Guard("MergeStickyNodes", func() { alone.MergeStickyNodes(); res.MergeStickyNodes() }) {
			return false
		}
		if !sameTree(fromReal(alone), fromReal(res.Node)) {
			c.Violate("merge", "root %d merged through its result:\n%sinstead of\n%s", i, dump(fromReal(res.Node)), dump(fromReal(alone)))
			return false
		}
	}
	if !sameTrees(fromRealAll(ast.Nodes), got) {
		c.Violate("merge", "merged again:\n%sinstead of\n%s", dumpAll(fromRealAll(ast.Nodes)), dumpAll(got))
		return false
	}
	// one node on its own
	n := toReal(pick(c.Rand, raw))
	wantNode := fromReal(n)
	mergeBelow(wantNode)
	res := &xbnf.EvalResult{Node: n}
	if !c.Guard("EvalResult.MergeStickyNodes", func() { res.MergeStickyNodes() }) {
		return false
	}
	if !sameMerged([]*Node{fromReal(res.Node)}, []*Node{wantNode}) {
		c.Violate("merge", "a node on its own merged to\n%sinstead of\n%s", dump(fromReal(res.Node)), dump(wantNode))
		return false
	}
	return true
}

func (c *Case) judgeRemoval(raw []*Node, origin string) bool {
	base := raw
	if c.IntN(2) == 0 {
		base = mergeModel(cloneNodes(raw))
	}
	for k := 0; k < 4; k++ {
		ast := astOf(base)
		want := cloneNodes(base)
		what := ""
		steps := [][]int{{0}, {1}, {0, 1}, {1, 0}}[k]
		for _, s := range steps {
			s := s
			if !c.Guard("removing nodes", func() {
				if s == 0 {
					ast.RemoveVirtualNodes()
				} else {
					ast.RemoveNonDataNodes()
				}
			}) {
				return false
			}
			want = removeModel(want, []func(*Node) bool{isVirt, isNond}[s])
			what += []string{"virtual ", "non-data "}[s]
		}
		got := fromRealAll(ast.Nodes)
		if !sameTrees(got, want) {
			c.Violate("removal", "without %s nodes:\n%sinstead of\n%s", what, dumpAll(got), dumpAll(want))
			return false
		}
		a, b := 0, 0
		walkNodes(base, func(n, p *Node) { a++ })
		walkNodes(got, func(n, p *Node) { b++ })
		c.Count("nodes removed", a-b)
	}
	// one node on its own
	src := pick(c.Rand, base)
	n1, n2 := toReal(src), toReal(src)
	if !c.Guard("removing nodes", func() { n1.RemoveVirtualNodes(); n2.RemoveNonDataNodes() }) {
		return false
	}
	w1, w2 := cloneNode(src), cloneNode(src)
	w1.Kids, w2.Kids = removeModel(w1.Kids, isVirt), removeModel(w2.Kids, isNond)
	if !sameTree(fromReal(n1), w1) || !sameTree(fromReal(n2), w2) {
		c.Violate("removal", "below one node:\n%s%sinstead of\n%s%s", dump(fromReal(n1)), dump(fromReal(n2)), dump(w1), dump(w2))
		return false
	}
	return true
}

func (c *Case) judgeRedundant(raw []*Node, origin string) bool {
	base := mergeModel(cloneNodes(raw))
	switch c.IntN(4) {
	case 0:
		base = removeModel(base, isVirt)
	case 1:
		base = removeModel(removeModel(base, isVirt), isNond)
	}
	if len(base) == 0 {
		return true
	}
	c.Set("tree", dumpAll(base))
	ast := astOf(base)
	if !c.Guard("RemoveRedundantNodes", func() { ast.RemoveRedundantNodes() }) {
		return false
	}
	if msg := keptOnly(ast.Nodes); msg != "" {
		c.Violate("redundant", "%s", msg)
		return false
	}
	got := fromRealAll(ast.Nodes)
	a, b := 0, 0
	walkNodes(base, func(n, p *Node) { a++ })
	walkNodes(got, func(n, p *Node) { b++ })
	c.Count("nodes dropped", a-b)
	if len(got) != len(base) {
		c.Violate("redundant", "%d roots instead of %d", len(got), len(base))
		return false
	}
	for i := range got {
		if !sameText(textOf(got[i]), textOf(base[i])) {
			c.Violate("redundant", "the text is %q instead of %q:\n%s", string(textOf(got[i])), string(textOf(base[i])), dump(got[i]))
			return false
		}
	}
	if !sameText(leavesAll(got), leavesAll(base)) {
		c.Violate("redundant", "the leaves spell %q instead of %q", string(leavesAll(got)), string(leavesAll(base)))
		return false
	}
	n1, n2 := named(base), named(got)
	walkNodes(n1, func(n, p *Node) { c.Count("named nodes", 1) })
	if !sameTrees(n1, n2) {
		c.Violate("redundant", "the named nodes are\n%sinstead of\n%s", dumpAll(n2), dumpAll(n1))
		return false
	}
	if msg := emptiesKept(base, got); msg != "" {
		c.Violate("redundant", "%s:\n%s", msg, dumpAll(got))
		return false
	}
	if n := unlike(base, got); n != nil {
		c.Violate("redundant", "the node %s of\n%swas not there, or not in this order", dump(n), dumpAll(got))
		return false
	}
	if !c.Guard("RemoveRedundantNodes", func() { ast.RemoveRedundantNodes() }) {
		return false
	}
	if again := fromRealAll(ast.Nodes); !sameTrees(again, got) {
		c.Violate("redundant", "reduced again:\n%sinstead of\n%s", dumpAll(again), dumpAll(got))
		return false
	}
	for i, root := range got {
		if base[i].Nond {
			if !sameTree(root, base[i]) {
				c.Violate("redundant", "a non-data root is changed to\n%sfrom\n%s", dump(root), dump(base[i]))
				return false
			}
			continue
		}
		alone := toReal(base[i])
		if !c.Guard("RemoveRedundantNodes", func() { alone.RemoveRedundantNodes() }) {
			return false
		}
		if !sameTree(fromReal(alone), root) {
			c.Violate("redundant", "a root reduced alone:\n%sinstead of\n%s", dump(fromReal(alone)), dump(root))
			return false
		}
		msg := ""
		walkNodes([]*Node{root}, func(n, p *Node) {
			if p == nil {
				return
			}
			if n.Name == "" && len(n.Kids) > 0 && n.Type != "block" && p.Type != "block" {
				msg = "an unnamed inner node is left"
			}
			if n.Name == "" && len(n.Kids) == 0 && len(p.Kids) == 1 {
				msg = "an unnamed leaf is an only child"
			}
			if len(textOf(n)) == 0 && noNames(n) {
				msg = "an unnamed node without text is left"
			}
		})
		if msg != "" {
			c.Violate("redundant", "%s:\n%s", msg, dump(root))
			return false
		}
	}
	return true
}

func (c *Case) judgeAccessors(raw []*Node, origin string) bool {
	base := raw
	switch c.IntN(4) {
	case 0:
		base = mergeModel(cloneNodes(raw))
	case 1:
		base = removeModel(mergeModel(cloneNodes(raw)), isVirt)
	}
	c.Set("tree", dumpAll(base))
	return c.accessors(base)
}

// sameMerged compares trees; a leaf without text may or may not still be called end-of-file
func sameMerged(a, b []*Node) bool {
	a, b = cloneNodes(a), cloneNodes(b)
	f := func(n, p *Node) {
		if n.IsEOF {
			n.IsEOF = false
		}
	}
	walkNodes(a, f)
	walkNodes(b, f)
	return sameTrees(a, b)
}

// levels compares the trees of all levels of one parse
func (c *Case) levels() {
	cfg := rootCfg(c)
	cfg.Annot = []int{15, 40, 60}[c.IntN(3)]
	g := gen(c, cfg)
	gr := g.grammar(-1)
	c.parseMany(g, gr, 5, mixedWS(c), func(p *Pv) bool {
		if p.AST == nil {
			return true
		}
		raw := fromRealAll(p.AST.Nodes)
		c.Set("tree", dumpAll(raw))
		for li, level := range []int{xbnf.LevelRaw, xbnf.LevelBasic, xbnf.LevelNoVertual, xbnf.LevelDataOnly} {
			var ast *xbnf.AST
			var err error
			if !c.Guard("parsing at a level", func() { ast, err = p.Real.Eval(newRec(string(p.X), opLimit(p.M.Steps, len(p.X))), level) }) {
				return false
			}
			if ast == nil || err != nil {
				c.Violate("level", "level %d: %v, but the raw tree is there", level, err)
				return false
			}
			got := fromRealAll(ast.Nodes)
			if li == 0 {
				if !sameTrees(got, raw) {
					c.Violate("level", "raw level:\n%sinstead of\n%s", dumpAll(got), dumpAll(raw))
					return false
				}
				continue
			}
			want := mergeModel(cloneNodes(raw))
			if li >= 2 {
				want = removeModel(want, isVirt)
			}
			if li >= 3 {
				want = removeModel(want, isNond)
			}
			c.Count("levels", 1)
			if l1, l2 := leavesAll(want), leavesAll(got); !sameText(l1, l2) {
				c.Violate("level", "level %d: the leaves spell %q instead of %q\n%s", level, string(l2), string(l1), dumpAll(got))
				return false
			}
			if n1, n2 := named(want), named(got); !sameTrees(n1, n2) {
				c.Violate("level", "level %d: the named nodes are\n%sinstead of\n%s", level, dumpAll(n2), dumpAll(n1))
				return false
			}
			bad := ""
			walkNodes(got, func(n, p *Node) {
				if li >= 2 && n.Virt {
					bad = "virtual"
				}
				if li >= 3 && n.Nond {
					bad = "non-data"
				}
			})
			if bad != "" {
				c.Violate("level", "level %d: a %s node is left:\n%s", level, bad, dumpAll(got))
				return false
			}
		}
		return true
	})
}

func (c *Case) accessors(base []*Node) bool {
	ast := astOf(base)
	var text []rune
	nodes, tokens, sticky := 0, 0, 0
	walkNodes(base, func(n, p *Node) {
		nodes++
		if len(n.Kids) == 0 {
			tokens++
		}
		if n.Sticky {
			sticky++
		}
	})
	for _, n := range base {
		text = append(text, textOf(n)...)
	}
	var gotText []rune
	var gn, gt, gs int
	if !c.Guard("accessors", func() {
		gotText, gn, gt, gs = ast.Text(), ast.CountNodes(), ast.CountTokens(), ast.CountStickyNodes()
	}) {
		return false
	}
	if !sameText(gotText, text) {
		c.Violate("text", "the text of the tree is %q instead of %q", string(gotText), string(text))
		return false
	}
	if gn != nodes || gt != tokens || gs != sticky {
		c.Violate("counts", "%d nodes, %d tokens, %d sticky nodes instead of %d, %d, %d", gn, gt, gs, nodes, tokens, sticky)
		return false
	}
	// every node on its own
	ok := true
	var each func(m *Node, r *xbnf.Node)
	each = func(m *Node, r *xbnf.Node) {
		if !ok {
			return
		}
		var t []rune
		var k int
		if !c.Guard("Text", func() { t, k = r.Text(), r.CountNodes() }) {
			ok = false
			return
		}
		if w := textOf(m); !sameText(t, w) {
			c.Violate("text", "the text of a node is %q instead of %q:\n%s", string(t), string(w), dump(m))
			ok = false
			return
		}
		cnt := 0
		walkNodes([]*Node{m}, func(n, p *Node) { cnt++ })
		if k != cnt {
			c.Violate("counts", "%d nodes instead of %d:\n%s", k, cnt, dump(m))
			ok = false
			return
		}
		for i, kid := range m.Kids {
			each(kid, r.ChildNodes[i])
		}
	}
	for i, n := range base {
		each(n, ast.Nodes[i])
	}
	if !ok {
		return false
	}
	if !sameTrees(fromRealAll(ast.Nodes), base) {
		c.Violate("accessors", "asking changed the tree:\n%s", dumpAll(fromRealAll(ast.Nodes)))
		return false
	}
	if deep(ast.Nodes) {
		c.Count("too deep to print", 1)
		return c.resultPrinted(nil, ast)
	}
	for k := 0; k < 5; k++ {
		var conf *xbnf.NodeTreeConfig
		types, inner := true, false
		if k > 0 {
			types, inner = k&1 > 0, k&2 > 0
			conf = &xbnf.NodeTreeConfig{PrintRuleType: types, PrintNonleafNodeText: inner, VerboseNodeText: c.IntN(2) == 0}
		}
		var s string
		if !c.Guard("StringTree", func() { s = ast.StringTree(conf) }) {
			return false
		}
		want := ""
		for i, n := range base {
			w := squash(treeText(n, types, inner))
			want += w
			var one string
			if !c.Guard("StringTree", func() { one = ast.Nodes[i].StringTree(conf) }) {
				return false
			}
			if squash(one) != w {
				c.Violate("print", "node printed as\n%s\ninstead of something with\n%s", one, w)
				return false
			}
		}
		c.Count("printed", 1)
		if got := squash(s); !strings.HasSuffix(got, want) || !strings.Contains(strings.TrimSuffix(got, want), fmt.Sprint(len(base))) {
			c.Violate("print", "tree printed as\n%s\ninstead of something with\n%s", s, want)
			return false
		}
		if msg := misdrawn(s, base); msg != "" {
			c.Violate("print", "%s:\n%s", msg, s)
			return false
		}
	}
	return c.resultPrinted(base, ast)
}

// deep tells whether printing trees would take too long: it takes time by the square of the depth
func deep(nodes []*xbnf.Node) bool {
	n := 0
	var depth func(nodes []*xbnf.Node) int
	depth = func(nodes []*xbnf.Node) int {
		d := 0
		for _, k := range nodes {
			if k != nil {
				n++
				d = max(d, 1+depth(k.ChildNodes))
			}
		}
		return d
	}
	d := depth(nodes)
	return d > 300 && d*d*n > 1_000_000_000
}

// misdrawn tells what is wrong with the indentation of a printed tree: below its parent, like its siblings
func misdrawn(s string, base []*Node) string {
	count, broken := 0, false
	walkNodes(base, func(n, p *Node) {
		count++
		broken = broken || strings.ContainsRune(string(n.Chars), '\n')
	})
	lines := strings.Split(s, "\n")
	if broken || len(lines) < count {
		return ""
	}
	lines = lines[len(lines)-count:]
	width := func(line string) int {
		w := 0
		for _, r := range line {
			if r != ' ' && !strings.ContainsRune("├└│─", r) {
				break
			}
			w++
		}
		return w
	}
	var msg string
	var level func(nodes []*Node, parent int)
	level = func(nodes []*Node, parent int) {
		own := -1
		for _, n := range nodes {
			w := width(lines[0])
			lines = lines[1:]
			if w <= parent && msg == "" {
				msg = fmt.Sprintf("%s is drawn at the level of its parent, or above", headerOf(n, true))
			}
			if own >= 0 && own != w && msg == "" {
				msg = fmt.Sprintf("%s is not drawn at the level of its siblings", headerOf(n, true))
			}
			own = w
			level(n.Kids, w)
		}
	}
	level(base, -1)
	return msg
}

// resultPrinted judges the printout of an evaluation result
func (c *Case) resultPrinted(base []*Node, ast *xbnf.AST) bool {
	read := []rune(pick(c.Rand, []string{"", "a", "x y z", "aébβ", " b\tq", "1234567890123"}))
	unused := read[c.IntN(len(read)+1):]
	res := &xbnf.EvalResult{CharsRead: read, CharsUnused: unused}
	want := squash(fmt.Sprintf("%d%s", len(read), string(read)))
	want2 := squash(fmt.Sprintf("%d%s", len(unused), string(unused)))
	tail := ""
	switch c.IntN(4) {
	case 0:
		res.Error = fmt.Errorf("%s", pick(c.Rand, []string{"no x there", "100%d", "e"}))
		tail = squash(res.Error.Error())
	case 1:
	default:
		if len(base) > 0 {
			i := c.IntN(len(base))
			res.Node = ast.Nodes[i]
			tail = squash(treeText(base[i], true, false))
		}
	}
	var s string
	if !c.Guard("StringTree", func() { s = res.StringTree(nil) }) {
		return false
	}
	c.Count("results printed", 1)
	digits := func(s string) string {
		return strings.NewReplacer("[", "", "]", "", ":", "", "(", "", ")", "").Replace(s)
	}
	rest := digits(squash(s))
	for _, part := range []string{want, want2} {
		part = digits(part)
		i := strings.Index(rest, part)
		if i < 0 {
			c.Violate("result", "a result with the characters read %q, unused %q, and %q is printed as\n%s", string(read), string(unused), tail, s)
			return false
		}
		rest = rest[i+len(part):]
	}
	if tail = digits(tail); !strings.HasSuffix(rest, tail) {
		c.Violate("result", "a result with %q is printed as\n%s", tail, s)
		return false
	}
	return true
}
