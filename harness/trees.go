package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// ---- own models of what is done with trees, on neutral copies

func cloneNode(n *Node) *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Chars = append([]rune(nil), n.Chars...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, cloneNode(k))
	}
	return &c
}

func cloneNodes(ns []*Node) []*Node {
	var res []*Node
	for _, n := range ns {
		res = append(res, cloneNode(n))
	}
	return res
}

// textOf is the text of a node, from the definition
func textOf(n *Node) []rune {
	if n.IsEOF {
		return nil
	}
	if len(n.Chars) > 0 {
		return n.Chars
	}
	var text []rune
	var prev *Node
	for _, k := range n.Kids {
		t := textOf(k)
		if len(t) > 0 && len(text) > 0 && n.Type != "block" && !isWS(text[len(text)-1]) && !isWS(t[0]) && !(prev.Sticky && k.Sticky) {
			text = append(text, ' ')
		}
		text = append(text[:len(text):len(text)], t...)
		prev = k
	}
	return text
}

// mergeModel joins each maximal run of sticky siblings to one leaf
func mergeModel(nodes []*Node) []*Node {
	var res []*Node
	for i := 0; i < len(nodes); {
		n := nodes[i]
		if !n.Sticky {
			mergeBelow(n)
			res = append(res, n)
			i++
			continue
		}
		leaf := *n
		leaf.Kids, leaf.IsEOF, leaf.Sticky = nil, false, false
		leaf.Chars = append([]rune(nil), textOf(n)...)
		j := i + 1
		for j < len(nodes) && nodes[j].Sticky && !nodes[j].Tok {
			leaf.Chars = append(leaf.Chars, textOf(nodes[j])...)
			leaf.Virt = leaf.Virt && nodes[j].Virt
			leaf.Nond = leaf.Nond && nodes[j].Nond
			j++
		}
		res = append(res, &leaf)
		i = j
	}
	return res
}

func mergeBelow(n *Node) {
	if len(n.Kids) == 0 {
		return
	}
	if n.Type == "block" {
		for _, k := range n.Kids {
			mergeBelow(k)
			k.Sticky = false
		}
		n.Sticky = false
		return
	}
	n.Kids = mergeModel(n.Kids)
}

func removeModel(nodes []*Node, gone func(*Node) bool) []*Node {
	var res []*Node
	for _, n := range nodes {
		if gone(n) {
			continue
		}
		n.Kids = removeModel(n.Kids, gone)
		res = append(res, n)
	}
	return res
}

func isVirt(n *Node) bool { return n.Virt }
func isNond(n *Node) bool { return n.Nond }

func leavesAll(ns []*Node) []rune {
	var out []rune
	for _, n := range ns {
		out = leaves(n, out)
	}
	return out
}

func walkNodes(ns []*Node, f func(n, parent *Node)) {
	var walk func(n, p *Node)
	walk = func(n, p *Node) {
		f(n, p)
		for _, k := range n.Kids {
			walk(k, n)
		}
	}
	for _, n := range ns {
		walk(n, nil)
	}
}

// ---- random trees

var innerTypes = []string{"concatenate", "choice", "group", "option", "repetition", "embed"}
var leafTypes = []string{"char", "chars", "string", "text", "range"}

var treeNames = []string{"_", "__", "EOF_", "eof", "text", "embed", "block", "char", "chars", "string", "range", "group", "option", "reference", "repetition", "choice", "concatenate", "nil", "root", "A", "aa", "word1"}

func (c *Case) randomNode(depth int, named, sticky, marks int) *Node {
	n := &Node{Pos: -1}
	if c.IntN(100) < named {
		n.Name = pick(c.Rand, []string{"a", "b", "word", "X1"})
		if c.IntN(6) == 0 {
			n.Name = pick(c.Rand, treeNames)
		}
	}
	n.Sticky = c.IntN(100) < sticky
	if c.IntN(100) < marks {
		n.Virt, n.Nond, n.Tok = c.IntN(3) == 0, c.IntN(3) == 0, c.IntN(3) == 0
	}
	if c.IntN(5) > 0 {
		n.Line, n.Col = 1+c.IntN(30), 1+c.IntN(80)
		if c.IntN(20) == 0 {
			n.Line, n.Col = pick(c.Rand, sizes), pick(c.Rand, sizes)
		}
	}
	leaf := func() {
		alpha := alphaMid
		if c.IntN(10) == 0 {
			alpha = pick(c.Rand, [][]rune{alphaOdd, alphaUni, alphaSpecial})
		}
		n.Type = pick(c.Rand, leafTypes)
		k := c.IntN(4)
		for i := 0; i < k; i++ {
			if c.IntN(5) == 0 {
				n.Chars = append(n.Chars, pick(c.Rand, someWS))
			} else {
				n.Chars = append(n.Chars, pick(c.Rand, alpha))
			}
		}
		if c.IntN(12) == 0 {
			n.Type, n.Name, n.Chars, n.IsEOF = "EOF", "EOF", nil, true
		}
	}
	if depth <= 0 || c.IntN(4) == 0 {
		leaf()
		return n
	}
	if c.IntN(5) == 0 {
		n.Type, n.Sticky = "block", false
		n.Kids = []*Node{c.randomNode(depth-1, named, sticky, marks), c.randomNode(0, 0, 100, 0)}
		n.Kids[1].Type, n.Kids[1].IsEOF, n.Kids[1].Name = "chars", false, ""
		if c.IntN(4) > 0 {
			n.Kids = append(n.Kids, c.randomNode(depth-1, named, sticky, marks))
		}
		return n
	}
	n.Type = pick(c.Rand, innerTypes)
	k := c.IntN(5)
	if n.Type == "choice" || n.Type == "group" || n.Type == "option" {
		k = 1
	}
	for i := 0; i < k; i++ {
		n.Kids = append(n.Kids, c.randomNode(depth-1, named, sticky, marks))
	}
	if n.Sticky && len(n.Kids) > 0 { // a node is sticky only if all below it is
		all := true
		walkNodes(n.Kids, func(k, _ *Node) { all = all && k.Sticky })
		n.Sticky = all
	}
	return n
}

func (c *Case) randomTrees() []*Node {
	named, sticky, marks := []int{0, 20, 60, 100}[c.IntN(4)], []int{0, 40, 80, 100}[c.IntN(4)], []int{0, 15, 50}[c.IntN(3)]
	var res []*Node
	for k := 1 + c.IntN(3); k > 0; k-- {
		res = append(res, c.randomNode(c.IntN(5), named, sticky, marks))
	}
	return res
}

func astOf(ns []*Node) *xbnf.AST {
	ast := &xbnf.AST{}
	for _, n := range ns {
		ast.Nodes = append(ast.Nodes, toReal(n))
	}
	return ast
}

// manyTrees runs f on raw trees of parsed texts and on random trees
func (c *Case) manyTrees(f func(raw []*Node, origin string) bool) {
	if c.IntN(3) == 0 {
		for i := 0; i < 6; i++ {
			ns := c.randomTrees()
			c.Set("tree", dumpAll(ns))
			c.Count("random trees", 1)
			if !f(ns, "random") {
				return
			}
			if len(ns) > 0 {
				c.Seen(dumpAll(ns))
			}
			c.Sample("random tree:\n" + dumpAll(ns))
		}
		return
	}
	cfg := rootCfg(c)
	cfg.Annot = []int{0, 15, 40, 60}[c.IntN(4)]
	cfg.W[KStr] = []int{2, 8, 14}[c.IntN(3)]
	g := gen(c, cfg)
	gr := g.grammar(-1)
	real := c.usable(gr)
	if real == nil {
		return
	}
	try := func(ast *xbnf.AST, err error, text string) bool {
		if err != nil || ast == nil {
			return true
		}
		for _, n := range ast.Nodes {
			if hasNil(n) {
				return true
			}
		}
		raw := fromRealAll(ast.Nodes)
		c.Set("tree", dumpAll(raw))
		c.Set("text", fmt.Sprintf("%q", text))
		c.Count("raw trees of parses", 1)
		if !f(raw, "parse") {
			return false
		}
		c.Seen(dumpAll(raw))
		c.Sample(fmt.Sprintf("grammar:\n%stext: %q\n", gr.Text(), text))
		return true
	}
	ws := mixedWS(c)
	for i := 0; i < 5; i++ {
		x := g.wholeText(gr, ws)
		m, _, ok := modelParse(gr, x, false, modelBudget)
		if !ok {
			continue
		}
		var ast *xbnf.AST
		var err error
		if !c.Guard("parsing", func() { ast, err = real.EvalRaw(newRec(string(x), opLimit(m.Steps, len(x)))) }) {
			return
		}
		if !try(ast, err, string(x)) {
			return
		}
	}
	for i := 0; i < 3; i++ {
		name := pick(c.Rand, gr.Names)
		x := g.textFor(gr, gr.Rules[name], ws)
		if _, _, ok := modelEval(gr, gr.Rules[name], x, 0, fSkip, false, modelBudget); !ok {
			continue
		}
		var n *xbnf.Node
		if !c.Guard("EvalRule", func() { n = real.EvalRule(name, string(x)).Node }) {
			return
		}
		if n != nil && !try(&xbnf.AST{Nodes: []*xbnf.Node{n}}, nil, string(x)) {
			return
		}
	}
}

// ---- the printed tree

// squash takes out everything that only draws the tree
func squash(s string) string {
	var b strings.Builder
	for _, r := range s {
		if isWS(r) || strings.ContainsRune("├└│─", r) {
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

func headerOf(n *Node, types bool) string {
	s := fmt.Sprintf("L%d:%d:%s", n.Line, n.Col, n.Name)
	if types {
		s += "/" + n.Type
	}
	if n.Tok {
		s += "$"
	}
	if n.Nond {
		s += "#"
	}
	if n.Virt {
		s += "~"
	}
	if n.Sticky {
		s += "+"
	}
	return s
}

func treeText(n *Node, types, inner bool) string {
	s := headerOf(n, types)
	if len(n.Kids) == 0 || inner {
		s += ":>" + string(textOf(n)) + "<"
	}
	for _, k := range n.Kids {
		s += treeText(k, types, inner)
	}
	return s
}
