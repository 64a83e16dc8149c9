package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// stepsExceeded is what the recording stream panics with when it is asked for far too much
type stepsExceeded int

// Rec is a recording stream: everything is delegated to the real stream, calls are counted and limited
type Rec struct {
	xbnf.ICharstream // what the interface may get beyond the methods below
	cs               xbnf.ICharstream
	Ops              int
	Limit            int
}

func newRec(text string, limit int) *Rec {
	cs := xbnf.NewCharstreamFromString(text)
	return &Rec{ICharstream: cs, cs: cs, Limit: limit}
}

func (s *Rec) op() {
	s.Ops++
	if s.Ops > s.Limit {
		panic(stepsExceeded(s.Limit))
	}
}
func (s *Rec) Next() rune                            { s.op(); return s.cs.Next() }
func (s *Rec) Peek() rune                            { s.op(); return s.cs.Peek() }
func (s *Rec) Match(t []rune) ([]rune, bool)         { s.op(); return s.cs.Match(t) }
func (s *Rec) SkipSpaces() []rune                    { s.op(); return s.cs.SkipSpaces() }
func (s *Rec) Position() *xbnf.Position              { s.op(); return s.cs.Position() }
func (s *Rec) PositionLookup(idx int) *xbnf.Position { s.op(); return s.cs.PositionLookup(idx) }
func (s *Rec) Cursor() int                           { s.op(); return s.cs.Cursor() }

// opLimit is a generous bound on the stream operations an evaluation may take, given the steps of the model
func opLimit(steps, textLen int) int { return 200*(steps+textLen) + 20000 }

// cheap tells if evaluating the rule at each position of a text takes few stream operations. Where no model says how
// many it needs, what takes more is left out.
func (c *Case) cheap(gr *xbnf.Grammar, rule xbnf.IRule, x []rune) bool {
	if rule == nil {
		return true
	}
	few := true
	limit := 20000 + 1000*len(x)
	ok := c.Guard("evaluation", func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stepsExceeded); !is {
					panic(r)
				}
				few = false
			}
		}()
		for i := range x {
			for _, flag := range flags {
				rec := newRec(string(x[i:]), limit)
				rule.Eval(gr, rec, flag)
				limit -= rec.Ops
			}
		}
	})
	if ok && !few {
		c.Count("too costly", 1)
	}
	return ok && few
}

// fromReal makes the neutral copy of a real node
func fromReal(n *xbnf.Node) *Node {
	if n == nil {
		return nil
	}
	c := &Node{Type: string(n.RuleType), Name: n.RuleName, Sticky: n.Sticky, Virt: n.Virtual, Nond: n.NonData, Tok: n.Tokenized, Pos: -1}
	if len(n.Chars) == 1 && n.Chars[0] == -1 {
		c.IsEOF = true
	} else {
		c.Chars = append(c.Chars, n.Chars...)
	}
	if n.Position != nil {
		c.Line, c.Col = n.Position.Line, n.Position.Col
	}
	for _, k := range n.ChildNodes {
		c.Kids = append(c.Kids, fromReal(k))
	}
	return c
}

func fromRealAll(ns []*xbnf.Node) []*Node {
	var res []*Node
	for _, n := range ns {
		res = append(res, fromReal(n))
	}
	return res
}

func hasNil(n *xbnf.Node) bool {
	if n == nil {
		return true
	}
	for _, k := range n.ChildNodes {
		if hasNil(k) {
			return true
		}
	}
	return false
}

// toReal makes a real tree out of a neutral one
func toReal(n *Node) *xbnf.Node {
	if n == nil {
		return nil
	}
	c := &xbnf.Node{RuleType: xbnf.Type(n.Type), RuleName: n.Name, Sticky: n.Sticky, Virtual: n.Virt, NonData: n.Nond, Tokenized: n.Tok}
	if n.IsEOF {
		c.Chars = []rune{-1}
	} else if n.Chars != nil {
		c.Chars = append([]rune{}, n.Chars...)
	}
	if n.Line > 0 {
		c.Position = &xbnf.Position{Line: n.Line, Col: n.Col}
	}
	for _, k := range n.Kids {
		c.ChildNodes = append(c.ChildNodes, toReal(k))
	}
	return c
}

func dump(n *Node) string {
	var b strings.Builder
	dumpTo(&b, n, 0)
	return b.String()
}

func dumpAll(ns []*Node) string {
	var b strings.Builder
	for _, n := range ns {
		dumpTo(&b, n, 0)
	}
	return b.String()
}

func dumpTo(b *strings.Builder, n *Node, ind int) {
	if n == nil {
		b.WriteString(strings.Repeat(" ", ind) + "nil\n")
		return
	}
	fl := ""
	if n.Tok {
		fl += "$"
	}
	if n.Virt {
		fl += "~"
	}
	if n.Nond {
		fl += "#"
	}
	if n.Sticky {
		fl += "+"
	}
	text := ""
	if n.IsEOF {
		text = " EOF"
	} else if len(n.Chars) > 0 || len(n.Kids) == 0 {
		text = fmt.Sprintf(" %q", string(n.Chars))
	}
	pos := ""
	if n.Line > 0 {
		pos = fmt.Sprintf(" L%d:%d", n.Line, n.Col)
	} else if n.Pos >= 0 {
		pos = fmt.Sprintf(" @%d", n.Pos)
	}
	fmt.Fprintf(b, "%s%s/%s%s%s%s\n", strings.Repeat(" ", ind), n.Name, n.Type, fl, pos, text)
	for _, k := range n.Kids {
		dumpTo(b, k, ind+1)
	}
}

func sameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameTree compares two neutral copies of real trees, everything included
func sameTree(a, b *Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Type != b.Type || a.Name != b.Name || a.IsEOF != b.IsEOF || a.Sticky != b.Sticky || a.Virt != b.Virt || a.Nond != b.Nond ||
		a.Tok != b.Tok || a.Line != b.Line || a.Col != b.Col || !sameRunes(a.Chars, b.Chars) || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !sameTree(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

func sameTrees(a, b []*Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameTree(a[i], b[i]) {
			return false
		}
	}
	return true
}

// leaves returns the chars of the leaves from left to right
func leaves(n *Node, out []rune) []rune {
	out = append(out, n.Chars...)
	for _, k := range n.Kids {
		out = leaves(k, out)
	}
	return out
}

// load loads a grammar in its plain layout
func load(g *Grammar) (*xbnf.Grammar, error) { return xbnf.NewGrammarFromString(g.Text()) }
