package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// Diff is one way in which an observed result differs from what the model says
type Diff struct{ Kind, Msg string }

type Diffs []Diff

func (d *Diffs) add(kind, format string, args ...interface{}) {
	*d = append(*d, Diff{kind, fmt.Sprintf(format, args...)})
}

func (d Diffs) only(kinds ...string) Diffs {
	var res Diffs
	for _, x := range d {
		for _, k := range kinds {
			if x.Kind == k {
				res = append(res, x)
			}
		}
	}
	return res
}

func (d Diffs) String() string {
	var b strings.Builder
	for i, x := range d {
		if i == 6 {
			b.WriteString("...")
			break
		}
		b.WriteString("[" + x.Kind + "] " + x.Msg + "; ")
	}
	return b.String()
}

// modelText is the text below a model node
func hasText(n *Node) bool {
	if len(n.Chars) > 0 {
		return true
	}
	for _, k := range n.Kids {
		if hasText(k) {
			return true
		}
	}
	return false
}

// cmpNode compares a node of the model with a real one
func cmpNode(m, r *Node, x []rune, path string, d *Diffs) {
	if len(*d) > 12 {
		return
	}
	p := path + "/" + m.Type
	if m.Name != "" {
		p += "(" + m.Name + ")"
	}
	if m.Type != r.Type {
		d.add("shape", "%s: type %q instead of %q", p, r.Type, m.Type)
	}
	if m.Name != r.Name {
		d.add("name", "%s: name %q instead of %q", p, r.Name, m.Name)
	}
	if m.IsEOF != r.IsEOF || !sameRunes(m.Chars, r.Chars) {
		d.add("chars", "%s: chars %q instead of %q", p, string(r.Chars), string(m.Chars))
	}
	if m.Tok != r.Tok || m.Virt != r.Virt || m.Nond != r.Nond {
		d.add("flags", "%s: tokenized/virtual/nondata %v %v %v instead of %v %v %v", p, r.Tok, r.Virt, r.Nond, m.Tok, m.Virt, m.Nond)
	}
	if m.Sticky != r.Sticky {
		d.add("sticky", "%s: sticky is %v", p, r.Sticky)
	}
	if hasText(m) {
		if m.Pos < 0 {
			if r.Line != 0 {
				d.add("pos", "%s: position %d:%d", p, r.Line, r.Col)
			}
		} else if l, c := lineCol(x, m.Pos); l != r.Line || c != r.Col {
			d.add("pos", "%s: position %d:%d instead of %d:%d", p, r.Line, r.Col, l, c)
		}
	}
	if len(m.Kids) != len(r.Kids) {
		d.add("shape", "%s: %d children instead of %d", p, len(r.Kids), len(m.Kids))
		return
	}
	for i := range m.Kids {
		cmpNode(m.Kids[i], r.Kids[i], x, fmt.Sprintf("%s[%d]", p, i), d)
	}
}

// cmpResult compares the result of evaluating a rule at index pos of x
func cmpResult(want Res, pos int, x []rune, got *xbnf.EvalResult) (d Diffs) {
	if got == nil {
		d.add("match", "nil result")
		return
	}
	read, unused := got.CharsRead, got.CharsUnused
	used := len(read) - len(unused)
	if used < 0 {
		d.add("read", "%d chars unused, but only %d read", len(unused), len(read))
		return
	}
	if pos+len(read) > len(x) || !sameRunes(read, x[pos:pos+len(read)]) {
		d.add("read", "chars read %q, but the text is %q", string(read), string(x[pos:]))
	}
	if !sameRunes(unused, read[used:]) {
		d.add("read", "chars unused %q are not the tail of the chars read %q", string(unused), string(read))
	}
	if got.Node == nil {
		if used != 0 {
			d.add("read", "no match, but %d chars used", used)
		}
		if got.Error == nil {
			d.add("err", "no match and no error")
		}
		if want.N != nil {
			d.add("match", "no match, instead of %q: %v", string(x[pos:want.End]), got.Error)
		}
		return
	}
	if want.N == nil {
		d.add("match", "matches %q instead of nothing (ambiguous: %v)", string(read[:used]), want.Amb)
		return
	}
	if pos+used != want.End {
		d.add("end", "matches %q instead of %q", string(read[:used]), string(x[pos:want.End]))
	}
	if got.Sticky != want.Sticky {
		d.add("sticky", "result sticky is %v", got.Sticky)
	}
	if hasNil(got.Node) {
		d.add("shape", "nil node in the tree")
		return
	}
	cmpNode(want.N, fromReal(got.Node), x, "", &d)
	return
}

// evalAt evaluates a rule of the real grammar at an index of the text. back > 0: that many chars were read further
// and put back. The stream is left for more.
func evalAt(c *Case, gr *xbnf.Grammar, rule xbnf.IRule, x []rune, pos, back, flag, limit int) (rec *Rec, res *xbnf.EvalResult, ok bool) {
	rec = newRec(string(x), limit+2*len(x)+100)
	ok = c.Guard("evaluation", func() {
		for i := 0; i < pos+back; i++ {
			rec.Next()
		}
		var cs xbnf.ICharstream = rec
		if back > 0 {
			cs = prepend(rec, append([]rune(nil), x[pos:pos+back]...))
		}
		res = rule.Eval(gr, cs, flag)
	})
	return
}

// report files the differences of the given kinds as violation
func (c *Case) report(d Diffs, kinds ...string) bool {
	if rel := d.only(kinds...); len(rel) > 0 {
		c.Violate(rel[0].Kind, "%s", rel.String())
		return true
	}
	return false
}

// usable loads a grammar; one that does not load is counted and left to the checks of loading
func (c *Case) usable(g *Grammar) *xbnf.Grammar {
	text := g.Text()
	c.Set("grammar", text)
	var gr *xbnf.Grammar
	var err error
	if !c.Guard("loading", func() { gr, err = xbnf.NewGrammarFromString(text) }) {
		return nil
	}
	if err != nil {
		c.Count("grammar refused", 1)
		c.Set("load error", err.Error())
		return nil
	}
	c.Count("grammars loaded", 1)
	return gr
}
