package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// The grammars shipped as samples, judged from what people mean by JSON documents, arithmetic expressions and property
// files. Nothing here knows how grammars work: a document is made from a value, and the value is read from the tree.

func samplesDir() string {
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	return filepath.Join(dir, "main", "samples")
}

var sampleGrammars = map[string]*xbnf.Grammar{}

func (c *Case) sampleGrammar(name string) *xbnf.Grammar {
	if g := sampleGrammars[name]; g != nil {
		return g
	}
	var g *xbnf.Grammar
	var err error
	file := filepath.Join(samplesDir(), name, name+".xbnf")
	if !c.Guard("loading "+name, func() { g, err = xbnf.NewGrammarFromFile(file) }) {
		return nil
	}
	if err != nil || g == nil {
		c.Violate("load", "the sample grammar %s does not load: %v", name, err)
		return nil
	}
	sampleGrammars[name] = g
	return g
}

// doc is a text under construction
type doc struct {
	c         *Case
	b         strings.Builder
	line, col int
	ws        []string
	often     int
	cuts      []int // ends of tokens
	inner     []int // within numbers and words
	fresh     bool  // at the start of an expression that follows another one
}

func (d *doc) put(s string) {
	for _, r := range s {
		if r == '\n' {
			d.line, d.col = d.line+1, 1
		} else {
			d.col++
		}
	}
	d.b.WriteString(s)
}

func (d *doc) space() {
	if d.c.IntN(100) < d.often {
		for n := 1 + d.c.IntN(3); n > 0; n-- {
			d.put(pick(d.c.Rand, d.ws))
		}
	}
}

func (d *doc) tok(s string) {
	d.space()
	d.put(s)
	d.cuts = append(d.cuts, d.b.Len())
}

// jval is a JSON value
type jval struct {
	kind      string // object array string number word
	text      string // what it denotes
	src       string // how it is written
	keys      []string
	kids      []*jval
	line, col int
}

func (v *jval) show(b *strings.Builder) {
	switch v.kind {
	case "object":
		b.WriteString("{")
		for i, k := range v.kids {
			fmt.Fprintf(b, "%q:", v.keys[i])
			k.show(b)
			b.WriteString(",")
		}
		b.WriteString("}")
	case "array":
		b.WriteString("[")
		for _, k := range v.kids {
			k.show(b)
			b.WriteString(",")
		}
		b.WriteString("]")
	case "string":
		fmt.Fprintf(b, "%q", v.text)
	default:
		b.WriteString(v.kind + " " + v.text)
	}
}

func (v *jval) String() string {
	var b strings.Builder
	v.show(&b)
	return b.String()
}

var jsonRunes = []rune("abcXYZ019 {}[]:,.-/'+_#$~|<>()世é\u00a0\u3000\t😀  \u2028truefalsenull")

func (c *Case) jsonText() (denoted, src string) {
	var a, b strings.Builder
	n := c.IntN(9)
	if c.IntN(40) == 0 {
		n *= 20
	}
	for ; n > 0; n-- {
		if c.IntN(8) == 0 {
			a.WriteByte('"')
			b.WriteString(`\"`)
			continue
		}
		r := pick(c.Rand, jsonRunes)
		a.WriteRune(r)
		b.WriteRune(r)
	}
	return a.String(), b.String()
}

func (c *Case) digits(n int, of string) string {
	var b strings.Builder
	if c.IntN(40) == 0 {
		n *= 8
	}
	for n = 1 + c.IntN(n); n > 0; n-- {
		b.WriteByte(of[c.IntN(len(of))])
	}
	return b.String()
}

func (c *Case) jsonValue(depth int) *jval {
	k := c.IntN(10)
	if depth <= 0 && k < 5 {
		k += 5
	}
	v := &jval{}
	switch {
	case k < 3:
		v.kind = "object"
		for n := c.IntN(4); n > 0; n-- {
			key, _ := c.jsonText()
			v.keys = append(v.keys, key)
			v.kids = append(v.kids, c.jsonValue(depth-1))
		}
	case k < 5:
		v.kind = "array"
		for n := c.IntN(5); n > 0; n-- {
			v.kids = append(v.kids, c.jsonValue(depth-1))
		}
	case k < 7:
		v.kind = "string"
		v.text, v.src = c.jsonText()
	case k < 9:
		v.kind = "number"
		if c.IntN(3) == 0 {
			v.text = "-"
		}
		n := c.digits(4, "0123456789")
		if c.IntN(4) > 0 && len(n) > 1 && n[0] == '0' { // mostly as JSON wants it
			n = "1" + n[1:]
		}
		v.text += n
		if c.IntN(3) == 0 {
			v.text += "." + c.digits(4, "0123456789")
		}
		v.src = v.text
	default:
		v.kind = "word"
		v.text = pick(c.Rand, []string{"true", "false", "null"})
		v.src = v.text
	}
	return v
}

func quoted(s string) string { return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"` }

func (d *doc) json(v *jval) {
	d.space()
	v.line, v.col = d.line, d.col
	switch v.kind {
	case "object":
		d.put("{")
		d.cuts = append(d.cuts, d.b.Len())
		for i, k := range v.kids {
			if i > 0 {
				d.tok(",")
			}
			d.tok(quoted(v.keys[i]))
			d.tok(":")
			d.json(k)
		}
		d.tok("}")
	case "array":
		d.put("[")
		d.cuts = append(d.cuts, d.b.Len())
		for i, k := range v.kids {
			if i > 0 {
				d.tok(",")
			}
			d.json(k)
		}
		d.tok("]")
	case "string":
		d.put(quoted(v.text))
		d.cuts = append(d.cuts, d.b.Len())
	default:
		if len(v.src) > 1 {
			d.inner = append(d.inner, d.b.Len()+1+d.c.IntN(len(v.src)-1))
		}
		d.put(v.src)
		d.cuts = append(d.cuts, d.b.Len())
	}
}

// nearest are the nodes of the given names below n that are not below another such node
func nearest(n *Node, names ...string) []*Node {
	var res []*Node
	for _, k := range n.Kids {
		hit := false
		for _, s := range names {
			hit = hit || k.Name == s
		}
		if hit {
			res = append(res, k)
		} else {
			res = append(res, nearest(k, names...)...)
		}
	}
	return res
}

type badTree string

func readJSON(n *Node, bare bool) *jval {
	v := &jval{line: n.Line, col: n.Col}
	parts := nearest(n, "object", "array", "literal")
	if len(parts) != 1 {
		panic(badTree(fmt.Sprintf("%d objects, arrays and literals in the value\n%s", len(parts), dump(n))))
	}
	str := func(s *Node) string {
		t := string(textOf(s))
		if bare {
			return t
		}
		if len(t) < 2 || t[0] != '"' || t[len(t)-1] != '"' {
			panic(badTree(fmt.Sprintf("the string %q is not in quotes", t)))
		}
		return t[1 : len(t)-1]
	}
	p := parts[0]
	switch p.Name {
	case "object":
		v.kind = "object"
		for _, kv := range nearest(p, "kv") {
			ks, vs := nearest(kv, "string", "value"), nearest(kv, "value")
			if len(ks) != 2 || len(vs) != 1 || ks[0].Name != "string" {
				panic(badTree("not one key and one value in\n" + dump(kv)))
			}
			v.keys = append(v.keys, str(ks[0]))
			v.kids = append(v.kids, readJSON(vs[0], bare))
		}
	case "array":
		v.kind = "array"
		for _, k := range nearest(p, "value") {
			v.kids = append(v.kids, readJSON(k, bare))
		}
	default:
		ls := nearest(p, "string", "number", "bool")
		if len(ls) > 1 {
			panic(badTree("several literals in\n" + dump(p)))
		}
		switch {
		case len(ls) == 0 || ls[0].Name == "bool":
			v.kind, v.text = "word", string(textOf(p))
		case ls[0].Name == "string":
			v.kind, v.text = "string", str(ls[0])
		default:
			v.kind, v.text = "number", string(textOf(ls[0]))
		}
	}
	return v
}

// samePlaces tells where a value does not start where it was written. A number begins with an empty string, which is
// where the space in front of the number is.
func samePlaces(a, b *jval) string {
	if a.kind != "number" && (a.line != b.line || a.col != b.col) {
		return fmt.Sprintf("%s starts at L%d:%d instead of L%d:%d", a, b.line, b.col, a.line, a.col)
	}
	for i := range a.kids {
		if msg := samePlaces(a.kids[i], b.kids[i]); msg != "" {
			return msg
		}
	}
	return ""
}

// sampleLevels parses a text at every level and has the trees judged; what is read must be want
func (c *Case) sampleLevels(g *xbnf.Grammar, text string, read func(roots []*Node, level int) string, want string) bool {
	c.Set("text", text)
	for level := xbnf.LevelRaw; level <= xbnf.LevelDataOnly; level++ {
		var ast *xbnf.AST
		var err error
		if !c.Guard("parsing", func() { ast, err = g.Eval(xbnf.NewCharstreamFromString(text), level) }) {
			return false
		}
		if err != nil || ast == nil {
			c.Violate("sample", "level %d: rejected: %v", level, err)
			return false
		}
		roots := fromRealAll(ast.Nodes)
		got := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg, is := r.(badTree)
					if !is {
						panic(r)
					}
					got = string(msg)
				}
			}()
			got = read(roots, level)
		}()
		if got != want {
			c.Violate("sample", "level %d: read from the tree:\n%s\ninstead of\n%s", level, clip(got, 3000), clip(want, 3000))
			return false
		}
	}
	return true
}

func (c *Case) sampleRejected(g *xbnf.Grammar, text, why string) bool {
	c.Set("text", text)
	for level := xbnf.LevelRaw; level <= xbnf.LevelDataOnly; level++ {
		var ast *xbnf.AST
		var err error
		if !c.Guard("parsing", func() { ast, err = g.Eval(xbnf.NewCharstreamFromString(text), level) }) {
			return false
		}
		if err == nil || ast != nil {
			c.Violate("sample", "level %d: accepted, although %s", level, why)
			return false
		}
	}
	c.Count("bad documents rejected", 1)
	return true
}

func (c *Case) newDoc(ws ...string) *doc {
	return &doc{c: c, line: 1, col: 1, ws: ws, often: []int{0, 10, 40, 80}[c.IntN(4)]}
}

func (c *Case) sampleJSON() {
	g := c.sampleGrammar("json")
	if g == nil {
		return
	}
	plain := c.IntN(4) > 0
	ws := []string{" ", " ", "\n", "\t", "\r\n", "    "}
	if !plain {
		ws = append(ws, "\u00a0", "\u2003", "\u3000", "\u0085", "\v", "\f")
	}
	d := c.newDoc(ws...)
	var vals []*jval
	n := 1
	if c.IntN(5) == 0 {
		n += 1 + c.IntN(3)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			d.put(pick(c.Rand, ws))
		}
		v := c.jsonValue(c.IntN(5))
		if c.IntN(30) == 0 {
			for k := c.IntN(60); k > 0; k-- {
				if c.IntN(2) == 0 {
					v = &jval{kind: "array", kids: []*jval{v}}
				} else {
					v = &jval{kind: "object", keys: []string{"k"}, kids: []*jval{v}}
				}
			}
		}
		d.json(v)
		vals = append(vals, v)
	}
	text := d.b.String()
	want := fmt.Sprint(vals)
	if n == 1 && plain && !strings.Contains(text, "\\") { // what the world says about it
		var x interface{}
		if err := json.Unmarshal([]byte(text), &x); err == nil {
			c.Count("documents encoding/json reads too", 1)
			if got := len(fmt.Sprint(x)); got == 0 {
				return
			}
		}
	}
	if !c.sampleLevels(g, text, func(roots []*Node, level int) string {
		var got []*jval
		for i, r := range roots {
			v := readJSON(r, level == xbnf.LevelDataOnly)
			got = append(got, v)
			if i < len(vals) && v.String() == vals[i].String() {
				if msg := samePlaces(vals[i], v); msg != "" {
					return msg
				}
			}
		}
		return fmt.Sprint(got)
	}, want) {
		return
	}
	c.Count("json documents", 1)
	c.Count("json bytes", len(text))
	c.Seen(text)
	c.Sample(text)
	// damaged
	if n > 1 || vals[0].kind != "object" && vals[0].kind != "array" {
		return
	}
	for k := 0; k < 3; k++ {
		cut := pick(c.Rand, d.cuts)
		if cut < len(text) && !c.sampleRejected(g, text[:cut], "its end is missing") {
			return
		}
		extra := pick(c.Rand, []string{"]", "}", ",", ":", "?", "nul", "'a'"})
		if !c.sampleRejected(g, text[:cut]+" "+extra+" "+text[cut:], "there is a "+extra+" too much") {
			return
		}
	}
	if len(d.inner) > 0 { // "- 1", "1 .5", "t rue"
		i := pick(c.Rand, d.inner)
		if !c.sampleRejected(g, text[:i]+pick(c.Rand, []string{" ", "\n", "\t "})+text[i:], "there is a gap in a number or word") {
			return
		}
	}
	if i := strings.LastIndexByte(text, '"'); i >= 0 && !strings.Contains(text, "\\") {
		if !c.sampleRejected(g, text[:i]+text[i+1:], "a string is not closed") {
			return
		}
	}
}

// ---- arithmetic

func (d *doc) expr(depth int) string {
	s := d.term(depth)
	for d.c.IntN(3) == 0 {
		op := pick(d.c.Rand, []string{"+", "-"})
		d.tok(op)
		s = "(" + s + op + d.term(depth) + ")"
	}
	return s
}

func (d *doc) term(depth int) string {
	s := d.factor(depth)
	for d.c.IntN(3) == 0 {
		op := pick(d.c.Rand, []string{"*", "/"})
		d.tok(op)
		s = "(" + s + op + d.factor(depth) + ")"
	}
	return s
}

func (d *doc) factor(depth int) string {
	c := d.c
	fresh := d.fresh
	d.fresh = false
	if fresh && c.IntN(2) == 0 || depth > 0 && c.IntN(3) == 0 {
		d.tok("(")
		s := d.expr(depth - 1)
		d.tok(")")
		return s
	}
	s := ""
	k := c.IntN(6)
	if fresh { // the digits of a number go on after white space
		k = 5
	}
	switch k {
	case 0:
		s = c.digits(4, "0123456789")
	case 1:
		s = "0x" + c.digits(4, "0123456789abcdefABCDEF")
	case 2:
		s = "0o" + c.digits(4, "01234567")
	case 3:
		s = "0b" + c.digits(6, "01")
	case 4:
		s = "." + c.digits(3, "0123456789")
		if c.IntN(2) == 0 {
			s = c.digits(3, "0123456789") + s
		}
	default:
		s = c.digits(1, "abcxyzABCXYZ")
		if c.IntN(2) == 0 {
			s += c.digits(5, "abcxyzABCXYZ0123456789_")
		}
	}
	before := d.b.String()
	operand := strings.HasSuffix(before, "(") || strings.HasSuffix(before, "+") || strings.HasSuffix(before, "-") || strings.HasSuffix(before, "*") || strings.HasSuffix(before, "/")
	if s[0] == '.' && (!operand || c.IntN(2) == 0) {
		s = "0" + s
	}
	if s[0] == '.' { // the grammar takes no space in front of this: the repetition that matches nothing sticks to the point
		d.put(s)
		d.cuts = append(d.cuts, d.b.Len())
		return s
	}
	if operand && c.IntN(8) == 0 && s[0] >= '0' && s[0] <= '9' && !strings.ContainsAny(s, "xob") {
		s = "-" + s
	}
	d.tok(s)
	return s
}

func readExpr(n *Node, inner, op string, sub func(*Node) string) string {
	if len(n.Kids) == 0 {
		return string(textOf(n))
	}
	parts := nearest(n, inner, op)
	if len(parts)%2 == 0 {
		panic(badTree("no chain of operands in\n" + dump(n)))
	}
	s := ""
	for i, p := range parts {
		if (i%2 == 0) != (p.Name == inner) {
			panic(badTree("no chain of operands in\n" + dump(n)))
		}
		switch {
		case i == 0:
			s = sub(p)
		case i%2 == 0:
			s = "(" + s + string(textOf(parts[i-1])) + sub(p) + ")"
		}
	}
	return s
}

func readArith(n *Node) string {
	return readExpr(n, "term", "term_operator", func(t *Node) string {
		return readExpr(t, "factor", "factor_operator", func(f *Node) string {
			parts := nearest(f, "literal", "variable", "expr")
			switch {
			case len(parts) == 0 && len(f.Kids) == 0:
				return string(textOf(f))
			case len(parts) != 1:
				panic(badTree("not one operand in\n" + dump(f)))
			case parts[0].Name == "expr":
				return readArith(parts[0])
			}
			return string(textOf(parts[0]))
		})
	})
}

func (c *Case) sampleArith() {
	g := c.sampleGrammar("arithmetic")
	if g == nil {
		return
	}
	d := c.newDoc(" ", " ", "\t", "\n")
	var want []string
	for n := 1 + c.IntN(4); n > 0; n-- {
		if len(want) > 0 {
			d.put(pick(c.Rand, []string{"\n", "\n\n", "\r\n", "  \n  ", "\n\n\n", "\r"}))
			d.fresh = true
		}
		start := d.b.Len()
		depth := c.IntN(3)
		if c.IntN(60) == 0 {
			depth = 6
		}
		want = append(want, d.expr(depth))
		if t := strings.TrimLeft(d.b.String()[start:], " \t\n"); t[0] == '-' {
			return
		}
	}
	text := d.b.String()
	if !c.sampleLevels(g, text, func(roots []*Node, level int) string {
		var got []string
		for _, r := range roots {
			if r.Name != "exprs" {
				panic(badTree("the root is " + r.Name))
			}
			for _, e := range nearest(r, "expr") {
				got = append(got, readArith(e))
			}
		}
		return strings.Join(got, "\n")
	}, strings.Join(want, "\n")) {
		return
	}
	c.Count("arithmetic texts", 1)
	c.Seen(text)
	c.Sample(text)
	for k := 0; k < 3; k++ {
		cut := pick(c.Rand, d.cuts)
		extra := pick(c.Rand, []string{"(", ")", "&", "* *", "()", "$", ","})
		if !c.sampleRejected(g, text[:cut]+" "+extra+" "+text[cut:], "there is a "+extra+" too much") {
			return
		}
	}
	if !c.sampleRejected(g, text+pick(c.Rand, []string{"+", " *", "-", "/ ", "(1"}), "it ends within an expression") {
		return
	}
}

// ---- properties

func (c *Case) propText(n int, more string) string {
	of := []rune("abcABC019 .-/_#!\"'(){}[]<>~^|$世é\t" + more)
	if c.IntN(20) == 0 {
		n *= 15
	}
	for {
		var b strings.Builder
		for k := 1 + c.IntN(n); k > 0; k-- {
			b.WriteRune(pick(c.Rand, of))
		}
		s := b.String()
		if s[0] != ' ' && s[0] != '\t' {
			return s
		}
	}
}

func (c *Case) sampleProperties() {
	g := c.sampleGrammar("property")
	if g == nil {
		return
	}
	var b strings.Builder
	var want []string
	n := 1 + c.IntN(6)
	bad := ""
	at := -1
	if c.IntN(4) == 0 {
		at = c.IntN(n)
	}
	gap := func() {
		for c.IntN(3) == 0 {
			b.WriteString(pick(c.Rand, []string{" ", "\t", "\n", "  ", "\n\n"}))
		}
	}
	gap()
	for i := 0; i < n; i++ {
		if i == at {
			bad = "a key is not followed by a separator"
			b.WriteString(c.propText(5, "") + `\=` + c.propText(5, "") + "\n")
			continue
		}
		key, src := c.propText(10, ""), ""
		if c.IntN(5) == 0 { // a line of its own
			b.WriteString(key)
			want = append(want, fmt.Sprintf("- %q", key))
		} else {
			src = key
			if c.IntN(5) == 0 {
				sep := pick(c.Rand, []string{"=", ":"})
				more := c.propText(4, "")
				src, key = key+`\`+sep+more, key+sep+more
			}
			b.WriteString(src + pick(c.Rand, []string{"=", ":"}) + pick(c.Rand, []string{"", "", " ", "\t ", "   "}))
			val := c.propText(12, "=:")
			vsrc := val
			for c.IntN(5) == 0 {
				more := pick(c.Rand, []string{"", "", " ", "\t", "    ", "\u00a0", "  \t"}) + c.propText(5, "=: ")
				vsrc, val = vsrc+"\\\n"+more, val+"\n"+more
			}
			b.WriteString(vsrc)
			want = append(want, fmt.Sprintf("%q %q", key, val))
		}
		if i < n-1 || c.IntN(2) == 0 {
			b.WriteString("\n")
			gap()
		}
	}
	text := b.String()
	if bad != "" {
		c.sampleRejected(g, text, bad)
		return
	}
	if !c.sampleLevels(g, text, func(roots []*Node, level int) string {
		var got []string
		for _, r := range roots {
			if r.Name != "property" {
				panic(badTree("the root is " + r.Name))
			}
			var parts []string
			for _, p := range nearest(r, "emptykey", "key", "value") {
				if p.Name == "emptykey" {
					parts = append(parts, "-")
				}
				q := cloneNode(p)
				q.Kids = removeModel(q.Kids, isVirt)
				parts = append(parts, fmt.Sprintf("%q", string(textOf(q))))
			}
			got = append(got, strings.Join(parts, " "))
		}
		return strings.Join(got, "\n")
	}, strings.Join(want, "\n")) {
		return
	}
	c.Count("property files", 1)
	c.Count("properties", len(want))
	c.Seen(text)
	c.Sample(text)
}

func init() {
	register(&Check{
		ID: "C31", Quick: 30000, Thorough: 1500000,
		Rule: "Random JSON values, arithmetic expressions and lists of properties are written as text with random whitespace, parsed with the grammar files shipped as samples at all four levels, and read back from the named nodes of the tree; what is read must be what was written, values (numbers aside) starting where they were written. Texts damaged so that they are certainly bad (cut off, closed twice, with a stray symbol, ending within an expression, without separator) must be rejected. Non-trivial: a tree was read; distinct texts are counted.",
		Need: map[string]int{"json documents": 5000, "arithmetic texts": 5000, "property files": 5000, "bad documents rejected": 5000, "documents encoding/json reads too": 1000},
		Random: func(c *Case) {
			switch c.IntN(3) {
			case 0:
				c.sampleJSON()
			case 1:
				c.sampleArith()
			default:
				c.sampleProperties()
			}
		},
	})
}
