package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/cnsgfk/xbnf"
)

// An independent reader of definitions: it says what a text denotes, that it is malformed, or that this reader does
// not want to say (the notation leaves it open, or the code's way is an accident nobody should rely on).

type verdict int

const (
	malformed verdict = iota
	wellFormed
	unclear
)

type badDefinition struct{}
type unclearDefinition struct{}

type defReader struct {
	s []rune
	i int
	// noStruct: it is well-formed, but how it would be printed is not known
	noStruct bool
}

func readDef(text string) (r *Rule, noStruct bool, v verdict) {
	d := &defReader{s: []rune(strings.TrimSpace(text))}
	if !utf8.ValidString(text) || strings.ContainsRune(text, '\n') {
		return nil, false, unclear
	}
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case badDefinition:
				r, v = nil, malformed
			case unclearDefinition:
				r, v = nil, unclear
			default:
				panic(e)
			}
		}
	}()
	r = d.seq("", false, true)
	return r, d.noStruct, wellFormed
}

func (d *defReader) bad() { panic(badDefinition{}) }

func (d *defReader) peek() rune {
	if d.i >= len(d.s) {
		return -1
	}
	return d.s[d.i]
}

func (d *defReader) next() rune {
	c := d.peek()
	if c >= 0 {
		d.i++
	}
	return c
}

func (d *defReader) want(c rune) {
	if d.next() != c {
		d.bad()
	}
}

func (d *defReader) skip(not string) {
	for d.peek() >= 0 && isWS(d.peek()) && !strings.ContainsRune(not, d.peek()) {
		d.i++
	}
}

// seq reads elements up to one of the stop chars (which is left) or the end
func (d *defReader) seq(stop string, inBlock, top bool) *Rule {
	var elems []*Rule
	d.skip("")
	spaced := false
	for {
		before := d.i
		d.skip(stop)
		c := d.peek()
		if c < 0 || strings.ContainsRune(stop, c) {
			break
		}
		if c == '/' {
			d.i++
			d.want('/')
			if !top {
				d.bad() // the comment goes on to the end, nothing closes the brackets
			}
			d.i = len(d.s)
			break
		}
		if c == '|' || c == '>' {
			if inBlock {
				panic(unclearDefinition{}) // a choice right in a block
			}
			if len(elems) == 0 {
				d.bad()
			}
			ch := &Rule{K: KChoice}
			group := []*Rule{elems[len(elems)-1]}
			for {
				d.skip("")
				if op := d.peek(); op == '|' {
					d.i++
					group = append(group, d.one(""))
				} else if op == '>' && !strings.ContainsRune(stop, '>') {
					d.i++
					ch.Groups = append(ch.Groups, group)
					group = []*Rule{d.one("")}
				} else {
					break
				}
			}
			ch.Groups = append(ch.Groups, group)
			elems[len(elems)-1] = ch
			continue
		}
		for _, w := range d.s[before:d.i] {
			spaced = spaced || w == ' ' && len(elems) > 0
		}
		elems = append(elems, d.one(stop))
	}
	switch {
	case len(elems) == 0:
		d.bad()
	case len(elems) == 1:
		return elems[0]
	case inBlock && spaced:
		panic(unclearDefinition{}) // parts of a block set apart by spaces
	}
	return &Rule{K: KConcat, Kids: elems}
}

// one reads one element with its annotations
func (d *defReader) one(stop string) *Rule {
	var tok, virt, nond bool
	for {
		d.skip(stop)
		c := d.peek()
		if c < 0 || strings.ContainsRune(stop, c) {
			d.bad()
		}
		switch c {
		case '~':
			virt = true
		case '#':
			nond = true
		case '$':
			tok = true
		default:
			r := d.primary(c)
			r.Tok, r.Virt, r.Nond = tok, virt, nond
			return r
		}
		d.i++
	}
}

func (d *defReader) hex() rune {
	d.want('u')
	n := rune(0)
	for k := 0; k < 4; k++ {
		i := strings.IndexRune("0123456789abcdefABCDEF", d.next())
		if i < 0 {
			d.bad()
		}
		if i >= 16 {
			i -= 6
		}
		n = n*16 + rune(i)
	}
	if n >= 0xD800 && n <= 0xDFFF {
		panic(unclearDefinition{})
	}
	return n
}

func (d *defReader) quoted() (t []rune, escaped bool) {
	q := d.next()
	for {
		c := d.next()
		switch {
		case c < 0:
			d.bad()
		case c == q:
			return
		case c == '\\' && d.peek() == 'u':
			t = append(t, d.hex())
			escaped = true
		case c == '\\':
			if c = d.next(); c < 0 {
				d.bad()
			}
			t = append(t, c)
		default:
			t = append(t, c)
		}
	}
}

func (d *defReader) primary(c rune) *Rule {
	switch {
	case c == '\'':
		t, esc := d.quoted()
		if len(t) == 0 {
			d.bad()
		}
		if len(t) > 1 {
			return &Rule{K: KChars, T: t}
		}
		return d.charOrRange(t[0], esc)
	case c == '\\':
		d.i++
		return d.charOrRange(d.hex(), true)
	case c == '"':
		t, _ := d.quoted()
		return &Rule{K: KStr, T: t}
	case c == '[':
		return d.bracket(KOpt, "]")
	case c == '(':
		return d.bracket(KGroup, ")")
	case c == '{':
		r := d.bracket(KRep, "}")
		d.bounds(r)
		return r
	case c == '<':
		return d.block()
	case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_':
		from := d.i
		for c := d.peek(); 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '_'; c = d.peek() {
			d.i++
		}
		if name := string(d.s[from:d.i]); name != "EOF" {
			return ref(name)
		}
		return &Rule{K: KEOF}
	}
	d.bad()
	return nil
}

func (d *defReader) bracket(k Kind, end string) *Rule {
	d.i++
	r := d.seq(end, false, false)
	d.want(rune(end[0]))
	return &Rule{K: k, Kids: []*Rule{r}}
}

func (d *defReader) charOrRange(lo rune, esc bool) *Rule {
	if d.peek() != '-' {
		return &Rule{K: KChar, T: []rune{lo}, UniEscaped: esc}
	}
	d.i++
	r := &Rule{K: KRange, Lo: lo, UniEscaped: esc}
	escHi := true
	switch d.next() {
	case '\\':
		r.Hi = d.hex()
	case '\'':
		if r.Hi = d.next(); r.Hi < 0 {
			d.bad()
		}
		if escHi = false; r.Hi == '\\' {
			if escHi = d.peek() == 'u'; escHi {
				r.Hi = d.hex()
			} else if r.Hi = d.next(); r.Hi < 0 {
				d.bad()
			}
		}
		d.want('\'')
	default:
		d.bad()
	}
	if escHi != esc {
		d.noStruct = true
	}
	return r
}

func (d *defReader) bounds(r *Rule) {
	switch d.peek() {
	case '*':
		d.i++
	case '+':
		d.i++
		r.Min = 1
	case '<':
		d.i++
		var parts []string
		cur := ""
		for done := false; !done; {
			c := d.next()
			switch {
			case c == '>' || c == ',' && len(parts) == 0:
				parts = append(parts, cur)
				cur, done = "", c == '>'
			case c >= '0' && c <= '9':
				cur += string(c)
			case c == ' ' || c == '\t':
				if cur != "" && strings.ContainsRune("0123456789", d.peek()) {
					panic(unclearDefinition{})
				}
			case c > 0 && isWS(c):
				panic(unclearDefinition{})
			default:
				d.bad()
			}
		}
		ns := []int{0, 0}
		for i, p := range parts {
			if p == "" {
				continue
			}
			n, err := strconv.ParseUint(p, 10, 64)
			if err != nil || n > 1<<32-1 {
				d.bad()
			}
			ns[i] = int(n)
		}
		r.Min, r.Max = ns[0], ns[1]
		if r.Max != 0 && r.Max < r.Min {
			d.bad()
		}
	}
}

func (d *defReader) block() *Rule {
	d.i++
	r := &Rule{K: KBlock}
	r.Open = d.seq(" >!", true, false)
	d.skip("")
	last := ""
	if d.peek() != '^' {
		p := d.seq(" >!", true, false)
		d.skip("")
		if c := d.peek(); c == '>' || c == '!' {
			r.Close = p
			last = "closed"
		} else {
			r.Esc = p
		}
	}
	if last == "" {
		for d.skip(""); d.peek() == '^'; d.skip("") {
			d.i++
			r.Excl = append(r.Excl, d.seq(" >!", true, false))
		}
		r.Close = d.seq(">!", true, false)
	}
	if d.peek() == '!' {
		d.i++
		r.VClose = true
		d.skip("")
	}
	d.want('>')
	return r
}

// ---- definitions made of anything

var soupTokens = []string{"'a'", "'b'", "'ab'", "\"a\"", "\"\"", "'a'-'z'", "\\u0041", "\\u0041-\\u0043", "'a'-\\u0062", "\\u0030-'9'", "x", "y1", "EOF", "_z", "zZ_9", "''",
	"|", "|", ">", ">", "(", ")", "(", ")", "[", "]", "[", "]", "{", "}", "{", "}", "}*", "}+", "}<1,2>", "}<2>", "}<,3>", "}<>", "}< 1 , 0 >", "<", ">", "<'a' 'b'>", "<'a' '\\\\' 'b'!>", "<x ^y1 'c' >", "< 'a' \"b\" ^'c' ^'d' x ! >",
	"<'a'|'b' 'c' 'd'>", "<'x' 'a'|'b'!>", "<'x' 'y' ^'a'|'b'>'c' 'd' 'e'|'f' ! >", "<'x' 'e'|'f'>\t'g'!>", "<$~'x'|y1 ~'e'\t#'f' 'z'>",
	"^", "!", "~", "#", "$", "~#", "-", "/", "//", "// c ) | '", "\\", "\\u12", "\\u+041", "\\u-041", "\\u00g1", "\\u 041", "\\U0041", "0", "9", "*", "+", ",", "=", "'", "\"", "\\'", "'\\''", "\"\\\"\"", "'\\u0027'", "'\\\\'", "'''", "'a'-'''", "'\\'-'b'",
	" ", " ", " ", " ", "\t", "\r", "\u3000", "\u2028", "@", ".", "%", "&", "\u200b", "é", "世", "\x00", "?", ":", ";", "`", "{ 'a' }<4294967295>", "}<4294967296>", "}<1,4294967296>", "}<2,99999999999999999999>", "}<2,1>", "}<1.5>", "}<-1>", "}<1,2,3>", "}<a>", "}<1", "-'z'", "'a'-", "'a'-z", "'a' -'z'", "'a'- 'z'", "'ab'-'c'"}

func soup(r *rand.Rand, g *Gen, gr *Grammar) string {
	var toks []string
	if r.IntN(3) == 0 {
		for n := 1 + r.IntN(9); n > 0; n-- {
			toks = append(toks, pick(r, soupTokens))
			if r.IntN(2) == 0 {
				toks = append(toks, " ")
			}
		}
		return strings.Join(toks, "")
	}
	s := (&Layout{Rand: r}).top(gr.Rules[gr.Names[0]], false)
	c := []rune(s)
	for n := 1 + r.IntN(3); n > 0; n-- {
		i := r.IntN(len(c) + 1)
		j := min(len(c), i+1+r.IntN(3))
		switch r.IntN(6) {
		case 0:
			c = append(c[:i:i], c[j:]...)
		case 1:
			c = append(c[:i:i], append([]rune(pick(r, soupTokens)), c[i:]...)...)
		case 2:
			c = append(c[:i:i], append([]rune(pick(r, soupTokens)), c[j:]...)...)
		case 3:
			c = append(c[:j:j], c[i:]...)
		case 4:
			if i+1 < len(c) {
				c[i], c[i+1] = c[i+1], c[i]
			}
		case 5:
			c = append(c[:i:i], append([]rune(pick(r, []string{" ", "|", ">", "~", "(", ")", "'", "\"", "^", "!", "\\", "\t"})), c[i:]...)...)
		}
		if len(c) == 0 {
			break
		}
	}
	return string(c)
}

// soups judges what becomes of definitions made of anything. structs: what they denote is judged, too.
func (c *Case) soups(structs bool) {
	cfg := loadCfg(c)
	cfg.Big = 0
	g := gen(c, cfg)
	gr := g.grammar(-1)
	have := gr.Names[1:]
	n := 4
	if structs {
		n = 12
	}
	for k := 0; k < n; k++ {
		def := soup(c.Rand, g, gr)
		want, noStruct, v := readDef(def)
		if v == unclear || strings.ContainsAny(def, "\n") {
			c.Count("unclear definitions", 1)
			continue
		}
		c.Set("grammar", fmt.Sprintf("s = %s", def))
		real := xbnf.NewGrammar()
		var rule xbnf.IRule
		var err error
		before, after, shown := "", "", ""
		viaAdd := c.IntN(2) == 0
		if !c.Guard("loading", func() {
			for _, n := range have {
				if _, e := real.ParseRule(n, gr.Rules[n].String()); e != nil {
					err = e
				}
			}
			before = rulesText(real, have) + normalRelation(real)
			if err != nil {
				return
			}
			if viaAdd {
				rule, err = real.AddRule("s = " + def)
			} else {
				rule, err = real.ParseRule("s", def)
			}
			after = rulesText(real, have) + normalRelation(real)
			if rule != nil {
				shown = rule.String()
			}
		}) {
			return
		}
		if rule == nil && err == nil || rule != nil && err != nil {
			c.Violate("accepted", "%q gives rule %v and error %v", def, rule != nil, err)
			return
		}
		if v == wellFormed {
			c.Count("well-formed definitions of odd looks", 1)
			if err != nil {
				c.Violate("load", "the well-formed definition %q is refused: %v", def, err)
				return
			}
			c.Seen(def)
			if structs && !noStruct && uniText(want) {
				plain := want.String()
				fresh, e := xbnf.NewGrammar().ParseRule("s", plain)
				if e != nil {
					c.Violate("load", "the well-formed definition %q is refused: %v", plain, e)
					return
				}
				if w := fresh.String(); w != shown {
					c.Violate("structure", "%q is taken as %q instead of %q", def, shown, w)
					return
				}
				c.Count("structures compared", 1)
			}
			continue
		}
		if structs {
			continue
		}
		c.Count("malformed definitions of odd looks", 1)
		if err == nil {
			c.Violate("accepted", "the malformed definition %q is accepted, as %q", def, shown)
			return
		}
		if after != before || real.GetRule("s") != nil {
			c.Violate("changed", "rejecting %q changed the grammar from\n%s\nto\n%s", def, before, after)
			return
		}
	}
}

// uniText tells whether all chars of a definition are written the same way in any layout
func uniText(r *Rule) bool {
	ok := true
	r.walk(func(k *Rule) {
		for _, c := range append([]rune{k.Lo, k.Hi}, k.T...) {
			ok = ok && validUnescaped(c)
		}
	})
	return ok
}

// soupTrips prints definitions of odd looks, loads them back and compares
func (c *Case) soupTrips() {
	cfg := loadCfg(c)
	cfg.Big = 0
	const name = "kW8_j" // (nothing refers to it)
	g := gen(c, cfg)
	gr := g.grammar(-1)
	for k := 0; k < 8; k++ {
		def := soup(c.Rand, g, gr)
		c.Set("grammar", fmt.Sprintf("s = %s", def))
		var rule, again xbnf.IRule
		var err error
		load := func(def string) (real *xbnf.Grammar, rule xbnf.IRule, err error) {
			real = xbnf.NewGrammar()
			for _, n := range gr.Names[1:] {
				if _, err := real.ParseRule(n, gr.Rules[n].String()); err != nil {
					return nil, nil, err
				}
			}
			rule, err = real.ParseRule(name, def)
			return
		}
		var real, real2 *xbnf.Grammar
		if !c.Guard("loading", func() { real, rule, err = load(def) }) {
			return
		}
		if err != nil || rule == nil {
			continue
		}
		var p, p2, d, d2 string
		if !c.Guard("printing", func() { p, d = rule.String(), rule.StringWithIndent("  ") }) {
			return
		}
		c.Set("printed", p)
		if !c.Guard("loading the printed rules", func() { real2, again, err = load(p) }) {
			return
		}
		if err != nil || again == nil {
			c.Violate("roundtrip", "%q is printed as %q, which does not load: %v", def, p, err)
			return
		}
		if !c.Guard("printing", func() { p2, d2 = again.String(), again.StringWithIndent("  ") }) {
			return
		}
		if p != p2 || d != d2 {
			c.Violate("roundtrip", "%q is printed as\n%s\n%s\nand after loading that as\n%s\n%s", def, p, d, p2, d2)
			return
		}
		if rule.IsTokenized() != again.IsTokenized() || rule.IsVirtual() != again.IsVirtual() || rule.IsNonData() != again.IsNonData() {
			c.Violate("roundtrip", "%q is printed as %q, which has other annotations", def, p)
			return
		}
		for t := 0; t < 4; t++ {
			x := []rune(string(g.textFor(gr, gr.Rules[pick(c.Rand, gr.Names)], mixedWS(c))))
			if all := []rune(def); t > 0 && len(all) > 0 {
				x = nil
				for n := c.IntN(10); n > 0; n-- {
					x = append(x, pick(c.Rand, all))
				}
			}
			if len(x) > 12 {
				x = x[:12]
			}
			c.Set("text", fmt.Sprintf("%q", string(x)))
			if !c.cheap(real, rule, x) {
				if c.failed {
					return
				}
				continue
			}
			var a, b string
			if !c.Guard("evaluation", func() {
				r := real.EvalRule(name, string(x))
				a, b = showResult(r), showResult(real2.EvalRule(name, string(x)))
				if r.Node != nil {
					c.Count("matches compared", 1)
				}
			}) {
				return
			}
			if a != b {
				c.Violate("roundtrip", "%q is printed as %q; the rule made from that gives\n%s\ninstead of\n%s", def, p, b, a)
				return
			}
		}
		c.Count("definitions of odd looks rebuilt", 1)
		c.Seen(p)
	}
}
