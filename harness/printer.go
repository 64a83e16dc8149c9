package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"
)

// Layout decides how a definition is written. A nil Rand gives the plain layout.
type Layout struct {
	*rand.Rand
	Newlines bool // newlines between elements are allowed (not in grammar files)
}

func (l *Layout) chance(p int) bool { return l.Rand != nil && l.IntN(100) < p }

var lineWS = []rune{' ', '\t', '\v', '\f', '\r', 0x85, 0xA0, 0x1680, 0x2003, 0x2028, 0x3000}

// ws is whitespace between elements where any whitespace will do
func (l *Layout) ws(inBlock bool, must bool) string {
	if l.Rand == nil {
		if !must {
			return ""
		}
		if inBlock {
			return "\t"
		}
		return " "
	}
	n := 0
	if must {
		n = 1
	}
	switch l.IntN(6) {
	case 0, 1:
		n++
	case 2:
		n += l.IntN(4)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		c := ' '
		if inBlock {
			c = '\t'
		}
		if l.IntN(4) == 0 {
			c = lineWS[l.IntN(len(lineWS))]
			if l.Newlines && l.IntN(3) == 0 {
				c = '\n'
			}
			if inBlock && c == ' ' {
				c = '\t'
			}
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (l *Layout) annot(r *Rule, inBlock bool) string {
	var a []string
	if r.Tok {
		a = append(a, "$")
	}
	if r.Virt {
		a = append(a, "~")
	}
	if r.Nond {
		a = append(a, "#")
	}
	if l.Rand != nil {
		l.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
		if len(a) > 0 && l.chance(8) {
			a = append(a, a[0]) // the same annotation twice is the same as once
		}
	}
	s := ""
	for _, x := range a {
		s += x
		if l.chance(6) {
			s += l.ws(inBlock, false)
		}
	}
	return s
}

func validUnescaped(c rune) bool { return c != '\n' && utf8.ValidRune(c) }

func (l *Layout) lit(t []rune, quote rune) string {
	var b strings.Builder
	b.WriteRune(quote)
	for _, c := range t {
		must := c == quote || c == '\\'
		switch {
		case !validUnescaped(c):
			fmt.Fprintf(&b, "\\u%04x", c)
		case c <= 0xFFFF && l.chance(7):
			if l.chance(50) {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				fmt.Fprintf(&b, "\\u%04X", c)
			}
		case must || (c != 'u' && l.chance(12)):
			b.WriteRune('\\')
			b.WriteRune(c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteRune(quote)
	return b.String()
}

func (l *Layout) char1(c rune, uni bool) string {
	if uni && c <= 0xFFFF {
		return fmt.Sprintf("\\u%04X", c)
	}
	return l.lit([]rune{c}, '\'')
}

func (l *Layout) rangeEnd(c rune, uni bool) string {
	if uni && c <= 0xFFFF {
		return fmt.Sprintf("\\u%04X", c)
	}
	if !validUnescaped(c) || (c <= 0xFFFF && l.chance(15)) {
		return fmt.Sprintf("'\\u%04X'", c)
	}
	if c == '\\' || c != 'u' && l.chance(12) {
		return "'\\" + string(c) + "'"
	}
	return "'" + string(c) + "'"
}

func (l *Layout) spec(min, max int) string {
	var opts []string
	sp := func() string {
		if l.chance(10) {
			if l.Newlines && l.chance(30) {
				return "\n"
			}
			return []string{" ", "\t", "  "}[l.IntN(3)]
		}
		return ""
	}
	switch {
	case min == 0 && max == 0:
		opts = []string{"", "", "*", "<0,0>", "<,>", "<0,>", "<0>"}
	case min == 1 && max == 0:
		opts = []string{"+", "<1>", "<1,>", "<1,0>", "<01>"}
	case max == 0:
		opts = []string{fmt.Sprintf("<%d>", min), fmt.Sprintf("<%s%d%s,>", sp(), min, sp()), fmt.Sprintf("<%d,0>", min)}
	case min == 0:
		opts = []string{fmt.Sprintf("<0,%d>", max), fmt.Sprintf("<,%s%d%s>", sp(), max, sp())}
	default:
		opts = []string{fmt.Sprintf("<%s%d%s,%s%d>", sp(), min, sp(), sp(), max)}
	}
	if l.Rand == nil {
		return opts[0]
	}
	return opts[l.IntN(len(opts))]
}

// top writes a rule where a sequence may stand. dir tells it's directly in a block, where parts must not contain a space.
func (l *Layout) top(r *Rule, dir bool) string {
	switch r.K {
	case KConcat:
		var b strings.Builder
		for i, k := range r.Kids {
			s := l.top(k, dir)
			if i > 0 {
				prev := b.String()
				must := true
				if l.chance(40) {
					must = l.needSep(prev, s, r.Kids[i-1])
				}
				b.WriteString(l.ws(dir, must))
			}
			b.WriteString(s)
		}
		return b.String()
	case KChoice:
		var b strings.Builder
		for gi, g := range r.Groups {
			for i, k := range g {
				if gi+i > 0 {
					op := "|"
					if i == 0 {
						op = ">"
					}
					if l.Rand == nil {
						b.WriteString(" " + op + " ")
					} else {
						b.WriteString(l.ws(dir, false) + op + l.ws(dir, false))
					}
				}
				b.WriteString(l.one(k, dir))
			}
		}
		return b.String()
	}
	return l.one(r, dir)
}

func isWord(c byte) bool {
	return c == '_' || ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
}

// needSep tells whether two elements would run into each other without whitespace
func (l *Layout) needSep(prev, next string, prevRule *Rule) bool {
	if prev == "" || next == "" {
		return true
	}
	p, n := prev[len(prev)-1], next[0]
	if isWord(p) && isWord(n) {
		return true
	}
	if p == '}' && (n == '<' || n == '*' || n == '+') {
		return true
	}
	return false
}

func (l *Layout) inner(r *Rule) string {
	if l.Rand == nil {
		return " " + l.top(r, false) + " "
	}
	return l.ws(false, false) + l.top(r, false) + l.ws(false, false)
}

// one writes a rule that is a single element
func (l *Layout) one(r *Rule, dir bool) string {
	a := l.annot(r, dir)
	switch r.K {
	case KChar:
		return a + l.char1(r.T[0], r.UniEscaped)
	case KChars:
		return a + l.lit(r.T, '\'')
	case KStr:
		return a + l.lit(r.T, '"')
	case KRange:
		return a + l.char1(r.Lo, r.UniEscaped) + "-" + l.rangeEnd(r.Hi, r.UniEscaped)
	case KEOF:
		return a + "EOF"
	case KRef:
		return a + r.Ref
	case KGroup:
		return a + "(" + l.inner(r.Kids[0]) + ")"
	case KOpt:
		return a + "[" + l.inner(r.Kids[0]) + "]"
	case KRep:
		return a + "{" + l.inner(r.Kids[0]) + "}" + l.spec(r.Min, r.Max)
	case KBlock:
		var b strings.Builder
		b.WriteString(a + "<")
		sp := func() {
			b.WriteByte(' ')
			for l.chance(15) {
				b.WriteByte(' ')
			}
		}
		if l.chance(20) {
			sp()
		}
		b.WriteString(l.top(r.Open, true))
		if r.Esc != nil {
			sp()
			b.WriteString(l.top(r.Esc, true))
		}
		for _, e := range r.Excl {
			sp()
			b.WriteByte('^')
			b.WriteString(l.top(e, true))
		}
		sp()
		b.WriteString(l.top(r.Close, true))
		if l.chance(20) {
			sp()
		}
		if r.VClose {
			b.WriteByte('!')
			if l.chance(10) {
				b.WriteByte(' ')
			}
		}
		b.WriteString(">")
		return b.String()
	}
	panic("printer: kind " + kindNames[r.K])
}

func (r *Rule) String() string { return (&Layout{}).top(r, false) }

// Text writes the whole grammar, a line per rule, in the plain layout
func (g *Grammar) Text() string {
	var b strings.Builder
	for _, n := range g.Names {
		b.WriteString(n + " = " + g.Rules[n].String() + "\n")
	}
	return b.String()
}
