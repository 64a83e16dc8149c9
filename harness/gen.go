package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Cfg steers the generator of grammars
type Cfg struct {
	Alpha    []rune
	MinRules int
	MaxRules int
	Depth    int
	W        [numKinds]int
	Annot    int // percent of elements annotated
	WSTerm   int // percent of terminal chars that are whitespace
	MaxLen   int // of chars and strings
	MaxKids  int
	Empty    int // percent of strings that are empty
	Groups   int // percent of choices with several ordered groups
	Names    bool
	UniEsc   int
	Path     int // percent of definitions built around a random nesting of kinds, all nestings alike
	Big      int // percent of grammars with one thing in them much bigger than usual
	Hostile  int // percent of literals with a piece of text in them that means something elsewhere
	Overlap  int // percent of choices whose alternatives are prefixes of each other
}

func baseCfg() Cfg {
	return Cfg{
		Alpha: []rune("abc"), MinRules: 1, MaxRules: 5, Depth: 3,
		W:     [numKinds]int{KChar: 10, KChars: 8, KStr: 8, KRange: 4, KEOF: 1, KRef: 8, KConcat: 8, KChoice: 7, KGroup: 3, KOpt: 4, KRep: 6, KBlock: 2},
		Annot: 0, WSTerm: 4, MaxLen: 3, MaxKids: 4, Empty: 4, Groups: 35,
		Path: 30, Big: 3, Overlap: 15, Hostile: 3,
	}
}

var (
	alphaTiny    = []rune("ab")
	alphaSmall   = []rune("abc")
	alphaMid     = []rune("abcxyz01")
	alphaUni     = []rune{'a', 'b', 'é', 'ß', 'Ω', '世', '界', '😀', '𝔘', 0xFFFD, 0xFFFF, 0x10FFFF, 0x10000, 0, 1, 0x7F, 0x80, 0xFF, 0x100, 0xD7FF, 0xE000}
	alphaSpecial = []rune("|<>[]{}()!^~#$'\"\\/=-+*,u_;:%&0a.?@`nrtbfvx19AF")
	alphaASCII   = asciiChars()
	alphaOdd     = oddChars()
	someWS       = []rune{' ', ' ', '\t', '\n', '\r', 0x3000, 0x2028, 0x85, 0xA0}
)

func asciiChars() (r []rune) {
	for c := rune(0x21); c < 0x7F; c++ {
		r = append(r, c)
	}
	return
}

// oddChars are those that some text processing treats in a special way: controls, marks, joiners, tags, ends of ranges
func oddChars() (r []rune) {
	for c := rune(0); c < 0xA1; c++ {
		if c < 0x20 || c > 0x7E {
			r = append(r, c)
		}
	}
	for _, c := range []rune{0xAD, 0x180E, 0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x202A, 0x202E, 0x2060, 0x2061, 0x206F, 0xFEFF, 0xFFF9, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF,
		0x300, 0x301, 0x20E3, 0xFE0F, 0x1F1E6, 0x1F1E7, 0x1F468, 0x1F3FD, 0xE000, 0xF8FF, 0xD7FF, 0xE0001, 0xE0020, 0xF0000, 0x10FFFD, 0x10FFFE, 0x10FFFF, 0x10000, 0x1FFFF,
		0x130, 0x131, 0x17F, 0x212A, 0x1E9E, 0xDF, 0x660, 0xFF10, 0x2007, 0x202F, 0xFE00, 0xFDD0, 0x5D0, 0x627, 0xAC00, 0x1100} {
		r = append(r, c)
	}
	return
}

// twoOf is a small alphabet with a few chars of a large one
func twoOf(r *rand.Rand, from []rune) []rune {
	res := []rune{'a'}
	for n := 1 + r.IntN(3); n > 0; n-- {
		res = append(res, pick(r, from))
	}
	return res
}

type Gen struct {
	*rand.Rand
	Cfg
	names []string
	isBig bool // this grammar has something big in it
	big   int  // what is still to be made big
}

const (
	bigNothing = iota
	bigKids
	bigText
	bigBound
	bigRules
	bigInput // only the texts
	numBig
)

var sizes = []int{9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}

// take tells whether this is the thing to make big
func (g *Gen) take(what int) bool {
	if g.big == what && g.IntN(3) == 0 {
		g.big = bigNothing
		return true
	}
	return false
}

func pick[T any](r *rand.Rand, s []T) T { return s[r.IntN(len(s))] }

func (g *Gen) char() rune {
	if g.IntN(100) < g.WSTerm {
		if g.IntN(3) == 0 {
			return pick(g.Rand, allWS)
		}
		return pick(g.Rand, someWS)
	}
	return pick(g.Rand, g.Alpha)
}

// hostile pieces of text mean something in a definition, a grammar file, a format string or a shell
var hostile = []string{"//", " // ", "// ", "/*", " ", "  ", "=", " = ", "==", "|", " | ", ">", "<", "<>", "^", "!", " !>", "#", "~", "$", "##", "{", "}", "}<2>", "}+", "<1,2>", "[", "]", "(", ")", "()", "'", "\"", "''", "\"\"", "\\", "\\\\", "\\u0041", "\\n", "\\'", "u", "u0041", "-", "'-'", "a-z", "EOF", "_", "%", "%d", "%s", "%%", "100%", "%[1]d", "L#1", "L#1: ", ",", ";", ", ", "-rule", "--", "-", "\t", "\x00", "\uFEFF", "\r", "nil", "/", "├", "└──", "│  "}

func (g *Gen) text(min, max int) []rune {
	if max > 1 && g.IntN(100) < g.Hostile {
		t := append(g.plainText(0, max), []rune(pick(g.Rand, hostile))...)
		t = append(t, g.plainText(0, max)...)
		if len(t) > 1 || min <= 1 {
			return t
		}
	}
	return g.plainText(min, max)
}

func (g *Gen) plainText(min, max int) []rune {
	n := min
	for n < max && g.IntN(2) == 0 {
		n++
	}
	if g.take(bigText) {
		n = pick(g.Rand, sizes)
	}
	t := make([]rune, n)
	for i := range t {
		t[i] = g.char()
	}
	return t
}

func (g *Gen) annotate(r *Rule) *Rule {
	if g.IntN(100) < g.Annot {
		switch g.IntN(5) {
		case 0:
			r.Tok = true
		case 1:
			r.Virt = true
		case 2:
			r.Nond = true
		default:
			r.Tok, r.Virt, r.Nond = g.IntN(2) == 0, g.IntN(2) == 0, g.IntN(2) == 0
		}
	}
	return r
}

// contexts in which only some kinds can be written
const (
	cxTop  = iota // anything
	cxElem        // element of a sequence: no sequence
	cxAlt         // alternative: no sequence, no choice
	cxPart        // part of a block: no choice
	cxPartElem
)

func (g *Gen) allowed(k Kind, cx, depth int) bool {
	if depth <= 0 && k >= KConcat {
		return false
	}
	switch k {
	case KConcat:
		return cx == cxTop || cx == cxPart
	case KChoice:
		return cx == cxTop || cx == cxElem
	}
	return true
}

func (g *Gen) rule(cx, depth int) *Rule {
	total := 0
	w := g.W
	for k := range w {
		if !g.allowed(Kind(k), cx, depth) {
			w[k] = 0
		}
		total += w[k]
	}
	n := g.IntN(total)
	k := Kind(0)
	for n >= w[k] {
		n -= w[k]
		k++
	}
	return g.ofKind(k, cx, depth)
}

func (g *Gen) ofKind(k Kind, cx, depth int) *Rule {
	if k == KRef && len(g.names) == 0 {
		k = KChar
	}
	r := &Rule{K: k}
	kids := func(min int, cx int) []*Rule {
		n := min + g.IntN(g.MaxKids-min+1)
		if g.IntN(12) == 0 {
			n += g.IntN(6)
		}
		if g.take(bigKids) {
			n, depth = pick(g.Rand, sizes[:16]), 1
		}
		var res []*Rule
		for i := 0; i < n; i++ {
			res = append(res, g.rule(cx, depth-1))
		}
		return res
	}
	switch k {
	case KChar:
		r.T = []rune{g.char()}
		r.UniEscaped = g.IntN(100) < g.UniEsc
	case KChars:
		r.T = g.text(2, g.MaxLen+1)
	case KStr:
		if g.IntN(100) >= g.Empty {
			r.T = g.text(1, g.MaxLen)
		}
	case KRange:
		r.Lo, r.Hi = g.char(), g.char()
		if g.IntN(100) < g.Hostile {
			*pick(g.Rand, []*rune{&r.Lo, &r.Hi}) = pick(g.Rand, []rune(`'\'\-"<|`))
		}
		if r.Lo > r.Hi && g.IntN(10) > 0 {
			r.Lo, r.Hi = r.Hi, r.Lo
		}
		r.UniEscaped = g.IntN(100) < g.UniEsc
	case KEOF:
	case KRef:
		r.Ref = pick(g.Rand, g.names)
	case KConcat:
		c := cxElem
		if cx == cxPart {
			c = cxPartElem
		}
		r.Kids = kids(2, c)
		return r // not annotated
	case KChoice:
		n := 2 + g.IntN(g.MaxKids-1)
		if g.IntN(12) == 0 {
			n += g.IntN(6)
		}
		groups := g.Groups
		if g.take(bigKids) {
			n, depth = pick(g.Rand, sizes[:16]), 1
			groups = pick(g.Rand, []int{2, 10, 80})
		}
		var stem []rune // for alternatives that are prefixes of each other
		if g.IntN(100) < g.Overlap {
			stem = g.text(n+1, n+3)
		}
		var group []*Rule
		for i := 0; i < n; i++ {
			alt := g.rule(cxAlt, depth-1)
			if stem != nil && g.IntN(4) > 0 {
				alt = g.prefixOf(stem)
			}
			group = append(group, alt)
			if i < n-1 && g.IntN(100) < groups {
				r.Groups = append(r.Groups, group)
				group = nil
			}
		}
		r.Groups = append(r.Groups, group)
		return r // not annotated
	case KGroup, KOpt:
		r.Kids = []*Rule{g.rule(cxTop, depth-1)}
	case KRep:
		r.Kids = []*Rule{g.rule(cxTop, depth-1)}
		switch g.IntN(7) {
		case 0:
			r.Min = 1
		case 1:
			r.Min = g.IntN(4)
		case 2:
			r.Max = 1 + g.IntN(4)
		case 3:
			r.Min = g.IntN(4)
			r.Max = r.Min + g.IntN(3)
			if r.Max == 0 {
				r.Max = 2
			}
		}
		if g.take(bigBound) {
			n := pick(g.Rand, sizes)
			switch g.IntN(4) {
			case 0:
				r.Min, r.Max = n, 0
			case 1:
				r.Min, r.Max = 0, n
			default:
				r.Min, r.Max = n, n+g.IntN(4)
			}
			r.Kids[0] = g.rule(cxTop, 0)
		}
	case KBlock:
		g.block(r, depth)
	}
	return g.annotate(r)
}

func (g *Gen) block(r *Rule, depth int) {
	part := func() *Rule {
		if g.IntN(3) > 0 {
			return g.rule(cxPart, 0)
		}
		return g.rule(cxPart, depth-1)
	}
	r.Open = part()
	r.Close = part()
	if g.IntN(5) == 0 {
		r.Close = cloneRule(r.Open)
	}
	if g.IntN(2) == 0 {
		r.Esc = part()
	}
	for g.IntN(5) < 2 && len(r.Excl) < 3 {
		r.Excl = append(r.Excl, part())
	}
	if g.take(bigKids) {
		for n := 4 + g.IntN(9); len(r.Excl) < n; {
			r.Excl = append(r.Excl, part())
		}
	}
	if g.IntN(100) < g.Overlap { // parts that start alike
		stem := g.text(2, 4)
		for i := range r.Excl {
			r.Excl[i] = g.prefixOf(stem)
		}
		if g.IntN(2) == 0 {
			r.Close = g.prefixOf(stem)
		}
		if r.Esc != nil && g.IntN(3) == 0 {
			r.Esc = g.prefixOf(stem)
		}
		if g.IntN(4) == 0 {
			r.Open = g.prefixOf(stem)
		}
	}
	r.VClose = g.IntN(4) == 0
}

// focusBlock makes a grammar of one block whose parts, most of them named, start alike
func (g *Gen) focusBlock() *Grammar {
	gr := newGrammar()
	g.names, g.isBig, g.big = nil, false, bigNothing
	stem := g.plainText(2, 4+g.IntN(3))
	if g.IntN(3) == 0 { // what matches less of it matches the rest, too
		for i := range stem {
			stem[i] = stem[0]
		}
	}
	names := []string{"a", "Zed", "m1", "q", "B_", "x", "k9", "e", "Y2", "n_n", "Oo", "p"}
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var parts []string
	part := func(alike int) *Rule {
		var r *Rule
		if g.IntN(100) < alike {
			r = g.prefixOf(stem)
		} else {
			r = g.rule(cxPart, g.IntN(2))
		}
		if g.IntN(5) < 3 {
			n := names[len(parts)]
			parts = append(parts, n)
			gr.add(n, r)
			return ref(n)
		}
		return r
	}
	b := &Rule{K: KBlock}
	b.Open = part(20)
	if g.IntN(3) > 0 {
		b.Esc = part(10)
	}
	for n := 2 + g.IntN(2)*g.IntN(5); n > 0; n-- {
		b.Excl = append(b.Excl, part(80))
	}
	b.Close = part(20)
	b.VClose = g.IntN(3) == 0
	g.annotate(b)
	if g.IntN(3) == 0 {
		gr.add("w", &Rule{K: KRep, Kids: []*Rule{b}, Max: g.IntN(3)})
	} else {
		gr.add("w", b)
	}
	return gr
}

// prefixOf makes a rule that matches a prefix of a text
func (g *Gen) prefixOf(stem []rune) *Rule {
	t := append([]rune(nil), stem[:1+g.IntN(len(stem))]...)
	r := &Rule{K: KChars, T: t}
	if len(t) == 1 {
		r.K = KChar
		if g.IntN(6) == 0 {
			r.K, r.Lo, r.Hi, r.T = KRange, t[0], t[0], nil
		}
	}
	if g.W[KStr] > 0 && g.IntN(4) == 0 {
		*r = Rule{K: KStr, T: t}
	}
	return g.annotate(r)
}

// path makes a rule of the first kind that has one of the second kind in it, and so on
func (g *Gen) path(kinds []Kind, cx, depth int) *Rule {
	k := kinds[0]
	if (k == KConcat && cx != cxTop && cx != cxPart) || (k == KChoice && cx != cxTop && cx != cxElem) {
		return g.annotate(&Rule{K: KGroup, Kids: []*Rule{g.path(kinds, cxTop, depth-1)}})
	}
	if k == KConcat && cx == cxPart {
		depth = min(depth, 2)
	}
	r := g.ofKind(k, cx, depth)
	if len(kinds) == 1 {
		return r
	}
	next := func(cx int) *Rule { return g.path(kinds[1:], cx, depth-1) }
	switch k {
	case KConcat:
		c := cxElem
		if cx == cxPart {
			c = cxPartElem
		}
		r.Kids[g.IntN(len(r.Kids))] = next(c)
	case KChoice:
		group := pick(g.Rand, r.Groups)
		group[g.IntN(len(group))] = next(cxAlt)
	case KGroup, KOpt, KRep:
		r.Kids[0] = next(cxTop)
	case KBlock:
		p := next(cxPart)
		switch g.IntN(4) {
		case 0:
			r.Open = p
		case 1:
			r.Close = p
		case 2:
			r.Esc = p
		case 3:
			r.Excl = append(r.Excl, p)
		}
	}
	return r
}

// kinds makes a random path of kinds, of those the configuration has
func (g *Gen) kinds(first int) []Kind {
	var inner, last []Kind
	for k := Kind(0); k < numKinds; k++ {
		if g.W[k] > 0 {
			last = append(last, k)
			if k >= KConcat {
				inner = append(inner, k)
			}
		}
	}
	if len(inner) == 0 {
		return nil
	}
	var res []Kind
	if first >= 0 {
		if Kind(first) < KConcat {
			return nil
		}
		res = append(res, Kind(first))
	}
	for n := 1 + g.IntN(3); len(res) < n; {
		res = append(res, pick(g.Rand, inner))
	}
	return append(res, pick(g.Rand, last))
}

func cloneRule(r *Rule) *Rule {
	if r == nil {
		return nil
	}
	c := *r
	c.Kids, c.Groups, c.Excl = nil, nil, nil
	for _, k := range r.Kids {
		c.Kids = append(c.Kids, cloneRule(k))
	}
	for _, gr := range r.Groups {
		var ng []*Rule
		for _, k := range gr {
			ng = append(ng, cloneRule(k))
		}
		c.Groups = append(c.Groups, ng)
	}
	c.Open, c.Esc, c.Close = cloneRule(r.Open), cloneRule(r.Esc), cloneRule(r.Close)
	for _, k := range r.Excl {
		c.Excl = append(c.Excl, cloneRule(k))
	}
	c.T = append([]rune(nil), r.T...)
	return &c
}

func cloneGrammar(g *Grammar) *Grammar {
	n := newGrammar()
	for _, name := range g.Names {
		n.add(name, cloneRule(g.Rules[name]))
	}
	return n
}

var nameStyles = []string{"r%d", "Rule_%d", "x%d_", "T%d", "aB%dc"}

// oddName makes a valid name out of chars at the ends of what is allowed
func oddName(r *rand.Rand, not []string) string {
	for {
		b := []byte{"azAZezEQm"[r.IntN(9)]}
		if r.IntN(6) == 0 {
			b = []byte(pick(r, []string{"EOF", "EOF", "EOF_", "eof", "Eof", "EO", "OF", "E", "XEOF", "EOFEOF", "EOf"}))
		}
		if len(not) > 0 && r.IntN(4) == 0 {
			b = []byte(pick(r, not))
		}
		if r.IntN(6) == 0 { // what nodes are called by their kinds
			b = []byte(pick(r, treeNames[4:]))
			if name := string(b); !slices.Contains(not, name) {
				return name
			}
		}
		for n := r.IntN(4); n > 0 || string(b) == "EOF"; n-- {
			b = append(b, "azAZ09_EOF19bY"[r.IntN(14)])
		}
		if r.IntN(40) == 0 { // a long one
			for n := pick(r, sizes); len(b) < n; {
				b = append(b, "azAZ09_xy"[r.IntN(9)])
			}
		}
		name, taken := string(b), false
		for _, n := range not {
			taken = taken || n == name
		}
		if !taken {
			return name
		}
	}
}

// grammar makes a random grammar without left recursion. kind >= 0 forces the kind of the first rule.
func (g *Gen) grammar(kind int) *Grammar {
	for try := 0; ; try++ {
		n := g.MinRules + g.IntN(g.MaxRules-g.MinRules+1)
		g.isBig, g.big = false, bigNothing
		if g.IntN(100) < g.Big {
			g.isBig, g.big = true, 1+g.IntN(numBig-1)
			if g.big == bigRules {
				n = pick(g.Rand, sizes[:12])
			}
		}
		g.names = nil
		odd := g.Names || g.IntN(10) == 0
		for i := 0; i < n; i++ {
			style := nameStyles[0]
			if odd {
				style = pick(g.Rand, nameStyles)
			}
			name := fmt.Sprintf(style, i)
			if odd && (g.IntN(3) == 0 || slices.Contains(g.names, name)) {
				name = oddName(g.Rand, g.names)
			}
			g.names = append(g.names, name)
		}
		all := g.names
		gr := newGrammar()
		for i, name := range all {
			if try >= 20 { // only references to later rules
				g.names = all[i+1:]
				if len(g.names) == 0 {
					save := g.W[KRef]
					g.W[KRef] = 0
					gr.add(name, g.defn(kind, i))
					g.W[KRef] = save
					continue
				}
			}
			gr.add(name, g.defn(kind, i))
		}
		g.names = all
		if g.IntN(6) == 0 && !g.isBig {
			g.vary(gr)
		}
		if !gr.leftRecursive() {
			return gr
		}
	}
}

// vary gives elements a name and refers to them (through several names, too), says something twice, or asks for the end of the file
func (g *Gen) vary(gr *Grammar) {
	for n := 1 + g.IntN(3); n > 0; n-- {
		top := gr.Rules[pick(g.Rand, gr.Names)]
		var all []*Rule
		top.walk(func(k *Rule) {
			if k != top {
				all = append(all, k)
			}
		})
		switch what := g.IntN(8); {
		case what == 0 && top.K == KConcat && g.W[KEOF] > 0:
			top.Kids = append(top.Kids, g.annotate(&Rule{K: KEOF}))
		case what == 1 && top.K == KConcat && len(top.Kids) < 20:
			top.Kids = append(top.Kids, cloneRule(pick(g.Rand, top.Kids)))
		case len(all) > 0 && g.W[KRef] > 0 && len(gr.Names) < 30:
			k := pick(g.Rand, all)
			for twice := g.IntN(3); twice >= 0; twice-- {
				name := oddName(g.Rand, gr.Names)
				def := *k
				*k = *g.annotate(&Rule{K: KRef, Ref: name})
				gr.add(name, &def)
				k = &def
				if twice%2 == 1 && g.IntN(2) == 0 { // the same from elsewhere (not from within it)
					within := false
					to := pick(g.Rand, all)
					def.walk(func(x *Rule) { within = within || x == to })
					if !within && to != k && to.K <= KRange {
						*to = *g.annotate(&Rule{K: KRef, Ref: name})
					}
				}
			}
		}
	}
	g.names = append([]string(nil), gr.Names...)
}

func (g *Gen) defn(kind, i int) *Rule {
	if g.IntN(100) < g.Path && (kind < 0 || i == 0) {
		if kinds := g.kinds(kind); kinds != nil {
			return g.path(kinds, cxTop, min(g.Depth, 2))
		}
	}
	if kind >= 0 && i == 0 {
		return g.ofKind(Kind(kind), cxTop, g.Depth)
	}
	return g.rule(cxTop, g.Depth)
}

// ---- texts

type Deriver struct {
	*rand.Rand
	G     *Grammar
	Alpha []rune
	WS    int // percent of whitespace between tokens
	Max   int
	Big   bool // one repetition may go on for long
	out   []rune
}

func (d *Deriver) space() {
	for d.IntN(100) < d.WS {
		if d.IntN(6) == 0 {
			d.out = append(d.out, pick(d.Rand, allWS))
		} else {
			d.out = append(d.out, pick(d.Rand, someWS))
		}
	}
}

func (d *Deriver) rule(r *Rule, depth int) {
	if depth > 14 || len(d.out) > d.Max {
		return
	}
	switch r.K {
	case KChar, KChars, KStr:
		d.space()
		d.out = append(d.out, r.T...)
	case KRange:
		d.space()
		if r.Lo <= r.Hi {
			var c rune
			switch d.IntN(3) {
			case 0:
				c = r.Lo
			case 1:
				c = r.Hi
			default:
				c = r.Lo + rune(d.Int64N(int64(r.Hi-r.Lo)+1))
			}
			if c >= 0xD800 && c <= 0xDFFF {
				c = r.Lo
			}
			d.out = append(d.out, c)
		} else {
			d.out = append(d.out, r.Lo)
		}
	case KEOF:
	case KRef:
		if def := d.G.Rules[r.Ref]; def != nil {
			d.rule(def, depth+1)
		}
	case KConcat:
		for _, k := range r.Kids {
			d.rule(k, depth+1)
		}
	case KChoice:
		d.rule(pick(d.Rand, pick(d.Rand, r.Groups)), depth+1)
	case KGroup:
		d.rule(r.Kids[0], depth+1)
	case KOpt:
		if d.IntN(3) > 0 {
			d.rule(r.Kids[0], depth+1)
		}
	case KRep:
		n := r.Min + d.IntN(4)
		if r.Max > 0 && d.IntN(4) > 0 && n > r.Max {
			n = r.Max
		}
		if n > 8 {
			n = 8
		}
		if d.Big && (r.Min > 8 || r.Max > 8 || d.IntN(3) == 0) {
			d.Big = false
			if r.Min > 8 || r.Max > 8 {
				n = pick(d.Rand, []int{r.Min, r.Max, r.Min, r.Max}) - 1 + d.IntN(3)
			} else {
				n = pick(d.Rand, sizes)
			}
		}
		for i := 0; i < n; i++ {
			d.rule(r.Kids[0], depth+1)
		}
	case KBlock:
		d.rule(r.Open, depth+1)
		ws := d.WS
		d.WS = 0
		long := 0
		if d.Big && d.IntN(3) == 0 {
			d.Big = false
			long = pick(d.Rand, sizes)
		}
		for long > 0 || d.IntN(4) > 0 {
			long--
			switch d.IntN(8) {
			case 0, 1, 2, 3:
				d.out = append(d.out, pick(d.Rand, d.Alpha))
			case 4:
				d.out = append(d.out, pick(d.Rand, someWS))
			case 5:
				if r.Esc != nil {
					d.rule(r.Esc, depth+1)
					if len(r.Excl) == 0 || d.IntN(len(r.Excl)+1) == 0 {
						d.rule(r.Close, depth+1)
					} else {
						d.rule(pick(d.Rand, r.Excl), depth+1)
					}
				}
			case 6:
				if len(r.Excl) > 0 && d.IntN(3) == 0 {
					d.rule(pick(d.Rand, r.Excl), depth+1)
				}
			case 7:
				d.rule(r.Open, depth+1)
			}
		}
		if d.IntN(10) > 0 {
			d.rule(r.Close, depth+1)
		}
		d.WS = ws
	}
}

func (d *Deriver) mutate() {
	for d.IntN(10) < 4 {
		n := len(d.out)
		c := pick(d.Rand, d.Alpha)
		if d.IntN(4) == 0 {
			c = pick(d.Rand, someWS)
		}
		i := 0
		if n > 0 {
			i = d.IntN(n)
		}
		switch d.IntN(7) {
		case 0: // delete
			if n > 0 {
				d.out = append(d.out[:i:i], d.out[i+1:]...)
			}
		case 1: // insert
			d.out = append(d.out[:i:i], append([]rune{c}, d.out[i:]...)...)
		case 2: // replace
			if n > 0 {
				d.out[i] = c
			}
		case 3: // truncate
			d.out = d.out[:i:i]
		case 4: // repeat a piece
			if n > 0 {
				j := i + 1 + d.IntN(n-i)
				piece := append([]rune(nil), d.out[i:j]...)
				d.out = append(d.out[:j:j], append(piece, d.out[j:]...)...)
			}
		case 5: // append
			d.out = append(d.out, c)
		case 6: // something that looks or is stored alike
			if n > 0 {
				if d.IntN(3) == 0 {
					i = n - 1
				}
				d.out[i] = d.alike(d.out[i])
			}
		}
		if len(d.out) > 4*d.Max {
			return
		}
	}
}

func (d *Deriver) alike(r rune) rune {
	var c rune
	switch d.IntN(4) {
	case 0, 1:
		c = unicode.SimpleFold(r)
	case 2:
		c = r ^ pick(d.Rand, []rune{0x10, 0x20, 0x80, 0x100, 0x1000, 0x10000})
	default:
		c = r + rune(1-2*d.IntN(2))
	}
	if c < 0 || !utf8.ValidRune(c) {
		return r
	}
	return c
}

// textFor makes a text around what a rule matches
func (g *Gen) textFor(gr *Grammar, r *Rule, ws int) []rune {
	d := &Deriver{Rand: g.Rand, G: gr, Alpha: g.Alpha, WS: ws, Max: 60}
	if g.isBig {
		d.Big, d.Max = true, 1500
	}
	switch g.IntN(12) {
	case 0: // just chars
		n := g.IntN(12)
		for i := 0; i < n; i++ {
			if g.IntN(5) == 0 {
				d.out = append(d.out, pick(g.Rand, someWS))
			} else {
				d.out = append(d.out, pick(g.Rand, g.Alpha))
			}
		}
		return d.out
	case 1, 2, 3: // clean
		d.rule(r, 0)
	default:
		d.rule(r, 0)
		d.mutate()
	}
	if g.IntN(3) == 0 { // something behind it
		k := g.IntN(4)
		for i := 0; i < k; i++ {
			d.out = append(d.out, pick(g.Rand, g.Alpha))
		}
		d.space()
		d.rule(gr.Rules[pick(g.Rand, gr.Names)], 4)
	}
	return d.out
}

// wholeText makes a text out of root rules
func (g *Gen) wholeText(gr *Grammar, ws int) []rune {
	d := &Deriver{Rand: g.Rand, G: gr, Alpha: g.Alpha, WS: ws, Max: 80}
	more := 0
	if g.isBig {
		d.Big, d.Max = true, 1500
		if g.IntN(3) == 0 {
			more = pick(g.Rand, sizes)
		}
	}
	roots := gr.roots()
	if len(roots) == 0 {
		roots = gr.Names
	}
	for {
		d.rule(gr.Rules[pick(g.Rand, roots)], 0)
		d.space()
		more--
		if more < 0 && g.IntN(3) == 0 || len(d.out) > d.Max {
			break
		}
	}
	if g.IntN(5) < 2 {
		d.mutate()
	}
	return d.out
}

// nearNames gives names that look like defined ones and are not
func nearNames(c *Case, names []string, n int) (res []string) {
	defined := map[string]bool{}
	for _, d := range names {
		defined[d] = true
	}
	for i := 0; i < n; i++ {
		d := pick(c.Rand, names)
		var s string
		switch c.IntN(14) {
		case 0:
			s = pick(c.Rand, []string{"~", "#", "$", "+", "^", "!", "~#", "$~#", "&", "@", "*"}) + d
		case 1:
			s = d + pick(c.Rand, []string{"~", "#", "$", "+", "*", "?", "!", "[T]", "=", ";", ",", ":"})
		case 2:
			s = pick(c.Rand, []string{" ", "  ", "\u00a0", "_", "x", "r", "1"}) + d
		case 3:
			s = d + pick(c.Rand, []string{" ", "  ", "\u00a0", "_", "x", "0", "1", "'s"})
		case 4:
			s = strings.ToUpper(d)
		case 5:
			s = strings.ToLower(d)
		case 6:
			s = strings.ToUpper(d[:1]) + d[1:]
		case 7:
			s = strings.ToLower(d[:1]) + d[1:]
		case 8:
			s = d[:c.IntN(len(d))]
		case 9:
			s = d[1:]
		case 10:
			s = d + d
		case 11:
			s = pick(c.Rand, []string{"(" + d + ")", "[" + d + "]", "<" + d + ">", "{" + d + "}", "'" + d + "'", d + "|" + d, d + " " + d, d + "/" + d, d + "." + d})
		case 12:
			s = strings.ReplaceAll(d, "_", "-") + pick(c.Rand, []string{"", "-"})
		default:
			s = pick(c.Rand, []string{"", "zz9", "EOF", "eof", "_", "0", "*", "%s", "root"})
		}
		if !defined[s] {
			res = append(res, s)
		}
	}
	return res
}
