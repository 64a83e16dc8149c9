package main

// The reference model: an independent, position-indexed definition of what an XBNF rule matches. It works on the
// whole text with an index instead of on a stream with put-back, so none of the read/unused accounting of the real
// code exists here.

type Kind int

const (
	KChar Kind = iota
	KChars
	KStr
	KRange
	KEOF
	KRef
	KConcat
	KChoice
	KGroup
	KOpt
	KRep
	KBlock
	numKinds
)

var kindNames = [...]string{"char", "chars", "string", "range", "EOF", "ref", "concatenate", "choice", "group", "option", "repetition", "block"}

// node types as the real code spells them
var nodeType = [...]string{"char", "chars", "string", "chars", "EOF", "", "concatenate", "choice", "group", "option", "repetition", "block"}

type Rule struct {
	K          Kind
	T          []rune // char, chars, string
	Lo, Hi     rune   // range
	Ref        string
	Kids       []*Rule   // concat; or the only child of group, option, repetition
	Groups     [][]*Rule // choice
	Min, Max   int
	Open, Esc  *Rule
	Close      *Rule
	Excl       []*Rule
	VClose     bool
	Tok, Nond  bool
	Virt       bool
	Name       string // for the outermost rule of a definition
	UniEscaped bool   // print as \uXXXX
}

type Grammar struct {
	Names []string
	Rules map[string]*Rule
}

func newGrammar() *Grammar { return &Grammar{Rules: map[string]*Rule{}} }

func (g *Grammar) add(name string, r *Rule) {
	r.Name = name
	g.Names = append(g.Names, name)
	g.Rules[name] = r
}

// walk visits r and everything below it
func (r *Rule) walk(f func(*Rule)) {
	if r == nil {
		return
	}
	f(r)
	for _, k := range r.Kids {
		k.walk(f)
	}
	for _, gr := range r.Groups {
		for _, k := range gr {
			k.walk(f)
		}
	}
	r.Open.walk(f)
	r.Esc.walk(f)
	for _, k := range r.Excl {
		k.walk(f)
	}
	r.Close.walk(f)
}

func (g *Grammar) walk(f func(*Rule)) {
	for _, n := range g.Names {
		g.Rules[n].walk(f)
	}
}

// roots are the rules no definition refers to
func (g *Grammar) roots() []string {
	used := map[string]bool{}
	g.walk(func(r *Rule) {
		if r.K == KRef {
			used[r.Ref] = true
		}
	})
	var res []string
	for _, n := range g.Names {
		if !used[n] {
			res = append(res, n)
		}
	}
	return res
}

// the 25 characters with the Unicode property White_Space
func isWS(c rune) bool {
	switch {
	case c >= 0x09 && c <= 0x0D, c == 0x20, c == 0x85, c == 0xA0, c == 0x1680:
		return true
	case c >= 0x2000 && c <= 0x200A, c == 0x2028, c == 0x2029, c == 0x202F, c == 0x205F, c == 0x3000:
		return true
	}
	return false
}

var allWS = func() []rune {
	var r []rune
	for c := rune(0); c <= 0x10FFFF; c++ {
		if isWS(c) {
			r = append(r, c)
		}
	}
	return r
}()

const (
	fNoSuggest = 0
	fSkip      = 1
	fNever     = 3
)

// Node is a tree node of the model, and also the neutral copy of a real node
type Node struct {
	Type, Name string
	Chars      []rune
	IsEOF      bool
	Kids       []*Node
	Pos        int // index of the first char in the text, -1 for none (model only)
	Line, Col  int // real only: 0,0 for none
	Sticky     bool
	Virt, Nond bool
	Tok        bool
	Start, End int // model only: span of text
}

type Res struct {
	N      *Node
	End    int
	Sticky bool
	Amb    bool // failed because of ambiguity
}

type overBudget struct{}

type Model struct {
	G      *Grammar
	X      []rune
	Steps  int
	Budget int
	Depth  int
	// Strict: an escape that protects nothing is kept once. Otherwise it is kept twice, which is what the code
	// (and its tests) do: a known finding.
	Strict bool
	// things that happened, for the evidence
	Ambiguities, EmptyReps, LongerLost, Escapes, IneffEscapes, ExclHits, VCloses, FailedAhead, MultiMatch, GroupFallbacks, MaxReached, MinMissed int
}

func (m *Model) tick(n int) {
	m.Steps += n
	if m.Steps > m.Budget {
		panic(overBudget{})
	}
}

// try runs f, reports whether it finished within the budget
func (m *Model) try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(overBudget); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func (m *Model) skip(p int) int {
	for p < len(m.X) && isWS(m.X[p]) {
		p++
	}
	return p
}

func leadWS(t []rune) int {
	i := 0
	for i < len(t) && isWS(t[i]) {
		i++
	}
	return i
}

func (m *Model) at(p int, t []rune) bool {
	if p+len(t) > len(m.X) {
		return false
	}
	for i, c := range t {
		if m.X[p+i] != c {
			return false
		}
	}
	return true
}

func (r *Rule) node(m *Model, start, end int) *Node {
	return &Node{Type: nodeType[r.K], Name: r.Name, Virt: r.Virt, Nond: r.Nond, Tok: r.Tok, Pos: -1, Start: start, End: end}
}

func (m *Model) eval(r *Rule, pos, flag int) Res {
	m.Depth++
	defer func() { m.Depth-- }()
	if m.Depth > 3000 {
		panic(overBudget{})
	}
	m.tick(1)
	n := len(m.X)
	switch r.K {
	case KChar, KRange:
		fail := Res{Sticky: true}
		if pos >= n {
			return fail
		}
		in := func(c rune) bool {
			if r.K == KChar {
				return c == r.T[0]
			}
			return r.Lo <= c && c <= r.Hi
		}
		match := func(i int) Res {
			nd := r.node(m, pos, i+1)
			nd.Chars, nd.Pos, nd.Sticky = []rune{m.X[i]}, i, true
			return Res{N: nd, End: i + 1, Sticky: true}
		}
		p := pos
		if flag == fSkip {
			p = m.skip(pos)
			m.tick(p - pos)
			for i := pos; i < p; i++ {
				if in(m.X[i]) {
					return match(i)
				}
			}
			if r.K == KChar && isWS(r.T[0]) && p > pos {
				return fail
			}
		}
		if p < n && in(m.X[p]) {
			return match(p)
		}
		return fail
	case KChars, KStr:
		sticky := r.K == KChars
		fail := Res{Sticky: sticky}
		if pos >= n {
			return fail
		}
		p, t, start := pos, r.T, pos
		if flag == fSkip || (flag == fNoSuggest && r.K == KStr) {
			p = m.skip(pos)
			m.tick(p - pos)
			l := leadWS(t)
			if p-pos < l || !m.at(p-l, t[:l]) {
				return fail
			}
			start = p - l
			t = t[l:]
		}
		if !m.at(p, t) {
			return fail
		}
		m.tick(len(t))
		nd := r.node(m, pos, p+len(t))
		nd.Chars, nd.Pos, nd.Sticky = append([]rune(nil), r.T...), start, sticky
		if len(r.T) == 0 && start >= n {
			nd.Pos = -1
		}
		return Res{N: nd, End: p + len(t), Sticky: sticky}
	case KEOF:
		p := pos
		if flag == fSkip {
			p = m.skip(pos)
			m.tick(p - pos)
		}
		if p < n {
			return Res{Sticky: true}
		}
		nd := r.node(m, pos, p)
		nd.Name, nd.IsEOF, nd.Sticky = "EOF", true, true
		return Res{N: nd, End: p, Sticky: true}
	case KRef:
		d := m.G.Rules[r.Ref]
		if d == nil {
			return Res{}
		}
		res := m.eval(d, pos, flag)
		if res.N != nil {
			res.N.Tok = res.N.Tok != r.Tok
			res.N.Virt = res.N.Virt != r.Virt
			res.N.Nond = res.N.Nond != r.Nond
		}
		return res
	case KConcat:
		nd := r.node(m, pos, pos)
		sticky := true
		p := pos
		for _, k := range r.Kids {
			res := m.eval(k, p, flag)
			sticky = sticky && res.Sticky
			if res.N == nil {
				if p > pos {
					m.FailedAhead++
				}
				return Res{Sticky: sticky}
			}
			nd.Kids = append(nd.Kids, res.N)
			p = res.End
			if nd.Pos < 0 {
				nd.Pos = res.N.Pos
			}
			if !(res.N.Type == "option" && len(res.N.Kids) == 0) {
				flag = fSkip
				if res.Sticky {
					flag = fNoSuggest
				}
			}
		}
		nd.Sticky, nd.End = sticky, p
		return Res{N: nd, End: p, Sticky: sticky}
	case KChoice:
		sticky := true
		for gi, group := range r.Groups {
			best, ties, count := -1, 0, 0
			var bestRes Res
			for _, k := range group {
				res := m.eval(k, pos, flag)
				sticky = sticky && res.Sticky
				if res.N == nil {
					continue
				}
				count++
				used := res.End - pos
				if used > best {
					best, ties, bestRes = used, 0, res
				} else if used == best {
					ties++
				}
			}
			if best < 0 {
				continue
			}
			if gi > 0 {
				m.GroupFallbacks++
			}
			if count > 1 {
				m.MultiMatch++
			}
			if ties > 0 {
				m.Ambiguities++
				return Res{Amb: true}
			}
			nd := r.node(m, pos, bestRes.End)
			nd.Kids, nd.Sticky, nd.Pos = []*Node{bestRes.N}, sticky, bestRes.N.Pos
			return Res{N: nd, End: bestRes.End, Sticky: sticky}
		}
		return Res{Sticky: sticky}
	case KGroup:
		res := m.eval(r.Kids[0], pos, flag)
		if res.N == nil {
			return res
		}
		nd := r.node(m, pos, res.End)
		nd.Kids, nd.Sticky, nd.Pos = []*Node{res.N}, res.Sticky, res.N.Pos
		res.N = nd
		return res
	case KOpt:
		res := m.eval(r.Kids[0], pos, flag)
		nd := r.node(m, pos, pos)
		nd.Sticky = res.Sticky
		if res.N == nil {
			return Res{N: nd, End: pos, Sticky: res.Sticky}
		}
		nd.Kids, nd.Pos, nd.End = []*Node{res.N}, res.N.Pos, res.End
		return Res{N: nd, End: res.End, Sticky: res.Sticky}
	case KRep:
		nd := r.node(m, pos, pos)
		sticky := true
		p := pos
		for p < n {
			res := m.eval(r.Kids[0], p, flag)
			sticky = sticky && res.Sticky
			if res.N == nil {
				break
			}
			if res.End == p && len(nd.Kids) >= r.Min {
				m.EmptyReps++
				break
			}
			nd.Kids = append(nd.Kids, res.N)
			p = res.End
			if nd.Pos < 0 {
				nd.Pos = res.N.Pos
			}
			if r.Max > 0 && len(nd.Kids) == r.Max {
				m.MaxReached++
				break
			}
		}
		if len(nd.Kids) < r.Min {
			m.MinMissed++
			return Res{Sticky: sticky}
		}
		nd.Sticky, nd.End = sticky, p
		return Res{N: nd, End: p, Sticky: sticky}
	case KBlock:
		open := m.eval(r.Open, pos, flag)
		if open.N == nil {
			return Res{}
		}
		nd := r.node(m, pos, pos)
		nd.Pos = open.N.Pos
		p := open.End
		content := &Node{Type: "chars", Sticky: true, Pos: -1, Start: p}
		if p < n {
			content.Pos = p
		}
		if nd.Pos < 0 {
			nd.Pos = content.Pos
		}
		nd.Kids = []*Node{open.N, content}
		for {
			m.tick(1)
			p2 := p
			if r.Esc != nil {
				if e := m.eval(r.Esc, p, fNever); e.N != nil && e.End > p {
					p2 = e.End
				}
			}
			escaped := p2 > p
			exEnd := -1
			for _, ex := range r.Excl {
				if e := m.eval(ex, p2, fNever); e.N != nil && e.End > exEnd {
					exEnd = e.End
				}
			}
			if exEnd >= 0 {
				m.ExclHits++
				if !escaped {
					return Res{}
				}
				m.Escapes++
				content.Chars = append(content.Chars, m.X[p2:exEnd]...)
				p = exEnd
				continue
			}
			if c := m.eval(r.Close, p2, fNever); c.N != nil {
				if escaped {
					m.Escapes++
					content.Chars = append(content.Chars, m.X[p2:c.End]...)
					p = c.End
					continue
				}
				content.End = p2
				nd.End = c.End
				if r.VClose {
					m.VCloses++
					nd.End = p2
				} else {
					nd.Kids = append(nd.Kids, c.N)
				}
				return Res{N: nd, End: nd.End}
			}
			if p2 >= n {
				return Res{}
			}
			if escaped {
				m.IneffEscapes++
				content.Chars = append(content.Chars, m.X[p:p2]...)
				if !m.Strict {
					content.Chars = append(content.Chars, m.X[p:p2]...)
				}
			}
			content.Chars = append(content.Chars, m.X[p2])
			p = p2 + 1
		}
	}
	panic("kind")
}

// outcome of parsing a whole text
type ParseRes struct {
	Nodes  []*Node
	OK     bool
	Amb    bool // ambiguity between root rules
	At     int  // where it failed
	Rounds int
	Roots  int // root rules that matched in some round where another one matched too
}

func (m *Model) parse() ParseRes {
	var res ParseRes
	roots := m.G.roots()
	if len(m.X) == 0 {
		return res
	}
	p, flag := 0, fSkip
	for p < len(m.X) {
		res.Rounds++
		best, ties := 0, 0
		var bestRes Res
		matched := 0
		for _, name := range roots {
			r := m.eval(m.G.Rules[name], p, flag)
			if r.N == nil || r.End == p {
				continue
			}
			matched++
			if r.End-p > best {
				best, ties, bestRes = r.End-p, 0, r
			} else if r.End-p == best {
				ties++
			}
		}
		if matched > 1 {
			res.Roots++
		}
		if best == 0 {
			res.At = p
			res.Nodes = nil
			return res
		}
		if ties > 0 {
			res.At, res.Amb, res.Nodes = p, true, nil
			return res
		}
		res.Nodes = append(res.Nodes, bestRes.N)
		p = bestRes.End
		flag = fSkip
		if bestRes.Sticky {
			flag = fNoSuggest
		}
	}
	res.OK = true
	return res
}

// piece of an embedded search
type Piece struct {
	Text []rune // free text, if N is nil
	N    *Node
	From int
	To   int
}

func (m *Model) embed(name string) []Piece {
	var res []Piece
	p, from := 0, 0
	flush := func() {
		if p > from {
			res = append(res, Piece{Text: m.X[from:p], From: from, To: p})
		}
	}
	for p < len(m.X) {
		r := m.eval(m.G.Rules[name], p, fNever)
		if r.N == nil || r.End == p {
			p++
			continue
		}
		flush()
		res = append(res, Piece{N: r.N, From: p, To: r.End})
		p = r.End
		from = p
	}
	flush()
	return res
}

// lineCol translates an index to line and column, both from 1
func lineCol(x []rune, idx int) (int, int) {
	if len(x) > 400 {
		if len(lastX) != len(x) || &lastX[0] != &x[0] {
			lastX, lastLines = x, allLines(x)
		}
		return lastLines[idx][0], lastLines[idx][1]
	}
	line, col := 1, 1
	for _, c := range x[:idx] {
		if c == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col
}

var (
	lastX     []rune
	lastLines [][2]int
)

// ---- static analysis of a grammar

func (g *Grammar) nullable() map[*Rule]bool {
	null := map[*Rule]bool{}
	for changed := true; changed; {
		changed = false
		g.walk(func(r *Rule) {
			if null[r] {
				return
			}
			v := false
			switch r.K {
			case KStr:
				v = len(r.T) == 0
			case KEOF, KOpt:
				v = true
			case KRef:
				d := g.Rules[r.Ref]
				v = d == nil || null[d]
			case KConcat:
				v = true
				for _, k := range r.Kids {
					v = v && null[k]
				}
			case KChoice:
				for _, gr := range r.Groups {
					for _, k := range gr {
						v = v || null[k]
					}
				}
			case KGroup:
				v = null[r.Kids[0]]
			case KRep:
				v = r.Min == 0 || null[r.Kids[0]]
			case KBlock:
				v = null[r.Open] && (r.VClose || null[r.Close])
			}
			if v {
				null[r] = true
				changed = true
			}
		})
	}
	return null
}

// leftRecursive tells whether some rule can call itself without consuming a char
func (g *Grammar) leftRecursive() bool {
	null := g.nullable()
	edges := map[*Rule][]*Rule{}
	g.walk(func(r *Rule) {
		var e []*Rule
		switch r.K {
		case KRef:
			if d := g.Rules[r.Ref]; d != nil {
				e = append(e, d)
			}
		case KConcat:
			for _, k := range r.Kids {
				e = append(e, k)
				if !null[k] {
					break
				}
			}
		case KChoice:
			for _, gr := range r.Groups {
				e = append(e, gr...)
			}
		case KGroup, KOpt, KRep:
			e = append(e, r.Kids[0])
		case KBlock:
			e = append(e, r.Open)
			if null[r.Open] {
				if r.Esc != nil {
					e = append(e, r.Esc)
				}
				e = append(e, r.Excl...)
				e = append(e, r.Close)
			}
		}
		edges[r] = e
	})
	state := map[*Rule]int{}
	var visit func(r *Rule) bool
	visit = func(r *Rule) bool {
		if state[r] == 1 {
			return true
		}
		if state[r] == 2 {
			return false
		}
		state[r] = 1
		for _, k := range edges[r] {
			if visit(k) {
				return true
			}
		}
		state[r] = 2
		return false
	}
	for _, n := range g.Names {
		if visit(g.Rules[n]) {
			return true
		}
	}
	return false
}
