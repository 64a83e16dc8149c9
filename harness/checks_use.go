package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/cnsgfk/xbnf"
)

// ---- embedded search

func modelEmbed(g *Grammar, name string, x []rune, strict bool, budget int) (m *Model, res []Piece, ok bool) {
	m = &Model{G: g, X: x, Budget: budget, Strict: strict}
	ok = m.try(func() { res = m.embed(name) })
	return
}

func cmpEmbed(want []Piece, name string, x []rune, got *xbnf.EvalResult) (d Diffs) {
	if got == nil || got.Node == nil {
		d.add("tiling", "no result")
		return
	}
	if got.Error != nil {
		d.add("tiling", "error: %v", got.Error)
		return
	}
	if got.Node.RuleName != name {
		d.add("tiling", "the result is named %q", got.Node.RuleName)
	}
	kids := got.Node.ChildNodes
	for i, w := range want {
		if i >= len(kids) {
			break
		}
		k := kids[i]
		if hasNil(k) {
			d.add("tiling", "nil node")
			return
		}
		if w.N == nil {
			if k.RuleType != xbnf.TypeText || len(k.ChildNodes) > 0 || !sameRunes(k.Chars, w.Text) {
				d.add("tiling", "piece %d is %s %q instead of the text %q", i, k.RuleType, string(k.Text()), string(w.Text))
				return
			}
			continue
		}
		if k.RuleType == xbnf.TypeText {
			d.add("tiling", "piece %d is the text %q instead of a match of %q", i, string(k.Chars), string(x[w.From:w.To]))
			return
		}
		cmpNode(w.N, fromReal(k), x, fmt.Sprintf("[%d]", i), &d)
	}
	if len(kids) != len(want) {
		d.add("tiling", "%d pieces instead of %d", len(kids), len(want))
	}
	return
}

func (c *Case) embedOne(g *Grammar, gr *xbnf.Grammar, name string, x []rune) bool {
	m, want, ok := modelEmbed(g, name, x, false, 4*c.budget)
	if !ok {
		c.Count("beyond the budget", 1)
		return true
	}
	c.Set("rule", name)
	c.Set("text", fmt.Sprintf("%q", string(x)))
	var got *xbnf.EvalResult
	if !c.Guard("EvalEmbed", func() { got = gr.EvalEmbed(name, string(x)) }) {
		return false
	}
	d := cmpEmbed(want, name, x, got)
	if len(d) > 0 && m.IneffEscapes > 0 {
		if _, strict, ok := modelEmbed(g, name, x, true, 4*c.budget); ok && len(cmpEmbed(strict, name, x, got)) == 0 {
			d = nil
		}
	}
	if c.report(d, "tiling", "shape", "name", "chars", "flags", "pos", "sticky") {
		return false
	}
	c.Count("searches", 1)
	for i, w := range want {
		if w.N == nil {
			c.Count("free texts", 1)
		} else {
			c.Count("matches", 1)
			if i > 0 && want[i-1].N != nil {
				c.Count("adjacent matches", 1)
			}
		}
	}
	return true
}

// ---- aliasing

// poison overwrites everything in a returned tree
func poison(n *xbnf.Node) {
	if n == nil {
		return
	}
	full := n.Chars[:cap(n.Chars)]
	for i := range full {
		full[i] = 0x2620
	}
	n.RuleName += "!"
	n.RuleType = "poisoned"
	n.Virtual, n.NonData, n.Tokenized, n.Sticky = !n.Virtual, !n.NonData, !n.Tokenized, !n.Sticky
	if n.Position != nil {
		n.Position.Line, n.Position.Col = -7, -7
	}
	kids := n.ChildNodes[:cap(n.ChildNodes)]
	for i, k := range kids {
		if k != nil && k.RuleType != "poisoned" {
			poison(k)
		}
		_ = i
	}
	for i := range kids {
		kids[i] = nil
	}
}

// textsKept takes the texts of nodes with children, gives some leaves other characters (in slices of their own) and takes the
// texts again: those taken first must stay as they are. It destroys the tree.
func (c *Case) textsKept(nodes []*xbnf.Node, what string) bool {
	if !c.nodesApart(nodes, what) {
		return false
	}
	type taken struct {
		n    *xbnf.Node
		text []rune
		was  string
	}
	var all []taken
	var leaves []*xbnf.Node
	var walk func(n *xbnf.Node)
	walk = func(n *xbnf.Node) {
		if len(n.ChildNodes) == 0 {
			leaves = append(leaves, n)
			return
		}
		text := n.Text()
		all = append(all, taken{n, text, string(text)})
		for _, k := range n.ChildNodes {
			walk(k)
		}
	}
	return c.Guard("taking texts", func() {
		for _, n := range nodes {
			walk(n)
		}
	}) && c.Guard("taking texts again", func() {
		for _, n := range leaves {
			if len(n.Chars) > 0 && c.IntN(3) == 0 {
				n.Chars = []rune(strings.Repeat("\u2622", len(n.Chars)))
			}
		}
		for _, t := range all {
			t.n.Text()
		}
		for _, t := range all {
			c.Count("texts kept", 1)
			if string(t.text) != t.was {
				c.Violate("isolation", "the text %q of a node of %s became %q when texts were taken from the changed tree", t.was, what, string(t.text))
				return
			}
		}
	})
}

// nodesApart overwrites the characters of each node (up to the capacity of the slice, as appending does) and looks whether
// another node of the tree sees it; then it puts them back.
func (c *Case) nodesApart(nodes []*xbnf.Node, what string) bool {
	var all []*xbnf.Node
	var walk func(n *xbnf.Node)
	walk = func(n *xbnf.Node) {
		if n == nil || len(all) >= 100 {
			return
		}
		all = append(all, n)
		for _, k := range n.ChildNodes {
			walk(k)
		}
	}
	for _, n := range nodes {
		walk(n)
	}
	was := make([]string, len(all))
	for i, n := range all {
		was[i] = string(n.Chars)
	}
	for i, n := range all {
		full := n.Chars[:cap(n.Chars)]
		if len(full) == 0 {
			continue
		}
		keep := append([]rune(nil), full...)
		for j := range full {
			full[j] = 0x2624
		}
		for j, o := range all {
			if j != i && len(o.Chars) > 0 && string(o.Chars) != was[j] {
				c.Violate("isolation", "changing or adding to the characters %q of one node of %s makes those of another %q instead of %q", was[i], what, string(o.Chars), was[j])
				return false
			}
		}
		copy(full, keep)
		c.Count("nodes apart", 1)
	}
	return true
}

func poisonResult(r *xbnf.EvalResult) {
	for _, s := range [][]rune{r.CharsRead, r.CharsUnused} {
		full := s[:cap(s)]
		for i := range full {
			full[i] = 0x2623
		}
	}
	poison(r.Node)
}

type kept struct {
	what   string
	ast    *xbnf.AST
	res    *xbnf.EvalResult
	before string
}

func showResult(r *xbnf.EvalResult) string {
	if r == nil {
		return "nil"
	}
	s := fmt.Sprintf("read %q unused %q sticky %v error %v\n", string(r.CharsRead), string(r.CharsUnused), r.Sticky, r.Error != nil)
	if r.Node != nil {
		s += dump(fromReal(r.Node))
	}
	return s
}

func showAST(a *xbnf.AST) string {
	if a == nil {
		return "nil"
	}
	return dumpAll(fromRealAll(a.Nodes))
}

func (k kept) now() string {
	if k.ast != nil {
		return showAST(k.ast)
	}
	return showResult(k.res)
}

func rulesText(gr *xbnf.Grammar, names []string) string {
	var b strings.Builder
	for _, n := range names {
		if r := gr.GetRule(n); r != nil {
			fmt.Fprintf(&b, "%s=%s\n", n, r.String())
		}
	}
	return b.String()
}

// normal is a printed grammar with the parts that come in any order sorted
func normal(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "Root Rules: ") {
			p := strings.Split(strings.TrimPrefix(l, "Root Rules: "), ",")
			sort.Strings(p)
			lines[i] = "Root Rules: " + strings.Join(p, ",")
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func (c *Case) isolation() {
	cfg := rootCfg(c)
	g := gen(c, cfg)
	gr := g.grammar(-1)
	real := c.usable(gr)
	if real == nil {
		return
	}
	ws := mixedWS(c)
	var olds []kept
	var printed, rules string
	if !c.Guard("printing", func() { printed, rules = normal(real.Serialize(true)), rulesText(real, gr.Names) }) {
		return
	}
	type input struct {
		kind int // 0 Eval, 1 EvalRule, 2 EvalEmbed
		name string
		x    []rune
		lev  int
	}
	run := func(in input) (k kept, ok bool) {
		ok = c.Guard("evaluation", func() {
			switch in.kind {
			case 0:
				k.ast, _ = real.Eval(xbnf.NewCharstreamFromString(string(in.x)), in.lev)
			case 1:
				k.res = real.EvalRule(in.name, string(in.x))
			case 2:
				k.res = real.EvalEmbed(in.name, string(in.x))
			}
		})
		k.what = fmt.Sprintf("%s of %s on %q at level %d", []string{"Eval", "EvalRule", "EvalEmbed"}[in.kind], in.name, string(in.x), in.lev)
		k.before = k.now()
		return
	}
	var inputs []input
	for i := 0; i < 6; i++ {
		in := input{kind: c.IntN(3), name: pick(c.Rand, gr.Names), lev: c.IntN(4) - 1}
		budget := modelBudget
		switch in.kind {
		case 0:
			in.x = g.wholeText(gr, ws)
			if _, _, ok := modelParse(gr, in.x, false, budget); !ok {
				continue
			}
		case 1:
			in.x = g.textFor(gr, gr.Rules[in.name], ws)
			if _, _, ok := modelEval(gr, gr.Rules[in.name], in.x, 0, fSkip, false, budget); !ok {
				continue
			}
		case 2:
			in.x = g.textFor(gr, gr.Rules[in.name], ws)
			if _, _, ok := modelEmbed(gr, in.name, in.x, false, budget); !ok {
				continue
			}
		}
		inputs = append(inputs, in)
		k, ok := run(in)
		if !ok {
			return
		}
		olds = append(olds, k)
	}
	if len(inputs) == 0 {
		return
	}
	check := func(when string, skip int) bool {
		for i, k := range olds {
			if i == skip {
				continue
			}
			if now := k.now(); now != k.before {
				c.Violate("isolation", "%s changed the result of %s to\n%sfrom\n%s", when, k.what, now, k.before)
				return false
			}
		}
		var p, r string
		if !c.Guard("printing", func() { p, r = normal(real.Serialize(true)), rulesText(real, gr.Names) }) {
			return false
		}
		if p != printed || r != rules {
			c.Violate("isolation", "%s changed the grammar to\n%s\n%sfrom\n%s\n%s", when, p, r, printed, rules)
			return false
		}
		return true
	}
	if !check("a later call", -1) {
		return
	}
	nontrivial := false
	for i := range olds {
		// overwrite one result, then everything else must be as before, and the same call must give the same again
		before := olds[i].before
		if olds[i].ast != nil {
			c.Count("nodes overwritten", olds[i].ast.CountNodes())
			if c.IntN(2) == 0 { // simplifying the tree changes only the tree
				if !c.Guard("simplifying", func() {
					olds[i].ast.MergeStickyNodes()
					olds[i].ast.RemoveVirtualNodes()
					olds[i].ast.RemoveNonDataNodes()
					olds[i].ast.RemoveRedundantNodes()
				}) {
					return
				}
				if !check("simplifying another tree", i) {
					return
				}
			}
			if !c.textsKept(olds[i].ast.Nodes, olds[i].what) {
				return
			}
			for _, n := range olds[i].ast.Nodes {
				poison(n)
			}
			nontrivial = true
		} else if olds[i].res != nil {
			if olds[i].res.Node != nil {
				c.Count("nodes overwritten", olds[i].res.Node.CountNodes())
				nontrivial = true
				if c.IntN(2) == 0 && !c.Guard("merging", olds[i].res.MergeStickyNodes) {
					return
				}
				if !c.textsKept([]*xbnf.Node{olds[i].res.Node}, olds[i].what) {
					return
				}
			}
			poisonResult(olds[i].res)
		}
		if !check("overwriting the result of "+olds[i].what, i) {
			return
		}
		k, ok := run(inputs[i])
		if !ok {
			return
		}
		if k.before != before {
			c.Violate("isolation", "after overwriting its first result %s gives\n%sinstead of\n%s", k.what, k.before, before)
			return
		}
		olds[i] = k
		c.Count("results overwritten", 1)
	}
	if nontrivial {
		c.Seen(gr.Text(), olds[0].what)
		c.Sample(fmt.Sprintf("grammar:\n%slast: %s", gr.Text(), olds[len(olds)-1].what))
	}
	c.streamIsolation(g, gr, real, ws)
}

// streamIsolation overwrites results of evaluations on a stream and goes on with the stream
func (c *Case) streamIsolation(g *Gen, gr *Grammar, real *xbnf.Grammar, ws int) {
	name := pick(c.Rand, gr.Names)
	x := g.textFor(gr, gr.Rules[name], ws)
	for i := c.IntN(10); i > 0; i-- {
		x = append(x, pick(c.Rand, []rune("ab \n")))
	}
	m, _, ok := modelEval(gr, gr.Rules[name], x, 0, fSkip, false, modelBudget)
	if !ok {
		return
	}
	lines := allLines(x)
	rec := newRec(string(x), opLimit(m.Steps, len(x)))
	c.Set("rule", name)
	c.Set("text", fmt.Sprintf("%q", string(x)))
	var res *xbnf.EvalResult
	if !c.Guard("evaluation", func() { res = real.GetRule(name).Eval(real, rec, xbnf.SUGGEST_SKIP) }) {
		return
	}
	taken := len(res.CharsRead)
	if taken > len(x) || rec.cs.Cursor() != taken {
		return // C01 judges that
	}
	poisonResult(res)
	var handed [][]rune
	cur := taken
	var s xbnf.ICharstream = rec.cs
	depth := 0
	for step := 0; cur < len(x) && step < 1000; step++ {
		if hookBuild && depth < 6 && cur > 0 && c.IntN(5) == 0 {
			back := 1 + c.IntN(min(cur, 10))
			if !c.Guard("put back", func() { s = prepend(s, append([]rune(nil), x[cur-back:cur]...)) }) {
				return
			}
			cur -= back
			depth++
			c.Count("put back", 1)
		}
		o := c.streamOp(x, cur)
		var r sOut
		if !c.Guard(o.String(), func() { r = doOp(s, o) }) {
			return
		}
		ok, next := stepOp(x, lines, cur, o, r)
		if !ok {
			c.Violate("isolation", "after the slices got from the stream were overwritten: at index %d %s", cur, o.show(r))
			return
		}
		cur = next
		if len(r.Chars) > 0 {
			handed = append(handed, r.Chars)
			full := r.Chars[:cap(r.Chars)]
			for i := range full {
				full[i] = 0x2622
			}
			c.Count("stream slices overwritten", 1)
		}
	}
	for idx := 0; idx < cur && idx < len(x); idx++ {
		o := sOp{Kind: opLookup, Idx: idx}
		var r sOut
		if !c.Guard(o.String(), func() { r = doOp(s, o) }) {
			return
		}
		if ok, _ := stepOp(x, lines, cur, o, r); !ok {
			c.Violate("isolation", "after the slices got from the stream were overwritten: %s", o.show(r))
			return
		}
		if p := s.PositionLookup(idx); p != nil { // changing a position changes nothing else
			p.Line, p.Col = -9, -9
		}
		var again sOut
		if !c.Guard(o.String(), func() { again = doOp(s, o) }) {
			return
		}
		if again.Line != r.Line || again.Col != r.Col {
			c.Violate("isolation", "changing a returned position changes the next one: %s", o.show(again))
			return
		}
	}
}

// ---- one grammar, many goroutines

// yielding is a stream that lets other goroutines run in the middle of what its user does
type yielding struct {
	xbnf.ICharstream
	cs xbnf.ICharstream
	r  *rand.Rand
	n  int // of so many calls, one yields
}

func newYielding(x string, r *rand.Rand) xbnf.ICharstream {
	cs := xbnf.NewCharstreamFromString(x)
	if r == nil {
		return cs
	}
	return &yielding{cs, cs, r, []int{1, 2, 5, 20}[r.IntN(4)]}
}

func (s *yielding) maybe() {
	if s.r.IntN(s.n) == 0 {
		runtime.Gosched()
	}
}
func (s *yielding) Next() rune                            { s.maybe(); return s.cs.Next() }
func (s *yielding) Peek() rune                            { s.maybe(); return s.cs.Peek() }
func (s *yielding) Match(t []rune) ([]rune, bool)         { s.maybe(); return s.cs.Match(t) }
func (s *yielding) SkipSpaces() []rune                    { s.maybe(); return s.cs.SkipSpaces() }
func (s *yielding) Position() *xbnf.Position              { s.maybe(); return s.cs.Position() }
func (s *yielding) PositionLookup(idx int) *xbnf.Position { s.maybe(); return s.cs.PositionLookup(idx) }
func (s *yielding) Cursor() int                           { s.maybe(); return s.cs.Cursor() }

func (c *Case) shared() {
	cfg := rootCfg(c)
	// a hammer is much of the same kind at once, with short texts
	hammer, kind := c.IntN(3) == 0, c.IntN(8)
	ws := mixedWS(c)
	if hammer && c.IntN(2) == 0 { // parses of grammars with sticky and other roots
		kind, ws = 0, 30
		cfg.Depth, cfg.MinRules, cfg.WSTerm, cfg.Alpha = 1, 3, 0, alphaSmall
		cfg.W = [numKinds]int{KChar: 10, KChars: 4, KStr: 10, KRange: 4, KConcat: 3, KChoice: 3, KRep: 2}
	}
	g := gen(c, cfg)
	var gr *Grammar
	if !hammer && c.IntN(4) == 0 {
		gr, _ = realGrammar(c.IntN(4))
	} else {
		gr = g.grammar(-1)
	}
	real := c.usable(gr)
	if real == nil {
		return
	}
	alone := c.usable(gr)
	if alone == nil {
		return
	}
	type job struct {
		kind int
		name string
		x    string
		lev  int
		want string
	}
	do := func(gr2 *xbnf.Grammar, j *job, r *rand.Rand) string {
		switch j.kind {
		case 0, 1:
			ast, err := gr2.Eval(newYielding(j.x, r), j.lev)
			s := fmt.Sprintf("%v\n%s", err != nil, showAST(ast))
			if ast != nil {
				s += string(ast.Text())
				if !deep(ast.Nodes) {
					s += ast.StringTree(nil)
				}
				for _, n := range ast.Nodes {
					poison(n)
				}
			}
			return s
		case 2:
			r := gr2.EvalRule(j.name, j.x)
			s := showResult(r)
			poisonResult(r)
			return s
		case 3:
			r := gr2.EvalEmbed(j.name, j.x)
			s := showResult(r)
			poisonResult(r)
			return s
		case 4:
			return normal(gr2.Serialize(true))
		case 5:
			return rulesText(gr2, gr.Names)
		case 6:
			r := gr2.GetRule(j.name).Eval(gr2, newYielding(j.x, r), flags[j.lev+1])
			s := showResult(r)
			poisonResult(r)
			return s
		}
		rule := gr2.GetRule(j.name)
		return fmt.Sprint(rule.Name(), rule.IsVirtual(), rule.IsNonData(), rule.IsTokenized(), rule.StringWithIndent(" "), gr2.GetRecord(j.name) != nil, normalRelation(gr2))
	}
	many, threads, calls := 10, 3+c.IntN(4), 6
	if hammer {
		many, threads, calls = 6, 8, 100
	}
	var jobs []*job
	for i := 0; i < many; i++ {
		j := &job{kind: c.IntN(8), name: pick(c.Rand, gr.Names), lev: c.IntN(4) - 1}
		if hammer {
			j.kind = kind
		}
		if j.kind == 6 && j.lev == 2 {
			j.lev = 0
		}
		ok, budget := true, modelBudget/10
		if hammer {
			budget = modelBudget / 100
		}
		switch j.kind {
		case 0, 1:
			x := g.wholeText(gr, ws)
			if hammer && len(x) > 12 {
				x = x[:12]
			}
			j.x = string(x)
			_, _, ok = modelParse(gr, x, false, budget)
		case 2, 6:
			x := g.textFor(gr, gr.Rules[j.name], ws)
			j.x = string(x)
			fl := fSkip
			if j.kind == 6 {
				fl = flags[j.lev+1]
			}
			_, _, ok = modelEval(gr, gr.Rules[j.name], x, 0, fl, false, budget)
		case 3:
			x := g.textFor(gr, gr.Rules[j.name], ws)
			if hammer && len(x) > 12 {
				x = x[:12]
			}
			j.x = string(x)
			_, _, ok = modelEmbed(gr, j.name, x, false, budget)
		}
		if !ok {
			continue
		}
		if !c.Guard("alone", func() { j.want = do(alone, j, nil) }) {
			return
		}
		jobs = append(jobs, j)
	}
	if len(jobs) == 0 {
		return
	}
	orders := make([][]int, threads)
	rands := make([]*rand.Rand, threads)
	for t := range orders {
		rands[t] = rand.New(rand.NewPCG(c.Uint64(), 1))
		for k := 0; k < calls; k++ {
			orders[t] = append(orders[t], c.IntN(len(jobs)))
		}
	}
	type wrong struct {
		j   *job
		got string
	}
	bad := make([]*wrong, threads)
	var running, overlap atomic.Int64
	if !c.Guard("concurrent use", func() {
		var wg sync.WaitGroup
		var failure atomic.Value
		begin := make(chan struct{})
		for t := range orders {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						buf := make([]byte, 4000)
						failure.Store(fmt.Sprintf("%v\n%s", r, buf[:runtime.Stack(buf, false)]))
					}
				}()
				<-begin
				for _, k := range orders[t] {
					if running.Add(1) > 1 {
						overlap.Add(1)
					}
					r := rands[t]
					if k%4 == 3 {
						r = nil
					}
					got := do(real, jobs[k], r)
					running.Add(-1)
					if got != jobs[k].want && bad[t] == nil {
						bad[t] = &wrong{jobs[k], got}
					}
				}
			}(t)
		}
		close(begin)
		wg.Wait()
		if f := failure.Load(); f != nil {
			panic(f)
		}
	}) {
		return
	}
	for _, b := range bad {
		if b != nil {
			c.Set("text", fmt.Sprintf("%q", b.j.x))
			c.Set("rule", b.j.name)
			c.Violate("sharing", "job of kind %d gives, among others,\n%s\nalone\n%s", b.j.kind, b.got, b.j.want)
			return
		}
	}
	c.Count("calls", threads*calls)
	if hammer {
		c.Count("hammered grammars", 1)
	}
	c.Count("overlapping calls", int(overlap.Load()))
	if overlap.Load() > 0 {
		c.Seen(gr.Text(), fmt.Sprint(orders))
	}
	c.Sample(fmt.Sprintf("%d goroutines, %d kinds of jobs, grammar:\n%s", threads, len(jobs), gr.Text()))
}

func normalRelation(gr *xbnf.Grammar) string { return normal(gr.StringRuleRelation("%-4s")) }

func init() {
	const how = "Random grammars without left recursion and texts derived from them, then mutated. "
	register(&Check{
		ID: "C23", Quick: 45000, Thorough: 1000000,
		Rule: how + "Each text (free text around and between matches, adjacent matches, matches of nothing) is searched by the real code and by a reference search; pieces, their kind, text and trees must agree. Unknown names must give errors. Non-trivial: something was found; distinct grammars are counted.",
		Need: map[string]int{"searches": 5000, "matches": 5000, "free texts": 5000, "adjacent matches": 500, "undefined names": 100},
		Random: func(c *Case) {
			cfg := mixedCfg(c)
			g := gen(c, cfg)
			gr := g.grammar(-1)
			real := c.usable(gr)
			if real == nil {
				return
			}
			ws := mixedWS(c)
			for i := 0; i < 6; i++ {
				name := pick(c.Rand, gr.Names)
				var x []rune
				for k := c.IntN(5); k >= 0; k-- {
					x = append(x, g.textFor(gr, gr.Rules[name], ws)...)
					if c.IntN(2) == 0 {
						for f := c.IntN(4); f > 0; f-- {
							x = append(x, pick(c.Rand, []rune("ab .é\n世")))
						}
					}
				}
				most := 120
				if c.IntN(10) == 0 { // many pieces
					most = 400
					for k := 0; k < 40 && len(x) < most; k++ {
						x = append(x, g.textFor(gr, gr.Rules[name], ws)...)
						if c.IntN(2) == 0 {
							x = append(x, pick(c.Rand, []rune("ab .é\n世")))
						}
					}
				}
				if len(x) > most {
					x = x[:most]
				}
				if !c.embedOne(gr, real, name, x) {
					return
				}
			}
			c.undefinedSearch(real)
			c.Seen(gr.Text())
			c.Sample(fmt.Sprintf("grammar:\n%slast text: %s", gr.Text(), c.Detail["text"]))
		},
	})

	register(&Check{
		ID: "C26", Quick: 48000, Thorough: 600000,
		Rule: how + "Results of parses, rule evaluations and searches are kept while later calls are made, and must not change; then the chars of each node are overwritten, which no other node may see, and each is overwritten completely (chars up to the capacity of the slices, children, positions, marks) and the other results, the printed grammar and a repetition of the same call must be as before; slices and positions got from streams are overwritten while the stream is read on. Non-trivial: a tree was overwritten; distinct (grammar, call) pairs are counted.",
		Need: map[string]int{"results overwritten": 5000, "nodes overwritten": 10000, "texts kept": 10000, "nodes apart": 10000, "stream slices overwritten": 1000},
		Random: func(c *Case) {
			c.isolation()
		},
		Fixed: []func(*Case){},
	})

	register(&Check{
		ID: "C13", Quick: 1350, Thorough: 40000, Workers: 4, Procs: 4,
		Rule: "Built with the race detector. " + how + "3 to 8 goroutines share one grammar and parse at all levels, evaluate rules, search, print the grammar and its rules, on streams that yield in the middle of a call; a third of the cases hammer one kind of call with short texts; each overwrites the results it got; every result must be what the same call gives alone on a grammar of its own, and no race may be reported. Non-trivial: calls overlapped in time; distinct (grammar, order of calls) are counted.",
		Need: map[string]int{"calls": 50000, "hammered grammars": 100},
		Hope: map[string]int{"overlapping calls": 5000},
		Random: func(c *Case) {
			c.shared()
		},
		Assume: []string{"the race detector reports only races of the executed interleavings"},
	})
}

func (c *Case) undefinedSearch(gr *xbnf.Grammar) {
	var r *xbnf.EvalResult
	name := pick(c.Rand, []string{"nosuch", "", "R0", "r0 ", "undefined_1"})
	if gr.GetRecord(name) != nil {
		return
	}
	if !c.Guard("EvalEmbed", func() { r = gr.EvalEmbed(name, "ab") }) {
		return
	}
	c.Count("undefined names", 1)
	if r == nil || r.Error == nil || r.Node != nil {
		c.Violate("outcome", "searching for the undefined rule %q gives no error, or a node", name)
	}
}
