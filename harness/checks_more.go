package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// ---- the listing of a grammar

type listedRule struct {
	line     int
	name     string
	virtual  bool
	terminal bool
	def      string
	detail   []string
}

type listing struct {
	roots []string
	users map[string][]string
	rules []listedRule
}

var listedLine = regexp.MustCompile(`^ *L(\d+): (!?)([A-Za-z][A-Za-z0-9_]*)(\[T\])? *= (.*)$`)

// parseListing takes the listing of a grammar apart. wrong says what cannot be understood.
func parseListing(s string) (res listing, wrong string) {
	res.users = map[string][]string{}
	head, rules, ok := strings.Cut(s, "\nRules:\n")
	if !ok {
		return res, "there is no line Rules:"
	}
	first, usage, ok := strings.Cut(head, "\n")
	if !ok || !strings.HasPrefix(first, "Root Rules: ") || !strings.HasPrefix(usage, "Rule Reference Map:") {
		return res, "there are no lines Root Rules and Rule Reference Map"
	}
	split := func(s string) (r []string) {
		for _, n := range strings.Split(s, ",") {
			if n = strings.TrimSpace(n); n != "" {
				r = append(r, n)
			}
		}
		sort.Strings(r)
		return
	}
	res.roots = split(strings.TrimPrefix(first, "Root Rules: "))
	_, usage, _ = strings.Cut(usage, "\n")
	for _, l := range strings.Split(usage, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		n, u, ok := strings.Cut(l, ":")
		if n = strings.TrimSpace(n); !ok || n == "" {
			return res, fmt.Sprintf("the line %q of the reference map", l)
		}
		if _, twice := res.users[n]; twice {
			return res, fmt.Sprintf("%s is twice in the reference map", n)
		}
		res.users[n] = split(u)
	}
	for _, l := range strings.Split(rules, "\n") {
		if m := listedLine.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			res.rules = append(res.rules, listedRule{line: n, virtual: m[2] != "", name: m[3], terminal: m[4] != "", def: m[5]})
			continue
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if len(res.rules) == 0 {
			return res, fmt.Sprintf("the line %q is in front of all rules", l)
		}
		r := &res.rules[len(res.rules)-1]
		r.detail = append(r.detail, l)
	}
	return
}

// ruleHere is what the listing has to say about one rule
type ruleHere struct {
	name string
	rule *Rule
	line int // 0: not known
}

// element is one line of the detailed listing
type element struct {
	depth int
	label string
	block bool
}

// elements are the elements of a definition in order. The parts of a block are not listed.
func elements(r *Rule, depth int, out []element) []element {
	e := element{depth: depth}
	var kids []*Rule
	switch r.K {
	case KChar, KChars:
		e.label = "char:"
	case KStr:
		e.label = "token:"
	case KRange:
		e.label = "range:"
	case KEOF:
		e.label = "EOF"
	case KRef:
		e.label = "reference:"
	case KConcat:
		e.label, kids = "concatenate:", r.Kids
	case KChoice:
		e.label = "choice:"
		for _, g := range r.Groups {
			kids = append(kids, g...)
		}
	case KGroup:
		e.label, kids = "group:", r.Kids
	case KOpt:
		e.label, kids = "option:", r.Kids
	case KRep:
		e.label, kids = "repetition", r.Kids
	case KBlock:
		e.block = true
	}
	out = append(out, e)
	for _, k := range kids {
		out = elements(k, depth+1, out)
	}
	return out
}

func sortedCopy(s []string) []string {
	r := append([]string(nil), s...)
	sort.Strings(r)
	return r
}

// judgeListing compares the listing of a grammar with the rules it has, in order of definition. validated are the rules
// that refer to no other one as of the last validation, nil if there was none.
func (c *Case) judgeListing(gr *xbnf.Grammar, rules []ruleHere, terminals map[string]bool) bool {
	for _, detail := range []bool{false, true} {
		var text string
		if !c.Guard("listing", func() { text = gr.Serialize(detail) }) {
			return false
		}
		got, wrong := parseListing(text)
		if wrong != "" {
			c.Violate("listing", "%s: in\n%s", wrong, text)
			return false
		}
		bad := func(format string, args ...interface{}) bool {
			c.Violate("listing", "%s: in\n%s", fmt.Sprintf(format, args...), text)
			return false
		}
		if len(got.rules) != len(rules) {
			return bad("%d rules are listed, %d defined", len(got.rules), len(rules))
		}
		last := 0
		have := newGrammar()
		for i, want := range rules {
			g := got.rules[i]
			have.Names = append(have.Names, want.name)
			have.Rules[want.name] = want.rule
			if g.name != want.name {
				return bad("rule %d is %s instead of %s", i, g.name, want.name)
			}
			if want.line > 0 && g.line != want.line {
				return bad("%s is on line %d, not %d", g.name, want.line, g.line)
			}
			if g.line <= last {
				return bad("the number of %s is not above that of the rule before", g.name)
			}
			last = g.line
			if g.virtual != want.rule.Virt {
				return bad("%s: virtual is %v", g.name, g.virtual)
			}
			if g.terminal != terminals[want.name] {
				return bad("%s: terminal is %v", g.name, g.terminal)
			}
			var def string
			var attr [3]bool
			var name string
			if !c.Guard("looking up", func() {
				r := gr.GetRule(want.name)
				def, name, attr = r.String(), r.Name(), [3]bool{r.IsTokenized(), r.IsNonData(), r.IsVirtual()}
				if rec := gr.GetRecord(want.name); rec == nil || rec.Rule() != r {
					panic("the record of " + want.name + " is not that of its rule")
				}
			}) {
				return false
			}
			if strings.TrimRight(g.def, " ") != strings.TrimRight(def, " ") {
				return bad("%s is listed as %q, but prints as %q", g.name, g.def, def)
			}
			if name != want.name && want.rule.K != KEOF || attr != [3]bool{want.rule.Tok, want.rule.Nond, want.rule.Virt} {
				return bad("the rule looked up as %s has the name %s, tokenized/nondata/virtual %v", want.name, name, attr)
			}
			c.Count("rules listed", 1)
			if !detail {
				if len(g.detail) > 0 {
					return bad("details of %s not asked for", g.name)
				}
				continue
			}
			els := elements(want.rule, 0, nil)
			if len(els) != len(g.detail) {
				return bad("%d elements of %s are listed, there are %d", len(g.detail), g.name, len(els))
			}
			ind := make([]int, 0, 8) // of the elements this one is in
			kids := map[int]int{}    // indentation of the parts of each
			for k, e := range els {
				line := g.detail[k]
				body := strings.TrimLeft(line, " ")
				in := len(line) - len(body)
				if !strings.HasPrefix(body, e.label) || e.block && !strings.Contains(body, "<") {
					return bad("element %d of %s is %q instead of %s", k, g.name, body, e.label)
				}
				for len(ind) > e.depth {
					delete(kids, len(ind)-1)
					ind = ind[:len(ind)-1]
				}
				if e.depth > 0 {
					if in <= ind[e.depth-1] {
						return bad("element %d of %s, %q, is not indented below the one it is part of", k, g.name, body)
					}
					if !e.block {
						if at, ok := kids[e.depth-1]; ok && at != in {
							return bad("element %d of %s, %q, is not indented like its neighbours", k, g.name, body)
						}
						kids[e.depth-1] = in
					}
				}
				ind = append(ind, in)
				c.Count("elements listed", 1)
			}
		}
		roots, users := []string{}, map[string][]string{}
		for _, n := range have.Names {
			have.Rules[n].walk(func(r *Rule) {
				if r.K == KRef && have.Rules[r.Ref] != nil {
					users[r.Ref] = append(users[r.Ref], n)
				}
			})
		}
		for _, n := range have.Names {
			if users[n] == nil {
				roots = append(roots, n)
			}
		}
		if strings.Join(got.roots, ",") != strings.Join(sortedCopy(roots), ",") {
			return bad("the roots are %v", roots)
		}
		if len(got.users) != len(users) {
			return bad("%d rules are in the reference map instead of %d", len(got.users), len(users))
		}
		for n, u := range users {
			if strings.Join(sortedCopy(u), ",") != strings.Join(got.users[n], ",") {
				return bad("%s is used by %v", n, u)
			}
			c.Count("entries of the reference map", 1)
		}
		// the relation on its own says the same
		var rel string
		if !c.Guard("printing the relation", func() { rel = gr.StringRuleRelation("%-8s") }) {
			return false
		}
		two, wrong := parseListing(rel + "Rules:\n")
		if wrong != "" || strings.Join(two.roots, ",") != strings.Join(got.roots, ",") || fmt.Sprint(two.users) != fmt.Sprint(got.users) {
			return bad("the relation printed on its own differs (%s):\n%s", wrong, rel)
		}
		c.Count("listings", 1)
	}
	return true
}

// terminalsOf are the rules that refer to no other
func terminalsOf(rules []ruleHere) map[string]bool {
	res := map[string]bool{}
	for _, l := range rules {
		t := true
		l.rule.walk(func(r *Rule) {
			if r.K == KRef {
				t = false
			}
		})
		if t {
			res[l.name] = true
		}
	}
	return res
}

func (c *Case) listing() {
	cfg := loadCfg(c)
	cfg.MinRules, cfg.MaxRules = 1, 8
	cfg.W[KRef] = []int{4, 10, 25}[c.IntN(3)]
	if c.IntN(12) == 0 {
		cfg.MinRules, cfg.MaxRules = 20, 120
		cfg.Depth = 2
	}
	gn := gen(c, cfg)
	g := gn.grammar(-1)
	lay := &Layout{Rand: c.Rand}
	first := len(g.Names)
	if c.IntN(2) == 0 {
		first = c.IntN(len(g.Names) + 1)
	}
	part := newGrammar()
	for _, n := range g.Names[:first] {
		part.Names = append(part.Names, n)
		part.Rules[n] = g.Rules[n]
	}
	var real *xbnf.Grammar
	var err error
	var rules []ruleHere
	var terminals map[string]bool
	log := ""
	if undefinedIn(part) == "" && c.IntN(4) > 0 { // first a text, then rule by rule
		text, lineOf := lay.file(part)
		for c.IntN(3) == 0 {
			text += []string{"\n", "// = x\n", "  \n"}[c.IntN(3)]
		}
		log = text + "\n"
		c.Set("grammar", log)
		if c.IntN(4) == 0 {
			f := scratchFile(c, "g.xbnf", text)
			defer dropScratch()
			if !c.Guard("loading", func() { real, err = xbnf.NewGrammarFromFile(f) }) {
				return
			}
		} else if !c.Guard("loading", func() { real, err = xbnf.NewGrammarFromString(text) }) {
			return
		}
		if err != nil {
			c.Count("grammar refused", 1)
			return
		}
		for _, n := range part.Names {
			rules = append(rules, ruleHere{n, part.Rules[n], lineOf[n]})
		}
		terminals = terminalsOf(rules)
		if !c.judgeListing(real, rules, terminals) {
			return
		}
	} else {
		first = 0
		real = xbnf.NewGrammar()
	}
	names := append([]string(nil), g.Names[first:]...)
	c.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names {
		if c.IntN(5) == 0 { // one that is refused
			bad := [2]string{"zz9", c.badDef(g, g.Rules[n])}
			if len(rules) > 0 && c.IntN(2) == 0 {
				bad = [2]string{pick(c.Rand, rules).name, g.Rules[n].String()}
			}
			log += "bad: " + bad[0] + " = " + bad[1] + "\n"
			if !c.Guard("adding", func() { _, err = real.ParseRule(bad[0], bad[1]) }) {
				return
			}
			if err == nil {
				return // C16 judges that
			}
		}
		nl := &Layout{Rand: c.Rand, Newlines: true}
		def := nl.top(g.Rules[n], false)
		log += "add: " + n + " = " + def + "\n"
		c.Set("grammar", log)
		if !c.Guard("adding", func() { _, err = real.AddRule(n + " = " + def) }) {
			return
		}
		if err != nil {
			c.Count("grammar refused", 1)
			return
		}
		rules = append(rules, ruleHere{n, g.Rules[n], 0})
		if c.IntN(3) == 0 {
			log += "validate\n"
			if !c.Guard("validating", func() { err = real.Validate() }) {
				return
			}
			if err == nil {
				terminals = terminalsOf(rules)
			}
		}
		if c.IntN(3) == 0 && !c.judgeListing(real, rules, terminals) {
			return
		}
	}
	log += "validate\n"
	c.Set("grammar", log)
	if !c.Guard("validating", func() { err = real.Validate() }) {
		return
	}
	if err == nil {
		terminals = terminalsOf(rules)
	}
	if !c.judgeListing(real, rules, terminals) {
		return
	}
	for _, n := range nearNames(c, g.Names, 12) {
		var r xbnf.IRule
		var rec *xbnf.RuleRecord
		if !c.Guard("looking up", func() { r, rec = real.GetRule(n), real.GetRecord(n) }) {
			return
		}
		if r != nil || rec != nil {
			c.Violate("lookup", "looking up %q gives something", n)
			return
		}
		c.Count("unknown names", 1)
	}
	c.Seen(log)
	c.Sample(log)
}

// ---- references, brackets and names

// places collects pointers to all places an element stands at. parts of blocks are included if asked for.
func places(g *Grammar, ok func(r *Rule, inBlock bool) bool) (res []**Rule) {
	var visit func(p **Rule, top, inBlock bool)
	visit = func(p **Rule, top, inBlock bool) {
		r := *p
		if r == nil {
			return
		}
		if !top && ok(r, inBlock) {
			res = append(res, p)
		}
		for i := range r.Kids {
			// a group, option or repetition may have a sequence or choice in it, which is no element
			visit(&r.Kids[i], r.Kids[i].K == KConcat, inBlock)
		}
		for _, gr := range r.Groups {
			for i := range gr {
				visit(&gr[i], false, inBlock)
			}
		}
		for _, q := range []**Rule{&r.Open, &r.Esc, &r.Close} {
			if *q != nil {
				visit(q, (*q).K == KConcat, true)
			}
		}
		for i := range r.Excl {
			visit(&r.Excl[i], r.Excl[i].K == KConcat, true)
		}
	}
	for _, n := range g.Names {
		r := g.Rules[n]
		visit(&r, true, false)
	}
	return
}

// mayBeOption tells whether the node of an element may be that of an option
func mayBeOption(g *Grammar, r *Rule) bool {
	for i := 0; i < 200 && r != nil && r.K == KRef; i++ {
		r = g.Rules[r.Ref]
	}
	return r == nil || r.K == KOpt || r.K == KRef
}

// inlined is what can stand in for a reference
func inlined(g *Grammar, ref *Rule) *Rule {
	d := cloneRule(g.Rules[ref.Ref])
	d.Name = ""
	if d.K == KConcat || d.K == KChoice {
		d = grp(d)
	}
	d.Tok, d.Virt, d.Nond = d.Tok != ref.Tok, d.Virt != ref.Virt, d.Nond != ref.Nond
	return d
}

type leafAt struct {
	text      string
	eof       bool
	line, col int
}

func leafList(n *Node, out []leafAt) []leafAt {
	if n == nil {
		return out
	}
	if len(n.Kids) == 0 && (len(n.Chars) > 0 || n.IsEOF) {
		return append(out, leafAt{string(n.Chars), n.IsEOF, n.Line, n.Col})
	}
	for _, k := range n.Kids {
		out = leafList(k, out)
	}
	return out
}

// renamed maps the names in a tree
func renamed(n *Node, to map[string]string) *Node {
	c := *n
	if t, ok := to[n.Name]; ok {
		c.Name = t
	}
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, renamed(k, to))
	}
	return &c
}

// nameless takes the names out of a tree
func nameless(n *Node, names map[string]bool) *Node {
	c := *n
	if names[n.Name] {
		c.Name = ""
	}
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, nameless(k, names))
	}
	return &c
}

// outcome of one call, in a form to compare
type outcome struct {
	matched bool
	used    int
	sticky  bool
	nodes   []*Node
	whole   bool
}

func (o outcome) leaves() (res []leafAt) {
	for _, n := range o.nodes {
		res = leafList(n, res)
	}
	return
}

func (c *Case) outcomeOf(gr *xbnf.Grammar, name string, x []rune, how, flag int) (o outcome, ok bool) {
	ok = c.Guard("evaluation", func() {
		switch how {
		case 0: // whole text
			ast, err := gr.EvalRaw(xbnf.NewCharstreamFromString(string(x)))
			o.matched, o.whole = err == nil, true
			if ast != nil {
				o.nodes = fromRealAll(ast.Nodes)
			}
		case 1:
			r := gr.GetRule(name).Eval(gr, xbnf.NewCharstreamFromString(string(x)), flag)
			o.matched, o.used, o.sticky = r.Node != nil, len(r.CharsRead)-len(r.CharsUnused), r.Sticky
			if r.Node != nil {
				o.nodes = []*Node{fromReal(r.Node)}
			}
		case 2:
			r := gr.EvalEmbed(name, string(x))
			o.matched = r.Node != nil && len(r.Node.ChildNodes) > 0
			if r.Node != nil {
				o.nodes = []*Node{fromReal(r.Node)}
			}
		}
	})
	return
}

func (c *Case) transparent() {
	cfg := mixedCfg(c)
	cfg.W[KRef] = []int{6, 15, 30}[c.IntN(3)]
	cfg.MinRules = 2
	cfg.Depth = 2 + c.IntN(2)
	if c.IntN(3) == 0 {
		cfg.W[KBlock] = 10
	}
	named := c.IntN(3) == 0 // give many parts a name first
	if named && c.IntN(2) == 0 {
		cfg.W[KBlock], cfg.MaxRules = 16, 3
		cfg.Alpha = [][]rune{alphaTiny, alphaSmall, []rune("\"\\/*ab\n")}[c.IntN(3)]
	}
	gn := gen(c, cfg)
	var g *Grammar
	if c.IntN(30) == 0 {
		g, gn.Alpha = realGrammar(c.IntN(4))
	} else if named && c.IntN(2) == 0 {
		g = gn.focusBlock()
	} else {
		g = gn.grammar(-1)
	}
	for k := 0; named && k < 9; k++ {
		inAny := c.IntN(3) == 0
		ps := places(g, func(r *Rule, inBlock bool) bool { return r.K != KConcat && r.K != KRef && (inAny || inBlock) })
		if len(ps) == 0 {
			ps = places(g, func(r *Rule, inBlock bool) bool { return r.K != KConcat && r.K != KRef })
		}
		if len(ps) == 0 {
			break
		}
		p := pick(c.Rand, ps)
		n := fmt.Sprintf("%s%d", pick(c.Rand, []string{"P", "q", "zt"}), c.IntN(9000))
		if g.Rules[n] != nil {
			continue
		}
		g.add(n, *p)
		*p = ref(n)
	}
	h := cloneGrammar(g)
	roots := true // the root rules are the same
	names := map[string]string{}
	fresh := map[string]bool{}
	exact := true // the trees are the same but for names
	what := ""
	newName := func() string {
		for i := 0; ; i++ {
			n := fmt.Sprintf("%s%d", pick(c.Rand, []string{"A", "m", "zz", "n_"}), c.IntN(900)+i)
			if h.Rules[n] == nil && g.Rules[n] == nil {
				return n
			}
		}
	}
	for k := 1 + c.IntN(3); k > 0; k-- {
		kind := c.IntN(4)
		if named && len(names) == 0 && len(fresh) == 0 && c.IntN(2) == 0 {
			kind = 3
		}
		switch kind {
		case 0: // inline
			ps := places(h, func(r *Rule, _ bool) bool { return r.K == KRef && h.Rules[r.Ref] != nil })
			if len(ps) == 0 {
				continue
			}
			p := pick(c.Rand, ps)
			what += "inline " + (*p).Ref + "; "
			*p = inlined(h, *p)
			roots, exact = false, false
			c.Count("references inlined", 1)
		case 1: // extract
			ps := places(h, func(r *Rule, _ bool) bool { return r.K != KConcat })
			if len(ps) == 0 {
				continue
			}
			p := pick(c.Rand, ps)
			n := newName()
			what += "extract " + n + "; "
			h.add(n, *p)
			*p = ref(n)
			if c.IntN(2) == 0 { // at a random place of the grammar
				i := c.IntN(len(h.Names))
				last := len(h.Names) - 1
				copy(h.Names[i+1:], h.Names[i:last])
				h.Names[i] = n
			}
			fresh[n] = true
			c.Count("parts extracted", 1)
		case 2: // brackets
			ps := places(h, func(r *Rule, _ bool) bool { return !mayBeOption(h, r) })
			if len(ps) == 0 {
				continue
			}
			p := pick(c.Rand, ps)
			what += "brackets around " + (*p).String() + "; "
			*p = grp(*p)
			exact = false
			c.Count("brackets added", 1)
		case 3: // rename
			if len(names) > 0 || len(fresh) > 0 {
				continue
			}
			what += "rename; "
			to := map[string]string{}
			for _, n := range h.Names {
				to[n] = newName()
				for used := true; used; {
					used = false
					for m, t := range to {
						if m != n && t == to[n] {
							used = true
						}
					}
					if used {
						to[n] = newName()
					}
				}
			}
			r := newGrammar()
			h.walk(func(r *Rule) {
				if r.K == KRef {
					r.Ref = to[r.Ref]
				}
			})
			for _, n := range h.Names {
				r.add(to[n], h.Rules[n])
			}
			names, h = to, r
			c.Count("grammars renamed", 1)
		}
	}
	if what == "" {
		return
	}
	h.walk(func(r *Rule) { r.Name = "" })
	for _, n := range h.Names {
		h.Rules[n].Name = n
	}
	c.Set("change", what)
	c.Set("changed grammar", h.Text())
	a := c.usable(g)
	if a == nil {
		return
	}
	var b *xbnf.Grammar
	var err error
	if !c.Guard("loading", func() { b, err = xbnf.NewGrammarFromString(h.Text()) }) {
		return
	}
	if err != nil {
		c.Violate("load", "the changed grammar is refused: %v", err)
		return
	}
	hit := false
	for i := 0; i < 6; i++ {
		how := c.IntN(3)
		if how == 0 && !roots {
			how = 1
		}
		name := pick(c.Rand, g.Names)
		flag := flags[c.IntN(3)]
		var x []rune
		var ok bool
		switch how {
		case 0:
			x = []rune(string(gn.wholeText(g, mixedWS(c))))
			_, _, ok = modelParse(g, x, false, modelBudget)
		case 1:
			x = []rune(string(gn.textFor(g, g.Rules[name], mixedWS(c))))
			_, _, ok = modelEval(g, g.Rules[name], x, 0, flag, false, modelBudget)
		case 2:
			x = []rune(string(gn.textFor(g, g.Rules[name], mixedWS(c))))
			_, _, ok = modelEmbed(g, name, x, false, modelBudget)
		}
		if !ok {
			c.Count("beyond the budget", 1)
			continue
		}
		other := name
		if n, ok := names[name]; ok {
			other = n
		}
		c.Set("rule", name)
		c.Set("text", fmt.Sprintf("%q", string(x)))
		oa, ok := c.outcomeOf(a, name, x, how, flag)
		if !ok {
			return
		}
		ob, ok := c.outcomeOf(b, other, x, how, flag)
		if !ok {
			return
		}
		show := func(o outcome) string {
			return fmt.Sprintf("matched %v, %d chars used, sticky %v\n%s", o.matched, o.used, o.sticky, dumpAll(o.nodes))
		}
		same := oa.matched == ob.matched && oa.used == ob.used && oa.sticky == ob.sticky
		if same {
			la, lb := oa.leaves(), ob.leaves()
			same = len(la) == len(lb)
			for i := 0; same && i < len(la); i++ {
				same = la[i] == lb[i]
			}
		}
		if same && exact {
			same = len(oa.nodes) == len(ob.nodes)
			for i := 0; same && i < len(oa.nodes); i++ {
				same = sameTree(renamed(oa.nodes[i], names), nameless(ob.nodes[i], fresh))
			}
			c.Count("trees compared", 1)
		}
		if !same {
			c.Violate("transparent", "how %d: after %s\n%s\ninstead of\n%s", how, what, show(ob), show(oa))
			return
		}
		c.Count("outcomes compared", 1)
		if oa.matched {
			c.Count("matches compared", 1)
			hit = hit || len(oa.leaves()) > 0
		}
	}
	if hit {
		c.Seen(g.Text(), what)
		c.Sample(what + "\n" + g.Text())
	}
}

// ---- entry points and streams

// plainStream is a stream of the harness's own. It shares nothing with those of the library.
type plainStream struct {
	x   []rune
	cur int
	ops int
	max int
}

func (s *plainStream) op() {
	s.ops++
	if s.max > 0 && s.ops > s.max {
		panic(stepsExceeded(s.max))
	}
}

func (s *plainStream) Next() rune {
	s.op()
	if s.cur >= len(s.x) {
		return xbnf.EOFChar
	}
	s.cur++
	return s.x[s.cur-1]
}

func (s *plainStream) Peek() rune {
	s.op()
	if s.cur >= len(s.x) {
		return xbnf.EOFChar
	}
	return s.x[s.cur]
}

func (s *plainStream) Match(t []rune) ([]rune, bool) {
	s.op()
	var got []rune
	for _, c := range t {
		if s.cur >= len(s.x) {
			return got, false
		}
		got = append(got, s.x[s.cur])
		s.cur++
		if got[len(got)-1] != c {
			return got, false
		}
	}
	return got, true
}

func (s *plainStream) SkipSpaces() []rune {
	s.op()
	var got []rune
	for s.cur < len(s.x) && isWS(s.x[s.cur]) {
		got = append(got, s.x[s.cur])
		s.cur++
	}
	return got
}

func (s *plainStream) Position() *xbnf.Position {
	s.op()
	if s.cur >= len(s.x) {
		return nil
	}
	l, c := lineCol(s.x, s.cur)
	return &xbnf.Position{Line: l, Col: c}
}

func (s *plainStream) PositionLookup(idx int) *xbnf.Position {
	s.op()
	if idx < 0 || idx > 0 && (idx >= s.cur || idx >= len(s.x)) {
		return nil
	}
	l, c := lineCol(s.x, idx)
	return &xbnf.Position{Line: l, Col: c}
}

func (s *plainStream) Cursor() int { s.op(); return s.cur }

// own is the plain stream with whatever else the interface may ask for
type own struct {
	xbnf.ICharstream
	*plainStream
}

func (s own) Next() rune                            { return s.plainStream.Next() }
func (s own) Peek() rune                            { return s.plainStream.Peek() }
func (s own) Match(t []rune) ([]rune, bool)         { return s.plainStream.Match(t) }
func (s own) SkipSpaces() []rune                    { return s.plainStream.SkipSpaces() }
func (s own) Position() *xbnf.Position              { return s.plainStream.Position() }
func (s own) PositionLookup(idx int) *xbnf.Position { return s.plainStream.PositionLookup(idx) }
func (s own) Cursor() int                           { return s.plainStream.Cursor() }

func ownStream(x []rune) own { return own{nil, &plainStream{x: x}} }

// parsed is the outcome of a parse to compare: line and column of the nodes are taken relative to where the parse began
type parsed struct {
	ok    bool
	nodes []*Node
	left  bool // something was left on the stream
}

func (p parsed) String() string {
	return fmt.Sprintf("accepted %v, rest %v\n%s", p.ok, p.left, dumpAll(p.nodes))
}

func shifted(n *Node, line, col int) *Node {
	c := *n
	if c.Line > 0 {
		if c.Line == 1 {
			c.Col += col - 1
		}
		c.Line += line - 1
	}
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, shifted(k, line, col))
	}
	return &c
}

// streamsFor makes streams of all kinds that stand at pos of x
func (c *Case) streamsFor(x []rune, pos int) (ss []xbnf.ICharstream, names []string) {
	add := func(name string, s xbnf.ICharstream) { ss, names = append(ss, s), append(names, name) }
	from := 0
	ahead := func(s xbnf.ICharstream, n int) xbnf.ICharstream {
		for got := from; got < n; {
			switch c.IntN(4) {
			case 0:
				if k := c.IntN(n-got) + 1; k < 9 {
					s.Match(x[got : got+k])
					got += k
				}
			case 1:
				s.Peek()
				s.Position()
			default:
				s.Next()
				got++
			}
		}
		return s
	}
	if pos == 0 {
		add("a fresh stream", xbnf.NewCharstreamFromString(string(x)))
	}
	add("a stream read so far", ahead(xbnf.NewCharstreamFromString(string(x)), pos))
	add("an own stream", ahead(ownStream(x), pos))
	if hookBuild && pos > 0 { // some chars are put back and read again, others read then
		from = c.IntN(pos)
		to := from + 1 + c.IntN(len(x)-from)
		at := from
		from = 0
		s := ahead(xbnf.NewCharstreamFromString(string(x)), to)
		from = at
		add("a stream with chars put back and read again", ahead(prepend(s, append([]rune(nil), x[at:to]...)), pos))
		from = 0
	}
	if hookBuild && pos < len(x) {
		back := c.IntN(len(x)-pos) + 1
		add("a stream with chars put back", prepend(ahead(xbnf.NewCharstreamFromString(string(x)), pos+back), append([]rune(nil), x[pos:pos+back]...)))
		add("an own stream with chars put back", prepend(ahead(ownStream(x), pos+back), append([]rune(nil), x[pos:pos+back]...)))
		if pos+back < len(x) {
			more := c.IntN(len(x)-pos-back) + 1
			s := prepend(ahead(xbnf.NewCharstreamFromString(string(x)), pos+back+more), append([]rune(nil), x[pos+back:pos+back+more]...))
			add("a stream with chars put back twice", prepend(s, append([]rune(nil), x[pos:pos+back]...)))
		}
	}
	return
}

func (c *Case) entries() {
	cfg := rootCfg(c)
	if c.IntN(3) == 0 {
		cfg = mixedCfg(c)
	}
	gn := gen(c, cfg)
	var g *Grammar
	if c.IntN(30) == 0 {
		g, gn.Alpha = realGrammar(c.IntN(4))
	} else {
		g = gn.grammar(-1)
	}
	real := c.usable(g)
	if real == nil {
		return
	}
	hit := false
	for i := 0; i < 4; i++ {
		// a parse from anywhere in a text is one of the rest of the text
		x := []rune(string(gn.wholeText(g, mixedWS(c))))
		pos := 0
		if c.IntN(4) > 0 {
			var head []rune
			switch c.IntN(3) {
			case 0:
				head = []rune(string(gn.wholeText(g, mixedWS(c))))
			case 1:
				for n := c.IntN(6); n >= 0; n-- {
					head = append(head, pick(c.Rand, []rune("a \n\r\tx0\u3000é😀\n")))
				}
			case 2:
				pos = c.IntN(len(x) + 1)
			}
			if len(head) > 0 {
				pos = len(head)
				x = append(head, x...)
			}
		}
		rest := x[pos:]
		c.Set("text", fmt.Sprintf("%q, from %d on", string(x), pos))
		if _, _, ok := modelParse(g, rest, false, modelBudget); !ok {
			c.Count("beyond the budget", 1)
			continue
		}
		parse := func(s xbnf.ICharstream, f func(s xbnf.ICharstream) (*xbnf.AST, error)) (p parsed, ok bool) {
			ok = c.Guard("parsing", func() {
				ast, err := f(s)
				p.ok = err == nil
				if ast != nil {
					p.nodes = fromRealAll(ast.Nodes)
				}
				p.left = p.ok && s.Next() != xbnf.EOFChar
			})
			return
		}
		base, ok := parse(xbnf.NewCharstreamFromString(string(rest)), real.EvalRaw)
		if !ok {
			return
		}
		if base.left {
			c.Violate("rest", "accepted, but there is more on the stream")
			return
		}
		line, col := lineCol(x, pos)
		moved := base
		moved.nodes = nil
		for _, n := range base.nodes {
			moved.nodes = append(moved.nodes, shifted(n, line, col))
		}
		ss, names := c.streamsFor(x, pos)
		for k, s := range ss {
			raw := func(s xbnf.ICharstream) (*xbnf.AST, error) { return real.EvalRaw(s) }
			if c.IntN(2) == 0 {
				raw = func(s xbnf.ICharstream) (*xbnf.AST, error) { return real.Eval(s, xbnf.LevelRaw) }
			}
			p, ok := parse(s, raw)
			if !ok {
				return
			}
			if p.ok != moved.ok || p.left || !sameTrees(p.nodes, moved.nodes) {
				c.Violate("entry", "on %s:\n%v\ninstead of\n%v", names[k], p, moved)
				return
			}
			c.Count("parses compared", 1)
			if pos > 0 && p.ok {
				c.Count("parses from within a text", 1)
			}
		}
		hit = hit || base.ok
		// the levels are the raw tree simplified
		if base.ok {
			lev := []int{xbnf.LevelBasic, xbnf.LevelNoVertual, xbnf.LevelDataOnly}[c.IntN(3)]
			p, ok := parse(xbnf.NewCharstreamFromString(string(rest)), func(s xbnf.ICharstream) (*xbnf.AST, error) { return real.Eval(s, lev) })
			if !ok {
				return
			}
			q, ok := parse(xbnf.NewCharstreamFromString(string(rest)), func(s xbnf.ICharstream) (*xbnf.AST, error) {
				ast, err := real.EvalRaw(s)
				if err != nil {
					return nil, err
				}
				ast.MergeStickyNodes()
				if lev >= xbnf.LevelNoVertual {
					ast.RemoveVirtualNodes()
				}
				if lev == xbnf.LevelDataOnly {
					ast.RemoveNonDataNodes()
				}
				ast.RemoveRedundantNodes()
				return ast, nil
			})
			if !ok {
				return
			}
			if p.ok != q.ok || !sameTrees(p.nodes, q.nodes) {
				c.Violate("levels", "level %d is\n%v\nbut the raw tree simplified\n%v", lev, p, q)
				return
			}
			c.Count("levels compared", 1)
		}
		// the first node is what the root rules match there
		if len(rest) > 0 {
			best, count := -1, 0
			var first *Node
			for _, r := range g.roots() {
				if used, n, ok := c.evalFrom(real, r, x, pos, xbnf.SUGGEST_SKIP); !ok {
					return
				} else if n != nil && used > 0 {
					if used > best {
						best, count, first = used, 1, n
					} else if used == best {
						count++
					}
				}
			}
			if base.ok && (count != 1 || !sameTree(first, moved.nodes[0])) {
				c.Violate("root", "%d root rules match the most chars, %d, for the first of them the node is\n%s\nbut the tree begins with\n%s", count, best, dump(first), dump(moved.nodes[0]))
				return
			}
			if count != 1 && base.ok {
				c.Violate("root", "%d root rules match the most chars, but the text is accepted", count)
				return
			}
			c.Count("first nodes compared", 1)
		}
		// one rule, all ways
		name := pick(c.Rand, g.Names)
		y := []rune(string(gn.textFor(g, g.Rules[name], mixedWS(c))))
		c.Set("rule", name)
		c.Set("text", fmt.Sprintf("%q", string(y)))
		if _, _, ok := modelEval(g, g.Rules[name], y, 0, fSkip, false, modelBudget); !ok {
			continue
		}
		var a, b string
		if !c.Guard("evaluation", func() {
			a = showResult(real.EvalRule(name, string(y)))
			b = showResult(real.GetRule(name).Eval(real, xbnf.NewCharstreamFromString(string(y)), xbnf.SUGGEST_SKIP))
		}) {
			return
		}
		if a != b {
			c.Violate("entry", "EvalRule(%s) is\n%s\nbut its rule evaluated on a stream gives\n%s", name, a, b)
			return
		}
		p2 := 0
		if len(y) > 0 {
			p2 = c.IntN(len(y))
		}
		flag := flags[c.IntN(3)]
		if _, _, ok := modelEval(g, g.Rules[name], y, p2, flag, false, modelBudget); !ok {
			continue
		}
		ss, names = c.streamsFor(y, p2)
		for k, s := range ss {
			var r string
			if !c.Guard("evaluation", func() { r = showResult(real.GetRule(name).Eval(real, s, flag)) }) {
				return
			}
			if k == 0 {
				a = r
				continue
			}
			if a != r {
				c.Violate("entry", "%s at %d: on %s\n%s\non %s\n%s", name, p2, names[k], r, names[0], a)
				return
			}
			c.Count("evaluations compared", 1)
		}
	}
	if hit {
		c.Seen(g.Text(), c.Detail["text"])
		c.Sample(fmt.Sprintf("grammar:\n%slast text: %s", g.Text(), c.Detail["text"]))
	}
}

// evalFrom evaluates a rule at an index of a text
func (c *Case) evalFrom(gr *xbnf.Grammar, name string, x []rune, pos, flag int) (n int, nd *Node, ok bool) {
	ok = c.Guard("evaluation", func() {
		s := xbnf.NewCharstreamFromString(string(x))
		for i := 0; i < pos; i++ {
			s.Next()
		}
		r := gr.GetRule(name).Eval(gr, s, flag)
		if r.Node != nil {
			nd = fromReal(r.Node)
			n = len(r.CharsRead) - len(r.CharsUnused)
		}
	})
	return
}

func init() {
	register(&Check{
		ID: "C28", Quick: 64000, Thorough: 500000,
		Rule:   "Random grammars are loaded as text or file in random layouts with blank and comment lines, further rules are added one by one, some of them refused, with validations in between; the listing, plain and detailed, is taken apart and compared with the structure of the rules defined so far: rules, order, lines, marks, definitions, elements and their indentation, roots, reference map, look-up by name. Non-trivial: all listings were as expected; distinct histories are counted.",
		Need:   map[string]int{"listings": 10000, "rules listed": 30000, "elements listed": 30000, "entries of the reference map": 5000, "unknown names": 1000},
		Random: func(c *Case) { c.listing() },
	})
	register(&Check{
		ID: "C29", Quick: 144000, Thorough: 800000,
		Rule:   "Random grammars without left recursion are changed in one to three ways that must not matter: a reference replaced by what it names, a part given a name of its own, brackets put around an element, all rules renamed. The changed grammar and the original one evaluate, parse and search the same texts: acceptance, chars used, stickiness, leaves and their positions must agree, and where only names changed, the whole trees. Non-trivial: some text matched; distinct pairs of grammar and change are counted.",
		Need:   map[string]int{"matches compared": 10000, "trees compared": 5000, "references inlined": 2000, "parts extracted": 2000, "brackets added": 2000, "grammars renamed": 2000},
		Random: func(c *Case) { c.transparent() },
	})
	register(&Check{
		ID: "C30", Quick: 64000, Thorough: 500000,
		Rule:   "Random grammars without left recursion and texts derived from them, then mutated. Each text is parsed and its rules are evaluated from some point on, on library streams read up to there, with chars put back once or twice, and on a stream implementation of the harness's own; all must give the tree of the rest of the text alone, with positions moved, and leave nothing on the stream on success. Levels are compared with the raw tree simplified step by step, first nodes with single evaluations of the root rules, EvalRule with the rule's own evaluation. Non-trivial: some text was accepted; distinct pairs of grammar and text are counted.",
		Need:   map[string]int{"parses compared": 10000, "parses from within a text": 3000, "levels compared": 3000, "first nodes compared": 5000, "evaluations compared": 5000},
		Random: func(c *Case) { c.entries() },
	})
}
