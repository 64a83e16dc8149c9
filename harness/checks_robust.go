package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/cnsgfk/xbnf"
)

// ---- termination

// nullableCfg makes grammars full of rules that can match nothing
func nullableCfg(c *Case) Cfg {
	cfg := mixedCfg(c)
	cfg.Alpha = [][]rune{alphaTiny, alphaTiny, alphaSmall}[c.IntN(3)]
	cfg.W[KOpt], cfg.W[KRep], cfg.W[KStr], cfg.W[KEOF] = 14, 16, 10, 4
	cfg.W[KBlock] = []int{2, 8}[c.IntN(2)]
	cfg.Empty = []int{30, 60}[c.IntN(2)]
	cfg.Annot = 0
	cfg.MaxKids = 3
	return cfg
}

func (c *Case) terminates() {
	g := gen(c, nullableCfg(c))
	gr := g.grammar(-1)
	ws := mixedWS(c)
	null := gr.nullable()
	c.Count("nullable rules", len(null))
	c.evalMany(g, gr, 4, ws, func(e *Ev) bool {
		c.worst(e.Rec.Ops, e.M.Steps+len(e.X))
		return true
	})
	if c.failed {
		return
	}
	real := c.usable(gr)
	if real == nil {
		return
	}
	for i := 0; i < 4; i++ {
		x := []rune(string(g.wholeText(gr, ws)))
		c.parseOneText(gr, real, x)
		if c.failed {
			return
		}
	}
	for i := 0; i < 3; i++ {
		name := pick(c.Rand, gr.Names)
		x := g.textFor(gr, gr.Rules[name], ws)
		if _, _, ok := modelEmbed(gr, name, x, false, modelBudget); !ok {
			continue
		}
		c.Set("rule", name)
		c.Set("text", fmt.Sprintf("%q", string(x)))
		if !c.Guard("EvalEmbed", func() { real.EvalEmbed(name, string(x)) }) {
			return
		}
		c.Count("searches", 1)
	}
}

// worst keeps the most stream operations seen per step of the model
func (c *Case) worst(ops, steps int) {
	if steps < 1 {
		steps = 1
	}
	if r := 100 * ops / steps; r > c.w.res.Counters["max stream operations per 100 model steps"] {
		c.w.res.Counters["max stream operations per 100 model steps"] = r
	}
}

func repeat(s string, n int) string { return strings.Repeat(s, n) }

type longCase struct {
	grammar string
	unit    string
	n       int
	tail    string
	ok      bool // the whole text parses
}

// longTexts are parsed with an allowance of stream operations linear in the length of the text
var longTexts = []longCase{
	{"a = 'a'", "a", 60000, "", true},
	{"a = { 'a' }", "a", 60000, "", true},
	{"a = { [ 'a' ] } 'b'", "a", 20000, "b", true},
	{"a = { { { 'a' } } } 'b'", "a", 20000, "b", true},
	{"a = { [ { \"\" } ] [ 'a' ] } 'b'", "a", 10000, "b", true},
	{"a = { \"\" | 'a' } 'b'", "a", 10000, "b", true},
	{"a = { [ 'a' ] > [ 'b' ] > 'c' } 'd'", "a", 5000, "d", true},
	{"a = <'\"' '\\\\' '\"'>", "x", 20000, "", false},
	{"a = <'(' ')'>", "(x)", 8000, "", true},
	{"a = <'(' ')'!>\nb = ')'", "(x)", 6000, "", true},
	{"a = <\"\" \"\">", "x", 400, "", false},
	{"a = <\"\" [ 'y' ] ^'z' 'x'>", "wx", 4000, "", true},
	{"a = \"ab\" | \"a\"\nb = \"b\" > { 'b' }", "ab", 10000, "", true},
	{"a = [ \"\" ]\nb = 'b'\nc = { EOF }", "b", 10000, "", true},
	{"a = { EOF } 'a'", "a", 10000, "", true},
	{"a = { 'a' EOF } ", "a", 300, "", false},
	{"w = \"a\" { 'b' } 'c'\nv = \"a\" { 'b' } 'd'", " abbbbc abbbbd", 3000, "", true},
	{"n = \"\" '0'-'9' { '0'-'9' }\nm = \"\" '0'-'9' { '0'-'9' } '.' { '0'-'9' }", " 12 345.6", 5000, "", true},
	{"a = [ 'a' ] [ 'b' ]", "ab", 10000, "c", false},
	{"s = \"x\" [ s ]\nt = s \"y\"", "x", 800, "y", true},
}

func fixedLongTexts(c *Case) {
	for _, lc := range longTexts {
		for _, div := range []int{8, 1} {
			text := repeat(lc.unit, lc.n/div) + lc.tail
			c.Set("grammar", lc.grammar)
			c.Set("text", fmt.Sprintf("%d times %q, then %q", lc.n/div, lc.unit, lc.tail))
			gr, err := xbnf.NewGrammarFromString(lc.grammar)
			if err != nil {
				c.Count("grammar refused", 1)
				continue
			}
			rec := newRec(text, 400*len(text)+20000)
			var ast *xbnf.AST
			if !c.Guard("parsing a long text", func() { ast, err = gr.EvalRaw(rec) }) {
				return
			}
			if (ast != nil) != lc.ok {
				c.Violate("match", "a long text: tree %v, error %s", ast != nil, clip(fmt.Sprint(err), 300))
				return
			}
			c.Count("long texts", 1)
			c.Count("chars in long texts", len(text))
			if div > 1 && ast != nil && len(text) < 4000 {
				if !c.Guard("simplifying a long tree", func() {
					ast.MergeStickyNodes()
					ast.RemoveVirtualNodes()
					ast.RemoveNonDataNodes()
					ast.RemoveRedundantNodes()
					ast.Text()
				}) {
					return
				}
			}
		}
	}
}

func fixedLongSearches(c *Case) {
	for _, lc := range []longCase{
		{"a = 'a'", "ba", 60000, "", true},
		{"a = 'ab'", "a", 60000, "b", true},
		{"a = { 'a' }", "b", 60000, "", true},
		{"a = [ 'x' ] [ 'y' ]", "z", 60000, "xy", true},
		{"a = EOF", "z", 40000, "", true},
		{"a = \"\"", "z", 40000, "", true},
		{"a = { 'a' } 'b'", "a", 1200, "", true},
		{"a = <'(' '\\\\' ')'>", "z(", 800, "", true},
		{"a = <'(' ')'>", "z(x)", 10000, "", true},
		{"a = <\"\" \"\">", "z", 10000, "", true},
		{"a = { { [ 'a' ] } | \"b\" }", "ac", 5000, "", true},
	} {
		text := repeat(lc.unit, lc.n) + lc.tail
		c.Set("grammar", lc.grammar)
		c.Set("text", fmt.Sprintf("%d times %q, then %q", lc.n, lc.unit, lc.tail))
		gr, err := xbnf.NewGrammarFromString(lc.grammar)
		if err != nil {
			c.Count("grammar refused", 1)
			continue
		}
		var r *xbnf.EvalResult
		if !c.Guard("searching a long text", func() { r = gr.EvalEmbed("a", text); gr.EvalRule("a", text) }) {
			return
		}
		if r.Node == nil {
			c.Violate("tiling", "no result: %v", r.Error)
			return
		}
		c.Count("long texts", 1)
		c.Count("chars in long texts", len(text))
	}
}

// ---- robustness

var notation = strings.Split("'a'|'b'|\"a\"|\"ab\"|''|\"\"|(|)|[|]|{|}|<|>|<|>|{|}|*|+|~|#|$|^|!|=|-|\\|\\u0041|\\u00|'\\u0042'|\"\\\\\"|'\\''|EOF|r0|r1|r2|_|//|/|,|<1,2>|<3>|<,2>|'a'-'z'|\\u0030-\\u0039|é|\x00|\xff|0|9| |\t|\n|\r\n|\u3000", "|")

func init() {
	notation = append(notation, "|", " | ", " > ", " = ", "r0 = ", "\nr1 = ", "\nr2 = ", "<'a' 'b'>", "<\"\" '\\\\' ^'x' 'b'!>")
}

// soup is text made of pieces of the notation
func (c *Case) soup(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(c.Rand, notation))
		if c.IntN(3) == 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func (c *Case) bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		switch c.IntN(4) {
		case 0:
			b[i] = byte(c.IntN(256))
		default:
			b[i] = byte(c.IntN(128))
		}
	}
	return string(b)
}

// damage changes bytes of a text
func (c *Case) damage(s string) string {
	b := []byte(s)
	for k := 1 + c.IntN(4); k > 0; k-- {
		if len(b) == 0 {
			return string(b)
		}
		i := c.IntN(len(b))
		switch c.IntN(8) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(c.IntN(256))
		case 2:
			b = b[:i:i]
		case 3, 4:
			b = append(b[:i:i], append([]byte(pick(c.Rand, notation)), b[i:]...)...)
		case 5:
			j := i + c.IntN(len(b)-i)
			b = append(b[:j:j], append([]byte(string(b[i:j])), b[j:]...)...)
		case 6:
			j := i + c.IntN(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 7:
			j := c.IntN(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return string(b)
}

// safeToRun tells, from the bytes of a grammar alone, that it cannot be left-recursive (nothing that may be a
// reference forms a cycle) and asks for no big repetition
func safeToRun(text string) bool {
	edges := map[string][]string{}
	product := 1
	for _, line := range strings.Split(text, "\n") {
		name, def, ok := strings.Cut(strings.TrimSpace(line), "=")
		if !ok {
			continue
		}
		name = strings.TrimSpace(name)
		for i := 0; i < len(def); {
			j := i
			for j < len(def) && isWord(def[j]) {
				j++
			}
			if j == i {
				i++
				continue
			}
			w := def[i:j]
			// every suffix, as e.g. in \u0041r1
			for k := range w {
				if !('0' <= w[k] && w[k] <= '9') {
					edges[name] = append(edges[name], w[k:])
				}
			}
			digits := strings.TrimFunc(w, func(c rune) bool { return c < '0' || c > '9' })
			if n, err := strconv.Atoi(digits); digits != "" && (err != nil || n > 1) && !strings.HasSuffix(def[:i], "\\") {
				if err != nil {
					return false
				}
				if product *= n; product > 300 || product < 0 {
					return false
				}
			}
			i = j
		}
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		if state[n] == 1 {
			return false
		}
		if state[n] == 2 {
			return true
		}
		state[n] = 1
		for _, m := range edges[n] {
			if !visit(m) {
				return false
			}
		}
		state[n] = 2
		return true
	}
	for n := range edges {
		if !visit(n) {
			return false
		}
	}
	return true
}

// useAll calls everything there is on a grammar and a text
func (c *Case) useAll(gr *xbnf.Grammar, names []string, text string, print bool) bool {
	c.Set("text", fmt.Sprintf("%q", clip(text, 3000)))
	limit := 3000*len(text) + 200000
	for lev := -1; lev <= 3; lev++ {
		var ast *xbnf.AST
		if !c.Guard("Eval", func() { ast, _ = gr.Eval(newRec(text, limit), lev) }) {
			return false
		}
		if ast != nil {
			c.Count("texts parsed", 1)
		}
		if !c.Guard("using the tree", func() {
			ast.CountNodes()
			ast.CountTokens()
			ast.CountStickyNodes()
			ast.Text()
			if print && ast != nil && !deep(ast.Nodes) {
				_ = ast.StringTree(nil)
				_ = ast.StringTree(&xbnf.NodeTreeConfig{PrintRuleType: true, PrintNonleafNodeText: true})
			}
			if ast != nil {
				ops := []func(){ast.MergeStickyNodes, ast.RemoveVirtualNodes, ast.RemoveNonDataNodes, ast.RemoveRedundantNodes}
				c.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
				for _, op := range ops {
					op()
				}
				ast.Text()
			}
		}) {
			return false
		}
	}
	for _, n := range names {
		rule := gr.GetRule(n)
		if rule == nil {
			continue
		}
		c.Set("rule", n)
		var res []*xbnf.EvalResult
		if !c.Guard("evaluating a rule", func() {
			res = append(res, gr.EvalRule(n, text), gr.EvalEmbed(n, text))
			for _, f := range []int{0, 1, 3, 2} {
				res = append(res, rule.Eval(gr, newRec(text, limit), f))
			}
		}) {
			return false
		}
		if !c.Guard("using a result", func() {
			for _, r := range res {
				if print && (r.Node == nil || !deep([]*xbnf.Node{r.Node})) {
					_ = r.StringTree(nil)
				}
				if r.Error != nil {
					_ = r.Error.Error()
				}
				r.MergeStickyNodes()
				if r.Node != nil {
					r.Node.RemoveVirtualNodes()
					r.Node.RemoveNonDataNodes()
					r.Node.RemoveRedundantNodes()
					r.Node.Text()
					r.Node.CountNodes()
					r.Node.CountTokens()
					if print && !deep([]*xbnf.Node{r.Node}) {
						_ = r.Node.StringTree(nil)
					}
				}
			}
		}) {
			return false
		}
		c.Count("rules evaluated", 1)
	}
	return true
}

// loadAny loads bytes as a grammar, on all paths, and prints what came of it
func (c *Case) loadAny(text string) *xbnf.Grammar {
	c.Set("grammar", fmt.Sprintf("%q", clip(text, 4000)))
	var gr *xbnf.Grammar
	var err error
	if !c.Guard("loading", func() {
		gr, err = xbnf.NewGrammarFromString(text)
		if err != nil {
			_ = err.Error()
		}
		one := xbnf.NewGrammar()
		one.AddRule(text)
		_, def, _ := strings.Cut(text, "=")
		one.ParseRule("x", def)
		one.ParseRule("y", text)
		one.ParseRule(def, text)
		one.Validate()
		if len(text) < 2000 {
			_ = one.Serialize(true)
		}
	}) {
		return nil
	}
	c.Count("byte strings loaded as grammar", 1)
	if err != nil {
		return nil
	}
	c.Count("grammars accepted", 1)
	if !c.Guard("printing", func() {
		if len(text) < 2000 {
			_ = gr.Serialize(true)
		}
		_ = gr.Serialize(false)
		_ = gr.StringRuleRelation("%s")
	}) {
		return nil
	}
	return gr
}

func (c *Case) robust() {
	cfg := loadCfg(c)
	cfg.MaxRules = 3
	cfg.Depth = 1 + c.IntN(2)
	if c.IntN(2) == 0 {
		cfg.W[KRef] = 0
	}
	g := gen(c, cfg)
	gr := g.grammar(-1)
	var text string
	l := &Layout{Rand: c.Rand}
	switch c.IntN(8) {
	case 0:
		text = c.soup(1 + c.IntN(30))
	case 1:
		text = "r0 = " + c.soup(1+c.IntN(10))
	case 2:
		text = c.bytes(c.IntN(60))
	case 3:
		text = "r0 = " + c.bytes(c.IntN(30))
	case 4:
		text, _ = l.file(gr)
	default:
		text, _ = l.file(gr)
		text = c.damage(text)
	}
	real := c.loadAny(text)
	if c.failed || real == nil {
		return
	}
	if !safeToRun(text) {
		c.Count("possibly recursive, not run", 1)
		return
	}
	for i := 0; i < 3; i++ {
		var x string
		switch c.IntN(5) {
		case 0:
			x = c.bytes(c.IntN(40))
		case 1:
			x = c.soup(c.IntN(8))
		case 2:
			x = c.damage(string(g.wholeText(gr, 10)))
		default:
			x = string(g.wholeText(gr, mixedWS(c)))
		}
		if len(x) > 200 {
			x = x[:200]
		}
		if !c.useAll(real, append([]string{"nosuch"}, gr.Names...), x, true) {
			return
		}
	}
	c.Seen(text)
	c.Sample(fmt.Sprintf("%q", text))
}

// fixedNesting loads deeply nested definitions and parses deeply nested texts
func fixedNesting(c *Case) {
	for _, depth := range []int{10, 100, 1000} {
		for _, p := range [][3]string{{"( ", "'a'", " )"}, {"[ ", "'a'", " ]"}, {"{ ", "'a'", " }"}, {"( 'a' | ", "'b'", " )"}, {"[ 'b' ", "'a'", " ]"}, {"~( $", "'a'", " )"}, {"<", "'a' 'b'", " 'c'>"}} {
			for _, unbalanced := range []int{0, 1, -1} {
				text := "r0 = " + repeat(p[0], depth) + p[1] + repeat(p[2], depth-unbalanced)
				if unbalanced < 0 {
					text = "r0 = " + repeat(p[0], depth)
				}
				gr := c.loadAny(text)
				if c.failed {
					return
				}
				if gr == nil || unbalanced != 0 || p[0] == "<" {
					continue
				}
				if strings.HasPrefix(p[0], "{") && depth > 10 {
					continue // many ways to match nothing: inherent cost
				}
				if !c.useAll(gr, []string{"r0"}, "aab", depth <= 100) {
					return
				}
				c.Count("nested grammars", 1)
			}
		}
		for _, p := range [][4]string{{"v = \"x\" | \"(\" v \")\"", "(", "x", ")"}, {"v = 'x' > '[' [ v ] ']'", "[", "", "]"}, {"v = \"a\" [ v ]\nt = v EOF", "a", "", ""}} {
			gr := c.loadAny(p[0])
			if c.failed {
				return
			}
			if gr == nil {
				continue
			}
			for _, unbalanced := range []int{0, 1} {
				text := repeat(p[1], depth) + p[2]
				if depth > unbalanced {
					text += repeat(p[3], depth-unbalanced)
				}
				if !c.useAll2(gr, text) {
					return
				}
				c.Count("nested texts", 1)
			}
		}
	}
	gr := c.loadAny(jsonGrammar().Text())
	if gr != nil {
		for _, depth := range []int{5, 9} {
			c.useAll2(gr, repeat("[", depth)+repeat("]", depth))
			c.useAll2(gr, repeat("{\"a\":", depth)+"1"+repeat("}", depth))
		}
	}
}

// useAll2 parses and simplifies without printing
func (c *Case) useAll2(gr *xbnf.Grammar, text string) bool {
	c.Set("text", fmt.Sprintf("%q", clip(text, 300)))
	for lev := -1; lev <= 2; lev++ {
		if !c.Guard("Eval", func() {
			ast, _ := gr.Eval(newRec(text, 3000*len(text)+100000), lev)
			ast.CountNodes()
		}) {
			return false
		}
	}
	return true
}

func fixedOddities(c *Case) {
	// grammars and texts of special sizes and bytes
	for _, t := range []string{"", " ", "\n", "\r\n", "=", "a=", "=a", "a = ", " = 'x'", "a = 'x'\x00", "a = '\x00'", "a = \"\xff\xfe\"", "a = '\xf0\x9f'", "\ufeffa = 'x'", "a = 'x' //", "//", "a\u2028=\u2028'x'\u2028",
		"a = \\uD800", "a = '\\uDFFF'", "a = \\uFFFF-\\u0000", "a = ' '-' '", "a = '\t'-'\\u3000'", "a = \\u000A", "a = '\\\\'", "a = '\\''", "a = \"\\\"\"", "a = { 'a' }<4294967295>", "a = { 'a' }<0,4294967295>", "a = { 'a' }<>",
		"a = <\"\" \"\" \"\">", "a = <[ 'a' ] [ 'b' ] ^[ 'c' ] [ 'd' ]>", "a = <EOF EOF>", "a = <'a' EOF>", "a = <\"\" ^EOF 'b'>", "a = <'a' EOF 'b'>", "a = <'a' EOF!>", "a = { EOF }", "a = [ EOF ] EOF", "a = EOF | 'x'", "a = EOF > EOF", "a = $EOF",
		"a = <<'(' ')'> <'[' ']'>>", "a = <'a' <'b' 'c'> ^<'d' 'e'> 'f'>"} {
		gr := c.loadAny(t)
		if c.failed {
			return
		}
		if gr == nil {
			continue
		}
		for _, x := range []string{"", " ", "x", "a", "\n", "\r\n", "\x00", "\xff", "\xff\xfe\xfd", "\xed\xa0\x80", "aXb", "abcdef", "  a  ", "(a)[b]", "\ufeff", "世界", "\u2028", "aaaaaaaaab", "axxEb\n\nc"} {
			if !c.useAll(gr, []string{"a", ""}, x, true) {
				return
			}
		}
	}
}

// ---- command line

type cliRun struct {
	args  []string
	texts []string // in the order they are parsed
}

func (c *Case) cli(args []string, dir string) (string, bool) {
	bin := os.Getenv("VERIF_CLI")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir}
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Violate("hang", "the tool does not end")
		return "", false
	}
	if err != nil {
		if _, is := err.(*exec.ExitError); !is {
			fmt.Fprintln(os.Stderr, "cannot run the tool:", err)
			os.Exit(3)
		}
	}
	if s := errOut.String(); strings.Contains(s, "panic:") || strings.Contains(s, "goroutine ") {
		c.Violate("panic", "the tool crashes: %s", clip(s, 3000))
		return "", false
	}
	c.Count("runs of the tool", 1)
	return out.String() + errOut.String(), true
}

const treeHeader = "Abstract Syntax Tree"

func printable(s string) bool {
	return !strings.Contains(s, "\x00") && !strings.Contains(s, treeHeader) && !strings.Contains(s, "ERROR")
}

func (c *Case) tool() {
	dir := filepath.Join(os.TempDir(), fmt.Sprintf("vx-cli-%d", os.Getpid()))
	os.RemoveAll(dir)
	if os.MkdirAll(dir, 0755) != nil {
		return
	}
	defer os.RemoveAll(dir)
	cfg := loadCfg(c)
	cfg.MinRules, cfg.MaxRules = 1, 5
	if c.IntN(2) == 0 {
		cfg.Annot = 40
	}
	gn := gen(c, cfg)
	var g *Grammar
	if c.IntN(10) == 0 {
		g, gn.Alpha = realGrammar(c.IntN(4))
	} else {
		g = gn.grammar(-1)
	}
	// the rules of the file must be closed
	inFile := map[string]bool{}
	mode := c.IntN(3) // file only, options only, both
	if mode != 1 {
		for _, n := range g.Names {
			inFile[n] = mode == 0 || c.IntN(2) == 0
		}
		for changed := true; changed; {
			changed = false
			for _, n := range g.Names {
				if !inFile[n] {
					continue
				}
				g.Rules[n].walk(func(r *Rule) {
					if r.K == KRef && g.Rules[r.Ref] != nil && !inFile[r.Ref] {
						inFile[r.Ref] = true
						changed = true
					}
				})
			}
		}
	}
	l := &Layout{Rand: c.Rand}
	sub := newGrammar()
	var args, ruleArgs []string
	var defs [][2]string
	for _, n := range g.Names {
		if inFile[n] {
			sub.Names = append(sub.Names, n)
			sub.Rules[n] = g.Rules[n]
		} else {
			def := g.Rules[n].String()
			defs = append(defs, [2]string{n, def})
			if strings.Contains(def, "\x00") {
				return
			}
			ruleArgs = append(ruleArgs, "-rule", n+" = "+def)
		}
	}
	fileText := ""
	ruleFile := filepath.Join(dir, "g.xbnf")
	useFile := len(sub.Names) > 0
	if useFile {
		fileText, _ = l.file(sub)
		os.WriteFile(ruleFile, []byte(fileText), 0644)
	}
	if !printable(fileText + strings.Join(ruleArgs, " ")) {
		return
	}
	// one fault, sometimes
	fault := ""
	switch c.IntN(12) {
	case 0:
		fault = "bad rule"
		i := c.IntN(len(ruleArgs)/2 + 1)
		bad := "zz = " + pick(c.Rand, badDefs)
		if c.IntN(3) == 0 {
			bad = pick(c.Rand, []string{"no equal sign", "9 = 'x'", "", "= 'x'"})
		}
		ruleArgs = append(ruleArgs[:2*i:2*i], append([]string{"-rule", bad}, ruleArgs[2*i:]...)...)
	case 1:
		fault = "undefined reference"
		ruleArgs = append(ruleArgs, "-rule", "zz = 'x' "+pick(c.Rand, []string{"nosuch", "undefined_1"}))
	case 2:
		fault = "second definition"
		n := pick(c.Rand, g.Names)
		ruleArgs = append(ruleArgs, "-rule", n+" = 'x'")
		if !inFile[n] && c.IntN(2) == 0 {
			fault = "second definition" // whichever comes first
		}
	case 3:
		fault = "bad file"
		useFile = true
		os.WriteFile(ruleFile, []byte(fileText+"\nzz = "+pick(c.Rand, badDefs)+"\n"), 0644)
	case 4:
		fault = "no file"
		useFile = true
		ruleFile = filepath.Join(dir, pick(c.Rand, []string{"missing.xbnf", "sub/missing", "."}))
	}
	if useFile {
		args = append(args, "-xbnf", ruleFile)
	}
	args = append(args, ruleArgs...)
	types := c.IntN(3) == 0
	if types {
		args = append(args, "-showNodeType")
	}
	var textArgs, fileArgs, texts, ftexts []string
	k := 1 + c.IntN(4)
	if c.IntN(12) == 0 {
		k = 9 + c.IntN(40)
	}
	for ; k > 0; k-- {
		var x string
		var ok bool
		for try := 0; try < 6; try++ { // mostly texts that parse
			var res ParseRes
			x = string(gn.wholeText(g, mixedWS(c)))
			if _, res, ok = modelParse(g, []rune(x), false, modelBudget); ok && (res.OK || c.IntN(5) == 0) {
				break
			}
		}
		if ok && c.IntN(k+8) == 0 { // odd things around the text
			odd := pick(c.Rand, []string{"\ufeff", "\r\n", "\n", "\x1a", "\u00a0", " ", "\t", "#", "//", "-", "%", "%s", "%d%v", "\x00", "\\n", "\"", "'", "\r", "@", ",", "=", "\xff", "\xe4\xb8"})
			if c.IntN(2) == 0 {
				x = odd + x
			} else {
				x += odd
			}
		}
		if !ok || strings.Contains(x, treeHeader) || strings.Contains(x, "ERROR") {
			continue
		}
		if c.IntN(3) == 0 || strings.Contains(x, "\x00") {
			f := filepath.Join(dir, fmt.Sprintf("t%d.txt", k))
			if c.IntN(25) == 0 {
				f = filepath.Join(dir, "missing.txt")
				ftexts = append(ftexts, "\x00missing")
			} else {
				os.WriteFile(f, []byte(x), 0644)
				ftexts = append(ftexts, x)
			}
			fileArgs = append(fileArgs, "-file", f)
		} else {
			textArgs = append(textArgs, "-text", x)
			texts = append(texts, x)
		}
	}
	texts = append(texts, ftexts...)
	args = append(args, textArgs...)
	args = append(args, fileArgs...)
	c.Set("grammar", fmt.Sprintf("file: %q", fileText))
	c.Set("args", fmt.Sprintf("%q", args))
	c.Set("fault", fault)
	out, ok := c.cli(args, dir)
	if !ok {
		return
	}
	got := strings.Count(out, treeHeader)
	if fault != "" {
		c.Count("faulty command lines", 1)
		if !strings.Contains(out, "ERROR") || got > 0 {
			c.Violate("fault", "%s: error reported: %v, trees printed: %d\n%s", fault, strings.Contains(out, "ERROR"), got, clip(out, 3000))
		}
		return
	}
	// what the library computes
	var lib *xbnf.Grammar
	var err error
	if !c.Guard("library", func() {
		if useFile {
			lib, err = xbnf.NewGrammarFromString(fileText)
		} else {
			lib = xbnf.NewGrammar()
		}
		for _, d := range defs {
			if err == nil {
				_, err = lib.ParseRule(d[0], d[1])
			}
		}
		if err == nil {
			err = lib.Validate()
		}
	}) {
		return
	}
	if err != nil {
		c.Count("grammar refused", 1)
		return
	}
	conf := xbnf.DefaultNodeTreeConfig()
	conf.PrintRuleType = types
	rest := out
	want := 0
	for i, x := range texts {
		var tree, msg string
		stable := true
		if x == "\x00missing" {
			msg, stable = "?", false
		} else if !c.Guard("library", func() {
			for k := 0; k < 3; k++ {
				ast, err := lib.Eval(xbnf.NewCharstreamFromString(x), xbnf.LevelBasic)
				if err != nil {
					if k > 0 && err.Error() != msg {
						stable = false
					}
					msg = err.Error()
					continue
				}
				if k > 0 {
					break
				}
				ast.RemoveVirtualNodes()
				ast.RemoveNonDataNodes()
				ast.RemoveRedundantNodes()
				tree = ast.StringTree(conf)
			}
		}) {
			return
		}
		if len(g.roots()) > 1 {
			stable = false
		}
		c.Set("text", fmt.Sprintf("%q", x))
		if tree != "" {
			want++
			j := strings.Index(rest, tree+"\n")
			if j < 0 {
				c.Violate("tree", "text %d: the tool does not print the tree\n%s\nbut\n%s", i, tree, clip(out, 4000))
				return
			}
			if strings.Contains(rest[:j], "ERROR") {
				c.Violate("tree", "text %d: an error is reported: %s", i, clip(rest[:j], 3000))
				return
			}
			rest = rest[j+len(tree):]
			c.Count("trees compared", 1)
			continue
		}
		// an error: reported, and nothing is parsed any more
		if !strings.Contains(rest, "ERROR") || (stable && !strings.Contains(rest, msg)) {
			c.Violate("error", "text %d: the library says %q, the tool\n%s", i, msg, clip(out, 4000))
			return
		}
		c.Count("errors compared", 1)
		rest = ""
		break
	}
	if strings.Contains(rest, "ERROR") {
		c.Violate("error", "an error is reported where the library finds none: %s", clip(rest, 3000))
		return
	}
	if got != want {
		c.Violate("tree", "%d trees printed instead of %d:\n%s", got, want, clip(out, 4000))
		return
	}
	if want > 0 {
		c.Seen(strings.Join(args, "\x00"), fileText)
		c.Sample(c.Detail["args"])
	}
}

func manyArgs(opt, val string, n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, opt, val)
	}
	return
}

func manyRules(n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, "-rule", fmt.Sprintf("r%d = \"k%d\" | \"k%d \"", i, i, i))
	}
	return
}

func fixedTool(c *Case) {
	dir := filepath.Join(os.TempDir(), fmt.Sprintf("vx-cli-%d", os.Getpid()))
	os.RemoveAll(dir)
	if os.MkdirAll(dir, 0755) != nil {
		return
	}
	defer os.RemoveAll(dir)
	f := func(name, text string) string {
		p := filepath.Join(dir, name)
		os.WriteFile(p, []byte(text), 0644)
		return p
	}
	good := f("g.xbnf", "a = b 'y'\nb = \"x\"\n")
	bad := f("bad.xbnf", "a = ( 'x'\n")
	open := f("open.xbnf", "a = nosuch\n")
	empty := f("empty.xbnf", "")
	txt := f("t.txt", "x y")
	type run struct {
		args  []string
		trees int
		err   bool
	}
	for _, r := range []run{
		{[]string{"-text", "x"}, 0, true},
		{[]string{"-file", txt}, 0, true},
		{[]string{"-xbnf", good, "-text", "xy"}, 1, false},
		{[]string{"-xbnf", good, "-text", "xy", "-text", "xyxy", "-file", txt}, 3, false},
		{[]string{"-xbnf", good, "-text", "xy", "-text", "xyxy"}, 2, false},
		{[]string{"-xbnf", good, "-text", "xz", "-text", "xy"}, 0, true},
		{[]string{"-xbnf", good, "-text", ""}, 0, true},
		{[]string{"-xbnf", good, "-rule", "c = a 'z'", "-text", "xyz"}, 1, false},
		{[]string{"-xbnf", good, "-rule", "c = 'z'", "-text", "xyz", "-text", "zxy"}, 2, false},
		{[]string{"-rule", "a = 'x'", "-text", "x"}, 1, false},
		{[]string{"-rule", "a = b", "-rule", "b = 'x'", "-text", "x"}, 1, false},
		{[]string{"-rule", "a = b", "-text", "x"}, 0, true},
		{[]string{"-rule", "a = 'x'", "-rule", "a = 'y'", "-text", "x"}, 0, true},
		{[]string{"-rule", "a 'x'", "-text", "x"}, 0, true},
		{[]string{"-xbnf", good, "-rule", "b = 'y'", "-text", "xy"}, 0, true},
		{[]string{"-xbnf", bad, "-text", "x"}, 0, true},
		{[]string{"-xbnf", open, "-text", "x"}, 0, true},
		{[]string{"-xbnf", empty, "-text", "x"}, 0, true},
		{[]string{"-xbnf", empty, "-rule", "a = 'x'", "-text", "x"}, 1, false},
		{[]string{"-xbnf", filepath.Join(dir, "nosuch"), "-rule", "a = 'x'", "-text", "x"}, 0, true},
		{[]string{"-xbnf", dir, "-rule", "a = 'x'", "-text", "x"}, 0, true},
		{[]string{"-xbnf", good, "-file", filepath.Join(dir, "nosuch")}, 0, true},
		{[]string{"-xbnf", good, "-text", "xy", "-file", dir}, 1, true},
		{[]string{"-rule", "a = [ 'x' ]", "-text", "", "-file", f("none.txt", "")}, 0, true},
		{[]string{"-rule", "a = [ 'x' ]", "-text", "x", "-file", filepath.Join(dir, "nosuch"), "-file", txt}, 1, true},
		{[]string{"-rule", "a = [ 'x' ]", "-file", dir}, 0, true},
		{[]string{"-rule", "a = 'x'", "-text", "x", "-help"}, 0, false},
		{[]string{"-rule", "a = 'x'"}, 0, false},
		{[]string{"-rule", "a = 'x' { 'y' } 'z'", "-file", f("long.txt", "x"+repeat("y", 70000)+"z")}, 1, false},
		{[]string{"-rule", "a = 'x' { 'y' } 'z'", "-text", "x" + repeat("y", 70000) + "z"}, 1, false},
		{[]string{"-rule", "a = 'x' { 'y' } 'z'", "-file", f("long2.txt", "x"+repeat("y", 70000))}, 0, true},
		{[]string{"-rule", "a = '" + repeat("x", 70000) + "'", "-text", repeat("x", 70000)}, 1, false},
		{append([]string{"-rule", "a = 'x'"}, manyArgs("-text", "x", 300)...), 300, false},
		{append(manyRules(300), "-text", "k0 k299"), 1, false},
		{append(append(manyRules(300), "-rule", "k"), "-text", "k0 k299"), 0, true},
		{append([]string{"-xbnf", f("lines.xbnf", strings.Repeat("// 世界\n\n", 20000)+"a = 'x'\n// x")}, manyArgs("-file", f("x.txt", "x"), 100)...), 100, false},
		{[]string{"-rule", "a = 'x'", "-text", "x", "-file", f("nl.txt", "x\n")}, 1, true},
		{[]string{"-rule", "a = \"x\"", "-file", f("nl2.txt", "\nx\nx\n")}, 0, true},
		{[]string{"-rule", "a = \"x\"", "-file", f("nl3.txt", "\nx\nx")}, 1, false},
	} {
		c.Set("args", clip(fmt.Sprintf("%q", r.args), 2000))
		out, ok := c.cli(r.args, dir)
		if !ok {
			return
		}
		if got := strings.Count(out, treeHeader); got != r.trees || strings.Contains(out, "ERROR") != r.err {
			c.Violate("tree", "%d trees instead of %d, error reported: %v\n%s", got, r.trees, strings.Contains(out, "ERROR"), out)
			return
		}
	}
}

func init() {
	register(&Check{
		ID: "C09", Quick: 96000, Thorough: 900000,
		Rule:  "Random grammars without left recursion in which options, repetitions, empty strings, EOF and blocks of such parts are frequent, so that much can match nothing; rules are evaluated, texts parsed and searched on a stream that counts operations and stops the call when they exceed an allowance proportional to the steps the model needs; a watchdog on CPU time ends what loops without using the stream. Fixed cases do the same with long texts and an allowance linear in their length. Non-trivial: something matched; distinct grammars are counted.",
		Need:  map[string]int{"nullable rules": 20000, "rule evaluations": 5000, "whole texts": 5000, "searches": 5000, "long texts": 30, "repetitions ended by an empty match": 1000},
		Fixed: []func(*Case){fixedLongTexts, fixedLongSearches},
		Random: func(c *Case) {
			c.terminates()
		},
		Assume: []string{"a call that uses 30 s of CPU time, and again 60 s when repeated alone, on a case of this size does not end"},
	})
	register(&Check{
		ID: "C17", Quick: 75000, Thorough: 1200000,
		Rule:  "Well-formed grammars in random layouts, damaged ones, pieces of the notation in random order and random bytes (NUL, invalid UTF-8) are loaded on all paths and printed; those that load and cannot be recursive, judging by their bytes, parse and search random, damaged and matching texts at all levels, and the trees are printed, counted and simplified in random order; fixed cases add deep nesting and odd inputs. A panic, a fatal error of the process, more than 3 GB of memory, too many stream operations or too much CPU time is a violation. Non-trivial: the grammar loaded and was run; distinct grammar texts are counted.",
		Need:  map[string]int{"byte strings loaded as grammar": 20000, "grammars accepted": 3000, "rules evaluated": 5000, "texts parsed": 1000, "nested grammars": 10, "nested texts": 10},
		Fixed: []func(*Case){fixedNesting, fixedOddities, fixedLongTexts, fixedLongSearches},
		Random: func(c *Case) {
			c.robust()
		},
	})
	register(&Check{
		ID: "C25", Quick: 27000, Thorough: 250000,
		Rule:  "The tool is built from the tree and run with random grammars split between a rule file and -rule options, texts given with -text and in files, with and without -showNodeType; for each text its output must contain, in order, the tree the library computes, up to the first text the library refuses, which it must report; command lines with one fault (bad rule, bad or missing file, open reference, second definition) must report an error and print no tree. Non-trivial: a tree was compared; distinct command lines are counted.",
		Need:  map[string]int{"runs of the tool": 1000, "trees compared": 500, "errors compared": 100, "faulty command lines": 100},
		Fixed: []func(*Case){fixedTool},
		Random: func(c *Case) {
			c.tool()
		},
	})
}
