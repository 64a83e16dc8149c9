package main

import (
	"fmt"
	"strings"

	"github.com/cnsgfk/xbnf"
)

// Cases that do one thing very often with one grammar, one tree or one stream: what a call gives must not depend on
// how often it, or another, was made before.

const usesGrammar = `// uses
s = { item [ ',' ] }<1,0> EOF
item = num | word | ( '(' ~word ')' ) | str
num = { '0'-'9' }<1,0>
word = $( { 'a'-'z' }<1,0> )
str = < '"' '\\' '"' >
hidden = #"hid" ~'x' | "hid" > 'y'
`

type usedCall struct {
	what string
	do   func(gr *xbnf.Grammar) string
}

func resultText(r *xbnf.EvalResult) string {
	if r == nil {
		return "nil result"
	}
	s := fmt.Sprintf("%v %q %q %v", r.Error != nil, string(r.CharsRead), string(r.CharsUnused), r.Sticky)
	if r.Node != nil {
		s += dump(fromReal(r.Node))
	}
	return s
}

func treeTextOf(ast *xbnf.AST, err error) string {
	if err != nil {
		return "error"
	}
	return dumpAll(fromRealAll(ast.Nodes)) + string(ast.Text()) + ast.StringTree(xbnf.DefaultNodeTreeConfig())
}

func usedCalls() (calls []usedCall) {
	add := func(what string, do func(gr *xbnf.Grammar) string) { calls = append(calls, usedCall{what, do}) }
	str := xbnf.NewCharstreamFromString
	for _, x := range []string{"1,ab (c)", "1 +", "\"a\\\"b\" 2", "", " ", "(c", "hidx", "12"} {
		x := x
		add("raw parse of "+x, func(gr *xbnf.Grammar) string { ast, err := gr.EvalRaw(str(x)); return treeTextOf(ast, err) })
		add("parse of "+x, func(gr *xbnf.Grammar) string {
			ast, err := gr.Eval(str(x), 1)
			return treeTextOf(ast, err)
		})
		add("evaluation of item on "+x, func(gr *xbnf.Grammar) string { return resultText(gr.EvalRule("item", x)) })
		add("search for item in "+x, func(gr *xbnf.Grammar) string { return resultText(gr.EvalEmbed("item", x)) })
	}
	add("evaluation of an undefined rule", func(gr *xbnf.Grammar) string { return resultText(gr.EvalRule("nosuch", "a")) })
	add("listing", func(gr *xbnf.Grammar) string { return normal(gr.Serialize(true)) + normal(gr.Serialize(false)) })
	add("relation", func(gr *xbnf.Grammar) string { return normalRelation(gr) })
	add("validation", func(gr *xbnf.Grammar) string { return fmt.Sprint(gr.Validate()) })
	add("rules", func(gr *xbnf.Grammar) string {
		s := ""
		for _, n := range []string{"s", "item", "num", "word", "str", "hidden", "nosuch"} {
			rec, r := gr.GetRecord(n), gr.GetRule(n)
			if rec == nil || r == nil {
				s += fmt.Sprint(n, rec == nil, r == nil, "\n")
				continue
			}
			s += n + r.String() + fmt.Sprint(rec.Rule() == r, r.Name()) + "\n"
		}
		return s
	})
	return
}

// usesOf makes one call n times in a row on one grammar
func usesOf(n int, k int) func(*Case) {
	return func(c *Case) {
		calls := usedCalls()
		gr, err := xbnf.NewGrammarFromString(usesGrammar)
		if err != nil {
			c.Violate("load", "a well-formed grammar is refused: %v", err)
			return
		}
		c.Set("grammar", usesGrammar)
		want := make([]string, len(calls))
		c.Guard("first calls", func() {
			for i, call := range calls {
				fresh, _ := xbnf.NewGrammarFromString(usesGrammar)
				want[i] = call.do(fresh)
			}
		})
		if c.failed {
			return
		}
		call := calls[k%len(calls)]
		c.Set("call", call.what)
		c.Guard("calls", func() {
			for i := 1; i <= n; i++ {
				if got := call.do(gr); got != want[k%len(calls)] {
					c.Violate("uses", "call %d of the same on one grammar gives\n%s\ninstead of\n%s", i, clip(got, 1500), clip(want[k%len(calls)], 1500))
					return
				}
			}
			// and the others are as they were
			for i, call := range calls {
				if got := call.do(gr); got != want[i] {
					c.Set("call", call.what)
					c.Violate("uses", "after %d calls (%s) on the grammar, the call gives\n%s\ninstead of\n%s", n, calls[k%len(calls)].what, clip(got, 1500), clip(want[i], 1500))
					return
				}
			}
		})
		c.Count("repeated calls", n)
		c.Seen("uses", call.what, fmt.Sprint(n))
	}
}

// manyKept makes all calls in turn, n in all, and keeps the trees
func manyKept(n int) func(*Case) {
	return func(c *Case) {
		gr, err := xbnf.NewGrammarFromString(usesGrammar)
		if err != nil {
			c.Violate("load", "a well-formed grammar is refused: %v", err)
			return
		}
		c.Set("grammar", usesGrammar)
		c.Guard("calls", func() {
			var kept []*xbnf.AST
			var found []*xbnf.EvalResult
			var texts, founds []string
			for i := 0; i < n; i++ {
				x := []string{"1,ab (c)", "\"a\\\"b\" 2", "12", fmt.Sprintf("%d,x", i)}[i%4]
				ast, err := gr.Eval(xbnf.NewCharstreamFromString(x), xbnf.LevelRaw)
				if err != nil {
					c.Violate("uses", "parse %d with one grammar, of %q, fails: %v", i, x, err)
					return
				}
				if i%3 == 0 {
					ast.MergeStickyNodes()
				}
				kept = append(kept, ast)
				texts = append(texts, dumpAll(fromRealAll(ast.Nodes)))
				r := gr.EvalEmbed("item", "+ "+x)
				found = append(found, r)
				founds = append(founds, resultText(r))
			}
			for i, ast := range kept {
				if got := dumpAll(fromRealAll(ast.Nodes)); got != texts[i] {
					c.Violate("uses", "tree %d of %d has become\n%s\nfrom\n%s", i, n, clip(got, 1500), clip(texts[i], 1500))
					return
				}
				if got := resultText(found[i]); got != founds[i] {
					c.Violate("uses", "search result %d of %d has become\n%s\nfrom\n%s", i, n, clip(got, 1500), clip(founds[i], 1500))
					return
				}
			}
		})
		c.Count("repeated calls", 2*n)
		c.Seen("kept", fmt.Sprint(n))
	}
}

// usesOfTree asks one tree n times for everything, and simplifies it n times
func usesOfTree(n int) func(*Case) {
	return func(c *Case) {
		gr, err := xbnf.NewGrammarFromString(usesGrammar)
		if err != nil {
			c.Violate("load", "a well-formed grammar is refused: %v", err)
			return
		}
		c.Guard("calls", func() {
			ast, err := gr.EvalRaw(xbnf.NewCharstreamFromString("1,ab (c) \"d\\\"e\""))
			if err != nil {
				c.Violate("uses", "no tree: %v", err)
				return
			}
			conf := xbnf.DefaultNodeTreeConfig()
			all := func() string {
				s := string(ast.Text()) + "|" + ast.StringTree(conf) + fmt.Sprint(ast.CountNodes(), ast.CountTokens())
				for _, r := range ast.Nodes {
					s += string(r.Text()) + r.StringTree(conf) + fmt.Sprint(r.CountNodes(), r.CountTokens())
				}
				return s
			}
			steps := []struct {
				what string
				do   func()
			}{{"asking", func() {}}, {"merging", ast.MergeStickyNodes}, {"removing virtual nodes", ast.RemoveVirtualNodes}, {"removing non-data nodes", ast.RemoveNonDataNodes}, {"removing redundant nodes", ast.RemoveRedundantNodes}}
			for _, s := range steps {
				want, tree := "", ""
				for i := 0; i <= n; i++ {
					s.do()
					got := all()
					if i == 0 { // the first time it may change
						want, tree = got, dumpAll(fromRealAll(ast.Nodes))
					} else if got != want {
						c.Violate("uses", "%s, time %d, gives\n%s\ninstead of\n%s", s.what, i+1, clip(got, 1500), clip(want, 1500))
						return
					}
				}
				if got := dumpAll(fromRealAll(ast.Nodes)); got != tree {
					c.Violate("uses", "%s, %d times, has changed the tree to\n%s\nfrom\n%s", s.what, n, clip(got, 1500), clip(tree, 1500))
					return
				}
				c.Count("repeated calls", n)
			}
		})
		c.Seen("tree", fmt.Sprint(n))
	}
}

// usesOfAdding adds n rules and n bad ones to one grammar, which is used in between
func usesOfAdding(n int) func(*Case) {
	return func(c *Case) {
		c.Guard("calls", func() {
			gr := xbnf.NewGrammar()
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("n%d", i)
				bad := []string{name + " = ( 'a'", "= 'x'", name, name + " = 'x' )", "n0 = 'y'"}[i%5]
				if i > 0 || i%5 != 4 {
					if r, err := gr.AddRule(bad); (err == nil || r != nil) && !(i == 0 && i%5 == 4) {
						c.Violate("uses", "after %d rules, %q is accepted: %v", i, bad, err)
						return
					}
				}
				def := fmt.Sprintf("%s = \"w%dx\" [ n%d ]", name, i, i/2)
				if i == 0 {
					def = "n0 = \"w0x\""
				}
				r, err := gr.AddRule(def)
				if err != nil || r == nil {
					c.Violate("uses", "after %d rules, %q is refused: %v", i, def, err)
					return
				}
				if i%50 == 0 || i == n-1 || (i >= 250 && i < 260) {
					if err := gr.Validate(); err != nil {
						c.Violate("uses", "after %d rules, the grammar is refused: %v", i+1, err)
						return
					}
					x := fmt.Sprintf("w%dx", i)
					want := x
					if i > 0 {
						x += fmt.Sprintf(" w%dx", i/2)
						want = x
					}
					res := gr.EvalRule(name, x)
					if res == nil || res.Node == nil || strings.Join(strings.Fields(string(res.Node.Text())), " ") != want {
						c.Violate("uses", "after %d rules, %s does not match %q: %s", i+1, name, x, resultText(res))
						return
					}
					for k := 0; k <= i; k += 1 + i/7 {
						rec := gr.GetRecord(fmt.Sprintf("n%d", k))
						if rec == nil || !strings.Contains(rec.Rule().String(), fmt.Sprintf("w%dx", k)) {
							c.Violate("uses", "after %d rules, rule n%d is not as defined: %v", i+1, k, rec)
							return
						}
					}
				}
			}
			c.Count("repeated calls", 2*n)
		})
		c.Seen("adding", fmt.Sprint(n))
	}
}

// usesOfLoading loads n grammars and uses one loaded before in between
func usesOfLoading(n int) func(*Case) {
	return func(c *Case) {
		c.Guard("calls", func() {
			first, err := xbnf.NewGrammarFromString(usesGrammar)
			if err != nil {
				c.Violate("load", "a well-formed grammar is refused: %v", err)
				return
			}
			calls := usedCalls()
			var want []string
			for _, call := range calls {
				want = append(want, call.do(first))
			}
			for i := 0; i < n; i++ {
				text := usesGrammar
				if i%3 == 1 {
					text = "s = item ( 'x' )\nitem = 'a' | \"b\"\nnum = 'q'\n"
				} else if i%3 == 2 {
					text = "s = item ( 'x'\n"
				}
				gr, err := xbnf.NewGrammarFromString(text)
				if (err != nil) != (i%3 == 2) || (gr == nil) != (i%3 == 2) {
					c.Violate("uses", "load %d: %v", i, err)
					return
				}
				k := i % len(calls)
				if i%3 == 0 {
					if got := calls[k].do(gr); got != want[k] {
						c.Violate("uses", "grammar %d loaded from the same text: %s gives\n%s\ninstead of\n%s", i, calls[k].what, clip(got, 1500), clip(want[k], 1500))
						return
					}
				}
				if got := calls[k].do(first); got != want[k] {
					c.Violate("uses", "after %d more grammars, %s gives\n%s\ninstead of\n%s", i, calls[k].what, clip(got, 1500), clip(want[k], 1500))
					return
				}
			}
			c.Count("repeated calls", n)
		})
		c.Seen("loading", fmt.Sprint(n))
	}
}

func init() {
	usesFixed = func() {
		app := func(id string, fs ...func(*Case)) { checks[id].Fixed = append(checks[id].Fixed, fs...) }
		for k := range usedCalls() {
			app("C08", usesOf(5000, k))
			app("C26", usesOf(1100, k))
		}
		for _, k := range []int{0, 1, 2, 3} {
			app("C08", usesOf(70000, k))
		}
		app("C26", manyKept(5000), usesOfTree(5000))
		app("C27", usesOfTree(1100))
		app("C16", usesOfAdding(1100))
		app("C08", usesOfLoading(5000))
		app("C15", usesOfLoading(1100))
	}
}

var usesFixed func()
