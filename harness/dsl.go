package main

// short constructors of rules

func ch(c rune) *Rule      { return &Rule{K: KChar, T: []rune{c}} }
func str(s string) *Rule   { return &Rule{K: KStr, T: []rune(s)} }
func rng(a, b rune) *Rule  { return &Rule{K: KRange, Lo: a, Hi: b} }
func ref(n string) *Rule   { return &Rule{K: KRef, Ref: n} }
func eof() *Rule           { return &Rule{K: KEOF} }
func seq(k ...*Rule) *Rule { return &Rule{K: KConcat, Kids: k} }
func grp(k *Rule) *Rule    { return &Rule{K: KGroup, Kids: []*Rule{k}} }
func opt(k *Rule) *Rule    { return &Rule{K: KOpt, Kids: []*Rule{k}} }
func alt(k ...*Rule) *Rule { return choice(k) }
func choice(g ...[]*Rule) *Rule {
	r := &Rule{K: KChoice, Groups: g}
	for _, gr := range g {
		for i, k := range gr {
			if k.K == KConcat || k.K == KChoice {
				gr[i] = grp(k)
			}
		}
	}
	return r
}
func rep(min, max int, k *Rule) *Rule { return &Rule{K: KRep, Min: min, Max: max, Kids: []*Rule{k}} }
func chars(s string) *Rule {
	t := []rune(s)
	if len(t) == 1 {
		return &Rule{K: KChar, T: t}
	}
	return &Rule{K: KChars, T: t}
}
func nond(r *Rule) *Rule { r.Nond = true; return r }
func virt(r *Rule) *Rule { r.Virt = true; return r }
func tok(r *Rule) *Rule  { r.Tok = true; return r }
