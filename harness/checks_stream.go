package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/cnsgfk/xbnf"
)

// ---- one operation on a stream

type opKind int

const (
	opNext opKind = iota
	opPeek
	opMatch
	opSkip
	opCursor
	opPosition
	opLookup
	numOps
)

var opNames = [...]string{"Next", "Peek", "Match", "SkipSpaces", "Cursor", "Position", "PositionLookup"}

type sOp struct {
	Kind opKind
	Arg  []rune // Match
	Idx  int    // PositionLookup
}

type sOut struct {
	R         rune
	Chars     []rune
	OK        bool
	N         int
	Line, Col int // 0,0 for nil
}

func (o sOp) String() string {
	switch o.Kind {
	case opMatch:
		return fmt.Sprintf("Match(%q)", string(o.Arg))
	case opLookup:
		return fmt.Sprintf("PositionLookup(%d)", o.Idx)
	}
	return opNames[o.Kind] + "()"
}

func (o sOp) show(r sOut) string {
	switch o.Kind {
	case opNext, opPeek:
		return fmt.Sprintf("%s = %q(%d)", o, r.R, r.R)
	case opMatch:
		return fmt.Sprintf("%s = %q, %v", o, string(r.Chars), r.OK)
	case opSkip:
		return fmt.Sprintf("%s = %q", o, string(r.Chars))
	case opCursor:
		return fmt.Sprintf("%s = %d", o, r.N)
	}
	return fmt.Sprintf("%s = %d:%d", o, r.Line, r.Col)
}

func doOp(s xbnf.ICharstream, o sOp) (r sOut) {
	pos := func(p *xbnf.Position) {
		if p != nil {
			r.Line, r.Col = p.Line, p.Col
		}
	}
	switch o.Kind {
	case opNext:
		r.R = s.Next()
	case opPeek:
		r.R = s.Peek()
	case opMatch:
		r.Chars, r.OK = s.Match(o.Arg)
	case opSkip:
		r.Chars = s.SkipSpaces()
	case opCursor:
		r.N = s.Cursor()
	case opPosition:
		pos(s.Position())
	case opLookup:
		pos(s.PositionLookup(o.Idx))
	}
	return
}

// stepOp is the sequential specification of a stream: may op, at this cursor, have given this result? It returns the
// cursor afterwards.
func stepOp(x []rune, lines [][2]int, cur int, o sOp, r sOut) (bool, int) {
	n := len(x)
	switch o.Kind {
	case opNext, opPeek:
		if cur >= n {
			return r.R == -1, cur
		}
		if r.R != x[cur] {
			return false, cur
		}
		if o.Kind == opNext {
			cur++
		}
		return true, cur
	case opMatch:
		k := len(r.Chars)
		if cur+k > n || !sameRunes(r.Chars, x[cur:cur+k]) {
			return false, cur
		}
		is := cur+len(o.Arg) <= n && sameRunes(o.Arg, x[cur:cur+len(o.Arg)])
		if r.OK != is || (is && k != len(o.Arg)) || k > len(o.Arg) {
			return false, cur
		}
		return true, cur + k
	case opSkip:
		e := cur
		for e < n && isWS(x[e]) {
			e++
		}
		return sameRunes(r.Chars, x[cur:e]), e
	case opCursor:
		return r.N == cur, cur
	case opPosition:
		if cur >= n {
			return r.Line == 0 && r.Col == 0, cur
		}
		return r.Line == lines[cur][0] && r.Col == lines[cur][1], cur
	case opLookup:
		if o.Idx < 0 {
			return r.Line == 0 && r.Col == 0, cur
		}
		if r.Line == 0 && r.Col == 0 {
			return o.Idx >= cur, cur
		}
		if o.Idx >= n {
			return o.Idx == 0 && r.Line == 1 && r.Col == 1, cur
		}
		return r.Line == lines[o.Idx][0] && r.Col == lines[o.Idx][1], cur
	}
	return false, cur
}

func allLines(x []rune) [][2]int {
	res := make([][2]int, len(x)+1)
	line, col := 1, 1
	for i, c := range x {
		res[i] = [2]int{line, col}
		if c == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
	}
	res[len(x)] = [2]int{line, col}
	return res
}

func (c *Case) streamText() []rune {
	n := []int{0, 1, 3, 8, 20, 60, 200}[c.IntN(7)]
	if n > 1 {
		n = 1 + c.IntN(n)
	}
	ws := []int{0, 20, 50, 90}[c.IntN(4)]
	nl := []int{0, 10, 40, 90}[c.IntN(4)]
	alpha := [][]rune{alphaTiny, alphaMid, alphaUni, alphaOdd, alphaASCII, twoOf(c.Rand, alphaOdd)}[c.IntN(6)]
	x := make([]rune, n)
	for i := range x {
		switch {
		case c.IntN(100) < ws && c.IntN(100) < nl:
			x[i] = '\n'
		case c.IntN(100) < ws:
			x[i] = pick(c.Rand, allWS)
		default:
			x[i] = pick(c.Rand, alpha)
		}
	}
	if n > 0 && c.IntN(3) == 0 { // an odd one at an end
		x[[]int{0, n - 1}[c.IntN(2)]] = pick(c.Rand, alphaOdd)
	}
	return x
}

func (c *Case) streamOp(x []rune, cur int) sOp {
	o := sOp{Kind: opKind(c.IntN(int(numOps)))}
	switch o.Kind {
	case opMatch:
		if cur > len(x) {
			cur = len(x)
		}
		rest := x[cur:]
		k := 0
		if len(rest) > 0 {
			k = c.IntN(min(len(rest), 6) + 1)
		}
		o.Arg = append([]rune{}, rest[:k]...)
		switch c.IntN(4) {
		case 0: // something else at some place
			if k > 0 {
				o.Arg[c.IntN(k)] = pick(c.Rand, alphaMid)
			}
		case 1: // something more
			o.Arg = append(o.Arg, pick(c.Rand, alphaTiny))
		}
	case opLookup:
		switch c.IntN(4) {
		case 0:
			o.Idx = c.IntN(len(x)+8) - 3
		case 1:
			o.Idx = cur + c.IntN(5) - 2
		default:
			if cur > 0 {
				o.Idx = c.IntN(cur)
			}
		}
	}
	return o
}

func init() {
	register(&Check{
		ID: "C11", Quick: 480000, Thorough: 3000000,
		Rule: "Random operation histories (reads, peeks, matches that succeed, fail early or late, whitespace skips, cursor, position and position lookups) on plain streams and on streams with already read chars put back in front, nested up to 4 deep; each result is judged by a sequential specification: a text with a cursor. Non-trivial: the history moved the cursor; distinct (text, history) pairs are counted.",
		Need: map[string]int{"operations": 100000, "positions judged": 5000, "end of file met": 1000},
		Random: func(c *Case) {
			x := c.streamText()
			lines := allLines(x)
			var s xbnf.ICharstream
			c.Set("text", fmt.Sprintf("%q", string(x)))
			var hist []string
			if !c.Guard("NewCharstreamFromString", func() { s = xbnf.NewCharstreamFromString(string(x)) }) {
				return
			}
			cur, moved, depth := 0, false, 0
			k := 2 + c.IntN(40)
			var handed [][2][]rune // slices handed out, and what they were
			for i := 0; i < k; i++ {
				if hookBuild && depth < 4 && cur > 0 && c.IntN(8) == 0 {
					back := 1 + c.IntN(min(cur, 12))
					if c.IntN(4) == 0 {
						back = 1 + c.IntN(cur)
					}
					if !c.Guard("put back", func() { s = prepend(s, append([]rune(nil), x[cur-back:cur]...)) }) {
						return
					}
					cur -= back
					depth++
					hist = append(hist, fmt.Sprintf("put back %d", back))
					c.Count("put back", 1)
				}
				o := c.streamOp(x, cur)
				var r sOut
				c.Set("history", strings.Join(hist, "; "))
				if !c.Guard(o.String(), func() { r = doOp(s, o) }) {
					return
				}
				hist = append(hist, o.show(r))
				ok, next := stepOp(x, lines, cur, o, r)
				if !ok {
					c.Set("history", strings.Join(hist, "; "))
					c.Violate("stream", "at index %d: %s", cur, o.show(r))
					return
				}
				c.Count("operations", 1)
				c.Count(opNames[o.Kind], 1)
				if (o.Kind == opPosition || o.Kind == opLookup) && r.Line > 0 {
					c.Count("positions judged", 1)
				}
				if o.Kind == opNext && r.R == -1 {
					c.Count("end of file met", 1)
				}
				if r.Chars != nil {
					handed = append(handed, [2][]rune{r.Chars, append([]rune(nil), r.Chars...)})
				}
				moved = moved || next != cur
				cur = next
			}
			for _, h := range handed {
				if !sameRunes(h[0], h[1]) {
					c.Violate("stream", "a slice handed out as %q became %q later", string(h[1]), string(h[0]))
					return
				}
			}
			if moved {
				c.Seen(string(x), strings.Join(hist, ";"))
			}
			c.Sample(fmt.Sprintf("text %q: %s", string(x), strings.Join(hist, "; ")))
		},
		Fixed: []func(*Case){fixedStreamPositions},
	})

	register(&Check{
		ID: "C12", Quick: 9600, Thorough: 60000, Workers: 4, Procs: 4,
		Rule: "Built with the race detector. Several goroutines call random operations on one stream (plain, or with chars put back in front), yielding at random; every returned slice is overwritten by its receiver. Each short history, with call and return times, is checked for linearizability by porcupine against the sequential specification of a stream; in each long one the pieces consumed by all goroutines must tile the text. Non-trivial: operations of different goroutines overlapped in time; distinct orders of returned pieces are counted.",
		Need: map[string]int{"histories checked": 300, "tilings checked": 50},
		Hope: map[string]int{"overlapping operations": 1500},
		Random: func(c *Case) {
			if c.Idx%5 == 4 {
				c.tiling()
			} else {
				c.linearizable()
			}
		},
		Assume: []string{"porcupine v1.3.1 decides linearizability rightly", "the race detector reports only races of the executed interleavings"},
	})
}

// sharedStream makes a stream for concurrent use, at index cur of x
func (c *Case) sharedStream(x []rune) (s xbnf.ICharstream, cur int, ok bool) {
	ok = c.Guard("building the stream", func() {
		s = xbnf.NewCharstreamFromString(string(x))
		layers := 0
		if hookBuild {
			layers = c.IntN(3)
		}
		for i := 0; i < layers; i++ {
			for k := c.IntN(min(len(x)/2, 20) + 1); k > 0 && cur < len(x); k-- {
				s.Next()
				cur++
			}
			if cur > 0 {
				back := 1 + c.IntN(cur)
				s = prepend(s, append([]rune(nil), x[cur-back:cur]...))
				cur -= back
			}
		}
	})
	return
}

func uniqueText(c *Case, n int, ws int) []rune {
	x := make([]rune, n)
	for i := range x {
		switch {
		case c.IntN(100) < ws:
			x[i] = pick(c.Rand, someWS)
		default:
			x[i] = rune(0x4E00 + i) // every char only once, so that a read tells where it was
		}
	}
	return x
}

func (c *Case) linearizable() {
	n := 3 + c.IntN(30)
	x := uniqueText(c, n, []int{0, 20, 50}[c.IntN(3)])
	lines := allLines(x)
	s, start, ok := c.sharedStream(x)
	if !ok {
		return
	}
	c.Set("text", fmt.Sprintf("%q from %d", string(x), start))
	threads := 2 + c.IntN(3)
	per := 3 + c.IntN(5)
	ops := make([][]sOp, threads)
	yields := make([][]int, threads)
	for t := range ops {
		for i := 0; i < per; i++ {
			ops[t] = append(ops[t], c.streamOp(x, start+c.IntN(min(n-start, threads*per)+1)))
			yields[t] = append(yields[t], c.IntN(3))
		}
	}
	var clock atomic.Int64
	hist := make([][]porcupine.Operation, threads)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	done := c.Guard("concurrent operations", func() {
		var failure atomic.Value
		for t := 0; t < threads; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						failure.Store(fmt.Sprint(r))
					}
				}()
				<-begin
				for i, o := range ops[t] {
					for y := 0; y < yields[t][i]; y++ {
						runtime.Gosched()
					}
					call := clock.Add(1)
					r := doOp(s, o)
					ret := clock.Add(1)
					keep := r
					keep.Chars = append([]rune(nil), r.Chars...)
					for j := range r.Chars { // nobody else may see this
						r.Chars[j] = 'X'
					}
					hist[t] = append(hist[t], porcupine.Operation{ClientId: t, Input: o, Call: call, Output: keep, Return: ret})
				}
			}(t)
		}
		close(begin)
		wg.Wait()
		if f := failure.Load(); f != nil {
			panic(f)
		}
	})
	if !done {
		return
	}
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	overlaps := 0
	for i := range all {
		for j := range all {
			if i != j && all[i].ClientId != all[j].ClientId && all[i].Call < all[j].Call && all[j].Call < all[i].Return {
				overlaps++
			}
		}
	}
	c.Count("overlapping operations", overlaps)
	c.Count("operations", len(all))
	model := porcupine.Model{
		Init: func() interface{} { return start },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			ok, next := stepOp(x, lines, st.(int), in.(sOp), out.(sOut))
			return ok, next
		},
		Equal: func(a, b interface{}) bool { return a.(int) == b.(int) },
		DescribeOperation: func(in, out interface{}) string {
			return in.(sOp).show(out.(sOut))
		},
	}
	res := porcupine.CheckOperationsTimeout(model, all, 20*time.Second)
	if res == porcupine.Unknown {
		c.Count("undecided histories", 1)
		return
	}
	c.Count("histories checked", 1)
	if res == porcupine.Illegal {
		var b strings.Builder
		for _, op := range all {
			fmt.Fprintf(&b, "goroutine %d [%d,%d] %s\n", op.ClientId, op.Call, op.Return, op.Input.(sOp).show(op.Output.(sOut)))
		}
		c.Set("history", b.String())
		c.Violate("linearizability", "no order of the calls explains their results:\n%s", b.String())
		return
	}
	if overlaps > 0 {
		c.Seen(orderOf(all))
		c.Sample(fmt.Sprintf("text %q: %s", string(x), orderOf(all)))
	}
}

// orderOf writes the order in which calls began and ended
func orderOf(all []porcupine.Operation) string {
	ev := make([]string, 2*len(all)+2)
	for _, op := range all {
		ev[op.Call] = fmt.Sprintf("%d(%s", op.ClientId, opNames[op.Input.(sOp).Kind])
		ev[op.Return] = fmt.Sprintf(")%d", op.ClientId)
	}
	return strings.Join(ev, " ")
}

// tiling lets goroutines consume a long text together
func (c *Case) tiling() {
	n := 200 + c.IntN(1500)
	x := make([]rune, n)
	for i := range x {
		if c.IntN(4) == 0 {
			x[i] = pick(c.Rand, someWS)
		} else {
			x[i] = rune(0x20000 + i)
		}
	}
	lines := allLines(x)
	s, start, ok := c.sharedStream(x)
	if !ok {
		return
	}
	c.Set("text", fmt.Sprintf("%q from %d", string(x), start))
	threads := 3 + c.IntN(6)
	long := uint64(pick(c.Rand, []int{1, 12, 60, 150})) // how many chars are matched at most
	pieces := make([][][]rune, threads)
	bad := make([]string, threads)
	done := c.Guard("concurrent consumption", func() {
		var wg sync.WaitGroup
		begin := make(chan struct{})
		var failure atomic.Value
		for t := 0; t < threads; t++ {
			wg.Add(1)
			sub := c.Uint64()
			go func(t int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						failure.Store(fmt.Sprint(r))
					}
				}()
				rnd := sub
				next := func(k uint64) uint64 { rnd = rnd*6364136223846793005 + 1442695040888963407; return (rnd >> 33) % k }
				var handed [][]rune
				<-begin
				last := -1
				for i := 0; i < 20*n; i++ {
					switch next(9) {
					case 0, 1:
						r := s.Next()
						if r == -1 {
							i = 20 * n
							break
						}
						pieces[t] = append(pieces[t], []rune{r})
					case 2, 3:
						sp := s.SkipSpaces()
						if len(sp) > 0 {
							pieces[t] = append(pieces[t], append([]rune(nil), sp...))
							handed = append(handed, sp)
						}
					case 4, 5:
						k := int(next(4))
						if next(3) == 0 {
							k = int(next(long))
						}
						cur := s.Cursor()
						arg := append([]rune{}, x[min(cur, n):min(cur+k+1, n)]...)
						m, _ := s.Match(arg)
						if len(m) > 0 {
							pieces[t] = append(pieces[t], append([]rune(nil), m...))
							handed = append(handed, m)
						}
					case 6:
						cur := s.Cursor()
						if cur < last {
							bad[t] = fmt.Sprintf("the cursor went back from %d to %d", last, cur)
						}
						last = cur
						if p := s.PositionLookup(cur - 1); cur > 0 && (p == nil || p.Line != lines[cur-1][0] || p.Col != lines[cur-1][1]) {
							bad[t] = fmt.Sprintf("position of index %d is %v instead of %v", cur-1, p, lines[cur-1])
						}
					case 7:
						s.Peek()
					case 8:
						s.Position()
					}
					if next(4) == 0 {
						for _, h := range handed {
							for j := range h {
								h[j] = 'Z'
							}
						}
						handed = handed[:0]
						runtime.Gosched()
					}
				}
			}(t)
		}
		close(begin)
		wg.Wait()
		if f := failure.Load(); f != nil {
			panic(f)
		}
	})
	if !done {
		return
	}
	for _, b := range bad {
		if b != "" {
			c.Violate("stream", "%s", b)
			return
		}
	}
	// each piece with a char that's in the text only once has one place; whitespace fills the gaps
	owner := make([]int, n)
	var spaces int
	for t, ps := range pieces {
		for _, p := range ps {
			at := -1
			for j, r := range p {
				if r >= 0x20000 {
					at = int(r) - 0x20000 - j
					break
				}
			}
			if at < 0 {
				spaces += len(p)
				continue
			}
			for j, r := range p {
				if at+j < start || at+j >= n || x[at+j] != r {
					c.Violate("tiling", "goroutine %d got %q, which is nowhere in the text", t, string(p))
					return
				}
				if owner[at+j] != 0 {
					c.Violate("tiling", "index %d was delivered to goroutine %d and to %d", at+j, owner[at+j]-1, t)
					return
				}
				owner[at+j] = t + 1
			}
		}
	}
	free := 0
	for i := start; i < n; i++ {
		if owner[i] == 0 {
			if x[i] >= 0x20000 {
				c.Violate("tiling", "index %d was delivered to nobody", i)
				return
			}
			free++
		}
	}
	if free != spaces {
		c.Violate("tiling", "%d whitespace chars delivered instead of %d", spaces, free)
		return
	}
	c.Count("tilings checked", 1)
	c.Count("chars delivered", n-start)
	var b strings.Builder
	switches := 0
	for i := start; i < n; i++ {
		fmt.Fprintf(&b, "%d,", owner[i])
		if i > start && owner[i] != owner[i-1] {
			switches++
		}
	}
	c.Count("changes of the consuming goroutine", switches)
	c.Distinct("consumption orders", b.String())
	if switches > 0 {
		c.Seen(b.String())
	}
}

// fixedStreamPositions: every position of a few texts, asked for while reading in steps of every size
func fixedStreamPositions(c *Case) {
	for _, text := range []string{"", "a", "\n", "\n\n", "a\n", "\na", "ab\ncd\n", "a\r\nb\rc", "\n\n\na\n\n", "世界\n😀b\n", "a\u2028b\u0085c\v\f\nd", strings.Repeat("x", 300) + "\n" + strings.Repeat("\n", 50) + "y"} {
		x := []rune(text)
		lines := allLines(x)
		c.Set("text", fmt.Sprintf("%q", text))
		for step := 1; step <= 4; step++ {
			var s xbnf.ICharstream
			if !c.Guard("stream", func() { s = xbnf.NewCharstreamFromString(text) }) {
				return
			}
			for cur := 0; ; {
				for idx := -2; idx < len(x)+3; idx++ {
					o := sOp{Kind: opLookup, Idx: idx}
					var r sOut
					if !c.Guard(o.String(), func() { r = doOp(s, o) }) {
						return
					}
					if ok, _ := stepOp(x, lines, cur, o, r); !ok {
						c.Violate("stream", "after %d chars: %s", cur, o.show(r))
						return
					}
					c.Count("operations", 1)
				}
				for _, kind := range []opKind{opPosition, opCursor, opPeek} {
					o := sOp{Kind: kind}
					var r sOut
					if !c.Guard(o.String(), func() { r = doOp(s, o) }) {
						return
					}
					if ok, _ := stepOp(x, lines, cur, o, r); !ok {
						c.Violate("stream", "after %d chars: %s", cur, o.show(r))
						return
					}
				}
				if cur >= len(x) {
					break
				}
				for k := 0; k < step && cur < len(x); k++ {
					s.Next()
					cur++
				}
			}
		}
	}
}
