package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"
)

// ---- what a check is

type Check struct {
	ID       string
	Quick    int // number of random cases
	Thorough int
	Fixed    []func(*Case) // deterministic cases, come first
	BigFrom  int           // those of Fixed from this one on (counted from 1) are very big: being slow on them is no violation of this property
	Random   func(*Case)
	Workers  int // 0: 8
	Procs    int // GOMAXPROCS of a worker, 0: 1
	Rule     string
	// Need lists counters that must be at least so high at the end, or the run observed too little
	Need map[string]int
	// Hope lists counters that depend on how the goroutines happen to be scheduled: short of these, more cases are run for a while
	Hope map[string]int
	// Assume are the assumptions listed in the evidence
	Assume []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Violation is what a check found wrong in one case
type Violation struct {
	Property string
	Kind     string
	Msg      string
	Case     int
	Seed     uint64
	Tier     string
	Detail   map[string]string
}

// Case is one execution
type Case struct {
	*rand.Rand
	Check   *Check
	Idx     int
	Tier    string
	w       *worker
	Detail  map[string]string // the inputs, for the report
	failed  bool
	budget  int
	verbose bool
}

func (c *Case) Count(name string, n int) {
	if n != 0 {
		c.w.res.Counters[name] += n
	}
}

// Seen counts distinct non-trivial cases
func (c *Case) Seen(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.w.seen[h.Sum64()] = true
}

// Distinct counts distinct values of some observed thing
func (c *Case) Distinct(what string, parts ...string) {
	h := fnv.New64a()
	h.Write([]byte(what))
	for _, p := range parts {
		h.Write([]byte{0})
		h.Write([]byte(p))
	}
	s := c.w.distinct[what]
	if s == nil {
		s = map[uint64]bool{}
		c.w.distinct[what] = s
	}
	if len(s) < 300000 {
		s[h.Sum64()] = true
	}
}

func (c *Case) Sample(s string) {
	if len(c.w.res.Samples) < 3 && c.Idx >= len(c.Check.Fixed) {
		c.w.res.Samples = append(c.w.res.Samples, clip(s, 1500))
	}
}

// cleanOut makes sure that nothing strange gets into the output of a check
func cleanOut(s string) string {
	return strings.Map(func(c rune) rune {
		if c != '\n' && c != '\t' && !unicode.IsPrint(c) {
			return '\u25a1'
		}
		return c
	}, s)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *Case) Set(key, val string) { c.Detail[key] = val }

func (c *Case) Violate(kind, format string, args ...interface{}) {
	c.failed = true
	v := Violation{Property: c.Check.ID, Kind: kind, Msg: clip(fmt.Sprintf(format, args...), 6000), Case: c.Idx, Seed: seed(), Tier: c.Tier, Detail: map[string]string{}}
	for k, s := range c.Detail {
		v.Detail[k] = clip(s, 20000)
	}
	c.w.res.Violations = append(c.w.res.Violations, v)
	if c.verbose {
		fmt.Printf("VIOLATED %s case %d [%s]: %s\n", c.Check.ID, c.Idx, kind, v.Msg)
	}
}

// Known notes that a listed finding was met
func (c *Case) Known(id string) { c.w.res.Known[id]++ }

// Guard runs f, which calls the code under test. A panic there is a violation.
func (c *Case) Guard(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.w.phase(0)
			if st, is := r.(stepsExceeded); is {
				c.Violate("steps", "%s: more than %d stream operations", what, int(st))
				return
			}
			c.Violate("panic", "%s: panic: %v\n%s", what, r, debug.Stack())
		}
	}()
	c.w.phase(1)
	f()
	c.w.phase(0)
	return true
}

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// ---- worker

type Result struct {
	Evaluations int
	Counters    map[string]int
	Samples     []string
	Violations  []Violation
	Known       map[string]int
	Distinct    map[string]int
	Done        bool
}

type worker struct {
	res      Result
	seen     map[uint64]bool
	distinct map[string]map[uint64]bool
	prog     *os.File
	mu       sync.Mutex
	idx      int64
	inReal   byte
	lastCPU  time.Duration
	lastWall time.Time
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (w *worker) start(idx int) {
	w.mu.Lock()
	w.idx = int64(idx)
	w.lastCPU = cpuTime()
	w.lastWall = time.Now()
	w.mu.Unlock()
	w.mark(0)
}

func (w *worker) mark(state byte) {
	if w.prog == nil {
		return
	}
	var b [9]byte
	binary.LittleEndian.PutUint64(b[:], uint64(w.idx))
	b[8] = state
	w.prog.WriteAt(b[:], 0)
}

func (w *worker) phase(p byte) {
	w.inReal = p
	w.mark(p)
}

const (
	exitHang = 97
	exitMem  = 98
)

func (w *worker) watchdog(cpuLimit, wallLimit time.Duration) {
	sample := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	for {
		time.Sleep(150 * time.Millisecond)
		w.mu.Lock()
		cpu, wall := w.lastCPU, w.lastWall
		w.mu.Unlock()
		if cpuTime()-cpu > cpuLimit || time.Since(wall) > wallLimit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			os.Stderr.Write([]byte("watchdog: no end of this case in sight\n"))
			if n > 20000 {
				n = 20000
			}
			os.Stderr.Write(buf[:n])
			os.Exit(exitHang)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64()-sample[1].Value.Uint64() > 3<<30 {
			os.Stderr.Write([]byte("watchdog: more than 3 GB of memory in use\n"))
			os.Exit(exitMem)
		}
	}
}

func newCase(ck *Check, idx int, tier string, w *worker) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", ck.ID, idx)
	return &Case{Rand: rand.New(rand.NewPCG(seed(), h.Sum64())), Check: ck, Idx: idx, Tier: tier, w: w, Detail: map[string]string{}, budget: modelBudget}
}

func (ck *Check) total(tier string) int {
	n := ck.Quick
	if tier == "thorough" {
		n = ck.Thorough
	}
	return n + len(ck.Fixed)
}

func (ck *Check) run(c *Case) {
	if c.Idx < len(ck.Fixed) {
		ck.Fixed[c.Idx](c)
	} else {
		ck.Random(c)
	}
}

func newWorker() *worker {
	return &worker{res: Result{Counters: map[string]int{}, Known: map[string]int{}, Distinct: map[string]int{}},
		seen: map[uint64]bool{}, distinct: map[string]map[uint64]bool{}}
}

// hoping tells whether this worker has seen less than its share of what is hoped for
func (w *worker) hoping(ck *Check, workers int) bool {
	for name, min := range ck.Hope {
		if w.res.Counters[name]*workers < min {
			return true
		}
	}
	return false
}

// runWorker runs the cases k, k+n, k+2n, ..., from start on if that is one of them (or the only one, if only >= 0)
func runWorker(ck *Check, tier string, k, n, only, start int, dir string) {
	if ck.Procs > 0 {
		runtime.GOMAXPROCS(ck.Procs)
	} else {
		runtime.GOMAXPROCS(2)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	w := newWorker()
	t0 := time.Now()
	name := filepath.Join(dir, fmt.Sprintf("w%d", k))
	var err error
	w.prog, err = os.OpenFile(name+".progress", os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w.start(k)
	limit := 30 * time.Second
	if only >= 0 {
		limit = 60 * time.Second
	}
	go w.watchdog(limit, 3*limit)
	total := ck.total(tier)
	from, step := max(k, start), n
	if only >= 0 {
		from, step, total = only, 1, only+1
	}
	for i := from; i < total; i += step {
		w.start(i)
		c := newCase(ck, i, tier, w)
		ck.run(c)
		w.res.Evaluations++
		if len(w.res.Violations) >= 4 {
			break
		}
	}
	for i := max(total, k); len(w.res.Violations) == 0 && only < 0 && time.Since(t0) < 90*time.Second && w.hoping(ck, n); i++ {
		if i%n != k%n {
			continue
		}
		w.start(i)
		ck.run(newCase(ck, i, tier, w))
		w.res.Evaluations++
	}
	w.res.Done = true
	for what, s := range w.distinct {
		w.res.Distinct[what] = len(s)
	}
	js, _ := json.Marshal(&w.res)
	var hashes []byte
	for h := range w.seen {
		hashes = binary.LittleEndian.AppendUint64(hashes, h)
	}
	os.WriteFile(name+".seen", hashes, 0644)
	var dist []byte
	var dnames []string
	for what := range w.distinct {
		dnames = append(dnames, what)
	}
	sort.Strings(dnames)
	for i, what := range dnames {
		for h := range w.distinct[what] {
			dist = append(dist, byte(i))
			dist = binary.LittleEndian.AppendUint64(dist, h)
		}
	}
	os.WriteFile(name+".dist", append([]byte(strings.Join(dnames, ",")+"\n"), dist...), 0644)
	os.WriteFile(name+".json", js, 0644)
}

// ---- parent

// Finding is a line "known: property=<id> id=<finding> input=... <what>" of known_findings.txt
type Finding struct {
	ID, Property, What string
}

func loadFindings(path string) []Finding {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var res []Finding
	for _, line := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(line), "known: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "id=")
		if !ok {
			continue
		}
		id, what, _ := strings.Cut(rest, " ")
		res = append(res, Finding{id, prop, what})
	}
	return res
}

func listed(findings []Finding, property, id string) *Finding {
	for i := range findings {
		if findings[i].Property == property && findings[i].ID == id {
			return &findings[i]
		}
	}
	return nil
}

type proc struct {
	k      int
	err    error
	code   int
	stderr string
}

func spawn(ck *Check, tier string, k, n, only, start int, dir string) proc {
	args := []string{"-check", ck.ID, "-tier", tier, "-worker", fmt.Sprintf("%d/%d", k, n), "-dir", dir}
	if only >= 0 {
		args = append(args, "-only", strconv.Itoa(only))
	}
	if start > 0 {
		args = append(args, "-start", strconv.Itoa(start))
	}
	cmd := exec.Command(os.Args[0], args...)
	errFile, _ := os.Create(filepath.Join(dir, fmt.Sprintf("w%d.stderr", k)))
	cmd.Stdout = os.Stdout
	cmd.Stderr = errFile
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path="+filepath.Join(dir, fmt.Sprintf("w%d.race", k)))
	err := cmd.Run()
	errFile.Close()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	data, _ := os.ReadFile(errFile.Name())
	if len(data) > 12000 {
		data = append(data[:8000:8000], data[len(data)-4000:]...)
	}
	return proc{k, err, code, string(data)}
}

func readProgress(dir string, k int) (int, byte) {
	data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.progress", k)))
	if err != nil || len(data) < 9 {
		return -1, 0
	}
	return int(binary.LittleEndian.Uint64(data)), data[8]
}

func main() { os.Exit(mainCode()) }

func mainCode() int {
	bigFixed()
	usesFixed()
	args := map[string]string{"-tier": "quick", "-only": "-1", "-start": "0"}
	for i := 1; i+1 < len(os.Args); i += 2 {
		args[os.Args[i]] = os.Args[i+1]
	}
	if f := args["-replay"]; f != "" {
		return replay(f)
	}
	ck := checks[args["-check"]]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", args["-check"])
		return 2
	}
	tier := args["-tier"]
	only, _ := strconv.Atoi(args["-only"])
	if wk := args["-worker"]; wk != "" {
		var k, n int
		fmt.Sscanf(wk, "%d/%d", &k, &n)
		start, _ := strconv.Atoi(args["-start"])
		runWorker(ck, tier, k, n, only, start, args["-dir"])
		return 0
	}
	return parent(ck, tier, args)
}

func replay(file string) int {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Setenv("VERIF_SEED", strconv.FormatUint(v.Seed, 10))
	ck := checks[v.Property]
	if ck == nil {
		return 2
	}
	debug.SetMaxStack(256 << 20)
	w := newWorker()
	w.start(v.Case)
	go w.watchdog(100*time.Second, 300*time.Second)
	c := newCase(ck, v.Case, v.Tier, w)
	c.verbose = true
	ck.run(c)
	for k, s := range c.Detail {
		fmt.Printf("--- %s\n%s\n", k, s)
	}
	if len(w.res.Violations) > 0 {
		return 1
	}
	fmt.Println("no violation in this case")
	return 0
}

func parent(ck *Check, tier string, args map[string]string) int {
	t0 := time.Now()
	verif := args["-verif"]
	dir, err := os.MkdirTemp("", "vx-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := ck.Workers
	if n == 0 {
		n = 8
	}
	if t := ck.total(tier); n > t {
		n = t
	}
	results := make(chan proc, n)
	for k := 0; k < n; k++ {
		go func(k int) { results <- spawn(ck, tier, k, n, -1, 0, dir) }(k)
	}
	var violations []Violation
	broken := ""
	inconclusive := 0
	hung := false
	running := n
	resume := func(k, idx int) { // the worker goes on behind the case
		inconclusive++
		running++
		go func() { results <- spawn(ck, tier, k, n, -1, idx+n, dir) }()
	}
	for running > 0 {
		p := <-results
		running--
		if p.code == 0 && p.err == nil {
			continue
		}
		idx, inReal := readProgress(dir, p.k)
		if p.code == exitHang && ck.BigFrom > 0 && idx >= ck.BigFrom-1 && idx < len(ck.Fixed) {
			resume(p.k, idx)
			continue
		}
		if p.code == exitHang && hung { // one such case is enough
			continue
		}
		if p.code == exitHang && idx >= 0 {
			// only a hang that shows again with more time counts
			sub := filepath.Join(dir, fmt.Sprintf("re%d", p.k))
			os.Mkdir(sub, 0755)
			if q := spawn(ck, tier, 0, 1, idx, 0, sub); q.code != exitHang {
				resume(p.k, idx)
				continue
			}
			if inReal == 1 {
				hung = true
				violations = append(violations, crash(ck, tier, idx, "hang", "the call does not return", p.stderr))
				continue
			}
		}
		if inReal == 1 && idx >= 0 {
			kind, msg := "crash", fmt.Sprintf("the process died (exit %d)", p.code)
			if p.code == exitMem {
				kind, msg = "memory", "the call uses more than 3 GB of memory"
			}
			violations = append(violations, crash(ck, tier, idx, kind, msg, p.stderr))
			continue
		}
		broken = fmt.Sprintf("worker %d ended with %d in case %d, outside the code under test: %s", p.k, p.code, idx, p.stderr)
	}
	total := Result{Counters: map[string]int{}, Known: map[string]int{}, Distinct: map[string]int{}}
	seen := map[uint64]bool{}
	dist := map[string]map[uint64]bool{}
	for k := 0; k < n; k++ {
		name := filepath.Join(dir, fmt.Sprintf("w%d", k))
		data, err := os.ReadFile(name + ".json")
		if err != nil {
			continue
		}
		var r Result
		if json.Unmarshal(data, &r) != nil {
			continue
		}
		total.Evaluations += r.Evaluations
		for c, v := range r.Counters {
			if strings.HasPrefix(c, "max ") {
				if v > total.Counters[c] {
					total.Counters[c] = v
				}
			} else {
				total.Counters[c] += v
			}
		}
		for c, v := range r.Known {
			total.Known[c] += v
		}
		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		violations = append(violations, r.Violations...)
		hashes, _ := os.ReadFile(name + ".seen")
		for i := 0; i+8 <= len(hashes); i += 8 {
			seen[binary.LittleEndian.Uint64(hashes[i:])] = true
		}
		dd, _ := os.ReadFile(name + ".dist")
		if nl := strings.IndexByte(string(dd), '\n'); nl > 0 {
			names := strings.Split(string(dd[:nl]), ",")
			for b := dd[nl+1:]; len(b) >= 9; b = b[9:] {
				nm := names[b[0]]
				if dist[nm] == nil {
					dist[nm] = map[uint64]bool{}
				}
				dist[nm][binary.LittleEndian.Uint64(b[1:])] = true
			}
		}
	}
	for nm, s := range dist {
		total.Counters["distinct "+nm] = len(s)
	}
	// reports of the race detector
	races, _ := filepath.Glob(filepath.Join(dir, "w*.race.*"))
	raceReports := 0
	for _, f := range races {
		data, _ := os.ReadFile(f)
		k := strings.Count(string(data), "WARNING: DATA RACE")
		raceReports += k
		if k > 0 && len(violations) < 8 {
			violations = append(violations, Violation{Property: ck.ID, Kind: "race", Msg: clip(string(data), 6000), Case: len(ck.Fixed), Seed: seed(), Tier: tier, Detail: map[string]string{}})
		}
	}
	if raceEnabled {
		total.Counters["race reports"] = raceReports
	}
	total.Counters["inconclusive"] = inconclusive
	if len(violations) == 0 && broken == "" && inconclusive == 0 {
		for name, min := range ck.Need {
			if total.Counters[name] < min {
				// nothing observed: the code under test refuses what it must accept
				violations = append(violations, Violation{Property: ck.ID, Kind: "unobserved",
					Msg: fmt.Sprintf("only %d of at least %d \"%s\" were observed", total.Counters[name], min, name), Case: 0, Seed: seed(), Tier: tier, Detail: map[string]string{}})
			}
		}
	}
	var short []string
	for name, min := range ck.Hope {
		if total.Counters[name] < min {
			short = append(short, fmt.Sprintf("only %d of the hoped-for %d %s were observed", total.Counters[name], min, name))
			fmt.Printf("%s: note: %s\n", ck.ID, short[len(short)-1])
		}
	}
	sort.SliceStable(violations, func(i, j int) bool { return violations[i].Case < violations[j].Case })
	findings := loadFindings(filepath.Join(verif, "known_findings.txt"))
	var knownIDs []string
	for id := range total.Known {
		knownIDs = append(knownIDs, id)
	}
	sort.Strings(knownIDs)
	for _, id := range knownIDs {
		if f := listed(findings, ck.ID, id); f != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.ID, id, f.What)
		} else {
			violations = append(violations, Violation{Property: ck.ID, Kind: id, Msg: "met, but not listed in the known findings: " + id, Case: 0, Seed: seed(), Tier: tier, Detail: map[string]string{}})
		}
	}
	cov := map[string]interface{}{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(seen),
		"rule":                ck.Rule,
		"samples":             total.Samples,
		"observed":            total.Counters,
		"known_findings_met":  total.Known,
		"workers":             n,
		"hook_build":          hookBuild,
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed(), "level": "exploration", "coverage": cov,
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": len(violations),
		"assumptions": append([]string{"only the executions of this run were judged"}, append(short, ck.Assume...)...),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), append(js, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(violations) > 0 {
		os.MkdirAll(filepath.Join(verif, "replays"), 0755)
		path := filepath.Join(verif, "replays", ck.ID+".json")
		v := violations[0]
		vs, _ := json.MarshalIndent(&v, "", " ")
		os.WriteFile(path, append(vs, '\n'), 0644)
		fmt.Printf("%d violation(s), first: case %d [%s] %s\n", len(violations), v.Case, v.Kind, cleanOut(clip(v.Msg, 1500)))
		for _, k := range []string{"grammar", "rule", "text", "flag"} {
			if s := v.Detail[k]; s != "" {
				fmt.Printf("  %s: %s\n", k, cleanOut(clip(s, 600)))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		return 2
	}
	fmt.Printf("%s: held on %d executions, %d distinct and non-trivial (%.1f s)\n", ck.ID, total.Evaluations, len(seen), time.Since(t0).Seconds())
	return 0
}

func crash(ck *Check, tier string, idx int, kind, msg, stderr string) Violation {
	return Violation{Property: ck.ID, Kind: kind, Msg: msg + "\n" + clip(stderr, 5000), Case: idx, Seed: seed(), Tier: tier, Detail: map[string]string{"note": "inputs: replay the case, or see the generator with this seed"}}
}
