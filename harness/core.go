package main

import (
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- registry ----

// Sub is one generated-input check; Quick and Thorough are the numbers of cases over all shards.
type Sub struct {
	Name            string
	Quick, Thorough int
	F               func(t *T)
}

type Check struct {
	ID, Rule string
	Subs     []Sub
}

var checks = map[string]*Check{}

func register(id, rule string, subs ...Sub) {
	if c := checks[id]; c != nil {
		c.Subs = append(c.Subs, subs...)
		if rule != "" {
			c.Rule = rule
		}
		return
	}
	checks[id] = &Check{id, rule, subs}
}

// ---- statistics and failures ----

type failure struct {
	Property string            `json:"property"`
	Sub      string            `json:"sub"`
	Message  string            `json:"message"`
	Seed     uint64            `json:"seed"`
	Tier     string            `json:"tier"`
	FailFile string            `json:"rapid_failfile,omitempty"`
	Artifact map[string]string `json:"artifacts_base64,omitempty"`
	Notes    []string          `json:"notes,omitempty"`
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Hashes      []uint64       `json:"hashes"`
	set         map[uint64]struct{}
}

type shardOut struct {
	Subs     map[string]*subStats `json:"subs"`
	Failures []*failure           `json:"failures"`
	Internal []string             `json:"internal"`
	Known    map[string]string    `json:"known"`
	Rule     string               `json:"rule"`
}

// T wraps a rapid case.
type T struct {
	*rapid.T
	r     *runner
	arts  map[string][]byte
	notes []string
	class map[string]struct{}
	keys  []uint64
	samp  string
	evals int
	mute  bool // see collect

	zipPrefix []byte // what every generated ZIP starts with
	sigLen    int    // of signatures that fit the last hostile key
	// entries every generated ZIP gets in addition
	zipExtra []*ZEntry
}

type runner struct {
	check   *Check
	sub     *Sub
	st      *subStats
	out     *shardOut
	seed    uint64
	tier    string
	failing bool
	last    *failure
	curFile string
	curIn   []byte
	curMu   sync.Mutex
	inCase  atomic.Int64 // CPU ns at the start of the guarded call, 0 = none
	shard   int
	known12 bool
	prop0   atomic.Int64 // CPU ns at the start of the case, 0 = none
}

func (t *T) NonTrivial(key ...interface{}) {
	h := fnv.New64a()
	for _, k := range key {
		switch v := k.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xff})
	}
	t.keys = append(t.keys, h.Sum64())
}
func (t *T) Class(format string, a ...interface{}) {
	if len(a) != 0 {
		format = fmt.Sprintf(format, a...)
	}
	t.class[format] = struct{}{}
}
func (t *T) Sample(format string, a ...interface{}) {
	if t.samp == "" && !t.r.failing && len(t.r.st.Samples) < 3 {
		t.samp = fmt.Sprintf(format, a...)
	}
}

// Evals adds further evaluations made inside this case.
func (t *T) Evals(n int) { t.evals += n }

func (t *T) Attach(name string, data []byte) {
	if len(data) > 3<<20 {
		data = data[:3<<20]
	}
	t.arts[name] = append([]byte(nil), data...)
}
func (t *T) Note(format string, a ...interface{}) {
	if len(t.notes) < 40 {
		t.notes = append(t.notes, fmt.Sprintf(format, a...))
	}
}

// Violate reports that the property does not hold on the current case.
func (t *T) Violate(format string, a ...interface{}) {
	if t.mute {
		panic(muted{})
	}
	t.record(fmt.Sprintf(format, a...))
	t.T.Fatalf(format, a...)
}

func (t *T) record(msg string) {
	r := t.r
	r.failing = true
	f := &failure{Property: r.check.ID, Sub: r.sub.Name, Message: msg, Seed: r.seed, Tier: r.tier,
		Artifact: map[string]string{}, Notes: append([]string(nil), t.notes...)}
	for k, v := range t.arts {
		f.Artifact[k] = base64.StdEncoding.EncodeToString(v)
	}
	r.last = f
}

// ---- unbiased draws (rapid's integer generators are biased; bits are not) ----

var boolGen = rapid.Bool()

func (t *T) bits(n int, label string) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v <<= 1
		if boolGen.Draw(t.T, label) {
			v |= 1
		}
	}
	return v
}

// Uni draws uniformly (almost) from [0,n).
func (t *T) Uni(label string, n int) int {
	if n <= 1 {
		return 0
	}
	b := 0
	for m := n - 1; m > 0; m >>= 1 {
		b++
	}
	if n&(n-1) != 0 {
		b += 4
	}
	return int(t.bits(b, label) % uint64(n))
}

// Range draws uniformly from [lo,hi].
func (t *T) Range(label string, lo, hi int) int { return lo + t.Uni(label, hi-lo+1) }

// Pct is true in about p percent of the cases; shrinks to false.
func (t *T) Pct(label string, p int) bool {
	if p <= 0 {
		return false
	}
	return int(t.bits(7, label)) >= 128-(p*128+99)/100
}
func (t *T) Seed(label string) uint64 { return t.bits(32, label) }

func pick[V any](t *T, label string, s []V) V { return s[t.Uni(label, len(s))] }

// small PRNG for bulk contents; its seed is drawn from rapid.
type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (p *prng) n(n int) int { return int(p.next() % uint64(n)) }
func (p *prng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := p.next()
		for j := i; j < i+8 && j < n; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}
func bulk(seed uint64, n int) []byte { return (&prng{seed}).bytes(n) }

// Bytes draws up to max bytes (uniform length).
func (t *T) Bytes(label string, lo, hi int) []byte {
	n := t.Range(label+".len", lo, hi)
	if n == 0 {
		return []byte{}
	}
	return bulk(t.Seed(label+".seed"), n)
}

// ---- guarded execution ----

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocNow() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

const (
	cpuLimit   = 40 * time.Second
	caseLimit  = 150 * time.Second
	allocBase  = 256 << 20
	allocRatio = 4096
)

// Guard runs f on hostile input: the input is saved first, so that a fatal runtime error (stack exhaustion,
// out of memory) can be traced to it, and CPU time and allocations are bounded.
func (t *T) Guard(label string, input []byte, f func()) {
	t.Attach("input", input)
	t.Note("call: %s", label)
	r := t.r
	if r.curFile != "" {
		os.WriteFile(r.curFile, append([]byte(label+"\n"), input...), 0o644)
	}
	r.curMu.Lock()
	r.curIn = input
	r.curMu.Unlock()
	a0 := allocNow()
	r.inCase.Store(cpuNow())
	defer r.inCase.Store(0)
	defer func() {
		if p := recover(); p != nil {
			if rapidPanic(p) {
				panic(p)
			}
			t.Violate("%s panicked: %v\n%s", label, p, shortStack())
		}
	}()
	f()
	r.inCase.Store(0)
	if d := allocNow() - a0; d > uint64(allocBase)+uint64(allocRatio)*uint64(len(input)) {
		t.Violate("%s allocated %d bytes for an input of %d bytes", label, d, len(input))
	}
}

func shortStack() string {
	s := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range s {
		if strings.Contains(l, "apkverifier") || strings.Contains(l, "apkparser") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 16 {
		out = out[:16]
	}
	return strings.Join(out, "\n")
}

func rapidPanic(p interface{}) bool {
	n := fmt.Sprintf("%T", p)
	return strings.HasPrefix(n, "rapid.") || strings.HasPrefix(n, "*rapid.")
}

// fromTested tells whether a panic originates in the code under test (not in the harness itself).
func fromTested(stack string) bool {
	// frames between the innermost panic and the harness
	i := strings.LastIndex(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "/zzverif.") || strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.HasPrefix(l, "github.com/avast/apkverifier") || strings.HasPrefix(l, "github.com/avast/apkparser") {
			return true
		}
	}
	return false
}

// ---- running ----

type fakeTB struct {
	name   string
	failed bool
	logs   []string
}

type tbStop struct{}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { f.log(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.log(fmt.Sprintln(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { panic(tbStop{}) }
func (f *fakeTB) Skip(a ...any)             { panic(tbStop{}) }
func (f *fakeTB) SkipNow()                  { panic(tbStop{}) }
func (f *fakeTB) Errorf(s string, a ...any) { f.failed = true; f.log(fmt.Sprintf(s, a...)) }
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.log(fmt.Sprintln(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(tbStop{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(tbStop{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }
func (f *fakeTB) log(s string) {
	if len(f.logs) < 200 {
		f.logs = append(f.logs, s)
	}
}

var deadline time.Time

func (r *runner) prop(rt *rapid.T) {
	if !r.failing && time.Now().After(deadline) {
		return
	}
	t := &T{T: rt, r: r, arts: map[string][]byte{}, class: map[string]struct{}{}, evals: 1}
	r.prop0.Store(cpuNow() + 1)
	defer func() {
		r.prop0.Store(0)
		if p := recover(); p != nil {
			if !rapidPanic(p) {
				st := string(debug.Stack())
				if fromTested(st) {
					t.record(fmt.Sprintf("panic in the code under test: %v\n%s", p, shortStack()))
				} else {
					r.failing = true
					r.out.Internal = append(r.out.Internal, fmt.Sprintf("%s/%s: harness panic: %v\n%s", r.check.ID, r.sub.Name, p, st))
				}
			}
			panic(p)
		}
	}()
	r.sub.F(t)
	if r.failing {
		return
	}
	r.st.Evaluations += t.evals
	for c := range t.class {
		r.st.Classes[c]++
	}
	for _, k := range t.keys {
		r.st.set[k] = struct{}{}
	}
	if t.samp != "" {
		r.st.Samples = append(r.st.Samples, t.samp)
	}
}

func (r *runner) runSub(count int, failfile string) {
	r.failing = false
	r.last = nil
	flag.Set("rapid.checks", fmt.Sprint(count))
	seed := r.seed*1000003 + uint64(len(r.sub.Name))*7919
	for _, c := range []byte(r.sub.Name) {
		seed = seed*131 + uint64(c)
	}
	seed &= 1<<62 - 1
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.failfile", failfile)
	tb := &fakeTB{name: r.check.ID + "_" + r.sub.Name}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(tb, r.prop)
	}()
	if !tb.failed {
		return
	}
	if r.last == nil {
		if len(r.out.Internal) == 0 {
			r.out.Internal = append(r.out.Internal, fmt.Sprintf("%s/%s: rapid failed without a recorded violation: %s", r.check.ID, r.sub.Name, strings.Join(tb.logs, "\n")))
		}
		return
	}
	m, _ := filepath.Glob(filepath.Join("testdata", "rapid", "*", "*.fail"))
	sort.Strings(m)
	for _, p := range m {
		if strings.Contains(p, r.sub.Name) {
			if b, err := os.ReadFile(p); err == nil {
				r.last.FailFile = string(b)
			}
		}
	}
	if failfile != "" {
		b, _ := os.ReadFile(failfile)
		r.last.FailFile = string(b)
	}
	r.out.Failures = append(r.out.Failures, r.last)
}

// watchdog ends the process when a guarded call, or a whole case, does not come to an end.
func (r *runner) watchdog(outPath string) {
	var last, ticks int64
	for {
		time.Sleep(500 * time.Millisecond)
		c := r.prop0.Load()
		if c == 0 || c != last {
			last, ticks = c, 0
		} else {
			ticks++
		}
		s := r.inCase.Load()
		msg := ""
		switch {
		case s != 0 && cpuNow()-s > int64(cpuLimit) && r.inCase.Load() == s:
			msg = fmt.Sprintf("call used more than %s of CPU time", cpuLimit)
		case c != 0 && cpuNow()-c > int64(caseLimit) && r.prop0.Load() == c:
			msg = fmt.Sprintf("case used more than %s of CPU time", caseLimit)
		case c != 0 && ticks > 600 && r.prop0.Load() == c:
			msg = "case did not end within 300 s"
		default:
			continue
		}
		r.curMu.Lock()
		in := r.curIn
		r.curMu.Unlock()
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		r.out.Failures = append(r.out.Failures, &failure{Property: r.check.ID, Sub: r.sub.Name, Seed: r.seed, Tier: r.tier,
			Message:  fmt.Sprintf("%s (last guarded input: %d bytes)\n%s", msg, len(in), stuckStack(string(buf))),
			Artifact: map[string]string{"input": base64.StdEncoding.EncodeToString(in)}})
		b, _ := json.Marshal(r.out)
		os.WriteFile(outPath, b, 0o644)
		os.Exit(0)
	}
}

func stuckStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "avast/apk") && len(out) < 20 {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, "\n")
}

// known findings: key -> present in the committed list
var knownKeys = map[string]bool{}

// Known reports a listed defect that still fails; returns false if the key is not listed (then it is a violation).
func (t *T) Known(key, what string) bool {
	if !knownKeys[key] {
		return false
	}
	t.r.out.Known[key] = what
	return true
}

func main() {
	testing.Init()
	var (
		id     = flag.String("check", "", "property id")
		seed   = flag.Uint64("vseed", 1, "seed")
		tier   = flag.String("tier", "quick", "quick or thorough")
		shard  = flag.Int("shard", 0, "shard index")
		shards = flag.Int("shards", 1, "shard count")
		out    = flag.String("out", "", "result file")
		cur    = flag.String("cur", "", "file that receives the input under test")
		only   = flag.String("sub", "", "only this sub-check")
		fail   = flag.String("replay-failfile", "", "rapid fail file to replay")
		known  = flag.String("known", "", "comma separated known finding keys")
		scale  = flag.Float64("scale", 1, "case count multiplier")
		list   = flag.Bool("list", false, "list checks")
		times  = flag.Bool("times", false, "print the time per sub-check")
		shrink = flag.String("shrink", "15s", "time for shrinking a failure")
		first  = flag.Bool("first", false, "stop after the first sub-check that fails")
		budget = flag.Int("budget", 3600, "seconds after which no further case is started")
	)
	flag.Parse()
	flag.Set("rapid.shrinktime", *shrink)
	deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	if *list {
		for id, c := range checks {
			for _, s := range c.Subs {
				fmt.Println(id, s.Name, s.Quick, s.Thorough)
			}
		}
		return
	}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			knownKeys[k] = true
		}
	}
	c := checks[*id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	o := &shardOut{Subs: map[string]*subStats{}, Known: map[string]string{}, Rule: c.Rule}
	r := &runner{check: c, out: o, tier: *tier, curFile: *cur, shard: *shard}
	r.seed = *seed*1009 + uint64(*shard)*100003
	started := false
	for i := range c.Subs {
		s := &c.Subs[i]
		if *only != "" && s.Name != *only {
			continue
		}
		n := s.Quick
		if *tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * *scale)
		n = (n + *shards - 1) / *shards
		if n < 1 {
			n = 1
		}
		r.sub = s
		if *cur != "" {
			os.WriteFile(*cur+".sub", []byte(s.Name), 0o644)
		}
		r.st = &subStats{Classes: map[string]int{}, set: map[uint64]struct{}{}}
		o.Subs[s.Name] = r.st
		if !started {
			started = true
			go r.watchdog(*out)
		}
		t0 := time.Now()
		r.runSub(n, *fail)
		if *times {
			fmt.Fprintf(os.Stderr, "%-28s %6d cases %8.2fs\n", s.Name, n, time.Since(t0).Seconds())
		}
		for h := range r.st.set {
			r.st.Hashes = append(r.st.Hashes, h)
		}
		sort.Slice(r.st.Hashes, func(i, j int) bool { return r.st.Hashes[i] < r.st.Hashes[j] })
		if *first && len(o.Failures) > 0 {
			break
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			panic(err)
		}
	} else {
		for _, f := range o.Failures {
			fmt.Printf("FAIL %s/%s: %s\n", f.Property, f.Sub, f.Message)
			for _, n := range f.Notes {
				fmt.Println("   ", n)
			}
		}
		for _, s := range o.Internal {
			fmt.Println("INTERNAL", s)
		}
		for n, s := range o.Subs {
			fmt.Println(n, s.Evaluations, len(s.Hashes), s.Classes)
		}
	}
}
