package main

// The search engine shared by every check. A check is a list of parts; a part
// generates cases (plain JSON values) with rapid, runs each one against the
// code under test and compares with its oracle. rapid shrinks a failing case;
// the minimal one becomes the replay file.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// Failure is a violated property. Soft failures rest on timing and are
// re-run before they count.
type Failure struct {
	Msg  string
	Soft bool
}

func failf(format string, a ...any) *Failure { return &Failure{Msg: fmt.Sprintf(format, a...)} }
func softf(format string, a ...any) *Failure {
	return &Failure{Msg: fmt.Sprintf(format, a...), Soft: true}
}

// Rec collects what one case exercised.
type Rec struct {
	nontrivial bool
	sub        int
	labels     map[string]int
	inconcl    string
	seed       uint64 // derived from the case, for auxiliary choices
	replay     bool
}

func (r *Rec) NonTrivial()    { r.nontrivial = true }
func (r *Rec) Sub(n int)      { r.sub += n }
func (r *Rec) Label(l string) { r.labels[l]++ }
func (r *Rec) LabelIf(c bool, l string) {
	if c {
		r.labels[l]++
	}
}

// Inconclusive marks a run whose environment (not the code under test) got in the way.
func (r *Rec) Inconclusive(why string) { r.inconcl = why }
func (r *Rec) Rand() *rand.Rand        { return rand.New(rand.NewSource(int64(r.seed))) }

type Part struct {
	Name            string
	Rule            string // what makes a case non-trivial
	Quick, Thorough int    // cases per shard
	CaseLimit       time.Duration
	Shrink          time.Duration
	gen             func(*rapid.T) any
	run             func(*Rec, any) *Failure
	parse           func([]byte) (any, error)
}

func part[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Rec, *C) *Failure) *Part {
	return &Part{
		Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { c := gen(t); return &c },
		run: func(r *Rec, c any) *Failure { return run(r, c.(*C)) },
		parse: func(b []byte) (any, error) {
			c := new(C)
			err := json.Unmarshal(b, c)
			return c, err
		},
	}
}

type Check struct {
	ID     string
	Shards int                     // child processes (default 4)
	Setup  func(work string) error // in the child, before the parts
	Parts  []*Part
	Fuzz   []Fuzz
}

// Fuzz is a coverage-guided search over the cases of a part (fuzz_test.go).
type Fuzz struct {
	Target, Part    string
	Quick, Thorough time.Duration
}

func (z *Fuzz) time() time.Duration {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return z.Thorough
	}
	return z.Quick
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Shards == 0 {
		c.Shards = 4
	}
	checks[c.ID] = c
}

// ---- child --------------------------------------------------------------------

type PartResult struct {
	Name         string
	Rule         string
	Evaluations  int
	Sub          int
	NonTrivial   map[string]bool // hashes of distinct non-trivial cases
	Labels       map[string]int
	Samples      []json.RawMessage
	Inconclusive int
	CutShort     bool
	WallS        float64
}

type CaseFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message,omitempty"`
	Shard    int             `json:"shard,omitempty"` // see surroundings
	Case     json.RawMessage `json:"case"`
}

type ChildResult struct {
	Parts   []*PartResult
	Failure *CaseFile
	Error   string
}

type fakeTB struct {
	name   string
	failed bool
	msgs   []string
}

type stopTB struct{}

func (f *fakeTB) Helper()                  {}
func (f *fakeTB) Name() string             { return f.name }
func (f *fakeTB) Logf(s string, a ...any)  {}
func (f *fakeTB) Log(a ...any)             {}
func (f *fakeTB) Skipf(s string, a ...any) { panic(stopTB{}) }
func (f *fakeTB) Skip(a ...any)            { panic(stopTB{}) }
func (f *fakeTB) SkipNow()                 { panic(stopTB{}) }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.msgs = append(f.msgs, fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(a ...any)            { f.failed = true; f.msgs = append(f.msgs, fmt.Sprint(a...)) }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Errorf(s, a...); panic(stopTB{}) }
func (f *fakeTB) Fatal(a ...any)            { f.Error(a...); panic(stopTB{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(stopTB{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

func hash64(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// watch state, read by the watchdog goroutine
var (
	watchStart atomic.Int64
	watchLimit atomic.Int64
)

func startWatchdog() {
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			if s := watchStart.Load(); s != 0 && time.Now().UnixNano()-s > watchLimit.Load() {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HARNESS: case exceeded its time limit\n%s\n", buf[:n])
				os.Exit(3)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				fmt.Fprintln(os.Stderr, "HARNESS: heap limit exceeded")
				os.Exit(4)
			}
		}
	}()
}

const sutPath = "github.com/ElectroUnion/egts-gate"

// sutPanic tells whether a stack trace of a panic enters the code under test
// before it comes back to the harness.
func sutPanic(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, sutPath) || strings.HasPrefix(l, "created by "+sutPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

type harnessPanic struct {
	v     any
	stack string
}

// runCase runs one case and turns panics of the code under test into failures.
func runCase(p *Part, r *Rec, c any) (f *Failure) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if sutPanic(st) {
				f = failf("panic: %v\n%s", e, trimStack(st))
				return
			}
			panic(harnessPanic{e, st})
		}
	}()
	return p.run(r, c)
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	ls := strings.Split(s, "\n")
	if len(ls) > 16 {
		ls = ls[:16]
	}
	return strings.Join(ls, "\n")
}

func newRec(js []byte) *Rec {
	r := &Rec{labels: map[string]int{}, seed: hash64(string(js))}
	// nothing may depend on the log level
	logrus.SetLevel([]logrus.Level{logrus.DebugLevel, logrus.DebugLevel, logrus.InfoLevel, logrus.ErrorLevel}[r.seed>>7%4])
	return r
}

func caseLimit(p *Part) time.Duration {
	if p.CaseLimit == 0 {
		return 30 * time.Second
	}
	return p.CaseLimit
}

// slow marks a part whose cases start programs.
func slow(p *Part) *Part {
	p.CaseLimit = 120 * time.Second
	return p
}

func childMain(id string, shard int, work string) {
	ck := checks[id]
	tier, seed := os.Getenv("VERIF_TIER"), os.Getenv("VERIF_SEED")
	res := &ChildResult{}
	write := func() {
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(filepath.Join(work, fmt.Sprintf("result.%d.json", shard)), b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS:", err)
			os.Exit(5)
		}
	}
	defer func() {
		if e := recover(); e != nil {
			if hp, ok := e.(harnessPanic); ok {
				fmt.Fprintf(os.Stderr, "HARNESS PANIC: %v\n%s\n", hp.v, hp.stack)
			} else {
				fmt.Fprintf(os.Stderr, "HARNESS PANIC: %v\n%s\n", e, debug.Stack())
			}
			os.Exit(5)
		}
	}()
	surroundings(id, shard)
	startWatchdog()
	if ck.Setup != nil {
		if err := ck.Setup(work); err != nil {
			res.Error = err.Error()
			write()
			return
		}
	}
	budget := 150 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	deadline := time.Now().Add(budget)
	journal, err := os.Create(filepath.Join(work, fmt.Sprintf("journal.%d", shard)))
	if err != nil {
		res.Error = err.Error()
		write()
		return
	}
	only := os.Getenv("HARNESS_PART")
	for pi, p := range ck.Parts {
		if only != "" && only != p.Name {
			continue
		}
		n := p.Quick
		if tier == "thorough" {
			n = p.Thorough
		}
		if n == 0 {
			continue
		}
		if k, err := strconv.Atoi(os.Getenv("HARNESS_SCALE")); err == nil { // per cent, for trying out changes
			n = max(1, n*k/100)
		}
		// every part gets its share of what is left
		partEnd := time.Now().Add(time.Until(deadline) / time.Duration(len(ck.Parts)-pi))
		pr := &PartResult{Name: p.Name, Rule: p.Rule, NonTrivial: map[string]bool{}, Labels: map[string]int{}}
		res.Parts = append(res.Parts, pr)
		start := time.Now()
		var last *CaseFile
		var lastSoft bool
		failing := false
		prop := func(t *rapid.T) {
			if !failing && time.Now().After(partEnd) {
				pr.CutShort = true
				return
			}
			c := p.gen(t)
			js, err := json.Marshal(c)
			if err != nil {
				panic(harnessPanic{err, ""})
			}
			cf := CaseFile{Property: id, Part: p.Name, Shard: shard, Case: js}
			jb, _ := json.Marshal(cf)
			_ = journal.Truncate(0)
			_, _ = journal.WriteAt(jb, 0)
			r := newRec(js)
			watchLimit.Store(int64(caseLimit(p)))
			watchStart.Store(time.Now().UnixNano())
			f := runCase(p, r, c)
			watchStart.Store(0)
			if !failing {
				pr.Evaluations++
				pr.Sub += r.sub
				if r.inconcl != "" {
					pr.Inconclusive++
					pr.Labels["inconclusive: "+r.inconcl]++
				} else if r.nontrivial {
					k := fmt.Sprintf("%x", hash64(string(js)))
					if !pr.NonTrivial[k] && len(pr.Samples) < 2 && len(js) < 6000 && pr.Evaluations > 3 {
						pr.Samples = append(pr.Samples, js)
					}
					pr.NonTrivial[k] = true
				}
				for l, k := range r.labels {
					pr.Labels[l] += k
				}
			}
			if f != nil {
				failing = true
				cf.Message = f.Msg
				last, lastSoft = &cf, f.Soft
				t.Fatalf("violation")
			}
		}
		setFlag("rapid.checks", fmt.Sprint(n))
		sd := hash64(seed, id, p.Name, fmt.Sprint(shard))
		if sd == 0 {
			sd = 1
		}
		setFlag("rapid.seed", fmt.Sprint(sd))
		setFlag("rapid.nofailfile", "true")
		shr := p.Shrink
		if shr == 0 {
			shr = 8 * time.Second
		}
		setFlag("rapid.shrinktime", shr.String())
		tb := &fakeTB{name: id + "-" + p.Name}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopTB); !ok {
						panic(e)
					}
				}
			}()
			rapid.Check(tb, prop)
		}()
		pr.WallS = time.Since(start).Seconds()
		if last != nil && lastSoft {
			// a timing failure counts only if it shows again
			again := 0
			c, err := p.parse(last.Case)
			for i := 0; err == nil && i < 3; i++ {
				r := newRec(last.Case)
				watchStart.Store(time.Now().UnixNano())
				f := runCase(p, r, c)
				watchStart.Store(0)
				if f != nil {
					again++
					last.Message = f.Msg
				}
			}
			if again < 3 {
				pr.Labels["timing deviation not reproduced"]++
				last = nil
			}
		} else if last == nil && tb.failed {
			fmt.Fprintf(os.Stderr, "HARNESS: rapid: %s\n", strings.Join(tb.msgs, "\n"))
			res.Error = "rapid: " + strings.Join(tb.msgs, "; ")
			write()
			return
		}
		if last != nil {
			res.Failure = last
			write()
			return
		}
	}
	write()
}

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

// surroundings gives the process what differs between machines: the local time
// zone, also of the programs it starts, and the number of processors in use.
func surroundings(id string, shard int) {
	type zone struct {
		name string
		off  int
	}
	z := []zone{{"UTC", 0}, {"Asia/Kolkata", 19800}, {"America/New_York", -18000}, {"Pacific/Chatham", 45900}, {"Europe/Moscow", 10800}, {"Pacific/Marquesas", -34200}}[shard%6]
	_ = os.Setenv("TZ", z.name)
	if z.off != 0 {
		time.Local = time.FixedZone(z.name, z.off)
	}
	if id[0] == 'S' && id != "S10" {
		if n := []int{0, 2, 0, 1}[shard%4]; n > 0 {
			runtime.GOMAXPROCS(n)
		}
	}
}

// oneMain runs a single journaled or replayed case.
// exit 0 holds, 1 violated, 3 hang, 5 harness error; a crash ends the process.
func oneMain(id, file, work string) int {
	ck := checks[id]
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	var cf CaseFile
	if err := json.Unmarshal(b, &cf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	surroundings(id, cf.Shard)
	startWatchdog()
	if ck.Setup != nil {
		if err := ck.Setup(work); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 5
		}
	}
	for _, p := range ck.Parts {
		if p.Name != cf.Part {
			continue
		}
		c, err := p.parse(cf.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 5
		}
		r := newRec(cf.Case)
		r.replay = true
		watchLimit.Store(int64(caseLimit(p)))
		watchStart.Store(time.Now().UnixNano())
		f := runCase(p, r, c)
		watchStart.Store(0)
		if f != nil {
			fmt.Println(f.Msg)
			return 1
		}
		if r.inconcl != "" {
			fmt.Println("inconclusive:", r.inconcl)
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such part:", cf.Part)
	return 5
}

// ---- parallel helper -------------------------------------------------------------

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type lockedBuf struct {
	mu  sync.Mutex
	b   []byte
	max int // keep about that many bytes from the end (0: all)
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, p...)
	if l.max > 0 && len(l.b) > 2*l.max {
		l.b = append(l.b[:0], l.b[len(l.b)-l.max:]...)
	}
	return len(p), nil
}

func (l *lockedBuf) tail(n int) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b[max(0, len(l.b)-n):])
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

func newRnd(seed uint64) *rand.Rand { return rand.New(rand.NewSource(int64(seed))) }

func sync2[T any](f func() T) func() T { return sync.OnceValue(f) }

// mustCopy makes a deep copy through JSON.
func mustCopy(from, to any) {
	b, err := json.Marshal(from)
	if err == nil {
		err = json.Unmarshal(b, to)
	}
	if err != nil {
		panic(harnessPanic{err, "copy"})
	}
}
