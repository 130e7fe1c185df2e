//go:build go1.21

package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	log "github.com/inconshreveable/log15"
)

// Violation is one observed breach of a property.
type Violation struct {
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
	Suite string   `json:"suite"`
	Case  int      `json:"case"`
	Trace []string `json:"trace,omitempty"`
}

// Result is what a worker process hands to the driver.
type Result struct {
	Prop         string           `json:"prop"`
	Evaluations  int64            `json:"evaluations"`
	Inconclusive map[string]int64 `json:"inconclusive"`
	Counters     map[string]int64 `json:"counters"`
	Distinct     []uint64         `json:"distinct"`
	Samples      []string         `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Done         bool             `json:"done"`
}

// Run is one worker's share of a check.
type Run struct {
	T      *testing.T
	Prop   string
	Tier   string
	Seed   int64
	Shard  int
	Shards int
	Only   string // "suite/case": replay a single case
	From   string // resume after this "suite/case"
	out    string
	prog   string

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	skipping bool
	caseNo   atomic.Int64
	caseName atomic.Value
	caseFrom atomic.Int64
	nviol    map[string]int
	ntotal   atomic.Int64
	firstBad atomic.Int64
}

// C is one case.
type C struct {
	*Run
	Suite string
	I     int
	R     *rand.Rand
	Rnd   int64

	cmu   sync.Mutex
	trace []string
	bad   bool
	lap   time.Time
}

// Lap prints how long a phase took when asked to.
func (c *C) Lap(what string) {
	if os.Getenv("VERIF_LAPS") != "" {
		now := time.Now()
		if !c.lap.IsZero() {
			fmt.Printf("LAP %s/%d %s %dms\n", c.Suite, c.I, what, now.Sub(c.lap).Milliseconds())
		}
		c.lap = now
	}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// CaseLimit is how long (real time) one case may take before it is called a
// hang. Cases take milliseconds to a few seconds.
var CaseLimit = 100 * time.Second

// Main runs the registered check named by the environment.
func Main(t *testing.T, reg map[string]func(*Run)) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("driven by check.py")
	}
	fn, ok := reg[prop]
	if !ok {
		t.Fatalf("no check for %s in this binary", prop)
	}
	if os.Getenv("VERIF_LOG") == "" {
		log.Root().SetHandler(log.DiscardHandler())
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	shard, _ := strconv.Atoi(env("VERIF_SHARD", "0"))
	shards, _ := strconv.Atoi(env("VERIF_SHARDS", "1"))
	r := &Run{T: t, Prop: prop, Tier: env("VERIF_TIER", "quick"), Seed: seed, Shard: shard, Shards: shards,
		Only: os.Getenv("VERIF_ONLY"), From: os.Getenv("VERIF_FROM"), out: os.Getenv("VERIF_OUT"), prog: os.Getenv("VERIF_PROGRESS"),
		distinct: map[uint64]struct{}{}, nviol: map[string]int{}}
	r.skipping = r.From != ""
	r.res = Result{Prop: prop, Inconclusive: map[string]int64{}, Counters: map[string]int64{}}
	go r.watchdog()
	fn(r)
	r.caseNo.Store(0)
	r.flush(true)
	if len(r.res.Violations) > 0 && r.out == "" {
		for _, v := range r.res.Violations {
			t.Errorf("%s/%d %s: %s\n  %s", v.Suite, v.Case, v.Sig, v.Msg, strings.Join(v.Trace, "\n  "))
		}
	}
	if r.out == "" {
		fmt.Println("evaluations", r.res.Evaluations, "distinct", len(r.distinct), r.res.Counters, r.res.Inconclusive)
	}
}

func (r *Run) watchdog() {
	for {
		time.Sleep(time.Second)
		n := r.caseNo.Load()
		if n == 0 {
			continue
		}
		from := r.caseFrom.Load()
		if time.Since(time.Unix(0, from)) > CaseLimit && r.caseNo.Load() == n {
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("VERIF-HANG case %v did not finish within %v\n%s\n", r.caseName.Load(), CaseLimit, buf)
			r.flush(false)
			os.Exit(97)
		}
	}
}

func (r *Run) flush(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	r.res.Distinct = r.res.Distinct[:0]
	for k := range r.distinct {
		r.res.Distinct = append(r.res.Distinct, k)
	}
	if r.out == "" {
		return
	}
	b, err := json.Marshal(r.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(r.out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(r.out+".tmp", r.out); err != nil {
		panic(err)
	}
}

// Pick returns the quick or the thorough amount.
func (r *Run) Pick(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Cases runs this worker's share of n cases.
func (r *Run) Cases(suite string, n int, fn func(c *C)) {
	for i := 0; i < n; i++ {
		if r.ntotal.Load() >= 25 || r.ntotal.Load() > 0 && time.Since(time.Unix(0, r.firstBad.Load())) > 30*time.Second {
			return // enough is known
		}
		if i%r.Shards != r.Shard && r.Only == "" {
			continue
		}
		name := fmt.Sprintf("%s/%d", suite, i)
		if r.Only != "" && r.Only != name {
			continue
		}
		if r.skipping {
			if name == r.From {
				r.skipping = false
			}
			continue
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d|%s|%s|%d", r.Seed, r.Prop, suite, i)
		s := int64(h.Sum64() & 0x7fffffffffffffff)
		c := &C{Run: r, Suite: suite, I: i, Rnd: s, R: rand.New(rand.NewSource(s))}
		r.caseName.Store(name)
		r.caseFrom.Store(time.Now().UnixNano())
		r.caseNo.Add(1)
		if r.prog != "" {
			os.WriteFile(r.prog, []byte(name), 0o644)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					st := string(debug.Stack())
					c.PanicViolation(e, st)
				}
			}()
			fn(c)
		}()
		if d := time.Since(time.Unix(0, r.caseFrom.Load())); os.Getenv("VERIF_LAPS") != "" {
			r.Count("ms_"+suite, int(d.Milliseconds()))
			r.Max("max_ms_"+suite, d.Milliseconds())
		}
		r.mu.Lock()
		r.res.Evaluations++
		r.mu.Unlock()
		if i%64 == 0 {
			r.flush(false)
		}
	}
}

// PanicViolation classifies a panic recovered in a case.
func (c *C) PanicViolation(e interface{}, st string) {
	msg := fmt.Sprint(e)
	if strings.HasPrefix(msg, "case-abort") {
		return
	}
	if strings.HasPrefix(msg, "deadlock: ") {
		// from a bubble: nothing in it can ever go on
		left := strings.Contains(msg, "main bubble goroutine has exited")
		switch {
		case !left:
			c.Violate("hang", "%s", msg)
		case c.Prop == "C12" || c.Prop == "C18":
			c.Violate("left-running", "after closing, goroutines remain that wait forever: %s", msg)
		default:
			c.Count("left_running", 1)
		}
		return
	}
	if !strings.Contains(st, "/cardinal-streams/") {
		c.trace = append(c.trace, strings.Split(st, "\n")...)
		if _, ok := e.(runtime.Error); ok {
			// the harness stumbled over what it was given
			c.Violate("unusable", "the code under test gave something no caller could use: %s", msg)
			return
		}
		c.Inconclusive("harness panic: " + msg)
		fmt.Println("HARNESS PANIC", c.Suite, c.I, msg, st)
		return
	}
	c.Tracef("%s", clipStack(st))
	c.Violate("panic:"+panicSite(st), "the code under test panicked: %s", msg)
}

// panicSite names the topmost frame of the code under test.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") || !strings.Contains(l, "cardinal-streams/v2/") {
			continue
		}
		l = l[strings.Index(l, "cardinal-streams/v2/")+len("cardinal-streams/v2/"):]
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		return l
	}
	return "?"
}

func clipStack(s string) string {
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

// Tracef adds to the event log of a case (kept only for replays).
func (c *C) Tracef(f string, a ...interface{}) {
	c.cmu.Lock()
	defer c.cmu.Unlock()
	if len(c.trace) < 4000 {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

// Violate records a violation. sig identifies the kind of failure.
func (c *C) Violate(sig, f string, a ...interface{}) {
	c.cmu.Lock()
	c.bad = true
	tr := c.trace
	if len(tr) > 400 {
		tr = append(append([]string{}, tr[:100]...), append([]string{"..."}, tr[len(tr)-300:]...)...)
	}
	tr = append([]string{}, tr...)
	c.cmu.Unlock()
	v := Violation{Sig: sig, Msg: fmt.Sprintf(f, a...), Suite: c.Suite, Case: c.I, Trace: tr}
	c.mu.Lock()
	c.nviol[sig]++
	c.res.Counters["violations"]++
	first := c.nviol[sig] <= 2
	if first {
		c.res.Violations = append(c.res.Violations, v)
	}
	c.mu.Unlock()
	if c.ntotal.Add(1) == 1 {
		c.firstBad.Store(time.Now().UnixNano())
	}
	if first {
		c.flush(false)
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("VIOLATED %s/%d %s: %s\n", c.Suite, c.I, sig, v.Msg)
	}
}

// Bad reports whether the case has violated already.
func (c *C) Bad() bool {
	c.cmu.Lock()
	defer c.cmu.Unlock()
	return c.bad
}

// Abort ends the case.
func (c *C) Abort() { panic("case-abort") }

func (r *Run) Inconclusive(why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Inconclusive[why]++
}

// Count adds to an observation counter.
func (r *Run) Count(k string, n int) {
	if n == 0 {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Counters[k] += int64(n)
}

// Evals adds executions beyond the one each case counts for.
func (r *Run) Evals(n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Evaluations += int64(n)
}

// Max keeps a maximum (name must start with "max_").
func (r *Run) Max(k string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.res.Counters[k] < n {
		r.res.Counters[k] = n
	}
}

// Distinct records that a nontrivial execution with this fingerprint was seen.
func (r *Run) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.distinct) < 200000 {
		r.distinct[h.Sum64()] = struct{}{}
	}
}

// Sample keeps a few written-out cases.
func (c *C) Sample(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.res.Samples = append(c.res.Samples, fmt.Sprintf("[%s/%d] %s", c.Suite, c.I, s))
	}
}
