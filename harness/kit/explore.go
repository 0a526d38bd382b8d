package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Violation is one property violation with the scenario that shows it.
type Violation struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// Stats is what one shard covered. States and transitions are counted on the
// enumeration itself (identical in every shard); the rest is per shard.
type Stats struct {
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Scenarios   int64    `json:"scenarios"`
	Traces      int64    `json:"traces"`
	Steps       int64    `json:"steps"`
	Checks      int64    `json:"checks"`
	Nontrivial  int64    `json:"nontrivial"`
	Skipped     int64    `json:"skipped"`
	Samples     []string `json:"samples"`
	Bounds      []string `json:"bounds"`
}

type result struct {
	Stats      Stats       `json:"stats"`
	Violations []Violation `json:"violations"`
	Known      []string    `json:"known"`
	Done       bool        `json:"done"`
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Key      string `json:"key"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	keyRE    *regexp.Regexp
	msgRE    *regexp.Regexp
}

// Run is one shard's exploration of one property.
type Run struct {
	T        *testing.T
	ID       string
	Tier     string
	shard    int
	nshards  int
	replay   string
	outDir   string
	deadline time.Time
	next     int
	seen     map[string]bool

	mu      sync.Mutex
	res     result
	known   []knownFinding
	knownHi map[string]bool

	curKey   atomic.Pointer[string]
	curStart atomic.Int64
	progress *os.File
}

// Start prepares the exploration of a property from the environment.
func Start(t *testing.T, id string) *Run {
	r := &Run{T: t, ID: id, Tier: os.Getenv("VERIF_TIER"), nshards: 1, knownHi: map[string]bool{}, seen: map[string]bool{}}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		a, b, _ := strings.Cut(s, "/")
		r.shard, _ = strconv.Atoi(a)
		r.nshards, _ = strconv.Atoi(b)
	}
	r.replay = os.Getenv("VERIF_REPLAY")
	r.outDir = os.Getenv("VERIF_OUT")
	budget := 60.0
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		budget, _ = strconv.ParseFloat(s, 64)
	}
	r.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	if p := os.Getenv("VERIF_KNOWN"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		var l []knownFinding
		if err := json.Unmarshal(b, &l); err != nil {
			t.Fatal(err)
		}
		for _, k := range l {
			if k.Property == id && k.Status == "known" {
				k.keyRE = regexp.MustCompile(k.Key)
				k.msgRE = regexp.MustCompile(k.Msg)
				r.known = append(r.known, k)
			}
		}
	}
	if r.outDir != "" {
		f, err := os.Create(filepath.Join(r.outDir, fmt.Sprintf("cur-%d", r.shard)))
		if err != nil {
			t.Fatal(err)
		}
		r.progress = f
	}
	go r.watchdog()
	t.Cleanup(func() { r.finish(true) })
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func (r *Run) Pick(q, th int) int {
	if r.Thorough() {
		return th
	}
	return q
}

// Bound records a bound of the exploration for the evidence.
func (r *Run) Bound(format string, a ...any) {
	r.res.Stats.Bounds = append(r.res.Stats.Bounds, fmt.Sprintf(format, a...))
}

func (r *Run) watchdog() {
	limit := int64(60)
	if s := os.Getenv("VERIF_HANG"); s != "" {
		limit, _ = strconv.ParseInt(s, 10, 64)
	}
	for {
		time.Sleep(time.Second)
		st := r.curStart.Load()
		if st == 0 || time.Now().Unix()-st < limit {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		r.violate(*r.curKey.Load(), fmt.Sprintf("the bouncer hangs: no progress for %d s of real time", limit))
		if r.outDir != "" {
			os.WriteFile(filepath.Join(r.outDir, fmt.Sprintf("hang-%d.txt", r.shard)), buf, 0o644)
		} else {
			os.Stderr.Write(buf)
		}
		r.finish(false)
		os.Exit(4)
	}
}

func (r *Run) violate(key, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.keyRE.MatchString(key) && k.msgRE.MatchString(msg) {
			if !r.knownHi[k.What] {
				r.knownHi[k.What] = true
				r.res.Known = append(r.res.Known, k.What)
			}
			return
		}
	}
	if len(r.res.Violations) < 5 {
		r.res.Violations = append(r.res.Violations, Violation{key, msg})
	}
	if r.outDir == "" {
		fmt.Printf("VIOLATED %s [%s]: %s\n", r.ID, key, msg)
	}
}

func (r *Run) finish(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	b, _ := json.MarshalIndent(&r.res, "", " ")
	if r.outDir != "" {
		os.WriteFile(filepath.Join(r.outDir, fmt.Sprintf("res-%d.json", r.shard)), b, 0o644)
	} else {
		s := r.res.Stats
		s.Samples = nil
		sb, _ := json.Marshal(&s)
		fmt.Printf("%s: %s\n", r.ID, sb)
		if len(r.res.Violations) > 0 {
			r.T.Fail()
		}
	}
}

// Stop reports whether the shard should stop early.
func (r *Run) Stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.res.Violations) >= 3
}

// Ctx is the context of one scenario.
type Ctx struct {
	R          *Run
	Key        string
	AllowPanic bool
	mu         sync.Mutex
	bad        bool
	checks     int64
	trail      []string
}

// Violatef reports that the scenario violates the property.
func (c *Ctx) Violatef(format string, a ...any) {
	c.mu.Lock()
	first := !c.bad
	c.bad = true
	trail := ""
	if len(c.trail) > 0 {
		trail = " [after: " + strings.Join(c.trail, "; ") + "]"
	}
	c.mu.Unlock()
	if first {
		c.R.violate(c.Key, fmt.Sprintf(format, a...)+trail)
	}
}

// Bad reports whether the scenario already failed.
func (c *Ctx) Bad() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.bad }

// Check evaluates one oracle comparison.
func (c *Ctx) Check(ok bool, format string, a ...any) bool {
	c.checks++
	if !ok {
		c.Violatef(format, a...)
	}
	return ok
}

// Step notes a performed action, for counterexamples and statistics.
func (c *Ctx) Step(s string) {
	c.mu.Lock()
	c.trail = append(c.trail, s)
	c.mu.Unlock()
	c.R.res.Stats.Steps++
}

func (r *Run) claim(key string) bool {
	if r.seen[key] {
		panic("harness: duplicate scenario key " + key)
	}
	if r.nshards <= 64 && len(r.seen) < 5_000_000 {
		r.seen[key] = true
	}
	idx := r.next
	r.next++
	r.res.Stats.Scenarios++
	if r.replay != "" {
		return key == r.replay
	}
	if (idx*2654435761>>7)%r.nshards != r.shard {
		return false
	}
	if r.Stop() {
		return false
	}
	if time.Now().After(r.deadline) {
		r.res.Stats.Skipped++
		return false
	}
	return true
}

func (r *Run) begin(key string) *Ctx {
	r.curKey.Store(&key)
	r.curStart.Store(time.Now().Unix())
	if r.progress != nil {
		b := []byte(key)
		if len(b) > 4000 {
			b = b[:4000]
		}
		buf := make([]byte, 4096)
		n := copy(buf, b)
		buf[n] = '\n'
		r.progress.WriteAt(buf[:n+1], 0)
	}
	return &Ctx{R: r, Key: key}
}

func (r *Run) end(c *Ctx) {
	r.curStart.Store(0)
	s := &r.res.Stats
	s.Traces++
	s.Checks += c.checks
	if c.checks > 0 {
		s.Nontrivial++
	}
	if len(s.Samples) < 3 || (s.Traces&(s.Traces-1) == 0 && len(s.Samples) < 12) {
		s.Samples = append(s.Samples, c.Key)
	}
}

// Plain runs a scenario outside any bubble.
func (r *Run) Plain(key string, f func(c *Ctx)) {
	if !r.claim(key) {
		return
	}
	c := r.begin(key)
	func() {
		defer recoverTo(c)
		f(c)
	}()
	r.end(c)
}

func recoverTo(c *Ctx) {
	if e := recover(); e != nil {
		c.Violatef("panic: %v\n%s", e, firstLines(trimStack(string(debug.Stack())), 24))
	}
}

func trimStack(s string) string {
	if i := strings.LastIndex(s, "panic("); i >= 0 {
		return s[i:]
	}
	return s
}

// Bubble runs a scenario in a synctest bubble.
func (r *Run) Bubble(key string, f func(c *Ctx)) {
	if !r.claim(key) {
		return
	}
	c := r.begin(key)
	func() {
		defer func() {
			if e := recover(); e != nil {
				// The bubble is wedged: goroutines of the bouncer are
				// blocked for ever. The process cannot continue safely.
				c.Violatef("goroutines of the bouncer stay blocked for ever: %v", e)
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				if r.outDir != "" {
					os.WriteFile(filepath.Join(r.outDir, fmt.Sprintf("hang-%d.txt", r.shard)), buf, 0o644)
				} else {
					os.Stderr.Write(buf)
				}
				r.end(c)
				r.finish(false)
				os.Exit(4)
			}
		}()
		synctest.Test(r.T, func(t *testing.T) {
			defer recoverTo(c)
			f(c)
		})
	}()
	r.end(c)
}

// World runs a scenario with a fresh world in a bubble.
func (r *Run) World(key string, f func(c *Ctx, w *World)) {
	r.Bubble(key, func(c *Ctx) {
		w := NewWorld(c)
		defer w.Close()
		defer recoverTo(c)
		f(c, w)
	})
}

// Tree enumerates every maximal sequence of actions up to a depth. enabled is
// a pure function of the prefix. Each sequence is one scenario; oracles check
// after every step, so prefixes are covered by their extensions.
func (r *Run) Tree(group string, depth int, enabled func(seq []string) []string, exec func(key string, seq []string)) {
	nodes, edges := int64(0), int64(0)
	var rec func(seq []string)
	rec = func(seq []string) {
		nodes++
		var acts []string
		if len(seq) < depth {
			acts = enabled(seq)
		}
		if len(acts) == 0 {
			s := append([]string(nil), seq...)
			exec(group+":"+strings.Join(s, ","), s)
			return
		}
		for _, a := range acts {
			edges++
			rec(append(seq, a))
		}
	}
	rec(nil)
	r.res.Stats.States += nodes
	r.res.Stats.Transitions += edges
	r.Bound("%s: all action sequences to depth %d (%d prefixes)", group, depth, nodes)
}

// GraphEpi is Graph with an epilogue: every transition's trace is extended with
// epi(state after it), so that a wrong hidden state of the implementation after
// the transition becomes visible even when the model state is one reached
// (more directly) by another trace.
func GraphEpi[S any](r *Run, group string, init S, key func(S) string, enabled func(S) []string, next func(S, string) S, maxDepth int, epi func(S) []string, exec func(key string, seq []string)) {
	graph(r, group, init, key, enabled, next, maxDepth, epi, exec)
}

// Graph explores a pure reference model breadth-first and yields, for every
// transition of its reachable graph, a trace ending with that transition. A
// trace that is a prefix of another one is not executed separately.
func Graph[S any](r *Run, group string, init S, key func(S) string, enabled func(S) []string, next func(S, string) S, maxDepth int, exec func(key string, seq []string)) {
	graph(r, group, init, key, enabled, next, maxDepth, nil, exec)
}

func graph[S any](r *Run, group string, init S, key func(S) string, enabled func(S) []string, next func(S, string) S, maxDepth int, epi func(S) []string, exec func(key string, seq []string)) {
	type node struct {
		s    S
		path []string
	}
	seen := map[string]bool{key(init): true}
	queue := []node{{init, nil}}
	var traces, epis [][]string
	isPrefix := map[string]bool{}
	edges := int64(0)
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if len(n.path) >= maxDepth {
			continue
		}
		for _, a := range enabled(n.s) {
			edges++
			s2 := next(n.s, a)
			p := append(append([]string(nil), n.path...), a)
			traces = append(traces, p)
			if epi != nil {
				epis = append(epis, epi(s2))
			}
			isPrefix[strings.Join(n.path, ",")] = true
			if k := key(s2); !seen[k] {
				seen[k] = true
				queue = append(queue, node{s2, p})
			}
		}
	}
	for i, p := range traces {
		k := strings.Join(p, ",")
		if epi != nil {
			if e := epis[i]; len(e) > 0 {
				k += "+" + strings.Join(e, ",")
				p = append(append([]string(nil), p...), e...)
			}
		} else if isPrefix[k] {
			continue
		}
		exec(group+":"+k, p)
	}
	r.res.Stats.States += int64(len(seen))
	r.res.Stats.Transitions += edges
	r.Bound("%s: reference model explored breadth-first to depth %d: %d states, %d transitions, every transition replayed on the implementation", group, maxDepth, len(seen), edges)
}

// Count adds enumerated states/transitions that are not produced by Tree.
func (r *Run) Count(states, transitions int) {
	r.res.Stats.States += int64(states)
	r.res.Stats.Transitions += int64(transitions)
}
