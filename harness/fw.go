// Package main is the verification harness: every property of
// /verif/properties.jsonl is an executable check over generated plans.
//
// A plan is a plain JSON value. All random choices are drawn through rapid
// while the plan is built; running a plan is a function of the plan and the
// code under test only, so a (shrunk) failing plan is its own replay file and
// needs neither rapid nor a seed.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// failure is the panic value with which a check reports a violation.
type failure struct{ msg string }

// harnessError is the panic value for trouble that says nothing about the code
// under test (a time-out that could not be confirmed as a hang, for example).
type harnessError struct{ msg string }

// C is the context of one run of a plan.
type C struct {
	classes    map[string]bool
	nontrivial bool
	cleanups   []func()
	kept       []func() string
	mu         sync.Mutex
	narrowed   json.RawMessage
}

// Kept asks for a result to be looked at again once other cases of the same
// process have run: look says what is wrong with it, if anything.
func (c *C) Kept(look func() string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.kept = append(c.kept, look)
}

// recheck looks at what was kept.
func (c *C) recheck() {
	for _, look := range c.kept {
		if bad := look(); bad != "" {
			c.Failf("what an earlier call returned has changed since: %s",
				bad)
		}
	}
}

// Narrow names a smaller plan that shows the violation about to be reported.
func (c *C) Narrow(plan interface{}) { c.narrowed = mustJSON(plan) }

// Failf reports a violation of the property. It must be called on the
// goroutine that runs the plan.
func (c *C) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Inconclusive ends the whole check with an error exit.
func (c *C) Inconclusive(format string, args ...interface{}) {
	panic(harnessError{fmt.Sprintf(format, args...)})
}

// Class counts the case under a label.
func (c *C) Class(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.classes[fmt.Sprintf(format, args...)] = true
}

// ClassIf counts the case under a label if cond holds.
func (c *C) ClassIf(cond bool, label string) {
	if cond {
		c.Class("%s", label)
	}
}

// NonTrivial marks the case as non-trivial by the sub-check's rule.
func (c *C) NonTrivial() {
	c.mu.Lock()
	c.nontrivial = true
	c.mu.Unlock()
}

// Cleanup registers f to run when the plan is done.
func (c *C) Cleanup(f func()) {
	c.mu.Lock()
	c.cleanups = append(c.cleanups, f)
	c.mu.Unlock()
}

// Sub is one generated check belonging to a property.
type Sub struct {
	Prop, Name string
	// Quick and Thorough are total case counts over all shards.
	Quick, Thorough int
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Assume lists assumptions.
	Assume []string
	// Procs is how many processors a shard may use, if not one.
	Procs int

	draw func(t *rapid.T) interface{}
	load func(b []byte) (interface{}, error)
	run  func(c *C, plan interface{})
}

var subs []*Sub

// Add registers a sub-check.
func Add[P any](prop, name string, quick, thorough int, rule string,
	draw func(t *rapid.T) P, run func(c *C, p P)) *Sub {

	s := &Sub{
		Prop: prop, Name: name, Quick: quick, Thorough: thorough,
		Rule: rule,
		draw: func(t *rapid.T) interface{} { return draw(t) },
		load: func(b []byte) (interface{}, error) {
			var p P
			err := json.Unmarshal(b, &p)
			return p, err
		},
		run: func(c *C, plan interface{}) { run(c, plan.(P)) },
	}
	subs = append(subs, s)
	return s
}

// watchdog ends the process when one case takes implausibly long. The driver
// decides, by running the case again, whether that is a hang of the code under
// test.
func (s *Sub) watchdog() func() {
	timer := time.AfterFunc(*fCase, func() {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "CASE-TIMEOUT %s/%s\n%s\n", s.Prop,
			s.Name, buf)
		os.Exit(4)
	})
	return func() { timer.Stop() }
}

// execute runs one plan and returns a violation message ("" if none).
func (s *Sub) execute(plan interface{}) (c *C, msg string) {
	if s.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(s.Procs))
	}
	defer s.watchdog()()
	c = &C{classes: map[string]bool{}}
	defer func() {
		r := recover()
		// Release what the case holds; cleanups never judge.
		for i := len(c.cleanups) - 1; i >= 0; i-- {
			func() {
				defer func() { _ = recover() }()
				c.cleanups[i]()
			}()
		}
		if r == nil {
			return
		}
		switch v := r.(type) {
		case failure:
			msg = v.msg
		case harnessError:
			fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s/%s: %s\n",
				s.Prop, s.Name, v.msg)
			os.Exit(3)
		default:
			st := string(debug.Stack())
			if !strings.Contains(st, "github.com/carlakc/boltnd") {
				fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s/%s: "+
					"panic in harness: %v\n%s\n", s.Prop,
					s.Name, r, st)
				os.Exit(3)
			}
			msg = fmt.Sprintf("panic in the code under test: %v\n%s",
				r, boltndFrames(st))
		}
	}()
	s.run(c, plan)
	return
}

// caught turns a panic recovered on another goroutine, where its stack is at
// hand, into one that can be raised on the goroutine of the case.
func caught(r interface{}) interface{} {
	switch r.(type) {
	case nil, failure, harnessError:
		return r
	}
	st := string(debug.Stack())
	if !strings.Contains(st, "github.com/carlakc/boltnd") {
		return harnessError{fmt.Sprintf("panic: %v\n%s", r, st)}
	}
	return failure{fmt.Sprintf("panic in the code under test: %v\n%s", r,
		boltndFrames(st))}
}

func boltndFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "carlakc/boltnd") &&
			!strings.Contains(l, "\t") {

			out = append(out, l)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

// tb is the testing surface rapid needs outside of go test.
type tb struct {
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "verif" }
func (t *tb) Logf(f string, a ...any) {
	if t.log.Len() < 1<<16 {
		fmt.Fprintf(&t.log, f+"\n", a...)
	}
}
func (t *tb) Log(a ...any) {
	if t.log.Len() < 1<<16 {
		fmt.Fprintln(&t.log, a...)
	}
}
func (t *tb) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// SubResult is what one shard measured for one sub-check.
type SubResult struct {
	Sub         string            `json:"sub"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  []string          `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Rule        string            `json:"rule"`
	Assume      []string          `json:"assume,omitempty"`
	WallS       float64           `json:"wall_s"`
	Truncated   bool              `json:"truncated"`
	Violation   *Replay           `json:"violation,omitempty"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Plan     json.RawMessage `json:"plan"`
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessError{err.Error()})
	}
	return b
}

var (
	fProp     = flag.String("prop", "", "property id")
	fSub      = flag.String("sub", "", "only this sub-check")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Int("seed", 1, "seed")
	fShard    = flag.Int("shard", 0, "shard number")
	fShards   = flag.Int("shards", 1, "number of shards")
	fOut      = flag.String("out", "", "output directory")
	fReplay   = flag.String("replay", "", "replay file")
	fScale    = flag.Float64("scale", 1, "multiplier for case counts")
	fBudget   = flag.Duration("budget", 0, "stop generating after this long")
	fSkip     = flag.Int("skip", -1, "do not execute before this case")
	fIsolate  = flag.Bool("isolate", false, "run each plan in a subprocess")
	fLife     = flag.String("life", "", "file with a life to run")
	fList     = flag.Bool("list", false, "list sub-checks")
	fCase     = flag.Duration("case", 150*time.Second, "watchdog per case")
	fParallel = flag.Int("p", 1, "GOMAXPROCS of a shard")
)

func main() {
	testing.Init()
	flag.Parse()
	_ = flag.Set("rapid.nofailfile", "true")

	switch {
	case *fList:
		for _, s := range subs {
			fmt.Println(s.Prop, s.Name, s.Quick, s.Thorough)
		}
	case *fLife != "":
		os.Exit(lifeMain(*fLife))
	case *fReplay != "":
		os.Exit(replay(*fReplay))
	default:
		os.Exit(search())
	}
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, s := range subs {
		if s.Prop != r.Property || s.Name != r.Sub {
			continue
		}
		plan, err := s.load(r.Plan)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		if _, msg := s.execute(plan); msg != "" {
			fmt.Printf("FAIL %s/%s: %s\n", s.Prop, s.Name, msg)
			return 1
		}
		fmt.Printf("PASS %s/%s\n", s.Prop, s.Name)
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such sub-check")
	return 3
}

func search() int {
	runtime.GOMAXPROCS(*fParallel)
	var (
		results []*SubResult
		start   = time.Now()
		found   bool
	)
	inflight, err := os.Create(filepath.Join(
		*fOut, fmt.Sprintf("inflight-%d.json", *fShard),
	))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, s := range subs {
		if s.Prop != *fProp || (*fSub != "" && *fSub != s.Name) {
			continue
		}
		r := s.search(inflight, start)
		results = append(results, r)
		if r.Violation != nil {
			found = true
		}
	}
	if len(results) == 0 {
		fmt.Fprintln(os.Stderr, "no sub-checks for", *fProp)
		return 3
	}
	out := filepath.Join(*fOut, fmt.Sprintf("result-%d.json", *fShard))
	if err := os.WriteFile(out, mustJSON(results), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if found {
		return 1
	}
	return 0
}

func (s *Sub) search(inflight *os.File, start time.Time) *SubResult {
	total := s.Quick
	if *fTier == "thorough" {
		total = s.Thorough
	}
	total = int(float64(total) * *fScale)
	checks := (total + *fShards - 1) / *fShards
	if checks < 1 {
		checks = 1
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", s.Prop, s.Name, *fSeed, *fShard)
	seed := h.Sum64()>>1 | 1
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.shrinktime", "8s")

	res := &SubResult{
		Sub: s.Name, Classes: map[string]int{}, Rule: s.Rule,
		Assume: s.Assume,
	}
	var (
		began      = time.Now()
		nontrivial = map[string]bool{}
		failing    bool
		narrowed   bool
		lastFail   *Replay
		n          int
	)
	record := func(plan json.RawMessage, msg string) {
		lastFail = &Replay{
			Property: s.Prop, Sub: s.Name, Message: msg, Plan: plan,
		}
	}
	prop := func(t *rapid.T) {
		if narrowed {
			// What was reported is one part of a plan already.
			t.Fatalf("violation")
		}
		plan := s.draw(t)
		n++
		if !failing && *fBudget > 0 && time.Since(start) > *fBudget {
			res.Truncated = true
			return
		}
		if !failing && n <= *fSkip {
			return
		}
		j := mustJSON(plan)
		hdr := mustJSON(&Replay{
			Property: s.Prop, Sub: s.Name, Message: strconv.Itoa(n),
			Plan: j,
		})
		_ = inflight.Truncate(int64(len(hdr)))
		_, _ = inflight.WriteAt(hdr, 0)

		if *fIsolate {
			if msg := runIsolated(s, j); msg != "" {
				failing = true
				record(j, msg)
				t.Fatalf("violation")
			}
			return
		}

		// Run what a replay would run: the plan as it reads from JSON.
		loaded, err := s.load(j)
		if err != nil {
			panic(harnessError{err.Error()})
		}
		c, msg := s.execute(loaded)
		if msg != "" {
			failing = true
			if c.narrowed != nil {
				j, narrowed = c.narrowed, true
			}
			record(j, msg)
			t.Fatalf("violation")
		}
		if failing {
			return
		}
		res.Evaluations++
		for k := range c.classes {
			res.Classes[k]++
		}
		if c.nontrivial {
			sum := sha256.Sum256(j)
			key := hex.EncodeToString(sum[:6])
			if !nontrivial[key] {
				nontrivial[key] = true
				if len(res.Samples) < 2 && len(j) < 4000 {
					res.Samples = append(res.Samples, j)
				}
			}
		}
	}
	t := &tb{}
	func() {
		defer func() {
			r := recover()
			if he, ok := r.(harnessError); ok {
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR", he.msg)
				os.Exit(3)
			}
			if _, ok := r.(tbStop); r != nil && !ok {
				panic(r)
			}
		}()
		rapid.Check(t, prop)
	}()
	if t.failed && lastFail == nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", s.Prop, s.Name,
			t.log.String())
		os.Exit(3)
	}
	res.Violation = lastFail
	for k := range nontrivial {
		res.NonTrivial = append(res.NonTrivial, k)
	}
	sort.Strings(res.NonTrivial)
	res.WallS = time.Since(began).Seconds()
	return res
}
