// Package engine is a stateless explicit-choice model checker for sequential
// harnesses over the real code.
//
// A harness is a function of *T. Every nondeterministic decision (which
// operation comes next, which input from a finite alphabet, whether the
// environment fails now) goes through T.Pick or T.Choose. The explorer runs
// the harness once for every sequence of answers: Pick points are enumerated
// completely, Choose points count as a deviation when answered with anything
// but 0 and are enumerated completely up to a deviation bound, fewest
// deviations first.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type point struct {
	label string
	n     int
	cost  bool
}

// T is one execution of a harness.
type T struct {
	prefix  []int
	labels  []point
	taken   []int
	shard   int
	shards  int
	begun   bool
	tier    string
	log     []string
	keepLog bool
	steps   int64
	states  []uint64
	out     string
}

type notMine struct{}
type diverged struct{ msg string }

// Failure is what a violated check panics with.
type Failure struct {
	Key, Msg string
	Last     bool // the process cannot go on after it
}

func (f Failure) Error() string { return f.Key + ": " + f.Msg }

func (t *T) next(label string, n int, cost bool) int {
	if n <= 0 {
		panic("choice with no alternatives: " + label)
	}
	i := len(t.taken)
	c := 0
	if i < len(t.prefix) {
		c = t.prefix[i]
		if c >= n {
			panic(diverged{fmt.Sprintf("point %d (%s): choice %d of %d", i, label, c, n)})
		}
	}
	t.labels = append(t.labels, point{label, n, cost})
	t.taken = append(t.taken, c)
	if t.keepLog {
		t.log = append(t.log, fmt.Sprintf("%s=%d/%d", label, c, n))
	}
	return c
}

// Pick is a choice that is always enumerated completely.
func (t *T) Pick(label string, n int) int { return t.next(label, n, false) }

// Choose is a choice whose non-zero answers cost one deviation.
func (t *T) Choose(label string, n int) int { return t.next(label, n, true) }

// Flag is Choose over {false, true}.
func (t *T) Flag(label string) bool { return t.Choose(label, 2) == 1 }

// Begin marks the end of the choices that select a work unit. Units are
// spread over the worker processes by a hash of those choices.
func (t *T) Begin() {
	if t.begun {
		return
	}
	t.begun = true
	h := fnv.New32a()
	for _, c := range t.taken {
		fmt.Fprintf(h, "%d,", c)
	}
	if t.shards > 1 && int(mix(uint64(h.Sum32()))%uint64(t.shards)) != t.shard {
		panic(notMine{})
	}
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// Thorough reports whether the deep tier runs.
func (t *T) Thorough() bool { return t.tier == "thorough" }

// Size returns a for the quick tier and b for the thorough one.
func (t *T) Size(a, b int) int {
	if t.Thorough() {
		return b
	}
	return a
}

// Logf adds a line to the counterexample's explanation.
func (t *T) Logf(f string, a ...any) {
	if t.keepLog {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}

// Step counts n calls of the code under test compared with an oracle.
func (t *T) Step(n int) {
	t.steps += int64(n)
	t.Beat()
}

// Replay says that one execution is run again, to see whether it fails again.
func (t *T) Replay() bool { return t.keepLog }

// Beat tells the watchdog that the execution makes progress.
func (t *T) Beat() { curStart.Store(time.Now().UnixNano()) }

// State records a canonical observation; distinct ones are counted.
func (t *T) State(f string, a ...any) {
	h := fnv.New64a()
	if len(a) == 0 {
		h.Write([]byte(f))
	} else {
		fmt.Fprintf(h, f, a...)
	}
	t.states = append(t.states, h.Sum64())
}

// Outcome records a state and the text shown in the evidence samples.
func (t *T) Outcome(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	t.State("%s", s)
	t.out = s
}

// Fail ends the execution with a violation. key names what failed.
func (t *T) Fail(key, f string, a ...any) { panic(Failure{Key: key, Msg: fmt.Sprintf(f, a...)}) }

// Fatal is Fail for a process that cannot go on (threads stay blocked).
func (t *T) Fatal(key, f string, a ...any) {
	panic(Failure{key, fmt.Sprintf(f, a...), true})
}

// Check fails with key unless ok.
func (t *T) Check(ok bool, key, f string, a ...any) {
	if !ok {
		panic(Failure{Key: key, Msg: fmt.Sprintf(f, a...)})
	}
}

// Harness is one closed system to explore.
type Harness struct {
	Name  string
	Rule  string
	Run   func(*T)
	Bound int // deviation bound, quick
	Deep  int // deviation bound, thorough
	// Solo harnesses are run by worker 0 only and do not call Begin.
	Solo bool
}

// Prop is a property and the harnesses that decide it.
type Prop struct {
	ID        string
	Level     string
	Harnesses []Harness
	Assume    []string
	Budget    time.Duration // of the quick tier, when not the usual one
}

var Props = map[string]*Prop{}

func Register(p *Prop) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	if Props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	Props[p.ID] = p
}

func IDs() []string {
	var r []string
	for k := range Props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Violation is a counterexample.
type Violation struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Choices  []int    `json:"choices"`
	Log      []string `json:"log,omitempty"`
	Tier     string   `json:"tier"`
	Repro    string   `json:"repro,omitempty"`
	// History: the failure needs what the worker process executed before it;
	// a replay runs the whole history of worker Shard of Shards again.
	History bool `json:"history,omitempty"`
	sure    bool // already confirmed
	Shard   int  `json:"shard"`
	Shards  int  `json:"shards"`
}

// HStat is what exploring one harness covered.
type HStat struct {
	Name        string   `json:"name"`
	Rule        string   `json:"rule"`
	Executions  int64    `json:"executions"`
	Transitions int64    `json:"transitions"`
	ByDev       []int64  `json:"executions_by_deviations"`
	Diverged    int64    `json:"diverged"`
	Complete    bool     `json:"complete"`
	Left        int64    `json:"work_items_left"`
	Samples     []string `json:"samples"`
	MaxPoints   int      `json:"max_choice_points"`
	Wall        float64  `json:"wall_s"`
	States      []uint64 `json:"-"`
	NStates     int      `json:"distinct_states"`
	Last        bool     `json:"-"`
}

// Result of a worker.
type Result struct {
	Stats      []HStat     `json:"stats"`
	Violations []Violation `json:"violations"`
	States     [][]uint64  `json:"states"`
	Done       bool        `json:"done"`
}

// RunOne executes h once.
func RunOne(h *Harness, prefix []int, shard, shards int, tier string, keepLog bool) (t *T, f *Failure, special any) {
	t = &T{prefix: prefix, shard: shard, shards: shards, tier: tier, keepLog: keepLog}
	if h.Solo {
		t.begun = true
	}
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case Failure:
				f = &r
			case notMine, diverged:
				special = r
			default:
				f = &Failure{Key: "panic", Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
			}
		}()
		h.Run(t)
	}()
	if f == nil && special == nil && len(t.taken) < len(prefix) {
		special = diverged{fmt.Sprintf("execution ended after %d of %d prescribed choices", len(t.taken), len(prefix))}
	}
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "mcrypto") {
			out = append(out, strings.TrimSpace(l))
		}
		if i > 200 || len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Current execution, for the watchdog and for crash reports.
type current struct {
	Harness string `json:"harness"`
	Choices []int  `json:"choices"`
}

var (
	curStart atomic.Int64
	curH     atomic.Value
	curP     atomic.Value
)

func setCurrent(w *os.File, h string, p []int) {
	curH.Store(h)
	curP.Store(append([]int(nil), p...))
	curStart.Store(time.Now().UnixNano())
	if w != nil {
		b, _ := json.Marshal(current{h, p})
		b = append(b, '\n')
		buf := make([]byte, 0, len(b)+8)
		buf = append(buf, b...)
		w.WriteAt(buf, 0)
	}
}

type item struct {
	prefix []int
}

// Explore runs h to completion or until deadline.
func Explore(p *Prop, h *Harness, shard, shards int, tier string, deadline time.Time, curFile *os.File, maxViol int, known map[string]bool) (HStat, []Violation) {
	start := time.Now()
	st := HStat{Name: h.Name, Rule: h.Rule, Complete: true}
	if h.Solo && shard != 0 {
		return st, nil
	}
	if h.Solo {
		shards = 1
	}
	bound := h.Bound
	if tier == "thorough" {
		bound = h.Deep
		if bound < h.Bound {
			bound = h.Bound
		}
	}
	buckets := make([][]item, bound+1)
	buckets[0] = []item{{nil}}
	st.ByDev = make([]int64, bound+1)
	states := map[uint64]struct{}{}
	var viols []Violation
	seenKey := map[string]int{}
	unknown := 0
outer:
	for dev := 0; dev <= bound; dev++ {
		for len(buckets[dev]) > 0 {
			if time.Now().After(deadline) {
				st.Complete = false
				for _, b := range buckets {
					st.Left += int64(len(b))
				}
				break outer
			}
			l := len(buckets[dev]) - 1
			it := buckets[dev][l]
			buckets[dev] = buckets[dev][:l]
			setCurrent(curFile, h.Name, it.prefix)
			t, f, special := RunOne(h, it.prefix, shard, shards, tier, false)
			if d, ok := special.(diverged); ok {
				_ = d
				st.Diverged++
				continue
			}
			_, mine := special.(notMine)
			mine = !mine
			if mine && !t.begun && f == nil {
				f = &Failure{Key: "harness", Msg: "harness did not call Begin"}
			}
			if mine && f != nil && !t.begun && shard != 0 {
				mine = false // every shard sees it; shard 0 reports it
			}
			if mine {
				st.Executions++
				st.ByDev[dev]++
				st.Transitions += t.steps
				if len(t.taken) > st.MaxPoints {
					st.MaxPoints = len(t.taken)
				}
				for _, s := range t.states {
					if len(states) < 400000 {
						states[s] = struct{}{}
					}
				}
				if t.out != "" && (len(st.Samples) < 3 || (len(st.Samples) < 8 && st.Executions%997 == 0)) {
					st.Samples = append(st.Samples, fmt.Sprintf("%s %s -> %s", h.Name, describe(t), t.out))
				}
				if f != nil {
					v := Violation{Property: p.ID, Harness: h.Name, Key: f.Key, Msg: f.Msg, Choices: append([]int(nil), t.taken...), Tier: tier}
					if seenKey[f.Key] == 0 || (!known[f.Key] && seenKey[f.Key] < 2) {
						viols = append(viols, v)
					}
					seenKey[f.Key]++
					if !known[f.Key] {
						unknown++
						if unknown >= maxViol || f.Last {
							st.Last = f.Last
							st.Complete = false
							break outer
						}
					}
				}
			}
			// expand
			for i := len(t.taken) - 1; i >= len(it.prefix); i-- {
				pt := t.labels[i]
				d := dev
				if pt.cost {
					d++
				}
				if d > bound {
					continue
				}
				for alt := pt.n - 1; alt >= 1; alt-- {
					np := make([]int, i+1)
					copy(np, t.taken[:i])
					np[i] = alt
					buckets[d] = append(buckets[d], item{np})
				}
			}
		}
	}
	st.Wall = time.Since(start).Seconds()
	st.NStates = len(states)
	st.States = make([]uint64, 0, len(states))
	for s := range states {
		st.States = append(st.States, s)
	}
	return st, viols
}

func describe(t *T) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, p := range t.labels {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s=%d", p.label, t.taken[i])
		if b.Len() > 240 {
			b.WriteString(" ...")
			break
		}
	}
	b.WriteByte(']')
	return b.String()
}
