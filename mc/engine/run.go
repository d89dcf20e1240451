package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	// between two calls (C01 passes 4 GiB through SM3 in one)
	hangWall = 180 * time.Second
	hangCPU  = 40 * time.Second
	hangIdle = 60 * time.Second // waiting, without using the processor
)

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watch calls hang when the current call has taken too long: too much
// processor time, or, if it waits for something, too much time.
func watch(id, tier string, hang func(time.Duration)) {
	limit := hangCPU
	if id == "C01" || tier == "thorough" {
		limit = hangWall
	}
	var last int64
	var base time.Duration
	for {
		time.Sleep(time.Second)
		s := curStart.Load()
		if s != last {
			last, base = s, cpuTime()
			continue
		}
		if d := time.Since(time.Unix(0, s)); s != 0 && (d > hangWall || cpuTime()-base > limit || d > hangIdle && cpuTime()-base < time.Second/2) {
			hang(d)
		}
	}
}

// Main runs the command line.
func Main(selftest func() error) {
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID | replay FILE | list | selftest")
		os.Exit(2)
	}
	switch args[0] {
	case "list":
		for _, id := range IDs() {
			for _, h := range Props[id].Harnesses {
				fmt.Printf("%s\t%s\t%d/%d\t%s\n", id, h.Name, h.Bound, h.Deep, h.Rule)
			}
		}
	case "selftest":
		if err := selftest(); err != nil {
			fmt.Println("selftest:", err)
			os.Exit(2)
		}
		fmt.Println("selftest ok")
	case "check":
		os.Exit(check(args[1], selftest))
	case "worker":
		worker(args[1:])
	case "replay":
		os.Exit(replay(args[1]))
	default:
		if f := Sub[args[0]]; f != nil {
			os.Exit(f(args[1:]))
		}
		os.Exit(2)
	}
}

// Sub holds further commands: harnesses that need a fresh process run their
// own executable with one of them.
var Sub = map[string]func(args []string) int{}

func tierName() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

// hang is the violation at which the worker gave up, if it did.
func (r *Result) hang() *Violation {
	for i := range r.Violations {
		if v := &r.Violations[i]; v.Key == "hang" {
			return v
		}
	}
	return nil
}

// worker: prop shard shards tier deadlineUnix outfile curfile known...
func worker(a []string) {
	p := Props[a[0]]
	shard, _ := strconv.Atoi(a[1])
	shards, _ := strconv.Atoi(a[2])
	tier := a[3]
	dl, _ := strconv.ParseInt(a[4], 10, 64)
	deadline := time.Unix(dl, 0)
	known := map[string]bool{}
	for _, k := range a[7:] {
		known[k] = true
	}
	cf, err := os.Create(a[6])
	if err != nil {
		panic(err)
	}
	var res Result
	var mu sync.Mutex
	write := func() {
		b, _ := json.Marshal(res)
		os.WriteFile(a[5]+".tmp", b, 0600)
		os.Rename(a[5]+".tmp", a[5])
	}
	go watch(p.ID, tier, func(d time.Duration) {
		mu.Lock()
		h, _ := curH.Load().(string)
		pr, _ := curP.Load().([]int)
		res.Violations = append(res.Violations, Violation{Property: p.ID, Harness: h, Key: "hang",
			Msg: fmt.Sprintf("no answer within %v", d.Round(time.Second)), Choices: pr, Tier: tier})
		res.Done = true
		write()
		os.Exit(3)
	})
	only := os.Getenv("MC_ONLY")
	for i := range p.Harnesses {
		h := &p.Harnesses[i]
		if only != "" && only != h.Name {
			continue
		}
		st, vs := Explore(p, h, shard, shards, tier, deadline, cf, 3, known)
		mu.Lock()
		res.Stats = append(res.Stats, st)
		res.States = append(res.States, st.States)
		res.Violations = append(res.Violations, vs...)
		mu.Unlock()
		curStart.Store(0)
		n := 0
		for _, v := range res.Violations {
			if !known[v.Key] {
				n++
			}
		}
		if n >= 3 || st.Last {
			break
		}
	}
	mu.Lock()
	res.Done = true
	write()
	os.Exit(0)
}

// replay re-executes one counterexample; exit 1 if it still fails.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	p := Props[v.Property]
	if p == nil {
		return 2
	}
	for i := range p.Harnesses {
		h := &p.Harnesses[i]
		if h.Name != v.Harness {
			continue
		}
		if v.History {
			dir, err := os.MkdirTemp("", "mc-replay-")
			if err != nil {
				return 2
			}
			defer os.RemoveAll(dir)
			exe, _ := os.Executable()
			if historyFails(exe, dir, &v) {
				fmt.Printf("REPLAY-FAIL %s: %s (history of worker %d of %d)\n", v.Key, v.Msg, v.Shard, v.Shards)
				return 1
			}
			fmt.Println("REPLAY-OK")
			return 0
		}
		curStart.Store(time.Now().UnixNano())
		stdout := os.Stdout // harnesses may redirect it
		go watch(v.Property, v.Tier, func(time.Duration) {
			fmt.Fprintln(stdout, "REPLAY-FAIL hang")
			os.Exit(1)
		})
		t, f, sp := RunOne(h, v.Choices, 0, 1, v.Tier, true)
		for _, l := range t.log {
			fmt.Println("  ", l)
		}
		if sp != nil {
			fmt.Printf("REPLAY-DIVERGED %v\n", sp)
			return 0
		}
		if f != nil {
			fmt.Printf("REPLAY-FAIL %s: %s\n", f.Key, f.Msg)
			return 1
		}
		fmt.Println("REPLAY-OK")
		return 0
	}
	return 2
}

// Known findings: lines "known: property=ID key=KEY ...".
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		f := strings.Fields(l)
		for _, w := range f {
			if strings.HasPrefix(w, "key=") {
				m[strings.TrimPrefix(w, "key=")] = l
			}
		}
	}
	return m
}

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type capped struct {
	bytes.Buffer
	n int64
}

func (c *capped) Write(p []byte) (int, error) {
	c.n += int64(len(p))
	if c.Len() < 1<<16 {
		c.Buffer.Write(p)
	}
	return len(p), nil
}

var _ io.Writer = (*capped)(nil)

func check(id string, selftest func() error) int {
	start := time.Now()
	p := Props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	if err := selftest(); err != nil {
		fmt.Println("reference model self-test failed:", err)
		return 2
	}
	tier := tierName()
	budget := 420 * time.Second
	if p.Budget > 0 {
		budget = p.Budget
	}
	if tier == "thorough" {
		budget = 3600 * time.Second
	}
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	deadline := start.Add(budget)
	shards := 8
	if s := os.Getenv("MC_WORKERS"); s != "" {
		shards, _ = strconv.Atoi(s)
	}
	known := loadKnown(id)
	var kk []string
	for k := range known {
		kk = append(kk, k)
	}
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	results := make([]*Result, shards)
	crash := make([]*Violation, shards)
	notes := make([]string, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var before string
			hangs := 0
			for attempt := 0; attempt < 3; attempt++ {
				out := filepath.Join(dir, fmt.Sprintf("out%d.json", i))
				cur := filepath.Join(dir, fmt.Sprintf("cur%d.json", i))
				os.Remove(out)
				wd := filepath.Join(dir, fmt.Sprintf("w%d", i))
				os.MkdirAll(wd, 0700)
				args := append([]string{"worker", id, strconv.Itoa(i), strconv.Itoa(shards), tier,
					strconv.FormatInt(deadline.Unix(), 10), out, cur}, kk...)
				cmd := exec.Command(exe, args...)
				cmd.Dir = wd
				cmd.Env = append(os.Environ(), "MC_SCRATCH="+wd, "GOTRACEBACK=single")
				var so, se capped
				cmd.Stdout, cmd.Stderr = &so, &se
				err := cmd.Run()
				b, rerr := os.ReadFile(out)
				if rerr == nil {
					var r Result
					if json.Unmarshal(b, &r) == nil && r.Done {
						h := r.hang()
						if _, ok := known["hang"]; h == nil || ok {
							results[i] = &r
							return
						}
						// the worker stopped there: is it so every time?
						where := h.Harness + fmt.Sprint(h.Choices)
						switch {
						case confirm(exe, dir, h, 2) > 0:
							h.Repro = "a replay hung as well"
						case where == before:
							h.History, h.Shard, h.Shards = true, i, shards
							h.Repro = "only after the executions before it in the same process; that history hung again"
						case attempt == 2 && hangs == 2:
							h.Repro = "its worker hung in each of three runs, in different places"
						default:
							hangs++
							before = where
							notes[i] = fmt.Sprintf("worker %d hung in %s and could not be reproduced", i, where)
							continue
						}
						h.sure = true
						results[i] = &r
						return
					}
				}
				// the process died: the execution it was in is the suspect
				cb, _ := os.ReadFile(cur)
				var c current
				if k := bytes.IndexByte(cb, '\n'); k > 0 {
					json.Unmarshal(cb[:k], &c)
				}
				tail := se.String()
				if len(tail) > 1500 {
					tail = tail[:1500]
				}
				if c.Harness != "" {
					v := &Violation{Property: id, Harness: c.Harness, Key: "crash", Choices: c.Choices, Tier: tier,
						Msg: fmt.Sprintf("the process died (%v): %s", err, tail)}
					if confirm(exe, dir, v, 2) > 0 {
						crash[i] = v
						return
					}
				}
				if where := c.Harness + fmt.Sprint(c.Choices); c.Harness != "" && where == before && err != nil && !strings.Contains(err.Error(), "killed") {
					// twice in the same place: a property of its history
					crash[i] = &Violation{Property: id, Harness: c.Harness, Key: "crash", Choices: c.Choices, Tier: tier, Shard: i, Shards: shards, History: true,
						Repro: "only after the executions before it in the same process; that history died again",
						Msg:   fmt.Sprintf("the process died (%v): %s", err, tail)}
					return
				} else {
					before = where
				}
				notes[i] = fmt.Sprintf("worker %d died (%v) and could not be reproduced: %.300s", i, err, tail)
			}
		}(i)
	}
	wg.Wait()

	var viols []Violation
	lost := 0
	for i := range results {
		if crash[i] != nil {
			viols = append(viols, *crash[i])
		} else if results[i] == nil {
			lost++
		} else {
			for _, v := range results[i].Violations {
				v.Shard, v.Shards = i, shards
				viols = append(viols, v)
			}
		}
	}
	if lost > 0 && len(viols) == 0 {
		for _, n := range notes {
			if n != "" {
				fmt.Println("note:", n)
			}
		}
	}

	// merge statistics
	type agg struct {
		HStat
		st map[uint64]struct{}
	}
	var order []string
	m := map[string]*agg{}
	for _, r := range results {
		if r == nil {
			continue
		}
		for k, s := range r.Stats {
			a := m[s.Name]
			if a == nil {
				a = &agg{HStat: HStat{Name: s.Name, Rule: s.Rule, Complete: true}, st: map[uint64]struct{}{}}
				m[s.Name] = a
				order = append(order, s.Name)
			}
			a.Executions += s.Executions
			a.Transitions += s.Transitions
			a.Diverged += s.Diverged
			a.Left += s.Left
			a.Complete = a.Complete && s.Complete
			for d, n := range s.ByDev {
				for len(a.ByDev) <= d {
					a.ByDev = append(a.ByDev, 0)
				}
				a.ByDev[d] += n
			}
			if s.MaxPoints > a.MaxPoints {
				a.MaxPoints = s.MaxPoints
			}
			if s.Wall > a.Wall {
				a.Wall = s.Wall
			}
			if len(a.Samples) < 4 {
				a.Samples = append(a.Samples, s.Samples...)
			}
			if len(a.Samples) > 4 {
				a.Samples = a.Samples[:4]
			}
			for _, x := range r.States[k] {
				a.st[x] = struct{}{}
			}
		}
	}
	var execs, trans, div int64
	nstates := 0
	complete := lost == 0 && len(viols) == 0
	var samples []string
	var hs []map[string]any
	for _, n := range order {
		a := m[n]
		execs += a.Executions
		trans += a.Transitions
		div += a.Diverged
		nstates += len(a.st)
		complete = complete && a.Complete && a.Diverged == 0
		samples = append(samples, a.Samples...)
		hs = append(hs, map[string]any{"harness": n, "rule": a.Rule, "executions": a.Executions,
			"executions_by_deviations": a.ByDev, "distinct_states": len(a.st), "calls_checked": a.Transitions,
			"max_choice_points": a.MaxPoints, "enumerated_completely": a.Complete, "work_items_left": a.Left, "wall_s": round(a.Wall)})
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	// confirm and classify
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Choices) < len(viols[j].Choices) })
	seen := map[string]bool{}
	rc := 0
	nv := 0
	histories := 0
	var unconfirmed []string
	for i := range viols {
		v := &viols[i]
		if seen[v.Harness+v.Key] {
			continue
		}
		seen[v.Harness+v.Key] = true
		if l, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, l)
			continue
		}
		if nv >= 4 {
			continue
		}
		times := 5
		if v.Key == "hang" || v.Key == "crash" {
			times = 1
		}
		c := 1
		if !v.History && !v.sure {
			c = confirm(exe, dir, v, times)
			v.Repro = fmt.Sprintf("%d of %d replays failed", c, times)
		}
		if c == 0 && histories < 3 && v.Key != "hang" && v.Key != "crash" {
			// not a property of this execution alone: perhaps of everything
			// its process did before
			histories++
			if historyFails(exe, dir, v) {
				c, times = 1, 1
				v.History = true
				v.Repro = "only after the executions before it in the same process; that history failed again"
			}
		}
		if c == 0 {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s %v: %.200s", v.Harness, v.Key, v.Choices, v.Msg))
			continue
		}
		nv++
		rc = 1
		rdir := filepath.Join(verifDir(), "evidence", "replay")
		os.MkdirAll(rdir, 0755)
		rf := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, nv))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(rf, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rf)
		fmt.Printf("  harness %s, check %s (%s): %.1200s\n  choices %v\n", v.Harness, v.Key, v.Repro, v.Msg, v.Choices)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed(), "level": p.Level,
		"coverage": map[string]any{
			"states": nstates, "transitions": trans, "traces_validated_against_impl": execs,
			"exhaustive": complete, "samples": samples, "harnesses": hs,
			"rule":     "Stateless exploration of the real code: every choice sequence of each harness (Pick points completely, Choose points up to the deviation bound) is executed. states: distinct canonical observations of executions; transitions: calls into the code whose result was compared with the oracle; traces_validated_against_impl: complete executions, each of which runs the real code.",
			"diverged": div, "workers": shards, "unconfirmed": unconfirmed, "worker_notes": nonEmpty(notes),
		},
		"assumptions": p.Assume,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  nv,
	}
	if (lost > 0 || execs == 0) && rc == 0 {
		rc = 2 // part of the space has not been looked at
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d calls checked, %d distinct states, exhaustive=%v, %.1fs\n", id, tier, execs, trans, nstates, complete, time.Since(start).Seconds())
	for _, h := range hs {
		fmt.Printf("  %-28s exec=%-8d states=%-7d calls=%-9d complete=%v %.1fs\n", h["harness"], h["executions"], h["distinct_states"], h["calls_checked"], h["enumerated_completely"], h["wall_s"])
	}
	return rc
}

func nonEmpty(a []string) []string {
	r := []string{}
	for _, s := range a {
		if s != "" {
			r = append(r, s)
		}
	}
	return r
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func confirm(exe, dir string, v *Violation, times int) int {
	f, err := os.CreateTemp(dir, "replay-*.json")
	if err != nil {
		return 0
	}
	b, _ := json.Marshal(v)
	f.Write(b)
	f.Close()
	n := 0
	for i := 0; i < times; i++ {
		wd, _ := os.MkdirTemp(dir, "rw")
		cmd := exec.Command(exe, "replay", f.Name())
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), "MC_SCRATCH="+wd)
		out, err := cmd.CombinedOutput()
		if err != nil && (bytes.Contains(out, []byte("REPLAY-FAIL")) || v.Key == "crash") {
			n++
		}
		if n > 0 && i == 0 && len(out) > 0 {
			lines := strings.Split(string(out), "\n")
			if len(lines) > 80 {
				lines = lines[:80]
			}
			v.Log = lines
		}
	}
	return n
}

// historyFails runs the worker in whose history v occurred again and reports
// whether the same check of the same harness fails.
func historyFails(exe, dir string, v *Violation) bool {
	wd, err := os.MkdirTemp(dir, "hist")
	if err != nil {
		return false
	}
	out, cur := filepath.Join(wd, "out.json"), filepath.Join(wd, "cur.json")
	cmd := exec.Command(exe, "worker", v.Property, strconv.Itoa(v.Shard), strconv.Itoa(v.Shards), v.Tier,
		strconv.FormatInt(time.Now().Add(240*time.Second).Unix(), 10), out, cur)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "MC_SCRATCH="+wd)
	died := cmd.Run()
	b, err := os.ReadFile(out)
	if err != nil {
		return v.Key == "crash" && died != nil
	}
	var r Result
	if json.Unmarshal(b, &r) != nil {
		return false
	}
	for _, w := range r.Violations {
		if w.Harness == v.Harness && w.Key == v.Key {
			return true
		}
	}
	return false
}
