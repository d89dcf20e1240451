package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/mc/engine"
)

func init() {
	engine.Register(&engine.Prop{ID: "C22", Budget: 700 * time.Second, Harnesses: []engine.Harness{
		{Name: "races", Rule: "every ordered pair of operations on shared arguments in two threads of a fresh process, no synchronisation between them, under a happens-before monitor: no two unordered accesses", Run: c22Races},
		{Name: "preempt2", Rule: "every ordered pair of operations with two switches, at every pair of statements that mention package-level variables (quick: pairs of 8 operations, thorough: all marked ones)", Run: c22Preempt2},
		{Name: "warm", Rule: "after every operation (quick: 28) with other arguments: it is stopped before every statement (quick: when the other is given other arguments; and at every statement that mentions package-level variables, first two visits, with every second switch back, quick: when there are at most 700 pairs) while it runs with the same arguments or those of the earlier call, or itself has those and the other new ones; then once more with each", Run: c22Warm},
		{Name: "preempt", Rule: "every ordered pair of operations (quick: 28 of them, each with itself and 11 others) on shared arguments, package state fresh: the first is stopped before every statement it reaches (first visit of each, thorough: first two), the second runs through, the first goes on; then the first once more", Run: c22Preempt},
	}, Assume: []string{
		"threads switch at statement boundaries of the four packages, at most two switches and two threads; races inside a statement are left to the happens-before monitor",
		"the monitor build replaces sync.Pool by one that never reuses, so that the library's own pools do not order the threads",
	}})
	engine.Sub["race"] = raceMain
}

var (
	setYield  func(func(int)) // nil in a plain build
	resetCode func()
)

// ---- controlled scheduler

type thread struct {
	goid   int64
	resume chan struct{}
	steps  int
	stop   int // park after that many steps; 0: never
	visits []uint8
	res    string
	done   bool
	parked bool // waits for resume (seen by the coordinator only)
}

type sched struct {
	cur atomic.Int32
	th  [2]*thread
	ev  chan int // thread parked or done
	max uint8
	hot []bool // nil: all sites

	before map[int64]string // goroutines that are not the code's
}

func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	var v int64
	for _, c := range s {
		if c < '0' || c > '9' {
			break
		}
		v = v*10 + int64(c-'0')
	}
	return v
}

func (s *sched) yield(site int) {
	c := s.cur.Load()
	if s.hot != nil && !s.hot[site] {
		return
	}
	t := s.th[c]
	if t.visits[site] >= s.max {
		return
	}
	if g := goid(); g != t.goid {
		// woken from a lock by the other thread, or a goroutine of the code's own
		o := s.th[1-c]
		if g != o.goid {
			return
		}
		s.park(1 - int(c))
		s.yield(site)
		return
	}
	t.visits[site]++
	t.steps++
	if t.steps == t.stop {
		s.park(int(c))
	}
}

func (s *sched) park(i int) {
	s.ev <- i
	<-s.th[i].resume
}

// goroutines gives what the runtime says about every goroutine.
func goroutines() map[int64]string {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[int64]string{}
	for _, part := range bytes.Split(buf, []byte("\n\n")) {
		h, _, _ := bytes.Cut(part, []byte("\n"))
		var id int64
		if _, err := fmt.Sscanf(string(h), "goroutine %d", &id); err != nil {
			continue
		}
		if l, r := bytes.IndexByte(h, '['), bytes.LastIndexByte(h, ']'); l >= 0 && r > l {
			m[id] = string(h[l+1 : r])
		}
	}
	return m
}

func blockedState(s string) bool {
	if k := strings.IndexByte(s, ','); k >= 0 {
		s = s[:k]
	}
	switch s {
	case "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "chan receive", "chan send", "select",
		"chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		return true
	}
	return false
}

// stuck says whether thread i waits for something that no goroutine the code
// has started is about to give.
func (s *sched) stuck(i int) bool {
	g := goroutines()
	if !blockedState(g[s.th[i].goid]) {
		return false
	}
	for id, st := range g {
		if _, old := s.before[id]; !old && !blockedState(st) {
			return false
		}
	}
	return true
}

// run lets thread i run until it parks or ends (true), or blocks (false).
func (s *sched) run(i int) bool {
	s.cur.Store(int32(i))
	if s.th[i].parked {
		s.th[i].parked = false
		s.th[i].resume <- struct{}{}
	}
	blocked := 0
	for {
		tm := time.NewTimer(5 * time.Millisecond)
		select {
		case k := <-s.ev:
			tm.Stop()
			s.th[k].parked = !s.th[k].done
			if k == i {
				return true
			}
			blocked = 0 // the other one has got what it waited for
		case <-tm.C:
			if !s.stuck(i) {
				blocked = 0
			} else if blocked++; blocked == 3 {
				return false
			}
		}
	}
}

// runPair runs operations a and b under a schedule: a for stops[0] steps, b
// for stops[1] steps (0: to its end), then a, then b.
func runPair(t *engine.T, w [2]*world, a, b int, stops [2]int, max uint8, hot []bool, nsites int) (res [2]string, steps [2]int) {
	s := &sched{ev: make(chan int, 4), max: max, hot: hot, before: goroutines()}
	ready := make(chan struct{}, 2)
	var wg sync.WaitGroup
	for i, op := range []int{a, b} {
		th := &thread{resume: make(chan struct{}), stop: stops[i], visits: make([]uint8, nsites), parked: true}
		s.th[i] = th
		wg.Add(1)
		go func() {
			defer wg.Done()
			th.goid = goid()
			ready <- struct{}{}
			<-th.resume
			r := runOp(op, w[i])
			th.res = r
			th.done = true
			s.ev <- i
		}()
		<-ready
	}
	setYield(s.yield)
	defer setYield(nil)
	for turn := 0; !s.th[0].done || !s.th[1].done; turn++ {
		i := turn % 2
		if s.th[i].done {
			continue
		}
		if turn > 1 {
			s.th[i].stop = 0
		}
		if !s.run(i) {
			// what it waits for has to come from the other one
			o := s.th[1-i]
			if o.done || !o.parked && s.stuck(1-i) && s.stuck(i) && len(s.ev) == 0 {
				t.Fatal("deadlock", "%s and %s (stopped after %v steps) block each other: %s", opName(a), opName(b), stops, goroutines()[s.th[i].goid])
			}
			o.stop = 0
		}
	}
	wg.Wait()
	return [2]string{s.th[0].res, s.th[1].res}, [2]int{s.th[0].steps, s.th[1].steps}
}

type siteInfo struct {
	Sites int   `json:"sites"`
	Hot   []int `json:"hot"`
}

var (
	sitesOnce sync.Once
	nSites    int
	hotSites  []bool
	opSteps   = map[[2]int]int{}
)

func c22Setup() {
	sitesOnce.Do(func() {
		if setYield == nil {
			panic("C22 needs the instrumented build (run.sh)")
		}
		b, err := os.ReadFile(os.Getenv("MC_SITES"))
		var si siteInfo
		if err == nil {
			err = json.Unmarshal(b, &si)
		}
		if err != nil {
			panic(err)
		}
		nSites = si.Sites
		hotSites = make([]bool, nSites)
		for _, h := range si.Hot {
			hotSites[h] = true
		}
		runtime.GOMAXPROCS(1)
		fixes()
	})
}

// stepsOf counts the scheduling points of an operation that starts from fresh
// package state.
func stepsOf(t *engine.T, op int, max uint8, hot bool) int {
	key := [2]int{op, int(max) * 2}
	var h []bool
	if hot {
		key[1]++
		h = hotSites
	}
	if n, ok := opSteps[key]; ok {
		return n
	}
	w, done := freshWorld(op, op)
	defer done()
	n := 0
	visits := make([]uint8, nSites)
	setYield(func(site int) {
		if h != nil && !h[site] || visits[site] >= max {
			return
		}
		visits[site]++
		n++
	})
	r := runOp(op, w)
	setYield(nil)
	t.Check(r == aloneResult(t, op), "alone", "%s gives another result after re-initialisation: %s", opName(op), diffText(r, aloneResult(t, op)))
	opSteps[key] = n
	return n
}

// freshWorld re-initialises the packages and prepares shared arguments.
func freshWorld(a, b int) (*world, func()) {
	resetCode()
	w := newWorld()
	for _, i := range []int{a, b} {
		if ops[i].prep != nil {
			ops[i].prep(w)
		}
	}
	return w, w.close
}

func c22Judge(t *engine.T, w *world, a, b int, stops [2]int, res [2]string) {
	for i, op := range []int{a, b} {
		want := aloneResult(t, op)
		t.Check(res[i] == want, "interference", "%s concurrent with %s (switches after %v steps): %s", opName(op), opName([]int{b, a}[i]), stops, diffText(res[i], want))
	}
	bad := w.intact()
	t.Check(bad == "", "argument", "%s concurrent with %s (switches after %v steps): %s", opName(a), opName(b), stops, bad)
	after := runOp(a, w)
	t.Check(after == aloneResult(t, a), "aftermath", "%s after it ran concurrently with %s (switches after %v steps): %s", opName(a), opName(b), stops, diffText(after, aloneResult(t, a)))
	t.Step(3)
}

// warmWorlds re-initialises the packages, prepares both worlds and runs
// operation a with other arguments, so that whatever the code keeps from one
// call to the next is there and does not fit.
func warmWorlds(a int) (std, rot *world, done func()) {
	resetCode()
	std, rot = newWorld(), newRotated()
	if ops[a].prep != nil {
		ops[a].prep(std)
	}
	runOp(a+len(ops), rot)
	return std, rot, func() { std.close(); rot.close() }
}

var warmSteps = map[[3]int]int{}

func stepsWarm(t *engine.T, op int, max uint8, hot []bool) int {
	key := [3]int{op, int(max), len(hot)}
	if n, ok := warmSteps[key]; ok {
		return n
	}
	std, rot, done := warmWorlds(op % len(ops))
	defer done()
	n := 0
	visits := make([]uint8, nSites)
	setYield(func(site int) {
		if hot != nil && !hot[site] || visits[site] >= max {
			return
		}
		visits[site]++
		n++
	})
	r := runOp(op, worldFor(op, std, rot))
	setYield(nil)
	t.Check(r == aloneResult(t, op), "alone", "%s gives another result after itself with other arguments: %s", opName(op), diffText(r, aloneResult(t, op)))
	warmSteps[key] = n
	return n
}

// c22Warm: the package state is that after the same operation with other
// arguments; then the operation is stopped before each statement (hot ones
// twice), and runs again meanwhile, with the same or the other arguments, with
// at most one more switch, at a hot statement; then once more, with each.
func c22Warm(t *engine.T) {
	list := quickOps()
	if t.Thorough() {
		list = allOps()
	}
	a := list[t.Pick("operation", len(list))]
	b := a
	switch t.Pick("arguments", 3) {
	case 1:
		b += len(ops)
	case 2:
		a, b = a+len(ops), a
	}
	all := t.Pick("statements", 2) == 0 // all, once; or those that mention package state
	part := t.Pick("part", 4)           // for even work units
	t.Begin()
	if all && b < len(ops) && !t.Thorough() {
		t.State("skipped %d", a)
		return
	}
	c22Setup()
	hot, max := hotSites, uint8(2)
	if all {
		hot, max = nil, 1
	}
	n := stepsWarm(t, a, max, hot)
	if n <= part {
		t.State("nothing shared %d", a)
		return
	}
	at, back := t.Pick("at", (n-part+3)/4)*4+part+1, 0
	if !all {
		if m := stepsWarm(t, b, max, hot) + 1; n*m <= 700 || t.Thorough() {
			back = t.Pick("back", m)
		}
	}
	std, rot, done := warmWorlds(a % len(ops))
	defer done()
	ws := [2]*world{worldFor(a, std, rot), worldFor(b, std, rot)}
	stops := [2]int{at, back}
	res, _ := runPair(t, ws, a, b, stops, max, hot, nSites)
	for i, op := range []int{a, b} {
		want := aloneResult(t, op)
		t.Check(res[i] == want, "interference", "%s concurrent with %s, after calls with other arguments (switches after %v steps): %s", opName(op), opName([]int{b, a}[i]), stops, diffText(res[i], want))
	}
	for _, op := range []int{a % len(ops), a%len(ops) + len(ops), a % len(ops)} {
		w := worldFor(op, std, rot)
		after := runOp(op, w)
		t.Check(after == aloneResult(t, op), "aftermath", "%s after %s ran concurrently with %s (switches after %v steps): %s", opName(op), opName(a), opName(b), stops, diffText(after, aloneResult(t, op)))
		bad := w.intact()
		t.Check(bad == "", "argument", "%s concurrent with %s (switches after %v steps): %s", opName(a), opName(b), stops, bad)
	}
	t.Step(7)
	t.State("%d %d %v %d %d", a, b, all, at, back)
}

func quickOps() (l []int) {
	for i := range ops {
		if ops[i].quick {
			l = append(l, i)
		}
	}
	return
}

func allOps() (l []int) {
	for i := range ops {
		l = append(l, i)
	}
	return
}

func c22Preempt(t *engine.T) {
	list := quickOps()
	max := uint8(1)
	if t.Thorough() {
		list, max = allOps(), 2
	}
	a := list[t.Pick("preempted", len(list))]
	others := list
	if !t.Thorough() {
		others = []int{a}
		for _, i := range list {
			switch ops[i].name {
			case "sm3.New", "sm2.Sign", "sm2.Verify", "sm2.Encryt", "MarshalPKCS8", "ParsePKCS8", "ParseCertificate", "CheckSignatureFrom", "pkcs12.DecodeAll", "pkcs12.New", "Hash":
				if i != a {
					others = append(others, i)
				}
			}
		}
	}
	b := others[t.Pick("other", len(others))]
	part := t.Pick("part", 8) // for even work units
	t.Begin()
	c22Setup()
	n := stepsOf(t, a, max, false)
	if n <= part {
		return
	}
	at := t.Pick("at", (n-part+7)/8)*8 + part + 1
	w, done := freshWorld(a, b)
	defer done()
	res, _ := runPair(t, [2]*world{w, w}, a, b, [2]int{at, 0}, max, nil, nSites)
	c22Judge(t, w, a, b, [2]int{at, 0}, res)
	t.Outcome("%s stopped at point %d of %d, %s runs through: both right", opName(a), at, n, opName(b))
}

func c22Preempt2(t *engine.T) {
	list := quickOps()
	if !t.Thorough() {
		list = nil
		for i := range ops {
			switch ops[i].name {
			case "sm2.Sign", "sm2.Verify", "sm2.Encryt", "ParsePKCS8", "CheckSignatureFrom", "PKCS7", "pkcs12.DecodeAll", "Hash":
				list = append(list, i)
			}
		}
	}
	a := list[t.Pick("first", len(list))]
	b := list[t.Pick("second", len(list))]
	part := t.Pick("part", 8)
	t.Begin()
	c22Setup()
	n, m := stepsOf(t, a, 1, true), stepsOf(t, b, 1, true)
	if n <= part || m == 0 {
		t.State("nothing shared %d %d", a, b)
		return
	}
	i, j := t.Pick("at", (n-part+7)/8)*8+part+1, t.Pick("back", m)+1
	w, done := freshWorld(a, b)
	defer done()
	res, _ := runPair(t, [2]*world{w, w}, a, b, [2]int{i, j}, 1, hotSites, nSites)
	c22Judge(t, w, a, b, [2]int{i, j}, res)
	t.State("%d %d %d %d", a, b, i, j)
}

// ---- happens-before monitor

var raceDone [2]int32

//go:norace
func raceSet(i int) { raceDone[i] = 1 }

//go:norace
func raceWait(i int) {
	for raceDone[i] == 0 {
		time.Sleep(20 * time.Microsecond)
	}
}

// raceMain runs two operations in two threads, the second after the first,
// without anything that orders them. It is run in the race-detector build.
func raceMain(args []string) int {
	a, _ := strconv.Atoi(args[0])
	b, _ := strconv.Atoi(args[1])
	raceQuiet = true
	w := newWorld()
	defer w.close()
	f := fixes()
	for n := range f.B {
		w.buf(n)
	}
	for i := range worldKeys {
		w.key(i)
	}
	for i := 0; i < 4; i++ {
		w.xkey(i)
	}
	for _, n := range []string{"r", "s"} {
		w.num(n)
	}
	for i := 0; i < 8; i++ {
		xkeyOf(i)
	}
	for _, i := range []int{a, b} {
		if ops[i].prep != nil {
			ops[i].prep(w)
		}
	}
	w.frozen = true
	done := make(chan struct{}, 2)
	go func() {
		runOp(a, w)
		raceSet(0)
		done <- struct{}{}
	}()
	go func() {
		raceWait(0)
		runOp(b, w)
		done <- struct{}{}
	}()
	<-done
	<-done
	if len(args) > 2 { // once more, at the same time
		go func() { runOp(a, w); done <- struct{}{} }()
		go func() { runOp(b, w); done <- struct{}{} }()
		<-done
		<-done
	}
	return 0
}

func c22Races(t *engine.T) {
	a := t.Pick("first", len(ops))
	b := t.Pick("second", len(ops))
	t.Begin()
	exe := os.Getenv("MC_RACE_EXE")
	if exe == "" {
		panic("C22 needs the race-detector build (run.sh)")
	}
	fixtureFile()
	c22RaceRun(t, exe, a, b)
	if t.Replay() {
		// What threads that nobody schedules run into need not show every
		// time.
		for end := time.Now().Add(60 * time.Second); time.Now().Before(end); {
			t.Beat()
			c22RaceRun(t, exe, a, b)
		}
	}
	t.Step(2)
	t.Outcome("%s, then unordered %s: no race", opName(a), opName(b))
}

func c22RaceRun(t *engine.T, exe string, a, b int) {
	cmd := exec.Command(exe, "race", strconv.Itoa(a), strconv.Itoa(b), "again")
	cmd.Env = append(os.Environ(), "MC_FIX="+fixFile, "GORACE=halt_on_error=0 exitcode=66 history_size=3 atexit_sleep_ms=0", "GOTRACEBACK=all")
	var se bytes.Buffer
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	var hung atomic.Bool
	quit := time.AfterFunc(20*time.Second, func() {
		hung.Store(true)
		cmd.Process.Signal(syscall.SIGQUIT) // tells where its threads are
	})
	kill := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	quit.Stop()
	kill.Stop()
	out := se.String()
	for _, rep := range strings.Split(out, "==================") {
		if strings.Contains(rep, "DATA RACE") && strings.Contains(rep, "/repo/") {
			if len(rep) > 1800 {
				rep = rep[:1800]
			}
			t.Fail("race", "%s concurrent with %s: %s", opName(a), opName(b), rep)
		}
	}
	if hung.Load() || strings.Contains(out, "all goroutines are asleep") {
		waiting, going := hungIn(out)
		if len(waiting) > 0 && !going {
			t.Fail("deadlock", "%s concurrent with %s block each other: %.1500s", opName(a), opName(b), strings.Join(waiting, "\n\n"))
		}
		return // slow, or a machine that stood still: the scheduled runs decide
	}
	if err != nil && !strings.Contains(out, "DATA RACE") {
		if len(out) > 900 {
			out = out[:900]
		}
		t.Fail("died", "%s concurrent with %s: the process died (%v): %s", opName(a), opName(b), err, out)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "race outside the code under test: %s\n", out)
	}
}

// hungIn gives the goroutines of a dump that wait inside the code under test,
// and whether another one is at work there.
func hungIn(dump string) (waiting []string, going bool) {
	for _, g := range strings.Split(dump, "\n\n") {
		g = strings.TrimSpace(g)
		l, r := strings.IndexByte(g, '['), strings.Index(g, "]:")
		if !strings.HasPrefix(g, "goroutine ") || l < 0 || r < l || !strings.Contains(g, "/repo/") {
			continue
		}
		if blockedState(g[l+1 : r]) {
			waiting = append(waiting, g)
		} else {
			going = true
		}
	}
	return
}
