// Package simrt is the simulator core. Exactly one task (goroutine) of a run
// executes at any time; at every yield point a seeded chooser decides whether
// another task continues. The baton is passed over channels with race
// synchronisation events disabled, so the race detector sees only the
// happens-before edges the program under test creates itself.
//
// Every function here that touches simulator state is go:norace: that state is
// protected by the one-task-at-a-time rule, which the race detector is
// deliberately not told about.
package simrt

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

// MaxTasks bounds the number of live tasks of one run.
const MaxTasks = 4096

const (
	stNone = iota
	stRunnable
	stBlocked
	stExternal
	stDone
)

type task struct {
	state int
	wait  unsafe.Pointer
	why   string
	ch    chan struct{}
	prio  uint64
	site  uint32
}

// Strategy of the chooser in generating mode.
type Strategy struct {
	Kind    int    // see Strat*
	Den     int    // 1/Den switch probability
	Horizon uint64 // PCT: change points are drawn below this step
	Depth   int    // PCT: number of change points
	Salt    uint64
}

const (
	StratSerial = iota
	StratRandom
	StratPCT
	StratSites
	StratSync
	NumStrat
)

// Config of one run.
type Config struct {
	Sched    *Stream
	Fault    *Stream
	MapOrd   *Stream
	Strategy Strategy
	StepCap  uint64
	MapMode  int  // 0 canonical, 1 random, 2 reversed, 3 rotated
	Trace    bool // keep the switch trace
}

// Switch is one context switch of the trace.
type Switch struct {
	Step uint64
	From int
	To   int
	Site uint32
	Why  byte // 'p' preempted, 'b' blocked, 'd' done
}

// HeldLock is a simulated lock that is held.
type heldLock struct {
	p    unsafe.Pointer
	task int
	n    int
}

const maxHeld = 256
const maxSites = 1 << 16

var (
	active   bool
	cur      = -1
	ntasks   int
	tasks    [MaxTasks]task
	first    int           // tasks from here on were started by the library
	used     int           // task slots that were ever used
	freed    int           // some slot below ntasks may be free
	runlist  [MaxTasks]int // scratch of the running task
	cfg      Config
	steps    uint64
	hash     uint64
	switchN  uint64
	swHash   uint64
	preempt  uint64
	stepBase uint64 // steps when the current Run began
	cps      [8]uint64
	lowprio  uint64
	trace    []Switch
	wg       sync.WaitGroup

	held  [maxHeld]heldLock
	nheld int

	probes   [64]uint64
	siteHits [maxSites]uint32

	nextern int

	// Fatal is called for conditions that end the process (deadlock, step
	// budget, panic in a spawned goroutine). It must not return.
	Fatal func(class, msg string)
)

// Active tells whether a run is in progress.
//
//go:norace
func Active() bool { return active }

// Cur is the running task, -1 outside a run.
//
//go:norace
func Cur() int { return cur }

// Steps is the number of scheduling decisions in this run so far.
//
//go:norace
func Steps() uint64 { return steps }

// Hash is the hash of the event log so far.
//
//go:norace
func Hash() uint64 { return hash }

// Stats returns switches and preemptions of the run.
//
//go:norace
func Stats() (sw, pre uint64) { return switchN, preempt }

// SwitchHash identifies the interleaving: the sequence of context switches with
// the code positions they happened at.
//
//go:norace
func SwitchHash() uint64 { return swHash }

// Trace returns the context switches of the run.
//
//go:norace
func Trace() []Switch { return trace }

// Note mixes an observation into the event log hash.
//
//go:norace
func Note(x uint64) { hash = Mix(hash ^ (x + 0x51ed270b)) }

// NoteStr mixes a string into the event log hash.
//
//go:norace
func NoteStr(s string) {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	Note(h)
}

// Probe counts that a condition of interest was reached.
//
//go:norace
func Probe(i int) {
	if i >= 0 && i < len(probes) {
		probes[i]++
	}
}

// ProbeCount reads a probe (since process start).
//
//go:norace
func ProbeCount(i int) uint64 { return probes[i] }

// SiteHits returns how many distinct instrumented sites were executed in this process.
//
//go:norace
func SiteHits() int {
	n := 0
	for i := range siteHits {
		if siteHits[i] != 0 {
			n++
		}
	}
	return n
}

// Begin starts a scenario: everything that one seed covers. A scenario may
// call Run several times.
//
//go:norace
func Begin() {
	labels = nil
	steps, stepBase, switchN, preempt = 0, 0, 0, 0
	hash = 0x6a09e667f3bcc908
	swHash = 1
	trace = trace[:0]
	mapRuns, mapPerm = 0, 0
	clockReset()
}

// Run executes the given functions as simulated tasks until all are done.
// It is called from a goroutine that is not a task.
func Run(c Config, fns []func()) {
	begin(c, len(fns))
	for i := range fns {
		i := i
		wg.Add(1)
		go taskMain(i, fns[i])
	}
	start()
	wg.Wait()
	end()
}

//go:norace
func begin(c Config, n int) {
	cfg = c
	if cfg.StepCap == 0 {
		cfg.StepCap = 2000000
	}
	ntasks = n
	first = n
	stepBase = steps
	lowprio = 0
	nheld = 0
	nextern = 0
	for i := 0; i < used; i++ {
		tasks[i].state = stNone
	}
	freed = 0
	for i := 0; i < n; i++ {
		initTask(i)
	}
	if cfg.Sched.gen {
		s := cfg.Strategy.Salt
		for i := range cps {
			s += 0x9e3779b97f4a7c15
			if i < cfg.Strategy.Depth && cfg.Strategy.Horizon > 0 {
				cps[i] = 1 + Mix(s)%cfg.Strategy.Horizon
			} else {
				cps[i] = 0
			}
		}
	}
}

//go:norace
func initTask(i int) {
	t := &tasks[i]
	if t.ch == nil {
		t.ch = make(chan struct{}, 1)
	}
	if i >= used {
		used = i + 1
	}
	t.state = stRunnable
	t.wait = nil
	t.site = 0
	if cfg.Sched.gen {
		t.prio = Mix(cfg.Strategy.Salt+uint64(i+1000)*0x9e3779b97f4a7c15)>>8 + 1000
	}
}

//go:norace
func start() {
	active = true
	cur = -1
	t := pickForced()
	cur = t
	raceDisable()
	tasks[t].ch <- struct{}{}
	raceEnable()
}

//go:norace
func end() {
	active = false
	cur = -1
}

func taskMain(id int, f func()) {
	defer wg.Done()
	defer taskDone(id)
	waitTurn(id)
	f()
}

//go:norace
func waitTurn(id int) {
	raceDisable()
	<-tasks[id].ch
	raceEnable()
}

//go:norace
func handTo(t int) {
	cur = t
	raceDisable()
	tasks[t].ch <- struct{}{}
	raceEnable()
}

//go:norace
func taskDone(id int) {
	tasks[id].state = stDone
	if id >= first {
		freed++
	}
	settle()
	if anyRunnable() {
		t := pickForced()
		addTrace(id, t, 'd')
		handTo(t)
		return
	}
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked || tasks[i].state == stExternal {
			deadlock()
		}
	}
	cur = -1
}

//go:norace
func anyRunnable() bool {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			return true
		}
	}
	return false
}

//go:norace
func addTrace(from, to int, why byte) {
	switchN++
	st := uint32(0)
	if from >= 0 {
		st = tasks[from].site
	}
	swHash = Mix(swHash ^ (uint64(st)<<16 | uint64(from&0xff)<<8 | uint64(to&0xff)))
	if cfg.Trace && len(trace) < 1<<16 {
		s := uint32(0)
		if from >= 0 {
			s = tasks[from].site
		}
		trace = append(trace, Switch{steps, from, to, s, why})
	}
}

// pickForced chooses a runnable task when the current one cannot continue.
//
//go:norace
func pickForced() int {
	steps++
	list := &runlist
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			list[n] = i
			n++
		}
	}
	k := 0
	if n > 1 {
		s := cfg.Sched
		s.idx = steps
		if s.gen {
			var v uint64
			switch cfg.Strategy.Kind {
			case StratSerial:
				v = 0
			case StratPCT:
				for i := 1; i < n; i++ {
					if tasks[list[i]].prio > tasks[list[v]].prio {
						v = uint64(i)
					}
				}
			default:
				v = s.raw() % uint64(n)
			}
			s.put(v)
			k = int(v)
		} else {
			k = int(s.take(uint64(n)))
		}
	}
	Note(uint64(list[k])<<32 | 0xf0)
	return list[k]
}

// Y is a statement-level yield point.
//
//go:norace
func Y(site uint32) {
	if !active || cur < 0 {
		return
	}
	if site < maxSites {
		siteHits[site]++
	}
	yield(site, false)
}

// YS is a yield point at a synchronisation operation.
//
//go:norace
func YS() {
	if !active || cur < 0 {
		return
	}
	yield(tasks[cur].site, true)
}

//go:norace
func yield(site uint32, isSync bool) {
	me := cur
	tasks[me].site = site
	steps++
	if steps-stepBase > cfg.StepCap {
		Fatal("no-progress", fmt.Sprintf("step budget of %d exceeded", cfg.StepCap))
	}
	Note(uint64(me)<<32 | uint64(site))
	if nextern > 0 {
		settle()
	}
	// other runnable tasks, in ring order after me
	list := &runlist
	n := 0
	for k := 1; k < ntasks; k++ {
		i := (me + k) % ntasks
		if tasks[i].state == stRunnable {
			list[n] = i
			n++
		}
	}
	if n == 0 {
		return
	}
	s := cfg.Sched
	s.idx = steps
	var v uint64
	if s.gen {
		v = choose(me, site, isSync, list[:n])
		if v != 0 {
			s.put(v)
		}
	} else {
		v = s.take(uint64(n) + 1)
	}
	if v == 0 {
		return
	}
	t := list[v-1]
	preempt++
	addTrace(me, t, 'p')
	Note(uint64(t)<<32 | 0xf1)
	handTo(t)
	waitTurn(me)
}

//go:norace
func choose(me int, site uint32, isSync bool, list []int) uint64 {
	st := &cfg.Strategy
	s := cfg.Sched
	switch st.Kind {
	case StratSerial:
		return 0
	case StratRandom:
		if s.raw()%uint64(st.Den) == 0 {
			return 1 + s.raw()%uint64(len(list))
		}
	case StratSites:
		if Mix(uint64(site)^st.Salt)%16 == 0 && s.raw()%uint64(st.Den) == 0 {
			return 1 + s.raw()%uint64(len(list))
		}
	case StratSync:
		if isSync && s.raw()%uint64(st.Den) == 0 {
			return 1 + s.raw()%uint64(len(list))
		}
	case StratPCT:
		for i := range cps {
			if cps[i] != 0 && cps[i] == steps-stepBase {
				lowprio++
				tasks[me].prio = 500 - lowprio
			}
		}
		best, bp := 0, tasks[me].prio
		for i, t := range list {
			if tasks[t].prio > bp {
				best, bp = i+1, tasks[t].prio
			}
		}
		return uint64(best)
	}
	return 0
}

// Block parks the running task until Wake(p).
//
//go:norace
func Block(p unsafe.Pointer, why string) {
	me := cur
	tasks[me].state = stBlocked
	tasks[me].wait = p
	tasks[me].why = why
	settle()
	if !anyRunnable() {
		deadlock()
	}
	t := pickForced()
	addTrace(me, t, 'b')
	handTo(t)
	waitTurn(me)
}

// Wake makes every task parked on p runnable.
//
//go:norace
func Wake(p unsafe.Pointer) {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].wait == p {
			tasks[i].state = stRunnable
			tasks[i].wait = nil
		}
	}
}

//go:norace
func deadlock() {
	msg := "no task can continue:"
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked || tasks[i].state == stExternal {
			msg += fmt.Sprintf(" task %d waits (%s)", i, tasks[i].why)
		}
	}
	Fatal("deadlock", msg)
}

// settle gives goroutines that block outside the simulator (channels) the
// chance to come back before a decision is made.
//
//go:norace
func settle() {
	if nextern == 0 {
		return
	}
	rounds := 4 * (ntasks + 2)
	if !anyRunnable() {
		rounds = 200000
	}
	for i := 0; i < rounds; i++ {
		runtime.Gosched()
		if rounds > 1000 && anyRunnable() {
			break
		}
	}
}

// enterExternal releases the baton because the task is about to block in the
// Go runtime.
//
//go:norace
func enterExternal(why string) int {
	me := cur
	tasks[me].state = stExternal
	tasks[me].why = why
	nextern++
	if anyRunnable() {
		t := pickForced()
		addTrace(me, t, 'b')
		handTo(t)
	} else {
		// A pure wait: others are external too, or nobody is left. The
		// last one standing watches for progress.
		cur = -1
		go externWatch()
	}
	return me
}

//go:norace
func externWatch() {
	for i := 0; i < 200000; i++ {
		runtime.Gosched()
		if !active || cur >= 0 {
			return
		}
		if anyRunnable() {
			if cur < 0 {
				t := pickForced()
				handTo(t)
			}
			return
		}
	}
	if active && cur < 0 {
		deadlock()
	}
}

//go:norace
func exitExternal(me int) {
	nextern--
	tasks[me].state = stRunnable
	waitTurn(me)
}

// Go starts f as a new task of the run.
func Go(f func()) {
	id := newTask()
	if id < 0 {
		go f()
		return
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer taskDone(id)
		waitTurn(id)
		defer func() {
			if r := recover(); r != nil {
				Fatal("panic", fmt.Sprintf("panic in a goroutine started by the library: %v", r))
			}
		}()
		f()
	}()
	YS()
}

//go:norace
func newTask() int {
	if !active || cur < 0 {
		return -1
	}
	id := ntasks
	if freed > 0 {
		// slots of finished tasks that the library started
		for i := first; i < ntasks; i++ {
			if tasks[i].state == stDone {
				id = i
				freed--
				break
			}
		}
	}
	if id == ntasks {
		if ntasks >= MaxTasks {
			Fatal("harness", "too many tasks")
		}
		ntasks++
	}
	root := cur
	if cur >= first {
		root = roots[cur]
	}
	initTask(id)
	roots[id] = root
	return id
}

var roots [MaxTasks]int

// Root is the task of the harness on whose behalf the current task runs: itself, or
// the one that started the library's goroutine, directly or not.
//
//go:norace
func Root() int {
	if active && cur >= first {
		return roots[cur]
	}
	return cur
}

// LockHeld and LockReleased maintain the list of held locks.
//
//go:norace
func LockHeld(p unsafe.Pointer) {
	if !active {
		return
	}
	for i := 0; i < nheld; i++ {
		if held[i].p == p {
			held[i].n++
			return
		}
	}
	if nheld < maxHeld {
		held[nheld] = heldLock{p, cur, 1}
		nheld++
	}
}

// LockReleased removes one hold.
//
//go:norace
func LockReleased(p unsafe.Pointer) {
	if !active {
		return
	}
	for i := 0; i < nheld; i++ {
		if held[i].p == p {
			held[i].n--
			if held[i].n == 0 {
				nheld--
				held[i] = held[nheld]
			}
			return
		}
	}
}

// HeldLocks is the number of locks still held.
//
//go:norace
func HeldLocks() int { return nheld }

// --- faults -----------------------------------------------------------------

// Fault asks whether the fault point fires; n is the number of variants, and
// 0 means no fault. rate is the probability of a fault in 1/256.
//
//go:norace
func Fault(n int, rate int) int {
	if cfg.Fault == nil || n <= 0 {
		return 0
	}
	s := cfg.Fault
	if s.gen {
		var v uint64
		if int(s.raw()%256) < rate {
			v = 1 + s.raw()%uint64(n)
		}
		s.put(v)
		return int(v)
	}
	return int(s.take(uint64(n) + 1))
}

// FaultIntn draws a fault parameter in [0,n).
//
//go:norace
func FaultIntn(n int) int {
	if cfg.Fault == nil {
		return 0
	}
	return cfg.Fault.Intn(n)
}
