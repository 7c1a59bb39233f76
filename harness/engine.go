package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"

	"verif.local/simkit/simlog"
	"verif.local/simkit/simos"
	"verif.local/simkit/simrt"
)

// Streams are the recorded choices of one run.
type Streams struct {
	W []simrt.Entry `json:"w,omitempty"` // workload
	S []simrt.Entry `json:"s,omitempty"` // schedule
	F []simrt.Entry `json:"f,omitempty"` // faults
	M []simrt.Entry `json:"m,omitempty"` // map iteration orders
}

func (s *Streams) size() int { return len(s.W) + len(s.S) + len(s.F) + len(s.M) }

// Result of one run.
type Result struct {
	Prop    string            `json:"prop"`
	Seed    uint64            `json:"seed"`
	Class   string            `json:"class,omitempty"` // "" means no violation
	Msg     string            `json:"msg,omitempty"`
	Hash    string            `json:"hash"`
	IHash   string            `json:"ihash"` // interleaving
	Steps   uint64            `json:"steps"`
	Switch  uint64            `json:"switches"`
	Preempt uint64            `json:"preemptions"`
	MapIter uint64            `json:"map_iterations"`
	MapPerm uint64            `json:"map_permuted"`
	Faults  map[string]uint64 `json:"faults,omitempty"`
	Probes  map[string]uint64 `json:"probes,omitempty"`
	Strat   string            `json:"strategy"`
	Log     []string          `json:"log,omitempty"`
	Trace   []string          `json:"trace,omitempty"`
	Streams *Streams          `json:"streams,omitempty"`
}

type abort struct{}

// Ctx is the environment of one run.
type Ctx struct {
	Prop   string
	Seed   uint64
	W      *simrt.Stream
	S      *simrt.Stream
	F      *simrt.Stream
	M      *simrt.Stream
	strat  simrt.Strategy
	mmode  int
	trace  bool
	class  string
	msg    string
	faults map[string]uint64
	probes map[string]uint64
	log    []string
	races  int
	cap    uint64
	sims   int
}

var curCtx *Ctx

// fail records the first violation.
//
//go:norace
func (x *Ctx) Fail(class, format string, a ...interface{}) {
	if x.class == "" {
		x.class = class
		x.msg = fmt.Sprintf(format, a...)
	}
}

//go:norace
func (x *Ctx) failed() bool { return x.class != "" }

// Check aborts the run after a violation.
func (x *Ctx) Check() {
	if x.failed() {
		panic(abort{})
	}
}

// Failnow records a violation and ends the run; not for use inside tasks.
func (x *Ctx) Failnow(class, format string, a ...interface{}) {
	x.Fail(class, format, a...)
	panic(abort{})
}

// Logf adds a line to the human-readable scenario. Only outside of tasks.
func (x *Ctx) Logf(format string, a ...interface{}) {
	if x.trace && len(x.log) < 2000 {
		x.log = append(x.log, fmt.Sprintf(format, a...))
	}
}

func (x *Ctx) Int(n int) int             { return x.W.Intn(n) }
func (x *Ctx) Bool() bool                { return x.W.Intn(2) == 1 }
func (x *Ctx) Chance(num, den int) bool  { return x.W.Chance(num, den) }
func (x *Ctx) Pick(l []string) string    { return l[x.W.Intn(len(l))] }
func (x *Ctx) Range(lo, hi int) int      { return lo + x.W.Intn(hi-lo+1) }
func (x *Ctx) FaultHit(kind string)      { x.faults[kind]++ }
func (x *Ctx) Probe(name string)         { x.probes[name]++ }
func (x *Ctx) ProbeN(name string, n int) { x.probes[name] += uint64(n) }

// Sim runs the functions as concurrent tasks under the chosen schedule.
func (x *Ctx) Sim(fns ...func()) {
	x.sims++
	st := x.strat
	st.Salt ^= simrt.Mix(uint64(x.sims) * 77)
	simrt.Run(simrt.Config{Sched: x.S, Fault: x.F, MapOrd: x.M, Strategy: st, StepCap: x.cap, MapMode: x.mmode, Trace: x.trace}, x.guard(fns))
	x.after()
}

// Crowd is the number of goroutines of a run: lo to hi, and now and then many
// more, so that a limit on what goes on at the same time is reached.
func (x *Ctx) Crowd(lo, hi int) int {
	n := x.Range(lo, hi)
	if x.Chance(1, 40) {
		n = x.Range(10, 80)
		x.Probe("crowd")
	}
	return n
}

// SimCanon is Sim with map iterations in canonical order.
func (x *Ctx) SimCanon(fns ...func()) {
	x.sims++
	simrt.Run(simrt.Config{Sched: x.S, Fault: x.F, Strategy: x.strat, StepCap: x.cap, Trace: x.trace}, x.guard(fns))
	x.after()
}

// Solo runs f alone, without faults and with maps in canonical order, to
// obtain a reference result. It still detects self-deadlock and livelock.
func (x *Ctx) Solo(f func()) {
	simrt.Run(simrt.Config{Sched: simrt.NewReplay(nil), StepCap: x.cap}, x.guard([]func(){f}))
	x.after()
}

// SoloOrd is Solo with map iterations in simulated order.
func (x *Ctx) SoloOrd(f func()) {
	simrt.Run(simrt.Config{Sched: simrt.NewReplay(nil), MapOrd: x.M, MapMode: x.mmode, StepCap: x.cap}, x.guard([]func(){f}))
	x.after()
}

// SoloFaults is Solo with faults and map orders.
func (x *Ctx) SoloFaults(f func()) {
	simrt.Run(simrt.Config{Sched: simrt.NewReplay(nil), Fault: x.F, MapOrd: x.M, MapMode: x.mmode, StepCap: x.cap}, x.guard([]func(){f}))
	x.after()
}

func (x *Ctx) guard(fns []func()) []func() {
	out := make([]func(), len(fns))
	for i, f := range fns {
		i, f := i, f
		out[i] = func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); ok {
						return
					}
					x.Fail("panic", "task %d: %v%s", i, r, where())
				}
			}()
			f()
		}
	}
	return out
}

// where gives the innermost frames of the library in the current stack.
func where() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	var l []string
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "github.com/lestrrat-go/jsval") {
			l = append(l, short(f.File, f.Line))
			if len(l) == 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	if len(l) == 0 {
		return ""
	}
	return " at " + strings.Join(l, " < ")
}

func short(file string, line int) string {
	if i := strings.LastIndex(file, "/jsval/"); i >= 0 {
		file = file[i+len("/jsval/"):]
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(file, "zsim/"), line)
}

func (x *Ctx) after() {
	if n := simrt.RaceErrors(); n > x.races {
		x.races = n
		if msg, ours := raceReport(); ours {
			x.Fail("race", "data race: %s", msg)
		} else {
			x.Fail("harness", "race in the harness: %s\n%s", msg, lastRace)
		}
	}
	x.Check()
}

// CheckLocks verifies that no lock is held when nothing runs.
func (x *Ctx) CheckLocks() {
	if n := simrt.HeldLocks(); n > 0 {
		x.Failnow("lock-leak", "%d lock(s) still held after all calls ended", n)
	}
}

// --- race reports -------------------------------------------------------------

var raceLog string
var raceOff int64
var lastRace string

func raceReport() (string, bool) {
	b, err := os.ReadFile(raceLog)
	if err != nil || int64(len(b)) <= raceOff {
		return "(report not found)", true
	}
	rep := b[raceOff:]
	raceOff = int64(len(b))
	lastRace = string(rep)
	if i := bytes.Index(rep, []byte("WARNING: DATA RACE")); i >= 0 {
		rep = rep[i:]
	}
	lines := strings.Split(string(rep), "\n")
	var parts []string
	ours := false
	cur, fn := "", ""
	nfr := 0
	for _, l := range lines {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous"):
			cur = strings.ToLower(strings.TrimPrefix(strings.SplitN(t, " at ", 2)[0], "Previous "))
			nfr = 0
			if len(parts) >= 2 {
				return strings.Join(parts, " against "), ours
			}
			parts = append(parts, cur)
		case strings.HasPrefix(t, "Goroutine"), strings.HasPrefix(t, "======="):
			if strings.HasPrefix(t, "=======") && len(parts) > 0 {
				return strings.Join(parts, " against "), ours
			}
			cur = ""
		case cur != "" && strings.HasSuffix(t, ")") && !strings.HasPrefix(t, "/"):
			fn = t
		case cur != "" && strings.HasPrefix(t, "/"):
			if strings.HasPrefix(fn, "github.com/lestrrat-go/jsval") {
				ours = true
				if nfr < 3 {
					nfr++
					f := strings.Fields(t)[0]
					if i := strings.LastIndex(f, "/jsval/"); i >= 0 {
						f = f[i+len("/jsval/"):]
					}
					parts[len(parts)-1] += " " + f
				}
			}
		}
	}
	return strings.Join(parts, " against "), ours
}

// --- one run ------------------------------------------------------------------

// Prop is a property with its scenario.
type Prop struct {
	ID  string
	Run func(x *Ctx)
}

var stratNames = []string{"serial", "random", "pct", "sites", "sync"}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// RunSeed executes one scenario. With rec nil the choices come from the seed.
func RunSeed(p *Prop, seed uint64, rec *Streams, trace bool) *Result {
	x := &Ctx{Prop: p.ID, Seed: seed, faults: map[string]uint64{}, probes: map[string]uint64{}, trace: trace, cap: 6000000, races: simrt.RaceErrors()}
	base := simrt.Mix(seed ^ hashStr(p.ID))
	r := simrt.NewGen(simrt.Mix(base + 5))
	if rec == nil {
		x.W = simrt.NewGen(simrt.Mix(base + 1))
		x.S = simrt.NewGen(simrt.Mix(base + 2))
		x.F = simrt.NewGen(simrt.Mix(base + 3))
		x.M = simrt.NewGen(simrt.Mix(base + 4))
	} else {
		x.W = simrt.NewReplay(rec.W)
		x.S = simrt.NewReplay(rec.S)
		x.F = simrt.NewReplay(rec.F)
		x.M = simrt.NewReplay(rec.M)
	}
	dens := []int{2, 3, 4, 8, 16, 48, 128}
	hor := []uint64{40, 120, 400, 1200, 4000}
	x.strat = simrt.Strategy{Den: dens[r.Intn(len(dens))], Horizon: hor[r.Intn(len(hor))], Depth: 1 + r.Intn(5), Salt: simrt.Mix(base + 9)}
	switch k := r.Intn(20); {
	case k < 1:
		x.strat.Kind = simrt.StratSerial
	case k < 8:
		x.strat.Kind = simrt.StratRandom
	case k < 14:
		x.strat.Kind = simrt.StratPCT
	case k < 17:
		x.strat.Kind = simrt.StratSites
		x.strat.Den = 1 + r.Intn(3)
	default:
		x.strat.Kind = simrt.StratSync
		x.strat.Den = 1 + r.Intn(3)
	}
	switch k := r.Intn(8); {
	case k < 1:
		x.mmode = 0
	case k < 5:
		x.mmode = 1
	case k < 7:
		x.mmode = 2
	default:
		x.mmode = 3
	}
	fbefore := map[string]uint64{}
	for k, v := range simos.FaultCounts {
		fbefore[k] = v
	}
	simrt.Begin()
	simrt.SetClock(base)
	simrt.ResetAll()
	simlog.Reset()
	simos.Halt()
	curCtx = x
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				x.Fail("harness", "panic in the harness: %v%s\n%s", r, where(), stack())
			}
		}()
		p.Run(x)
	}()
	return x.result(fbefore)
}

func stack() string {
	b := make([]byte, 8192)
	return string(b[:runtime.Stack(b, false)])
}

func (x *Ctx) result(fbefore map[string]uint64) *Result {
	for k, v := range simos.FaultCounts {
		if d := v - fbefore[k]; d > 0 {
			x.faults["fs-"+k] += d
		}
	}
	sw, pre := simrt.Stats()
	mi, mp := simrt.MapStats()
	res := &Result{
		Prop: x.Prop, Seed: x.Seed, Class: x.class, Msg: x.msg,
		Hash: fmt.Sprintf("%016x", simrt.Hash()), IHash: fmt.Sprintf("%016x", simrt.SwitchHash()),
		Steps: simrt.Steps(), Switch: sw, Preempt: pre, MapIter: mi, MapPerm: mp,
		Faults: x.faults, Probes: x.probes, Strat: stratNames[x.strat.Kind],
		Streams: &Streams{x.W.Rec, x.S.Rec, x.F.Rec, x.M.Rec},
	}
	if x.trace {
		res.Log = x.log
		for _, s := range simrt.Trace() {
			res.Trace = append(res.Trace, fmt.Sprintf("step %d: task %d %s at %s, task %d continues", s.Step, s.From, map[byte]string{'p': "preempted", 'b': "blocked", 'd': "ended"}[s.Why], siteName(s.Site), s.To))
			if len(res.Trace) > 500 {
				break
			}
		}
	}
	return res
}
