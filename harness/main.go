package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"

	"verif.local/simkit/simrt"
)

var props = map[string]*Prop{}

func register(id string, f func(x *Ctx)) { props[id] = &Prop{id, f} }

type siteT struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var siteTab map[uint32]siteT

func siteName(id uint32) string {
	if siteTab == nil {
		siteTab = map[uint32]siteT{}
		if b, err := os.ReadFile(os.Getenv("SIM_SITES")); err == nil {
			var l []siteT
			if json.Unmarshal(b, &l) == nil {
				for _, s := range l {
					siteTab[uint32(s.ID)] = s
				}
			}
		}
	}
	if s, ok := siteTab[id]; ok {
		return fmt.Sprintf("%s:%d (%s)", s.File, s.Line, s.Func)
	}
	return "(harness)"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim drive|work|exec|replay ...")
		os.Exit(2)
	}
	args := append([]string(nil), os.Args...)
	switch args[1] {
	case "drive":
		os.Exit(drive(args[2:]))
	case "replay":
		os.Exit(replayMain(args[2:]))
	case "work":
		setupWorker()
		work(args[2:])
	case "exec":
		setupWorker()
		execMain(args[2:])
	default:
		os.Exit(2)
	}
}

// The worker's protocol goes to the original standard output, which is kept
// away from the code under test.
var proto *bufio.Writer

func setupWorker() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	proto = bufio.NewWriterSize(os.Stdout, 1<<16)
	raceLog = os.Getenv("SIM_RACELOG") + "." + strconv.Itoa(os.Getpid())
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		if os.Getenv("SIM_STDERR") == "" {
			os.Stderr = f
		}
		os.Stdout = f
	}
	simrt.Fatal = func(class, msg string) {
		x := curCtx
		x.Fail(class, "%s", msg)
		emit("r", x.result(map[string]uint64{}))
		proto.Flush()
		os.Exit(3)
	}
}

func emit(kind string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	proto.WriteString(kind)
	proto.WriteByte(' ')
	proto.Write(b)
	proto.WriteByte('\n')
}

// Stats of a worker.
type Stats struct {
	Runs     uint64            `json:"runs"`
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	Preempt  uint64            `json:"preempt"`
	MapIter  uint64            `json:"mapiter"`
	MapPerm  uint64            `json:"mapperm"`
	Faults   map[string]uint64 `json:"faults"`
	Probes   map[string]uint64 `json:"probes"`
	Strats   map[string]uint64 `json:"strats"`
	Inter    []uint64          `json:"inter,omitempty"` // new interleaving hashes
	Sites    int               `json:"sites"`
	Hashes   map[string]string `json:"hashes,omitempty"` // seed to event log hash, sampled
	Nontriv  uint64            `json:"nontriv"`
}

func runSeedOf(base uint64, i uint64) uint64 { return simrt.Mix(base*0x9e3779b97f4a7c15+i) >> 1 }

// work PROP BASE START STRIDE SECONDS MAXRUNS SEEDFILE
func work(a []string) {
	p := props[a[0]]
	if p == nil {
		os.Exit(2)
	}
	num := func(i int) uint64 { v, _ := strconv.ParseUint(a[i], 10, 64); return v }
	base, start, stride := num(1), num(2), num(3)
	secs, _ := strconv.ParseFloat(a[4], 64)
	max := num(5)
	sf, err := os.OpenFile(a[6], os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		os.Exit(2)
	}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	if pf := os.Getenv("SIM_PROF"); pf != "" {
		if f, err := os.Create(fmt.Sprintf("%s.%d", pf, start)); err == nil {
			pprof.StartCPUProfile(f)
		}
	}
	st := newStats()
	seen := map[uint64]bool{}
	last := time.Now()
	flush := func() {
		st.Sites = simrt.SiteHits()
		emit("s", st)
		proto.Flush()
		st = newStats()
		last = time.Now()
	}
	for i := start; max == 0 || i < max; i += stride {
		if time.Now().After(deadline) {
			break
		}
		seed := runSeedOf(base, i)
		sf.WriteAt([]byte(fmt.Sprintf("%020d %020d", i, seed)), 0)
		r := RunSeed(p, seed, nil, false)
		st.Runs++
		st.Steps += r.Steps
		st.Switches += r.Switch
		st.Preempt += r.Preempt
		st.MapIter += r.MapIter
		st.MapPerm += r.MapPerm
		for k, v := range r.Faults {
			st.Faults[k] += v
		}
		for k, v := range r.Probes {
			st.Probes[k] += v
		}
		st.Strats[r.Strat]++
		if r.Preempt > 0 || r.MapPerm > 0 || len(r.Faults) > 0 {
			st.Nontriv++
		}
		h := hashStr(r.IHash + r.Hash)
		if !seen[h] && len(seen) < 400000 {
			seen[h] = true
			st.Inter = append(st.Inter, h)
		}
		if i%97 == 0 && len(st.Hashes) < 8 {
			st.Hashes[strconv.FormatUint(seed, 10)] = r.Hash
		}
		if r.Class != "" {
			emit("r", r)
			flush()
			os.Exit(3)
		}
		if time.Since(last) > 2*time.Second {
			flush()
			// struct types made at run time are never freed: go on in a new process
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 600<<20 {
				emit("next", i+stride)
				proto.Flush()
				os.Remove(raceLog)
				pprof.StopCPUProfile()
				os.Exit(0)
			}
		}
	}
	flush()
	emit("done", 1)
	proto.Flush()
	os.Remove(raceLog)
	pprof.StopCPUProfile()
	os.Exit(0)
}

func newStats() *Stats {
	return &Stats{Faults: map[string]uint64{}, Probes: map[string]uint64{}, Strats: map[string]uint64{}, Hashes: map[string]string{}}
}

// exec reads a Replay from a file and prints the result; "exec PROP seed N".
func execMain(a []string) {
	var r *Result
	if len(a) >= 3 && a[1] == "seed" {
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		r = RunSeed(props[a[0]], seed, nil, len(a) > 3)
	} else {
		b, err := os.ReadFile(a[0])
		if err != nil {
			os.Exit(2)
		}
		var rp Replay
		if err := json.Unmarshal(b, &rp); err != nil {
			os.Exit(2)
		}
		r = RunSeed(props[rp.Property], rp.Seed, rp.Streams, len(a) > 1)
	}
	emit("r", r)
	proto.Flush()
	os.Remove(raceLog)
	if r.Class != "" {
		os.Exit(3)
	}
	os.Exit(0)
}

// Replay is the replay file.
type Replay struct {
	Property  string   `json:"property"`
	Seed      uint64   `json:"seed"`
	Class     string   `json:"class"`
	Message   string   `json:"message"`
	Hash      string   `json:"event_log_hash"`
	Minimised bool     `json:"minimised"`
	Note      string   `json:"note,omitempty"`
	Command   string   `json:"command"`
	Scenario  []string `json:"scenario,omitempty"`
	Schedule  []string `json:"schedule,omitempty"`
	Streams   *Streams `json:"streams,omitempty"`
}

func selfExe() string {
	p, err := os.Executable()
	if err != nil {
		p = os.Args[0]
	}
	p, _ = filepath.Abs(p)
	return p
}
