package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/simkit/simrt"
)

type driver struct {
	prop    *Prop
	seed    uint64
	tier    string
	scratch string
	workers int
	hang    time.Duration

	alt string

	mu      sync.Mutex
	st      *Stats
	inter   map[uint64]bool
	sites   int
	viol    []*Result
	crashes []string
	hashes  map[string]string
	trouble []string
	hb      uint64
	stop    bool
	over    bool
	round   int
	procs   map[*exec.Cmd]bool
}

func (d *driver) cmd(args ...string) *exec.Cmd { return d.cmdOf(selfExe(), args...) }

func (d *driver) cmdOf(exe string, args ...string) *exec.Cmd {
	c := exec.Command(exe, args...)
	rl := filepath.Join(d.scratch, "race")
	c.Env = append(os.Environ(),
		"GOMAXPROCS=1",
		"GOTRACEBACK=all",
		"SIM_RACELOG="+rl,
		"GORACE=log_path="+rl+" halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	c.Dir = d.scratch
	return c
}

func drive(a []string) int {
	fl := flag.NewFlagSet("drive", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	secs := fl.Float64("secs", 25, "")
	evid := fl.String("evidence", "", "")
	repdir := fl.String("replays", "", "")
	scratch := fl.String("scratch", "", "")
	workers := fl.Int("workers", 8, "")
	maxruns := fl.Uint64("maxruns", 0, "")
	level := fl.String("level", "exploration", "")
	entry := fl.String("entry", "bash /verif/check.sh", "")
	buildS := fl.Float64("buildsecs", 0, "")
	ilevel := fl.String("instr", "3", "")
	known := fl.String("known", "", "")
	alt := fl.String("alt", "", "")
	fl.Parse(a)
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	d := &driver{prop: p, seed: *seed, tier: *tier, scratch: *scratch, workers: *workers, st: newStats(), inter: map[uint64]bool{}, hashes: map[string]string{}, procs: map[*exec.Cmd]bool{}, hang: 60 * time.Second, alt: *alt}
	t0 := time.Now()
	base := simrt.Mix(*seed ^ hashStr("run"+p.ID))
	unconfirmed := 0
	explore := 0.0
	var final *Replay
	knownSeen := map[string]bool{}
	for round := uint64(0); round < 5; round++ {
		left := *secs - explore
		if round > 0 && left < 1 {
			break
		}
		d.mu.Lock()
		d.stop, d.over, d.viol, d.crashes = false, false, nil, nil
		d.round++
		d.mu.Unlock()
		tr := time.Now()
		rbase := base
		if round > 0 {
			rbase = simrt.Mix(base + round)
		}
		var wg sync.WaitGroup
		for w := 0; w < d.workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				d.worker(w, rbase, left, *maxruns, tr)
			}(w)
		}
		wg.Wait()
		explore += time.Since(tr).Seconds()

		// from here on only this goroutine works
		d.mu.Lock()
		d.over = true
		d.mu.Unlock()

		cands := 0
		judge := func(r *Replay) bool {
			if k := knownFinding(*known, p.ID, r); k != "" {
				if !knownSeen[k] {
					knownSeen[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
				}
				return false
			}
			final = r
			return true
		}
		// the shortest candidate first
		sort.SliceStable(d.viol, func(i, j int) bool { return d.viol[i].Streams.size() < d.viol[j].Streams.size() })
		for _, v := range d.viol {
			if v.Class == "harness" {
				if len(d.trouble) == 0 {
					fmt.Fprintf(os.Stderr, "harness error: seed %d: %s\n", v.Seed, v.Msg)
					d.trouble = append(d.trouble, strings.SplitN(v.Msg, "\n", 2)[0])
				}
				continue
			}
			cands++
			r := d.confirm(v)
			if r == nil {
				unconfirmed++
				continue
			}
			if judge(r) {
				final = d.minimise(r, *tier)
				break
			}
		}
		if final == nil {
			for _, c := range d.crashes {
				cands++
				r := d.confirmCrash(c)
				if r == nil {
					unconfirmed++
					continue
				}
				if judge(r) {
					break
				}
			}
		}
		if final != nil || cands == 0 || len(d.trouble) > 0 {
			break
		}
		// nothing came of the candidates: go on exploring with the time left
	}
	det, detBad := 0, []string(nil)
	if final == nil {
		det, detBad = d.determinism()
	}
	wall := time.Since(t0).Seconds()

	rc := 0
	if final != nil {
		dir := *repdir
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, final.Seed))
		final.Command = fmt.Sprintf("%s --replay %s", *entry, path)
		b, _ := json.MarshalIndent(final, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s: %s\n", final.Class, final.Message)
		fmt.Printf("seed %d, %d recorded choices after minimisation\n", final.Seed, final.size())
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		rc = 1
	}
	if *evid != "" {
		d.evidence(*evid, *level, t0, explore, wall, *buildS, *ilevel, final, unconfirmed, det, detBad)
	}
	if rc == 0 {
		if len(d.trouble) > 0 && final == nil {
			fmt.Fprintf(os.Stderr, "check could not decide: %s\n", strings.Join(d.trouble, "; "))
			return 2
		}
		fmt.Printf("%s: held on %d simulated runs (%d distinct, %.0f runs/h, %d steps, %d unconfirmed candidates)\n", p.ID, d.st.Runs, len(d.inter), float64(d.st.Runs)/explore*3600, d.st.Steps, unconfirmed)
	}
	return rc
}

func (r *Replay) size() int {
	if r.Streams == nil {
		return 0
	}
	return r.Streams.size()
}

// knownFinding tells whether the violation is listed.
func knownFinding(file, prop string, r *Replay) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> class=<class> match=<regexp> :: text
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		parts := strings.SplitN(l, " :: ", 2)
		m := regexp.MustCompile(`class=(\S+) match=(.*)$`).FindStringSubmatch(parts[0])
		if m == nil || len(parts) < 2 || m[1] != r.Class {
			continue
		}
		if ok, _ := regexp.MatchString(m[2], r.Message); ok {
			return parts[1]
		}
	}
	return ""
}

func (d *driver) worker(w int, base uint64, secs float64, maxruns uint64, t0 time.Time) {
	start := uint64(w)
	restarts := 0
	for {
		left := secs - time.Since(t0).Seconds()
		d.mu.Lock()
		stop := d.stop
		d.mu.Unlock()
		if left < 0.3 || stop {
			return
		}
		sf := filepath.Join(d.scratch, fmt.Sprintf("seed.%d.%d.%d", d.round, w, restarts))
		// every other worker runs without the race detector, which is several
		// times faster; what it finds is confirmed with the race detector on
		exe := selfExe()
		if d.alt != "" && w%2 == 1 {
			exe = d.alt
		}
		c := d.cmdOf(exe, "work", d.prop.ID, fmt.Sprint(base), fmt.Sprint(start), fmt.Sprint(d.workers), fmt.Sprintf("%.2f", left), fmt.Sprint(maxruns), sf)
		out, err := c.StdoutPipe()
		if err != nil {
			return
		}
		var errb bytes.Buffer
		c.Stderr = &errb
		if err := c.Start(); err != nil {
			d.mu.Lock()
			d.trouble = append(d.trouble, err.Error())
			d.mu.Unlock()
			return
		}
		d.mu.Lock()
		d.procs[c] = true
		d.mu.Unlock()
		alive := make(chan struct{}, 1)
		ended := make(chan struct{})
		var hung atomic.Bool
		go func() {
			t := time.NewTimer(d.hang)
			for {
				select {
				case <-alive:
					t.Reset(d.hang)
				case <-t.C:
					hung.Store(true)
					c.Process.Kill()
					return
				case <-ended:
					return
				}
			}
		}()
		got, done, next := false, false, uint64(0)
		sc := bufio.NewReaderSize(out, 1<<20)
		for {
			line, err := sc.ReadBytes('\n')
			if len(line) > 2 && line[len(line)-1] == '\n' {
				select {
				case alive <- struct{}{}:
				default:
				}
				switch {
				case bytes.HasPrefix(line, []byte("s ")):
					s := newStats()
					if json.Unmarshal(line[2:], s) == nil {
						d.merge(s)
					}
				case bytes.HasPrefix(line, []byte("r ")):
					r := &Result{}
					if json.Unmarshal(line[2:], r) == nil && r.Class != "" {
						got = true
						d.found(r)
					}
				case bytes.HasPrefix(line, []byte("next ")):
					next, _ = strconv.ParseUint(strings.TrimSpace(string(line[5:])), 10, 64)
				case bytes.HasPrefix(line, []byte("done ")):
					done = true
				}
			}
			if err != nil {
				break
			}
		}
		c.Wait()
		close(ended)
		d.mu.Lock()
		delete(d.procs, c)
		killed := d.stop
		d.mu.Unlock()
		if done {
			return
		}
		if next > 0 {
			start = next
			continue
		}
		b, _ := os.ReadFile(sf)
		f := strings.Fields(string(b))
		if len(f) != 2 {
			d.mu.Lock()
			if !killed {
				d.trouble = append(d.trouble, "worker did not start: "+tail(errb.String()))
			}
			d.mu.Unlock()
			return
		}
		i, _ := strconv.ParseUint(f[0], 10, 64)
		if !got && !killed {
			d.mu.Lock()
			if hung.Load() {
				d.hb++
				d.trouble = append(d.trouble, fmt.Sprintf("watchdog: seed %s made no progress for %s", strings.TrimLeft(f[1], "0"), d.hang))
			} else {
				d.crashes = append(d.crashes, strings.TrimLeft(f[1], "0"))
				fmt.Fprintf(os.Stderr, "worker died at seed %s: %s\n", strings.TrimLeft(f[1], "0"), tail(errb.String()))
			}
			if len(d.crashes) > 3 || d.hb > 1 {
				d.stopAll()
			}
			d.mu.Unlock()
		}
		start = i + uint64(d.workers)
		restarts++
		if restarts > 50 {
			return
		}
	}
}

func tail(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 12 {
		l = l[:12]
	}
	return strings.Join(l, " | ")
}

func (d *driver) stopAll() {
	d.stop = true
	for c := range d.procs {
		c.Process.Kill()
	}
}

func (d *driver) found(r *Result) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.viol = append(d.viol, r)
	real := 0
	for _, v := range d.viol {
		if v.Class != "harness" {
			real++
		}
	}
	if real >= 4 || len(d.viol) >= 12 {
		d.stopAll()
	} else if len(d.viol) == 1 {
		// give the other workers a moment to find a smaller one
		round := d.round
		time.AfterFunc(1500*time.Millisecond, func() {
			d.mu.Lock()
			defer d.mu.Unlock()
			if d.over || d.round != round {
				return
			}
			for _, v := range d.viol {
				if v.Class != "harness" {
					d.stopAll()
					return
				}
			}
		})
	}
}

func (d *driver) merge(s *Stats) {
	d.mu.Lock()
	defer d.mu.Unlock()
	t := d.st
	t.Runs += s.Runs
	t.Steps += s.Steps
	t.Switches += s.Switches
	t.Preempt += s.Preempt
	t.MapIter += s.MapIter
	t.MapPerm += s.MapPerm
	t.Nontriv += s.Nontriv
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Strats {
		t.Strats[k] += v
	}
	for _, h := range s.Inter {
		d.inter[h] = true
	}
	for k, v := range s.Hashes {
		if len(d.hashes) < 4000 {
			d.hashes[k] = v
		}
	}
	if s.Sites > d.sites {
		d.sites = s.Sites
	}
}

// execOne runs one replay in a fresh process.
func (d *driver) execOne(rp *Replay, trace bool) *Result {
	f, err := os.CreateTemp(d.scratch, "exec")
	if err != nil {
		return nil
	}
	b, _ := json.Marshal(rp)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	args := []string{"exec", f.Name()}
	if trace {
		args = append(args, "trace")
	}
	return d.execCmd(args)
}

func (d *driver) execCmd(args []string) *Result {
	c := d.cmd(args...)
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	if err := c.Start(); err != nil {
		return nil
	}
	t := time.AfterFunc(d.hang, func() { c.Process.Kill() })
	c.Wait()
	t.Stop()
	for _, l := range bytes.Split(out.Bytes(), []byte("\n")) {
		if bytes.HasPrefix(l, []byte("r ")) {
			r := &Result{}
			if json.Unmarshal(l[2:], r) == nil {
				return r
			}
		}
	}
	if e := errb.String(); strings.Contains(e, "fatal error:") || strings.Contains(e, "runtime: goroutine stack exceeds") || strings.Contains(e, "panic:") || strings.Contains(e, "SIGSEGV") {
		return &Result{Class: "crash", Msg: "the process dies: " + tail(e)}
	}
	return nil
}

func (d *driver) confirm(v *Result) *Replay {
	rp := &Replay{Property: d.prop.ID, Seed: v.Seed, Class: v.Class, Message: v.Msg, Hash: v.Hash, Streams: v.Streams}
	for try := 0; try < 6; try++ {
		r := d.execOne(rp, false)
		if r == nil || r.Class == "" || r.Class == "harness" {
			continue
		}
		if r.Class == v.Class || try == 2 {
			// with the race detector on, a run found without it may show
			// the race that makes it go wrong instead
			rp.Class, rp.Message = r.Class, r.Msg
			return rp
		}
	}
	fmt.Fprintf(os.Stderr, "candidate not reproduced: seed %d %s: %s\n", v.Seed, v.Class, v.Msg)
	return nil
}

func (d *driver) confirmCrash(seed string) *Replay {
	n := 0
	var last *Result
	for try := 0; try < 3; try++ {
		if r := d.execCmd([]string{"exec", d.prop.ID, "seed", seed}); r != nil && r.Class != "" && r.Class != "harness" {
			n++
			last = r
		}
	}
	if n < 2 {
		return nil
	}
	s, _ := strconv.ParseUint(seed, 10, 64)
	return &Replay{Property: d.prop.ID, Seed: s, Class: last.Class, Message: last.Msg, Note: "the process ends before its choices can be recorded; the seed alone replays the run"}
}

// minimise removes recorded choices while the violation class stays the same.
func (d *driver) minimise(rp *Replay, tier string) *Replay {
	budget := 25 * time.Second
	if tier == "thorough" {
		budget = 120 * time.Second
	}
	if v := os.Getenv("SIM_MINIMISE_SECS"); v != "" {
		if f, err := strconv.ParseFloat(v, 64); err == nil {
			budget = time.Duration(f * float64(time.Second))
		}
	}
	end := time.Now().Add(budget)
	cur := *rp.Streams
	get := func(s *Streams, i int) *[]simrt.Entry {
		return []*[]simrt.Entry{&s.S, &s.F, &s.M, &s.W}[i]
	}
	try := func(cands []Streams) int {
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c := *rp
				c.Streams = &cands[i]
				r := d.execOne(&c, false)
				res[i] = r != nil && r.Class == rp.Class
			}(i)
		}
		wg.Wait()
		for i, ok := range res {
			if ok {
				return i
			}
		}
		return -1
	}
	for pass := 0; pass < 4 && time.Now().Before(end); pass++ {
		before := cur.size()
		for si := 0; si < 4; si++ {
			chunk := len(*get(&cur, si))
			for chunk >= 1 && time.Now().Before(end) {
				l := *get(&cur, si)
				if len(l) == 0 {
					break
				}
				if chunk > len(l) {
					chunk = len(l)
				}
				progress := false
				for at := 0; at < len(l) && time.Now().Before(end); {
					var cands []Streams
					var ats []int
					for k := at; k < len(l) && len(cands) < 8; k += chunk {
						c := cur
						e := k + chunk
						if e > len(l) {
							e = len(l)
						}
						nl := append(append([]simrt.Entry(nil), l[:k]...), l[e:]...)
						*get(&c, si) = nl
						cands = append(cands, c)
						ats = append(ats, k)
					}
					i := try(cands)
					if i >= 0 {
						cur = cands[i]
						l = *get(&cur, si)
						at = ats[i]
						progress = true
					} else {
						at = ats[len(ats)-1] + chunk
					}
				}
				if !progress || chunk > 1 {
					if chunk == 1 {
						break
					}
					chunk /= 2
				}
			}
		}
		// smaller values
		for si := 3; si >= 0 && time.Now().Before(end); si-- {
			l := *get(&cur, si)
			for k := 0; k < len(l) && time.Now().Before(end); k++ {
				var cands []Streams
				for _, nv := range []uint64{1, l[k].V / 2, l[k].V - 1} {
					if nv == 0 || nv >= l[k].V {
						continue
					}
					c := cur
					nl := append([]simrt.Entry(nil), l...)
					nl[k].V = nv
					*get(&c, si) = nl
					cands = append(cands, c)
				}
				if len(cands) == 0 {
					continue
				}
				if i := try(cands); i >= 0 {
					cur = cands[i]
					l = *get(&cur, si)
				}
			}
		}
		if cur.size() == before {
			break
		}
	}
	rp.Streams = &cur
	rp.Minimised = true
	for try := 0; try < 6; try++ {
		if r := d.execOne(rp, true); r != nil && r.Class == rp.Class {
			rp.Message, rp.Hash = r.Msg, r.Hash
			rp.Scenario, rp.Schedule = r.Log, r.Trace
			break
		}
	}
	return rp
}

// determinism executes sampled seeds again in fresh processes.
func (d *driver) determinism() (int, []string) {
	var seeds []string
	for s := range d.hashes {
		seeds = append(seeds, s)
	}
	sort.Strings(seeds)
	rng := rand.New(rand.NewSource(int64(d.seed)))
	rng.Shuffle(len(seeds), func(i, j int) { seeds[i], seeds[j] = seeds[j], seeds[i] })
	n := 32
	if d.tier == "thorough" {
		n = 256
	}
	if len(seeds) > n {
		seeds = seeds[:n]
	}
	var mu sync.Mutex
	var bad []string
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, s := range seeds {
		wg.Add(1)
		go func(s string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := d.execCmd([]string{"exec", d.prop.ID, "seed", s})
			if r == nil || r.Hash != d.hashes[s] {
				mu.Lock()
				bad = append(bad, s)
				mu.Unlock()
			}
		}(s)
	}
	wg.Wait()
	return len(seeds), bad
}

func replayMain(a []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	scratch := fl.String("scratch", "", "")
	fl.Parse(a)
	b, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if props[rp.Property] == nil {
		return 2
	}
	d := &driver{prop: props[rp.Property], scratch: *scratch, hang: 60 * time.Second}
	var r *Result
	for try := 0; try < 6; try++ {
		if rp.Streams == nil {
			r = d.execCmd([]string{"exec", rp.Property, "seed", strconv.FormatUint(rp.Seed, 10), "trace"})
		} else {
			r = d.execOne(&rp, true)
		}
		if r != nil && r.Class == rp.Class {
			break
		}
	}
	if r == nil {
		fmt.Println("replay did not run")
		return 2
	}
	for _, l := range r.Log {
		fmt.Println(l)
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Class == "" {
		fmt.Println("the replayed run shows no violation on this tree")
		return 0
	}
	same := "event log identical to the recorded run"
	if r.Hash != rp.Hash {
		same = "event log differs from the recorded run"
	}
	fmt.Printf("%s: %s (%s)\n", r.Class, r.Msg, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fl.Arg(0))
	return 1
}
