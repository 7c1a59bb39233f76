package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

// rules says, per property, how cases are made and what is stubbed.
type propDoc struct {
	Rule   string
	Oracle string
	Stubs  []string
}

var docs = map[string]propDoc{}

func (d *driver) evidence(path, level string, t0 time.Time, explore, wall, buildS float64, ilevel string, final *Replay, unconfirmed, det int, detBad []string) {
	doc := docs[d.prop.ID]
	st := d.st
	var samples []interface{}
	var seeds []string
	for s := range d.hashes {
		seeds = append(seeds, s)
	}
	sort.Strings(seeds)
	if final == nil {
		for i := 0; i < len(seeds) && len(samples) < 3; i++ {
			r := d.execCmd([]string{"exec", d.prop.ID, "seed", seeds[i], "trace"})
			if r == nil {
				continue
			}
			cut := func(l []string, n int) []string {
				if len(l) > n {
					l = append(append([]string(nil), l[:n]...), fmt.Sprintf("... %d more", len(l)-n))
				}
				for i := range l {
					if len(l[i]) > 400 {
						l[i] = l[i][:400] + "..."
					}
				}
				return l
			}
			samples = append(samples, map[string]interface{}{
				"seed": r.Seed, "strategy": r.Strat, "steps": r.Steps, "switches": r.Switch, "map_orders_permuted": r.MapPerm,
				"faults": r.Faults, "event_log_hash": r.Hash, "scenario": cut(r.Log, 40), "schedule": cut(r.Trace, 12),
			})
		}
	} else {
		samples = append(samples, map[string]interface{}{"seed": final.Seed, "violation": final.Message, "scenario": final.Scenario})
	}
	if samples == nil {
		samples = []interface{}{}
	}
	var ft uint64
	for _, v := range st.Faults {
		ft += v
	}
	cov := map[string]interface{}{
		"evaluations":         st.Runs,
		"distinct_nontrivial": min64(uint64(len(d.inter)), st.Nontriv),
		"rule":                doc.Rule + " A run is one seed; it counts as non-trivial if the simulator took at least one non-default decision in it (a preemption, a permuted map order or an injected fault), and runs are distinct if the hash of their event log (every scheduling decision with its code position, every map order, every fault) differs.",
		"oracle":              doc.Oracle,
		"samples":             samples,
		"runs_per_hour":       int64(float64(st.Runs) / explore * 3600),
		"simulated_steps":     st.Steps,
		"simulated_time":      "the code has no timers; simulated time is counted in scheduler steps (one per executed statement of the instrumented code)",
		"context_switches":    st.Switches,
		"preemptions":         st.Preempt,
		"distinct_event_logs": len(d.inter),
		"map_iterations":      st.MapIter,
		"map_orders_permuted": st.MapPerm,
		"faults_injected":     st.Faults,
		"faults_total":        ft,
		"probes":              st.Probes,
		"strategies":          st.Strats,
		"sites_reached":       d.sites,
		"determinism_audit":   map[string]interface{}{"seeds_executed_twice": det, "event_log_differs": detBad},
		"unconfirmed":         unconfirmed,
		"watchdog":            d.hb,
		"build_s":             buildS,
		"instrumentation":     "level " + ilevel,
		"components_real":     []string{"github.com/lestrrat-go/jsval and its packages (instrumented source of /repo's working tree)", "jsschema, jsref (instrumented: map order and file access), jspointer, structinfo, encoding/json, go/format, regexp, net/http types"},
		"components_stubbed":  append([]string{"goroutine scheduler", "package sync", "map iteration order", "os, io/ioutil, log and fmt.Print* in the commands (simulated file system and streams)", "clock"}, doc.Stubs...),
	}
	tier := d.tier
	if tier != "thorough" {
		tier = "quick"
	}
	viol := 0
	if final != nil {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": d.prop.ID, "tier": tier, "seed": d.seed, "level": level, "coverage": cov,
		"assumptions": []string{
			"preemption only at statement boundaries and synchronisation operations of /repo's own packages; data races below that granularity are left to the race detector, which sees only the program's own happens-before edges",
			"sequentially consistent memory between yield points",
			"bounded generators: see rule",
		},
		"wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	_ = strconv.Itoa
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
