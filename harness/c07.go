package main

import (
	"bytes"
	"fmt"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C07", runC07)
	docs["C07"] = propDoc{
		Rule:   "Each run draws one or two groups of validators (from the builder or the API, 1-4 validators sharing a reference map, named or not, with several names for one constraint and patterns registered twice) and generates code 4-8 times from independently built equal copies: the document re-serialised with its members in another order, rules and references registered in another order, other allocations in between, another clock, process id, host, environment and random numbers, other map orders, cold or warm package state, and sometimes two generations at once.",
		Oracle: "The bytes (or the fact that generation fails) equal those of the first copy, made under canonical map order.",
	}
}

func runC07(x *Ctx) {
	o := printOpt
	if x.Chance(1, 4) {
		o.Depth, o.Width, o.Wide = 2, 20, true
	}
	if x.Chance(1, 8) {
		o.NoEnum = false
	}
	gs := []*group{genGroup(x, o)}
	if x.Chance(1, 3) {
		gs = append(gs, genGroup(x, o))
	}
	for _, g := range gs {
		if g.viaDoc && x.Bool() {
			g.s.decorate(x)
		}
		x.Logf("%s", g)
	}
	mk := func(y *Ctx, srcs [][]byte) []*jsval.JSVal {
		var all []*jsval.JSVal
		for i, g := range gs {
			vs, err := g.build(srcs[i], y)
			if err != nil {
				panic(abortHarness(fmt.Sprintf("cannot build %s: %v", srcs[i], err)))
			}
			all = append(all, vs...)
		}
		return all
	}
	var srcs [][]byte
	for _, g := range gs {
		srcs = append(srcs, g.s.JSON())
	}
	var want []byte
	var wo Outcome
	x.Solo(func() { want, wo = generate(mk(nil, srcs)...) })
	note(string(want))
	if wo.OK {
		x.Probe("printed")
	} else {
		x.Probe("unprintable")
		if wo.Panic != "" {
			x.Failnow("panic", "generation: %s", wo)
		}
	}
	var first []*jsval.JSVal
	for k := x.Range(3, 7); k > 0; k-- {
		how := ""
		simrt.SetClock(uint64(x.Int(1 << 30)))
		if x.Chance(1, 3) {
			simrt.ResetAll()
			how += " cold"
		}
		y := &Ctx{W: simrt.NewGen(simrt.Mix(uint64(1 + x.Int(1<<30))))}
		var ss [][]byte
		for i, g := range gs {
			if x.Chance(1, 3) {
				ss = append(ss, srcs[i])
			} else {
				ss = append(ss, permJSON(y, g.s.Doc()))
			}
		}
		nt := 1
		if x.Chance(1, 5) {
			nt = 2
		}
		gots := make([][]byte, nt)
		gos := make([]Outcome, nt)
		if nt == 1 {
			x.SoloOrd(func() {
				vs := first
				if vs == nil || x.Int(3) > 0 {
					vs = mk(y, ss)
					first = vs
				}
				gots[0], gos[0] = generate(vs...)
			})
		} else {
			how += " together with another generation"
			var fns []func()
			for t := range gots {
				t := t
				y := &Ctx{W: simrt.NewGen(simrt.Mix(uint64(1 + x.Int(1<<30))))}
				fns = append(fns, func() { gots[t], gos[t] = generate(mk(y, ss)...) })
			}
			x.Sim(fns...)
		}
		for t := range gots {
			if gos[t].verdict() != wo.verdict() {
				x.Failnow("outcome", "an equal copy%s: %s, the first copy: %s", how, gos[t], wo)
			}
			if wo.OK && !bytes.Equal(gots[t], want) {
				x.Failnow("bytes", "an equal copy%s prints other code: %s", how, diffAt(gots[t], want))
			}
		}
	}
}

// diffAt shows where two texts differ.
func diffAt(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(b []byte) string {
		lo, hi := i-30, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			lo = hi
		}
		return string(b[lo:hi])
	}
	return fmt.Sprintf("at byte %d %q, instead of %q", i, cut(got), cut(want))
}
