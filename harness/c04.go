package main

import (
	"errors"
	"fmt"
	"runtime"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C04", runC04)
	docs["C04"] = propDoc{
		Rule:   "Each run draws a reference (bare, as root, as property, as array item, inside combinations, or a chain of references) whose resolver follows a script of errors, panics, aborts, delays and successes, each success offering a different target, and 1-5 goroutines that validate, fetch the target and ask for defaults. Other runs use the library's own reference map with late registration and re-registration.",
		Oracle: "History check: at most one successful resolution, the requested name is right, every use denotes the one resolved target, and a use fails only if a failing resolution overlaps it.",
		Stubs:  []string{"reference resolver (scripted)"},
	}
}

// resolver outcomes
const (
	resErr = iota
	resPanic
	resExit
	resErrC // an error together with a constraint
	resOK
)

type resCall struct {
	b, e uint64
	what int
	tgt  int
	name string
}

// scripted is a user-supplied resolver.
type scripted struct {
	script  []int
	delay   []int
	targets []jsval.Constraint
	calls   []resCall // preallocated
	n       int
	succ    int
	byName  bool
}

//go:norace
func (r *scripted) begin(name string) int {
	i := r.n
	r.n++
	if i < len(r.calls) {
		r.calls[i] = resCall{b: tick(), name: name, tgt: -1, what: resErr}
	}
	return i
}

//go:norace
func (r *scripted) end(i, what, tgt int) {
	if i < len(r.calls) {
		r.calls[i].e = tick()
		r.calls[i].what = what
		r.calls[i].tgt = tgt
	}
}

//go:norace
func (r *scripted) next(i int) (what, delay, tgt int) {
	what = resOK
	if i < len(r.script) {
		what = r.script[i]
		delay = r.delay[i]
	}
	if what == resOK {
		tgt = r.succ % len(r.targets)
		r.succ++
	}
	return what, delay, tgt
}

var errResolver = errors.New("resolver failed")

func (r *scripted) GetReference(name string) (jsval.Constraint, error) {
	i := r.begin(name)
	what, delay, tgt := r.next(i)
	yieldN(1 + delay)
	switch what {
	case resErr:
		r.end(i, what, -1)
		return nil, errResolver
	case resErrC:
		r.end(i, resErr, -1)
		return jsval.EmptyConstraint, errResolver
	case resPanic:
		r.end(i, what, -1)
		panic("resolver panics")
	case resExit:
		r.end(i, what, -1)
		runtime.Goexit()
	}
	r.end(i, what, tgt)
	return r.targets[tgt], nil
}

// uses of a reference
const (
	useValidate = iota
	useResolved
	useHasDef
	useDefVal
	useReject
)

type c04use struct {
	kind int
	arg  int
	b, e uint64
	res  Outcome
	tgt  int // -1 unknown
	boo  bool
	done bool
}

func runC04(x *Ctx) {
	if x.Chance(1, 3) {
		runC04Map(x)
		return
	}
	ntg := 4
	mkTargets := func() []jsval.Constraint {
		var l []jsval.Constraint
		for i := 0; i < ntg; i++ {
			l = append(l, jsval.String().Enum(fmt.Sprintf("t%d", i), "every").Default(fmt.Sprintf("t%d", i)))
		}
		return l
	}
	r := &scripted{targets: mkTargets(), calls: make([]resCall, 256)}
	for i := x.Int(6); i > 0; i-- {
		k := []int{resErr, resErr, resErr, resPanic, resExit, resErrC}[x.Int(6)]
		r.script = append(r.script, k)
		r.delay = append(r.delay, x.Int(4))
	}
	r.script = append(r.script, resOK)
	r.delay = append(r.delay, x.Int(6))
	name := x.Pick(refNames)
	ref := jsval.Reference(r).RefersTo(name)

	// where the reference sits
	var v validator = ref
	wrap := func(s string) interface{} { return s }
	place := x.Int(7)
	switch place {
	case 1:
		v = jsval.New().SetRoot(ref)
	case 2:
		v = jsval.New().SetRoot(jsval.Object().AddProp("p", ref).Required("p"))
		wrap = func(s string) interface{} { return map[string]interface{}{"p": s} }
	case 3:
		v = jsval.New().SetRoot(jsval.Array().Items(ref))
		wrap = func(s string) interface{} { return []interface{}{s} }
	case 4:
		v = jsval.New().SetRoot(jsval.Object().AdditionalProperties(ref))
		wrap = func(s string) interface{} { return map[string]interface{}{"p": s} }
	case 5:
		v = jsval.All().Add(jsval.String()).Add(ref)
	case 6:
		// a chain: another reference denotes ours
		v2 := jsval.New()
		v2.SetReference("#/definitions/chain", ref)
		v = v2.SetRoot(jsval.Reference(v2).RefersTo("#/definitions/chain"))
	}
	x.Logf("reference %q, place %d, resolver script %v (0 error, 1 panic, 2 goroutine exit, 3 error with a constraint, 4 success)", name, place, r.script)

	nt := x.Crowd(1, 5)
	tasks := make([][]*c04use, nt)
	for t := range tasks {
		for i := x.Range(1, 6); i > 0; i-- {
			u := &c04use{kind: []int{0, 0, 0, 1, 2, 3, 4}[x.Int(7)], arg: x.Int(ntg), tgt: -1}
			if u.kind == useValidate && x.Bool() {
				u.arg = -1 // accepted by every target
			}
			tasks[t] = append(tasks[t], u)
		}
	}
	do := func(u *c04use) {
		defer func() {
			u.e = tick()
			u.done = true
			if r := recover(); r != nil {
				u.res = Outcome{Panic: fmt.Sprint(r) + where()}
			}
		}()
		u.res = Outcome{Exit: true}
		u.b = tick()
		switch u.kind {
		case useValidate, useReject:
			s := "every"
			if u.kind == useReject {
				s = "nothing accepts this"
			} else if u.arg >= 0 {
				s = fmt.Sprintf("t%d", u.arg)
			}
			u.res = call(v, wrap(s))
		case useResolved:
			c, err := ref.Resolved()
			if err != nil {
				u.res = Outcome{Err: errText(err)}
				return
			}
			u.res = Outcome{OK: true}
			u.tgt = -2
			for i := range r.targets {
				if r.targets[i] == c {
					u.tgt = i
				}
			}
		case useHasDef:
			u.boo = ref.HasDefault()
			u.res = Outcome{OK: true}
		case useDefVal:
			d := ref.DefaultValue()
			u.res = Outcome{OK: true}
			u.tgt = -1
			if d != nil {
				u.tgt = -2
				for i := 0; i < ntg; i++ {
					if d == fmt.Sprintf("t%d", i) {
						u.tgt = i
					}
				}
			}
		}
	}
	var fns []func()
	for t := range tasks {
		ops := tasks[t]
		fns = append(fns, func() { runUses(ops, do) })
	}
	x.Sim(fns...)
	x.CheckLocks()

	// after everything: uses one after the other until the script is over
	var tail []*c04use
	for i := 0; i < len(r.script)+2; i++ {
		u := &c04use{kind: []int{useResolved, useValidate}[i%2], arg: -1, tgt: -1}
		tail = append(tail, u)
		x.Solo(func() { do(u) })
	}
	x.CheckLocks()
	last := tail[len(tail)-1]
	if !last.res.OK {
		x.Failnow("recovery", "the resolver has recovered, but the reference still fails: %s", last.res)
	}
	c04check(x, r, name, append(tasks, tail))
}

// runUses performs the uses; a use whose goroutine is ended is followed by the
// rest on another goroutine.
func runUses(ops []*c04use, do func(*c04use)) {
	i := 0
	fin := false
	defer func() {
		if !fin && i+1 < len(ops) {
			rest := ops[i+1:]
			simrt.Go(func() { runUses(rest, do) })
		}
	}()
	for i < len(ops) {
		do(ops[i])
		i++
	}
	fin = true
}

func c04check(x *Ctx, r *scripted, name string, tasks [][]*c04use) {
	nOK, tgt := 0, -1
	for i := 0; i < r.n && i < len(r.calls); i++ {
		c := r.calls[i]
		if c.name != name {
			x.Failnow("name", "the resolver was asked for %q instead of %q", c.name, name)
		}
		switch c.what {
		case resOK:
			nOK++
			if nOK == 1 {
				tgt = c.tgt
			}
		case resErr:
			x.FaultHit("resolver-error")
		case resPanic:
			x.FaultHit("resolver-panic")
		case resExit:
			x.FaultHit("resolver-goexit")
		}
	}
	if nOK > 1 {
		x.Failnow("resolved-twice", "the resolver was asked again after a successful resolution (%d successes)", nOK)
	}
	okB := ^uint64(0)
	for i := 0; i < r.n && i < len(r.calls); i++ {
		if r.calls[i].what == resOK {
			okB = r.calls[i].b
		}
	}
	for t, ops := range tasks {
		for i, u := range ops {
			at := fmt.Sprintf("goroutine %d use %d", t, i)
			if !u.done {
				x.Failnow("lost", "%s did not complete", at)
			}
			note(fmt.Sprint(u.kind, u.res.verdict(), u.tgt, u.boo))
			// did a failing resolution overlap this use?
			failed, died := false, false
			for j := 0; j < r.n && j < len(r.calls); j++ {
				c := r.calls[j]
				if c.what != resOK && c.b < u.e && (c.e == 0 || c.e > u.b) {
					failed = true
					if c.what != resErr {
						died = true
					}
				}
			}
			if (u.res.Panic != "" || u.res.Exit) && !died {
				x.Failnow("panic", "%s: %s without a panicking resolver", at, u.res)
			}
			if u.res.Panic != "" || u.res.Exit {
				continue
			}
			before := okB < u.e // a success may have happened
			switch u.kind {
			case useReject:
				if u.res.OK {
					x.Failnow("accepted", "%s: a value that no target accepts was accepted", at)
				}
			case useValidate:
				if u.res.OK && !before {
					x.Failnow("accepted", "%s: accepted before the resolver ever succeeded", at)
				}
				if u.res.OK && u.arg >= 0 && u.arg != tgt {
					x.Failnow("target", "%s: validated against target t%d, but the reference denotes t%d", at, u.arg, tgt)
				}
				if !u.res.OK && !failed && (u.arg < 0 || u.arg == tgt) {
					x.Failnow("failed", "%s: failed although no resolution failed during it: %s", at, u.res)
				}
			case useResolved:
				if u.res.OK && u.tgt != tgt {
					x.Failnow("target", "%s: resolved to t%d, but the reference denotes t%d", at, u.tgt, tgt)
				}
				if !u.res.OK && !failed {
					x.Failnow("failed", "%s: failed although no resolution failed during it: %s", at, u.res)
				}
			case useHasDef:
				if !u.boo && !failed {
					x.Failnow("default", "%s: no default seen although no resolution failed during it", at)
				}
			case useDefVal:
				if u.tgt != -1 && u.tgt != tgt {
					x.Failnow("default", "%s: default of target t%d, but the reference denotes t%d", at, u.tgt, tgt)
				}
				if u.tgt == -1 && !failed {
					x.Failnow("default", "%s: no default seen although no resolution failed during it", at)
				}
			}
		}
	}
}

// runC04Map uses the library's own map as resolver.
func runC04Map(x *Ctx) {
	cm := &jsval.ConstraintMap{}
	v := jsval.New().SetConstraintMap(cm)
	name := x.Pick(refNames)
	other := x.Pick(refNames)
	const ntg = 4
	var targets []jsval.Constraint
	for i := 0; i < ntg; i++ {
		targets = append(targets, jsval.String().Enum(fmt.Sprintf("t%d", i), "every"))
	}
	var rs []jsval.RefResolver
	rs = append(rs, cm, v)
	nref := x.Range(1, 3)
	refs := make([]*jsval.ReferenceConstraint, nref)
	for i := range refs {
		refs[i] = jsval.Reference(rs[x.Int(2)]).RefersTo(name)
	}
	type set struct {
		tgt  int
		b, e uint64
	}
	type use struct {
		ref  int
		res  bool
		arg  int
		b, e uint64
		ok   bool
		tgt  int
		err  string
	}
	nset := x.Range(1, 3)
	sets := make([]*set, nset)
	for i := range sets {
		sets[i] = &set{tgt: i}
	}
	var fns []func()
	pre := x.Int(nset)
	x.Logf("references to %q, %d registrations, the first after %d uses", name, nset, pre)
	fns = append(fns, func() {
		for _, s := range sets {
			yieldN(pre)
			if other != name {
				cm.SetReference(other, targets[3])
			}
			s.b = tick()
			cm.SetReference(name, targets[s.tgt])
			s.e = tick()
		}
	})
	nt := x.Range(1, 4)
	tasks := make([][]*use, nt)
	for t := range tasks {
		for i := x.Range(1, 6); i > 0; i-- {
			tasks[t] = append(tasks[t], &use{ref: x.Int(nref), res: x.Bool(), arg: x.Int(ntg) - 1, tgt: -1})
		}
	}
	do := func(u *use) {
		u.b = tick()
		if u.res {
			c, err := refs[u.ref].Resolved()
			u.ok = err == nil
			if err != nil {
				u.err = errText(err)
			}
			u.tgt = -2
			for i := range targets {
				if targets[i] == c {
					u.tgt = i
				}
			}
		} else {
			s := "every"
			if u.arg >= 0 {
				s = fmt.Sprintf("t%d", u.arg)
			}
			o := call(refs[u.ref], s)
			u.ok = o.OK
			u.err = o.String()
		}
		u.e = tick()
	}
	for t := range tasks {
		ops := tasks[t]
		fns = append(fns, func() {
			for _, u := range ops {
				do(u)
			}
		})
	}
	x.Sim(fns...)
	x.CheckLocks()
	var tail []*use
	for i := range refs {
		for _, b := range []bool{true, false, true} {
			u := &use{ref: i, res: b, arg: -1, tgt: -1}
			x.Solo(func() { do(u) })
			tail = append(tail, u)
		}
	}
	tasks = append(tasks, tail)
	for ri := range refs {
		// the target, as far as it was observed
		tgt := -1
		var first *use
		for _, ops := range tasks {
			for _, u := range ops {
				if u.ref != ri || !u.res || !u.ok {
					continue
				}
				if u.tgt < 0 {
					x.Failnow("target", "reference %d denotes a constraint that was never registered", ri)
				}
				if tgt >= 0 && tgt != u.tgt {
					x.Failnow("target", "reference %d denoted t%d and later t%d", ri, tgt, u.tgt)
				}
				tgt = u.tgt
				if first == nil || u.e < first.e {
					first = u
				}
			}
		}
		if tgt >= len(sets) {
			x.Failnow("target", "reference %d to %q denotes what was registered as %q", ri, name, other)
		}
		for t, ops := range tasks {
			for i, u := range ops {
				if u.ref != ri {
					continue
				}
				note(fmt.Sprint(u.ok, u.tgt))
				at := fmt.Sprintf("goroutine %d use %d", t, i)
				if u.ok && u.e < sets[0].b {
					x.Failnow("accepted", "%s: reference resolved before anything was registered", at)
				}
				if !u.ok && u.b > sets[0].e && (u.res || u.arg < 0 || u.arg == tgt) {
					x.Failnow("failed", "%s: fails although %q is registered: %s", at, name, u.err)
				}
				if u.ok && !u.res && u.arg >= 0 && tgt >= 0 && u.arg != tgt {
					x.Failnow("target", "%s: validated against t%d, the reference denotes t%d", at, u.arg, tgt)
				}
			}
		}
		if tgt >= 0 {
			// the target must have been current during some use
			okAny := false
			for _, ops := range tasks {
				for _, u := range ops {
					if u.ref != ri || sets[tgt].b > u.e {
						continue
					}
					if tgt+1 < len(sets) && sets[tgt+1].e < u.b {
						continue
					}
					okAny = true
				}
			}
			if !okAny {
				x.Failnow("target", "reference %d denotes t%d, which was current during no use", ri, tgt)
			}
		}
	}
}
