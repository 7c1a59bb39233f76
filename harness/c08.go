package main

import (
	"bytes"
	"fmt"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C08", runC08)
	docs["C08"] = propDoc{
		Rule:   "Each run draws a pool of 1-6 validators (from the builder or the API, named or not, sharing a reference map or not) and 1-3 goroutines that generate code for lists of them, in lists of their own or in one list used by all, with one Generator or several, mixed with validations; then validators are renamed or extended and code is generated again, or names are registered anew before the first validation.",
		Oracle: "Every generation prints what it prints on a fresh equal pool used for nothing else; names, roots, reference maps and the callers' lists are as before; verdicts equal those of a fresh validator; Go's race detector is silent.",
	}
}

type c08op struct {
	list []int // generate
	sl   []*jsval.JSVal
	v    int // validate
	in   interface{}
	form uint64
	want Outcome
	code []byte
	own  bool // a generator of its own
	got  Outcome
	out  []byte
	done bool
}

// pool is a set of groups.
type vpool struct {
	gs   []*group
	srcs [][]byte
}

func genPool(x *Ctx, o Opt) *vpool {
	p := &vpool{gs: []*group{genGroup(x, o)}}
	for x.Chance(1, 3) && len(p.gs) < 3 {
		p.gs = append(p.gs, genGroup(x, o))
	}
	dec := x.Bool()
	for _, g := range p.gs {
		if dec {
			g.s.decorate(x)
		}
		p.srcs = append(p.srcs, g.s.JSON())
		x.Logf("%s", g)
	}
	return p
}

func (p *vpool) build() []*jsval.JSVal {
	var all []*jsval.JSVal
	for i, g := range p.gs {
		vs, err := g.build(p.srcs[i], nil)
		if err != nil {
			panic(abortHarness(fmt.Sprintf("cannot build %s: %v", p.srcs[i], err)))
		}
		all = append(all, vs...)
	}
	return all
}

func (p *vpool) size() int {
	n := 0
	for _, g := range p.gs {
		n += len(g.mems)
	}
	return n
}

// node of validator i.
func (p *vpool) node(i int) (*Spec, *Node) {
	for _, g := range p.gs {
		if i < len(g.mems) {
			m := g.mems[i]
			if m.kind == 1 || m.kind == 2 {
				return g.s, g.s.Defs[m.def].N
			}
			return g.s, g.s.Root
		}
		i -= len(g.mems)
	}
	panic("validator")
}

// list draws validators to pass to one generation.
func (p *vpool) list(x *Ctx) []int {
	n := p.size()
	l := shuffleWith(x, n)
	if x.Chance(1, 2) {
		l = l[:1+x.Int(n)]
	}
	if x.Chance(1, 10) {
		l = append(l, l[0])
	}
	return l
}

func pick(vs []*jsval.JSVal, l []int) []*jsval.JSVal {
	var o []*jsval.JSVal
	for _, i := range l {
		o = append(o, vs[i])
	}
	return o
}

// looks is what a caller can see of a validator.
type looks struct {
	name string
	root jsval.Constraint
	cm   *jsval.ConstraintMap
	n    int
}

func lookAt(vs []*jsval.JSVal) []looks {
	var l []looks
	for _, v := range vs {
		l = append(l, looks{v.Name, v.Root(), v.ConstraintMap, v.Len()})
	}
	return l
}

func runC08(x *Ctx) {
	o := printOpt
	o.Depth = 2
	if x.Chance(1, 8) {
		o.NoEnum = false
	}
	if x.Chance(1, 3) {
		o.Defaults = false
	}
	p := genPool(x, o)
	fo := formOpt{Structs: x.Bool()}
	nt := x.Crowd(1, 3)
	if x.Chance(1, 3) {
		nt = 1
	}
	// only generations, so that no reference is resolved by them
	late := x.Chance(1, 4)
	sharedList := p.list(x)
	tasks := make([][]*c08op, nt)
	ngen := 0
	for t := range tasks {
		for n := x.Range(1, 4); n > 0; n-- {
			op := &c08op{}
			if ngen == 0 || late || x.Chance(2, 3) {
				ngen++
				op.own = x.Bool()
				if x.Chance(1, 3) {
					op.list = sharedList
				} else {
					op.list = p.list(x)
				}
			} else {
				op.v = x.Int(p.size())
				s, nd := p.node(op.v)
				op.in = s.Value(x, nd, 0)
				for k := x.Int(3); k > 0; k-- {
					op.in = s.Mutate(x, op.in)
				}
				op.form = uint64(x.Int(1 << 16))
			}
			tasks[t] = append(tasks[t], op)
		}
	}
	real := func(op *c08op) interface{} {
		s, nd := p.node(op.v)
		if op.form%2 == 0 {
			return s.Realise(&Ctx{W: simrt.NewGen(1)}, nd, op.in, formOpt{})
		}
		return s.Realise(&Ctx{W: simrt.NewGen(simrt.Mix(op.form))}, nd, op.in, fo)
	}
	// what each call gives on its own
	alone := func(op *c08op, mod func(vs []*jsval.JSVal)) {
		if mod == nil {
			simrt.ResetAll()
		}
		vs := p.build()
		if mod != nil {
			mod(vs)
		}
		if op.list != nil {
			x.Solo(func() { op.code, op.want = generate(pick(vs, op.list)...) })
			x.Logf("generate %v alone: %s", op.list, op.want)
			return
		}
		in := real(op)
		x.Solo(func() { op.want = call(vs[op.v], in) })
		x.Logf("validate %s with validator %d alone: %s", clip(text(op.in)), op.v, op.want)
	}
	for _, ops := range tasks {
		for _, op := range ops {
			alone(op, nil)
		}
	}
	simrt.ResetAll()
	vs := p.build()
	before := lookAt(vs)
	gen := jsval.NewGenerator()
	shared := pick(vs, sharedList)
	var fns []func()
	for t := range tasks {
		ops := tasks[t]
		for _, op := range ops {
			if op.list != nil {
				op.sl = pick(vs, op.list)
				if &op.list[0] == &sharedList[0] {
					op.sl = shared
				}
			}
		}
		objs := make([]interface{}, len(ops))
		for i, op := range ops {
			if op.list == nil {
				objs[i] = real(op)
			}
		}
		fns = append(fns, func() {
			for i, op := range ops {
				if op.list != nil {
					g := gen
					if op.own {
						g = jsval.NewGenerator()
					}
					op.out, op.got = generateWith(g, op.sl...)
				} else {
					op.got = call(vs[op.v], objs[i])
				}
				op.done = true
			}
		})
	}
	x.Sim(fns...)
	if nt > 1 {
		x.Probe("concurrent")
	}
	check := func(op *c08op, at string) {
		if !op.done {
			x.Failnow("lost", "%s did not complete", at)
		}
		note(op.got.verdict())
		if op.list == nil {
			x.Probe("validations")
			if op.got.verdict() != op.want.verdict() {
				x.Failnow("verdict", "%s: validating %s: %s, alone: %s", at, clip(text(op.in)), op.got, op.want)
			}
			return
		}
		x.Probe("generations")
		if op.got.verdict() != op.want.verdict() {
			x.Failnow("outcome", "%s: generating %v: %s, alone: %s", at, op.list, op.got, op.want)
		}
		if op.got.OK && !bytes.Equal(op.out, op.code) {
			x.Failnow("code", "%s: generating %v prints other code than alone: %s", at, op.list, diffAt(op.out, op.code))
		}
		for i, j := range op.list {
			if op.sl[i] != vs[j] {
				x.Failnow("list", "%s: generating %v changed element %d of the caller's list", at, op.list, i)
			}
		}
	}
	same := func(before []looks) {
		after := lookAt(vs)
		for i := range vs {
			b, a := before[i], after[i]
			switch {
			case a.name != b.name:
				x.Failnow("name", "validator %d is now named %q instead of %q", i, a.name, b.name)
			case a.root != b.root:
				x.Failnow("root", "validator %d has another root", i)
			case a.cm != b.cm:
				x.Failnow("map", "validator %d has another reference map", i)
			case a.n != b.n:
				x.Failnow("map", "validator %d has %d references instead of %d", i, a.n, b.n)
			}
		}
	}
	for t := range tasks {
		for i, op := range tasks[t] {
			check(op, fmt.Sprintf("goroutine %d call %d", t, i))
		}
	}
	same(before)
	x.CheckLocks()

	if late {
		// names are registered anew
		x.Probe("late registrations")
		type reg struct {
			v    int
			name string
			kind int
		}
		var regs []reg
		for i := 0; i < p.size(); i++ {
			s, _ := p.node(i)
			for _, d := range s.Defs {
				if x.Chance(2, 3) {
					regs = append(regs, reg{i, d.Name, x.Int(4)})
				}
			}
		}
		rereg := func(vs []*jsval.JSVal) {
			for _, r := range regs {
				if _, err := vs[r.v].GetReference(r.name); err == nil {
					vs[r.v].SetReference(r.name, []jsval.Constraint{jsval.String(), jsval.Integer(), jsval.NullConstraint, jsval.EmptyConstraint}[r.kind])
				}
			}
		}
		x.Logf("registered anew: %v", regs)
		var ops []*c08op
		for n := x.Range(1, 4); n > 0; n-- {
			op := &c08op{v: x.Int(p.size())}
			s, nd := p.node(op.v)
			op.in = s.Value(x, nd, 0)
			for k := x.Int(3); k > 0; k-- {
				op.in = s.Mutate(x, op.in)
			}
			alone(op, rereg)
			ops = append(ops, op)
		}
		rereg(vs)
		x.SoloOrd(func() {
			for _, op := range ops {
				op.got, op.done = call(vs[op.v], real(op)), true
			}
		})
		for _, op := range ops {
			check(op, "after names were registered anew")
		}
		return
	}

	// change the validators and generate again
	var mods []func(vs []*jsval.JSVal)
	mod := func(vs []*jsval.JSVal) {
		for _, f := range mods {
			f(vs)
		}
	}
	for k := x.Int(4); k > 0; k-- {
		i := x.Int(p.size())
		var f func(vs []*jsval.JSVal)
		switch x.Int(4) {
		case 0:
			nm := x.Pick([]string{"", "Z", "AA", "Renamed"})
			x.Logf("validator %d is renamed to %q", i, nm)
			f = func(vs []*jsval.JSVal) { vs[i].SetName(nm) }
		case 1:
			x.Logf("validator %d gets a new reference", i)
			f = func(vs []*jsval.JSVal) { vs[i].SetReference("#/added", jsval.String().MaxLength(77)) }
		case 2:
			x.Logf("validator %d gets a new root", i)
			f = func(vs []*jsval.JSVal) { vs[i].SetRoot(jsval.Array().MinItems(3)) }
		default:
			x.Logf("validator %d gets a new property if it is an object", i)
			f = func(vs []*jsval.JSVal) {
				if oc, ok := vs[i].Root().(*jsval.ObjectConstraint); ok {
					oc.AddProp("added", jsval.Boolean())
				}
			}
		}
		mods = append(mods, f)
		f(vs)
		op := &c08op{list: p.list(x)}
		alone(op, mod)
		op.sl = pick(vs, op.list)
		before := lookAt(vs)
		x.SoloOrd(func() { op.out, op.got = generateWith(gen, op.sl...); op.done = true })
		check(op, "after the change")
		same(before)
	}
}

func generateWith(g *jsval.Generator, vs ...*jsval.JSVal) (out []byte, o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Panic: fmt.Sprint(r) + where()}
		}
	}()
	var b bytes.Buffer
	if err := g.Process(&b, vs...); err != nil {
		return b.Bytes(), Outcome{Err: errText(err)}
	}
	return b.Bytes(), Outcome{OK: true}
}
