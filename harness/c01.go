package main

import (
	"fmt"
	"reflect"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C01", runC01)
	docs["C01"] = propDoc{
		Rule:   "Each run draws a schema (API-built or built from JSON), a pool of inputs that are single mutations of one another, and 2-5 goroutines that validate inputs of the pool, share inputs read-only or change and revalidate their own objects, keep returned errors to look at them again at the end, with one validator or two validators sharing a reference map.",
		Oracle: "Every verdict (and, on acceptance, the final input) equals that of the same input on a freshly built validator used for nothing else; inputs are unchanged when no default applies; Go's race detector is silent; every call ends.",
	}
}

type c01in struct {
	canon interface{}
	form  uint64
	ref   Outcome
	final string
	alias [2]string // names under which one object lies
}

func runC01(x *Ctx) {
	o := stdOpt
	long := x.Chance(1, 10)
	big := !long && x.Chance(1, 12)
	if long {
		o.Depth, o.Width = 1+x.Int(2), 3
	}
	if x.Chance(1, 3) {
		o.Defaults = false
	}
	s := GenSpec(x, o)
	if big {
		s.Root.bigger(x)
	}
	viaDoc := x.Bool()
	mk := s.mk(viaDoc)
	hasDef := s.HasDefaults()

	// inputs
	nin := x.Range(3, 8)
	if long {
		nin = 40
	}
	var ins []*c01in
	base := s.Value(x, s.Root, 0)
	if big {
		base = s.bigValue(x, s.Root)
	}
	for i := 0; i < nin; i++ {
		v := clone(base)
		switch {
		case i == 0:
		case x.Chance(1, 6):
			v = s.Value(x, s.Root, 0)
			base = v
		default:
			v = s.Mutate(x, ins[x.Int(len(ins))].canon)
		}
		ins = append(ins, &c01in{canon: v})
	}
	fo := formOpt{Structs: x.Chance(1, 2), Accs: x.Chance(1, 2), Typed: x.Chance(1, 2)}
	for _, in := range ins {
		if x.Bool() {
			in.form = uint64(1 + x.Int(1<<16))
		}
	}
	x.Logf("schema %s via %s", s.JSON(), map[bool]string{true: "builder", false: "API"}[viaDoc])

	// reference results, each on a validator of its own
	for _, in := range ins {
		simrt.ResetAll()
		v := mk()
		r := s.RealiseAs(in.form, in.canon, fo)
		x.Solo(func() { in.ref = call(v, r) })
		in.final = text(Snap(r))
		x.Logf("input %s alone: %s", clip(text(in.canon)), in.ref)
		if in.ref.OK {
			x.Probe("accepted")
		} else {
			x.Probe("rejected")
		}
	}

	simrt.ResetAll()
	vs := []*jsval.JSVal{mk()}
	if !viaDoc && x.Chance(1, 3) {
		// a second validator on the same reference map
		w := jsval.New().SetConstraintMap(vs[0].ConstraintMap)
		w.SetRoot(vs[0].Root())
		vs = append(vs, w)
	}
	if x.Chance(1, 4) {
		vs[0].SetName("V")
	}

	type op struct {
		in   *c01in
		obj  interface{}
		v    *jsval.JSVal
		own  bool
		res  Outcome
		done bool
	}
	nt := x.Crowd(2, 5)
	if long {
		nt = x.Range(1, 3)
	}
	shared := map[int]interface{}{}
	tasks := make([][]*op, nt)
	for t := range tasks {
		n := x.Range(1, 5)
		if long {
			n = x.Range(20, 120)
		}
		for i := 0; i < n; i++ {
			k := x.Int(len(ins))
			o := &op{in: ins[k], v: vs[x.Int(len(vs))]}
			switch {
			case !hasDef && x.Chance(1, 3):
				// the very same object as other goroutines
				if shared[k] == nil {
					shared[k] = s.RealiseAs(o.in.form, o.in.canon, fo)
				}
				o.obj = shared[k]
			case x.Chance(2, 3):
				o.own = true
				fallthrough
			default:
				o.obj = s.RealiseAs(o.in.form, o.in.canon, fo)
			}
			tasks[t] = append(tasks[t], o)
		}
	}
	var fns []func()
	for t := range tasks {
		ops := tasks[t]
		fns = append(fns, func() {
			last := map[reflect.Type]interface{}{}
			for _, o := range ops {
				obj := o.obj
				if o.own && obj != nil {
					// the same object, at every level, with other contents than before
					t := reflect.TypeOf(obj)
					obj = takeOver(last[t], obj)
					last[t] = obj
				}
				o.res = call(o.v, obj)
				o.done = true
				if o.own {
					o.obj = Snap(obj)
				}
			}
		})
	}
	x.Sim(fns...)
	for t := range tasks {
		for i, o := range tasks[t] {
			note(o.res.verdict())
			at := fmt.Sprintf("goroutine %d call %d, input %s", t, i, clip(text(o.in.canon)))
			if !o.done {
				x.Failnow("lost", "%s did not complete", at)
			}
			if o.res.verdict() != o.in.ref.verdict() {
				x.Failnow("verdict", "%s: %s, alone: %s", at, o.res, o.in.ref)
			}
			if now, ok := o.res.kept(); !ok {
				x.Failnow("error", "%s: the error that was returned as %q reads %q later", at, clip(o.res.Err), clip(now))
			}
			got := text(Snap(o.obj))
			if o.res.OK && got != o.in.final {
				x.Failnow("input", "%s: input is %s afterwards, alone: %s", at, clip(got), clip(o.in.final))
			}
			if !hasDef && got != text(o.in.canon) {
				x.Failnow("input", "%s: the input was changed to %s although no default applies", at, clip(got))
			}
		}
	}
	x.CheckLocks()
}

// bigger adds a large part to the root so that inputs can be large.
func (n *Node) bigger(x *Ctx) {
	if n.K != KObj {
		return
	}
	c := newNode(KArr)
	c.Items = newNode(KStr)
	c.Uniq = x.Bool()
	if x.Bool() {
		c.Items = newNode(KInt)
		c.Uniq = false
	}
	for i := range n.Props {
		if n.Props[i].Name == "name" {
			n.Props[i].N = c
			return
		}
	}
	n.Props = append(n.Props, Prp{"name", c})
}

// bigValue is Value with a long array and many properties.
func (s *Spec) bigValue(x *Ctx, n *Node) interface{} {
	v := s.Value(x, n, 0)
	m, ok := v.(map[string]interface{})
	if !ok || n.K != KObj {
		return v
	}
	cnt := []int{9, 17, 33, 65, 130, 260}[x.Int(6)]
	for _, p := range n.Props {
		if p.Name == "name" && p.N.K == KArr {
			var l []interface{}
			for i := 0; i < cnt; i++ {
				if p.N.Items.K == KStr {
					l = append(l, fmt.Sprintf("u%d", i))
				} else {
					l = append(l, float64(i))
				}
			}
			m["name"] = l
		}
	}
	if n.Add == 1 && x.Bool() {
		for i := 0; i < cnt; i++ {
			k := fmt.Sprintf("zz%d", i)
			skip := false
			for _, p := range n.Pats {
				if s.re(p.Name).MatchString(k) {
					skip = true
				}
			}
			if !skip {
				m[k] = float64(i)
			}
		}
	}
	return m
}
