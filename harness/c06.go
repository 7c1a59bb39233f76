package main

import (
	"fmt"

	"verif.local/simkit/simrt"
)

func init() {
	register("C06", runC06)
	docs["C06"] = propDoc{
		Rule:   "Each run draws a schema (small, or wide with many properties, patterns, references and dependencies; defaults anywhere, also inside anyOf/oneOf/allOf/not; sometimes with a dangling reference; in part several rules, also several for one pattern, that fill in the same properties) and several inputs, and builds and validates them under canonical map order and under 3-6 other orders of every map involved.",
		Oracle: "Build succeeds or fails, each input is accepted or rejected, and accepted inputs end up filled in, exactly as under the canonical order.",
	}
}

func runC06(x *Ctx) {
	o := stdOpt
	wide := x.Chance(1, 4)
	if wide {
		o.Depth, o.Width, o.Wide = 2, 20, true
	}
	o.DefRate = 1 + x.Int(4)
	o.ComboDef = x.Chance(1, 2)
	s := GenSpec(x, o)
	clash := x.Chance(1, 6)
	if clash {
		s = genClash(x)
	}
	if x.Chance(1, 6) {
		s.crossRefs(x)
	}
	viaDoc := x.Bool()
	if x.Chance(1, 8) {
		viaDoc = true
		s.dangle(x)
	}
	if viaDoc && x.Bool() {
		s.decorate(x)
	}
	if clash && !viaDoc && x.Bool() {
		// several rules for one pattern, which only the API can express
		for _, p := range s.Root.Pats[:len(s.Root.Pats):len(s.Root.Pats)] {
			if x.Bool() {
				x.Probe("two-rules-for-one-pattern")
				s.Root.Pats = append(s.Root.Pats, Prp{p.Name, clashing(x)})
			}
		}
	}
	many, uniq := false, false
	if s.Root.K == KObj {
		if x.Chance(1, 8) || clash && x.Chance(1, 3) {
			// many more rules than the inputs have properties
			x.Probe("many-rules")
			for i := x.Range(8, 70); i > 0; i-- {
				s.Root.Props = append(s.Root.Props, Prp{fmt.Sprintf("%s%02d", x.Pick([]string{"_", "m", "zz"}), i), newNode(KStr)})
			}
		}
		if x.Chance(1, 10) && s.Root.Add != 1 {
			// inputs with many more properties than the schema names
			many = true
			if s.Root.Add == 0 && x.Chance(3, 4) {
				s.Root.Add, s.Root.AddN = 2, newNode(KStr)
			}
			if x.Chance(1, 4) {
				s.Root.Pats = append(s.Root.Pats, Prp{"^x[0-9]*$", newNode(KStr)})
			}
			s.Root.MaxP = -1
		}
		if x.Chance(1, 8) {
			// arrays of objects that must differ
			uniq = true
			n := newNode(KArr)
			n.Uniq = true
			s.Root.Props = append(s.Root.Props, Prp{"uo", n})
		}
	}
	src := s.JSON()
	x.Logf("schema %s via %s", clip(string(src)), map[bool]string{true: "builder", false: "API"}[viaDoc])
	fo := formOpt{Structs: x.Chance(1, 3), Accs: x.Chance(1, 3), Typed: x.Chance(1, 2)}
	nin := x.Range(2, 5)
	var ins []*c01in
	for i := 0; i < nin; i++ {
		v := s.Value(x, s.Root, 0)
		if clash {
			v = clashValue(x)
		}
		for k := x.Int(3); k > 0; k-- {
			if x.Bool() {
				v = s.Mutate(x, v)
			} else {
				v = s.dropSome(x, v)
			}
		}
		in := &c01in{canon: v}
		if m, ok := v.(map[string]interface{}); ok && (x.Chance(1, 4) || clash && x.Chance(1, 3)) {
			// one object under two names
			var l []string
			for _, k := range sortedKeys(m) {
				if _, ok := m[k].(map[string]interface{}); ok {
					l = append(l, k)
				}
			}
			if len(l) > 1 {
				x.Probe("one-object-under-two-names")
				in.alias = [2]string{x.Pick(l), x.Pick(l)}
				m[in.alias[0]] = clone(m[in.alias[1]])
			}
		}
		if in.alias[0] == "" && x.Bool() {
			in.form = uint64(1 + x.Int(1<<16))
		}
		if m, ok := v.(map[string]interface{}); ok {
			if uniq {
				m["uo"] = alikeObjects(x)
			}
			if many {
				c := x.Range(9, 120)
				for k := 0; k < c; k++ {
					m[fmt.Sprintf("x%d", k)] = "a"
				}
				for k := x.Int(3); k > 0; k-- {
					m[fmt.Sprintf("x%d", x.Int(c))] = 1.0
				}
			}
		}
		ins = append(ins, in)
	}
	type result struct {
		build string
		res   []Outcome
		fin   []string
	}
	one := func(run func(func())) *result {
		r := &result{}
		simrt.ResetAll()
		objs := make([]interface{}, len(ins))
		for i, in := range ins {
			objs[i] = s.RealiseAs(in.form, in.canon, fo)
			if m, ok := objs[i].(map[string]interface{}); ok && in.alias[0] != "" {
				m[in.alias[0]] = m[in.alias[1]]
			}
		}
		run(func() {
			defer func() {
				if p := recover(); p != nil {
					r.build = "panic: " + fmt.Sprint(p)
				}
			}()
			var v validator
			if viaDoc {
				w, err := BuildDoc(src)
				if err != nil {
					r.build = "error"
					return
				}
				v = w
			} else {
				v = s.Direct()
			}
			for i := range objs {
				r.res = append(r.res, call(v, objs[i]))
			}
		})
		for i := range objs {
			r.fin = append(r.fin, text(Snap(objs[i])))
		}
		return r
	}
	want := one(x.Solo)
	if want.build != "" {
		x.Probe("build-fails")
	}
	for i := range want.res {
		x.Logf("input %s: %s, afterwards %s", clip(text(ins[i].canon)), want.res[i], clip(want.fin[i]))
		if want.res[i].OK {
			x.Probe("accepted")
		} else {
			x.Probe("rejected")
		}
	}
	for k := x.Range(3, 6); k > 0; k-- {
		got := one(x.SoloOrd)
		if got.build != want.build {
			x.Failnow("build", "building the schema: %q, in canonical map order: %q", got.build, want.build)
		}
		for i := range want.res {
			note(got.res[i].verdict())
			at := "input " + clip(text(ins[i].canon))
			if got.res[i].verdict() != want.res[i].verdict() {
				x.Failnow("verdict", "%s: %s, in canonical map order: %s", at, got.res[i], want.res[i])
			}
			if got.res[i].OK && got.fin[i] != want.fin[i] {
				x.Failnow("filled", "%s: ends up as %s, in canonical map order as %s", at, clip(got.fin[i]), clip(want.fin[i]))
			}
		}
	}
}

// clashing is an object schema with defaults for the same few properties.
func clashing(x *Ctx) *Node {
	n := newNode(KObj)
	n.Add = 1
	for _, nm := range []string{"p", "q", "name"} {
		if !x.Chance(2, 3) {
			continue
		}
		var c *Node
		if x.Chance(3, 4) {
			c = newNode(KStr)
			c.HasDef, c.Def = true, x.Pick([]string{"1", "2", "3"})
		} else {
			c = newNode(KInt)
			c.HasDef, c.Def = true, float64(x.Int(3))
		}
		n.Props = append(n.Props, Prp{nm, c})
	}
	if len(n.Props) > 0 && x.Chance(1, 5) {
		n.Req = append(n.Req, n.Props[0].Name)
	}
	if x.Chance(1, 6) {
		n.MaxP = x.Range(1, 3)
	}
	return n
}

// genClash draws a schema in which several rules fill in the same properties.
func genClash(x *Ctx) *Spec {
	s := &Spec{}
	sub := func() *Node { return clashing(x) }
	for i := x.Int(3); i > 0; i-- {
		s.Defs = append(s.Defs, Prp{fmt.Sprintf("#/definitions/d%d", i), sub()})
	}
	some := func() *Node {
		if len(s.Defs) > 0 && x.Chance(1, 3) {
			r := newNode(KRef)
			r.Ref = s.Defs[x.Int(len(s.Defs))].Name
			return r
		}
		return sub()
	}
	n := newNode(KObj)
	s.Root = n
	n.Add = x.Int(3)
	if n.Add == 2 {
		n.AddN = some()
	}
	for _, nm := range []string{"a", "b", "c", "d"} {
		if x.Bool() {
			n.Props = append(n.Props, Prp{nm, some()})
		}
	}
	for _, pt := range patterns {
		if x.Bool() {
			n.Pats = append(n.Pats, Prp{pt, some()})
		}
	}
	if x.Bool() {
		for _, p := range n.Props {
			if x.Bool() {
				n.SDeps = append(n.SDeps, Prp{p.Name, some()})
			}
		}
	}
	return s
}

func clashValue(x *Ctx) interface{} {
	m := map[string]interface{}{}
	for _, nm := range []string{"a", "b", "c", "d", "xa", "xb", "x1", "k9", "aab"} {
		if x.Bool() {
			e := map[string]interface{}{}
			for _, k := range []string{"p", "q", "name"} {
				if x.Chance(1, 5) {
					e[k] = x.Pick(strPool)
				}
			}
			m[nm] = e
		}
	}
	return m
}

// alikeObjects is a list of objects of which some are equal and others differ
// in one place.
func alikeObjects(x *Ctx) interface{} {
	base := map[string]interface{}{}
	for i := x.Range(1, 6); i > 0; i-- {
		var e interface{} = x.Pick(strPool)
		switch x.Int(4) {
		case 0:
			e = numPool[x.Int(len(numPool))]
		case 1:
			e = map[string]interface{}{"a": "1", "b": "2", x.Pick(propNames): "3"}
		case 2:
			e = []interface{}{"1", map[string]interface{}{"a": "x", "b": "y"}}
		}
		base[x.Pick(propNames)] = e
	}
	l := []interface{}{base}
	for i := x.Range(1, 3); i > 0; i-- {
		m := clone(base).(map[string]interface{})
		if x.Chance(2, 3) {
			m[x.Pick(propNames)] = fmt.Sprint("d", i)
		}
		l = append(l, m)
	}
	return l
}

// dangle makes a reference point nowhere.
func (s *Spec) dangle(x *Ctx) {
	var l []*Node
	s.walk(func(n *Node) {
		if n.K == KRef {
			l = append(l, n)
		}
	})
	n := s.Root
	if len(l) > 0 {
		n = l[x.Int(len(l))]
	} else if s.Root.K == KObj {
		n = newNode(KRef)
		s.Root.Props = append(s.Root.Props, Prp{"dangling", n})
	} else {
		return
	}
	n.Ref = "#/definitions/nowhere"
	s.Defs = append(s.Defs, Prp{"#/definitions/nowhere", newNode(KEmpty)})
	s.Hidden = "nowhere"
}
