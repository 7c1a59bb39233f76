package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C21", runC21)
	docs["C21"] = propDoc{
		Rule:   "Each run plans 1-4 histories over constraints of every kind that are nested in, shared by and referenced from several validators: phases of changes (limits, patterns, formats, enumerations, defaults, items, properties, dependencies, alternatives, roots, names, reference maps, late registrations) between phases of use (validations that succeed, fail or panic in user code, generations, queries), the uses of a phase one after the other or from several goroutines at once; several histories run at the same time.",
		Oracle: "Every use gives the verdict, final input, code or answer that it gives as the only use of fresh constraints which were given only the settings now in force; Go's race detector is silent.",
	}
}

// rig is one set of live objects.
type rig struct {
	cs []jsval.Constraint
	vs []*jsval.JSVal
	cm []*jsval.ConstraintMap
}

// c21step creates or changes something. Of the changes with one key only the last is in force.
type c21step struct {
	key  string
	say  string
	rank int // order in which a fresh set is made: constraints from the inside out
	do   func(r *rig)
}

type c21use struct {
	say  string
	do   func(r *rig) string // to be called once
	want string
	got  string
	done bool
}

type c21phase struct {
	steps []*c21step
	tasks [][]*c21use
}

// slot is what the plan knows of a constraint.
type c21slot struct {
	k    Kind
	kids []int
	prop map[string]int
	user bool
}

type c21plan struct {
	x      *Ctx
	id     int
	slots  []*c21slot
	nv     int
	names  []map[string]int // registered names of each map
	vmap   []int            // map of each validator
	root   []int
	phases []*c21phase
	cur    *c21phase
}

// boomC is a constraint of the user: it refuses short strings and panics at "boom".
type boomC struct{}

func (boomC) HasDefault() bool          { return false }
func (boomC) DefaultValue() interface{} { return nil }
func (boomC) Validate(v interface{}) error {
	if s, ok := v.(string); ok {
		if s == "boom" {
			panic("boom")
		}
		if len(s) < 2 {
			return fmt.Errorf("too short")
		}
	}
	return nil
}

var (
	c21strs  = []string{"", "a", "ab", "abc", "abcd", "abcde", "x1", "x2", "12", "1.5", "foo@example.com", "boom", "été", "192.168.0.1", "example.com", "e3", "e18", "e24"}
	c21pats  = []string{"^a", "b$", "^x[0-9]$", "c", "^.{2,3}$", "^[a-z]*$"}
	c21rxs   = []*regexp.Regexp{regexp.MustCompile("^[a-d]$"), regexp.MustCompile("1$")}
	c21fmts  = []string{"", "email", "ipv4", "hostname", "uri", "ipv6", "datetime", "date-time"}
	c21props = []string{"a", "b", "c", "d", "x1", "ab"}
	c21names = []string{"", "Alpha", "Beta", "Zed", "V0"}
	c21refs  = []string{"#/definitions/p", "#/definitions/q", "#/definitions/r"}
)

func (p *c21plan) step(rank int, key, say string, do func(r *rig)) {
	p.cur.steps = append(p.cur.steps, &c21step{key, say, rank, do})
	p.x.Logf("history %d: %s", p.id, say)
}

func (p *c21plan) scalar() interface{} {
	x := p.x
	switch x.Int(8) {
	case 0, 1, 2:
		return x.Pick(c21strs)
	case 3, 4:
		return float64(x.Int(7))
	case 5:
		return []interface{}{1.5, -1.0, 2.5, 1e9}[x.Int(4)]
	case 6:
		return x.Bool()
	}
	return nil
}

// create adds a constraint.
func (p *c21plan) create() {
	x := p.x
	n := len(p.slots)
	s := &c21slot{prop: map[string]int{}}
	kinds := []Kind{KStr, KStr, KInt, KNum, KBool, KEnum, KEmpty, KNull, KCustom}
	if n > 0 {
		kinds = []Kind{KStr, KInt, KNum, KArr, KArr, KObj, KObj, KObj, KAny, KAll, KOne, KNot, KRef, KRef, KEnum}
	}
	if s.k = kinds[x.Int(len(kinds))]; s.k == KRef && n < 2 {
		s.k = KObj
	}
	p.slots = append(p.slots, s)
	var mk func(r *rig) jsval.Constraint
	nm := ""
	switch s.k {
	case KStr:
		nm, mk = "a string", func(r *rig) jsval.Constraint { return jsval.String() }
	case KInt:
		nm, mk = "an integer", func(r *rig) jsval.Constraint { return jsval.Integer() }
	case KNum:
		nm, mk = "a number", func(r *rig) jsval.Constraint { return jsval.Number() }
	case KBool:
		nm, mk = "a boolean", func(r *rig) jsval.Constraint { return jsval.Boolean() }
	case KEnum:
		nm, mk = "an enumeration", func(r *rig) jsval.Constraint { return jsval.Enum() }
	case KEmpty:
		nm, mk = "empty", func(r *rig) jsval.Constraint { return jsval.EmptyConstraint }
	case KNull:
		nm, mk = "null", func(r *rig) jsval.Constraint { return jsval.NullConstraint }
	case KCustom:
		nm, mk = "of the user", func(r *rig) jsval.Constraint { return boomC{} }
	case KArr:
		nm, mk = "an array", func(r *rig) jsval.Constraint { return jsval.Array() }
	case KObj:
		nm, mk = "an object", func(r *rig) jsval.Constraint { return jsval.Object() }
	case KAny:
		nm, mk = "anyOf", func(r *rig) jsval.Constraint { return jsval.Any() }
	case KAll:
		nm, mk = "allOf", func(r *rig) jsval.Constraint { return jsval.All() }
	case KOne:
		nm, mk = "oneOf", func(r *rig) jsval.Constraint { return jsval.OneOf() }
	case KNot:
		c := x.Int(n)
		s.kids = []int{c}
		nm, mk = fmt.Sprintf("not constraint %d", c), func(r *rig) jsval.Constraint { return jsval.Not(r.cs[c]) }
	case KRef:
		v := x.Int(p.nv)
		name := x.Pick(c21refs)
		if x.Bool() {
			nm = fmt.Sprintf("a reference to %s of map %d", name, v)
			mk = func(r *rig) jsval.Constraint { return jsval.Reference(r.cm[v]).RefersTo(name) }
		} else {
			nm = fmt.Sprintf("a reference to %s of validator %d", name, v)
			mk = func(r *rig) jsval.Constraint { return jsval.Reference(r.vs[v]).RefersTo(name) }
		}
	}
	p.step(n, "", fmt.Sprintf("constraint %d is %s", n, nm), func(r *rig) { r.cs = append(r.cs, mk(r)) })
}

// below draws a constraint that may be nested in slot i.
func (p *c21plan) below(i int) int { return p.x.Int(i) }

// change alters slot i and reports whether there is anything to alter.
func (p *c21plan) change(i int) bool {
	x := p.x
	s := p.slots[i]
	set := func(what string, do func(c jsval.Constraint, r *rig), a ...interface{}) {
		key := fmt.Sprintf("%d %s", i, what)
		if strings.HasPrefix(what, "+") {
			key, what = "", what[1:]
		}
		p.step(i, key, fmt.Sprintf("constraint %d: %s %s", i, what, strings.Trim(fmt.Sprint(a), "[]")), func(r *rig) { do(r.cs[i], r) })
	}
	enum := func() []interface{} {
		var l []interface{}
		if x.Chance(1, 10) {
			return l // nothing is allowed any more
		}
		for n := x.Range(1, 3); n > 0; n-- {
			switch s.k {
			case KStr:
				l = append(l, x.Pick(c21strs))
			case KInt, KNum:
				l = append(l, float64(x.Int(7)))
			default:
				l = append(l, p.scalar())
			}
		}
		if x.Chance(1, 12) {
			for j, o := 0, x.Int(3)*7; j < 20; j++ {
				l = append(l, fmt.Sprintf("e%d", j+o))
			}
		}
		return l
	}
	switch s.k {
	case KStr:
		switch x.Int(6) {
		case 0:
			n := x.Range(-1, 4)
			set("minLength", func(c jsval.Constraint, _ *rig) { c.(*jsval.StringConstraint).MinLength(n) }, n)
		case 1:
			n := x.Range(-1, 5)
			set("maxLength", func(c jsval.Constraint, _ *rig) { c.(*jsval.StringConstraint).MaxLength(n) }, n)
		case 2:
			pt := x.Pick(c21pats)
			if x.Chance(1, 5) {
				set("regexp", func(c jsval.Constraint, _ *rig) { c.(*jsval.StringConstraint).Regexp(nil) }, "none")
				break
			}
			set("regexp", func(c jsval.Constraint, _ *rig) { c.(*jsval.StringConstraint).RegexpString(pt) }, pt)
		case 3:
			f := x.Pick(c21fmts)
			set("format", func(c jsval.Constraint, _ *rig) { c.(*jsval.StringConstraint).Format(f) }, f)
		case 4:
			l := enum()
			set("enum", func(c jsval.Constraint, _ *rig) {
				c.(*jsval.StringConstraint).Enum(append([]interface{}(nil), l...)...)
			}, l)
		default:
			d := x.Pick(c21strs)
			set("default", func(c jsval.Constraint, _ *rig) { c.(*jsval.StringConstraint).Default(d) }, d)
		}
	case KInt, KNum:
		num := func(c jsval.Constraint) *jsval.NumberConstraint {
			if ic, ok := c.(*jsval.IntegerConstraint); ok {
				return &ic.NumberConstraint
			}
			return c.(*jsval.NumberConstraint)
		}
		n := float64(x.Int(7))
		b := x.Bool()
		switch x.Int(7) {
		case 0:
			set("minimum", func(c jsval.Constraint, _ *rig) {
				if ic, ok := c.(*jsval.IntegerConstraint); ok {
					ic.Minimum(n)
				} else {
					num(c).Minimum(n)
				}
			}, n)
		case 1:
			set("maximum", func(c jsval.Constraint, _ *rig) {
				if ic, ok := c.(*jsval.IntegerConstraint); ok {
					ic.Maximum(n)
				} else {
					num(c).Maximum(n)
				}
			}, n)
		case 2:
			set("exclusiveMinimum", func(c jsval.Constraint, _ *rig) {
				if ic, ok := c.(*jsval.IntegerConstraint); ok {
					ic.ExclusiveMinimum(b)
				} else {
					num(c).ExclusiveMinimum(b)
				}
			}, b)
		case 3:
			set("exclusiveMaximum", func(c jsval.Constraint, _ *rig) {
				if ic, ok := c.(*jsval.IntegerConstraint); ok {
					ic.ExclusiveMaximum(b)
				} else {
					num(c).ExclusiveMaximum(b)
				}
			}, b)
		case 4:
			m := []float64{1, 2, 3, 0.5}[x.Int(4)]
			set("multipleOf", func(c jsval.Constraint, _ *rig) { num(c).MultipleOf(m) }, m)
		case 5:
			l := enum()
			set("enum", func(c jsval.Constraint, _ *rig) { num(c).Enum(append([]interface{}(nil), l...)...) }, l)
		default:
			set("default", func(c jsval.Constraint, _ *rig) {
				if ic, ok := c.(*jsval.IntegerConstraint); ok {
					ic.Default(n)
				} else {
					num(c).Default(n)
				}
			}, n)
		}
	case KBool:
		b := x.Bool()
		set("default", func(c jsval.Constraint, _ *rig) { c.(*jsval.BooleanConstraint).Default(b) }, b)
	case KEnum:
		l := enum()
		set("enum", func(c jsval.Constraint, _ *rig) {
			c.(*jsval.EnumConstraint).Enum(append([]interface{}(nil), l...)...)
		}, l)
	case KArr:
		switch x.Int(6) {
		case 0:
			n := x.Range(-1, 3)
			set("minItems", func(c jsval.Constraint, _ *rig) { c.(*jsval.ArrayConstraint).MinItems(n) }, n)
		case 1:
			n := x.Range(-1, 4)
			set("maxItems", func(c jsval.Constraint, _ *rig) { c.(*jsval.ArrayConstraint).MaxItems(n) }, n)
		case 2:
			b := x.Bool()
			set("uniqueItems", func(c jsval.Constraint, _ *rig) { c.(*jsval.ArrayConstraint).UniqueItems(b) }, b)
		case 3:
			if x.Chance(1, 4) {
				set("items", func(c jsval.Constraint, _ *rig) { c.(*jsval.ArrayConstraint).Items(nil) }, "none")
				break
			}
			k := p.below(i)
			s.kids = append(s.kids, k)
			set("items", func(c jsval.Constraint, r *rig) { c.(*jsval.ArrayConstraint).Items(r.cs[k]) }, k)
		case 4:
			var l []int
			for n := x.Range(0, 3); n > 0; n-- {
				l = append(l, p.below(i))
			}
			s.kids = append(s.kids, l...)
			set("positionalItems", func(c jsval.Constraint, r *rig) {
				var cl []jsval.Constraint
				for _, k := range l {
					cl = append(cl, r.cs[k])
				}
				c.(*jsval.ArrayConstraint).PositionalItems(cl)
			}, l)
		default:
			if x.Chance(1, 4) {
				set("additionalItems", func(c jsval.Constraint, _ *rig) { c.(*jsval.ArrayConstraint).AdditionalItems(nil) }, "none")
				break
			}
			k := p.below(i)
			s.kids = append(s.kids, k)
			set("additionalItems", func(c jsval.Constraint, r *rig) { c.(*jsval.ArrayConstraint).AdditionalItems(r.cs[k]) }, k)
		}
	case KObj:
		obj := func(c jsval.Constraint) *jsval.ObjectConstraint { return c.(*jsval.ObjectConstraint) }
		switch x.Int(12) {
		case 0, 1, 2, 3:
			k, nm := p.below(i), x.Pick(c21props)
			s.kids = append(s.kids, k)
			s.prop[nm] = k
			set("property "+nm, func(c jsval.Constraint, r *rig) { obj(c).AddProp(nm, r.cs[k]) }, k)
		case 4:
			nm := x.Pick(c21props)
			set("+required", func(c jsval.Constraint, _ *rig) { obj(c).Required(nm) }, nm)
		case 5:
			n := x.Range(-1, 2)
			set("minProperties", func(c jsval.Constraint, _ *rig) { obj(c).MinProperties(n) }, n)
		case 6:
			n := x.Range(-1, 4)
			set("maxProperties", func(c jsval.Constraint, _ *rig) { obj(c).MaxProperties(n) }, n)
		case 7, 8:
			if x.Chance(1, 4) {
				set("additionalProperties", func(c jsval.Constraint, _ *rig) { obj(c).AdditionalProperties(nil) }, "none")
				break
			}
			k := p.below(i)
			s.kids = append(s.kids, k)
			set("additionalProperties", func(c jsval.Constraint, r *rig) { obj(c).AdditionalProperties(r.cs[k]) }, k)
		case 9:
			if x.Chance(1, 3) { // a pattern whose rule is replaced
				k, j := p.below(i), x.Int(len(c21rxs))
				s.kids = append(s.kids, k)
				set("pattern "+c21rxs[j].String(), func(c jsval.Constraint, r *rig) { obj(c).PatternProperties(c21rxs[j], r.cs[k]) }, k)
				break
			}
			k, pt := p.below(i), x.Pick(c21pats)
			s.kids = append(s.kids, k)
			set("+patternProperties", func(c jsval.Constraint, r *rig) { obj(c).PatternPropertiesString(pt, r.cs[k]) }, pt, k)
		case 10:
			f, t := x.Pick(c21props), x.Pick(c21props)
			set("+dependency", func(c jsval.Constraint, _ *rig) { obj(c).PropDependency(f, t) }, f, t)
		default:
			f, k := x.Pick(c21props), p.below(i)
			if x.Chance(1, 6) {
				set("dependency of "+f, func(c jsval.Constraint, r *rig) { obj(c).SchemaDependency(f, nil) }, "none")
				break
			}
			s.kids = append(s.kids, k)
			set("dependency of "+f, func(c jsval.Constraint, r *rig) { obj(c).SchemaDependency(f, r.cs[k]) }, k)
		}
	case KAny, KAll, KOne:
		k := p.below(i)
		s.kids = append(s.kids, k)
		set("+alternative", func(c jsval.Constraint, r *rig) {
			switch t := c.(type) {
			case *jsval.AnyConstraint:
				t.Add(r.cs[k])
			case *jsval.AllConstraint:
				t.Add(r.cs[k])
			case *jsval.OneOfConstraint:
				t.Add(r.cs[k])
			}
		}, k)
	default:
		return false
	}
	return true
}

// changeV alters a validator.
func (p *c21plan) changeV() {
	x := p.x
	v := x.Int(p.nv)
	switch x.Int(5) {
	case 0:
		nm := x.Pick(c21names)
		p.step(1000, fmt.Sprintf("v%d name", v), fmt.Sprintf("validator %d is named %q", v, nm), func(r *rig) { r.vs[v].SetName(nm) })
	case 1, 2:
		c := x.Int(len(p.slots))
		if x.Bool() {
			c = len(p.slots) - 1 - x.Int(2)
		}
		if c < 0 {
			c = 0
		}
		p.root[v] = c
		p.step(1000, fmt.Sprintf("v%d root", v), fmt.Sprintf("validator %d gets constraint %d as its root", v, c), func(r *rig) { r.vs[v].SetRoot(r.cs[c]) })
	case 3:
		// what a resolved reference means stays; so a map is exchanged only while it is empty
		m := x.Int(p.nv)
		if len(p.names[p.vmap[v]]) > 0 {
			return
		}
		p.vmap[v] = m
		p.step(1000, fmt.Sprintf("v%d map", v), fmt.Sprintf("validator %d gets map %d", v, m), func(r *rig) { r.vs[v].SetConstraintMap(r.cm[m]) })
	default:
		p.register()
	}
}

// register gives a name a meaning, once.
func (p *c21plan) register() {
	x := p.x
	v := x.Int(p.nv)
	m := p.vmap[v]
	name := x.Pick(c21refs)
	if _, ok := p.names[m][name]; ok {
		return
	}
	// the first slots are no references, so nothing refers to itself
	c := x.Int(2)
	if c >= len(p.slots) {
		c = 0
	}
	p.names[m][name] = c
	p.step(1000, "", fmt.Sprintf("%s of map %d (through validator %d) is constraint %d", name, m, v, c), func(r *rig) {
		if r.vs[v].ConstraintMap == r.cm[m] {
			r.vs[v].SetReference(name, r.cs[c])
		} else {
			r.cm[m].SetReference(name, r.cs[c])
		}
	})
}

// value draws an input for slot i.
func (p *c21plan) value(i, depth int) interface{} {
	x := p.x
	if x.Chance(1, 8) || depth > 4 {
		return p.scalar()
	}
	s := p.slots[i]
	switch s.k {
	case KStr, KCustom:
		return x.Pick(c21strs)
	case KInt:
		return float64(x.Int(7))
	case KNum:
		return []interface{}{0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 1.5, 2.5}[x.Int(9)]
	case KBool:
		return x.Bool()
	case KNull:
		return nil
	case KArr:
		l := []interface{}{}
		for n := x.Int(4); n > 0; n-- {
			l = append(l, p.kid(s, depth))
		}
		return l
	case KObj:
		m := map[string]interface{}{}
		for _, nm := range c21props {
			if k, ok := s.prop[nm]; ok && x.Chance(1, 2) {
				m[nm] = p.value(k, depth+1)
			} else if x.Chance(1, 6) {
				m[nm] = p.kid(s, depth)
			}
		}
		return m
	case KRef:
		return p.value(x.Int(2)%len(p.slots), depth+1)
	case KAny, KAll, KOne, KNot:
		return p.kid(s, depth)
	}
	return p.scalar()
}

func (p *c21plan) kid(s *c21slot, depth int) interface{} {
	if len(s.kids) == 0 {
		return p.scalar()
	}
	return p.value(s.kids[p.x.Int(len(s.kids))], depth+1)
}

// c21rec is an input that is a struct.
type c21rec struct {
	A jsval.MaybeString `json:"a"`
	B jsval.MaybeFloat  `json:"b"`
	C interface{}       `json:"c"`
	D jsval.MaybeBool   `json:"d"`
}

// form turns an input into what is handed over.
func c21form(v interface{}, st bool) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok || !st {
		return clone(v)
	}
	r := &c21rec{}
	if s, ok := m["a"].(string); ok {
		r.A.Set(s)
	}
	if f, ok := m["b"].(float64); ok {
		r.B.Set(f)
	}
	r.C = clone(m["c"])
	if b, ok := m["d"].(bool); ok {
		r.D.Set(b)
	}
	return r
}

func c21show(in interface{}) string {
	if r, ok := in.(*c21rec); ok {
		return fmt.Sprintf("%v %v %v %v %s %v %v", r.A.Valid(), r.A.Value(), r.B.Valid(), r.B.Value(), text(r.C), r.D.Valid(), r.D.Value())
	}
	b, err := json.Marshal(in)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// use draws one use.
func (p *c21plan) use(touched []int) *c21use {
	x := p.x
	show := func(o Outcome, in interface{}) string {
		if o.OK {
			return "accepted, input is " + c21show(in)
		}
		// the message says which validator it was
		a := o.verdict()
		for _, nm := range c21names[1:] {
			if strings.Contains(o.Err, nm) {
				a += " by " + nm
			}
		}
		return a
	}
	slot := func() int {
		if len(touched) > 0 && x.Chance(2, 3) {
			return touched[x.Int(len(touched))]
		}
		return x.Int(len(p.slots))
	}
	switch x.Int(12) {
	case 0, 1:
		var l []int
		for n := x.Range(1, p.nv); n > 0; n-- {
			l = append(l, x.Int(p.nv))
		}
		return &c21use{say: fmt.Sprintf("generate code for validators %v", l), do: func(r *rig) string {
			var vs []*jsval.JSVal
			for _, i := range l {
				vs = append(vs, r.vs[i])
			}
			out, o := generate(vs...)
			return o.verdict() + " " + string(bytes.TrimSpace(out))
		}}
	case 2:
		i, nm := slot(), x.Pick(c21props)
		return &c21use{say: fmt.Sprintf("ask constraint %d", i), do: func(r *rig) string {
			c := r.cs[i]
			a := ""
			o := doErr(func() error {
				switch t := c.(type) {
				case *jsval.ObjectConstraint:
					a = fmt.Sprint(t.IsPropRequired(nm), t.GetPropDependencies(nm), t.GetSchemaDependency(nm) != nil)
				case *jsval.AnyConstraint:
					a = fmt.Sprint(len(t.Constraints()), t.Reduce() == c)
				case *jsval.AllConstraint:
					a = fmt.Sprint(len(t.Constraints()), t.Reduce() == c)
				case *jsval.OneOfConstraint:
					a = fmt.Sprint(len(t.Constraints()), t.Reduce() == c)
				}
				a += fmt.Sprint(" ", c.HasDefault())
				if c.HasDefault() {
					a += fmt.Sprint(" ", c.DefaultValue())
				}
				return nil
			})
			return a + o.verdict()
		}}
	case 3:
		v := x.Int(p.nv)
		nm := x.Pick(c21refs)
		return &c21use{say: fmt.Sprintf("ask validator %d for %s", v, nm), do: func(r *rig) string {
			c, err := r.vs[v].GetReference(nm)
			k := -1
			for i := range r.cs {
				if err == nil && r.cs[i] == c {
					k = i
					break
				}
			}
			return fmt.Sprint(r.vs[v].Name, r.vs[v].Len(), err == nil, k)
		}}
	case 4, 5, 6, 7:
		v := x.Int(p.nv)
		in := p.value(p.root[v], 0)
		st := x.Chance(1, 4)
		return &c21use{say: fmt.Sprintf("validate %s with validator %d (struct %v)", text(in), v, st), do: func(r *rig) string {
			f := c21form(in, st)
			return show(call(r.vs[v], f), f)
		}}
	default:
		i := slot()
		in := p.value(i, 0)
		st := x.Chance(1, 4)
		return &c21use{say: fmt.Sprintf("validate %s with constraint %d (struct %v)", text(in), i, st), do: func(r *rig) string {
			f := c21form(in, st)
			return show(call(r.cs[i], f), f)
		}}
	}
}

func genC21(x *Ctx, id int, solo bool) *c21plan {
	p := &c21plan{x: x, id: id, nv: x.Range(1, 3)}
	p.cur = &c21phase{}
	for i := 0; i < p.nv; i++ {
		p.names = append(p.names, map[string]int{})
		p.vmap = append(p.vmap, i)
		p.root = append(p.root, 0)
	}
	p.step(-1, "", fmt.Sprintf("%d validators", p.nv), func(r *rig) {
		for i := 0; i < p.nv; i++ {
			v := jsval.New()
			r.vs = append(r.vs, v)
			r.cm = append(r.cm, v.ConstraintMap)
		}
	})
	for n := x.Range(2, 7); n > 0; n-- {
		p.create()
	}
	// every validator has a root, and a name in most runs
	for v := 0; v < p.nv; v++ {
		v, c := v, x.Int(len(p.slots))
		p.root[v] = c
		p.step(1000, fmt.Sprintf("v%d root", v), fmt.Sprintf("validator %d gets constraint %d as its root", v, c), func(r *rig) { r.vs[v].SetRoot(r.cs[c]) })
	}
	for n := x.Int(3); n > 0; n-- {
		p.register()
	}
	long := 1
	if x.Chance(1, 20) {
		long = 6
	}
	for ph, n := 0, x.Range(2, 4)*long; ph < n; ph++ {
		if ph > 0 {
			p.cur = &c21phase{}
		}
		var touched []int
		k := x.Range(1, 3)
		if ph == 0 {
			k = x.Range(3, 12)
		}
		for ; k > 0; k-- {
			if x.Chance(1, 4) {
				p.changeV()
				continue
			}
			i := x.Int(len(p.slots))
			if p.change(i) {
				touched = append(touched, i)
				// also what contains it
				for j := i + 1; j < len(p.slots); j++ {
					for _, kd := range p.slots[j].kids {
						if kd == i {
							touched = append(touched, j)
							break
						}
					}
				}
			}
		}
		nt := 1
		if !solo && x.Chance(1, 2) {
			nt = x.Range(2, 4)
		}
		for t := 0; t < nt; t++ {
			var l []*c21use
			for m := x.Range(1, 3); m > 0; m-- {
				u := p.use(touched)
				x.Logf("history %d phase %d goroutine %d: %s", id, ph, t, u.say)
				l = append(l, u)
			}
			p.cur.tasks = append(p.cur.tasks, l)
		}
		p.phases = append(p.phases, p.cur)
	}
	return p
}

// inForce is what is left of the changes up to a phase.
func (p *c21plan) inForce(ph int) []*c21step {
	var all []*c21step
	for i := 0; i <= ph; i++ {
		all = append(all, p.phases[i].steps...)
	}
	last := map[string]int{}
	for i, s := range all {
		if s.key != "" {
			last[s.key] = i
		}
	}
	var l []*c21step
	for i, s := range all {
		if s.key == "" || last[s.key] == i {
			l = append(l, s)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].rank < l[j].rank })
	return l
}

func runC21(x *Ctx) {
	np := 1
	if x.Chance(1, 3) {
		np = x.Range(2, 4)
		if x.Chance(1, 30) {
			np = x.Range(10, 40)
		}
	}
	var plans []*c21plan
	for i := 0; i < np; i++ {
		plans = append(plans, genC21(x, i, np > 1))
	}
	// what each use gives on its own
	for _, p := range plans {
		for ph, f := range p.phases {
			steps := p.inForce(ph)
			for _, l := range f.tasks {
				for _, u := range l {
					simrt.ResetAll()
					r := &rig{}
					x.Solo(func() {
						for _, s := range steps {
							s.do(r)
						}
						u.want = u.do(r)
					})
					x.Logf("%s, alone: %s", u.say, clip(u.want))
				}
			}
		}
	}
	simrt.ResetAll()
	check := func(p *c21plan) {
		for ph, f := range p.phases {
			for t, l := range f.tasks {
				for _, u := range l {
					if !u.done {
						continue
					}
					note(u.got[:min(len(u.got), 8)])
					if u.got != u.want {
						x.Failnow("stale", "history %d, phase %d, goroutine %d: %s: %s; on fresh constraints with the settings in force: %s", p.id, ph, t, u.say, clip(u.got), clip(u.want))
					}
				}
			}
		}
	}
	doUses := func(r *rig, l []*c21use) {
		for _, u := range l {
			u.got = u.do(r)
			u.done = true
		}
	}
	if np > 1 {
		x.Probe("histories at once")
		var fns []func()
		for _, p := range plans {
			p := p
			fns = append(fns, func() {
				r := &rig{}
				for _, f := range p.phases {
					for _, s := range f.steps {
						s.do(r)
					}
					for _, l := range f.tasks {
						doUses(r, l)
					}
				}
			})
		}
		x.Sim(fns...)
	} else {
		p := plans[0]
		r := &rig{}
		for _, f := range p.phases {
			f := f
			x.SoloOrd(func() {
				for _, s := range f.steps {
					s.do(r)
				}
			})
			if len(f.tasks) == 1 {
				x.SoloOrd(func() { doUses(r, f.tasks[0]) })
			} else {
				x.Probe("concurrent uses")
				var fns []func()
				for _, l := range f.tasks {
					l := l
					fns = append(fns, func() { doUses(r, l) })
				}
				x.Sim(fns...)
			}
			check(p)
		}
	}
	for _, p := range plans {
		check(p)
		for ph, f := range p.phases {
			for _, l := range f.tasks {
				for _, u := range l {
					if !u.done {
						x.Failnow("lost", "history %d phase %d: %s did not complete", p.id, ph, u.say)
					}
					x.Probe("uses")
					if u.got == "panic" {
						x.FaultHit("user-panic")
					}
					if strings.HasPrefix(u.got, "accepted") {
						x.Probe("accepted")
					}
				}
			}
		}
	}
	x.CheckLocks()
}
