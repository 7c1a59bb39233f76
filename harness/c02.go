package main

import (
	"errors"
	"fmt"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C02", runC02)
	docs["C02"] = propDoc{
		Rule:   "Each run draws a schema with defaults (API-built or from JSON, defaults also behind references, in arrays, under patterns and in nested objects), inputs as maps, structs with optional fields and accessor objects, and 2-5 goroutines that validate their own inputs with the shared validator, also by giving an object they validated before another content. Some accessor objects refuse to store; a second kind of run uses objects that cannot take a default at all (nil and typed maps, structs by value, structs without the field or with an optional field of another type), a third kind defaults of any type with typed maps and optional fields of any type, a fourth defaults that are objects and lists, which other rules and the owners of the inputs go on to fill, a fifth schemas with defaults below allOf, anyOf and oneOf.",
		Oracle: "Small executable model of default filling: after acceptance the input equals the model's completion of what was passed in; the verdict is that of the same input alone on a fresh validator; a refused store makes the verdict an error.",
	}
}

type c02op struct {
	canon  interface{}
	obj    interface{}
	form   uint64
	refuse string // property whose store is refused
	ref    Outcome
	stores *int
	res    Outcome
	done   bool
	prev   *c02op // whose object is used again
	again  bool   // the object is used again
	after  interface{}
}

func runC02(x *Ctx) {
	switch x.Int(10) {
	case 0, 1:
		runC02Store(x)
		return
	case 2:
		runC02Values(x)
		return
	case 3:
		runC02Containers(x)
		return
	}
	o := stdOpt
	o.ObjRoot = true
	o.DefRate = 3
	if x.Chance(1, 6) {
		o.Width = 9
	}
	viaDoc := x.Bool()
	if viaDoc {
		o.NumEnum, o.NoEnum = false, true
	}
	combo := x.Chance(1, 4)
	var s *Spec
	if combo {
		s = GenComboSpec(x, o)
		x.Probe("combinations")
	} else {
		s = GenFillSpec(x, o)
	}
	mk := s.mk(viaDoc)
	fo := formOpt{Structs: x.Chance(2, 3), Accs: x.Chance(2, 3), Typed: x.Chance(1, 2)}
	x.Logf("schema %s via %s", clip(string(s.JSON())), map[bool]string{true: "builder", false: "API"}[viaDoc])
	var defNames []string
	s.walk(func(n *Node) {
		for _, p := range n.Props {
			if _, ok := s.defaultOf(p.N); ok {
				defNames = append(defNames, p.Name)
			}
		}
	})

	nt := x.Crowd(1, 5)
	tasks := make([][]*c02op, nt)
	for t := range tasks {
		for i := x.Range(1, 5); i > 0; i-- {
			op := &c02op{canon: s.Value(x, s.Root, 0)}
			for j := x.Int(4); j > 0; j-- {
				op.canon = s.dropSome(x, op.canon)
			}
			if l := tasks[t]; len(l) > 0 && x.Chance(1, 3) {
				op.prev = l[len(l)-1]
				op.prev.again = true
				x.Probe("object-used-again")
				if x.Chance(2, 3) {
					// the earlier input as it is now, with something less and something more
					m, _ := clone(op.prev.canon).(map[string]interface{})
					if !combo {
						m, _ = s.Fill(s.Root, op.prev.canon).(map[string]interface{})
					}
					more, _ := op.canon.(map[string]interface{})
					if m != nil {
						op.canon = m
						for j := x.Int(3); j > 0; j-- {
							op.canon = s.dropSome(x, op.canon)
						}
						m = op.canon.(map[string]interface{})
						for _, k := range sortedKeys(more) {
							if _, ok := m[k]; !ok && x.Chance(1, 3) {
								m[k] = more[k]
							}
						}
					}
				}
			}
			if x.Chance(1, 6) {
				op.canon = s.Mutate(x, op.canon)
			}
			if op.prev != nil && !x.Chance(1, 4) {
				op.form = op.prev.form
			} else if x.Chance(2, 3) {
				op.form = uint64(1 + x.Int(1<<16))
			}
			if len(defNames) > 0 && fo.Accs && !combo && x.Chance(1, 4) {
				op.refuse = x.Pick(defNames)
			}
			tasks[t] = append(tasks[t], op)
		}
	}
	for _, ops := range tasks {
		for _, op := range ops {
			simrt.ResetAll()
			v := mk()
			r := s.RealiseAs(op.form, op.canon, fo)
			x.Solo(func() { op.ref = call(v, r) })
			x.Logf("input %s alone: %s", clip(text(op.canon)), op.ref)
			if op.ref.OK {
				x.Probe("accepted")
			}
			op.obj = s.RealiseAs(op.form, op.canon, fo)
			op.stores = new(int)
			if op.refuse != "" {
				refuse, cnt := op.refuse, op.stores
				eachAcc(op.obj, func(st *accStore) {
					st.onSet = func(n string) error {
						if n == refuse {
							*cnt++
							return errors.New("refused")
						}
						return nil
					}
				})
			}
		}
	}
	simrt.ResetAll()
	v := mk()
	var fns []func()
	for t := range tasks {
		ops := tasks[t]
		fns = append(fns, func() {
			for _, op := range ops {
				if op.prev != nil {
					op.obj = takeOver(op.prev.obj, op.obj)
				}
				op.res = call(v, op.obj)
				if op.again {
					op.after = Snap(op.obj)
				}
				op.done = true
			}
		})
	}
	x.Sim(fns...)
	for t := range tasks {
		for i, op := range tasks[t] {
			if !op.again {
				op.after = Snap(op.obj)
			}
			note(op.res.verdict())
			at := fmt.Sprintf("goroutine %d call %d, input %s", t, i, clip(text(op.canon)))
			if *op.stores > 0 {
				x.FaultHit("store-refused")
				if op.res.OK || op.res.Panic != "" {
					x.Failnow("store", "%s: the object refused to store the default of %q, validation says: %s", at, op.refuse, op.res)
				}
				continue
			}
			if op.res.verdict() != op.ref.verdict() {
				x.Failnow("verdict", "%s: %s, alone: %s", at, op.res, op.ref)
			}
			if !op.res.OK {
				continue
			}
			if combo {
				if ok, why := s.Filled(op.canon, op.after); !ok {
					x.Failnow("filled", "%s: afterwards %s: %s", at, clip(text(op.after)), why)
				}
				if text(op.after) != text(op.canon) {
					x.Probe("defaults-filled-in-combinations")
				}
				continue
			}
			want := text(s.Fill(s.Root, op.canon))
			if got := text(op.after); got != want {
				x.Failnow("filled", "%s: afterwards %s, expected %s", at, clip(got), clip(want))
			}
			if want != text(op.canon) {
				x.Probe("defaults-filled")
			}
		}
	}
	x.CheckLocks()
}

// eachAcc visits the accessor objects inside an input.
func eachAcc(v interface{}, f func(*accStore)) {
	switch t := v.(type) {
	case acc:
		f(t.st)
		for _, e := range t.st.vals {
			eachAcc(e, f)
		}
	case *acc:
		eachAcc(*t, f)
	case map[string]interface{}:
		for _, k := range sortedKeys(t) {
			eachAcc(t[k], f)
		}
	case namedMap:
		eachAcc(map[string]interface{}(t), f)
	case *map[string]interface{}:
		eachAcc(*t, f)
	case []interface{}:
		for _, e := range t {
			eachAcc(e, f)
		}
	}
}

// dropSome removes a property somewhere.
func (s *Spec) dropSome(x *Ctx, v interface{}) interface{} {
	v = clone(v)
	var all []map[string]interface{}
	var rec func(v interface{})
	rec = func(v interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			if len(t) > 0 {
				all = append(all, t)
			}
			for _, k := range sortedKeys(t) {
				rec(t[k])
			}
		case []interface{}:
			for _, e := range t {
				rec(e)
			}
		}
	}
	rec(v)
	if len(all) > 0 {
		m := all[x.Int(len(all))]
		delete(m, sortedKeys(m)[x.Int(len(m))])
	}
	return v
}

// --- objects that cannot take a default --------------------------------------

type stOpt struct {
	P jsval.MaybeString `json:"p"`
	Q jsval.MaybeString `json:"q"`
}

type stNoField struct {
	Q jsval.MaybeString `json:"q"`
}

type stWrong struct {
	P jsval.MaybeBool   `json:"p"`
	Q jsval.MaybeString `json:"q"`
}

type stTime struct {
	P jsval.MaybeTime   `json:"p"`
	Q jsval.MaybeString `json:"q"`
}

type stIface struct {
	P *string           `json:"-"`
	Q jsval.MaybeString `json:"q"`
}

// accRead has accessors only for reading.
type accRead struct{ st *accStore }

func (a accRead) GetPropNames() ([]string, error) { return acc{a.st}.GetPropNames() }

func (a accRead) GetPropValue(n string) (interface{}, error) { return acc{a.st}.GetPropValue(n) }

// stAcc has accessors on the value and stores through a pointer.
type storeCase struct {
	name string
	mk   func() interface{}
	ok   bool // the default of p can be stored
}

var errRefused = errors.New("refused")

func storeCases() []storeCase {
	q := func() jsval.MaybeString { m := jsval.MaybeString{}; m.Set("v"); return m }
	return []storeCase{
		{"map", func() interface{} { return map[string]interface{}{"q": "v"} }, true},
		{"pointer to map", func() interface{} { m := map[string]interface{}{"q": "v"}; return &m }, true},
		{"map of strings", func() interface{} { return map[string]string{"q": "v"} }, true},
		{"struct pointer", func() interface{} { return &stOpt{Q: q()} }, true},
		{"nil map", func() interface{} { return map[string]interface{}(nil) }, false},
		{"map of other values", func() interface{} { return map[string]int{} }, false},
		{"map of bools", func() interface{} { return map[string]bool{} }, false},
		{"struct by value", func() interface{} { return stOpt{Q: q()} }, false},
		{"struct without the field", func() interface{} { return &stNoField{Q: q()} }, false},
		{"optional field of another type", func() interface{} { return &stWrong{Q: q()} }, false},
		{"optional time", func() interface{} { return &stTime{Q: q()} }, false},
		{"field hidden from JSON", func() interface{} { return &stIface{Q: q()} }, false},
		{"accessor", func() interface{} {
			return acc{&accStore{names: []string{"q"}, vals: []interface{}{"v"}}}
		}, true},
		{"accessor that refuses", func() interface{} {
			return acc{&accStore{names: []string{"q"}, vals: []interface{}{"v"}, onSet: func(string) error { return errRefused }}}
		}, false},
		{"accessor without setter", func() interface{} {
			return accRead{&accStore{names: []string{"q"}, vals: []interface{}{"v"}}}
		}, false},
		{"named map", func() interface{} { return namedMap{"q": "v"} }, true},
		{"pointer to accessor that refuses", func() interface{} {
			return &acc{&accStore{missErr: true, names: []string{"q"}, vals: []interface{}{"v"}, onSet: func(string) error { return errRefused }}}
		}, false},
	}
}

type valCase struct {
	name string
	mk   func() interface{}
	must func(d interface{}) bool // d can certainly be stored
	no   func(d interface{}) bool // left out
}

func isInt(d interface{}) bool {
	switch t := d.(type) {
	case int, int64:
		return true
	case float64:
		return t == float64(int64(t))
	}
	return false
}

func isNum(d interface{}) bool {
	switch d.(type) {
	case int, int64, float64:
		return true
	}
	return false
}

func valCases() []valCase {
	is := func(k string) func(interface{}) bool {
		return func(d interface{}) bool { return fmt.Sprintf("%T", d) == k }
	}
	never := func(interface{}) bool { return false }
	frac := func(d interface{}) bool { return isNum(d) && !isInt(d) }
	return []valCase{
		{"map", func() interface{} { return map[string]interface{}{} }, func(interface{}) bool { return true }, nil},
		{"pointer to map", func() interface{} { return &map[string]interface{}{} }, func(interface{}) bool { return true }, nil},
		{"map of strings", func() interface{} { return map[string]string{} }, is("string"), nil},
		{"map of bytes", func() interface{} { return map[string][]byte{} }, never, nil},
		{"map of ints", func() interface{} { return map[string]int{} }, is("int"), nil},
		{"map of int64", func() interface{} { return map[string]int64{} }, is("int64"), nil},
		{"map of uint8", func() interface{} { return map[string]uint8{} }, never, nil},
		{"map of floats", func() interface{} { return map[string]float64{} }, is("float64"), nil},
		{"map of float32", func() interface{} { return map[string]float32{} }, never, nil},
		{"map of bools", func() interface{} { return map[string]bool{} }, is("bool"), nil},
		{"map of lists", func() interface{} { return map[string][]interface{}{} }, is("[]interface {}"), nil},
		{"map of maps", func() interface{} { return map[string]map[string]interface{}{} }, is("map[string]interface {}"), nil},
		{"optional string", func() interface{} {
			return &struct {
				P jsval.MaybeString `json:"p"`
			}{}
		}, is("string"), nil},
		{"optional bool", func() interface{} {
			return &struct {
				P jsval.MaybeBool `json:"p"`
			}{}
		}, is("bool"), nil},
		{"optional int", func() interface{} {
			return &struct {
				P jsval.MaybeInt `json:"p,omitempty"`
			}{}
		}, isInt, frac},
		{"optional float", func() interface{} {
			return &struct {
				P jsval.MaybeFloat `json:"p"`
			}{}
		}, isNum, nil},
		{"optional uint", func() interface{} {
			return &struct {
				P jsval.MaybeUint `json:"p"`
			}{}
		}, never, func(d interface{}) bool { return frac(d) || isNum(d) && text(d)[0] == '-' }},
	}
}

// sameDef: equal, apart from the Go type of numbers.
func sameDef(d, got interface{}) bool {
	return text(d) == text(got)
}

// runC02Values: whatever the default and whatever the object, an accepted
// object holds exactly the default.
func runC02Values(x *Ctx) {
	cases := valCases()
	defs := []interface{}{"filled", "", "0", 65, 0, -1, 300, int64(7), int64(1) << 40, 1.5, 2.0, -0.25, 1e18, true, false,
		[]interface{}{"e"}, map[string]interface{}{"k": 1.0}}
	d := defs[x.Int(len(defs))]
	wrap := x.Int(4)
	x.Logf("default %T %s, wrapped as %d", d, text(d), wrap)
	mk := func() *jsval.JSVal {
		v := jsval.New()
		var p jsval.Constraint
		switch d.(type) {
		case int, int64:
			p = jsval.Integer().Default(d)
		case float64:
			p = jsval.Number().Default(d)
		case bool:
			p = jsval.Boolean().Default(d)
		case string:
			p = jsval.String().Default(d)
		default:
			p = jsval.String().Default(d)
		}
		if wrap == 1 || wrap == 3 {
			v.SetReference("#/definitions/p", p)
			p = jsval.Reference(v).RefersTo("#/definitions/p")
		}
		var c jsval.Constraint = jsval.Object().AddProp("p", p)
		if wrap == 2 || wrap == 3 {
			c = jsval.Array().Items(c)
		}
		return v.SetRoot(c)
	}
	v := mk()
	type op struct {
		c   valCase
		obj interface{}
		in  interface{}
		res Outcome
	}
	var tasks [][]*op
	for t := x.Range(1, 4); t > 0; t-- {
		var ops []*op
		for i := x.Range(1, 4); i > 0; i-- {
			o := &op{c: cases[x.Int(len(cases))]}
			if o.c.no != nil && o.c.no(d) {
				continue
			}
			o.obj = o.c.mk()
			o.in = o.obj
			if wrap >= 2 {
				o.in = []interface{}{o.obj}
			}
			if !o.c.must(d) {
				x.FaultHit("store-of-another-type")
			}
			ops = append(ops, o)
			x.Logf("goroutine %d: %s", len(tasks), o.c.name)
		}
		tasks = append(tasks, ops)
	}
	var fns []func()
	for _, ops := range tasks {
		ops := ops
		fns = append(fns, func() {
			for _, o := range ops {
				o.res = call(v, o.in)
			}
		})
	}
	x.Sim(fns...)
	for t, ops := range tasks {
		for _, o := range ops {
			note(o.res.verdict())
			at := fmt.Sprintf("goroutine %d, %s, default %T %s", t, o.c.name, d, text(d))
			if o.res.Panic != "" {
				x.Failnow("panic", "%s: storing a default: %s", at, o.res)
			}
			if !o.res.OK {
				if o.c.must(d) {
					x.Failnow("store", "%s: %s although the default can be stored", at, o.res)
				}
				continue
			}
			m, _ := Snap(o.obj).(map[string]interface{})
			got, ok := m["p"]
			if !ok || !sameDef(d, got) {
				x.Failnow("filled", "%s: accepted, afterwards %s", at, text(m))
			}
			x.Probe("value-stored")
		}
	}
	x.CheckLocks()
}

func runC02Store(x *Ctx) {
	cases := storeCases()
	null := x.Chance(1, 6)
	wrap := x.Int(4)
	mk := func() *jsval.JSVal {
		v := jsval.New()
		var p jsval.Constraint = jsval.String().Default("filled")
		if null {
			p = jsval.String().Default(nil)
		}
		if wrap == 1 || wrap == 3 {
			v.SetReference("#/definitions/p", p)
			p = jsval.Reference(v).RefersTo("#/definitions/p")
		}
		var c jsval.Constraint = jsval.Object().AddProp("p", p).AddProp("q", jsval.String())
		if wrap == 2 || wrap == 3 {
			c = jsval.Object().AddProp("in", c)
		}
		return v.SetRoot(c)
	}
	v := mk()
	type op struct {
		c    storeCase
		obj  interface{}
		in   interface{}
		keep string
		res  Outcome
		done bool
	}
	var tasks [][]*op
	for t := x.Range(1, 4); t > 0; t-- {
		var ops []*op
		for i := x.Range(1, 4); i > 0; i-- {
			o := &op{c: cases[x.Int(len(cases))]}
			o.obj = o.c.mk()
			o.in = o.obj
			if wrap == 2 || wrap == 3 {
				o.in = map[string]interface{}{"in": o.obj}
			}
			o.keep = text(Snap(o.obj))
			if !o.c.ok {
				x.FaultHit("store-impossible")
			}
			ops = append(ops, o)
			x.Logf("goroutine %d: %s", len(tasks), o.c.name)
		}
		tasks = append(tasks, ops)
	}
	var fns []func()
	for _, ops := range tasks {
		ops := ops
		fns = append(fns, func() {
			for _, o := range ops {
				o.res = call(v, o.in)
				o.done = true
			}
		})
	}
	x.Sim(fns...)
	for t, ops := range tasks {
		for _, o := range ops {
			note(o.res.verdict())
			at := fmt.Sprintf("goroutine %d, %s", t, o.c.name)
			if o.res.Panic != "" {
				x.Failnow("panic", "%s: storing a default: %s", at, o.res)
			}
			m, _ := Snap(o.obj).(map[string]interface{})
			if null {
				// null can be stored in maps of anything and by accessors
				switch o.c.name {
				case "map", "pointer to map", "accessor":
					if e, ok := m["p"]; !o.res.OK || !ok || e != nil {
						x.Failnow("filled", "%s: the default is null; %s, input %s", at, o.res, text(m))
					}
				case "accessor that refuses", "pointer to accessor that refuses", "nil map", "struct by value", "struct without the field":
					if o.res.OK {
						x.Failnow("store", "%s: accepted although the default cannot be stored", at)
					}
				}
				continue
			}
			if !o.c.ok {
				if o.res.OK {
					x.Failnow("store", "%s: accepted although the default cannot be stored", at)
				}
				continue
			}
			if !o.res.OK {
				x.Failnow("store", "%s: %s although the default can be stored", at, o.res)
			}
			if text(m) != `{"p":"filled","q":"v"}` {
				x.Failnow("filled", "%s: afterwards %s", at, text(m))
			}
		}
	}
	x.CheckLocks()
}

// runC02Containers: defaults that are objects or lists. Every input gets its own:
// what other rules fill in there, and what its owner puts there, shows in no other.
func runC02Containers(x *Ctx) {
	str := x.Bool() // a string rule with a default of another kind: accepted only while absent
	viaDoc := str && x.Chance(1, 2)
	wrap, dep := x.Int(2), !viaDoc && x.Chance(1, 3)
	var d interface{}
	switch x.Int(5) {
	case 0:
		d = map[string]interface{}{}
	case 1:
		d = map[string]interface{}{"s": map[string]interface{}{}}
	case 2:
		d = []interface{}{map[string]interface{}{}, map[string]interface{}{"q": "own"}}
	case 3:
		d = map[string]interface{}{"l": []interface{}{map[string]interface{}{}}, "q": "set"}
	default:
		d = []interface{}{[]interface{}{map[string]interface{}{}}}
	}
	was := text(d)
	x.Logf("default %s, string rule %t, builder %t, reference %d, dependency %t", was, str, viaDoc, wrap, dep)
	// inner describes d so that q is filled in everywhere
	var inner func(d interface{}) interface{}
	inner = func(d interface{}) interface{} {
		switch t := d.(type) {
		case map[string]interface{}:
			ps := map[string]interface{}{"q": map[string]interface{}{"type": "string", "default": "f"}}
			for _, k := range sortedKeys(t) {
				if k != "q" {
					ps[k] = inner(t[k])
				}
			}
			return map[string]interface{}{"type": "object", "properties": ps, "additionalProperties": true}
		case []interface{}:
			return map[string]interface{}{"type": "array", "items": inner(t[len(t)-1])}
		}
		return map[string]interface{}{"type": "string"}
	}
	first := map[string]interface{}{"type": "object", "additionalProperties": true,
		"properties": map[string]interface{}{"p": map[string]interface{}{"type": "string", "default": d}}}
	second := map[string]interface{}{"type": "object", "additionalProperties": true,
		"properties": map[string]interface{}{"p": inner(d)}}
	var fill func(v interface{})
	fill = func(v interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			for _, k := range sortedKeys(t) {
				fill(t[k])
			}
			if _, ok := t["q"]; !ok {
				t["q"] = "f"
			}
		case []interface{}:
			for _, e := range t {
				fill(e)
			}
		}
	}
	var v *jsval.JSVal
	build := func(doc map[string]interface{}) *jsval.JSVal {
		v, err := BuildDoc([]byte(text(doc)))
		if err != nil {
			panic(abortHarness(err.Error()))
		}
		return v
	}
	if viaDoc {
		v = build(map[string]interface{}{"allOf": []interface{}{first, second}})
	} else {
		v = jsval.New()
		var p jsval.Constraint = &custom{hasDef: true, def: d}
		if str {
			p = jsval.String().Default(d)
		}
		if wrap == 1 {
			v.SetReference("#/definitions/p", p)
			p = jsval.Reference(v).RefersTo("#/definitions/p")
		}
		o := jsval.Object().AddProp("p", p).AdditionalProperties(jsval.EmptyConstraint)
		in := build(second).Root()
		if dep {
			v.SetRoot(o.AddProp("k", jsval.String()).SchemaDependency("k", in))
		} else {
			v.SetRoot(jsval.All().Add(o).Add(in))
		}
	}
	type op struct {
		obj   map[string]interface{}
		want  map[string]interface{}
		times int
		res   []Outcome
		bad   string
	}
	var tasks [][]*op
	for t := x.Crowd(1, 4); t > 0; t-- {
		var ops []*op
		for i := x.Range(1, 3); i > 0; i-- {
			o := &op{times: 1}
			if !str {
				o.times = x.Range(1, 3)
			}
			c := map[string]interface{}{"k": fmt.Sprintf("%d.%d", len(tasks), i)}
			if x.Chance(1, 4) {
				c["p"] = clone(d)
				if str {
					delete(c, "p")
				}
			}
			o.obj, o.want = c, clone(c).(map[string]interface{})
			ops = append(ops, o)
		}
		tasks = append(tasks, ops)
	}
	mine := x.Chance(2, 3)
	var put func(v, k interface{})
	put = func(v, k interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			t["mine"] = k
		case []interface{}:
			put(t[0], k)
		}
	}
	own := func(m map[string]interface{}) { put(m["p"], m["k"]) }
	var fns []func()
	for _, ops := range tasks {
		ops := ops
		fns = append(fns, func() {
			for n := 0; n < 3; n++ {
				for _, o := range ops {
					if n >= o.times {
						continue
					}
					o.res = append(o.res, call(v, o.obj))
					if mine {
						own(o.obj)
					}
				}
			}
		})
	}
	x.Sim(fns...)
	for t, ops := range tasks {
		for i, o := range ops {
			at := fmt.Sprintf("default %s, goroutine %d input %d", was, t, i)
			for n, r := range o.res {
				note(r.verdict())
				if !r.OK {
					x.Failnow("store", "%s: validation %d: %s", at, n, r)
				}
				if _, ok := o.want["p"]; !ok {
					o.want["p"] = clone(d)
				}
				fill(o.want["p"])
				if mine {
					own(o.want)
				}
			}
			if len(o.res) != o.times {
				x.Failnow("lost", "%s: did not complete", at)
			}
			if got, want := text(o.obj), text(o.want); got != want {
				x.Failnow("shared", "%s: afterwards %s, expected %s", at, clip(got), clip(want))
			}
			x.Probe("containers-filled")
		}
	}
	if got := text(d); got != was {
		x.Failnow("shared", "the default %s of the schema has become %s", was, clip(got))
	}
	x.CheckLocks()
}
