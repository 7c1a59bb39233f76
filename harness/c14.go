package main

import (
	"bytes"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"strings"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C14", runC14)
	docs["C14"] = propDoc{
		Rule:   "Each run draws a validator in which user code sits everywhere (custom constraints as property, item, combination, pattern, additional and dependency constraints, custom defaults, references with user resolvers, objects with accessors, user-defined optional fields, also nested) and a printable validator, and 1-5 goroutines that validate and generate, now and then hundreds of times with faults in most calls. At every call of user code the fault stream decides whether it returns an error, panics, ends its goroutine, or calls back into the same validator: validates, generates, adds rules, registers, fetches and counts references.",
		Oracle: "No lock is held when all goroutines have ended, nobody is blocked, every call without a fault of its own and every call made from user code gives the verdict of the same input on a fresh validator without faults; afterwards every input gets its right verdict and the generator its right output on the very validators that saw the faults.",
	}
}

const (
	fErr = 1 + iota
	fPanic
	fExit
	fReenter
)

var faultName = []string{"", "user-error", "user-panic", "user-goexit", "user-reenters"}

type userPanic struct{ site string }

// env14 is the environment of the user code of one run.
type env14 struct {
	rate  int
	v     *jsval.JSVal
	obj   *jsval.ObjectConstraint
	gv    *jsval.JSVal
	other *jsval.JSVal
	want  []byte
	ops   [simrt.MaxTasks]*c14op // by task
	stray bool                   // user code ran in a goroutine that belongs to no call
	mute  bool
}

//go:norace
func (e *env14) op() *c14op {
	if e.mute {
		return nil
	}
	c := simrt.Root()
	if c < 0 || c >= len(e.ops) || e.ops[c] == nil {
		e.stray = true
		return nil
	}
	return e.ops[c]
}

//go:norace
func (e *env14) enter(op *c14op) {
	if c := simrt.Root(); c >= 0 && c < len(e.ops) {
		e.ops[c] = op
	}
}

type c14op struct {
	in    *in14
	obj   interface{}
	nsp   int
	spare [3]interface{} // inputs for calls from user code
	spIn  [3]*in14
	gen   bool
	out   bytes.Buffer
	depth int
	n     [5]int
	nsite int
	sites [12]string
	bad   string // a call from user code went wrong
	res   Outcome
	done  bool
}

type in14 struct {
	canon map[string]interface{}
	form  int
	ref   Outcome
}

// user is called by all user code, also from goroutines the library starts: what it
// keeps about the call is the harness's own.
//
//go:norace
func (e *env14) user(site string) error {
	simrt.YS()
	op := e.op()
	if op == nil || op.depth > 0 {
		return nil
	}
	k := simrt.Fault(4, e.rate)
	if k == 0 {
		return nil
	}
	op.n[k]++
	if op.nsite < len(op.sites) {
		op.sites[op.nsite] = site
		op.nsite++
	}
	switch k {
	case fErr:
		switch site {
		case "HasDefault", "DefaultValue", "Valid", "Value", "GetPropValue", "GetPropNames":
			op.n[fErr]--
			op.n[fPanic]++
			panic(userPanic{"user:" + site})
		}
		return errors.New("user code fails")
	case fPanic:
		panic(userPanic{"user:" + site})
	case fExit:
		runtime.Goexit()
	case fReenter:
		op.nest(1)
		defer op.nest(-1)
		e.reenter(op, site)
	}
	return nil
}

//go:norace
func (op *c14op) nest(d int) { op.depth += d }

//go:norace
func (op *c14op) wrong(site, s string) {
	if op.bad == "" {
		op.bad = "called from " + site + ": " + s
	}
}

//go:norace
func (op *c14op) next() (*in14, interface{}) {
	if op.nsp >= len(op.spare) {
		return nil, nil
	}
	op.nsp++
	return op.spIn[op.nsp-1], op.spare[op.nsp-1]
}

func (e *env14) reenter(op *c14op, site string) {
	bad := func(f string, a ...interface{}) { op.wrong(site, fmt.Sprintf(f, a...)) }
	k := simrt.FaultIntn(9)
	if site == "GetReference" && k < 3 {
		k = 9 // a resolver must not need the reference it resolves
	}
	switch k {
	case 0, 1, 2:
		in, obj := op.next()
		if in == nil {
			return
		}
		if o := call(e.v, obj); o.verdict() != in.ref.verdict() {
			bad("input %s: %s, alone: %s", text(in.canon), o, in.ref)
		}
	case 3:
		e.v.SetReference(fmt.Sprintf("#/more/%d", simrt.FaultIntn(4)), jsval.EmptyConstraint)
	case 4:
		if c, err := e.v.GetReference("#/definitions/m"); err != nil || c == nil {
			bad("reference lost: %v", err)
		}
	case 5:
		if n := e.v.Len(); n < 1 {
			bad("%d references", n)
		}
	case 6:
		e.obj.AddProp(fmt.Sprintf("zz%d", simrt.FaultIntn(4)), jsval.EmptyConstraint)
	case 7:
		e.obj.IsPropRequired("c")
		e.obj.GetPropDependencies("c")
		e.obj.GetSchemaDependency("c")
	case 8:
		b, o := generate(e.gv)
		if !o.OK || !bytes.Equal(b, e.want) {
			bad("generate: %s", o)
		}
	case 9:
		if o := call(e.other, struct14(nil, map[string]interface{}{"c": "v0"})); !o.OK {
			bad("another validator: %s", o)
		}
		// with references of its own that nobody has resolved yet
		w := jsval.New()
		w.SetReference("#/definitions/s", jsval.String())
		w.SetRoot(jsval.Object().AddProp("c", jsval.Reference(&res14{e, jsval.Reference(w).RefersTo("#/definitions/s")}).RefersTo("#/c")))
		if o := call(w, map[string]interface{}{"c": "v0"}); !o.OK {
			bad("another validator with references: %s", o)
		}
	}
}

// user code ---------------------------------------------------------------------

type uc14 struct {
	e    *env14
	salt uint32
	def  string
}

func (c *uc14) Validate(v interface{}) error {
	if err := c.e.user("Validate"); err != nil {
		return err
	}
	if s, ok := v.(string); ok && !likes(c.salt, s) {
		return errors.New("not liked")
	}
	return nil
}

func (c *uc14) HasDefault() bool {
	c.e.user("HasDefault")
	return c.def != ""
}

func (c *uc14) DefaultValue() interface{} {
	c.e.user("DefaultValue")
	return c.def
}

type res14 struct {
	e *env14
	c jsval.Constraint
}

func (r *res14) GetReference(n string) (jsval.Constraint, error) {
	if err := r.e.user("GetReference"); err != nil {
		return nil, err
	}
	return r.c, nil
}

type box14 struct {
	e   *env14
	has bool
	v   interface{}
}

func (b *box14) user(s string) error {
	if b.e == nil {
		return nil
	}
	return b.e.user(s)
}

func (b box14) Valid() bool        { b.user("Valid"); return b.has }
func (b box14) Value() interface{} { b.user("Value"); return b.v }
func (b *box14) Reset()            { b.has = false }
func (b *box14) Set(v interface{}) error {
	if err := b.user("Set"); err != nil {
		return err
	}
	b.has, b.v = true, v
	return nil
}

type rec14 struct {
	C    box14 `json:"c"`
	D    box14 `json:"d,omitempty"`
	R    box14 `json:"r"`
	Q    box14 `json:"q"`
	M    box14 `json:"m"`
	N    box14 `json:"n"`
	L    box14 `json:"l"`
	Y    box14 `json:"y"`
	A    box14 `json:"a"`
	O    box14 `json:"o"`
	PatX box14 `json:"pat_x"`
	Ext  box14 `json:"ext"`
	K    box14 `json:"k"`
}

func (r *rec14) box(n string) *box14 {
	switch n {
	case "c":
		return &r.C
	case "d":
		return &r.D
	case "r":
		return &r.R
	case "q":
		return &r.Q
	case "m":
		return &r.M
	case "n":
		return &r.N
	case "l":
		return &r.L
	case "y":
		return &r.Y
	case "a":
		return &r.A
	case "o":
		return &r.O
	case "pat_x":
		return &r.PatX
	case "ext":
		return &r.Ext
	}
	return &r.K
}

func struct14(e *env14, m map[string]interface{}) *rec14 {
	r := &rec14{}
	for _, n := range names14 {
		*r.box(n) = box14{e: e}
	}
	for _, n := range sortedKeys(m) {
		*r.box(n) = box14{e: e, has: true, v: m[n]}
	}
	return r
}

type wr14 struct {
	e  *env14
	op *c14op
}

func (w *wr14) Write(p []byte) (int, error) {
	if err := w.e.user("Write"); err != nil {
		return 0, err
	}
	return w.op.out.Write(p)
}

var names14 = []string{"c", "d", "r", "q", "m", "n", "l", "y", "a", "o", "pat_x", "ext", "k"}

// realise14 makes an input; form 0 map, 1 accessor object, 2 pointer to accessor
// object, 3 struct.
func realise14(e *env14, m map[string]interface{}, form int) interface{} {
	c := map[string]interface{}{}
	for k, v := range m {
		switch t := v.(type) {
		case map[string]interface{}:
			c[k] = realise14(e, t, form/4)
		case []interface{}:
			c[k] = clone(t)
		default:
			c[k] = v
		}
	}
	switch form % 4 {
	case 1, 2:
		st := &accStore{missErr: form%8 > 3}
		for _, k := range sortedKeys(c) {
			st.names = append(st.names, k)
			st.vals = append(st.vals, c[k])
		}
		st.onGet = func(string) { e.user("GetPropValue") }
		st.onNames = func() { e.user("GetPropNames") }
		st.onSet = func(string) error { return e.user("SetPropValue") }
		if form%4 == 2 {
			return &acc{st}
		}
		return acc{st}
	case 3:
		return struct14(e, c)
	}
	return c
}

// rules14 builds the validator with user code.
func rules14(e *env14, seed int, main bool) *jsval.JSVal {
	g := &Ctx{W: simrt.NewGen(simrt.Mix(uint64(seed)))}
	uc := func() *uc14 {
		c := &uc14{e: e}
		if g.Chance(2, 5) {
			c.salt = uint32(1 + g.Int(30))
		}
		return c
	}
	ud := func() *uc14 { c := uc(); c.def = "dd"; return c }
	v := jsval.New()
	v.SetReference("#/definitions/m", uc())
	o := jsval.Object()
	sub := func() jsval.Constraint {
		s := jsval.Object().AddProp("c", uc()).AddProp("d", ud()).AdditionalProperties(uc())
		if g.Bool() {
			s.PatternProperties(regexp.MustCompile("^pat"), uc())
		}
		return s
	}
	add := func(n string, c jsval.Constraint) {
		if g.Chance(4, 5) {
			o.AddProp(n, c)
		}
		if g.Chance(1, 10) {
			o.Required(n)
		}
	}
	add("c", uc())
	add("d", ud())
	add("r", jsval.Reference(&res14{e, uc()}).RefersTo("#/r"))
	add("q", jsval.Reference(&res14{e, ud()}).RefersTo("#/q"))
	add("m", jsval.Reference(v).RefersTo("#/definitions/m"))
	add("n", sub())
	var items jsval.Constraint = uc()
	if g.Bool() {
		items = jsval.Reference(&res14{e, items}).RefersTo("#/items")
	}
	add("l", jsval.Array().Items(items))
	add("y", jsval.Any().Add(uc()).Add(uc()))
	add("a", jsval.All().Add(uc()).Add(jsval.Not(jsval.String().MinLength(9))).Add(uc()))
	add("o", jsval.OneOf().Add(uc()).Add(jsval.Not(uc())).Add(jsval.Integer()))
	add("k", sub())
	if g.Chance(2, 3) {
		o.PatternProperties(regexp.MustCompile("^pat_"), uc())
	}
	if g.Chance(3, 4) {
		o.AdditionalProperties(uc())
	}
	if g.Chance(1, 2) {
		o.SchemaDependency("c", jsval.Object().AddProp("a", uc()).AdditionalProperties(jsval.EmptyConstraint))
	}
	if g.Chance(1, 4) {
		o.PropDependency("d", "c")
	}
	if main {
		e.obj = o
	}
	var root jsval.Constraint = o
	switch g.Int(6) {
	case 0:
		root = jsval.All().Add(o).Add(jsval.Any().Add(uc()).Add(jsval.EmptyConstraint))
	case 1:
		root = jsval.Reference(&res14{e, o}).RefersTo("#")
	}
	return v.SetRoot(root)
}

// each14 goes on with the rest, if it may, when a call ends the goroutine.
func each14(ops []*c14op, on bool, do func(*c14op)) {
	i, fin := 0, false
	defer func() {
		if on && !fin && i+1 < len(ops) {
			rest := ops[i+1:]
			simrt.Go(func() { each14(rest, on, do) })
		}
	}()
	for i < len(ops) {
		do(ops[i])
		i++
	}
	fin = true
}

func val14(x *Ctx, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	d := x.Range(2, 5)
	for _, n := range names14 {
		if x.Chance(d-1, d) {
			continue
		}
		switch {
		case n == "l":
			l := []interface{}{}
			for i := x.Pick3(x.Int(4), x.Int(4), x.Int(4), x.Range(4, 20)); i > 0; i-- {
				l = append(l, fmt.Sprintf("v%d", x.Int(9)))
			}
			m[n] = l
		case (n == "n" || n == "k") && depth > 0 && !x.Chance(1, 10):
			m[n] = val14(x, depth-1)
		default:
			m[n] = fmt.Sprintf("v%d", x.Int(9))
		}
	}
	return m
}

func runC14(x *Ctx) {
	e := &env14{rate: x.Pick3(0, 4, 10, 25, 60)}
	seed := x.Int(1 << 30)
	po := printOpt
	po.Depth, po.Width = 1, 3
	ps := GenSpec(x, po)
	var ins []*in14
	for i := x.Range(2, 6); i > 0; i-- {
		in := &in14{canon: val14(x, 1), form: x.Int(16)}
		if i > 1 && len(ins) > 0 && x.Chance(1, 3) {
			in.canon = ins[0].canon
		}
		ins = append(ins, in)
	}
	quiet := &env14{mute: true}
	for _, in := range ins {
		simrt.ResetAll()
		v := rules14(quiet, seed, false)
		obj := realise14(quiet, in.canon, in.form)
		x.Solo(func() { in.ref = call(v, obj) })
		x.Logf("input %s form %d alone: %s", clip(text(in.canon)), in.form, in.ref)
		x.Probe(in.ref.verdict())
	}
	gq := ps.Direct().SetName("P")
	x.Solo(func() {
		var o Outcome
		if e.want, o = generate(gq); !o.OK {
			x.Fail("harness", "cannot generate: %s", o)
		}
	})
	simrt.ResetAll()
	e.v = rules14(e, seed, true)
	e.gv = ps.Direct().SetName("P")
	e.other = jsval.New().SetRoot(jsval.Object().AddProp("c", jsval.String()).AdditionalProperties(jsval.EmptyConstraint))
	var tasks [][]*c14op
	// a validator that has seen very many faults
	worn := x.Chance(1, 30)
	nt := x.Crowd(1, 5)
	if worn {
		nt = x.Range(1, 2)
		e.rate = x.Pick3(0, 25, 60, 250)
		x.Probe("worn")
	}
	for t := nt; t > 0; t-- {
		var ops []*c14op
		n := x.Range(1, 4)
		if worn {
			n = x.Range(30, 150)
		}
		for i := n; i > 0; i-- {
			op := &c14op{}
			if x.Chance(1, 6) {
				op.gen = true
			} else {
				op.in = ins[x.Int(len(ins))]
				op.obj = realise14(e, op.in.canon, op.in.form)
			}
			for j := 0; j < 3 && (!worn || x.Chance(1, 20)); j++ {
				in := ins[x.Int(len(ins))]
				op.spIn[j] = in
				op.spare[j] = realise14(e, in.canon, in.form)
			}
			ops = append(ops, op)
		}
		tasks = append(tasks, ops)
	}
	do := func(op *c14op) {
		e.enter(op)
		defer func() {
			if r := recover(); r != nil {
				op.res = Outcome{Panic: fmt.Sprint(r)}
				op.done = true
			}
		}()
		op.res = Outcome{Exit: true}
		if op.gen {
			op.res = doErr(func() error { return jsval.NewGenerator().Process(&wr14{e, op}, e.gv) })
		} else {
			op.res = call(e.v, op.obj)
		}
		op.done = true
	}
	var fns []func()
	for _, ops := range tasks {
		ops := ops
		fns = append(fns, func() { each14(ops, worn, do) })
	}
	x.Sim(fns...)
	e.mute = true
	for t, ops := range tasks {
		exited := false
		for i, op := range ops {
			at := fmt.Sprintf("goroutine %d call %d", t, i)
			if op.in != nil {
				at += ", input " + clip(text(op.in.canon))
			}
			note(op.res.verdict())
			for k := 1; k < 5; k++ {
				for j := 0; j < op.n[k]; j++ {
					x.FaultHit(faultName[k])
				}
			}
			if op.nsite > 0 {
				at += " (faults in " + strings.Join(op.sites[:op.nsite], ", ") + ")"
			}
			if !op.done {
				if (worn || !exited) && op.n[fExit] == 0 {
					x.Failnow("lost", "%s: did not complete", at)
				}
				exited = true
				continue
			}
			if op.bad != "" {
				x.Failnow("reentry", "%s: %s", at, op.bad)
			}
			if op.res.Panic != "" && op.n[fPanic] == 0 {
				x.Failnow("panic", "%s: %s", at, op.res)
			}
			if op.res.Panic != "" && !strings.Contains(op.res.Panic, "{user:") {
				x.Failnow("panic", "%s: %s", at, op.res)
			}
			if op.n[fErr]+op.n[fPanic]+op.n[fExit] > 0 || e.stray {
				if op.gen && op.res.OK && !e.stray {
					x.Failnow("generate", "%s: success although the writer failed", at)
				}
				continue
			}
			if op.gen {
				if !op.res.OK || !bytes.Equal(op.out.Bytes(), e.want) {
					x.Failnow("generate", "%s: %s, wrong output", at, op.res)
				}
				continue
			}
			if op.res.verdict() != op.in.ref.verdict() {
				x.Failnow("verdict", "%s: %s, alone: %s", at, op.res, op.in.ref)
			}
		}
	}
	x.CheckLocks()
	// afterwards everything works
	type again struct {
		in  *in14
		obj interface{}
		res Outcome
	}
	var l []*again
	for _, in := range ins {
		l = append(l, &again{in: in, obj: realise14(e, in.canon, in.form)})
	}
	var code []byte
	var co Outcome
	x.Solo(func() {
		for _, a := range l {
			a.res = call(e.v, a.obj)
		}
		code, co = generate(e.gv)
	})
	for _, a := range l {
		if a.res.verdict() != a.in.ref.verdict() {
			x.Failnow("after", "after the faults, input %s: %s, alone: %s", clip(text(a.in.canon)), a.res, a.in.ref)
		}
	}
	if !co.OK || !bytes.Equal(code, e.want) {
		x.Failnow("after", "after the faults, generating gives %s or other code", co)
	}
	x.CheckLocks()
}
