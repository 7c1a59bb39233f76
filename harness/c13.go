package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C13", runC13)
	docs["C13"] = propDoc{
		Rule:   "Each run draws 1-8 struct types (now and then up to 60, now and then with up to 70 fields): unnamed types, types of equal name declared in different functions, types with equal field names but other JSON names and the reverse, structs embedded by value with hidden and equally named fields, nested structs by value and by pointer, plain and optional fields, types with only one of the two property accessors. 1-5 goroutines validate values of these types by pointer and by value with one shared validator while the struct information is cold, then everything is validated again.",
		Oracle: "The verdict of the property map with the same contents on a fresh validator; with defaults, verdict and final value of the same struct validated alone in a fresh process state.",
	}
}

// optBox is an optional type supplied by the user.
type optBox struct {
	has bool
	v   string
}

func (o optBox) Valid() bool        { simrt.YS(); return o.has }
func (o optBox) Value() interface{} { simrt.YS(); return o.v }
func (o *optBox) Reset()            { *o = optBox{} }
func (o *optBox) Set(v interface{}) error {
	s, ok := v.(string)
	if !ok {
		return errors.New("not a string")
	}
	*o = optBox{true, s}
	return nil
}

// types with equal names
func t13a() reflect.Type {
	type T struct {
		A string            `json:"a"`
		B jsval.MaybeString `json:"b"`
		c string
		D int64 `json:"-"`
	}
	_ = T{}.c
	return reflect.TypeOf(T{})
}

func t13b() reflect.Type {
	type T struct {
		A string            `json:"b"`
		B jsval.MaybeString `json:"a,omitempty"`
	}
	return reflect.TypeOf(T{})
}

func t13c() reflect.Type {
	type T struct {
		A jsval.MaybeString
		B string `json:",omitempty"`
		D string `json:"d"`
	}
	return reflect.TypeOf(T{})
}

func t13d() reflect.Type {
	type T struct {
		B int64   `json:"a"`
		A float64 `json:"c"`
		X optBox  `json:"b"`
	}
	return reflect.TypeOf(T{})
}

func t13e() reflect.Type {
	type E struct {
		A string            `json:"e"`
		Z jsval.MaybeString `json:"a"`
	}
	type T struct {
		E
		A string `json:"a"`
	}
	return reflect.TypeOf(T{})
}

func t13f() reflect.Type {
	type E struct {
		A jsval.MaybeString `json:"a"`
		C string            `json:"f"`
	}
	type e2 struct {
		E
		C jsval.MaybeInt `json:"c"`
	}
	type T struct {
		X string `json:"a"`
		e2
		A string `json:"b"`
	}
	return reflect.TypeOf(T{})
}

func t13g() reflect.Type {
	type T struct{}
	return reflect.TypeOf(T{})
}

// accNames only lists its properties, accVals only delivers values.
type accNames struct {
	A string            `json:"a"`
	B jsval.MaybeString `json:"b"`
}

func (a accNames) GetPropNames() ([]string, error) {
	simrt.YS()
	if a.B.Valid() {
		return []string{"a", "b"}, nil
	}
	return []string{"a"}, nil
}

type accVals struct {
	A string            `json:"a"`
	B jsval.MaybeString `json:"b"`
	D string            `json:"d"`
}

func (a accVals) GetPropValue(n string) (interface{}, error) {
	simrt.YS()
	if n == "a" {
		return a.A, nil
	}
	return nil, errors.New("look it up yourself")
}

type accErrs struct {
	B string            `json:"b"`
	A jsval.MaybeString `json:"a"`
}

func (a accErrs) GetPropNames() ([]string, error) {
	simrt.YS()
	return nil, errors.New("look them up yourself")
}

var static13 = []reflect.Type{t13a(), t13b(), t13c(), t13d(), t13e(), t13f(), t13g(), reflect.TypeOf(accNames{}), reflect.TypeOf(accVals{}), reflect.TypeOf(accErrs{})}

var props13 = []string{"a", "b", "c", "d", "e", "f", "A", "B", "a1", "long_name"}
var names13 = []string{"A", "B", "C", "D", "E", "F"}

var (
	tOB = reflect.TypeOf(optBox{})
	tMU = reflect.TypeOf(jsval.MaybeUint{})
)

func type13(x *Ctx, depth int) reflect.Type {
	if x.Chance(1, 4) {
		return static13[x.Int(len(static13))]
	}
	for try := 0; ; try++ {
		var fs []reflect.StructField
		usedN, usedP := map[string]bool{}, map[string]bool{}
		for i := x.Range(0, 6); i > 0; i-- {
			nm := x.Pick(names13)
			if usedN[nm] {
				continue
			}
			usedN[nm] = true
			p, tag := x.Pick(props13), ""
			switch x.Int(8) {
			case 0:
				p, tag = nm, ""
			case 1:
				p, tag = nm, ",omitempty"
			case 2:
				p, tag = "", "-"
			case 3:
				tag = p + ",omitempty"
			default:
				tag = p
			}
			if p != "" && usedP[p] {
				continue
			}
			usedP[p] = true
			f := reflect.StructField{Name: nm}
			if tag != "" {
				f.Tag = reflect.StructTag(`json:"` + tag + `"`)
			}
			if x.Chance(1, 6) {
				f.Tag = `yaml:"zz" ` + f.Tag
			}
			switch k := x.Int(13); {
			case k < 2:
				f.Type = tString
			case k < 5:
				f.Type = tMS
			case k == 5:
				f.Type = tInt
			case k == 6:
				f.Type = tMI
			case k == 7:
				f.Type = tFloat
			case k == 8:
				f.Type = tMU
			case k == 9:
				f.Type = tOB
			case k == 10:
				f.Type = tIface
			default:
				f.Type = tMF
				if depth > 0 {
					f.Type = type13(x, depth-1)
					if x.Bool() {
						f.Type = reflect.PtrTo(f.Type)
					}
				}
			}
			fs = append(fs, f)
		}
		if depth > 0 && x.Chance(1, 3) {
			for i := x.Range(1, 2); i > 0; i-- {
				t := type13(x, depth-1)
				if t.NumMethod() > 0 {
					continue
				}
				nm := fmt.Sprintf("Emb%d", i)
				f := reflect.StructField{Name: nm, Type: t, Anonymous: true}
				at := x.Int(len(fs) + 1)
				fs = append(fs[:at:at], append([]reflect.StructField{f}, fs[at:]...)...)
			}
		}
		t := reflect.StructOf(fs)
		if _, ok := visible13(t); ok || try > 20 {
			if !ok {
				return static13[0]
			}
			return t
		}
	}
}

var propsW = func() (l []string) {
	for i := 0; i < 80; i++ {
		l = append(l, fmt.Sprintf("w%02d", i))
	}
	return l
}()

// wide13 is a struct with very many fields.
func wide13(x *Ctx) reflect.Type {
	var fs []reflect.StructField
	n, at := x.Pick3(9, 17, 33, 40, 65, 70), x.Int(80)
	opt := x.Pick3(1, 3, 6)
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("W%d", i), Type: tString}
		if x.Chance(opt, 7) {
			f.Type = tMS
		}
		if !x.Chance(1, 12) {
			f.Tag = reflect.StructTag(`json:"` + propsW[at] + `"`)
		}
		at = (at + 1) % 80
		fs = append(fs, f)
		if x.Chance(1, 30) {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Emb%d", i), Type: static13[x.Int(4)], Anonymous: true})
		}
	}
	t := reflect.StructOf(fs)
	if _, ok := visible13(t); !ok {
		return wide13(x)
	}
	return t
}

// poolType gives the types by number: types made at run time are never freed.
var pool13 = map[int]reflect.Type{}

func poolType(i int) reflect.Type {
	t, ok := pool13[i]
	if !ok {
		g := &Ctx{W: simrt.NewGen(simrt.Mix(uint64(i) + 13))}
		if i < 1<<14 {
			t = type13(g, 2)
		} else {
			t = wide13(g)
		}
		pool13[i] = t
	}
	return t
}

type vis struct {
	prop string
	idx  []int
	t    reflect.Type
}

// visible13 lists the properties of a struct type as encoding/json sees them;
// false if a property is ambiguous.
func visible13(t reflect.Type) ([]vis, bool) {
	best := map[string]vis{}
	clash := map[string]bool{}
	var order []string
	var rec func(t reflect.Type, at []int)
	rec = func(t reflect.Type, at []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			idx := append(append([]int(nil), at...), i)
			if f.Anonymous {
				rec(f.Type, idx)
				continue
			}
			if f.PkgPath != "" {
				continue
			}
			tag := f.Tag.Get("json")
			if tag == "-" {
				continue
			}
			p := strings.Split(tag, ",")[0]
			if p == "" {
				p = f.Name
			}
			o, ok := best[p]
			switch {
			case !ok:
				order = append(order, p)
				best[p] = vis{p, idx, f.Type}
			case len(o.idx) == len(idx):
				clash[p] = true
			case len(idx) < len(o.idx):
				delete(clash, p)
				best[p] = vis{p, idx, f.Type}
			}
		}
	}
	rec(t, nil)
	var out []vis
	for _, p := range order {
		if clash[p] {
			return nil, false
		}
		out = append(out, best[p])
	}
	return out, true
}

func propIdx(p string) int {
	for i, q := range props13 {
		if p == q {
			return i
		}
	}
	return len(props13) + len(p)
}

// leaf13 is a value that belongs to a property; wrong ones belong to no one.
func leaf13(x *Ctx, p string, t reflect.Type) interface{} {
	n := propIdx(p)
	rate := 20
	if p[0] == 'w' {
		rate = 400
	}
	if x.Chance(1, rate) {
		n, p = 15, "?"
	}
	k := int64(n + 16*x.Int(5))
	switch t {
	case tInt, tMI:
		return k
	case tFloat, tMF:
		return float64(k)
	case tMU:
		return uint64(k)
	}
	return fmt.Sprintf("%s:%d", p, x.Int(5))
}

func belongs(p string, v interface{}) bool {
	n := propIdx(p)
	switch t := v.(type) {
	case string:
		return strings.HasPrefix(t, p+":")
	case int64:
		return int(t%16) == n
	case uint64:
		return int(t%16) == n
	case float64:
		return int(math.Mod(t, 16)) == n
	case map[string]interface{}:
		return false
	}
	return false
}

// value13 fills a struct and returns the equivalent map.
func value13(x *Ctx, rv reflect.Value) map[string]interface{} {
	m := map[string]interface{}{}
	poison(rv)
	vs, ok := visible13(rv.Type())
	if !ok {
		panic(abortHarness("ambiguous type"))
	}
	for _, f := range vs {
		fv := rv.FieldByIndex(f.idx)
		t := f.t
		switch {
		case reflect.PtrTo(t).Implements(maybeT):
			mb := fv.Addr().Interface().(jsval.Maybe)
			mb.Reset()
			if x.Chance(2, 5) {
				continue
			}
			v := leaf13(x, f.prop, t)
			if err := mb.Set(v); err != nil {
				panic(abortHarness(err.Error()))
			}
			m[f.prop] = v
		case t.Kind() == reflect.Struct:
			m[f.prop] = value13(x, fv)
		case t.Kind() == reflect.Ptr:
			p := reflect.New(t.Elem())
			m[f.prop] = value13(x, p.Elem())
			fv.Set(p)
		default:
			v := leaf13(x, f.prop, t)
			fv.Set(reflect.ValueOf(v))
			m[f.prop] = v
		}
	}
	return m
}

// poison gives every field, also hidden ones, a value no property accepts.
func poison(rv reflect.Value) {
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Type().Field(i)
		fv := rv.Field(i)
		switch {
		case f.Anonymous:
			poison(fv)
		case f.PkgPath != "":
		case reflect.PtrTo(f.Type).Implements(maybeT):
			mb := fv.Addr().Interface().(jsval.Maybe)
			if mb.Set("hidden") != nil && mb.Set(int64(15)) != nil && mb.Set(uint64(15)) != nil {
				mb.Set(float64(15))
			}
		case f.Type == tString || f.Type == tIface:
			fv.Set(reflect.ValueOf("hidden"))
		case f.Type == tInt:
			fv.SetInt(15)
		case f.Type == tFloat:
			fv.SetFloat(15)
		}
	}
}

func rules13(x *Ctx, depth int, defs, wide bool) jsval.Constraint {
	o := jsval.Object()
	leaf := func(p string) jsval.Constraint {
		return &custom{accept: func(v interface{}) bool { return belongs(p, v) }}
	}
	skip := x.Range(1, 12)
	for _, p := range props13 {
		if x.Chance(1, skip) {
			continue
		}
		var c jsval.Constraint = leaf(p)
		switch {
		case depth > 0 && x.Chance(2, 3):
			c = jsval.Any().Add(c).Add(rules13(x, depth-1, false, false))
		case x.Chance(1, 6):
			c = jsval.Any().Add(c).Add(jsval.String().RegexpString("^" + p + ":")).Add(jsval.Object().AdditionalProperties(jsval.EmptyConstraint))
		}
		if defs && x.Chance(1, 3) {
			cc := c
			c = &custom{accept: func(v interface{}) bool { return cc.Validate(v) == nil }, hasDef: true, def: p + ":9"}
		}
		o.AddProp(p, c)
	}
	if wide {
		skip := x.Range(1, 40)
		for _, p := range propsW {
			if !x.Chance(1, skip) {
				o.AddProp(p, leaf(p))
			}
		}
		o.AdditionalProperties(jsval.EmptyConstraint)
		if x.Bool() {
			o.MinProperties(x.Range(5, 45))
		}
		if x.Bool() {
			o.MaxProperties(x.Range(20, 70))
		}
		return o
	}
	for i := x.Int(3); i > 0; i-- {
		if x.Chance(1, 3) {
			o.Required(x.Pick(props13))
		}
	}
	switch x.Int(4) {
	case 0, 1:
		o.AdditionalProperties(jsval.EmptyConstraint)
	case 2:
		o.AdditionalProperties(&custom{accept: func(v interface{}) bool {
			for _, p := range props13 {
				if belongs(p, v) {
					return true
				}
			}
			_, m := v.(map[string]interface{})
			return m || reflect.ValueOf(v).Kind() != reflect.String
		}})
	}
	if x.Chance(1, 3) {
		p := x.Pick(props13)
		o.PatternProperties(regexp.MustCompile("^"+p), &custom{accept: func(v interface{}) bool {
			s, ok := v.(string)
			return !ok || strings.HasPrefix(s, p)
		}})
	}
	if x.Chance(1, 4) {
		o.PropDependency(x.Pick(props13), x.Pick(props13))
	}
	if x.Chance(1, 6) {
		o.MinProperties(x.Range(1, 4))
	}
	if x.Chance(1, 6) {
		o.MaxProperties(x.Range(1, 7))
	}
	return o
}

type c13op struct {
	pv    reflect.Value
	m     map[string]interface{}
	byVal bool
	obj   interface{}
	want  Outcome
	final string
	res   Outcome
	done  bool
}

func runC13(x *Ctx) {
	nty := x.Range(1, 8)
	if x.Chance(1, 15) {
		nty = x.Range(20, 60)
	}
	types := make([]reflect.Type, nty)
	wide := nty <= 8 && x.Chance(1, 14)
	if wide {
		x.Probe("wide-structs")
	}
	for i := range types {
		types[i] = poolType(x.Int(1 << 14))
		if wide && x.Bool() {
			types[i] = poolType(1<<14 + x.Int(200))
		}
		x.Logf("type %d: %s %s", i, types[i], fieldsOf(types[i]))
	}
	defs := x.Chance(1, 5)
	rs := x.Int(1 << 30)
	mk := func() *jsval.JSVal {
		g := &Ctx{W: simrt.NewGen(simrt.Mix(uint64(rs)))}
		return jsval.New().SetRoot(rules13(g, 2, defs, wide))
	}
	var tasks [][]*c13op
	nt := x.Range(1, 5)
	if nty <= 10 {
		nt = x.Crowd(1, 5)
	}
	for t := nt; t > 0; t-- {
		var ops []*c13op
		n := x.Range(1, 5)
		if nty > 10 {
			n = x.Range(10, 30)
		}
		for i := 0; i < n; i++ {
			op := &c13op{}
			ty := types[x.Int(nty)]
			op.pv = reflect.New(ty)
			op.m = value13(x, op.pv.Elem())
			op.byVal = x.Chance(1, 3)
			op.obj = op.form()
			ops = append(ops, op)
		}
		tasks = append(tasks, ops)
	}
	vm := mk()
	for _, ops := range tasks {
		for _, op := range ops {
			if defs {
				simrt.ResetAll()
				c := &c13op{pv: reflect.New(op.pv.Type().Elem()), byVal: op.byVal}
				c.pv.Elem().Set(op.pv.Elem())
				deepPtrs(c.pv.Elem())
				v, in := mk(), c.form()
				x.Solo(func() { op.want = call(v, in) })
				op.final = text(Snap(in))
			} else {
				x.Solo(func() { op.want = call(vm, op.m) })
				op.final = text(Snap(op.obj))
			}
			x.Logf("%s of type %s: %s", clip(text(op.m)), op.pv.Type().Elem(), op.want)
			x.Probe(op.want.verdict())
		}
	}
	simrt.ResetAll()
	v := mk()
	if x.Chance(1, 25) {
		// a process that has seen very many types before
		n := []int{70, 140, 300, 600, 1100}[x.Int(5)]
		from, vw := x.Int(1<<14), mk()
		x.Probe("runs-after-many-types")
		x.Logf("%d other types come first", n)
		x.Solo(func() {
			for i := 0; i < n; i++ {
				call(vw, reflect.New(poolType((from+i)&(1<<14-1))).Interface())
			}
		})
	}
	var fns []func()
	for _, ops := range tasks {
		ops := ops
		fns = append(fns, func() {
			for _, op := range ops {
				op.res = call(v, op.obj)
				op.done = true
			}
		})
	}
	x.Sim(fns...)
	check := func(when string) {
		for t, ops := range tasks {
			for i, op := range ops {
				at := fmt.Sprintf("%s: goroutine %d call %d, %s of type %s", when, t, i, clip(text(op.m)), clip(op.pv.Type().Elem().String()+fieldsOf(op.pv.Type().Elem())))
				note(op.res.verdict())
				if !op.done {
					x.Failnow("lost", "%s: did not complete", at)
				}
				if op.res.verdict() != op.want.verdict() {
					x.Failnow("verdict", "%s: %s, expected %s", at, op.res, op.want)
				}
				if got := text(Snap(op.obj)); op.res.OK && got != op.final {
					x.Failnow("input", "%s: is %s afterwards, expected %s", at, clip(got), clip(op.final))
				}
			}
		}
	}
	check("first use")
	if !defs {
		x.SoloOrd(func() {
			for _, ops := range tasks {
				for _, op := range ops {
					op.res = call(v, op.obj)
				}
			}
		})
		check("later")
	}
	x.CheckLocks()
}

func (op *c13op) form() interface{} {
	if op.byVal {
		return op.pv.Elem().Interface()
	}
	return op.pv.Interface()
}

// deepPtrs gives a copied struct its own pointed-to structs.
func deepPtrs(rv reflect.Value) {
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Type().Field(i)
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		fv := rv.Field(i)
		switch {
		case f.Type.Kind() == reflect.Ptr && !fv.IsNil():
			p := reflect.New(f.Type.Elem())
			p.Elem().Set(fv.Elem())
			deepPtrs(p.Elem())
			fv.Set(p)
		case f.Type.Kind() == reflect.Struct && !reflect.PtrTo(f.Type).Implements(maybeT):
			deepPtrs(fv)
		}
	}
}

func fieldsOf(t reflect.Type) string {
	vs, _ := visible13(t)
	var l []string
	for _, v := range vs {
		l = append(l, fmt.Sprintf("%s=%s", v.prop, t.FieldByIndex(v.idx).Name))
	}
	return "{" + strings.Join(l, " ") + "}"
}
