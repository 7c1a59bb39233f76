package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"verif.local/simkit/simrt"
)

func init() {
	register("C15", runC15)
	docs["C15"] = propDoc{
		Rule:   "Each run draws 1-3 JSON schemas, some with dangling references or references to something that is no schema, decodes each once and lets 1-5 goroutines build validators from the shared schema objects (the whole schema or one of its definitions, with the right, another or no context document) with one shared builder or their own, use the validators, print them and change them afterwards; then a schema (with lists that have spare capacity) is changed in place and built again; owners also add dependencies to their validators; schemas and documents are edited in place while and after validators built before are used.",
		Oracle: "Whether each build succeeds, the verdicts of its validator on a set of inputs, its number of references and the generated code equal those of the same build alone on freshly decoded copies; schema objects and context documents are unchanged at the end; validators built before a schema was edited stay as they were.",
	}
}

// dumpValue renders the exported contents of a value.
func dumpValue(b *strings.Builder, rv reflect.Value, d int) {
	if !rv.IsValid() || d > 50 {
		b.WriteString("nil")
		return
	}
	if rx, ok := rv.Interface().(*regexp.Regexp); ok {
		if rx != nil {
			fmt.Fprintf(b, "/%s/", rx)
		}
		return
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpValue(b, rv.Elem(), d+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).PkgPath != "" || rv.Field(i).IsZero() {
				continue
			}
			b.WriteString(rv.Type().Field(i).Name + ":")
			dumpValue(b, rv.Field(i), d+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Map:
		var l []string
		for _, k := range rv.MapKeys() {
			var e strings.Builder
			dumpValue(&e, k, d+1)
			e.WriteString(":")
			dumpValue(&e, rv.MapIndex(k), d+1)
			l = append(l, e.String())
		}
		sort.Strings(l)
		b.WriteString("map[" + strings.Join(l, " ") + "]")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < rv.Len(); i++ {
			dumpValue(b, rv.Index(i), d+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%#v", rv.Interface())
	}
}

func dump(v interface{}) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v), 0)
	return b.String()
}

// src15 is one decoded schema.
type src15 struct {
	raw    []byte
	sc     *schema.Schema
	doc    map[string]interface{}
	before string
	docB   string
	ins    []interface{}
	damage int // which definition of the document is not a schema
}

func (s *src15) decode() (*schema.Schema, map[string]interface{}) {
	sc, err := schema.Read(bytes.NewReader(s.raw))
	if err != nil {
		panic(abortHarness(fmt.Sprintf("cannot decode %s: %v", s.raw, err)))
	}
	var m map[string]interface{}
	if err := json.Unmarshal(s.raw, &m); err != nil {
		panic(abortHarness(err.Error()))
	}
	if defs, ok := m["definitions"].(map[string]interface{}); ok && s.damage > 0 && len(defs) > 0 {
		defs[sortedKeys(defs)[s.damage%len(defs)]] = "not a schema"
	}
	return sc, m
}

// job15 is a kind of build: which schema, which part, which context.
type job15 struct {
	src  int
	part string // a definition, or the root
	ctx  int    // index of the document; -1 none
	own  bool   // Build instead of BuildWithCtx
	ref  *res15
	ins  []interface{} // when they are others than those of the schema
}

func (j *job15) String() string {
	return fmt.Sprintf("schema %d part %q document %d", j.src, j.part, j.ctx)
}

type res15 struct {
	o        Outcome
	verdicts []Outcome
	finals   []string
	refs     int
	code     []byte
	gen      Outcome
	v        *jsval.JSVal // when it was changed, and its dependencies then
	deps     string
	kept     *jsval.JSVal // when it was not
}

// deps15 lists the dependencies of the objects of a validator.
func deps15(v *jsval.JSVal) string {
	var b strings.Builder
	each := func(c jsval.Constraint) {
		if t, ok := c.(*jsval.ObjectConstraint); ok {
			for _, n := range propNames {
				fmt.Fprintf(&b, "%v", t.GetPropDependencies(n))
			}
		}
	}
	each(v.Root())
	for i := 0; i < 4; i++ {
		if c, err := v.GetReference(fmt.Sprintf("#/definitions/d%d", i)); err == nil {
			each(c)
		}
	}
	return b.String()
}

// roomy gives the lists of a schema room for more, as lists have that were
// put together step by step.
func roomy(sc *schema.Schema, d int) {
	if sc == nil || d > 30 {
		return
	}
	room := func(l []string) []string {
		if l == nil {
			return nil
		}
		return append(make([]string, 0, len(l)+3), l...)
	}
	sc.Required = room(sc.Required)
	for k, l := range sc.Dependencies.Names {
		sc.Dependencies.Names[k] = room(l)
	}
	if sc.Enum != nil {
		sc.Enum = append(make([]interface{}, 0, len(sc.Enum)+3), sc.Enum...)
	}
	if sc.Type != nil {
		sc.Type = append(make(schema.PrimitiveTypes, 0, len(sc.Type)+3), sc.Type...)
	}
	for _, l := range []*schema.SchemaList{&sc.AllOf, &sc.AnyOf, &sc.OneOf} {
		if *l != nil {
			*l = append(make(schema.SchemaList, 0, len(*l)+3), *l...)
			for _, e := range *l {
				roomy(e, d+1)
			}
		}
	}
	for _, e := range sc.Properties {
		roomy(e, d+1)
	}
	for _, e := range sc.PatternProperties {
		roomy(e, d+1)
	}
	for _, e := range sc.Definitions {
		roomy(e, d+1)
	}
	for _, e := range sc.Dependencies.Schemas {
		roomy(e, d+1)
	}
	if sc.AdditionalProperties != nil {
		roomy(sc.AdditionalProperties.Schema, d+1)
	}
	if sc.Items != nil {
		for _, e := range sc.Items.Schemas {
			roomy(e, d+1)
		}
	}
}

// spoil15 is what an owner may do to his validator.
func spoil15(v *jsval.JSVal, token string) {
	v.SetName("Spoiled")
	hit := func(c jsval.Constraint) {
		switch t := c.(type) {
		case *jsval.ObjectConstraint:
			for _, n := range propNames {
				if len(t.GetPropDependencies(n)) > 0 {
					t.PropDependency(n, token)
				}
			}
			t.Required("spoiled").AddProp("spoiled", jsval.Boolean()).MaxProperties(0).AdditionalProperties(nil)
		case *jsval.ArrayConstraint:
			t.MinItems(50).Items(jsval.NullConstraint)
		case *jsval.StringConstraint:
			t.MinLength(99).Default("spoiled")
		case *jsval.IntegerConstraint:
			t.Minimum(1e9).Default(7)
		case *jsval.NumberConstraint:
			t.Minimum(1e9).Default(7)
		case *jsval.BooleanConstraint:
			t.Default(true)
		case *jsval.AllConstraint:
			t.Add(jsval.NullConstraint)
		case *jsval.AnyConstraint:
			t.Add(jsval.EmptyConstraint)
		case *jsval.OneOfConstraint:
			t.Add(jsval.EmptyConstraint).Add(jsval.EmptyConstraint)
		}
	}
	hit(v.Root())
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("#/definitions/d%d", i)
		if c, err := v.GetReference(n); err == nil {
			hit(c)
			if i%2 == 0 {
				v.SetReference(n, jsval.NullConstraint)
			}
		}
	}
	v.SetReference("#/spoiled", jsval.NullConstraint)
}

// edit15 changes a schema where it lies, down to the last list.
func edit15(sc *schema.Schema, d int) {
	if sc == nil || d > 30 {
		return
	}
	for i := range sc.Required {
		sc.Required[i] = "edited"
	}
	for _, l := range sc.Dependencies.Names {
		for i := range l {
			l[i] = "edited"
		}
	}
	for i := range sc.Enum {
		sc.Enum[i] = "edited"
	}
	for i := range sc.Type {
		sc.Type[i] = schema.NullType
	}
	for _, l := range []schema.SchemaList{sc.AllOf, sc.AnyOf, sc.OneOf} {
		for _, e := range l {
			edit15(e, d+1)
		}
	}
	for _, m := range []map[string]*schema.Schema{sc.Properties, sc.Definitions, sc.Dependencies.Schemas} {
		for _, e := range m {
			edit15(e, d+1)
		}
	}
	for _, e := range sc.PatternProperties {
		edit15(e, d+1)
	}
	if sc.AdditionalProperties != nil {
		edit15(sc.AdditionalProperties.Schema, d+1)
	}
	if sc.AdditionalItems != nil {
		edit15(sc.AdditionalItems.Schema, d+1)
	}
	if sc.Items != nil {
		for _, e := range sc.Items.Schemas {
			edit15(e, d+1)
		}
	}
	edit15(sc.Not, d+1)
	sc.MinLength.Initialized, sc.MinLength.Val = true, 40
	editDoc15(sc.Default)
	sc.Reference, sc.Default = "", "edited"
	for n := range sc.Properties {
		sc.Properties[n] = schema.New()
	}
}

// editDoc15 does the same to a decoded document.
func editDoc15(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		for k, e := range t {
			t[k] = editDoc15(e)
		}
		return t
	case []interface{}:
		for i, e := range t {
			t[i] = editDoc15(e)
		}
		return t
	case string:
		return "edited"
	}
	return v
}

// walk15 visits the schemas of a tree, always in the same order.
func walk15(sc *schema.Schema, visit func(*schema.Schema), d int) {
	if sc == nil || d > 30 {
		return
	}
	visit(sc)
	for _, l := range []schema.SchemaList{sc.AllOf, sc.AnyOf, sc.OneOf} {
		for _, e := range l {
			walk15(e, visit, d+1)
		}
	}
	for _, m := range []map[string]*schema.Schema{sc.Properties, sc.Definitions, sc.Dependencies.Schemas} {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			walk15(m[k], visit, d+1)
		}
	}
	var rxs []*regexp.Regexp
	for rx := range sc.PatternProperties {
		rxs = append(rxs, rx)
	}
	sort.Slice(rxs, func(i, j int) bool { return rxs[i].String() < rxs[j].String() })
	for _, rx := range rxs {
		walk15(sc.PatternProperties[rx], visit, d+1)
	}
	if sc.AdditionalProperties != nil {
		walk15(sc.AdditionalProperties.Schema, visit, d+1)
	}
	if sc.AdditionalItems != nil {
		walk15(sc.AdditionalItems.Schema, visit, d+1)
	}
	if sc.Items != nil {
		for _, e := range sc.Items.Schemas {
			walk15(e, visit, d+1)
		}
	}
	walk15(sc.Not, visit, d+1)
}

// tweak15 is one small change to a schema or to a document, at the place-th schema of the tree.
type tweak15 struct{ place, kind, val int }

func (t tweak15) schema(sc *schema.Schema) {
	var l []*schema.Schema
	walk15(sc, func(s *schema.Schema) { l = append(l, s) }, 0)
	s := l[t.place%len(l)]
	flip := func(b *bool, v *int, n int) { *b, *v = !*b || *v != n, n }
	switch t.kind {
	case 0:
		s.Type = nil
		s.MinLength.Initialized, s.MinLength.Val = true, t.val
		s.Minimum.Initialized, s.Minimum.Val = true, float64(t.val)
	case 1:
		flip(&s.MinLength.Initialized, &s.MinLength.Val, t.val)
	case 2:
		s.Minimum.Initialized = !s.Minimum.Initialized
	case 3:
		s.Maximum.Initialized, s.Maximum.Val = !s.Maximum.Initialized, float64(t.val)
	case 4:
		s.Type = nil
	case 5:
		s.Type = schema.PrimitiveTypes{[]schema.PrimitiveType{schema.StringType, schema.IntegerType, schema.NumberType, schema.ObjectType, schema.ArrayType, schema.BooleanType}[t.val%6]}
	case 6:
		if s.Required == nil {
			s.Required = []string{propNames[t.val%len(propNames)]}
		} else {
			s.Required = nil
		}
	case 7:
		s.Enum = nil
	case 8:
		if len(s.Enum) > 0 {
			s.Enum[t.val%len(s.Enum)] = "edited"
		} else {
			s.Enum = []interface{}{"edited", "v1"}
		}
	case 9:
		if s.Properties == nil {
			s.Properties = map[string]*schema.Schema{}
		}
		e := schema.New()
		e.Type = schema.PrimitiveTypes{schema.IntegerType}
		s.Properties[propNames[t.val%len(propNames)]] = e
	case 10:
		var names []string
		for k := range s.Properties {
			names = append(names, k)
		}
		sort.Strings(names)
		if len(names) > 0 {
			delete(s.Properties, names[t.val%len(names)])
		}
	case 11:
		flip(&s.MaxProperties.Initialized, &s.MaxProperties.Val, t.val)
	case 12:
		s.AllOf, s.AnyOf, s.OneOf, s.Not = nil, nil, nil, nil
	case 13:
		if m, ok := s.Default.(map[string]interface{}); ok {
			m["edited"] = float64(t.val)
		} else {
			s.Default = map[string]interface{}{"made": float64(t.val)}
		}
	case 14:
		s.Default = fmt.Sprint("d", t.val)
	case 15:
		flip(&s.MinItems.Initialized, &s.MinItems.Val, t.val)
	case 16:
		s.Items = nil
	case 17:
		if s.Pattern != nil {
			s.Pattern = nil
		} else {
			s.Pattern = regexp.MustCompile(fmt.Sprintf("^.{%d}", t.val))
		}
	case 18:
		if s.AdditionalProperties != nil {
			s.AdditionalProperties = nil
		} else {
			s.AdditionalProperties = &schema.AdditionalProperties{}
		}
	}
}

const tweaks15 = 19

// doc makes a change of the same kind to the decoded document.
func (t tweak15) doc(v interface{}) {
	var l []map[string]interface{}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch n := v.(type) {
		case map[string]interface{}:
			l = append(l, n)
			for _, k := range sortedKeys(n) {
				walk(n[k])
			}
		case []interface{}:
			for _, e := range n {
				walk(e)
			}
		}
	}
	walk(v)
	m := l[t.place%len(l)]
	if _, ok := m["type"]; !ok {
		return // the changes below are for schemas
	}
	if _, ok := m["type"].(map[string]interface{}); ok {
		return // a property of this name
	}
	switch t.kind % 6 {
	case 0:
		m["minLength"], m["minimum"] = float64(t.val), float64(t.val)
	case 1:
		delete(m, "minLength")
		delete(m, "minimum")
	case 2:
		m["type"] = []string{"string", "integer", "boolean", "number"}[t.val%4]
	case 3:
		delete(m, "enum")
	case 4:
		if d, ok := m["default"].(map[string]interface{}); ok {
			d["edited"] = float64(t.val)
		} else {
			m["default"] = map[string]interface{}{"made": float64(t.val)}
		}
	case 5:
		m["default"] = fmt.Sprint("d", t.val)
	}
}

func (j *job15) run(b *builder.Builder, sc *schema.Schema, doc interface{}, ins []interface{}, spoil string) *res15 {
	r := &res15{}
	if j.part != "" {
		sc = sc.Definitions[j.part]
	}
	var v *jsval.JSVal
	r.o = doErr(func() (err error) {
		if j.own {
			v, err = b.Build(sc)
		} else {
			v, err = b.BuildWithCtx(sc, doc)
		}
		return err
	})
	if !r.o.OK {
		return r
	}
	if v == nil {
		r.o = Outcome{Err: "no validator"}
		return r
	}
	r.refs = v.Len()
	for _, in := range ins {
		c := clone(in)
		o := call(v, c)
		r.verdicts = append(r.verdicts, o)
		if o.OK {
			r.finals = append(r.finals, text(c))
		} else {
			r.finals = append(r.finals, "")
		}
	}
	r.code, r.gen = generate(v)
	if spoil != "" {
		spoil15(v, spoil)
		r.v, r.deps = v, deps15(v)
	} else {
		r.kept = v
	}
	return r
}

func runC15(x *Ctx) {
	var srcs []*src15
	for n := x.Range(1, 3); n > 0; n-- {
		o := stdOpt
		o.NumEnum = false
		o.NoEnum = x.Bool()
		o.Depth, o.Width = 2, 4
		if x.Bool() {
			o = printOpt
			o.Depth, o.Width = 2, 4
		}
		if x.Chance(1, 8) {
			o.Depth, o.Width = 3, 6
		}
		s := GenSpec(x, o)
		if x.Chance(1, 6) {
			s.crossRefs(x)
		}
		src := &src15{}
		base := s.Value(x, s.Root, 0)
		src.ins = append(src.ins, base)
		for i := x.Int(4); i > 0; i-- {
			src.ins = append(src.ins, s.Mutate(x, src.ins[x.Int(len(src.ins))]))
		}
		if x.Chance(1, 5) {
			s.dangle(x)
		}
		s.decorate(x)
		src.raw = permJSON(x, s.Doc())
		if x.Chance(1, 6) {
			src.damage = 1 + x.Int(8)
		}
		src.sc, src.doc = src.decode()
		if x.Bool() {
			roomy(src.sc, 0)
		}
		src.before, src.docB = dump(src.sc), dump(src.doc)
		x.Logf("schema %d %s", len(srcs), clip(string(src.raw)))
		srcs = append(srcs, src)
	}
	var jobs []*job15
	for n := x.Range(1, 5); n > 0; n-- {
		j := &job15{src: x.Int(len(srcs))}
		j.ctx = j.src
		src := srcs[j.src]
		if len(src.sc.Definitions) > 0 && x.Chance(1, 3) {
			var l []string
			for k := range src.sc.Definitions {
				l = append(l, k)
			}
			sort.Strings(l)
			j.part = x.Pick(l)
		}
		switch x.Int(8) {
		case 0:
			j.ctx = x.Int(len(srcs))
		case 1:
			j.ctx = -1
			j.own = x.Bool()
		}
		sc, doc := src.decode()
		var ctx interface{}
		if j.ctx >= 0 {
			if j.ctx != j.src {
				_, doc = srcs[j.ctx].decode()
			}
			ctx = doc
		}
		simrt.ResetAll()
		x.Solo(func() { j.ref = j.run(builder.New(), sc, ctx, src.ins, "") })
		x.Logf("%s alone: %s, %d references, code %s", j, j.ref.o, j.ref.refs, j.ref.gen)
		x.Probe("build-" + j.ref.o.verdict())
		if j.ref.gen.OK {
			x.Probe("printed")
		}
		jobs = append(jobs, j)
	}
	type op struct {
		j    *job15
		own  bool
		bad  bool // the validator is changed after it was used
		res  *res15
		done bool
	}
	simrt.ResetAll()
	shared := builder.New()
	tasks := make([][]*op, x.Crowd(1, 5))
	var fns []func()
	for t := range tasks {
		for i := x.Range(1, 3); i > 0; i-- {
			tasks[t] = append(tasks[t], &op{j: jobs[x.Int(len(jobs))], own: x.Chance(1, 4), bad: x.Chance(1, 3)})
		}
		t, ops := t, tasks[t]
		fns = append(fns, func() {
			for i, o := range ops {
				b := shared
				if o.own {
					b = builder.New()
				}
				src := srcs[o.j.src]
				var ctx interface{}
				if o.j.ctx >= 0 {
					ctx = srcs[o.j.ctx].doc
				}
				token := ""
				if o.bad {
					token = fmt.Sprintf("spoiled%d-%d", t, i)
				}
				o.res = o.j.run(b, src.sc, ctx, src.ins, token)
				o.done = true
			}
		})
	}
	x.Sim(fns...)
	check := func(tasks [][]*op, when string) {
		for t, ops := range tasks {
			for i, o := range ops {
				at := when + fmt.Sprintf("goroutine %d build %d, %s", t, i, o.j)
				if !o.done {
					x.Failnow("lost", "%s: did not complete", at)
				}
				r, w := o.res, o.j.ref
				note(r.o.verdict())
				if r.o.verdict() != w.o.verdict() {
					x.Failnow("build", "%s: %s, alone: %s", at, r.o, w.o)
				}
				if !r.o.OK {
					x.FaultHit("failing-build")
					continue
				}
				if r.v != nil {
					x.Probe("changed validators")
					if now := deps15(r.v); now != r.deps {
						x.Failnow("changed", "%s: the owner left dependencies %s, now they are %s", at, r.deps, now)
					}
				}
				if r.refs != w.refs {
					x.Failnow("references", "%s: %d references, alone: %d", at, r.refs, w.refs)
				}
				for k := range w.verdicts {
					if r.verdicts[k].verdict() != w.verdicts[k].verdict() || r.finals[k] != w.finals[k] {
						x.Failnow("verdict", "%s, input %s: %s %s, alone: %s %s", at, clip(text(srcs[o.j.src].ins[k])), r.verdicts[k], clip(r.finals[k]), w.verdicts[k], clip(w.finals[k]))
					}
				}
				if r.gen.OK != w.gen.OK {
					x.Failnow("code", "%s: generating: %s, alone: %s", at, r.gen, w.gen)
				}
				if r.gen.OK && !bytes.Equal(r.code, w.code) {
					x.Failnow("code", "%s: other code: %s", at, diffAt(r.code, w.code))
				}
			}
		}
	}
	unchanged := func() {
		for i, src := range srcs {
			if d := dump(src.sc); d != src.before {
				x.Failnow("schema", "schema %d was changed: %s", i, diffAt([]byte(d), []byte(src.before)))
			}
			if d := dump(src.doc); d != src.docB {
				x.Failnow("document", "document %d was changed: %s", i, diffAt([]byte(d), []byte(src.docB)))
			}
		}
	}
	check(tasks, "")
	unchanged()
	x.CheckLocks()

	// the owner of a schema changes it and builds again
	if !x.Chance(1, 3) {
		return
	}
	x.Probe("changed schemas")
	k := x.Int(len(srcs))
	src := srcs[k]
	// validators that were built before stay what they are
	again := func() {
		for t, ops := range tasks {
			for i, o := range ops {
				if o.res.kept == nil {
					continue
				}
				w := o.j.ref
				at := fmt.Sprintf("the schema was changed after goroutine %d build %d, %s", t, i, o.j)
				ins := srcs[o.j.src].ins
				if o.j.ins != nil {
					ins = o.j.ins
				}
				for k, in := range ins {
					c := clone(in)
					r := call(o.res.kept, c)
					if r.verdict() != w.verdicts[k].verdict() || r.OK && text(c) != w.finals[k] {
						x.Fail("kept", "%s, input %s: %s %s, before: %s %s", at, clip(text(in)), r, clip(text(c)), w.verdicts[k], clip(w.finals[k]))
						return
					}
				}
				if code, r := generate(o.res.kept); r.OK != w.gen.OK || r.OK && !bytes.Equal(code, w.code) {
					x.Fail("kept", "%s: other code: %s %s", at, r, diffAt(code, w.code))
					return
				}
			}
		}
	}
	if x.Chance(1, 2) { // step by step
		x.Probe("schemas edited step by step")
		var hist []tweak15
		var docs []bool
		at, kind := x.Int(40), x.Int(tweaks15)
		for n := x.Range(1, 6); n > 0; n-- {
			for m := x.Range(1, 2); m > 0; m-- {
				if x.Chance(1, 3) {
					at = x.Int(40)
				}
				if x.Bool() {
					kind = x.Int(tweaks15)
				}
				tw, inDoc := tweak15{at, kind, x.Int(4)}, x.Chance(1, 3)
				hist, docs = append(hist, tw), append(docs, inDoc)
				if inDoc {
					tw.doc(src.doc)
				} else {
					tw.schema(src.sc)
				}
				x.Logf("schema %d: change %+v (document: %v)", k, tw, inDoc)
			}
			src.before, src.docB = dump(src.sc), dump(src.doc)
			x.Solo(again)
			x.Check()
			j := &job15{src: k, ctx: k}
			if x.Chance(1, 6) {
				j.ctx, j.own = -1, x.Bool()
			}
			fresh, freshDoc := src.decode()
			for i, tw := range hist {
				if docs[i] {
					tw.doc(freshDoc)
				} else {
					tw.schema(fresh)
				}
			}
			var ctx, liveCtx interface{}
			if j.ctx >= 0 {
				ctx, liveCtx = freshDoc, src.doc
			}
			ins := append([]interface{}{float64(x.Int(5)), "v1"}, src.ins...)
			x.Solo(func() { j.ref = j.run(builder.New(), fresh, ctx, ins, "") })
			was := src.ins
			src.ins = ins
			late := [][]*op{{{j: j, done: true}}}
			x.Solo(func() { late[0][0].res = j.run(shared, src.sc, liveCtx, ins, "") })
			check(late, fmt.Sprintf("after %d changes, ", len(hist)))
			unchanged()
			src.ins = was
			if late[0][0].res.kept != nil {
				j.ins = ins
				tasks = append(tasks, late[0])
			}
		}
		x.CheckLocks()
		return
	}
	if x.Bool() {
		x.Probe("schemas edited in place")
		edit := func() {
			edit15(src.sc, 0)
			editDoc15(src.doc)
		}
		if x.Bool() {
			x.Sim(edit, again)
			x.Check()
		} else {
			edit()
		}
	}
	s := GenSpec(x, printOpt)
	src.raw, src.damage = permJSON(x, s.Doc()), 0
	x.Logf("schema %d is changed to %s", k, clip(string(src.raw)))
	sc, doc := src.decode()
	*src.sc = *sc
	for n := range src.doc {
		delete(src.doc, n)
	}
	for n, e := range doc {
		src.doc[n] = e
	}
	src.before, src.docB = dump(src.sc), dump(src.doc)
	x.Solo(again)
	x.Check()
	src.ins = []interface{}{s.Value(x, s.Root, 0)}
	src.ins = append(src.ins, s.Mutate(x, src.ins[0]))
	j := &job15{src: k, ctx: k}
	if x.Chance(1, 6) {
		j.ctx, j.own = -1, x.Bool()
	}
	fresh, freshDoc := src.decode()
	var ctx, liveCtx interface{}
	if j.ctx >= 0 {
		ctx, liveCtx = freshDoc, src.doc
	}
	x.Solo(func() { j.ref = j.run(builder.New(), fresh, ctx, src.ins, "") })
	late := [][]*op{{{j: j}}, {{j: j, own: true}}}
	x.Sim(func() {
		late[0][0].res = j.run(shared, src.sc, liveCtx, src.ins, "")
		late[0][0].done = true
	}, func() {
		late[1][0].res = j.run(builder.New(), src.sc, liveCtx, src.ins, "")
		late[1][0].done = true
	})
	check(late, "after the change, ")
	unchanged()
	x.CheckLocks()
}
