package main

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

// Inputs are generated as canonical JSON-like trees and then realised as Go
// values: maps, pointers to structs with plain and optional fields, or objects
// with property accessors.

// accStore is the state behind an accessor object.
type accStore struct {
	names   []string
	vals    []interface{}
	onGet   func(name string)
	onNames func()
	onSet   func(name string) error
	missErr bool // an absent property is reported as an error
	sets    int
}

func (a *accStore) idx(n string) int {
	for i, s := range a.names {
		if s == n {
			return i
		}
	}
	return -1
}

// acc is an object with property accessors.
type acc struct{ st *accStore }

func (a acc) GetPropNames() ([]string, error) {
	simrt.YS()
	if a.st.onNames != nil {
		a.st.onNames()
	}
	return append([]string(nil), a.st.names...), nil
}

func (a acc) GetPropValue(n string) (interface{}, error) {
	simrt.YS()
	if a.st.onGet != nil {
		a.st.onGet(n)
	}
	if i := a.st.idx(n); i >= 0 {
		return a.st.vals[i], nil
	}
	if a.st.missErr {
		return nil, errors.New("no such property")
	}
	return nil, nil
}

func (a acc) SetPropValue(n string, v interface{}) error {
	simrt.YS()
	if a.st.onSet != nil {
		if err := a.st.onSet(n); err != nil {
			return err
		}
	}
	a.st.sets++
	if i := a.st.idx(n); i >= 0 {
		a.st.vals[i] = v
		return nil
	}
	a.st.names = append(a.st.names, n)
	a.st.vals = append(a.st.vals, v)
	return nil
}

// formOpt limits the forms.
type formOpt struct {
	Structs bool
	Accs    bool
	ByValue bool // structs may also be passed by value (nothing to fill)
	Embed   bool
	Typed   bool // other Go types for the same JSON value
}

type (
	namedStr string
	namedMap map[string]interface{}
	namedInt int32
)

// typed gives a scalar another Go type.
func (s *Spec) typed(x *Ctx, n *Node, v interface{}) interface{} {
	if n == nil {
		return v
	}
	switch t := v.(type) {
	case string:
		if n.K != KStr {
			return v
		}
		switch x.Int(5) {
		case 1:
			return namedStr(t)
		case 2:
			return &t
		}
	case float64:
		if n.K == KNum {
			switch x.Int(5) {
			case 1:
				if f := float32(t); float64(f) == t {
					return f
				}
			case 2:
				return &t
			}
		}
		if n.K != KInt || t != float64(int8(t)) {
			return v
		}
		switch x.Int(12) {
		case 1:
			return int(t)
		case 2:
			return int8(t)
		case 3:
			return int16(t)
		case 4:
			return namedInt(t)
		case 5:
			return int64(t)
		case 6:
			return float32(t)
		case 7:
			i := int(t)
			return &i
		}
		if t < 0 {
			return v
		}
		switch x.Int(6) {
		case 1:
			return uint(t)
		case 2:
			return uint8(t)
		case 3:
			return uint32(t)
		case 4:
			return uint64(t)
		}
	}
	return v
}

// typedList gives a list of scalars of one kind a concrete element type.
func typedList(x *Ctx, n *Node, l []interface{}) interface{} {
	if len(l) == 0 || n == nil || n.K != KArr || n.Items == nil {
		return nil
	}
	var strs []string
	var ints []int64
	var nums []float64
	for _, e := range l {
		switch t := e.(type) {
		case string:
			strs = append(strs, t)
		case float64:
			nums = append(nums, t)
			if t == float64(int64(t)) {
				ints = append(ints, int64(t))
			}
		}
	}
	switch {
	case n.Items.K == KStr && len(strs) == len(l):
		return strs
	case n.Items.K == KInt && len(ints) == len(l):
		return ints
	case n.Items.K == KNum && len(nums) == len(l):
		return nums
	}
	return nil
}

// typedMap gives an object of scalars of one kind a concrete element type.
func typedMap(x *Ctx, n *Node, m map[string]interface{}) interface{} {
	strs := map[string]string{}
	nums := map[string]float64{}
	for k, e := range m {
		switch t := e.(type) {
		case string:
			strs[k] = t
		case float64:
			nums[k] = t
		}
	}
	switch {
	case len(m) == 0:
	case len(strs) == len(m):
		return strs
	case len(nums) == len(m):
		return nums
	}
	return nil
}

var (
	tIface  = reflect.TypeOf((*interface{})(nil)).Elem()
	tString = reflect.TypeOf("")
	tFloat  = reflect.TypeOf(float64(0))
	tInt    = reflect.TypeOf(int64(0))
	tBool   = reflect.TypeOf(false)
	tMS     = reflect.TypeOf(jsval.MaybeString{})
	tMF     = reflect.TypeOf(jsval.MaybeFloat{})
	tMI     = reflect.TypeOf(jsval.MaybeInt{})
	tMB     = reflect.TypeOf(jsval.MaybeBool{})
)

// RealiseAs is Realise with the forms fixed by a number; 0 means maps only.
func (s *Spec) RealiseAs(form uint64, v interface{}, fo formOpt) interface{} {
	if form == 0 {
		fo = formOpt{}
	}
	return s.Realise(&Ctx{W: simrt.NewGen(simrt.Mix(form))}, s.Root, v, fo)
}

// Realise turns a canonical value into Go values.
func (s *Spec) Realise(x *Ctx, n *Node, v interface{}, fo formOpt) interface{} {
	n = s.resolve(n)
	switch t := v.(type) {
	case []interface{}:
		if fo.Typed && x.Chance(1, 3) {
			if r := typedList(x, n, t); r != nil {
				return r
			}
		}
		l := make([]interface{}, len(t))
		for i, e := range t {
			var c *Node
			if n != nil && n.K == KArr {
				if n.Items != nil {
					c = n.Items
				} else if i < len(n.Pos) {
					c = n.Pos[i]
				}
			}
			l[i] = s.Realise(x, c, e, fo)
		}
		return l
	case map[string]interface{}:
		if n != nil && (n.K == KAll || n.K == KAny || n.K == KOne) && fo.Accs && !hasNil(t) && x.Chance(1, 4) {
			st := &accStore{missErr: x.Bool()}
			for _, nm := range sortedKeys(t) {
				st.names = append(st.names, nm)
				st.vals = append(st.vals, clone(t[nm]))
			}
			return &acc{st}
		}
		if n == nil || n.K != KObj {
			return clone(v)
		}
		k := x.Int(4)
		switch {
		case k == 1 && fo.Structs:
			return s.realStruct(x, n, t, fo)
		case k == 2 && fo.Accs && !hasNil(t):
			st := &accStore{missErr: x.Bool()}
			for _, nm := range sortedKeys(t) {
				st.names = append(st.names, nm)
				st.vals = append(st.vals, s.Realise(x, propNode(s, n, nm), t[nm], fo))
			}
			if x.Bool() {
				return &acc{st}
			}
			return acc{st}
		}
		if fo.Typed && x.Chance(1, 4) {
			if r := typedMap(x, n, t); r != nil {
				return r
			}
		}
		m := make(map[string]interface{}, len(t))
		for _, nm := range sortedKeys(t) {
			m[nm] = s.Realise(x, propNode(s, n, nm), t[nm], fo)
		}
		if fo.Typed {
			switch x.Int(6) {
			case 1:
				return namedMap(m)
			case 2:
				return &m
			}
		}
		return m
	}
	if fo.Typed && x.Bool() {
		return s.typed(x, n, v)
	}
	return v
}

// hasNil: an accessor cannot tell a null property from an absent one.
func hasNil(m map[string]interface{}) bool {
	for _, e := range m {
		if e == nil {
			return true
		}
	}
	return false
}

func propNode(s *Spec, n *Node, nm string) *Node {
	for _, p := range n.Props {
		if p.Name == nm {
			return p.N
		}
	}
	for _, p := range n.Pats {
		if s.re(p.Name).MatchString(nm) {
			return nil
		}
	}
	if n.Add == 2 {
		return n.AddN
	}
	return nil
}

func propField(i int, nm string) string { return fmt.Sprintf("F%d%s", i, strings.ToUpper(nm)) }

// realStruct makes a pointer to a struct whose properties are the map's.
func (s *Spec) realStruct(x *Ctx, n *Node, m map[string]interface{}, fo formOpt) interface{} {
	type fld struct {
		sf  reflect.StructField
		val reflect.Value // zero: leave unset
		set interface{}   // through Set of a Maybe
	}
	var fs []fld
	add := func(nm string, t reflect.Type, val reflect.Value, set interface{}) {
		tag := nm
		switch x.Int(4) {
		case 0:
			tag += ",omitempty"
		}
		fs = append(fs, fld{reflect.StructField{Name: propField(len(fs), nm), Type: t, Tag: reflect.StructTag(`json:"` + tag + `"`)}, val, set})
	}
	for _, nm := range sortedKeys(m) {
		pn := s.resolve(propNode(s, n, nm))
		maybe := x.Bool()
		if fo.Typed && x.Chance(1, 3) {
			switch r := s.typed(x, pn, m[nm]).(type) {
			case nil, []interface{}, map[string]interface{}:
			default:
				add(nm, reflect.TypeOf(r), reflect.ValueOf(r), nil)
				continue
			}
		}
		switch t := m[nm].(type) {
		case string:
			if maybe {
				add(nm, tMS, reflect.Value{}, t)
			} else {
				add(nm, tString, reflect.ValueOf(t), nil)
			}
		case float64:
			isInt := pn != nil && pn.K == KInt && t == float64(int64(t))
			switch {
			case isInt && maybe && x.Bool():
				add(nm, tMI, reflect.Value{}, int64(t))
			case isInt && x.Bool():
				add(nm, tInt, reflect.ValueOf(int64(t)), nil)
			case maybe:
				add(nm, tMF, reflect.Value{}, t)
			default:
				add(nm, tFloat, reflect.ValueOf(t), nil)
			}
		case bool:
			if maybe {
				add(nm, tMB, reflect.Value{}, t)
			} else {
				add(nm, tBool, reflect.ValueOf(t), nil)
			}
		case nil:
			add(nm, tIface, reflect.Value{}, nil)
		case []interface{}:
			r := s.Realise(x, pn, t, fo)
			if maybe {
				add(nm, reflect.TypeOf(r), reflect.ValueOf(r), nil)
			} else {
				add(nm, tIface, reflect.ValueOf(r), nil)
			}
		default:
			r := s.Realise(x, pn, t, fo)
			rv := reflect.ValueOf(r)
			if maybe {
				add(nm, rv.Type(), rv, nil)
			} else {
				add(nm, tIface, rv, nil)
			}
		}
	}
	for _, p := range n.Props {
		if _, ok := m[p.Name]; ok {
			continue
		}
		pn := s.resolve(p.N)
		_, hd := s.defaultOf(p.N)
		if !hd && x.Bool() {
			continue
		}
		switch pn.K {
		case KStr:
			add(p.Name, tMS, reflect.Value{}, nil)
		case KInt:
			if x.Bool() {
				add(p.Name, tMI, reflect.Value{}, nil)
			} else {
				add(p.Name, tMF, reflect.Value{}, nil)
			}
		case KNum:
			add(p.Name, tMF, reflect.Value{}, nil)
		case KBool:
			add(p.Name, tMB, reflect.Value{}, nil)
		}
	}
	if x.Chance(1, 5) {
		fs = append(fs, fld{sf: reflect.StructField{Name: "Hidden", Type: tString, Tag: `json:"-"`}, val: reflect.ValueOf("h")})
	}
	// the last fields may live in an embedded struct
	emb := 0
	if fo.Embed && len(fs) > 2 && x.Chance(1, 3) {
		emb = 1 + x.Int(len(fs)-1)
	}
	var sfs []reflect.StructField
	for _, f := range fs[:len(fs)-emb] {
		sfs = append(sfs, f.sf)
	}
	if emb > 0 {
		var es []reflect.StructField
		for _, f := range fs[len(fs)-emb:] {
			es = append(es, f.sf)
		}
		sfs = append(sfs, reflect.StructField{Name: "Emb", Type: reflect.StructOf(es), Anonymous: true})
	}
	pv := reflect.New(reflect.StructOf(sfs))
	for _, f := range fs {
		fv := pv.Elem().FieldByName(f.sf.Name)
		if f.val.IsValid() {
			fv.Set(f.val)
		} else if f.set != nil {
			if err := fv.Addr().Interface().(jsval.Maybe).Set(f.set); err != nil {
				panic(abortHarness("cannot set " + f.sf.Name + ": " + err.Error()))
			}
		}
	}
	if fo.ByValue && x.Chance(1, 3) {
		return pv.Elem().Interface()
	}
	return pv.Interface()
}

var maybeT = reflect.TypeOf((*jsval.Maybe)(nil)).Elem()

// Snap converts a realised input back to the canonical tree.
func Snap(v interface{}) interface{} { return snap(reflect.ValueOf(v), 0) }

func snap(rv reflect.Value, d int) interface{} {
	if d > 60 {
		return "(too deep)"
	}
	if !rv.IsValid() {
		return nil
	}
	switch rv.Kind() {
	case reflect.Interface, reflect.Ptr:
		if rv.IsNil() {
			return nil
		}
		return snap(rv.Elem(), d+1)
	case reflect.Map:
		m := map[string]interface{}{}
		for _, k := range rv.MapKeys() {
			m[fmt.Sprint(k.Interface())] = snap(rv.MapIndex(k), d+1)
		}
		return m
	case reflect.Slice:
		l := make([]interface{}, rv.Len())
		for i := range l {
			l[i] = snap(rv.Index(i), d+1)
		}
		return l
	case reflect.Struct:
		if a, ok := rv.Interface().(acc); ok {
			m := map[string]interface{}{}
			for i, n := range a.st.names {
				m[n] = snap(reflect.ValueOf(a.st.vals[i]), d+1)
			}
			return m
		}
		m := map[string]interface{}{}
		snapFields(rv, m, d)
		return m
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return float64(rv.Uint())
	case reflect.Float32, reflect.Float64:
		return rv.Float()
	case reflect.String:
		return rv.String()
	case reflect.Bool:
		return rv.Bool()
	}
	return fmt.Sprint(rv.Interface())
}

func snapFields(rv reflect.Value, m map[string]interface{}, d int) {
	t := rv.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			snapFields(rv.Field(i), m, d)
			continue
		}
		if f.PkgPath != "" {
			continue
		}
		tag := strings.Split(f.Tag.Get("json"), ",")[0]
		if tag == "-" {
			continue
		}
		if tag == "" {
			tag = f.Name
		}
		fv := rv.Field(i)
		if reflect.PtrTo(f.Type).Implements(maybeT) {
			p := reflect.New(f.Type)
			p.Elem().Set(fv)
			mb := p.Interface().(jsval.Maybe)
			if !mb.Valid() {
				continue
			}
			m[tag] = snap(reflect.ValueOf(mb.Value()), d+1)
			continue
		}
		m[tag] = snap(fv, d+1)
	}
}

// custom is a constraint supplied by the user.
type custom struct {
	hook   func(v interface{}) error // called first
	accept func(v interface{}) bool
	hasDef bool
	def    interface{}
	onDef  func()
}

func (c *custom) model(v interface{}) bool { return c.accept == nil || c.accept(v) }

func (c *custom) Validate(v interface{}) error {
	simrt.YS()
	if c.hook != nil {
		if err := c.hook(v); err != nil {
			return err
		}
	}
	simrt.YS()
	if !c.model(v) {
		return errors.New("custom constraint rejects")
	}
	return nil
}

func (c *custom) HasDefault() bool {
	if c.onDef != nil {
		c.onDef()
	}
	return c.hasDef
}

func (c *custom) DefaultValue() interface{} { return c.def }

// --- verdicts -------------------------------------------------------------------

// Outcome of one call.
type Outcome struct {
	OK    bool
	Err   string
	Panic string
	Exit  bool // the goroutine was ended
	e     error
}

// kept reports how the error reads now, and whether that is how it read when
// it was returned.
func (o Outcome) kept() (string, bool) {
	if o.e == nil {
		return "", true
	}
	t := errText(o.e)
	return t, t == o.Err
}

func (o Outcome) String() string {
	switch {
	case o.Exit:
		return "goroutine ended"
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.OK:
		return "accepted"
	}
	return "rejected (" + o.Err + ")"
}

func (o Outcome) verdict() string {
	switch {
	case o.Exit:
		return "exit"
	case o.Panic != "":
		return "panic"
	case o.OK:
		return "accept"
	}
	return "reject"
}

type validator interface {
	Validate(interface{}) error
}

// call validates and catches a panic.
func call(v validator, in interface{}) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Panic: fmt.Sprint(r) + where()}
		}
	}()
	if err := v.Validate(in); err != nil {
		return Outcome{Err: errText(err), e: err}
	}
	return Outcome{OK: true}
}

var ptrRx = regexp.MustCompile(`0x[0-9a-f]+`)

func errText(err error) string {
	t := ptrRx.ReplaceAllString(err.Error(), "0x?")
	if len(t) > 200 {
		t = t[:200]
	}
	return t
}

// takeOver gives the object old, where possible, the content of nw, at every level: a
// caller that uses its object again for another input.
func takeOver(old, nw interface{}) interface{} {
	if old == nil || nw == nil || reflect.TypeOf(old) != reflect.TypeOf(nw) {
		return nw
	}
	switch t := nw.(type) {
	case acc:
		o := old.(acc)
		takeStore(o.st, t.st)
		return o
	case *acc:
		o := old.(*acc)
		takeStore(o.st, t.st)
		return o
	case []interface{}:
		o := old.([]interface{})
		if len(o) != len(t) {
			return nw
		}
		for i := range t {
			o[i] = takeOver(o[i], t[i])
		}
		return o
	}
	ov, nv := reflect.ValueOf(old), reflect.ValueOf(nw)
	switch nv.Kind() {
	case reflect.Map:
		if ov.IsNil() || nv.IsNil() {
			return nw
		}
		for _, k := range ov.MapKeys() {
			if !nv.MapIndex(k).IsValid() {
				ov.SetMapIndex(k, reflect.Value{})
			}
		}
		for _, k := range nv.MapKeys() {
			e := nv.MapIndex(k)
			if p := ov.MapIndex(k); p.IsValid() && e.Kind() == reflect.Interface && !e.IsNil() {
				e = reflect.ValueOf(takeOver(p.Interface(), e.Interface()))
			}
			ov.SetMapIndex(k, e)
		}
		return old
	case reflect.Ptr:
		if !ov.IsNil() && !nv.IsNil() {
			ov.Elem().Set(nv.Elem())
			return old
		}
	}
	return nw
}

func takeStore(o, n *accStore) {
	for i, nm := range n.names {
		for j, om := range o.names {
			if nm == om {
				n.vals[i] = takeOver(o.vals[j], n.vals[i])
			}
		}
	}
	*o = *n
}
