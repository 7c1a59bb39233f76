package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C12", runC12)
	docs["C12"] = propDoc{
		Rule:   "Each run gives 1-4 goroutines their own records with every optional type (also nested by value and by pointer) and a history of set (accepted, refused and doubtful values), reset, direct decode (right, wrong, truncated), copy, encode and decode again, decode of a stream of records that stalls, breaks off or is damaged at any byte, and validation with a shared validator with required names, dependencies, property counts and defaults (also defaults that the field refuses).",
		Oracle: "Executable model: one (present, value) pair per optional field, updated by the rules of the property; the JSON of records is decoded a second time into shadow types that implement the rules with encoding/json alone.",
	}
}

// --- model ---------------------------------------------------------------------

type mval struct {
	has bool
	v   interface{} // string, int64, uint64, float64, bool, time.Time
}

func (m mval) String() string {
	if !m.has {
		return "absent"
	}
	if t, ok := m.v.(time.Time); ok {
		return t.Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%#v", m.v)
}

func sameVal(a, b interface{}) bool {
	if t, ok := a.(time.Time); ok {
		u, ok := b.(time.Time)
		return ok && t.Equal(u)
	}
	return a == b
}

// fields of a record, in the order of the names
var mkinds = []string{"b", "f", "i", "s", "t", "u"}

type rec struct {
	S  jsval.MaybeString `json:"s"`
	I  jsval.MaybeInt    `json:"i,omitempty"`
	U  jsval.MaybeUint   `json:"u"`
	F  jsval.MaybeFloat  `json:"f"`
	B  jsval.MaybeBool   `json:"b"`
	T  jsval.MaybeTime   `json:"t"`
	In recIn             `json:"in"`
	P  *recIn            `json:"p"`
}

type recIn struct {
	B jsval.MaybeBool   `json:"b"`
	T jsval.MaybeTime   `json:"t,omitempty"`
	S jsval.MaybeString `json:"s"`
	U jsval.MaybeUint   `json:"u"`
	F jsval.MaybeFloat  `json:"f"`
	I jsval.MaybeInt    `json:"i"`
}

// field gives the optional value of a record: level 0 its own, 1 in, 2 p.
func (r *rec) field(l, k int) jsval.Maybe {
	in := &r.In
	switch l {
	case 0:
		return []jsval.Maybe{&r.B, &r.F, &r.I, &r.S, &r.T, &r.U}[k]
	case 2:
		in = r.P
	}
	return []jsval.Maybe{&in.B, &in.F, &in.I, &in.S, &in.T, &in.U}[k]
}

type mrec [3][6]mval

// shadow types with the specified decoding

type shB struct{ mval }
type shF struct{ mval }
type shI struct{ mval }
type shS struct{ mval }
type shT struct{ mval }
type shU struct{ mval }

func (s *shB) UnmarshalJSON(b []byte) error { return decodeAs(0, b, &s.mval) }
func (s *shF) UnmarshalJSON(b []byte) error { return decodeAs(1, b, &s.mval) }
func (s *shI) UnmarshalJSON(b []byte) error { return decodeAs(2, b, &s.mval) }
func (s *shS) UnmarshalJSON(b []byte) error { return decodeAs(3, b, &s.mval) }
func (s *shT) UnmarshalJSON(b []byte) error { return decodeAs(4, b, &s.mval) }
func (s *shU) UnmarshalJSON(b []byte) error { return decodeAs(5, b, &s.mval) }

// decodeAs is the specification of decoding an optional value.
func decodeAs(k int, data []byte, m *mval) error {
	var v interface{}
	var err error
	switch k {
	case 0:
		var x bool
		err = json.Unmarshal(data, &x)
		v = x
	case 1:
		var x float64
		err = json.Unmarshal(data, &x)
		v = x
	case 2:
		var x int64
		err = json.Unmarshal(data, &x)
		v = x
	case 3:
		var x string
		err = json.Unmarshal(data, &x)
		v = x
	case 4:
		var x string
		if err = json.Unmarshal(data, &x); err == nil {
			v, err = time.Parse(time.RFC3339, x)
		}
	case 5:
		var x uint64
		err = json.Unmarshal(data, &x)
		v = x
	}
	if err != nil {
		return err
	}
	*m = mval{true, v}
	return nil
}

type shrec struct {
	S  shS   `json:"s"`
	I  shI   `json:"i,omitempty"`
	U  shU   `json:"u"`
	F  shF   `json:"f"`
	B  shB   `json:"b"`
	T  shT   `json:"t"`
	In shIn  `json:"in"`
	P  *shIn `json:"p"`
}

type shIn struct {
	B shB `json:"b"`
	T shT `json:"t,omitempty"`
	S shS `json:"s"`
	U shU `json:"u"`
	F shF `json:"f"`
	I shI `json:"i"`
}

func (r *shrec) field(l, k int) *mval {
	in := &r.In
	switch l {
	case 0:
		return []*mval{&r.B.mval, &r.F.mval, &r.I.mval, &r.S.mval, &r.T.mval, &r.U.mval}[k]
	case 2:
		in = r.P
	}
	return []*mval{&in.B.mval, &in.F.mval, &in.I.mval, &in.S.mval, &in.T.mval, &in.U.mval}[k]
}

func (m *mrec) shadow() *shrec {
	s := &shrec{P: &shIn{}}
	for l := range m {
		for k := range m[l] {
			*s.field(l, k) = m[l][k]
		}
	}
	return s
}

func (m *mrec) take(s *shrec) {
	for l := range m {
		for k := range m[l] {
			m[l][k] = *s.field(l, k)
		}
	}
}

// diff compares a record with the model.
func (m *mrec) diff(r *rec) string {
	for l := range m {
		for k := range m[l] {
			f := r.field(l, k)
			if d := diffOne(m[l][k], f); d != "" {
				return []string{"", "in.", "p."}[l] + mkinds[k] + " " + d
			}
		}
	}
	return ""
}

func diffOne(m mval, f jsval.Maybe) string {
	got := mval{f.Valid(), f.Value()}
	if got.has != m.has || m.has && !sameVal(got.v, m.v) {
		return fmt.Sprintf("is %s, expected %s", got, m)
	}
	return ""
}

// --- values -----------------------------------------------------------------------

var mstrs = []string{"", "a", "nul", "é\u2028<&>", "\"\\\n", "2016-01-02T03:04:05Z", strings.Repeat("x", 70)}
var mints = []int64{0, 1, -1, 7, 100, -100, math.MaxInt64, math.MinInt64, 1<<53 + 1, 1 << 31}
var muints = []uint64{0, 1, 7, 200, math.MaxUint64, 1<<53 + 1, 1 << 63}
var mfloats = []float64{0, 1, -1.5, 1e21, 1e-9, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1}
var mtimes = []string{"2016-01-02T03:04:05Z", "1970-01-01T00:00:00Z", "2016-06-07T23:59:59.123456789+09:00", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.5-11:30"}

func mtime(s string) time.Time {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		panic(abortHarness(err.Error()))
	}
	return t
}

// goodSet draws a value that the field must accept and what it then holds.
func goodSet(x *Ctx, k int) (in, v interface{}) {
	switch k {
	case 0:
		b := x.Bool()
		return b, b
	case 1:
		f := mfloats[x.Int(len(mfloats))]
		if x.Chance(1, 3) {
			g := float32(x.Range(-8, 8)) / 4
			return g, float64(g)
		}
		return f, f
	case 2:
		n := x.Range(-100, 100)
		switch x.Int(8) {
		case 0:
			return n, int64(n)
		case 1:
			return int8(n), int64(n)
		case 2:
			return int16(n), int64(n)
		case 3:
			return int32(n), int64(n)
		case 4:
			return float64(n), int64(n)
		}
		i := mints[x.Int(len(mints))]
		return i, i
	case 3:
		s := mstrs[x.Int(len(mstrs))]
		return s, s
	case 4:
		t := mtime(mtimes[x.Int(len(mtimes))])
		if x.Bool() {
			return t.Format(time.RFC3339Nano), t
		}
		return t, t
	}
	n := x.Range(0, 200)
	switch x.Int(8) {
	case 0:
		return uint(n), uint64(n)
	case 1:
		return uint8(n), uint64(n)
	case 2:
		return uint16(n), uint64(n)
	case 3:
		return uint32(n), uint64(n)
	case 4:
		return float64(n), uint64(n)
	}
	u := muints[x.Int(len(muints))]
	return u, u
}

type strange struct{ A int }

// badSet draws a value that the field must refuse.
func badSet(x *Ctx, k int) interface{} {
	switch x.Int(5) {
	case 0:
		return nil
	case 1:
		return strange{1}
	case 2:
		return []byte("1")
	case 3:
		return map[string]interface{}{"a": 1}
	}
	switch k {
	case 0:
		return x.Pick([]string{"true", "", "1"})
	case 3:
		return []interface{}{1, true, 1.5}[x.Int(3)]
	case 4:
		return []interface{}{"yesterday", "", "2016-13-01T00:00:00Z", "2016-01-02T03:04:05", int64(1), true, "2016-01-02T03:04:05Zx"}[x.Int(7)]
	}
	return []interface{}{"1", true, "", []interface{}{1}}[x.Int(4)]
}

// doubtful values may be accepted or refused.
func maybeSet(x *Ctx, k int) interface{} {
	type named string
	s := "p"
	return []interface{}{named("a"), &s, 1, uint(3), int64(-1), float32(2), json.Number("5"), 'x', complex(1, 0), errors.New("e")}[x.Int(10)]
}

func okJSON(x *Ctx, k int) string {
	switch k {
	case 0:
		return x.Pick([]string{"true", "false"})
	case 1:
		return x.Pick([]string{"0", "1", "-1.5", "1e21", "1E-9", "0.1", "-0.25e2"})
	case 2:
		return fmt.Sprint(mints[x.Int(len(mints))])
	case 3:
		b, _ := json.Marshal(mstrs[x.Int(len(mstrs))])
		return string(b)
	case 4:
		return `"` + x.Pick(mtimes) + `"`
	}
	return fmt.Sprint(muints[x.Int(len(muints))])
}

func badJSON(x *Ctx, k int) string {
	l := []string{"[]", "{}", `{"s":1}`, "[true]", "", "tru", `"`, `"abc`, "1x", "-"}
	switch k {
	case 0:
		l = append(l, "1", `"true"`)
	case 1:
		l = append(l, `"1"`, "true", "1e999")
	case 2:
		l = append(l, `"1"`, "true", "1.5", "9223372036854775808")
	case 3:
		l = append(l, "1", "true")
	case 4:
		l = append(l, "1", "true", `"yesterday"`, `"2016-01-02"`)
	case 5:
		l = append(l, `"1"`, "true", "-1", "18446744073709551616")
	}
	return x.Pick(l)
}

// doc draws the JSON text of a record; with bad, one field has a wrong value.
func recDoc(x *Ctx, nested bool) string {
	var parts []string
	for _, k := range []int{3, 2, 5, 0, 4, 1} {
		if x.Chance(2, 5) {
			continue
		}
		v := okJSON(x, k)
		if x.Chance(1, 14) {
			if v = badJSON(x, k); !json.Valid([]byte(v)) {
				v = "[]"
			}
		}
		sp := x.Pick([]string{"", "", " ", "\n\t"})
		parts = append(parts, fmt.Sprintf(`"%s":%s%s`, mkinds[k], sp, v))
		if x.Chance(1, 20) {
			parts = append(parts, fmt.Sprintf(`"%s":%s`, mkinds[k], okJSON(x, k)))
		}
	}
	if nested {
		for _, n := range []string{"in", "p"} {
			if x.Chance(1, 3) {
				parts = append(parts, fmt.Sprintf(`"%s":%s`, n, recDoc(x, false)))
			}
		}
		if x.Chance(1, 6) {
			parts = append(parts, `"other":{"s":[1,"x"]}`)
		}
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := x.Int(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	return "{" + strings.Join(parts, ",") + "}"
}

// --- shared validator -----------------------------------------------------------

// likes is a fixed property of values, the rule of the custom constraints.
func likes(salt uint32, v interface{}) bool {
	if salt == 0 {
		return true
	}
	if t, ok := v.(time.Time); ok {
		v = t.UTC().Format(time.RFC3339Nano)
	}
	h := fnv.New32a()
	fmt.Fprintf(h, "%d %T %v", salt, v, v)
	return h.Sum32()%5 != 0
}

type mrules struct {
	salt  [6]uint32
	req   [6]bool
	def   [6]mval
	bad   [6]bool // the default is one the field refuses
	defIn [6]interface{}
	deps  [][2]int
	min   int
	max   int
	in, p *mrules
}

func genRules(x *Ctx, depth int, defs bool) *mrules {
	r := &mrules{min: -1, max: -1}
	for k := range r.salt {
		if x.Chance(1, 2) {
			r.salt[k] = uint32(1 + x.Int(50))
		}
		r.req[k] = x.Chance(1, 8)
		if defs && x.Chance(1, 2) {
			in, v := goodSet(x, k)
			r.def[k], r.defIn[k] = mval{true, v}, in
			if x.Chance(1, 10) {
				r.bad[k] = true
				r.defIn[k] = badSet(x, k)
				if r.defIn[k] == nil {
					r.defIn[k] = strange{2}
				}
				if _, ok := r.defIn[k].([]byte); ok && (k == 3 || k == 4) {
					r.defIn[k] = strange{3}
				}
			}
		}
	}
	if x.Chance(1, 4) {
		r.deps = append(r.deps, [2]int{x.Int(6), x.Int(6)})
	}
	if x.Chance(1, 6) {
		r.min = x.Range(0, 8)
	}
	if x.Chance(1, 6) {
		r.max = x.Range(2, 8)
	}
	if depth > 0 {
		if x.Bool() {
			r.in = genRules(x, depth-1, false)
		}
		if x.Bool() {
			r.p = genRules(x, depth-1, defs)
		}
	}
	return r
}

func (r *mrules) constraint() jsval.Constraint {
	o := jsval.Object().AdditionalProperties(jsval.EmptyConstraint).MinProperties(r.min).MaxProperties(r.max)
	for k, n := range mkinds {
		salt := r.salt[k]
		c := &custom{accept: func(v interface{}) bool { return likes(salt, v) }}
		if r.def[k].has {
			c.hasDef, c.def = true, r.defIn[k]
		}
		o.AddProp(n, c)
		if r.req[k] {
			o.Required(n)
		}
	}
	for _, d := range r.deps {
		o.PropDependency(mkinds[d[0]], mkinds[d[1]])
	}
	if r.in != nil {
		o.AddProp("in", r.in.constraint())
	}
	if r.p != nil {
		o.AddProp("p", r.p.constraint())
	}
	return o
}

// verdict on one level, and whether a default is refused
func (r *mrules) accepts(m *mrec, l int) (ok bool) {
	ok = true
	n := 0
	if l == 0 {
		n = 2 // in and p
	}
	for k, f := range m[l] {
		if f.has {
			n++
			if !likes(r.salt[k], f.v) {
				ok = false
			}
			continue
		}
		if r.req[k] {
			ok = false
		} else if r.def[k].has && r.bad[k] {
			ok = false
		}
	}
	if r.min >= 0 && n < r.min || r.max >= 0 && n > r.max {
		ok = false
	}
	for _, d := range r.deps {
		if m[l][d[0]].has && !m[l][d[1]].has {
			ok = false
		}
	}
	if l == 0 {
		if r.in != nil && !r.in.accepts(m, 1) {
			ok = false
		}
		if r.p != nil && !r.p.accepts(m, 2) {
			ok = false
		}
	}
	return ok
}

// --- histories --------------------------------------------------------------------

type c12op struct {
	kind string
	l, k int
	in   interface{}
	want mval   // set: what the field then holds
	must int    // set: 1 must succeed, -1 must fail, 0 either
	data []byte // decode, stream
	body *simBody
	// filled by the task
	o    Outcome
	outs []Outcome
	snap *rec // the record after the operation
	more []*rec
	raw  []byte
	err2 string
	done bool
}

func (r *rec) copy() *rec {
	c := *r
	p := *r.P
	c.P = &p
	return &c
}

func doErr(f func() error) (o Outcome) {
	defer func() {
		if e := recover(); e != nil {
			o = Outcome{Panic: fmt.Sprint(e) + where()}
		}
	}()
	if err := f(); err != nil {
		return Outcome{Err: errText(err)}
	}
	return Outcome{OK: true}
}

func runC12(x *Ctx) {
	nt := x.Crowd(1, 4)
	rules := genRules(x, 1, x.Chance(3, 4))
	tasks := make([][]*c12op, nt)
	for t := range tasks {
		for i := x.Range(2, 10); i > 0; i-- {
			op := &c12op{l: x.Int(3), k: x.Int(6)}
			switch x.Int(12) {
			case 0, 1:
				op.kind, op.must = "set", 1
				var v interface{}
				op.in, v = goodSet(x, op.k)
				op.want = mval{true, v}
			case 2:
				op.kind, op.must = "set", -1
				op.in = badSet(x, op.k)
			case 3:
				op.kind = "set"
				op.in = maybeSet(x, op.k)
			case 4:
				op.kind = "reset"
			case 5:
				op.kind = "decode"
				op.data = []byte(okJSON(x, op.k))
			case 6:
				op.kind = "decode"
				op.data = []byte(badJSON(x, op.k))
			case 7:
				op.kind = "recode"
			case 8, 9:
				op.kind = "stream"
				var b bytes.Buffer
				for j := x.Range(1, 3); j > 0; j-- {
					b.WriteString(recDoc(x, true))
					b.WriteString(x.Pick([]string{"", "\n", " "}))
				}
				op.data = b.Bytes()
				if x.Chance(1, 4) {
					for j := x.Range(1, 2); j > 0; j-- {
						at := x.Int(len(op.data))
						switch x.Int(3) {
						case 0:
							op.data[at] ^= byte(1 << uint(x.Int(7)))
						case 1:
							op.data = append(op.data[:at:at], op.data[at+1:]...)
						default:
							op.data = append(op.data[:at:at], append([]byte(x.Pick([]string{"\"", "}", "1", ",", "x"})), op.data[at:]...)...)
						}
						if len(op.data) == 0 {
							break
						}
					}
					x.FaultHit("stream-damaged")
				}
				op.body = &simBody{data: op.data, cut: -1, yield: x.Int(3), eofNow: x.Bool()}
				for j := x.Int(4); j > 0; j-- {
					op.body.chunks = append(op.body.chunks, 1+x.Int(1+len(op.data)/2))
				}
				if x.Chance(1, 3) {
					op.body.cut = x.Int(len(op.data) + 1)
					op.body.cutErr = cutErrs[x.Int(len(cutErrs))]
				}
			default:
				op.kind = "validate"
				if x.Chance(1, 6) {
					op.kind = "copy"
				}
			}
			tasks[t] = append(tasks[t], op)
			x.Logf("goroutine %d: %s level %d %s %v %s", t, op.kind, op.l, mkinds[op.k], op.in, op.data)
		}
	}
	// stalled streams wait until everybody else is done
	gate := &stallGate{}
	for t, ops := range tasks {
		last := ops[len(ops)-1]
		if t > 0 && last.kind == "stream" && x.Bool() {
			last.body.stall = gate
			last.body.at = x.Int(len(last.data) + 1)
		} else {
			gate.open++
		}
	}
	simrt.ResetAll()
	v := jsval.New().SetRoot(rules.constraint())
	var fns []func()
	for t := range tasks {
		ops := tasks[t]
		stalls := ops[len(ops)-1].body != nil && ops[len(ops)-1].body.stall != nil
		fns = append(fns, func() {
			r := &rec{P: &recIn{}}
			for _, op := range ops {
				runC12op(r, op, v)
				if op.snap == nil {
					op.snap = r.copy()
				}
				op.done = true
			}
			if !stalls {
				gate.done()
			}
		})
	}
	x.Sim(fns...)
	if gate.stalled {
		x.FaultHit("stream-stalls")
	}
	for t, ops := range tasks {
		m := &mrec{}
		for i, op := range ops {
			c12judge(x, fmt.Sprintf("goroutine %d step %d", t, i), m, op, rules)
		}
	}
	x.CheckLocks()
}

func runC12op(r *rec, op *c12op, v *jsval.JSVal) {
	f := r.field(op.l, op.k)
	switch op.kind {
	case "set":
		op.o = doErr(func() error { return f.Set(op.in) })
	case "reset":
		op.o = doErr(func() error { f.Reset(); return nil })
	case "decode":
		op.o = doErr(func() error { return f.(json.Unmarshaler).UnmarshalJSON(op.data) })
	case "copy":
		c := r.copy()
		op.snap = c
		// the copy must not follow the original, nor the other way round
		d := c.copy()
		simrt.YS()
		op.o = doErr(func() error {
			for l := 0; l < 3; l++ {
				d.field(l, op.k).Reset()
				b, err := json.Marshal(c.field(l, op.k))
				if err != nil {
					return err
				}
				if err := d.field(l, op.k).(json.Unmarshaler).UnmarshalJSON(b); err != nil {
					return err
				}
			}
			return nil
		})
		op.snap = r.copy()
	case "recode":
		op.o = doErr(func() error {
			b, err := json.Marshal(r)
			if err != nil {
				return err
			}
			op.raw = b
			n := &rec{P: &recIn{}}
			if err := json.Unmarshal(b, n); err != nil {
				return err
			}
			op.more = append(op.more, n)
			return nil
		})
	case "stream":
		d := json.NewDecoder(op.body)
		for n := 0; n < 8; n++ {
			o := doErr(func() error { return d.Decode(r) })
			op.outs = append(op.outs, o)
			op.more = append(op.more, r.copy())
			if !o.OK {
				break
			}
		}
	case "validate":
		op.o = call(v, r)
	}
}

func c12judge(x *Ctx, at string, m *mrec, op *c12op, rules *mrules) {
	f := &m[op.l][op.k]
	at += fmt.Sprintf(", %s %s%s", op.kind, []string{"", "in.", "p."}[op.l], mkinds[op.k])
	note(op.o.verdict())
	if !op.done {
		x.Failnow("lost", "%s: did not complete", at)
	}
	if op.o.Panic != "" {
		x.Failnow("panic", "%s: %s", at, op.o)
	}
	switch op.kind {
	case "set":
		at += fmt.Sprintf(" to %v", op.in)
		switch {
		case op.must == 1:
			if !op.o.OK {
				x.Failnow("set", "%s: %s", at, op.o)
			}
			*f = op.want
			x.Probe("set")
		case op.must == -1:
			x.Probe("set-refused")
			if op.o.OK {
				x.Failnow("set", "%s: accepted", at)
			}
		case op.o.OK:
			// the value is the library's choice
			g := op.snap.field(op.l, op.k)
			if !g.Valid() {
				x.Failnow("set", "%s: accepted, but the field is absent", at)
			}
			*f = mval{true, g.Value()}
		}
	case "reset":
		*f = mval{}
	case "decode":
		at += fmt.Sprintf(" from %s", op.data)
		n := *f
		err := decodeAs(op.k, op.data, &n)
		if (err == nil) != op.o.OK {
			x.Failnow("decode", "%s: %s, expected: %v", at, op.o, err)
		}
		if err == nil {
			x.Probe("decoded")
			*f = n
		} else {
			x.Probe("decode-refused")
		}
	case "copy":
		if !op.o.OK {
			x.Failnow("encode", "%s: %s", at, op.o)
		}
	case "recode":
		if !op.o.OK {
			x.Failnow("encode", "%s: encode and decode: %s", at, op.o)
		}
		n := op.more[0]
		for l := range m {
			for k, e := range m[l] {
				if !e.has {
					continue
				}
				x.Probe("round-trip")
				if d := diffOne(e, n.field(l, k)); d != "" {
					x.Failnow("round-trip", "%s: encoded as %s and decoded again, %s %s", at, clip(string(op.raw)), mkinds[k], d)
				}
			}
		}
	case "stream":
		at += fmt.Sprintf(" %s", clip(string(op.data)))
		b := op.body
		if b.cut >= 0 {
			at += fmt.Sprintf(" breaking off after %d bytes", b.cut)
			if b.hit {
				x.FaultHit("stream-breaks-off")
			}
		}
		sh := &simBody{data: b.data, cut: b.cut, cutErr: b.cutErr, chunks: b.chunks, eofNow: b.eofNow}
		s := m.shadow()
		d := json.NewDecoder(sh)
		for i, o := range op.outs {
			if o.Panic != "" {
				x.Failnow("panic", "%s: record %d: %s", at, i, o)
			}
			err := d.Decode(s)
			note(o.verdict())
			if (err == nil) != o.OK {
				x.Failnow("decode", "%s: record %d: %s, expected: %v", at, i, o, err)
			}
			m.take(s)
			if diff := m.diff(op.more[i]); diff != "" {
				x.Failnow("decode", "%s: after record %d (%s): %s", at, i, o, diff)
			}
			if o.OK {
				x.Probe("record-decoded")
			} else if err != io.EOF {
				x.Probe("record-refused")
			}
		}
		if len(op.outs) == 0 {
			x.Failnow("decode", "%s: nothing decoded", at)
		}
	case "validate":
		want := rules.accepts(m, 0)
		at += ", record " + m.String()
		if want != op.o.OK {
			x.Failnow("verdict", "%s: %s, expected accept=%v", at, op.o, want)
		}
		x.Probe(op.o.verdict())
		for l, r := range map[int]*mrules{0: rules, 2: rules.p} {
			if r == nil {
				continue
			}
			for k := range m[l] {
				e := &m[l][k]
				if e.has || !r.def[k].has || r.bad[k] || r.req[k] {
					continue
				}
				// after a rejection the default may or may not be there
				if !op.o.OK && !op.snap.field(l, k).Valid() {
					continue
				}
				*e = r.def[k]
				x.Probe("defaulted")
			}
		}
		if !op.o.OK {
			for _, r := range []*mrules{rules, rules.p} {
				if r != nil {
					for k := range r.bad {
						if r.bad[k] {
							x.FaultHit("default-refused")
						}
					}
				}
			}
		}
	}
	if d := m.diff(op.snap); d != "" {
		x.Failnow("state", "%s (%s): afterwards %s", at, op.o, d)
	}
}

func (m *mrec) String() string {
	var l []string
	for i := range m {
		for k, e := range m[i] {
			if e.has {
				l = append(l, fmt.Sprintf("%s%s=%s", []string{"", "in.", "p."}[i], mkinds[k], e))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
