package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unsafe"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C05", runC05)
	docs["C05"] = propDoc{
		Rule:   "Each run draws an object constraint (root, property or reference target), 1-3 goroutines that add properties, pattern properties, required names, property dependencies (also several to one property) and schema dependencies, and 1-3 goroutines that validate and query meanwhile. In some runs up to 512 rules are added between two uses. In some runs a strict rule is handed on from property to property. Inputs are chosen so that single rules decide the verdict.",
		Oracle: "Model over rule sets: each verdict must be that of some set between the rules completed before the call and the rules begun before its end, the named properties being those of one moment; queries contain all completed and only begun additions; at the end all rules are in force, each verified by its own input.",
	}
}

const (
	rProp = iota
	rPat
	rReq
	rPDep
	rSDep
	rBase
)

type rule struct {
	kind  int
	name  string   // property, pattern or from
	names []string // required names or dependency targets
	want  string   // value that the constraint wants
	c     jsval.Constraint
	rx    *regexp.Regexp
	b, e  uint64
}

func (r *rule) String() string {
	switch r.kind {
	case rProp:
		return fmt.Sprintf("property %q wants %q", r.name, r.want)
	case rPat:
		return fmt.Sprintf("pattern %q wants %q", r.name, r.want)
	case rReq:
		return fmt.Sprintf("required %v", r.names)
	case rPDep:
		return fmt.Sprintf("%q needs %v", r.name, r.names)
	}
	return fmt.Sprintf("with %q, %q wants %q", r.name, r.names[0], r.want)
}

type c05use struct {
	kind int // 0 validate, 1 required?, 2 dependencies, 3 schema dependency
	in   map[string]interface{}
	name string
	b, e uint64
	res  Outcome
	deps []string
	boo  bool
	sd   jsval.Constraint
	done bool
}

// c05base: properties that exist from the beginning and accept everything.
var c05base = []string{"b0", "b1", "b2", "b3", "b4", "b5"}

// c05model evaluates a set of rules.
func c05model(add bool, rules []*rule, in map[string]interface{}) bool {
	props := map[string]string{}
	for _, n := range c05base {
		props[n] = ""
	}
	for _, r := range rules {
		if r.kind == rProp {
			props[r.name] = r.want
		}
	}
	seen := map[string]bool{}
	for n, w := range props {
		v, ok := in[n]
		if !ok {
			continue
		}
		seen[n] = true
		if w != "" && v != w {
			return false
		}
	}
	for _, r := range rules {
		if r.kind == rReq {
			for _, n := range r.names {
				if _, ok := in[n]; !ok {
					return false
				}
			}
		}
	}
	for n, v := range in {
		if _, ok := props[n]; ok {
			continue
		}
		m := false
		for _, r := range rules {
			if r.kind == rPat && r.rx.MatchString(n) {
				m = true
				if v != r.want {
					return false
				}
			}
		}
		if m {
			seen[n] = true
		} else if !add {
			return false
		}
	}
	sdep := map[string]*rule{}
	for _, r := range rules {
		switch r.kind {
		case rPDep:
			if seen[r.name] {
				for _, n := range r.names {
					if !seen[n] {
						return false
					}
				}
			}
		case rSDep:
			sdep[r.name] = r
		}
	}
	for _, r := range sdep {
		if seen[r.name] {
			if v, ok := in[r.names[0]]; ok && v != r.want {
				return false
			}
		}
	}
	return true
}

// runC05Burst: very many rules are added between uses, at once or one by one.
func runC05Burst(x *Ctx) {
	obj := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	kind := x.Int(4)
	in := map[string]interface{}{"k": "v"}
	n := 0
	addOne := func(want string) string {
		n++
		name := fmt.Sprintf("r%03d", n)
		switch kind {
		case 0:
			obj.AddProp(name, jsval.String().Enum(want))
		case 1:
			obj.PatternPropertiesString("^"+name+"$", jsval.String().Enum(want))
		case 2:
			obj.AddProp(name, jsval.EmptyConstraint)
			obj.Required(name)
		default:
			obj.AddProp(name, jsval.EmptyConstraint)
			obj.PropDependency(name, "to"+name)
		}
		return name
	}
	if kind == 3 {
		obj.AddProp("k", jsval.EmptyConstraint)
	}
	// what the rule of that name rejects and accepts
	bad := func(name string) map[string]interface{} {
		m := clone(in).(map[string]interface{})
		switch kind {
		case 0, 1:
			m[name] = "no"
		case 2:
			delete(m, name)
		default:
			m[name] = "v"
		}
		return m
	}
	var fail string
	var log []string
	check := func(when, name string) {
		if o := call(obj, clone(in)); !o.OK && fail == "" {
			fail = fmt.Sprintf("%s: input %s: %s, although it meets every rule", when, clip(text(in)), o)
		}
		if name == "" {
			return
		}
		if m := bad(name); fail == "" {
			if o := call(obj, m); o.OK || o.Panic != "" {
				fail = fmt.Sprintf("%s: the rule for %q is not in force: %s", when, name, o)
			}
		}
	}
	bursts := []int{}
	for i := x.Range(1, 3); i > 0; i-- {
		bursts = append(bursts, x.Pick3(x.Range(1, 40), 64, 127, 128, 254, 255, 256, 257, 512))
	}
	x.Probe("bursts")
	x.Solo(func() {
		check("before", "")
		for i, b := range bursts {
			first := ""
			for j := 0; j < b; j++ {
				name := addOne("v")
				if kind == 2 {
					in[name] = "v"
				}
				if first == "" {
					first = name
				}
			}
			log = append(log, fmt.Sprint(b))
			when := fmt.Sprintf("after %s additions (kind %d, burst %d)", strings.Join(log, "+"), kind, i)
			check(when, first)
			check(when, fmt.Sprintf("r%03d", n))
		}
	})
	x.Logf("bursts %v of kind %d", bursts, kind)
	if fail != "" {
		x.Failnow("lost", "%s", fail)
	}
	x.CheckLocks()
}

func runC05(x *Ctx) {
	if x.Chance(1, 60) {
		runC05Burst(x)
		return
	}
	add := x.Chance(2, 3)
	obj := jsval.Object()
	for _, n := range c05base {
		obj.AddProp(n, jsval.EmptyConstraint)
	}
	if add {
		obj.AdditionalProperties(jsval.EmptyConstraint)
	}
	var v validator = obj
	wrap := func(m map[string]interface{}) interface{} { return m }
	switch x.Int(4) {
	case 1:
		v = jsval.New().SetRoot(obj)
	case 2:
		v = jsval.New().SetRoot(jsval.Object().AddProp("in", obj))
		wrap = func(m map[string]interface{}) interface{} { return map[string]interface{}{"in": m} }
	case 3:
		w := jsval.New()
		w.SetReference("#/definitions/o", obj)
		v = w.SetRoot(jsval.Array().Items(jsval.Reference(w).RefersTo("#/definitions/o")))
		wrap = func(m map[string]interface{}) interface{} { return []interface{}{m} }
	}

	// rules; a few runs add very many
	nw := x.Range(1, 3)
	many := x.Chance(1, 12)
	writers := make([][]*rule, nw)
	var rules []*rule
	pn := 0
	// who may replace a rule: the only one who set it so far
	owner := map[[2]string]int{}
	owned := func(t, kind int) []string {
		var l []string
		for k, o := range owner {
			if k[0] == fmt.Sprint(kind) && (o == t || o == -1) {
				l = append(l, k[1])
			}
		}
		sort.Strings(l)
		return l
	}
	newRule := func(t int) *rule {
		r := &rule{kind: x.Int(5), want: x.Pick([]string{"u", "w"})}
		switch r.kind {
		case rProp:
			// some match patterns too; a rule may replace one that the same
			// writer added or that held from the beginning
			if n := owned(t, rProp); len(n) > 0 && x.Chance(1, 3) {
				r.name = x.Pick(n)
				x.Probe("replacements")
			} else {
				r.name = fmt.Sprintf("%s%d", x.Pick([]string{"p", "q", "z"}), pn)
				pn++
			}
			r.c = jsval.String().Enum(r.want)
		case rPat:
			r.name = x.Pick([]string{"^p", "^q", "[0-3]$", "^z.*1", "5"})
			r.rx = regexp.MustCompile(r.name)
			simrt.Label(unsafe.Pointer(r.rx), fmt.Sprint(len(rules)))
			r.c = jsval.String().Enum(r.want)
		case rReq:
			r.names = []string{c05base[x.Int(3)]}
			if x.Chance(1, 3) {
				r.names = append(r.names, c05base[x.Int(4)])
			}
		case rPDep:
			r.name = c05base[3+x.Int(2)]
			r.names = []string{c05base[x.Int(3)]}
			if x.Chance(1, 3) {
				r.names = append(r.names, c05base[x.Int(5)])
			}
		case rSDep:
			// a later rule replaces an earlier one: only within one writer
			r.name = c05base[5]
			if t2, ok := owner[[2]string{fmt.Sprint(rSDep), r.name}]; ok && t2 != t && t2 != -1 {
				r.kind = rReq
				r.names = []string{c05base[x.Int(3)]}
				return r
			}
			r.names = []string{c05base[x.Int(3)]}
			r.c = jsval.Object().AdditionalProperties(jsval.EmptyConstraint).AddProp(r.names[0], jsval.String().Enum(r.want))
		}
		return r
	}
	own := func(t int, r *rule) {
		if r.kind == rProp || r.kind == rSDep {
			owner[[2]string{fmt.Sprint(r.kind), r.name}] = t
		}
	}
	// rules that hold from the beginning
	for i := x.Int(3); i > 0; i-- {
		r := newRule(-1)
		own(-1, r)
		r.apply(obj)
		r.b, r.e = 0, 0
		rules = append(rules, r)
		x.Logf("from the beginning: %s", r)
	}
	for t := range writers {
		n := x.Range(1, 4)
		if many {
			n = x.Range(10, 60)
		}
		for i := 0; i < n; i++ {
			r := newRule(t)
			own(t, r)
			rules = append(rules, r)
			writers[t] = append(writers[t], r)
			x.Logf("writer %d: %s", t, r)
		}
	}

	// one writer hands a strict rule on from property to property: there is no
	// moment without one
	var hand []string
	if x.Chance(1, 4) {
		x.Probe("handed-over")
		hand = []string{"a0", "h5", "yy"}[:x.Range(2, 3)]
		for i := x.Int(30); i > 0; i-- {
			obj.AddProp(fmt.Sprintf("f%02d", i), jsval.EmptyConstraint)
		}
		set := func(n, want string) *rule {
			r := &rule{kind: rProp, name: n, want: want, c: jsval.EmptyConstraint}
			if want != "" {
				r.c = jsval.String().Enum(want)
			}
			return r
		}
		at := x.Int(len(hand))
		for i, n := range hand {
			w := ""
			if i == at {
				w = "u"
			}
			r := set(n, w)
			r.apply(obj)
			rules = append(rules, r)
			x.Logf("from the beginning: %s", r)
		}
		t := x.Int(nw)
		for k := x.Range(1, 3); k > 0; k-- {
			to := (at + 1 + x.Int(len(hand)-1)) % len(hand)
			for _, r := range []*rule{set(hand[to], "u"), set(hand[at], "")} {
				rules = append(rules, r)
				writers[t] = append(writers[t], r)
				x.Logf("writer %d: %s", t, r)
			}
			at = to
		}
	}

	names := append([]string(nil), c05base...)
	for _, r := range rules {
		if r.kind == rProp {
			names = append(names, r.name)
		}
	}
	names = append(names, "p1x", "q2", "zz1", "p5")
	input := func() map[string]interface{} {
		m := map[string]interface{}{}
		full := x.Chance(3, 4)
		for _, n := range c05base {
			if full || x.Chance(1, 2) {
				m[n] = x.Pick([]string{"u", "w"})
			}
		}
		if full && x.Bool() {
			delete(m, c05base[x.Int(len(c05base))])
		}
		for i := x.Int(4); i > 0; i-- {
			m[x.Pick(names)] = x.Pick([]string{"u", "w", "w"})
		}
		if hand != nil && x.Chance(3, 4) {
			for _, n := range hand {
				m[n] = "no"
			}
		}
		return m
	}
	nr := x.Crowd(1, 3)
	readers := make([][]*c05use, nr)
	for t := range readers {
		for i := x.Range(1, 6); i > 0; i-- {
			u := &c05use{kind: []int{0, 0, 0, 0, 1, 2, 3}[x.Int(7)]}
			u.in = input()
			u.name = c05base[x.Int(len(c05base))]
			readers[t] = append(readers[t], u)
		}
	}
	do := func(u *c05use) {
		u.b = tick()
		switch u.kind {
		case 0:
			u.res = call(v, wrap(u.in))
		case 1:
			u.boo = obj.IsPropRequired(u.name)
		case 2:
			u.deps = append([]string(nil), obj.GetPropDependencies(u.name)...)
		case 3:
			u.sd = obj.GetSchemaDependency(u.name)
		}
		u.e = tick()
		u.done = true
	}
	var fns []func()
	for t := range writers {
		rs := writers[t]
		fns = append(fns, func() {
			for _, r := range rs {
				r.b = tick()
				r.apply(obj)
				r.e = tick()
			}
		})
	}
	for t := range readers {
		us := readers[t]
		fns = append(fns, func() {
			for _, u := range us {
				do(u)
			}
		})
	}
	x.Sim(fns...)
	x.CheckLocks()

	// afterwards: every rule by itself
	var tail []*c05use
	full := map[string]interface{}{}
	for _, n := range c05base {
		full[n] = "u"
	}
	for _, r := range rules {
		if r.kind == rSDep {
			full[r.names[0]] = r.want
		}
	}
	put := func(f func(m map[string]interface{})) {
		m := clone(full).(map[string]interface{})
		f(m)
		tail = append(tail, &c05use{in: m})
	}
	put(func(m map[string]interface{}) {})
	for _, r := range rules {
		r := r
		switch r.kind {
		case rProp:
			put(func(m map[string]interface{}) { m[r.name] = "no" })
			put(func(m map[string]interface{}) { m[r.name] = r.want })
		case rPat:
			for _, n := range []string{"p1x", "q2", "zz1", "p5"} {
				n := n
				if r.rx.MatchString(n) {
					put(func(m map[string]interface{}) { m[n] = "no" })
					put(func(m map[string]interface{}) { m[n] = r.want })
				}
			}
		case rReq, rPDep:
			for _, n := range r.names {
				n := n
				put(func(m map[string]interface{}) { delete(m, n) })
				tail = append(tail, &c05use{kind: 1, name: n})
			}
			if r.kind == rPDep {
				tail = append(tail, &c05use{kind: 2, name: r.name})
			}
		case rSDep:
			put(func(m map[string]interface{}) { m[r.names[0]] = "no" })
			put(func(m map[string]interface{}) { m[r.names[0]] = r.want })
			tail = append(tail, &c05use{kind: 3, name: r.name})
		}
	}
	x.Solo(func() {
		for _, u := range tail {
			do(u)
		}
	})
	for t, us := range append(readers, tail) {
		for i, u := range us {
			at := fmt.Sprintf("goroutine %d call %d", nw+t, i)
			if t == len(readers) {
				at = fmt.Sprintf("afterwards, call %d", i)
			}
			c05check(x, at, add, rules, u)
		}
	}
}

func (r *rule) apply(o *jsval.ObjectConstraint) {
	switch r.kind {
	case rProp:
		o.AddProp(r.name, r.c)
	case rPat:
		o.PatternProperties(r.rx, r.c)
	case rReq:
		o.Required(r.names...)
	case rPDep:
		o.PropDependency(r.name, r.names...)
	case rSDep:
		o.SchemaDependency(r.name, r.c)
	}
}

func c05check(x *Ctx, at string, add bool, rules []*rule, u *c05use) {
	if !u.done {
		x.Failnow("lost", "%s did not complete", at)
	}
	var must, may []*rule
	for _, r := range rules {
		switch {
		case r.e < u.b:
			must = append(must, r)
		case r.b < u.e:
			may = append(may, r)
		}
	}
	list := func(l []*rule) string {
		var s []string
		for _, r := range l {
			s = append(s, r.String())
		}
		return strings.Join(s, "; ")
	}
	switch u.kind {
	case 0:
		note(u.res.verdict())
		if u.res.Panic != "" {
			x.Failnow("panic", "%s: %s", at, u.res)
		}
		if len(may) > 9 {
			x.Probe("too-many-overlapping")
			return
		}
		if len(may) > 0 {
			x.Probe("validations-overlapping-additions")
		}
	sets:
		for set := 0; set < 1<<uint(len(may)); set++ {
			// the named properties are those of one moment
			for i, r := range may {
				for j, q := range may {
					if r.kind == rProp && q.kind == rProp && r.e < q.b && set>>uint(j)&1 == 1 && set>>uint(i)&1 == 0 {
						continue sets
					}
				}
			}
			l := append([]*rule(nil), must...)
			for i, r := range may {
				if set>>uint(i)&1 == 1 {
					l = append(l, r)
				}
			}
			if c05model(add, l, u.in) == u.res.OK {
				return
			}
		}
		x.Failnow("verdict", "%s: input %s: %s; rules in force: %s; being added: %s", at, text(u.in), u.res, list(must), list(may))
	case 1:
		has := func(l []*rule) bool {
			for _, r := range l {
				if r.kind == rReq {
					for _, n := range r.names {
						if n == u.name {
							return true
						}
					}
				}
			}
			return false
		}
		if u.boo && !has(must) && !has(may) || !u.boo && has(must) {
			x.Failnow("query", "%s: IsPropRequired(%q) = %t; rules in force: %s; being added: %s", at, u.name, u.boo, list(must), list(may))
		}
	case 2:
		count := func(l []*rule) map[string]int {
			m := map[string]int{}
			for _, r := range l {
				if r.kind == rPDep && r.name == u.name {
					for _, n := range r.names {
						m[n]++
					}
				}
			}
			return m
		}
		lo, hi, got := count(must), count(may), map[string]int{}
		for _, d := range u.deps {
			got[d]++
		}
		bad := false
		for n, c := range lo {
			if c > 0 && got[n] == 0 {
				bad = true
			}
		}
		for n := range got {
			if lo[n]+hi[n] == 0 {
				bad = true
			}
		}
		if bad {
			sort.Strings(u.deps)
			x.Failnow("query", "%s: GetPropDependencies(%q) = %v; rules in force: %s; being added: %s", at, u.name, u.deps, list(must), list(may))
		}
	case 3:
		var w *rule
		ok := false
		for _, r := range must {
			if r.kind == rSDep && r.name == u.name {
				w = r
			}
		}
		for _, r := range may {
			if r.kind == rSDep && r.name == u.name {
				ok = ok || u.sd == r.c
			}
		}
		ok = ok || u.sd == nil && w == nil || w != nil && u.sd == w.c
		if !ok {
			x.Failnow("query", "%s: GetSchemaDependency(%q) is wrong; rules in force: %s; being added: %s", at, u.name, list(must), list(may))
		}
	}
}
