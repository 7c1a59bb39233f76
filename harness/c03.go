package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/jsval"
)

func init() {
	register("C03", runC03)
	docs["C03"] = propDoc{
		Rule:   "Each run draws 2-5 goroutines with up to 6 register, fetch and count calls each on one reference map, made on the map itself, through its embedding validators or through references; names are few and confusable; validators that join the map may have had references of their own. One run in six is a long history with hundreds of names.",
		Oracle: "Linearizability: a search for a sequential order of the calls that respects their invocation and return order and a plain map; the final contents are part of the history. Long histories are compared call by call with a plain map.",
	}
}

const (
	opSet = iota
	opGet
	opLen
)

type c03op struct {
	kind   int
	name   string
	val    int // constraint index for set; result for get (-1 not found)
	n      int // result of len
	via    int
	b, e   uint64
	badErr string
	own    int
}

func (o *c03op) String() string {
	switch o.kind {
	case opSet:
		return fmt.Sprintf("[%d-%d] register %q = c%d", o.b, o.e, o.name, o.val)
	case opGet:
		if o.val < 0 {
			return fmt.Sprintf("[%d-%d] fetch %q: not found", o.b, o.e, o.name)
		}
		return fmt.Sprintf("[%d-%d] fetch %q: c%d", o.b, o.e, o.name, o.val)
	}
	return fmt.Sprintf("[%d-%d] count: %d", o.b, o.e, o.n)
}

var refNames = []string{"#/definitions/a", "#/definitions/A", "#/definitions/b", "#/definitions/a/", "", "#", "#/", "a", "b", "/a", "http://h/#a", "a b", "a%20b", "é", "e\u0301", "A", " a", "a ", "#/definitions/" + strings.Repeat("x", 60), "#/definitions/" + strings.Repeat("x", 61), "x#a", "y#a", "a~1b", "a/b",
	// pairs that common checksums cannot tell apart
	"costarring", "liquid", "plumless", "buckeroo", "AaAa", "BBBB", "ab", "ba"}

// nearName is a name that is easily mistaken for n.
func nearName(x *Ctx, n string) string {
	switch x.Int(10) {
	case 9:
		for i := len(refNames) - 8; i < len(refNames); i++ {
			if refNames[i] == n {
				return refNames[i^1]
			}
		}
		b := []byte(n)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	case 0:
		return "#" + n
	case 1:
		return strings.TrimPrefix(n, "#")
	case 2:
		return n + "/"
	case 3:
		return strings.TrimSuffix(n, "/")
	case 4:
		return strings.ToUpper(n)
	case 5:
		return strings.TrimPrefix(n, "#/definitions/")
	case 6:
		return "#/definitions/" + n
	case 7:
		return " " + n
	}
	return strings.Replace(strings.Replace(n, "/", "~1", -1), " ", "%20", -1)
}

type refMap interface {
	SetReference(string, jsval.Constraint)
	GetReference(string) (jsval.Constraint, error)
	Len() int
}

// joined is a validator that gets the map; it may have had references of its
// own in another one.
func joined(cm *jsval.ConstraintMap, own int) *jsval.JSVal {
	v := jsval.New()
	if own < 3 {
		return v.SetConstraintMap(cm)
	}
	old := v.ConstraintMap
	c := jsval.Boolean()
	for _, n := range append([]string{"own"}, refNames[:own]...) {
		v.SetReference(n, c)
	}
	v.SetConstraintMap(cm)
	if got, err := old.GetReference("own"); old != cm && (err != nil || got != jsval.Constraint(c) || old.Len() != own+1) {
		panic("the former reference map has changed")
	}
	return v
}

func runC03(x *Ctx) {
	cm := &jsval.ConstraintMap{}
	vias := []refMap{cm}
	if x.Chance(1, 3) {
		// a map that belongs to a validator from the beginning
		v := jsval.New()
		cm = v.ConstraintMap
		vias = []refMap{cm, v}
	}
	// what is registered before the other validators get the map
	early := x.Int(4)
	nvia := x.Int(3)
	join := func() {
		for i := nvia; i > 0; i-- {
			vias = append(vias, joined(cm, x.Int(6)))
		}
	}
	if early == 0 {
		join()
	}
	if x.Chance(1, 6) {
		if early > 0 {
			join()
		}
		runC03Long(x, vias)
		return
	}
	names := make([]string, x.Range(1, 4))
	for i := range names {
		names[i] = x.Pick(refNames)
		if i > 0 && x.Chance(1, 3) {
			names[i] = nearName(x, names[x.Int(i)])
		}
	}
	nt := x.Range(2, 5)
	per := 6
	if nt > 3 {
		per = 4
	}
	var cs []jsval.Constraint
	newC := func() int {
		add := func(c jsval.Constraint) int {
			for i := range cs {
				if cs[i] == c {
					return i
				}
			}
			cs = append(cs, c)
			return len(cs) - 1
		}
		switch x.Int(9) {
		case 3:
			return add(nil)
		case 4:
			return add(jsval.EmptyConstraint)
		case 5:
			return add(jsval.NullConstraint)
		case 6:
			return add(jsval.Reference(vias[x.Int(len(vias))]).RefersTo(x.Pick(names)))
		case 0:
			cs = append(cs, jsval.String())
		case 1:
			cs = append(cs, jsval.Object())
		case 2:
			cs = append(cs, jsval.Integer())
		default:
			cs = append(cs, &custom{def: len(cs)})
		}
		return len(cs) - 1
	}
	nv := len(vias)
	if early > 0 {
		nv += nvia
	}
	nv++ // one more: a validator that gets the map for this call
	var h []*c03op
	tasks := make([][]*c03op, nt)
	for t := range tasks {
		for i := x.Range(1, per); i > 0; i-- {
			o := &c03op{kind: x.Int(3), name: x.Pick(names), via: x.Int(nv), own: x.Int(6)}
			if o.kind == opLen && x.Bool() {
				o.kind = opSet
			}
			if o.kind == opSet {
				if len(cs) > 0 && x.Chance(1, 5) {
					o.val = x.Int(len(cs))
				} else {
					o.val = newC()
				}
			}
			tasks[t] = append(tasks[t], o)
		}
	}
	find := func(c jsval.Constraint) int {
		for i := range cs {
			if cs[i] == c {
				return i
			}
		}
		return -2
	}
	do := func(o *c03op) {
		var m refMap
		if o.via < len(vias) {
			m = vias[o.via]
		} else {
			m = joined(cm, o.own)
		}
		o.b = tick()
		switch o.kind {
		case opSet:
			m.SetReference(o.name, cs[o.val])
		case opGet:
			c, err := m.GetReference(o.name)
			switch {
			case err != nil && c != nil:
				o.badErr = "both a constraint and an error"
			case err != nil:
				o.val = -1
			default:
				if o.val = find(c); o.val < 0 && c == nil {
					o.badErr = "neither a constraint nor an error"
				}
			}
		case opLen:
			o.n = m.Len()
		}
		o.e = tick()
	}
	var fns []func()
	for t := range tasks {
		ops := tasks[t]
		fns = append(fns, func() {
			for _, o := range ops {
				do(o)
			}
		})
	}
	if early > 0 {
		for i := early; i > 0; i-- {
			o := &c03op{kind: opSet, name: x.Pick(names), val: newC(), via: x.Int(len(vias))}
			x.Solo(func() { do(o) })
			h = append(h, o)
		}
		join()
	}
	x.Sim(fns...)
	for _, ops := range tasks {
		h = append(h, ops...)
	}
	// the final state
	uniq := map[string]bool{}
	x.Solo(func() {
		for _, n := range names {
			if !uniq[n] {
				uniq[n] = true
				o := &c03op{kind: opGet, name: n, via: len(vias) - 1}
				do(o)
				h = append(h, o)
			}
		}
		o := &c03op{kind: opLen}
		do(o)
		h = append(h, o)
	})
	for _, o := range h {
		note(fmt.Sprintf("%d %s %d %d", o.kind, o.name, o.val, o.n))
		if o.badErr != "" {
			x.Failnow("result", "fetching %q returns %s", o.name, o.badErr)
		}
	}
	if !linearizable(h) {
		sort.SliceStable(h, func(i, j int) bool { return h[i].b < h[j].b })
		var l []string
		for _, o := range h {
			l = append(l, o.String())
		}
		x.Failnow("not-linearizable", "no sequential order explains: %s", strings.Join(l, "; "))
	}
	x.CheckLocks()
}

// linearizable searches for a sequential order (Wing and Gong, with memo).
func linearizable(h []*c03op) bool {
	n := len(h)
	seen := map[string]bool{}
	state := map[string]int{}
	var rec func(mask uint64) bool
	rec = func(mask uint64) bool {
		if mask == 1<<uint(n)-1 {
			return true
		}
		ks := make([]string, 0, len(state))
		for k, v := range state {
			ks = append(ks, fmt.Sprintf("%q=%d", k, v))
		}
		sort.Strings(ks)
		key := fmt.Sprintf("%x %s", mask, strings.Join(ks, ","))
		if seen[key] {
			return false
		}
		seen[key] = true
		min := ^uint64(0)
		for i, o := range h {
			if mask>>uint(i)&1 == 0 && o.e < min {
				min = o.e
			}
		}
		for i, o := range h {
			if mask>>uint(i)&1 != 0 || o.b > min {
				continue
			}
			old, had := state[o.name]
			switch o.kind {
			case opSet:
				state[o.name] = o.val
			case opGet:
				if !had {
					old = -1
				}
				if o.val != old {
					continue
				}
			case opLen:
				if o.n != len(state) {
					continue
				}
			}
			if rec(mask | 1<<uint(i)) {
				return true
			}
			if o.kind == opSet {
				if had {
					state[o.name] = old
				} else {
					delete(state, o.name)
				}
			}
		}
		return false
	}
	return rec(0)
}

// runC03Long compares a long history of one goroutine, while others only read,
// with a plain map.
func runC03Long(x *Ctx, vias []refMap) {
	n := []int{40, 150, 400, 1200}[x.Int(4)]
	pool := append([]string(nil), refNames...)
	for i := 0; i < n/2; i++ {
		pool = append(pool, fmt.Sprintf("#/definitions/n%d", x.Int(n)))
	}
	type op struct {
		kind int
		name string
		via  int
		c    jsval.Constraint
	}
	ops := make([]op, n)
	for i := range ops {
		ops[i] = op{kind: []int{0, 0, 0, 1, 1, 2}[x.Int(6)], name: pool[x.Int(len(pool))], via: x.Int(len(vias))}
		if ops[i].kind == opSet {
			ops[i].c = jsval.String().MaxLength(i)
		}
	}
	probe := pool[x.Int(len(pool))]
	model := map[string]jsval.Constraint{}
	maxLen := 0
	bad := ""
	writer := func() {
		for i, o := range ops {
			m := vias[o.via]
			switch o.kind {
			case opSet:
				m.SetReference(o.name, o.c)
				model[o.name] = o.c
			case opGet:
				c, err := m.GetReference(o.name)
				w, ok := model[o.name]
				if ok != (err == nil) || ok && c != w {
					bad = fmt.Sprintf("call %d: fetch %q: found %t, expected %t", i, o.name, err == nil, ok)
					return
				}
			case opLen:
				if l := m.Len(); l != len(model) {
					bad = fmt.Sprintf("call %d: count %d, expected %d", i, l, len(model))
					return
				}
			}
		}
		if len(model) > maxLen {
			maxLen = len(model)
		}
	}
	fns := []func(){writer}
	last := make([]int, 3)
	for r := 0; r < x.Int(3); r++ {
		r := r
		k := x.Range(3, 40)
		fns = append(fns, func() {
			found := false
			for i := 0; i < k; i++ {
				l := vias[i%len(vias)].Len()
				if l < last[r] {
					last[r] = -1000000
				} else {
					last[r] = l
				}
				_, err := vias[i%len(vias)].GetReference(probe)
				if err == nil {
					found = true
				} else if found {
					last[r] = -2000000
				}
			}
		})
	}
	x.Sim(fns...)
	if bad != "" {
		x.Failnow("long-history", "%s", bad)
	}
	for _, l := range last {
		if l < -1000000 {
			x.Failnow("long-history", "%q was found and later not found any more", probe)
		}
		if l < 0 {
			x.Failnow("long-history", "the count went down")
		}
	}
	x.ProbeN("long-history-names", maxLen)
	x.Solo(func() {
		for i := range pool {
			c, err := vias[0].GetReference(pool[i])
			w, ok := model[pool[i]]
			if ok != (err == nil) || ok && c != w {
				bad = fmt.Sprintf("at the end: fetch %q: found %t, expected %t", pool[i], err == nil, ok)
			}
		}
		if l := vias[len(vias)-1].Len(); l != len(model) {
			bad = fmt.Sprintf("at the end: count %d, expected %d", l, len(model))
		}
	})
	if bad != "" {
		x.Failnow("long-history", "%s", bad)
	}
	x.CheckLocks()
}
