package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"strings"

	"github.com/lestrrat-go/jsval"
)

// Validators for code generation. A group is a list of validators that are
// passed to the generator together.

var printOpt = Opt{Depth: 3, Width: 4, Refs: true, Defaults: true, NoNot: true, NoEnum: true, Pats: true, Printable: true}

// permJSON renders a document with the members of every object in an order
// that depends on the seed.
func permJSON(x *Ctx, v interface{}) []byte {
	var b bytes.Buffer
	var put func(v interface{})
	put = func(v interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			ks := sortedKeys(t)
			for i := len(ks) - 1; i > 0; i-- {
				j := x.Int(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
			b.WriteByte('{')
			for i, k := range ks {
				if i > 0 {
					b.WriteByte(',')
				}
				kb, _ := json.Marshal(k)
				b.Write(kb)
				b.WriteByte(':')
				put(t[k])
			}
			b.WriteByte('}')
		case []interface{}:
			b.WriteByte('[')
			for i, e := range t {
				if i > 0 {
					b.WriteByte(',')
				}
				put(e)
			}
			b.WriteByte(']')
		default:
			kb, err := json.Marshal(v)
			if err != nil {
				panic(err)
			}
			b.Write(kb)
		}
	}
	// through JSON, so that every list is []interface{}
	raw, _ := json.Marshal(v)
	var w interface{}
	if err := json.Unmarshal(raw, &w); err != nil {
		panic(err)
	}
	put(w)
	return b.Bytes()
}

// member describes one validator of a group.
type member struct {
	name string
	kind int // 0 the root, 1 the constraint of a definition, 2 a reference to a definition, 3 a separate equal root
	def  int
}

// group describes validators built from one specification that share its
// reference map.
type group struct {
	s       *Spec
	viaDoc  bool // a single validator from the builder
	mems    []member
	ordSeed uint64 // order in which rules are added; 0 means as listed
	dupPat  bool
	aliases int // further names for the root and for definitions
	large   int // bytes
}

func genGroup(x *Ctx, o Opt) *group {
	g := &group{s: GenSpec(x, o)}
	g.viaDoc = x.Bool()
	if g.viaDoc && x.Chance(1, 8) {
		g.s.crossRefs(x)
	}
	g.mems = []member{{}}
	if !g.viaDoc {
		for n := x.Int(4); n > 0; n-- {
			m := member{kind: x.Int(4)}
			if len(g.s.Defs) > 0 {
				m.def = x.Int(len(g.s.Defs))
			} else {
				m.kind = 3
			}
			g.mems = append(g.mems, m)
		}
		g.dupPat = x.Chance(1, 4) && x.Prop == "C07"
		g.aliases = x.Int(3)
	}
	for i := range g.mems {
		if x.Bool() {
			g.mems[i].name = string(rune('A'+x.Int(6))) + fmt.Sprint(i)
		}
	}
	return g
}

func (g *group) String() string {
	var l []string
	for _, m := range g.mems {
		n := m.name
		if n == "" {
			n = "(unnamed)"
		}
		l = append(l, n+[]string{"", "=definition", "=reference", "=separate root"}[m.kind])
	}
	via := "API"
	if g.viaDoc {
		via = "builder"
	}
	return fmt.Sprintf("validators %s of schema %s via %s, extra names %d, doubled patterns %v", strings.Join(l, ", "), clip(string(g.s.JSON())), via, g.aliases, g.dupPat)
}

func shuffleWith(y *Ctx, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	if y != nil {
		for i := n - 1; i > 0; i-- {
			j := y.Int(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

// build makes fresh validators. src, if given, is the document to use. y, if
// not nil, decides the order in which things are allocated and registered.
func (g *group) build(src []byte, y *Ctx) ([]*jsval.JSVal, error) {
	if g.viaDoc {
		v, err := BuildDoc(src)
		if err != nil {
			return nil, err
		}
		if g.mems[0].name != "" {
			v.SetName(g.mems[0].name)
		}
		return []*jsval.JSVal{v}, nil
	}
	v := jsval.New()
	var ballast [64]interface{}
	b := &builderCtx{v: v, perm: y, dupPat: g.dupPat}
	cs := make([]jsval.Constraint, len(g.s.Defs))
	for _, i := range shuffleWith(y, len(cs)) {
		cs[i] = b.build(g.s.Defs[i].N)
		if y != nil {
			ballast[y.Int(64)] = make([]byte, 16<<y.Int(5))
		}
	}
	root := b.build(g.s.Root)
	type reg struct {
		n string
		c jsval.Constraint
	}
	var regs []reg
	for i, d := range g.s.Defs {
		regs = append(regs, reg{d.Name, cs[i]})
		if i < g.aliases {
			regs = append(regs, reg{"#/alias/" + fmt.Sprint(i), cs[i]})
		}
	}
	regs = append(regs, reg{"#", root})
	for i := 0; i < g.aliases; i++ {
		regs = append(regs, reg{fmt.Sprintf("#/root%d", i), root})
	}
	for _, i := range shuffleWith(y, len(regs)) {
		v.SetReference(regs[i].n, regs[i].c)
	}
	var out []*jsval.JSVal
	for i, m := range g.mems {
		w := v
		if i > 0 {
			w = jsval.New().SetConstraintMap(v.ConstraintMap)
		}
		switch m.kind {
		case 1:
			w.SetRoot(cs[m.def])
		case 2:
			w.SetRoot(jsval.Reference(v).RefersTo(g.s.Defs[m.def].Name))
		case 3:
			w.SetRoot(b.build(g.s.Root))
		default:
			w.SetRoot(root)
		}
		if m.name != "" {
			w.SetName(m.name)
		}
		out = append(out, w)
	}
	runtime.KeepAlive(&ballast)
	return out, nil
}
