package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"net/mail"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"
)

// Kind of a specification node.
type Kind int

const (
	KStr Kind = iota
	KInt
	KNum
	KBool
	KNull
	KEmpty
	KArr
	KObj
	KAny
	KAll
	KOne
	KNot
	KRef
	KEnum
	KCustom // a user-supplied constraint; see custom.go
)

// Node describes a constraint independently of the library. It can be turned
// into a validator through the library's API, into a JSON schema, and it can be
// evaluated by the reference model in this file.
type Node struct {
	K      Kind
	HasDef bool
	Def    interface{}
	GoDef  int // Go type of a hand-made integer default

	MinL, MaxL int // -1 unset
	Pat        string
	Fmt        string
	Enum       []interface{}

	HasMin, HasMax bool
	Min, Max       float64
	ExMin, ExMax   bool
	Mult           float64

	Items      *Node
	Pos        []*Node
	AddItems   bool
	MinI, MaxI int
	Uniq       bool

	Props      []Prp
	Req        []string
	Pats       []Prp
	Add        int // 0 none allowed, 1 anything, 2 AddN
	AddN       *Node
	MinP, MaxP int
	PDeps      []Dep
	SDeps      []Prp

	Kids []*Node
	Ref  string
	Cust *custom

	// only in documents
	Ann      map[string]string
	Types    []string // instead of the node's own type
	Guess    bool     // no type
	AddItemN *Node    // additionalItems
	XReq     []string // required names that no rule knows
}

// Prp is a named (or pattern-named) node.
type Prp struct {
	Name string
	N    *Node
}

// Dep is a property dependency.
type Dep struct {
	From string
	To   []string
}

// Spec is a whole schema.
type Spec struct {
	Root *Node
	Defs []Prp // name is the full reference, e.g. #/definitions/d0
	// Hidden is a definition that is left out of the document.
	Hidden string
	rx     map[string]*regexp.Regexp
}

func (s *Spec) re(p string) *regexp.Regexp {
	if s.rx == nil {
		s.rx = map[string]*regexp.Regexp{}
	}
	if r := s.rx[p]; r != nil {
		return r
	}
	r := regexp.MustCompile(p)
	s.rx[p] = r
	return r
}

func (s *Spec) def(name string) *Node {
	if name == "#" {
		return s.Root
	}
	for i := range s.Defs {
		if s.Defs[i].Name == name {
			return s.Defs[i].N
		}
	}
	return nil
}

func newNode(k Kind) *Node {
	return &Node{K: k, MinL: -1, MaxL: -1, MinI: -1, MaxI: -1, MinP: -1, MaxP: -1}
}

// --- generation ---------------------------------------------------------------

// Opt limits what the generator produces.
type Opt struct {
	Depth     int
	Width     int  // properties per object
	Refs      bool // references to definitions
	Defaults  bool
	NoCombo   bool
	NoNot     bool
	NoEnum    bool // no bare enum nodes
	NumEnum   bool // enumerations on numbers (the builder loses them)
	Pats      bool
	SchemaDep bool
	Printable bool // only what the generator prints faithfully enough to be deterministic
	ObjRoot   bool
	Ints      bool // numbers only as integers
	DefRate   int  // of 5, how often a default; 0 means 2
	Wide      bool // many definitions, patterns and dependencies
	ComboDef  bool // defaults also inside combinations
}

var stdOpt = Opt{Depth: 3, Width: 4, Refs: true, Defaults: true, NumEnum: true, Pats: true, SchemaDep: true}

var propNames = []string{"a", "b", "c", "d", "e", "f", "aa", "ab", "xa", "xb", "name", "x1", "x2", "k9"}
var widePool = append([]string{"p00", "p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19"}, propNames...)
var patterns = []string{"^x", "^a", "b$", "[0-9]$", "^k", "a"}
var strPats = []string{"^[a-z]+$", "^[0-9]+$", "a", "^(foo|bar)$", "^.{2,4}$"}
var strPool = []string{"", "a", "b", "ab", "abc", "foo", "bar", "foobar", "12", "1", "0", "true", "a1", "zzzzzz", "longer string", "<nil>", "1.5", "x@y.zz", "192.168.0.1", "http://h/p", "A", "::1", "2016-01-02T03:04:05Z", "a-.b"}
var numPool = []float64{0, 1, 2, 3, 5, 7, 10, -1, -5, 1.5, 2.5, 100, 0.5, 12}
var formats = []string{"email", "ipv4", "uri", "hostname", "ipv6", "datetime"}

type gen struct {
	x    *Ctx
	o    Opt
	s    *Spec
	noDf int // >0: no defaults here
	size int
}

// GenSpec draws a specification.
func GenSpec(x *Ctx, o Opt) *Spec {
	g := &gen{x: x, o: o, s: &Spec{}}
	nd := 0
	if o.Refs {
		nd = x.Int(4)
		if o.Wide {
			nd = x.Range(5, 16)
		}
	}
	for i := 0; i < nd; i++ {
		g.s.Defs = append(g.s.Defs, Prp{Name: fmt.Sprintf("#/definitions/d%d", i)})
	}
	for i := 0; i < nd; i++ {
		// definition i may refer to later ones and, below an object, to any
		g.s.Defs[i].N = g.node(o.Depth-1, i+1, false)
	}
	if o.ObjRoot || !x.Chance(1, 5) {
		g.s.Root = g.obj(o.Depth, 0)
	} else {
		g.s.Root = g.node(o.Depth, 0, true)
	}
	return g.s
}

// node draws a node; refs to definitions with index >= lo are allowed directly.
func (g *gen) node(depth, lo int, root bool) *Node {
	x := g.x
	g.size++
	w := []int{6, 4, 3, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1}
	if g.o.NoEnum {
		w[KEnum] = 0
	}
	if g.size > 40 && !g.o.Wide || g.size > 150 {
		depth = 0
	}
	if depth > 0 {
		w[KArr], w[KObj] = 3, 6
		if !g.o.NoCombo {
			w[KAny], w[KAll], w[KOne], w[KNot] = 2, 1, 2, 1
		}
		if g.o.NoNot {
			w[KNot] = 0
		}
	}
	if !root && len(g.s.Defs) > lo {
		w[KRef] = 5
	}
	t := 0
	for _, v := range w {
		t += v
	}
	r := x.Int(t)
	k := KStr
	for i, v := range w {
		if r < v {
			k = Kind(i)
			break
		}
		r -= v
	}
	switch k {
	case KStr:
		return g.str()
	case KInt, KNum:
		return g.num(k)
	case KBool:
		n := newNode(KBool)
		if g.defOK() {
			n.HasDef, n.Def = true, x.Bool()
		}
		return n
	case KArr:
		return g.arr(depth, lo)
	case KObj:
		return g.obj(depth, lo)
	case KAny, KAll, KOne:
		n := newNode(k)
		g.noDf++
		for i := x.Range(2, 3); i > 0; i-- {
			n.Kids = append(n.Kids, g.node(depth-1, lo, root))
		}
		g.noDf--
		return n
	case KNot:
		n := newNode(KNot)
		g.noDf++
		n.Kids = []*Node{g.node(depth-1, lo, root)}
		g.noDf--
		return n
	case KRef:
		n := newNode(KRef)
		n.Ref = g.s.Defs[lo+x.Int(len(g.s.Defs)-lo)].Name
		return n
	case KEnum:
		n := newNode(KEnum)
		for i := x.Range(1, 3); i > 0; i-- {
			if x.Bool() {
				n.Enum = append(n.Enum, x.Pick(strPool))
			} else {
				n.Enum = append(n.Enum, numPool[x.Int(len(numPool))])
			}
		}
		return n
	}
	return newNode(k)
}

func (g *gen) defOK() bool {
	r := g.o.DefRate
	if r == 0 {
		r = 2
	}
	return g.o.Defaults && (g.noDf == 0 || g.o.ComboDef) && g.x.Chance(r, 5)
}

func (g *gen) str() *Node {
	x := g.x
	n := newNode(KStr)
	switch x.Int(6) {
	case 0:
		n.MaxL = x.Range(0, 6)
	case 1:
		n.MinL = x.Range(1, 3)
		n.MaxL = n.MinL + x.Int(4)
	case 2:
		n.Pat = x.Pick(strPats)
	case 3:
		for i := x.Range(1, 3); i > 0; i-- {
			n.Enum = append(n.Enum, x.Pick(strPool))
		}
	case 4:
		if x.Bool() {
			n.Fmt = x.Pick(formats)
		}
	}
	if g.defOK() {
		n.HasDef, n.Def = true, x.Pick(strPool)
	}
	return n
}

func (g *gen) num(k Kind) *Node {
	x := g.x
	n := newNode(k)
	switch x.Int(6) {
	case 0:
		n.HasMin, n.Min, n.ExMin = true, float64(x.Range(-2, 5)), x.Bool()
	case 1:
		n.HasMax, n.Max, n.ExMax = true, float64(x.Range(0, 8)), x.Bool()
	case 2:
		n.HasMin, n.Min = true, float64(x.Range(-2, 3))
		n.HasMax, n.Max = true, n.Min+float64(x.Range(1, 6))
	case 3:
		if !g.o.Printable {
			n.Mult = float64(x.Range(2, 4))
		}
	case 4:
		if g.o.NumEnum {
			for i := x.Range(1, 3); i > 0; i-- {
				n.Enum = append(n.Enum, numPool[x.Int(len(numPool))])
			}
		}
	}
	if g.defOK() {
		n.HasDef = true
		if k == KInt {
			n.Def = float64(x.Range(-3, 20))
			n.GoDef = x.Int(6)
		} else {
			n.Def = numPool[x.Int(len(numPool))]
		}
	}
	return n
}

func (g *gen) arr(depth, lo int) *Node {
	x := g.x
	n := newNode(KArr)
	switch x.Int(4) {
	case 0:
		for i := x.Range(1, 3); i > 0; i-- {
			n.Pos = append(n.Pos, g.node(depth-1, lo, false))
		}
		n.AddItems = x.Bool()
	case 1:
		n.Items = newNode(KStr)
		n.Uniq = true
	default:
		n.Items = g.node(depth-1, lo, false)
	}
	if x.Chance(1, 3) {
		n.MinI = x.Range(0, 2)
	}
	if x.Chance(1, 3) {
		n.MaxI = x.Range(2, 5)
	}
	return n
}

func (g *gen) obj(depth, lo int) *Node {
	x := g.x
	n := newNode(KObj)
	np := x.Range(1, g.o.Width)
	pool := propNames
	if g.o.Wide {
		pool = widePool
		if depth < g.o.Depth && np > 4 {
			np = 4
		}
	}
	used := map[string]bool{}
	for i := 0; i < np; i++ {
		nm := x.Pick(pool)
		if used[nm] {
			continue
		}
		used[nm] = true
		var c *Node
		if x.Chance(1, 14) && g.o.Refs && len(g.s.Defs) > 0 {
			// a reference that may be cyclic: it sits below an object
			c = newNode(KRef)
			c.Ref = g.s.Defs[x.Int(len(g.s.Defs))].Name
			if x.Chance(1, 3) {
				c.Ref = "#"
			}
			if g.noDf > 0 {
				c = g.node(0, lo, false)
			}
		} else {
			c = g.node(depth-1, lo, false)
		}
		n.Props = append(n.Props, Prp{nm, c})
		if x.Chance(1, 4) {
			n.Req = append(n.Req, nm)
		}
	}
	if g.o.Pats && x.Chance(1, 3) {
		seen := map[string]bool{}
		np := x.Range(1, 2)
		if g.o.Wide {
			np = x.Range(2, 6)
		}
		for i := np; i > 0; i-- {
			p := x.Pick(patterns)
			if seen[p] {
				continue
			}
			seen[p] = true
			n.Pats = append(n.Pats, Prp{p, g.node(depth-1, lo, false)})
		}
	}
	switch x.Int(4) {
	case 0, 1:
		n.Add = 1
	case 2:
		n.Add = 2
		n.AddN = g.node(depth-1, lo, false)
	}
	if !g.o.Printable {
		if x.Chance(1, 10) {
			n.MinP = x.Range(1, 2)
		}
		if x.Chance(1, 10) {
			n.MaxP = x.Range(2, 6)
		}
	}
	if len(n.Props) > 1 && x.Chance(1, 4) {
		f := n.Props[x.Int(len(n.Props))].Name
		d := Dep{From: f}
		for i := x.Range(1, 2); i > 0; i-- {
			d.To = append(d.To, n.Props[x.Int(len(n.Props))].Name)
		}
		n.PDeps = append(n.PDeps, d)
		if x.Chance(1, 3) {
			// a chain of dependencies
			f2 := d.To[0]
			if f2 != f {
				n.PDeps = append(n.PDeps, Dep{From: f2, To: []string{n.Props[x.Int(len(n.Props))].Name}})
			}
		}
	} else if g.o.SchemaDep && !g.o.Printable && x.Chance(1, 6) {
		f := n.Props[x.Int(len(n.Props))].Name
		sd := newNode(KObj)
		sd.Add = 1
		for _, p := range n.Props {
			if p.Name != f && !g.mayDefault(p.N) && x.Bool() {
				c := newNode(KEmpty)
				if x.Bool() {
					c = g.plain()
				}
				sd.Props = append(sd.Props, Prp{p.Name, c})
				if x.Bool() {
					sd.Req = append(sd.Req, p.Name)
				}
			}
		}
		if len(sd.Props) > 0 {
			n.SDeps = append(n.SDeps, Prp{f, sd})
		}
	}
	return n
}

func (g *gen) plain() *Node {
	g.noDf++
	defer func() { g.noDf-- }()
	if g.x.Bool() {
		return g.str()
	}
	return g.num(KInt)
}

func (g *gen) mayDefault(n *Node) bool { return n.HasDef || n.K == KRef || n.K == KObj }

// defaultOf follows references to a default.
func (s *Spec) defaultOf(n *Node) (interface{}, bool) {
	for i := 0; n != nil && n.K == KRef && i < 20; i++ {
		n = s.def(n.Ref)
	}
	if n == nil || n.K == KRef || !n.HasDef {
		return nil, false
	}
	return n.Def, true
}

// resolve follows references.
func (s *Spec) resolve(n *Node) *Node {
	for i := 0; n != nil && n.K == KRef && i < 20; i++ {
		n = s.def(n.Ref)
	}
	return n
}

// HasDefaults tells whether validation may write to an input.
func (s *Spec) HasDefaults() bool {
	found := false
	s.walk(func(n *Node) {
		if n.HasDef {
			found = true
		}
	})
	return found
}

func (s *Spec) walk(f func(n *Node)) {
	var rec func(n *Node)
	rec = func(n *Node) {
		if n == nil {
			return
		}
		f(n)
		rec(n.Items)
		for _, c := range n.Pos {
			rec(c)
		}
		for _, c := range n.Kids {
			rec(c)
		}
		for _, p := range n.Props {
			rec(p.N)
		}
		for _, p := range n.Pats {
			rec(p.N)
		}
		for _, p := range n.SDeps {
			rec(p.N)
		}
		rec(n.AddN)
	}
	rec(s.Root)
	for _, d := range s.Defs {
		if strings.HasPrefix(d.Name, "#/properties/") {
			continue // part of the root
		}
		rec(d.N)
	}
}

// unsafeDefaults reports a default below any/one/all/not or in a dependency,
// reached also through references: there the model of the final input does not
// apply.
func (s *Spec) unsafeDefaults() bool {
	bad := false
	type key struct {
		n  *Node
		in bool
	}
	seen := map[key]bool{}
	var rec func(n *Node, in bool)
	rec = func(n *Node, in bool) {
		if n == nil || bad || seen[key{n, in}] {
			return
		}
		seen[key{n, in}] = true
		if in && n.K == KObj {
			for _, p := range n.Props {
				if _, ok := s.defaultOf(p.N); ok {
					bad = true
				}
			}
		}
		combo := n.K == KAny || n.K == KAll || n.K == KOne || n.K == KNot
		rec(n.Items, in)
		for _, c := range n.Pos {
			rec(c, in)
		}
		for _, c := range n.Kids {
			rec(c, in || combo)
		}
		for _, p := range n.Props {
			rec(p.N, in)
		}
		for _, p := range n.Pats {
			// a property may match several patterns
			rec(p.N, in || len(n.Pats) > 1)
		}
		for _, p := range n.SDeps {
			rec(p.N, true)
		}
		rec(n.AddN, in)
		if n.K == KRef {
			rec(s.def(n.Ref), in)
		}
	}
	rec(s.Root, false)
	return bad
}

// GenFillSpec draws a specification for which the model predicts the final
// input.
func GenFillSpec(x *Ctx, o Opt) *Spec {
	for i := 0; ; i++ {
		s := GenSpec(x, o)
		if !s.unsafeDefaults() {
			return s
		}
		if i == 8 {
			o.NoCombo = true
			o.SchemaDep = false
			o.Pats = false
		}
	}
}

// --- the library's API -----------------------------------------------------------

type builderCtx struct {
	v      jsval.RefResolver
	raw    map[*Node]jsval.Constraint
	perm   *Ctx // order in which the rules of an object are added; nil: as listed
	dupPat bool // register patterns a second time with another constraint
}

// Direct builds the validator through the API.
func (s *Spec) Direct() *jsval.JSVal {
	v := jsval.New()
	b := &builderCtx{v: v}
	for _, d := range s.Defs {
		v.SetReference(d.Name, b.build(d.N))
	}
	c := b.build(s.Root)
	v.SetReference("#", c)
	v.SetRoot(c)
	return v
}

// DirectNoSelf is Direct without the reference to the root itself.
func (s *Spec) DirectNoSelf() *jsval.JSVal {
	v := jsval.New()
	b := &builderCtx{v: v}
	for _, d := range s.Defs {
		v.SetReference(d.Name, b.build(d.N))
	}
	v.SetRoot(b.build(s.Root))
	return v
}

func (b *builderCtx) build(n *Node) jsval.Constraint {
	switch n.K {
	case KStr:
		c := jsval.String()
		if n.MinL >= 0 {
			c.MinLength(n.MinL)
		}
		if n.MaxL >= 0 {
			c.MaxLength(n.MaxL)
		}
		if n.Pat != "" {
			c.RegexpString(n.Pat)
		}
		if n.Fmt != "" {
			c.Format(n.Fmt)
		}
		if len(n.Enum) > 0 {
			c.Enum(append([]interface{}(nil), n.Enum...)...)
		}
		if n.HasDef {
			c.Default(n.Def)
		}
		return c
	case KInt:
		c := jsval.Integer()
		if n.HasMin {
			c.Minimum(n.Min)
			c.ExclusiveMinimum(n.ExMin)
		}
		if n.HasMax {
			c.Maximum(n.Max)
			c.ExclusiveMaximum(n.ExMax)
		}
		if n.Mult != 0 {
			c.MultipleOf(n.Mult)
		}
		if len(n.Enum) > 0 {
			c.Enum(append([]interface{}(nil), n.Enum...)...)
		}
		if n.HasDef {
			c.Default(n.goDef())
		}
		return c
	case KNum:
		c := jsval.Number()
		if n.HasMin {
			c.Minimum(n.Min)
			c.ExclusiveMinimum(n.ExMin)
		}
		if n.HasMax {
			c.Maximum(n.Max)
			c.ExclusiveMaximum(n.ExMax)
		}
		if n.Mult != 0 {
			c.MultipleOf(n.Mult)
		}
		if len(n.Enum) > 0 {
			c.Enum(append([]interface{}(nil), n.Enum...)...)
		}
		if n.HasDef {
			c.Default(n.Def)
		}
		return c
	case KBool:
		c := jsval.Boolean()
		if n.HasDef {
			c.Default(n.Def)
		}
		return c
	case KNull:
		return jsval.NullConstraint
	case KEmpty:
		return jsval.EmptyConstraint
	case KArr:
		c := jsval.Array()
		if n.Items != nil {
			c.Items(b.build(n.Items))
		}
		if len(n.Pos) > 0 {
			var l []jsval.Constraint
			for _, p := range n.Pos {
				l = append(l, b.build(p))
			}
			c.PositionalItems(l)
			if n.AddItemN != nil {
				c.AdditionalItems(b.build(n.AddItemN))
			} else if n.AddItems {
				c.AdditionalItems(jsval.EmptyConstraint)
			} else {
				c.AdditionalItems(nil)
			}
		}
		if n.MinI >= 0 {
			c.MinItems(n.MinI)
		}
		if n.MaxI >= 0 {
			c.MaxItems(n.MaxI)
		}
		if n.Uniq {
			c.UniqueItems(true)
		}
		return c
	case KObj:
		return b.obj(n)
	case KAny:
		c := jsval.Any()
		for _, k := range n.Kids {
			c.Add(b.build(k))
		}
		return c
	case KAll:
		c := jsval.All()
		for _, k := range n.Kids {
			c.Add(b.build(k))
		}
		return c
	case KOne:
		c := jsval.OneOf()
		for _, k := range n.Kids {
			c.Add(b.build(k))
		}
		return c
	case KNot:
		return jsval.Not(b.build(n.Kids[0]))
	case KRef:
		return jsval.Reference(b.v).RefersTo(n.Ref)
	case KEnum:
		return jsval.Enum(append([]interface{}(nil), n.Enum...)...)
	case KCustom:
		return n.Cust
	}
	panic("kind")
}

func (b *builderCtx) obj(n *Node) jsval.Constraint {
	c := jsval.Object()
	for _, i := range shuffleWith(b.perm, len(n.Props)) {
		c.AddProp(n.Props[i].Name, b.build(n.Props[i].N))
	}
	for _, i := range shuffleWith(b.perm, len(n.Req)) {
		c.Required(n.Req[i])
	}
	for _, i := range shuffleWith(b.perm, len(n.Pats)) {
		p := n.Pats[i]
		two := []jsval.Constraint{b.build(p.N)}
		if b.dupPat {
			two = append(two, jsval.All().Add(b.build(p.N)), jsval.EmptyConstraint)
		}
		for _, j := range shuffleWith(b.perm, len(two)) {
			c.PatternPropertiesString(p.Name, two[j])
		}
	}
	switch n.Add {
	case 1:
		c.AdditionalProperties(jsval.EmptyConstraint)
	case 2:
		c.AdditionalProperties(b.build(n.AddN))
	}
	if n.MinP >= 0 {
		c.MinProperties(n.MinP)
	}
	if n.MaxP >= 0 {
		c.MaxProperties(n.MaxP)
	}
	for _, d := range n.PDeps {
		c.PropDependency(d.From, d.To...)
	}
	for _, d := range n.SDeps {
		c.SchemaDependency(d.Name, b.build(d.N))
	}
	if b.raw != nil {
		b.raw[n] = c
	}
	return c
}

func (n *Node) goDef() interface{} {
	f := n.Def.(float64)
	switch n.GoDef {
	case 1:
		return int(f)
	case 2:
		return int64(f)
	case 3:
		if f >= 0 {
			return uint8(f)
		}
	}
	return f
}

// crossRefs adds references to properties and to definitions of the same names.
func (s *Spec) crossRefs(x *Ctx) {
	r := s.Root
	if r.K != KObj || len(r.Props) == 0 {
		return
	}
	x.Probe("references across the document")
	have := map[string]bool{}
	for _, p := range r.Props {
		have[p.Name] = true
	}
	for i := x.Range(1, 2); i > 0; i-- {
		p := r.Props[x.Int(len(r.Props))]
		if p.N.K == KRef || have["to"+p.Name] || strings.ContainsAny(p.Name, "/~% ") {
			continue
		}
		have["to"+p.Name] = true
		a, b := newNode(KRef), newNode(KRef)
		a.Ref, b.Ref = "#/properties/"+p.Name, "#/definitions/"+p.Name
		s.Defs = append(s.Defs, Prp{a.Ref, p.N})
		r.Props = append(r.Props, Prp{"to" + p.Name, a})
		if s.def(b.Ref) == nil {
			k := []Kind{KStr, KInt, KBool, KArr, KObj}[x.Int(5)]
			s.Defs = append(s.Defs, Prp{b.Ref, newNode(k)})
			r.Props = append(r.Props, Prp{"def" + p.Name, b})
		}
	}
}

// --- JSON schema ---------------------------------------------------------------------

// Doc renders the specification as a JSON schema document.
func (s *Spec) Doc() map[string]interface{} {
	m := s.doc(s.Root)
	if len(s.Defs) > 0 {
		d := map[string]interface{}{}
		for _, p := range s.Defs {
			if n := strings.TrimPrefix(p.Name, "#/definitions/"); n != p.Name && n != s.Hidden {
				d[n] = s.doc(p.N)
			}
		}
		m["definitions"] = d
	}
	return m
}

// JSON is the document as text.
func (s *Spec) JSON() []byte {
	b, err := json.Marshal(s.Doc())
	if err != nil {
		panic(err)
	}
	return b
}

func (s *Spec) doc(n *Node) map[string]interface{} {
	m := map[string]interface{}{}
	list := func(l []*Node) []interface{} {
		var o []interface{}
		for _, c := range l {
			o = append(o, s.doc(c))
		}
		return o
	}
	switch n.K {
	case KStr:
		m["type"] = "string"
		if n.MinL >= 0 {
			m["minLength"] = n.MinL
		}
		if n.MaxL >= 0 {
			m["maxLength"] = n.MaxL
		}
		if n.Pat != "" {
			m["pattern"] = n.Pat
		}
		if n.Fmt != "" {
			m["format"] = n.Fmt
		}
		if len(n.Enum) > 0 {
			m["enum"] = n.Enum
		}
	case KInt, KNum:
		m["type"] = "integer"
		if n.K == KNum {
			m["type"] = "number"
		}
		if n.HasMin {
			m["minimum"] = n.Min
			if n.ExMin {
				m["exclusiveMinimum"] = true
			}
		}
		if n.HasMax {
			m["maximum"] = n.Max
			if n.ExMax {
				m["exclusiveMaximum"] = true
			}
		}
		if n.Mult != 0 {
			m["multipleOf"] = n.Mult
		}
		if len(n.Enum) > 0 {
			m["enum"] = n.Enum
		}
	case KBool:
		m["type"] = "boolean"
	case KNull:
		m["type"] = "null"
	case KArr:
		m["type"] = "array"
		if n.Items != nil {
			m["items"] = s.doc(n.Items)
		}
		if len(n.Pos) > 0 {
			m["items"] = list(n.Pos)
			if !n.AddItems {
				m["additionalItems"] = false
			} else if n.AddItemN != nil {
				m["additionalItems"] = s.doc(n.AddItemN)
			}
		}
		if n.MinI >= 0 {
			m["minItems"] = n.MinI
		}
		if n.MaxI >= 0 {
			m["maxItems"] = n.MaxI
		}
		if n.Uniq {
			m["uniqueItems"] = true
		}
	case KObj:
		m["type"] = "object"
		if len(n.Props) > 0 {
			ps := map[string]interface{}{}
			for _, p := range n.Props {
				ps[p.Name] = s.doc(p.N)
			}
			m["properties"] = ps
		}
		if len(n.Req)+len(n.XReq) > 0 {
			m["required"] = append(append([]string(nil), n.Req...), n.XReq...)
		}
		if len(n.Pats) > 0 {
			ps := map[string]interface{}{}
			for _, p := range n.Pats {
				ps[p.Name] = s.doc(p.N)
			}
			m["patternProperties"] = ps
		}
		switch n.Add {
		case 0:
			m["additionalProperties"] = false
		case 2:
			m["additionalProperties"] = s.doc(n.AddN)
		}
		if n.MinP >= 0 {
			m["minProperties"] = n.MinP
		}
		if n.MaxP >= 0 {
			m["maxProperties"] = n.MaxP
		}
		if len(n.PDeps)+len(n.SDeps) > 0 {
			d := map[string]interface{}{}
			for _, p := range n.PDeps {
				d[p.From] = p.To
			}
			for _, p := range n.SDeps {
				d[p.Name] = s.doc(p.N)
			}
			m["dependencies"] = d
		}
	case KAny:
		m["anyOf"] = list(n.Kids)
	case KAll:
		m["allOf"] = list(n.Kids)
	case KOne:
		m["oneOf"] = list(n.Kids)
	case KNot:
		m["not"] = s.doc(n.Kids[0])
	case KRef:
		m["$ref"] = n.Ref
	case KEnum:
		m["enum"] = n.Enum
	}
	if n.HasDef {
		m["default"] = n.Def
	}
	for k, v := range n.Ann {
		m[k] = v
	}
	if len(n.Types) > 0 {
		m["type"] = n.Types
	}
	if n.Guess {
		delete(m, "type")
	}
	return m
}

var typeNames = []string{"string", "integer", "number", "boolean", "null", "array", "object"}

// decorate adds to the documents of the schema what the model knows nothing
// of: annotations, lists of types, schemas without type. Only for checks that
// compare the code with itself.
func (s *Spec) decorate(x *Ctx) {
	rate := []int{0, 12, 4}[x.Int(3)]
	if rate == 0 {
		return
	}
	s.walk(func(n *Node) {
		if n.K == KRef {
			return
		}
		if x.Chance(1, rate) {
			n.Ann = map[string]string{}
			for _, k := range []string{"id", "title", "description", "$schema"} {
				if x.Bool() {
					n.Ann[k] = x.Pick([]string{"http://example.com/a", "http://example.com/b", "a"})
				}
			}
		}
		if n.K == KArr && len(n.Pos) > 0 && n.AddItems && x.Bool() {
			n.AddItemN = newNode([]Kind{KStr, KBool, KInt}[x.Int(3)])
			if len(s.Defs) > 0 && x.Bool() {
				n.AddItemN = newNode(KRef)
				n.AddItemN.Ref = s.Defs[x.Int(len(s.Defs))].Name
			}
		}
		if n.K == KObj && len(n.Props) > 0 && x.Chance(1, rate) {
			n.XReq = append(n.XReq, x.Pick([]string{"zz1", "zz2", "zz 3"}))
		}
		if !x.Chance(1, rate) {
			return
		}
		own := ""
		switch n.K {
		case KStr, KInt, KNum, KBool, KNull, KArr, KObj:
			own = s.doc(n)["type"].(string)
			if x.Chance(1, 5) {
				n.Guess = true
				return
			}
		case KEmpty:
		default:
			return
		}
		pool := typeNames
		if len(n.Enum) > 0 {
			pool = []string{"boolean", "null", "object", "array"}
		}
		if own != "" {
			n.Types = []string{own}
		}
		for k := x.Range(1, 3); k > 0; k-- {
			t := x.Pick(pool)
			dup := false
			for _, u := range n.Types {
				dup = dup || t == u
			}
			if !dup {
				n.Types = append(n.Types, t)
			}
		}
		for i := len(n.Types) - 1; i > 0; i-- {
			j := x.Int(i + 1)
			n.Types[i], n.Types[j] = n.Types[j], n.Types[i]
		}
	})
	// the documents of one server or registry often carry the same id
	if x.Bool() {
		if s.Root.Ann == nil {
			s.Root.Ann = map[string]string{}
		}
		s.Root.Ann["id"] = x.Pick([]string{"http://example.com/a", "http://example.com/b"})
	}
}

var hostRx = regexp.MustCompile(`^([A-Za-z0-9_]([A-Za-z0-9_-]{0,61}[A-Za-z0-9_])?\.)*([A-Za-z0-9_]([A-Za-z0-9_-]{0,61}[A-Za-z0-9_])?)?$`)

func isHost(t string) bool {
	return t != "" && len(t) <= 255 && hostRx.MatchString(t) && strings.ContainsAny(t, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
}

// --- reference model -------------------------------------------------------------------

// Eval decides whether the value satisfies the node. It does not write.
func (s *Spec) Eval(n *Node, v interface{}) bool { return s.eval(n, v, 0) }

func (s *Spec) eval(n *Node, v interface{}, d int) bool {
	if d > 200 {
		panic(abortHarness("model recursion"))
	}
	switch n.K {
	case KEmpty:
		return true
	case KNull:
		return v == nil
	case KBool:
		_, ok := v.(bool)
		return ok
	case KStr:
		t, ok := v.(string)
		if !ok {
			return false
		}
		if n.MinL >= 0 && len(t) < n.MinL || n.MaxL >= 0 && len(t) > n.MaxL {
			return false
		}
		if n.Pat != "" && !s.re(n.Pat).MatchString(t) {
			return false
		}
		switch n.Fmt {
		case "email":
			if _, err := mail.ParseAddress(t); err != nil {
				return false
			}
		case "ipv4":
			if net.ParseIP(t) == nil || strings.Contains(t, ":") {
				return false
			}
		case "uri":
			if _, err := url.Parse(t); err != nil {
				return false
			}
		case "hostname":
			if !isHost(t) {
				return false
			}
		case "ipv6":
			if net.ParseIP(t) == nil || strings.Trim(t, "0123456789:") != "" {
				return false
			}
		case "datetime":
			if _, err := time.Parse(time.RFC3339, t); err != nil {
				return false
			}
		}
		return inEnum(n, v)
	case KInt, KNum:
		f, ok := v.(float64)
		if !ok {
			return false
		}
		if n.K == KInt && math.Floor(f) != f {
			return false
		}
		if n.HasMin && (f < n.Min || n.ExMin && f == n.Min) {
			return false
		}
		if n.HasMax && (f > n.Max || n.ExMax && f == n.Max) {
			return false
		}
		if n.Mult != 0 && math.Mod(f, n.Mult) != 0 {
			return false
		}
		return inEnum(n, v)
	case KEnum:
		return inEnum(n, v)
	case KArr:
		l, ok := v.([]interface{})
		if !ok {
			return false
		}
		if n.MinI >= 0 && len(l) < n.MinI || n.MaxI >= 0 && len(l) > n.MaxI {
			return false
		}
		if n.Uniq {
			seen := map[interface{}]bool{}
			for _, e := range l {
				k := fmt.Sprintf("%s", e)
				if seen[k] {
					return false
				}
				seen[k] = true
			}
		}
		if n.Items != nil {
			for _, e := range l {
				if !s.eval(n.Items, e, d+1) {
					return false
				}
			}
			return true
		}
		for i, p := range n.Pos {
			if i < len(l) && !s.eval(p, l[i], d+1) {
				return false
			}
		}
		return len(n.Pos) == 0 || len(l) <= len(n.Pos) || n.AddItems
	case KObj:
		return s.evalObj(n, v, d)
	case KAny:
		for _, k := range n.Kids {
			if s.eval(k, v, d+1) {
				return true
			}
		}
		return false
	case KAll:
		for _, k := range n.Kids {
			if !s.eval(k, v, d+1) {
				return false
			}
		}
		return true
	case KOne:
		c := 0
		for _, k := range n.Kids {
			if s.eval(k, v, d+1) {
				c++
			}
		}
		return c == 1
	case KNot:
		return !s.eval(n.Kids[0], v, d+1)
	case KRef:
		return s.eval(s.def(n.Ref), v, d+1)
	case KCustom:
		return n.Cust.model(v)
	}
	panic("kind")
}

func inEnum(n *Node, v interface{}) bool {
	if len(n.Enum) == 0 {
		return true
	}
	switch v.(type) {
	case string, float64, bool, nil:
	default:
		return false
	}
	for _, e := range n.Enum {
		if e == v {
			return true
		}
	}
	return false
}

func (s *Spec) evalObj(n *Node, v interface{}, d int) bool {
	m, ok := v.(map[string]interface{})
	if !ok {
		return false
	}
	if n.MinP >= 0 && len(m) < n.MinP || n.MaxP >= 0 && len(m) > n.MaxP {
		return false
	}
	seen := map[string]bool{}
	decl := map[string]bool{}
	for _, p := range n.Props {
		decl[p.Name] = true
		e, ok := m[p.Name]
		if !ok {
			for _, r := range n.Req {
				if r == p.Name {
					return false
				}
			}
			continue
		}
		seen[p.Name] = true
		if !s.eval(p.N, e, d+1) {
			return false
		}
	}
	for k, e := range m {
		if decl[k] {
			continue
		}
		matched := false
		for _, p := range n.Pats {
			if s.re(p.Name).MatchString(k) {
				matched = true
				if !s.eval(p.N, e, d+1) {
					return false
				}
			}
		}
		if matched {
			seen[k] = true
			continue
		}
		if n.Add == 0 {
			return false
		}
		if n.Add == 2 && !s.eval(n.AddN, e, d+1) {
			return false
		}
	}
	for _, dp := range n.PDeps {
		if !seen[dp.From] {
			continue
		}
		for _, t := range dp.To {
			if !seen[t] {
				return false
			}
		}
	}
	for _, dp := range n.SDeps {
		if seen[dp.Name] && !s.eval(dp.N, v, d+1) {
			return false
		}
	}
	return true
}

// Fill returns the input after a successful validation: a copy with the
// defaults of absent properties added. Only meaningful when unsafeDefaults is
// false.
func (s *Spec) Fill(n *Node, v interface{}) interface{} {
	switch n.K {
	case KRef:
		return s.Fill(s.def(n.Ref), v)
	case KArr:
		l, ok := v.([]interface{})
		if !ok {
			return v
		}
		o := make([]interface{}, len(l))
		for i, e := range l {
			o[i] = e
			switch {
			case n.Items != nil:
				o[i] = s.Fill(n.Items, e)
			case i < len(n.Pos):
				o[i] = s.Fill(n.Pos[i], e)
			}
		}
		return o
	case KObj:
		m, ok := v.(map[string]interface{})
		if !ok {
			return v
		}
		o := map[string]interface{}{}
		decl := map[string]bool{}
		for _, p := range n.Props {
			decl[p.Name] = true
			if e, ok := m[p.Name]; ok {
				o[p.Name] = s.Fill(p.N, e)
			} else if def, ok := s.defaultOf(p.N); ok && !n.requires(p.Name) {
				o[p.Name] = def
			}
		}
		for k, e := range m {
			if decl[k] {
				continue
			}
			o[k] = e
			matched := false
			for _, p := range n.Pats {
				if s.re(p.Name).MatchString(k) {
					o[k] = s.Fill(p.N, o[k])
					matched = true
				}
			}
			if !matched && n.Add == 2 {
				o[k] = s.Fill(n.AddN, e)
			}
		}
		return o
	}
	return v
}

// Filled tells whether out can be what in became by a successful validation,
// also below combinations: everything that was there is still there, all that
// came in are defaults of that name, and the defaults of every object that must
// have been satisfied have come in.
func (s *Spec) Filled(in, out interface{}) (bool, string) {
	defs := map[string]map[string]bool{}
	s.walk(func(n *Node) {
		for _, p := range n.Props {
			if d, ok := s.defaultOf(p.N); ok {
				if defs[p.Name] == nil {
					defs[p.Name] = map[string]bool{}
				}
				defs[p.Name][text(d)] = true
			}
		}
	})
	var grown func(in, out interface{}) string
	grown = func(in, out interface{}) string {
		switch a := in.(type) {
		case map[string]interface{}:
			b, ok := out.(map[string]interface{})
			if !ok {
				return "an object is gone"
			}
			for _, k := range sortedKeys(a) {
				e, ok := b[k]
				if !ok {
					return "property " + k + " is gone"
				}
				if r := grown(a[k], e); r != "" {
					return k + ": " + r
				}
			}
			for _, k := range sortedKeys(b) {
				if _, ok := a[k]; !ok && !defs[k][text(b[k])] {
					return "property " + k + " came from nowhere"
				}
			}
		case []interface{}:
			b, ok := out.([]interface{})
			if !ok || len(a) != len(b) {
				return "a list has changed"
			}
			for i := range a {
				if r := grown(a[i], b[i]); r != "" {
					return r
				}
			}
		default:
			if text(in) != text(out) {
				return "a value has changed"
			}
		}
		return ""
	}
	if r := grown(in, out); r != "" {
		return false, r
	}
	var cov func(n *Node, in, out interface{}) bool
	cov = func(n *Node, in, out interface{}) bool {
		n = s.resolve(n)
		if n == nil {
			return true
		}
		switch n.K {
		case KStr, KInt, KNum, KBool, KNull:
			switch in.(type) {
			case map[string]interface{}, []interface{}:
				return false
			}
		case KArr:
			a, ok := in.([]interface{})
			if !ok {
				return false
			}
			b := out.([]interface{})
			for i := range a {
				switch {
				case n.Items != nil:
					if !cov(n.Items, a[i], b[i]) {
						return false
					}
				case i < len(n.Pos):
					if !cov(n.Pos[i], a[i], b[i]) {
						return false
					}
				}
			}
		case KObj:
			a, ok := in.(map[string]interface{})
			if !ok {
				return false
			}
			b := out.(map[string]interface{})
			for _, p := range n.Props {
				if e, ok := a[p.Name]; ok {
					if !cov(p.N, e, b[p.Name]) {
						return false
					}
				} else if _, ok := s.defaultOf(p.N); ok && !n.requires(p.Name) {
					if _, ok := b[p.Name]; !ok {
						return false
					}
				}
			}
			for _, r := range n.Req {
				if _, ok := b[r]; !ok && declared(n, r) {
					return false
				}
			}
			for k, e := range a {
				if declared(n, k) {
					continue
				}
				matched := false
				for _, p := range n.Pats {
					if s.re(p.Name).MatchString(k) {
						matched = true
						if !cov(p.N, e, b[k]) {
							return false
						}
					}
				}
				if !matched && n.Add == 0 || !matched && n.Add == 2 && !cov(n.AddN, e, b[k]) {
					return false
				}
			}
		case KAll:
			for _, k := range n.Kids {
				if !cov(k, in, out) {
					return false
				}
			}
		case KAny, KOne:
			for _, k := range n.Kids {
				if cov(k, in, out) {
					return true
				}
			}
			return false
		}
		return true
	}
	if !cov(s.Root, in, out) {
		return false, "a default is missing"
	}
	return true, ""
}

// GenComboSpec draws a specification with objects that have defaults below
// combinations.
func GenComboSpec(x *Ctx, o Opt) *Spec {
	o.ComboDef = true
	g := &gen{x: x, o: o, s: &Spec{}}
	for i := x.Int(3); i > 0; i-- {
		g.s.Defs = append(g.s.Defs, Prp{Name: fmt.Sprintf("#/definitions/d%d", i)})
	}
	for i := range g.s.Defs {
		g.s.Defs[i].N = g.obj(1, i+1)
		if x.Chance(3, 4) {
			g.s.Defs[i].N.Add, g.s.Defs[i].N.AddN = 1, nil
		}
	}
	combo := func() *Node {
		n := newNode([]Kind{KAll, KAll, KAny, KOne}[x.Int(4)])
		for i := x.Range(1, 3); i > 0; i-- {
			if len(g.s.Defs) > 0 && x.Chance(1, 3) {
				r := newNode(KRef)
				r.Ref = g.s.Defs[x.Int(len(g.s.Defs))].Name
				n.Kids = append(n.Kids, r)
				continue
			}
			k := g.obj(x.Range(1, 2), 0)
			if x.Chance(5, 6) {
				k.Add, k.AddN = 1, nil
			}
			n.Kids = append(n.Kids, k)
		}
		return n
	}
	n := combo()
	if x.Chance(1, 4) {
		m := newNode([]Kind{KAll, KAny}[x.Int(2)])
		m.Kids = []*Node{n}
		if x.Bool() {
			m.Kids = append(m.Kids, combo())
		}
		n = m
	}
	switch x.Int(4) {
	case 0:
		a := newNode(KArr)
		a.Items = n
		n = a
		fallthrough
	case 1:
		r := g.obj(1, 0)
		r.MaxP = -1
		for i, p := range r.Props {
			if p.Name == "f" {
				r.Props = append(r.Props[:i], r.Props[i+1:]...)
				break
			}
		}
		r.PDeps, r.SDeps = nil, nil
		r.Props = append(r.Props, Prp{"f", n})
		g.s.Root = r
	default:
		g.s.Root = n
	}
	return g.s
}

// --- inputs ---------------------------------------------------------------------------

// Value draws a value that usually satisfies the node.
func (s *Spec) Value(x *Ctx, n *Node, depth int) interface{} {
	if depth > 6 {
		return s.tiny(n)
	}
	switch n.K {
	case KStr:
		if len(n.Enum) > 0 {
			return n.Enum[x.Int(len(n.Enum))]
		}
		for i := 0; i < 6; i++ {
			t := x.Pick(strPool)
			if s.Eval(n, t) {
				return t
			}
		}
		switch n.Fmt {
		case "email":
			return "x@y.zz"
		case "ipv4":
			return "192.168.0.1"
		case "hostname":
			return x.Pick([]string{"example.com", "a", "x-1.example.com."})
		case "ipv6":
			return x.Pick([]string{"::1", "1234::7:8"})
		case "datetime":
			return x.Pick([]string{"2016-01-02T03:04:05Z", "2016-01-02T03:04:05+09:00"})
		}
		for _, t := range strPool {
			if s.Eval(n, t) {
				return t
			}
		}
		return strings.Repeat("a", max0(n.MinL))
	case KInt, KNum:
		if len(n.Enum) > 0 {
			return n.Enum[x.Int(len(n.Enum))]
		}
		for i := 0; i < 6; i++ {
			f := numPool[x.Int(len(numPool))]
			if s.Eval(n, f) {
				return f
			}
		}
		for _, f := range numPool {
			if s.Eval(n, f) {
				return f
			}
		}
		return n.Min + 1
	case KBool:
		return x.Bool()
	case KNull:
		return nil
	case KEmpty:
		return s.junk(x, 1)
	case KEnum:
		return n.Enum[x.Int(len(n.Enum))]
	case KArr:
		c := x.Int(4)
		if n.MinI > c {
			c = n.MinI
		}
		if n.MaxI >= 0 && c > n.MaxI {
			c = n.MaxI
		}
		if len(n.Pos) > 0 && !n.AddItems && c > len(n.Pos) {
			c = len(n.Pos)
		}
		l := make([]interface{}, 0, c)
		for i := 0; i < c; i++ {
			switch {
			case n.Uniq:
				l = append(l, fmt.Sprintf("u%d", i))
			case n.Items != nil:
				l = append(l, s.Value(x, n.Items, depth+1))
			case i < len(n.Pos):
				l = append(l, s.Value(x, n.Pos[i], depth+1))
			default:
				l = append(l, s.junk(x, 1))
			}
		}
		return l
	case KObj:
		m := map[string]interface{}{}
		for _, p := range n.Props {
			req := false
			for _, r := range n.Req {
				if r == p.Name {
					req = true
				}
			}
			if req || x.Chance(3, 5) && depth < 4 {
				m[p.Name] = s.Value(x, p.N, depth+1)
			}
		}
		for _, p := range n.Pats {
			if x.Chance(1, 2) {
				nm := x.Pick(propNames)
				if _, ok := m[nm]; !ok && s.re(p.Name).MatchString(nm) && !declared(n, nm) {
					m[nm] = s.Value(x, p.N, depth+1)
				}
			}
		}
		if n.Add > 0 && x.Chance(1, 3) {
			nm := x.Pick(propNames)
			if _, ok := m[nm]; !ok && !declared(n, nm) {
				if n.Add == 2 {
					m[nm] = s.Value(x, n.AddN, depth+1)
				} else {
					m[nm] = s.junk(x, 1)
				}
			}
		}
		for _, d := range n.PDeps {
			if _, ok := m[d.From]; ok && x.Chance(4, 5) {
				for _, t := range d.To {
					if _, ok := m[t]; !ok {
						for _, p := range n.Props {
							if p.Name == t {
								m[t] = s.Value(x, p.N, depth+1)
							}
						}
					}
				}
			}
		}
		return m
	case KAny, KOne:
		return s.Value(x, n.Kids[x.Int(len(n.Kids))], depth+1)
	case KAll:
		v := s.Value(x, n.Kids[0], depth+1)
		if m, ok := v.(map[string]interface{}); ok {
			for _, k := range n.Kids[1:] {
				if e, ok := s.Value(x, k, depth+1).(map[string]interface{}); ok {
					for _, nm := range sortedKeys(e) {
						if _, ok := m[nm]; !ok {
							m[nm] = e[nm]
						}
					}
				}
			}
		}
		return v
	case KNot:
		return s.junk(x, 1)
	case KRef:
		return s.Value(x, s.def(n.Ref), depth+1)
	case KCustom:
		return x.Pick(strPool)
	}
	return nil
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

func declared(n *Node, nm string) bool {
	for _, p := range n.Props {
		if p.Name == nm {
			return true
		}
	}
	return false
}

func (s *Spec) tiny(n *Node) interface{} {
	switch n.K {
	case KStr:
		return "a"
	case KInt, KNum:
		return 1.0
	case KBool:
		return true
	case KArr:
		return []interface{}{}
	case KObj:
		return map[string]interface{}{}
	}
	return nil
}

func (s *Spec) junk(x *Ctx, d int) interface{} {
	switch k := x.Int(8); {
	case k < 3:
		return x.Pick(strPool)
	case k < 5:
		return numPool[x.Int(len(numPool))]
	case k == 5:
		return x.Bool()
	case k == 6 && d > 0:
		return []interface{}{s.junk(x, d-1)}
	case k == 7 && d > 0:
		return map[string]interface{}{x.Pick(propNames): s.junk(x, d-1)}
	}
	return nil
}

// Mutate returns a copy of v with one small change somewhere.
func (s *Spec) Mutate(x *Ctx, v interface{}) interface{} {
	v = clone(v)
	type slot struct {
		set func(interface{})
		get interface{}
		m   map[string]interface{}
		k   string
	}
	var slots []slot
	var root interface{} = v
	slots = append(slots, slot{set: func(n interface{}) { root = n }, get: v})
	var rec func(v interface{}, d int)
	rec = func(v interface{}, d int) {
		if d > 8 || len(slots) > 200 {
			return
		}
		switch t := v.(type) {
		case map[string]interface{}:
			for _, k := range sortedKeys(t) {
				k := k
				slots = append(slots, slot{set: func(n interface{}) { t[k] = n }, get: t[k], m: t, k: k})
				rec(t[k], d+1)
			}
		case []interface{}:
			for i := range t {
				i := i
				slots = append(slots, slot{set: func(n interface{}) { t[i] = n }, get: t[i]})
				rec(t[i], d+1)
			}
		}
	}
	rec(v, 0)
	sl := slots[x.Int(len(slots))]
	if len(slots) > 1 && sl.m == nil && x.Chance(3, 4) {
		sl = slots[1+x.Int(len(slots)-1)]
	}
	switch x.Int(8) {
	case 0:
		if sl.m != nil {
			delete(sl.m, sl.k)
			return root
		}
	case 1:
		if t, ok := sl.get.(map[string]interface{}); ok {
			t[x.Pick(propNames)] = s.junk(x, 1)
			return root
		}
		if sl.m != nil {
			sl.m[x.Pick(propNames)] = s.junk(x, 1)
			return root
		}
	case 2: // same text, other type
		switch t := sl.get.(type) {
		case float64:
			sl.set(fmt.Sprint(t))
			return root
		case bool:
			sl.set(fmt.Sprint(t))
			return root
		case nil:
			sl.set("<nil>")
			return root
		case string:
			var f float64
			if _, err := fmt.Sscan(t, &f); err == nil && fmt.Sprint(f) == t {
				sl.set(f)
				return root
			}
			if t == "true" {
				sl.set(true)
				return root
			}
			if t != "" {
				b := []byte(t)
				b[len(b)-1] ^= 3
				sl.set(string(b))
				return root
			}
		}
	case 3:
		switch t := sl.get.(type) {
		case string:
			sl.set(t + "a")
			return root
		case float64:
			sl.set(t + 0.5)
			return root
		case []interface{}:
			if len(t) > 0 {
				sl.set(append(append([]interface{}(nil), t...), clone(t[0])))
				return root
			}
		}
	case 4:
		switch t := sl.get.(type) {
		case float64:
			sl.set(t + 1)
			return root
		case []interface{}:
			if len(t) > 0 {
				sl.set(t[1:])
				return root
			}
		}
	}
	sl.set(s.junk(x, 1))
	return root
}

func clone(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{}, len(t))
		for k, e := range t {
			m[k] = clone(e)
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(t))
		for i, e := range t {
			l[i] = clone(e)
		}
		return l
	}
	return v
}

func sortedKeys(m map[string]interface{}) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// text renders a value canonically.
func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

type abortHarness string

func (n *Node) requires(name string) bool {
	for _, r := range n.Req {
		if r == name {
			return true
		}
	}
	return false
}
