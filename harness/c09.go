package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"runtime"
	"strings"

	"github.com/lestrrat-go/jsval"
	"verif.local/simkit/simrt"
)

func init() {
	register("C09", runC09)
	docs["C09"] = propDoc{
		Rule:   "Each run draws validators (small, wide or with tens of kilobytes of code; some with a part that cannot be printed: a user's constraint, a bare enumeration, a null or boolean enumeration value, a default of the wrong type, below any other constraint or as a reference) and 2-6 writers that accept everything or fail after a drawn number of bytes, by error with or without a partial count, by a short count without error, by panic or by ending the goroutine, once or for ever; the generations run one after another or at the same time.",
		Oracle: "Success only if the bytes the writer accepted are the complete source (equal to an undisturbed generation, parseable, naming every validator, reference and property); never success after a failed or short write; unprintable validators give an error and no byte; the next generation on a healthy writer is complete.",
	}
}

const (
	wOK      = iota
	wErr0    // (0, err)
	wErrPart // (n<len, err)
	wErrAll  // (len, err)
	wShort   // (n<len, nil)
	wPanic
	wExit
)

var wNames = []string{"healthy", "error", "error after a part", "error after everything", "short count", "panic", "goroutine end"}

// faultWriter fails after a number of bytes.
type faultWriter struct {
	kind  int
	after int // bytes accepted before the fault
	once  bool
	yield int

	got    []byte
	hit    bool
	writes int
	shorts int
}

var errWriter = errors.New("device is full")

func (w *faultWriter) Write(p []byte) (int, error) {
	w.writes++
	yieldN(w.yield)
	if w.kind == wOK || w.hit && w.once {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	room := w.after - len(w.got)
	if room < 0 {
		room = 0
	}
	if room >= len(p) && !(w.kind == wErrAll && room == len(p)) {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.hit = true
	switch w.kind {
	case wErr0:
		return 0, errWriter
	case wErrPart:
		w.got = append(w.got, p[:room]...)
		return room, errWriter
	case wErrAll:
		w.got = append(w.got, p...)
		return len(p), errWriter
	case wShort:
		if w.shorts++; w.shorts > 2 {
			return 0, errWriter // a caller that tries again need not try for ever
		}
		w.got = append(w.got, p[:room]...)
		return room, nil
	case wPanic:
		panic("writer panics")
	}
	runtime.Goexit()
	return 0, nil
}

// Writers have other methods as well: those of buffers, files and connections.
type strWriter struct{ *faultWriter }

func (w strWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type fromWriter struct{ *faultWriter }

func (w fromWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 1024)
	for {
		k, e := r.Read(b)
		if k > 0 {
			m, err := w.Write(b[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
			if m < k {
				return n, io.ErrShortWrite
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

type fileWriter struct{ *faultWriter }

func (w fileWriter) WriteString(s string) (int, error)   { return w.Write([]byte(s)) }
func (w fileWriter) ReadFrom(r io.Reader) (int64, error) { return fromWriter(w).ReadFrom(r) }
func (w fileWriter) WriteByte(c byte) error              { _, err := w.Write([]byte{c}); return err }
func (w fileWriter) Flush() error                        { return nil }
func (w fileWriter) Sync() error                         { return nil }
func (w fileWriter) Close() error                        { return nil }

// as is one of the forms in which a writer arrives.
func (w *faultWriter) as(look int) io.Writer {
	switch look {
	case 1:
		return strWriter{w}
	case 2:
		return fromWriter{w}
	case 3:
		return fileWriter{w}
	}
	return struct{ io.Writer }{w}
}

// unprintable puts something the generator cannot print into the spec.
func (g *group) unprintable(x *Ctx) string {
	bad := newNode(KCustom)
	bad.Cust = &custom{}
	what := "a user's constraint"
	switch x.Int(5) {
	case 0:
		bad = newNode(KEnum)
		bad.Enum = []interface{}{"a", 1.0}
		what = "a bare enumeration"
	case 1:
		bad = newNode(KStr)
		bad.Enum = []interface{}{"a", nil, "b"}
		if x.Bool() {
			bad.Enum[1] = true
		}
		what = "an enumeration value without a literal"
	case 2:
		bad = newNode(KStr)
		bad.HasDef, bad.Def = true, 5.0
		if x.Bool() {
			bad.Def = true
		}
		what = "a string with a default of another type"
	}
	for n := x.Int(3); n > 0; n-- {
		var up *Node
		switch x.Int(7) {
		case 6:
			up = newNode(KArr)
			up.Pos = []*Node{newNode(KStr)}
			up.AddItems, up.AddItemN = true, bad
		case 0:
			up = newNode(KArr)
			up.Items = bad
		case 1:
			up = newNode(KArr)
			up.Pos = []*Node{newNode(KStr), bad}
		case 2:
			up = newNode(KObj)
			up.Props = []Prp{{"deep", bad}, {"deeper", newNode(KStr)}}
		case 3:
			up = newNode(KObj)
			up.Pats = []Prp{{"^a", bad}}
		case 4:
			up = newNode(KObj)
			up.Add, up.AddN = 2, bad
		default:
			up = newNode([]Kind{KAny, KAll, KOne}[x.Int(3)])
			up.Kids = []*Node{newNode(KStr), bad}
		}
		bad = up
	}
	s := g.s
	switch {
	case x.Chance(1, 4):
		s.Defs = append(s.Defs, Prp{"#/definitions/zz", bad})
		what += " as a reference"
	case s.Root.K == KObj:
		s.Root.Props = append(s.Root.Props, Prp{"zbad", bad})
	default:
		s.Root = bad
	}
	return what
}

// countProps counts the properties the complete code of a group adds.
func (g *group) countProps() int {
	n := 0
	var walk func(d *Node)
	walk = func(d *Node) {
		if d == nil {
			return
		}
		n += len(d.Props)
		for _, p := range d.Props {
			walk(p.N)
		}
		for _, p := range d.Pats {
			walk(p.N)
		}
		if d.Add == 2 {
			walk(d.AddN)
		}
		walk(d.Items)
		for _, c := range d.Pos {
			walk(c)
		}
		for _, c := range d.Kids {
			walk(c)
		}
	}
	for i, d := range g.s.Defs {
		walk(d.N)
		if i < g.aliases {
			walk(d.N)
		}
	}
	for i := 0; i < 1+g.aliases; i++ {
		walk(g.s.Root)
	}
	for _, m := range g.mems {
		if m.kind == 3 {
			walk(g.s.Root)
		}
	}
	return n
}

// complete tells what is missing from generated code.
func (p *vpool) complete(code []byte, names []string) string {
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", "package x\n"+string(code), 0); err != nil {
		return "it does not parse: " + err.Error()
	}
	t := string(code)
	for _, n := range names {
		if !strings.Contains(t, fmt.Sprintf("SetName(%q)", n)) {
			return "validator " + n + " is missing"
		}
	}
	if len(p.gs) == 1 && !p.gs[0].viaDoc {
		g := p.gs[0]
		for _, d := range g.s.Defs {
			if !strings.Contains(t, fmt.Sprintf("SetReference(%q", d.Name)) {
				return "reference " + d.Name + " is missing"
			}
		}
		if n, w := strings.Count(t, "AddProp("), g.countProps(); n != w {
			return fmt.Sprintf("it adds %d properties instead of %d", n, w)
		}
	}
	return ""
}

type c09op struct {
	w    *faultWriter
	own  bool
	look int
	o    Outcome
	done bool
}

func runC09(x *Ctx) {
	o := printOpt
	if x.Chance(1, 6) {
		o.Depth, o.Width, o.Wide = 2, 20, true
	}
	p := &vpool{}
	ng := 1
	if x.Chance(1, 4) {
		ng = 2
	}
	bad := ""
	for i := 0; i < ng; i++ {
		p.gs = append(p.gs, genGroup(x, o))
	}
	if x.Chance(1, 3) {
		g := p.gs[x.Int(ng)]
		g.viaDoc = false
		bad = g.unprintable(x)
	}
	odd := false
	if x.Chance(1, 6) {
		// code that is no Go
		g := p.gs[x.Int(ng)]
		if x.Bool() && len(g.mems) > 0 {
			g.mems[x.Int(len(g.mems))].name = []string{"not a name", "1st", "func", "a-b", "x.y", "\"", "é!", "("}[x.Int(8)]
		} else {
			n := newNode(KNot)
			n.Kids = []*Node{newNode(KStr)}
			g.s.Defs = append(g.s.Defs, Prp{"#/definitions/not", n})
		}
		odd = true
		x.Probe("no-go")
	}
	if x.Chance(1, 25) {
		// tens of kilobytes of code
		g := p.gs[0]
		n := newNode(KStr)
		for k := []int{120, 400, 1500, 4000}[x.Int(4)]; k > 0; k-- {
			n.Enum = append(n.Enum, fmt.Sprintf("value number %d", k))
		}
		g.s.Defs = append(g.s.Defs, Prp{"#/definitions/large", n})
		if g.s.Root.K == KObj {
			r := newNode(KRef)
			r.Ref = "#/definitions/large"
			g.s.Root.Props = append(g.s.Root.Props, Prp{"large", r})
		}
		x.Probe("large")
	}
	for _, g := range p.gs {
		p.srcs = append(p.srcs, g.s.JSON())
		x.Logf("%s", g)
	}
	if bad != "" {
		x.Logf("contains %s", bad)
		x.Probe("unprintable")
	}
	// the undisturbed generation
	var want []byte
	var wo Outcome
	x.Solo(func() { want, wo = generate(p.build()...) })
	x.Logf("undisturbed: %s, %d bytes", wo, len(want))
	if wo.Panic != "" {
		x.Failnow("panic", "generation: %s", wo)
	}
	if wo.OK {
		if bad != "" {
			x.Failnow("unprintable", "generation succeeds although the validators contain %s", bad)
		}
		var names []string
		i := 0
		for _, g := range p.gs {
			for _, m := range g.mems {
				n := m.name
				if n == "" {
					n = fmt.Sprintf("V%d", i)
				}
				names = append(names, n)
				i++
			}
		}
		if m := p.complete(want, names); m != "" && !odd {
			x.Failnow("incomplete", "generation succeeds but the code is not complete: %s", m)
		}
	} else if len(want) > 0 {
		x.Failnow("partial", "generation fails (%s) but %d bytes were written", wo.Err, len(want))
	}

	nops := x.Range(2, 6)
	trouble := -1
	if len(want) < 3000 && x.Chance(1, 25) {
		// trouble that does not end for long
		nops = x.Range(8, 70)
		trouble = x.Int(7)
		x.Probe("long-trouble")
	}
	var ops []*c09op
	for i := 0; i < nops; i++ {
		w := &faultWriter{kind: x.Int(7), once: x.Bool(), yield: x.Int(3)}
		if trouble >= 0 && !x.Chance(1, 100) {
			w.kind = trouble
		}
		if n := len(want); n > 0 {
			switch x.Int(5) {
			case 0:
				w.after = 0
			case 1:
				w.after = n - 1
			case 2:
				w.after = x.Pick3(4095, 4096, 65535)
				if w.after >= n {
					w.after = n / 2
				}
			default:
				w.after = x.Int(n)
			}
			if w.kind == wErrAll && x.Bool() {
				w.after = n
			}
		}
		ops = append(ops, &c09op{w: w, own: x.Bool(), look: x.Int(4)})
	}
	simrt.ResetAll()
	vs := p.build()
	gen := jsval.NewGenerator()
	do := func(op *c09op) {
		defer func() {
			if r := recover(); r != nil {
				op.o = Outcome{Panic: fmt.Sprint(r)}
				op.done = true
			}
		}()
		op.o = Outcome{Exit: true}
		g := gen
		if op.own {
			g = jsval.NewGenerator()
		}
		err := g.Process(op.w.as(op.look), vs...)
		op.done = true
		if err != nil {
			op.o = Outcome{Err: errText(err)}
		} else {
			op.o = Outcome{OK: true}
		}
	}
	// one after another or at the same time
	nt := 1
	if x.Bool() {
		nt = x.Range(2, 3)
	}
	var fns []func()
	for t := 0; t < nt; t++ {
		var mine []*c09op
		for i := t; i < nops; i += nt {
			mine = append(mine, ops[i])
		}
		fns = append(fns, func() { runEach(mine, do) })
	}
	x.Sim(fns...)
	for i, op := range ops {
		w := op.w
		note(op.o.verdict())
		at := fmt.Sprintf("generation %d, writer %s after %d bytes", i, wNames[w.kind], w.after)
		if w.hit {
			x.FaultHit("writer-" + strings.ReplaceAll(wNames[w.kind], " ", "-"))
		}
		if op.o.Exit && !(w.kind == wExit && w.hit) {
			x.Failnow("lost", "%s did not return", at)
		}
		if op.o.Panic != "" && !(w.kind == wPanic && w.hit) {
			x.Failnow("panic", "%s: %s", at, op.o)
		}
		if op.o.OK {
			if !wo.OK {
				x.Failnow("unprintable", "%s: success, undisturbed: %s", at, wo)
			}
			if w.hit && w.kind != wShort {
				x.Failnow("success", "%s: success although a write failed (%d of %d bytes accepted)", at, len(w.got), len(want))
			}
			if !bytes.Equal(w.got, want) {
				x.Failnow("success", "%s: success but the writer accepted %d bytes of %d: %s", at, len(w.got), len(want), diffAt(w.got, want))
			}
		}
		if !wo.OK && len(w.got) > 0 {
			x.Failnow("partial", "%s: %d bytes written although the validators cannot be printed", at, len(w.got))
		}
		if !op.o.OK && wo.OK && !w.hit {
			x.Failnow("error", "%s: %s although every write succeeded", at, op.o)
		}
	}
	// afterwards on a healthy writer
	var again []byte
	var ao Outcome
	x.SoloOrd(func() { again, ao = generateWith(gen, vs...) })
	if ao.verdict() != wo.verdict() {
		x.Failnow("repeat", "repeated on a healthy writer: %s, undisturbed: %s", ao, wo)
	}
	if ao.OK && !bytes.Equal(again, want) {
		x.Failnow("repeat", "repeated on a healthy writer: other code: %s", diffAt(again, want))
	}
	x.CheckLocks()
}

// runEach goes on with the rest when an operation ends the goroutine.
func runEach(ops []*c09op, do func(*c09op)) {
	i, fin := 0, false
	defer func() {
		if !fin && i+1 < len(ops) {
			rest := ops[i+1:]
			simrt.Go(func() { runEach(rest, do) })
		}
	}()
	for i < len(ops) {
		do(ops[i])
		i++
	}
	fin = true
}
