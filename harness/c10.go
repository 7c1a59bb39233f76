package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/jspointer"
	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	zgenmaybe "github.com/lestrrat-go/jsval/zsim/genmaybe"
	zgentest "github.com/lestrrat-go/jsval/zsim/gentest"
	zjsval "github.com/lestrrat-go/jsval/zsim/jsval"
	"verif.local/simkit/simlog"
	"verif.local/simkit/simos"
	"verif.local/simkit/simrt"
)

func init() {
	register("C10", runC10)
	docs["C10"] = propDoc{
		Rule:   "Each run executes one command (jsval with or without -o, --ptr and --prefix, and the repository's gentest and genmaybe) 2-4 times as a simulated process on a simulated file system that persists between the executions: schemas that can be turned into code, damaged, unreadable, missing, with dangling references or unprintable parts; output files that exist (also longer than the new output, read-only, in a missing directory) or not; failing opens, reads (also after some bytes), torn writes, full disks, failing closes that lose the tail, broken pipes.",
		Oracle: "Status 0 only if no open, read, write or output close failed and the output (file or standard output) is exactly the source the library generates for the schema; otherwise a non-zero status and a message; whenever the schema cannot be read, decoded or generated, the output file's bytes are as before.",
		Stubs:  []string{"the operating system's file system, standard streams and exit (package os, io/ioutil, log, fmt.Print*) as seen by the commands"},
	}
}

// runProc runs a command's main function as a simulated process.
func runProc(p *simos.Proc, args []string, main func()) (code int) {
	simos.Boot(p, args)
	defer simos.Halt()
	code = -1
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(simos.ExitPanic); ok {
					code = e.Code
					return
				}
				code = 2
				p.Err = append(p.Err, []byte(fmt.Sprintf("panic: %v%s\n", r, where()))...)
			}
		}()
		main()
		code = 0
	}()
	return code
}

// libCode is what the library generates for the document.
func libCode(src []byte, ptrs []string, prefix string) ([]byte, error) {
	var m map[string]interface{}
	if err := json.NewDecoder(bytes.NewReader(src)).Decode(&m); err != nil {
		return nil, err
	}
	var scs []*schema.Schema
	if len(ptrs) == 0 {
		s, err := schema.Read(bytes.NewReader(src))
		if err != nil {
			return nil, err
		}
		scs = append(scs, s)
	}
	for _, p := range ptrs {
		r, err := jspointer.New(p)
		if err != nil {
			return nil, err
		}
		res, err := r.Get(m)
		if err != nil {
			return nil, err
		}
		m2, ok := res.(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf("not an object")
		}
		s := schema.New()
		if err := s.Extract(m2); err != nil {
			return nil, err
		}
		scs = append(scs, s)
	}
	var vs []*jsval.JSVal
	for i, s := range scs {
		v, err := builder.New().BuildWithCtx(s, m)
		if err != nil {
			return nil, err
		}
		if prefix != "" {
			v.SetName(fmt.Sprintf("%s%d", prefix, i))
		}
		vs = append(vs, v)
	}
	out, o := generate(vs...)
	if !o.OK {
		return nil, fmt.Errorf("%s", o)
	}
	return out, nil
}

// damage spoils a document.
func damage(x *Ctx, src []byte) ([]byte, string) {
	switch x.Int(6) {
	case 0:
		n := x.Int(len(src))
		return src[:n], fmt.Sprintf("cut after %d bytes", n)
	case 1:
		b := append([]byte(nil), src...)
		i := x.Int(len(b))
		b[i] = "}{]\"x,:0"[x.Int(8)]
		return b, fmt.Sprintf("byte %d replaced", i)
	case 2:
		return nil, "empty"
	case 3:
		return []byte(`["a"]`), "not an object"
	case 4:
		return append(append([]byte(nil), src...), []byte(" trailing")...), "with trailing garbage"
	}
	return []byte(`{"type":"object","properties":{"a":5}}`), "with a property that is no schema"
}

func runC10(x *Ctx) {
	switch k := x.Int(10); {
	case k < 1:
		c10maybe(x)
	case k < 3:
		c10cli(x, true)
	default:
		c10cli(x, false)
	}
}

func drawFaults(x *Ctx, p *simos.Proc) {
	if x.Chance(1, 5) {
		return
	}
	p.Rate = []int{20, 60, 128}[x.Int(3)]
	p.MaxFault = x.Range(1, 3)
	switch x.Int(4) {
	case 0, 1:
		p.Kinds = map[string]bool{"open-write": true, "write": true, "stdout": true, "close": true}
	case 2:
		p.Kinds = map[string]bool{}
		for _, k := range []string{"open-write", "open-read", "read", "write", "stdout", "close"} {
			if x.Chance(1, 3) {
				p.Kinds[k] = true
			}
		}
	}
}

// felt is the failures that must show in the status.
func felt(p *simos.Proc) (need []string, in bool) {
	for _, f := range p.Faults {
		if !f.Felt {
			continue
		}
		switch f.Kind {
		case "open-read", "read":
			in = true
			need = append(need, f.Kind)
		case "open-write", "write", "stdout", "close":
			need = append(need, f.Kind)
		}
	}
	sort.Strings(need)
	return need, in
}

func copyFiles(m map[string]*simos.Node) map[string]*simos.Node {
	o := map[string]*simos.Node{}
	for k, n := range m {
		o[k] = &simos.Node{Data: append([]byte(nil), n.Data...), Mode: n.Mode, Dir: n.Dir}
	}
	return o
}

func c10cli(x *Ctx, gentest bool) {
	files := map[string]*simos.Node{"/work": {Dir: true, Mode: 0755}}
	const out = "/work/out.go"
	x.Probe(map[bool]string{true: "gentest", false: "jsval"}[gentest])
	for round := x.Range(2, 4); round > 0; round-- {
		o := printOpt
		o.Depth = 2
		if x.Chance(1, 6) {
			o.NoEnum, o.NoNot = false, false
		}
		if x.Chance(1, 12) {
			o.Wide, o.Width = true, 20
		}
		s := GenSpec(x, o)
		if x.Chance(1, 8) {
			s.crossRefs(x)
		}
		if x.Chance(1, 40) {
			n := newNode(KStr)
			for k := []int{150, 500, 3000}[x.Int(3)]; k > 0; k-- {
				n.Enum = append(n.Enum, fmt.Sprintf("value number %d", k))
			}
			if s.Root.K == KObj {
				s.Root.Props = append(s.Root.Props, Prp{"large", n})
			}
			x.Probe("large")
		}
		if x.Chance(1, 10) {
			s.dangle(x)
		}
		s.decorate(x)
		src := s.JSON()
		what := "sound"
		if x.Chance(1, 4) {
			src, what = damage(x, src)
		}
		schemaFile := "/work/schema.json"
		files[schemaFile] = &simos.Node{Data: src, Mode: 0644}
		if x.Chance(1, 15) {
			delete(files, schemaFile)
			what = "missing"
		}
		// the output
		outFile := out
		if !gentest && x.Chance(1, 4) {
			outFile = ""
		}
		switch x.Int(6) {
		case 0:
			delete(files, out)
		case 1:
			files[out] = &simos.Node{Data: []byte(strings.Repeat("// old contents\n", 1+x.Int(400))), Mode: 0644}
		case 2:
			if outFile != "" && x.Chance(1, 3) {
				outFile = x.Pick([]string{"/work/missing/out.go", "/work"})
			}
		case 3:
			if x.Chance(1, 3) {
				files[out] = &simos.Node{Data: []byte("// read only\n"), Mode: 0444}
			}
		}
		if n := files[out]; n != nil && n.Mode&0200 == 0 && x.Chance(1, 2) {
			n.Mode = 0644
		}
		var ptrs []string
		prefix := ""
		if !gentest {
			if x.Chance(1, 3) {
				for k := x.Range(1, 3); k > 0; k-- {
					switch x.Int(7) {
					case 6:
						ptrs = append(ptrs, "")
					case 0:
						ptrs = append(ptrs, "/nowhere")
					case 1:
						ptrs = append(ptrs, "/type")
					case 2:
						ptrs = append(ptrs, "/properties/"+s.propName(x))
					default:
						if len(s.Defs) > 0 {
							ptrs = append(ptrs, s.Defs[x.Int(len(s.Defs))].Name[1:])
						} else {
							ptrs = append(ptrs, "/properties/"+s.propName(x))
						}
					}
				}
			}
			if x.Chance(1, 3) {
				prefix = x.Pick([]string{"My", "My", "V", "my-", "a b", "Größe"})
			}
		}
		// what the library makes of it
		var want []byte
		var lerr error = fmt.Errorf("missing")
		simrt.ResetAll()
		if n := files[schemaFile]; n != nil {
			data := append([]byte(nil), n.Data...)
			x.Solo(func() {
				if gentest {
					// without the context document references cannot be followed
					want, lerr = libPlain(data)
				} else {
					want, lerr = libCode(data, ptrs, prefix)
				}
			})
		}
		if gentest && lerr == nil {
			want = append([]byte("package jsval_test\n\nimport \"github.com/lestrrat-go/jsval\"\n"), want...)
		}
		if lerr == nil && outFile == out && x.Chance(1, 5) {
			// almost what is to be written is there already
			old := append([]byte(nil), want...)
			switch x.Int(4) {
			case 0:
				old[x.Int(len(old))] ^= 1
			case 1:
				old = old[:x.Int(len(old))]
			case 2:
				old = append(old, "// more\n"...)
			}
			files[out] = &simos.Node{Data: old, Mode: 0644}
			x.Probe("similar-output")
		}
		args := []string{"jsval", "-s", schemaFile}
		main := zjsval.SimMain
		if gentest {
			main = zgentest.SimMain
			args = []string{"gentest", schemaFile, outFile}
		} else {
			if outFile != "" {
				args = append(args, "-o", outFile)
			}
			for _, p := range ptrs {
				args = append(args, "-p", p)
			}
			if prefix != "" {
				args = append(args, "-P", prefix)
			}
		}
		before := copyFiles(files)
		p := &simos.Proc{Files: files}
		drawFaults(x, p)
		simrt.ResetAll()
		simlog.Reset()
		simrt.SetClock(uint64(x.Int(1 << 30)))
		code := -2
		x.SoloFaults(func() { code = runProc(p, args, main) })
		need, in := felt(p)
		x.Logf("%s, schema %s: %s", strings.Join(args, " "), what, clip(string(src)))
		for _, l := range p.Log {
			x.Logf("  %s", l)
		}
		x.Logf("  status %d, messages %s", code, clip(string(p.Err)))
		note(fmt.Sprint(code))
		at := fmt.Sprintf("%s (schema %s)", strings.Join(args, " "), what)
		if code == 0 {
			x.Probe("status-0")
			if len(need) > 0 {
				x.Failnow("success", "%s: status 0 although operations failed: %s", at, strings.Join(need, ", "))
			}
			if lerr != nil {
				x.Failnow("success", "%s: status 0 although the library cannot generate the code: %s", at, lerr)
			}
			got := p.Out
			if outFile != "" {
				n := p.Files[outFile]
				if n == nil {
					x.Failnow("output", "%s: status 0 without an output file", at)
				}
				got = n.Data
			}
			if !bytes.Equal(got, want) {
				x.Failnow("output", "%s: status 0 but the output is not the generated source (%d bytes of %d): %s", at, len(got), len(want), diffAt(got, want))
			}
		} else {
			x.Probe("status-1")
			if code < 0 {
				x.Failnow("status", "%s: no status", at)
			}
			msg := false
			for _, l := range strings.Split(string(p.Err), "\n") {
				if strings.TrimSpace(l) != "" && !strings.HasPrefix(l, "Resolving pointer") {
					msg = true
				}
			}
			if !msg {
				x.Failnow("silent", "%s: status %d without a message", at, code)
			}
			if lerr == nil && len(p.Faults) == 0 && (outFile == "" || outFile == out) && !(outFile != "" && before[out] != nil && before[out].Mode&0200 == 0) {
				x.Failnow("status", "%s: status %d (%s) although nothing failed", at, code, clip(string(p.Err)))
			}
		}
		if lerr != nil || in {
			x.Probe("bad-schema")
			b, a := before[out], p.Files[out]
			if (b == nil) != (a == nil) || b != nil && !bytes.Equal(a.Data, b.Data) {
				was, now := "absent", "absent"
				if b != nil {
					was = fmt.Sprintf("%d bytes", len(b.Data))
				}
				if a != nil {
					now = fmt.Sprintf("%d bytes", len(a.Data))
				}
				if b != nil {
					x.Failnow("overwritten", "%s: the schema cannot be used, but the output file changed (%s, was %s)", at, now, was)
				}
			}
		}
		if n := p.Files[schemaFile]; n != nil && !bytes.Equal(n.Data, src) {
			x.Failnow("schema", "%s: the schema file changed", at)
		}
		files = p.Files
	}
}

func (s *Spec) propName(x *Ctx) string {
	if s.Root.K == KObj && len(s.Root.Props) > 0 {
		return s.Root.Props[x.Int(len(s.Root.Props))].Name
	}
	return "a"
}

// libPlain is the library's code for a document built without context.
func libPlain(src []byte) ([]byte, error) {
	s, err := schema.Read(bytes.NewReader(src))
	if err != nil {
		return nil, err
	}
	v, err := builder.New().Build(s)
	if err != nil {
		return nil, err
	}
	out, o := generate(v)
	if !o.OK {
		return nil, fmt.Errorf("%s", o)
	}
	return out, nil
}

func c10maybe(x *Ctx) {
	x.Probe("genmaybe")
	names := []string{"maybe.go", "maybe_gen_test.go"}
	ref := &simos.Proc{}
	code := -2
	simrt.ResetAll()
	x.Solo(func() { code = runProc(ref, []string{"genmaybe"}, zgenmaybe.SimMain) })
	if code != 0 {
		x.Failnow("status", "genmaybe: status %d without faults: %s", code, clip(string(ref.Err)))
	}
	files := map[string]*simos.Node{}
	for round := x.Range(1, 3); round > 0; round-- {
		for _, n := range names {
			if x.Bool() {
				files[n] = &simos.Node{Data: bytes.Repeat([]byte("// old\n"), 1+x.Int(3000)), Mode: 0644}
			}
		}
		p := &simos.Proc{Files: files}
		drawFaults(x, p)
		simrt.ResetAll()
		simlog.Reset()
		x.SoloFaults(func() { code = runProc(p, []string{"genmaybe"}, zgenmaybe.SimMain) })
		for _, l := range p.Log {
			x.Logf("  %s", l)
		}
		note(fmt.Sprint(code))
		need, _ := felt(p)
		if code == 0 {
			x.Probe("status-0")
			if len(need) > 0 {
				x.Failnow("success", "genmaybe: status 0 although operations failed: %s", strings.Join(need, ", "))
			}
			for _, n := range names {
				if p.Files[n] == nil || !bytes.Equal(p.Files[n].Data, ref.Files[n].Data) {
					x.Failnow("output", "genmaybe: status 0 but %s is not complete", n)
				}
			}
		} else {
			x.Probe("status-1")
			if len(p.Err) == 0 {
				x.Failnow("silent", "genmaybe: status %d without a message", code)
			}
			if len(p.Faults) == 0 {
				x.Failnow("status", "genmaybe: status %d although nothing failed: %s", code, clip(string(p.Err)))
			}
		}
	}
}
