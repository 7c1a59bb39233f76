package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	"github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
	"verif.local/simkit/simrt"
)

// BuildDoc builds a validator from the JSON schema text the way the command and
// the server do it.
func BuildDoc(src []byte) (*jsval.JSVal, error) {
	sc, err := schema.Read(bytes.NewReader(src))
	if err != nil {
		return nil, err
	}
	var m map[string]interface{}
	if err := json.Unmarshal(src, &m); err != nil {
		return nil, err
	}
	var v *jsval.JSVal
	alone(func() { v, err = builder.New().BuildWithCtx(sc, m) })
	return v, err
}

// alone runs f as the only task, unless it is already part of a run: also a
// library that starts goroutines is then under the control of the simulator.
func alone(f func()) {
	if simrt.Cur() >= 0 {
		f()
		return
	}
	var p interface{}
	done := false
	simrt.Run(simrt.Config{Sched: simrt.NewReplay(nil)}, []func(){func() {
		defer func() {
			if !done {
				p = recover()
			}
		}()
		f()
		done = true
	}})
	if p != nil {
		panic(p)
	}
	if !done {
		panic(abortHarness("a call that is alone does not end"))
	}
}

// mk returns a function that builds fresh equal validators.
func (s *Spec) mk(viaDoc bool) func() *jsval.JSVal {
	if !viaDoc {
		return s.Direct
	}
	src := s.JSON()
	return func() *jsval.JSVal {
		v, err := BuildDoc(src)
		if err != nil {
			panic(abortHarness(fmt.Sprintf("cannot build %s: %v", src, err)))
		}
		return v
	}
}

// tick is a global clock for histories; it is invisible to the race detector.
var clock uint64

//go:norace
func tick() uint64 {
	clock++
	return clock
}

// note records an observation in the event log.
func note(s string) { simrt.NoteStr(s) }

// yieldN lets other tasks run from inside user code.
func yieldN(n int) {
	for i := 0; i < n; i++ {
		simrt.YS()
	}
}

// generate runs the generator and catches panics.
func generate(vs ...*jsval.JSVal) (out []byte, o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Panic: fmt.Sprint(r) + where()}
		}
	}()
	var b bytes.Buffer
	if err := jsval.NewGenerator().Process(&b, vs...); err != nil {
		return b.Bytes(), Outcome{Err: errText(err)}
	}
	return b.Bytes(), Outcome{OK: true}
}

func clip(s string) string {
	if os.Getenv("SIM_FULL") != "" {
		return s
	}
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Pick3 draws one of the numbers.
func (x *Ctx) Pick3(l ...int) int { return l[x.Int(len(l))] }
