package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"unsafe"

	"github.com/lestrrat-go/jsval/server"
	"verif.local/simkit/simrt"
)

func init() {
	register("C11", runC11)
	docs["C11"] = propDoc{
		Rule:   "Each run sends 2-8 requests (schemas that can be turned into code, damaged or unprintable ones, the index page, unknown paths) to one server from 1-4 simulated connections. Bodies arrive in pieces, stall until every other request was answered, break off at any byte including the last, and clients disconnect while the answer is written.",
		Oracle: "Every request gets one response, equal to the idle server's response to the same bytes; its content is the library's code for that schema or a failure with a message; a body that breaks off gets a failure; no handler panics, races, deadlocks or waits for a stalled client of another request.",
		Stubs:  []string{"net/http's connection handling (requests are delivered to ServeHTTP directly)"},
	}
}

// simBody is a request body arriving over a simulated connection.
type simBody struct {
	data   []byte
	off    int
	chunks []int // sizes of the pieces, repeated
	nchunk int
	cut    int // breaks off after this many bytes; -1 never
	cutErr error
	eofNow bool // EOF together with the last bytes
	stall  *stallGate
	at     int // stalls before this byte
	yield  int
	hit    bool
	closed bool
}

// stallGate holds a body back until the other requests are answered.
type stallGate struct {
	open    int // requests still to be answered
	stalled bool
}

//go:norace
func (g *stallGate) wait() {
	g.stalled = true
	for g.open > 0 {
		simrt.Block(unsafe.Pointer(g), "stalled client")
	}
}

//go:norace
func (g *stallGate) done() {
	g.open--
	if g.open <= 0 {
		simrt.Wake(unsafe.Pointer(g))
	}
}

func (b *simBody) Read(p []byte) (int, error) {
	yieldN(b.yield)
	if b.stall != nil && b.off >= b.at {
		g := b.stall
		b.stall = nil
		g.wait()
	}
	if b.cut >= 0 && b.off >= b.cut {
		b.hit = true
		return 0, b.cutErr
	}
	rest := len(b.data) - b.off
	if b.cut >= 0 && b.cut-b.off < rest {
		rest = b.cut - b.off
	}
	if rest == 0 {
		return 0, io.EOF
	}
	n := rest
	if len(b.chunks) > 0 {
		if c := b.chunks[b.nchunk%len(b.chunks)]; c < n {
			n = c
		}
		b.nchunk++
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, b.data[b.off:b.off+n])
	b.off += n
	if b.eofNow && b.off == len(b.data) && b.cut < 0 {
		return n, io.EOF
	}
	return n, nil
}

func (b *simBody) Close() error { b.closed = true; return nil }

// simResp collects a response.
type simResp struct {
	h     http.Header
	sent  http.Header
	code  int
	heads int
	body  []byte
	cut   int // the client is gone after this many bytes; -1 never
	hit   bool
	yield int
	stall *stallGate
}

func (w *simResp) Header() http.Header { return w.h }

func (w *simResp) WriteHeader(c int) {
	simrt.YS()
	w.heads++
	if w.heads > 1 {
		return
	}
	w.code = c
	w.sent = w.h.Clone()
}

func (w *simResp) Write(p []byte) (int, error) {
	yieldN(w.yield)
	if g := w.stall; g != nil {
		w.stall = nil
		g.wait()
	}
	if w.heads == 0 {
		w.WriteHeader(200)
	}
	n := len(p)
	if w.cut >= 0 && len(w.body)+n > w.cut {
		w.hit = true
		n = w.cut - len(w.body)
		w.body = append(w.body, p[:n]...)
		return n, errors.New("broken pipe")
	}
	w.body = append(w.body, p...)
	return n, nil
}

type c11req struct {
	path  string
	body  []byte
	large bool
	clen  int64
	// as served
	sim  *simBody
	resp *simResp
	o    Outcome
	done bool
	gate *stallGate
	// on an idle server
	want *simResp
	code []byte
	lerr error
}

func (r *c11req) request(body io.ReadCloser) *http.Request {
	m := "POST"
	if r.path != "/generate.json" {
		m = "GET"
		body = http.NoBody
	}
	return &http.Request{Method: m, URL: &url.URL{Path: r.path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/x-www-form-urlencoded; charset=UTF-8"}}, Body: body, ContentLength: r.clen, Host: "h", RequestURI: r.path, RemoteAddr: "10.0.0.1:1"}
}

// alike changes one character of a body, not its length.
func alike(x *Ctx, body []byte) []byte {
	b := append([]byte(nil), body...)
	var at []int
	for i, c := range b {
		if '0' <= c && c <= '9' || 'a' <= c && c <= 'z' {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return b
	}
	for _, w := range shuffleWith(x, 2) {
		a, z := []byte("minLength"), []byte("maxLength")
		if w == 1 {
			a, z = []byte("minItems"), []byte("maxItems")
		}
		if bytes.Contains(b, a) && !bytes.Contains(b, z) {
			return bytes.Replace(b, a, z, -1)
		}
	}
	i := at[x.Int(len(at))]
	if b[i] <= '9' {
		b[i] = '1' + (b[i]-'0')%9
	} else {
		b[i] = 'a' + (b[i]-'a'+1)%26
	}
	return b
}

func serve(s http.Handler, w http.ResponseWriter, q *http.Request) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = Outcome{Panic: fmt.Sprint(r) + where()}
		}
	}()
	s.ServeHTTP(w, q)
	return Outcome{OK: true}
}

var cutErrs = []error{io.ErrUnexpectedEOF, errors.New("connection reset by peer"), errors.New("i/o timeout")}

func runC11(x *Ctx) {
	n := x.Crowd(2, 8)
	var reqs []*c11req
	for i := 0; i < n; i++ {
		r := &c11req{path: "/generate.json"}
		switch k := x.Int(12); {
		case k < 1:
			r.path = "/"
		case k < 2:
			r.path = "/" + x.Pick([]string{"nothing", "generate", "generate.json/", "index.tmpl"})
		case k < 3 && len(reqs) > 0:
			r.path, r.body, r.large, r.clen = reqs[0].path, reqs[0].body, reqs[0].large, reqs[0].clen
		case k < 5 && len(reqs) > 0 && len(reqs[0].body) > 0:
			// almost an earlier request: one character differs
			q := reqs[x.Int(len(reqs))]
			r.path, r.body, r.large, r.clen = q.path, alike(x, q.body), q.large, q.clen
		default:
			o := printOpt
			o.Depth, o.Width = 2, 3
			if x.Chance(1, 5) {
				o.NoEnum, o.NoNot = false, false
			}
			s := GenSpec(x, o)
			if x.Chance(1, 8) {
				s.crossRefs(x)
			}
			if x.Chance(1, 8) {
				s.dangle(x)
			}
			s.decorate(x)
			r.body = s.JSON()
			if x.Chance(1, 4) {
				r.body = append(r.body, "\n  \n"...)
			}
			if x.Chance(1, 4) {
				r.body, _ = damage(x, r.body)
			}
			pad := 0
			switch k := x.Int(4000); {
			case k < 1:
				pad = 11 << 20
			case k < 5:
				pad = 1200 << 10
			case k < 60:
				pad = 70 << 10
			case k < 200:
				pad = 5000
			}
			if pad > 0 {
				x.Probe("large-body")
				r.large = true
				sp := bytes.Repeat([]byte(" "), pad)
				if x.Chance(1, 4) {
					r.body = append(r.body, sp...)
				} else {
					r.body = append(sp, r.body...)
				}
			}
			r.clen = int64(len(r.body))
			if x.Chance(1, 4) {
				r.clen = -1
			}
		}
		reqs = append(reqs, r)
	}
	// the idle server
	for _, r := range reqs {
		simrt.ResetAll()
		s := server.New()
		r.want = &simResp{h: http.Header{}, cut: -1}
		var o Outcome
		x.Solo(func() {
			o = serve(s, r.want, r.request(io.NopCloser(bytes.NewReader(r.body))))
			if r.path == "/generate.json" {
				r.code, r.lerr = libCode(r.body, nil, "")
			}
		})
		x.Logf("request %s %s: idle server: %s %d %s", r.path, clip(string(r.body)), o, r.want.code, clip(string(r.want.body)))
		if o.Panic != "" {
			x.Failnow("panic", "idle server, %s %s: %s", r.path, clip(string(r.body)), o)
		}
		c11content(x, "idle server", r, r.want)
	}
	simrt.ResetAll()
	s := server.New()
	nt := x.Range(1, 4)
	if nt > n || n > 8 {
		nt = n
	}
	gate := &stallGate{}
	var fns []func()
	for t := 0; t < nt; t++ {
		var mine []*c11req
		for i := t; i < n; i += nt {
			mine = append(mine, reqs[i])
		}
		for k, r := range mine {
			b := &simBody{data: r.body, cut: -1, yield: x.Int(3), eofNow: x.Bool()}
			for c := x.Int(4); c > 0; c-- {
				b.chunks = append(b.chunks, 1+x.Int(40))
				if r.large {
					b.chunks[len(b.chunks)-1] *= 5000
				}
			}
			if r.path == "/generate.json" {
				switch x.Int(5) {
				case 0:
					b.cut = x.Int(len(r.body) + 1)
					if x.Chance(1, 4) {
						b.cut = len(r.body)
					}
					b.cutErr = cutErrs[x.Int(len(cutErrs))]
				case 1:
					if k == len(mine)-1 && t > 0 { // the last one of its connection
						b.stall = gate
						b.at = x.Int(len(r.body) + 1)
					}
				}
			}
			r.sim = b
			r.resp = &simResp{h: http.Header{}, cut: -1, yield: x.Int(3)}
			if x.Chance(1, 8) {
				r.resp.cut = x.Int(len(r.want.body) + 1)
			}
			if b.stall == nil && k == len(mine)-1 && t > 0 && x.Chance(1, 6) {
				r.resp.stall = gate // does not take the answer
			}
			if b.stall == nil && r.resp.stall == nil {
				r.gate = gate
				gate.open++
			}
		}
		fns = append(fns, func() {
			for _, r := range mine {
				r.o = serve(s, r.resp, r.request(r.sim))
				r.done = true
				if r.gate != nil {
					r.gate.done()
				}
			}
		})
	}
	canon := x.Bool()
	if canon {
		x.SimCanon(fns...)
	} else {
		x.Sim(fns...)
	}
	if nt > 1 {
		x.Probe("concurrent")
	}
	if gate.stalled {
		x.FaultHit("client-stalls")
	}
	for i, r := range reqs {
		at := fmt.Sprintf("request %d, %s %s", i, r.path, clip(string(r.body)))
		note(r.o.verdict() + string(r.resp.body))
		if !r.done {
			x.Failnow("lost", "%s: not answered", at)
		}
		if r.o.Panic != "" {
			x.Failnow("panic", "%s: the handler panics: %s", at, r.o)
		}
		broken := r.sim.cut >= 0
		if broken {
			x.FaultHit("body-breaks-off")
			at += fmt.Sprintf(" breaking off after %d bytes", r.sim.cut)
		}
		if r.resp.hit {
			x.FaultHit("client-disconnects")
			if len(r.resp.body) > len(r.want.body) || broken {
				continue
			}
			if canon && !bytes.Equal(r.resp.body, r.want.body[:len(r.resp.body)]) {
				x.Failnow("answer", "%s: answered %q, an idle server %q", at, clip(string(r.resp.body)), clip(string(r.want.body)))
			}
			continue
		}
		if r.resp.heads > 1 {
			x.Failnow("twice", "%s: %d responses", at, r.resp.heads)
		}
		if r.resp.heads == 0 {
			x.Failnow("none", "%s: no response", at)
		}
		if broken {
			var m map[string]interface{}
			if r.resp.code < 400 {
				if err := json.Unmarshal(r.resp.body, &m); err != nil {
					x.Failnow("answer", "%s: the answer %q is no JSON", at, clip(string(r.resp.body)))
				}
				if m["success"] != false {
					x.Failnow("broken-body", "%s: answered with success: %s", at, clip(string(r.resp.body)))
				}
			}
			continue
		}
		c11content(x, at, r, r.resp)
		if r.resp.code != r.want.code {
			x.Failnow("answer", "%s: status %d, an idle server %d", at, r.resp.code, r.want.code)
		}
		if a, b := fmt.Sprint(r.resp.sent), fmt.Sprint(r.want.sent); a != b {
			x.Failnow("answer", "%s: headers %s, an idle server %s", at, a, b)
		}
		if (canon || r.lerr == nil) && clean0x(r.resp.body) != clean0x(r.want.body) {
			x.Failnow("answer", "%s: answered %q, an idle server %q", at, clip(string(r.resp.body)), clip(string(r.want.body)))
		}
	}
	x.CheckLocks()
}

func clean0x(b []byte) string { return ptrRx.ReplaceAllString(string(b), "0x?") }

// c11content checks the response against the library.
func c11content(x *Ctx, at string, r *c11req, w *simResp) {
	switch r.path {
	case "/generate.json":
	case "/":
		if w.code != 200 || !strings.Contains(string(w.body), "JSVal Playground") {
			x.Failnow("answer", "%s: the index page is %d %s", at, w.code, clip(string(w.body)))
		}
		return
	default:
		if w.code != 404 {
			x.Failnow("answer", "%s: %s is answered with %d", at, r.path, w.code)
		}
		return
	}
	var m map[string]interface{}
	if err := json.Unmarshal(w.body, &m); err != nil {
		x.Failnow("answer", "%s: the answer %q is no JSON document", at, clip(string(w.body)))
	}
	if r.lerr == nil {
		x.Probe("success")
		if m["success"] != true || m["code"] != string(r.code) {
			x.Failnow("answer", "%s: answered %s, the library generates %q", at, clip(string(w.body)), clip(string(r.code)))
		}
		return
	}
	x.Probe("failure")
	msg, _ := m["message"].(string)
	if m["success"] != false || msg == "" {
		x.Failnow("answer", "%s: answered %s, the library fails: %s", at, clip(string(w.body)), r.lerr)
	}
}
