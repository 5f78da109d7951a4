//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"runtime"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/julienschmidt/httprouter"
	"github.com/sirupsen/logrus"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// System is the whole proxy: one or more instances running the real
// MainWithRouting, each with a simulated trace agent, HTTP clients and,
// optionally, a simulated Kafka broker.
type System struct {
	base  int64 // the plan's times count from here
	lag   int64 // longest time from the answer of a request to its spans' arrival at assembly
	kafka *kafkaSim
	w     *World
	insts []*Instance
	conns map[string]*clientConn
	cmu   sync.Mutex

	mu   sync.Mutex
	reqs []*Request
	adm  []*AdminSnap
	sigs []sigReg
	busy []*Request // requests that are not finished
	conv []convCall

	forget bool // keep no record of what happened
}

type convCall struct {
	inst int
	at   int64
	span proxy.Span
}

type Instance struct {
	id      int
	http    string
	agentAt string
	agent   *Agent
	started chan struct{}
	exited  bool
	exitAt  int64

	signalled bool
	group     unsafe.Pointer // its goroutines
}

// ended: the process of the instance is gone.
func (s *System) ended(inst *Instance, how string) {
	if inst.exited {
		return
	}
	inst.exitAt = s.w.Now()
	inst.exited = true
	runtime.SimGroupEnd(inst.group)
	s.w.Log("proxy%d %s", inst.id, how)
	s.dead(inst.id)
}

// Request is one HTTP request of a simulated client and what became of it.
type Request struct {
	TimedOut bool // the server may have closed the connection on its own: it timed out reading the header
	Op       *Op
	Idx      int
	Sent     int64 // first byte written
	LastSent int64 // last byte written
	Done     int64 // response or failure
	Status   int   // 0: no response
	Complete bool  // the whole well-formed request went out
	Damaged  bool  // the document itself or its compression is not intact
	DocOut   bool  // a whole, intact document was handed to the connection
	Err      string
	Body     string
}

func (r *Request) fate() string {
	switch {
	case r.Status == 202:
		return "accepted"
	case r.Status >= 400 && r.Status < 500:
		return "rejected"
	case r.Status == 0:
		return "unanswered"
	}
	return "status"
}

type AdminSnap struct {
	At, Seq int64
	Status  int
	Spans   []adminSpan
	Raw     string
}

type adminSpan struct {
	Id, Parent, Trace proxy.Id
	Name, Service     string
	Timestamp         time.Time
	Duration          time.Duration
	Tags              map[string]string
	Timings           proxy.Timings
}

type clientConn struct {
	used int64 // end of the last exchange
	mu   sync.Mutex
	c    net.Conn
	br   *bufio.Reader
}

func simNet(w *World) {
	net.SimDial = w.Net.Dial
	net.SimListen = w.Net.Listen
}

func quietLogs(w *World) {
	log.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
	os.SimExit = func(code int) {
		w.Fail(w.Plan.Prop, "exit", "the proxy terminated itself with exit code %d", code)
		w.Finish()
	}
}

func NewSystem(w *World) *System {
	expandBulk(w.Plan)
	s := &System{w: w, conns: map[string]*clientConn{}}
	simNet(w)
	quietLogs(w)
	exit := os.SimExit
	os.SimExit = func(code int) {
		for _, inst := range s.insts {
			if inst.group != runtime.SimGroup() {
				continue
			}
			if inst.exited || inst.signalled {
				s.ended(inst, "exits with "+strconv.Itoa(code))
				select {}
			}
		}
		exit(code)
	}
	simSignals(s)
	return s
}

// expandBulk writes out the requests of the plan that stand for many spans:
// op.N spans in traces of op.Span each, made after the first span given.
func expandBulk(p *Plan) {
	for i := range p.Ops {
		op := &p.Ops[i]
		if op.Kind != "bulk" || len(op.Spans) == 0 {
			continue
		}
		op.Kind = "post"
		per := op.Per
		if per < 1 {
			per = 1
		}
		proto := op.Spans[0]
		op.Spans = nil
		root := uint64(0)
		for k := 0; k < int(op.N); k++ {
			s := proto
			s.T = proto.T + uint64(k/per)
			s.I = proto.I + uint64(k)
			if k%per == 0 {
				root, s.P = s.I, s.I
			} else {
				s.P = root
			}
			op.Spans = append(op.Spans, s)
		}
	}
}

// faultAt returns the active fault window of a kind for an instance.
func (s *System) faultAt(kind string, inst int) *Fault {
	now := s.w.Now() - s.base
	for i := range s.w.Plan.Faults {
		f := &s.w.Plan.Faults[i]
		if f.Kind == kind && f.Inst == inst && f.From <= now && now < f.To {
			return f
		}
	}
	return nil
}

// converter returns the user supplied span converter of this run.
func (s *System) converter(inst int) zipkinproxy.SpanConverter {
	mode := s.w.Plan.Knob("converter", 0)
	return func(span proxy.Span) (proxy.Span, error) {
		if f := s.faultAt("convstall", inst); f != nil {
			s.w.Fire("converter_stall")
			sleepUntil(s.w, s.base+f.To)
		}
		if s.forget && span.Name == "sweep" {
			return proxy.Span{Id: span.Id, Trace: span.Trace, Parent: span.Parent}, nil
		}
		switch mode {
		case 0:
			return span, nil
		default:
			if !s.forget {
				s.mu.Lock()
				s.conv = append(s.conv, convCall{inst, s.w.Now(), copySpan(span)})
				s.mu.Unlock()
			}
			out, fate := convModel(mode, span)
			if mode&128 != 0 && fate == "ok" && span.Tags != nil { // writes into the tags it was given
				for k, v := range out.Tags {
					span.Tags[k] = v
				}
				out.Tags = span.Tags
			}
			if mode&convIds != 0 && fate == "ok" && out.Id != 0 { // not the synthetic root of spans without a parent
				out.Id, out.Trace, out.Parent = out.Id^convId, out.Trace^convTrace, out.Parent^convId
			}
			switch fate {
			case "error":
				s.w.Fire("converter_error")
				return proxy.Span{}, errors.New("simulated converter failure")
			case "error_keep":
				s.w.Fire("converter_error")
				return out, errors.New("simulated converter failure")
			case "zero_id":
				s.w.Fire("converter_zero_id")
			case "zero_trace":
				s.w.Fire("converter_zero_id")
			}
			return out, nil
		}
	}
}

// convIds: the converter also moves spans to other ids; the observers undo it.
const (
	convIds   = 32
	convId    = 0x7ed0_0000_0000_0000
	convTrace = 0x7e00_0000_0000_0000
)

// convModel is the user's converter: mode is a bit set, the decision depends
// on the span id only.
func convModel(mode int64, span proxy.Span) (proxy.Span, string) {
	r := NewRng(uint64(span.Id) ^ uint64(mode)<<40)
	k := r.N(100)
	if mode&1 != 0 && k < 15 {
		return proxy.Span{}, "error"
	}
	if mode&2 != 0 && k >= 15 && k < 25 {
		span.Id = 0
		return span, "zero_id"
	}
	if mode&4 != 0 && k >= 25 && k < 35 {
		span.Trace = 0
		return span, "zero_trace"
	}
	if mode&8 != 0 {
		span.Name = "conv:" + span.Name
		t := map[string]string{"converted": "yes"}
		for k, v := range span.Tags {
			t[k] = v
		}
		span.Tags = t
		span.Service = strings.ToUpper(span.Service)
	}
	if mode&64 != 0 {
		span.Timings = proxy.Timings{CS: span.Timings.CS + 1, SR: span.Timestamp, SS: proxy.Timestamp(k)}
		span.Timestamp += proxy.Timestamp(k) * 1_000_000
		span.Duration += time.Duration(k) * 1_000_000
	}
	if mode&16 != 0 && k >= 35 && k < 45 {
		return span, "error_keep"
	}
	return span, "ok"
}

func (s *System) Start(id int, kafka string) *Instance {
	inst := &Instance{id: id, http: fmt.Sprintf("proxy%d:3080", id), agentAt: fmt.Sprintf("agent%d:8126", id), started: make(chan struct{})}
	inst.agent = NewAgent(s.w, id, inst.agentAt, func() (string, int64) {
		if f := s.faultAt("agent", id); f != nil {
			return f.S, f.Arg
		}
		return "", 0
	})
	if s.w.Plan.Knob("converter", 0)&convIds != 0 {
		inst.agent.undo = true
	}
	s.insts = append(s.insts, inst)
	args := []string{"dd-zipkin-proxy", "--http-address=" + inst.http, "--trace-host=" + fmt.Sprintf("agent%d", id),
		"--trace-port=8126", "--log-file=/dev/null"}
	if s.w.Plan.Knob("verbose", 0) != 0 {
		args = append(args, "--verbose")
	}
	if kafka != "" {
		for _, a := range strings.Split(kafka, ",") {
			args = append(args, "--kafka-address="+a)
		}
		args = append(args, "--kafka-disable-tls", "--kafka-topic="+kafkaTopic, "--kafka-consumer-group="+kafkaGroup)
	}
	os.Args = args
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("process", inst.http)))
		inst.group = runtime.SimGroup()
		if s.w.Plan.Knob("main", 0) != 0 {
			close(inst.started)
			zipkinproxy.Main(s.converter(id))
		} else {
			zipkinproxy.MainWithRouting(func(r *httprouter.Router) http.Handler {
				close(inst.started)
				return r
			}, s.converter(id))
		}
		s.ended(inst, "main returned")
	}()
	<-inst.started
	for !s.w.Net.Listening(inst.http) {
		time.Sleep(time.Millisecond)
	}
	s.w.Log("proxy%d is up", id)
	noteRegistry()
	return inst
}

// RunFaults schedules the network level faults of the plan.
func (s *System) RunFaults() {
	for i := range s.w.Plan.Faults {
		f := &s.w.Plan.Faults[i]
		go s.runFault(f)
	}
}

func (s *System) runFault(f *Fault) {
	w := s.w
	if f.Kind == "agent" || f.Kind == "convstall" {
		return
	}
	base := s.base
	sleepUntil(w, base+f.From)
	switch f.Kind {
	case "stall": // the process is paused
		w.Log("fault: process stalls for %dms", f.Arg/ms)
		w.Fire("process_stall")
		runtime.SimStall(f.Arg)
	case "wall": // the wall clock is stepped
		w.Log("fault: wall clock offset %dms", f.Arg/ms)
		w.Fire("wall_clock_jump")
		runtime.SimSetWallOffset(f.Arg)
	case "agentlink":
		lk := w.Net.Link(fmt.Sprintf("agent%d:8126", f.Inst))
		w.Log("fault: agent%d link %s", f.Inst, f.S)
		apply := func(on bool) {
			lk.set(func(l *link) {
				switch f.S {
				case "refuse":
					l.refuse = on
				case "blackhole":
					l.blackhole = on
				case "partition":
					l.held = on
				}
			})
		}
		w.Fire("agentlink_" + f.S)
		apply(true)
		if f.S == "refuse" || f.S == "blackhole" {
			lk.ResetAll()
		}
		sleepUntil(w, base+f.To)
		apply(false)
		w.Log("fault: agent%d link %s healed", f.Inst, f.S)
	case "client_reset": // all client connections break
		n := w.Net.Link(fmt.Sprintf("proxy%d:3080", f.Inst)).ResetAll()
		w.Log("fault: %d client connections reset", n)
		if n > 0 {
			w.Fire("client_reset_all")
		}
	default:
		if s.kafka != nil {
			s.kafka.runFault(f)
		}
	}
}

var opPath = map[string]string{"v1": "/api/v1/spans", "v2": "/api/v2/spans", "jaeger": "/api/jaeger/spans"}

// buildBody renders the request body of an op. docEnd is the number of leading
// body bytes that hold the whole document, damaged tells that there is no
// intact document in the body.
// wrongType: the content type is not one the endpoint takes.
func (op *Op) wrongType() bool {
	return op.Fmt == "v1" && op.S != "" && !strings.Contains(op.S, "application/json")
}

func buildBody(op *Op) (body []byte, cutAt, docEnd int, damaged bool) {
	if op.Raw != nil {
		body = op.Raw
	} else {
		body = encodeSpans(op.Fmt, op.Spans, op.Style, op.Bad)
	}
	if op.Cut > 0 && op.CutMode == "json" { // the document itself is truncated, the HTTP message is fine
		b := bytes.TrimRight(body, " \t\r\n")
		n := len(b) * op.Cut / 1000
		if n >= len(b) {
			n = len(b) - 1
		}
		body = b[:n]
		damaged = true
	}
	if op.D > 0 && op.Raw == nil { // a long document: white space, or a field nobody looks at
		body = padDoc(body, op)
	}
	plain := body
	docEnd = len(bytes.TrimRight(body, " \t\r\n"))
	if op.Gzip && op.Bad != "notgzip" {
		if n := int(op.M); n > 1 && op.Flip == 0 && op.Cut == 0 { // several members
			var out []byte
			for ; n > 0; n-- {
				k := len(body) / n
				out = append(out, gzipBytes(body[:k], 1+int(op.Style%9))...)
				body = body[k:]
			}
			body = out
		} else {
			body = gzipBytes(body, 1+int(op.Style%9))
		}
	}
	if op.Flip > 0 && op.Gzip {
		at := 10 + (len(body)-10)*op.Flip/1000
		if at >= len(body) {
			at = len(body) - 1
		}
		body[at] ^= byte(1 << (op.Style % 8))
		damaged = damaged || !gunzipsTo(body, plain)
	}
	cutAt = -1
	if op.Cut > 0 {
		switch op.CutMode {
		case "close", "reset":
			cutAt = len(body) * op.Cut / 1000
		case "gzip": // the compressed stream ends early, the HTTP message is fine
			if op.Gzip {
				n := len(body) * op.Cut / 1000
				body = body[:n]
				damaged = true
			}
		}
	}
	if op.Gzip {
		docEnd = len(body)
		for n := len(body) - 1; cutAt >= 0 && n >= cutAt; n-- {
			if !gunzipHas(body[:n], plain) {
				break
			}
			docEnd = n
		}
	}
	return body, cutAt, docEnd, damaged
}

// padDoc makes a document of at least op.D bytes that means the same.
func padDoc(body []byte, op *Op) []byte {
	r := NewRng(op.Style ^ 0x9ad)
	pad := bytes.Repeat([]byte(pick(r, " ", "\n", "\t ")), int(op.D))
	switch at := bytes.IndexByte(body, '{'); {
	case r.P(30):
		return append(pad, body...)
	case r.P(40) || at < 0:
		return append(append([]byte(nil), body...), pad...)
	default:
		field := []byte(`{"padding":"` + longText(op.Style, int(op.D)) + `"`)
		if rest := bytes.TrimLeft(body[at+1:], " \t\r\n"); len(rest) == 0 || rest[0] != '}' {
			field = append(field, ',')
		}
		return append(append(append([]byte(nil), body[:at]...), field...), body[at+1:]...)
	}
}

func gunzipsTo(b, want []byte) bool {
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return false
	}
	got, err := io.ReadAll(zr)
	return err == nil && bytes.Equal(got, want)
}

// gunzipHas: the readable part of b contains the whole document.
func gunzipHas(b, want []byte) bool {
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return false
	}
	got, _ := io.ReadAll(zr)
	return len(got) >= len(bytes.TrimRight(want, " \t\r\n"))
}

func (s *System) connFor(op *Op, inst *Instance) *clientConn {
	if op.Conn <= 0 {
		return &clientConn{}
	}
	key := fmt.Sprintf("%d/%d", op.Inst, op.Conn)
	s.cmu.Lock()
	defer s.cmu.Unlock()
	c := s.conns[key]
	if c == nil {
		c = &clientConn{}
		s.conns[key] = c
	}
	return c
}

var errDial = errors.New("dial")

// Post sends one request and waits for its response.
func (s *System) Post(op *Op, idx int) *Request {
	inst := s.insts[op.Inst%len(s.insts)]
	r := &Request{Op: op, Idx: idx}
	body, cutAt, docEnd, damaged := buildBody(op)
	r.Damaged = damaged
	r.DocOut = !damaged && op.Bad == "" && !op.wrongType() && (cutAt < 0 || cutAt >= docEnd)
	cc := s.connFor(op, inst)
	cc.mu.Lock()
	defer cc.mu.Unlock()
	s.mu.Lock()
	s.busy = append(s.busy, r)
	s.mu.Unlock()
	s.exchange(cc, inst, op, r, body, cutAt)
	if op.Conn <= 0 && cc.c != nil {
		cc.c.Close()
		cc.c = nil
	}
	s.mu.Lock()
	s.reqs = append(s.reqs, r)
	s.busy = slices.DeleteFunc(s.busy, func(x *Request) bool { return x == r })
	s.mu.Unlock()
	s.w.Log("request %d (%s, %d spans, %d bytes) -> %s %d %s", idx, op.Fmt, len(op.Spans), len(body), r.fate(), r.Status, r.Err)
	return r
}

func (s *System) exchange(cc *clientConn, inst *Instance, op *Op, r *Request, body []byte, cutAt int) {
	r.Sent = s.w.Now()
	st := s.w.StallNs()
	idle := int64(0)
	if cc.c != nil {
		idle = r.Sent - cc.used
	}
	defer func() {
		r.Done = s.w.Now()
		cc.used = r.Done
		// the server gives a client 1 s for the header and 60 s of silence
		r.TimedOut = r.Done-r.Sent >= sec && s.w.StallNs()-st > 300*ms || idle > 59*sec
	}()
	if cc.c == nil {
		d := net.Dialer{Timeout: 5 * time.Second}
		c, err := d.Dial("tcp", inst.http)
		if err != nil {
			r.Err = err.Error()
			return
		}
		cc.c, cc.br = c, bufio.NewReader(c)
	}
	drop := func(err error) {
		r.Err = err.Error()
		cc.c.Close()
		cc.c = nil
	}
	path := opPath[op.Fmt]
	ct := "application/json"
	if op.S != "" {
		ct = op.S
	}
	var h strings.Builder
	fmt.Fprintf(&h, "POST %s HTTP/1.1\r\nHost: proxy\r\nContent-Type: %s\r\n", path, ct)
	if op.Gzip {
		h.WriteString("Content-Encoding: gzip\r\n")
	}
	if op.Chunked {
		h.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	} else {
		fmt.Fprintf(&h, "Content-Length: %d\r\n\r\n", len(body))
	}
	cc.c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := io.WriteString(cc.c, h.String()); err != nil {
		drop(err)
		return
	}
	// the response may arrive before the body is out
	send := func() error {
		pos := 0
		for pos < len(body) {
			n := len(body) - pos
			if op.Chunk > 0 && op.Chunk < n {
				n = op.Chunk
			}
			if cutAt >= 0 && pos+n > cutAt {
				n = cutAt - pos
			}
			if n > 0 {
				var err error
				if op.Chunked {
					_, err = fmt.Fprintf(cc.c, "%x\r\n%s\r\n", n, body[pos:pos+n])
				} else {
					_, err = cc.c.Write(body[pos : pos+n])
				}
				if err != nil {
					return err
				}
			}
			pos += n
			if cutAt >= 0 && pos >= cutAt {
				s.w.Fire("client_" + op.CutMode + "_mid_body")
				if op.CutMode == "reset" {
					cc.c.(*simConn).Reset()
				}
				return errors.New("client " + op.CutMode)
			}
			if op.Gap > 0 && pos < len(body) {
				time.Sleep(time.Duration(op.Gap))
			}
		}
		if op.Chunked {
			if _, err := io.WriteString(cc.c, "0\r\n\r\n"); err != nil {
				return err
			}
		}
		return nil
	}
	err := send()
	r.LastSent = s.w.Now()
	if err == nil {
		r.Complete = true
	} else if cutAt >= 0 {
		drop(err)
		return
	}
	resp, rerr := http.ReadResponse(cc.br, nil)
	if rerr != nil {
		drop(rerr)
		return
	}
	b, rerr := io.ReadAll(io.LimitReader(resp.Body, 1<<20))
	resp.Body.Close()
	r.Status = resp.StatusCode
	r.Body = string(b)
	if rerr != nil || resp.Close || err != nil {
		cc.c.Close()
		cc.c = nil
	}
}

// Admin fetches the recent spans.
func (s *System) Admin(instIdx int) *AdminSnap {
	inst := s.insts[instIdx%len(s.insts)]
	snap := &AdminSnap{}
	defer func() {
		snap.At = s.w.Now()
		s.mu.Lock()
		s.adm = append(s.adm, snap)
		s.mu.Unlock()
		snap.Seq = int64(s.w.Log("admin/spans -> %d, %d spans", snap.Status, len(snap.Spans)))
	}()
	resp, b := s.adminGet(inst, "/admin/spans")
	if resp == nil {
		return snap
	}
	snap.Status = resp.StatusCode
	snap.Raw = string(b)
	if resp.StatusCode == 200 {
		if err := json.Unmarshal(b, &snap.Spans); err != nil {
			s.w.Report("json", "recent spans are not valid JSON: %v: %.80s", err, b)
		}
		if s.w.Plan.Knob("converter", 0)&convIds != 0 {
			for i := range snap.Spans {
				a := &snap.Spans[i]
				a.Id, a.Trace, a.Parent = a.Id^convId, a.Trace^convTrace, a.Parent^convId
			}
		}
	}
	return snap
}

func (s *System) adminGet(inst *Instance, path string) (*http.Response, []byte) {
	c, err := net.Dial("tcp", inst.http)
	if err != nil {
		return nil, nil
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: proxy\r\nConnection: close\r\nAuthorization: Basic %s\r\n\r\n", path,
		base64.StdEncoding.EncodeToString([]byte("admin:bingo")))
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return nil, nil
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, nil
	}
	return resp, b
}

// Metrics fetches the metrics.
func (s *System) Metrics(instIdx int) {
	before := map[string]int64{}
	for _, name := range fateCounters {
		before[name] = counted(name)
	}
	resp, b := s.adminGet(s.insts[instIdx%len(s.insts)], "/admin/metrics")
	if resp == nil {
		return
	}
	s.w.Log("admin/metrics -> %d, %d bytes", resp.StatusCode, len(b))
	if resp.StatusCode != 200 {
		if !strings.Contains(string(b), "Inf") { // a rate right after the start, in no time
			s.w.Report("metrics", "the metrics view answered %d: %.200s", resp.StatusCode, b)
		}
		return
	}
	var doc map[string]map[string]any
	if err := json.Unmarshal(b, &doc); err != nil {
		s.w.Report("metrics", "the metrics view is not valid JSON: %v: %.80s", err, b)
		return
	}
	for _, name := range fateCounters {
		m, ok := doc["zipkin.proxy."+name]
		if !ok {
			s.w.Report("metrics", "the metrics view does not show %s", name)
			return
		}
		n, _ := m["count"].(float64)
		if lo, hi := before[name], counted(name); int64(n) < lo || int64(n) > hi {
			s.w.Report("metrics", "the metrics view shows %s as %v, it was %d before and is %d", name, n, lo, hi)
		}
	}
	for _, name := range []string{"binary.cache.hit.rate", "binary.cache.size", "binary.cache.count", "traces.partial.count", "traces.partial.span.count"} {
		if _, ok := doc["zipkin.proxy."+name]["value"].(float64); !ok {
			s.w.Report("metrics", "the metrics view does not show %s", name)
		}
	}
	s.w.Probe("metric_views", 1)
}

var fateCounters = []string{"traces.finished", "traces.noroot", "traces.toolarge", "traces.tooold", "traces.corrected", "traces.discarded",
	"traces.finishedsize", "spans.merged", "spans.discarded", "blacklist.span.received"}

// RunOps executes the workload and returns when every op is finished.
func (s *System) RunOps() {
	idxs := make([]int, len(s.w.Plan.Ops))
	for i := range idxs {
		idxs[i] = i
	}
	s.runOps(idxs)
}

func (s *System) runOps(idxs []int) {
	var wg sync.WaitGroup
	sort.SliceStable(idxs, func(a, b int) bool { return s.w.Plan.Ops[idxs[a]].At < s.w.Plan.Ops[idxs[b]].At })
	for _, i := range idxs {
		op := &s.w.Plan.Ops[i]
		sleepUntil(s.w, s.base+op.At)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			switch op.Kind {
			case "post":
				s.Post(op, i)
			case "admin":
				s.Admin(op.Inst)
			case "metrics":
				s.Metrics(op.Inst)
			default:
				trouble("unknown op kind %q", op.Kind)
			}
		}(i)
	}
	wg.Wait()
}
