//go:build go1.22

package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"
)

// Agent is a simulated datadog trace agent.
type Agent struct {
	w      *World
	addr   string
	inst   int
	mu     sync.Mutex
	Got    []*Payload
	srv    *http.Server
	mode   func() (string, int64) // current fault
	undo   bool                   // the converter moves ids: undo it
	forget bool                   // do not keep what was received
}

// Payload is one submission that reached the agent completely.
type Payload struct {
	At, Seq  int64
	Accepted bool // answered with 200
	Refused  bool // answered with 404/415: the sender may send it again
	Groups   [][]DDSpan
	Bytes    int
	Path     string
}

func NewAgent(w *World, inst int, addr string, mode func() (string, int64)) *Agent {
	a := &Agent{w: w, addr: addr, inst: inst, mode: mode}
	l, err := w.Net.Listen("tcp", addr)
	if err != nil {
		trouble("agent: %v", err)
	}
	a.srv = &http.Server{Handler: a}
	a.srv.SetKeepAlivesEnabled(true)
	go a.srv.Serve(l)
	return a
}

func (a *Agent) reset(rw http.ResponseWriter) {
	c, _, err := rw.(http.Hijacker).Hijack()
	if err != nil {
		trouble("hijack: %v", err)
	}
	resetConn(c)
}

func resetConn(c net.Conn) {
	if s, ok := c.(*simConn); ok {
		s.Reset()
	}
	c.Close()
}

func (a *Agent) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	mode, arg := a.mode()
	if mode != "" {
		a.w.Fire("agent_" + mode)
		a.w.Log("agent%d fault %s", a.inst, mode)
	}
	switch mode {
	case "reset_before":
		io.CopyN(io.Discard, req.Body, arg)
		a.reset(rw)
		return
	case "hang_read": // never reads the body, never answers
		a.hang(req)
		return
	}
	body, err := io.ReadAll(req.Body)
	if err != nil {
		a.w.Log("agent%d request aborted after %d bytes", a.inst, len(body))
		return
	}
	p := &Payload{At: a.w.Now(), Bytes: len(body), Path: req.URL.Path}
	switch {
	case strings.HasSuffix(req.URL.Path, "/v0.3/traces"):
		p.Groups, err = decodeMsgpackTraces(body)
	case strings.HasSuffix(req.URL.Path, "/v0.2/traces"):
		p.Groups, err = decodeJSONTraces(body)
	default:
		err = fmt.Errorf("unknown path %s", req.URL.Path)
	}
	if err != nil {
		a.w.Fail("P09", "undecodable", "submission to the agent cannot be decoded: %v", err)
	}
	n := 0
	for _, g := range p.Groups {
		n += len(g)
		for i := range g {
			if a.undo {
				g[i].SpanID, g[i].TraceID, g[i].ParentID = g[i].SpanID^convId, g[i].TraceID^convTrace, g[i].ParentID^convId
			}
		}
	}
	p.Accepted = mode == "" || mode == "slow" || mode == "trickle"
	p.Refused = mode == "http404"
	p.Seq = int64(a.w.Log("agent%d received %d traces %d spans %s accepted=%v", a.inst, len(p.Groups), n, req.URL.Path, p.Accepted))
	a.mu.Lock()
	if !a.forget {
		a.Got = append(a.Got, p)
	}
	a.mu.Unlock()
	switch mode {
	case "reset_after":
		a.reset(rw)
	case "hang":
		a.hang(req)
	case "http500":
		rw.WriteHeader(500)
		io.WriteString(rw, "simulated failure")
	case "http404":
		rw.WriteHeader(404)
	case "slow":
		time.Sleep(time.Duration(arg))
		rw.WriteHeader(200)
		io.WriteString(rw, "OK\n")
	case "trickle": // answers at once but the body dribbles in
		rw.WriteHeader(200)
		for i := 0; i < 20; i++ {
			io.WriteString(rw, "x")
			rw.(http.Flusher).Flush()
			time.Sleep(time.Duration(arg))
		}
	default:
		rw.WriteHeader(200)
		io.WriteString(rw, "OK\n")
	}
}

// Traces returns all submissions so far.
func (a *Agent) Payloads() []*Payload {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]*Payload(nil), a.Got...)
}

// ------------------------------------------------------------------ decoding

func toDD(m map[string]any) DDSpan {
	var d DDSpan
	str := func(v any) string { s, _ := v.(string); return s }
	num := func(v any) int64 {
		switch v := v.(type) {
		case int64:
			return v
		case uint64:
			return int64(v)
		case json.Number:
			if i, err := v.Int64(); err == nil {
				return i
			}
			var u uint64
			fmt.Sscan(string(v), &u)
			return int64(u)
		}
		return 0
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := m[k]
		switch k {
		case "name":
			d.Name = str(v)
		case "service":
			d.Service = str(v)
		case "resource":
			d.Resource = str(v)
		case "type":
			d.Type = str(v)
		case "start":
			d.Start = num(v)
		case "duration":
			d.Duration = num(v)
		case "span_id":
			d.SpanID = uint64(num(v))
		case "trace_id":
			d.TraceID = uint64(num(v))
		case "parent_id":
			d.ParentID = uint64(num(v))
		case "error":
			d.Error = num(v)
		case "meta":
			if mm, ok := v.(map[string]any); ok {
				d.Meta = map[string]string{}
				for kk, vv := range mm {
					d.Meta[kk] = str(vv)
				}
			}
		default:
			d.Extra = append(d.Extra, k)
		}
	}
	return d
}

func toGroups(v any) ([][]DDSpan, error) {
	list, ok := v.([]any)
	if !ok {
		return nil, fmt.Errorf("payload is no list of traces")
	}
	var res [][]DDSpan
	for _, t := range list {
		tl, ok := t.([]any)
		if !ok {
			return nil, fmt.Errorf("trace is no list of spans")
		}
		var g []DDSpan
		for _, s := range tl {
			m, ok := s.(map[string]any)
			if !ok {
				return nil, fmt.Errorf("span is no map")
			}
			g = append(g, toDD(m))
		}
		res = append(res, g)
	}
	return res, nil
}

func decodeJSONTraces(b []byte) ([][]DDSpan, error) {
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	return toGroups(v)
}

type mpReader struct {
	b   []byte
	pos int
}

func decodeMsgpackTraces(b []byte) (res [][]DDSpan, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("msgpack: %v", r)
		}
	}()
	m := &mpReader{b: b}
	v := m.value()
	if m.pos != len(b) {
		return nil, fmt.Errorf("msgpack: %d trailing bytes", len(b)-m.pos)
	}
	return toGroups(v)
}

func (m *mpReader) take(n int) []byte {
	if m.pos+n > len(m.b) || n < 0 {
		panic("truncated")
	}
	r := m.b[m.pos : m.pos+n]
	m.pos += n
	return r
}

func (m *mpReader) uint(n int) uint64 {
	var v uint64
	for _, c := range m.take(n) {
		v = v<<8 | uint64(c)
	}
	return v
}

func (m *mpReader) list(n int) any {
	res := make([]any, 0, 16)
	for ; n > 0; n-- {
		res = append(res, m.value())
	}
	return res
}

func (m *mpReader) mapping(n int) any {
	res := map[string]any{}
	for ; n > 0; n-- {
		k := m.value()
		v := m.value()
		ks, ok := k.(string)
		if !ok {
			panic("map key is no string")
		}
		if _, dup := res[ks]; dup {
			panic("duplicate map key " + ks)
		}
		res[ks] = v
	}
	return res
}

func (m *mpReader) value() any {
	c := m.take(1)[0]
	switch {
	case c <= 0x7f:
		return int64(c)
	case c >= 0xe0:
		return int64(int8(c))
	case c&0xf0 == 0x80:
		return m.mapping(int(c & 15))
	case c&0xf0 == 0x90:
		return m.list(int(c & 15))
	case c&0xe0 == 0xa0:
		return string(m.take(int(c & 31)))
	}
	switch c {
	case 0xc0:
		return nil
	case 0xc2:
		return false
	case 0xc3:
		return true
	case 0xc4, 0xd9:
		return string(m.take(int(m.uint(1))))
	case 0xc5, 0xda:
		return string(m.take(int(m.uint(2))))
	case 0xc6, 0xdb:
		return string(m.take(int(m.uint(4))))
	case 0xca:
		return float64(math.Float32frombits(binary.BigEndian.Uint32(m.take(4))))
	case 0xcb:
		return math.Float64frombits(binary.BigEndian.Uint64(m.take(8)))
	case 0xcc:
		return m.uint(1)
	case 0xcd:
		return m.uint(2)
	case 0xce:
		return m.uint(4)
	case 0xcf:
		return m.uint(8)
	case 0xd0:
		return int64(int8(m.uint(1)))
	case 0xd1:
		return int64(int16(m.uint(2)))
	case 0xd2:
		return int64(int32(m.uint(4)))
	case 0xd3:
		return int64(m.uint(8))
	case 0xdc:
		return m.list(int(m.uint(2)))
	case 0xdd:
		return m.list(int(m.uint(4)))
	case 0xde:
		return m.mapping(int(m.uint(2)))
	case 0xdf:
		return m.mapping(int(m.uint(4)))
	}
	panic(fmt.Sprintf("byte %02x", c))
}

// hang keeps a request waiting until the sender gives up. A body that was not
// read hides that from the server.
func (a *Agent) hang(req *http.Request) {
	select {
	case <-req.Context().Done():
	case <-time.After(200 * time.Second):
	}
}
