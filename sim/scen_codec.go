//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"io"
	"runtime"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "codec": the real parsers, used by several goroutines at once and
// fed through readers that return the document in arbitrary pieces.
//
// ops: parse  the document of Spans/Fmt/Style by worker Conn; Cut = read error after this per mille
//      raw    the bytes Raw

func init() { scenarios["codec"] = runCodec }

var parsers = map[string]func(io.Reader) ([]proxy.Span, error){
	"v1": codec.ParseJsonV1, "v2": codec.ParseJsonV2, "jaeger": codec.ParseJaeger,
}

var errRead = errors.New("simulated read error")

// pieceReader returns data in random pieces.
type pieceReader struct {
	data    []byte
	r       *Rng
	max     int
	eofData bool // the end comes together with the last bytes
	zero    bool // sometimes returns nothing
	fail    bool
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.zero && p.r.P(10) {
		return 0, nil
	}
	if p.r.P(20) {
		runtime.Gosched()
	}
	if len(p.data) == 0 {
		if p.fail {
			return 0, errRead
		}
		return 0, io.EOF
	}
	n := len(b)
	if p.max > 0 && n > p.max {
		n = p.max
		if p.max > 2 {
			n = 1 + p.r.N(p.max)
		}
	}
	n = copy(b[:n], p.data)
	p.data = p.data[n:]
	if len(p.data) == 0 && p.eofData {
		if p.fail {
			return n, errRead
		}
		return n, io.EOF
	}
	return n, nil
}

type parsed struct {
	op   *Op
	got  []proxy.Span
	want []proxy.Span
}

func runCodec(w *World) {
	workers := map[int][]*Op{}
	var order []int
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		if workers[op.Conn] == nil {
			order = append(order, op.Conn)
		}
		workers[op.Conn] = append(workers[op.Conn], op)
	}
	running := 0
	var kept []parsed
	for _, c := range order {
		ops := workers[c]
		running++
		go func() {
			defer func() { running-- }()
			for _, op := range ops {
				if op.Kind == "raw" {
					w.parseRaw(op, len(order) == 1)
					continue
				}
				doc := encodeSpans(op.Fmt, op.Spans, op.Style, op.Bad)
				rd := newPieceReader(op, doc)
				if op.Cut > 0 {
					n := len(bytes.TrimRight(doc, " \t\r\n")) - 1
					rd.data = doc[:n*op.Cut/1000]
					rd.fail = op.Style%2 == 0
				}
				got, err := parsers[op.Fmt](rd)
				invalid := op.Cut > 0 || op.Bad != ""
				switch {
				case invalid && err == nil:
					w.Report("accept-invalid", "parsing a %s document (cut=%d, bad=%q) succeeded with %d spans", op.Fmt, op.Cut, op.Bad, len(got))
					return
				case invalid:
					w.Probe("codec_rejected", 1)
					continue
				case err != nil:
					w.Report("reject-valid", "parsing a valid %s document failed: %v", op.Fmt, err)
					return
				}
				var want []proxy.Span
				for i := range op.Spans {
					want = append(want, op.Spans[i].Expect(op.Fmt))
				}
				p := parsed{op, got, want}
				if !w.checkParsed(p, "") {
					return
				}
				kept = append(kept, p)
			}
		}()
	}
	for running > 0 {
		sleepNs(ms)
	}
	// nothing may have changed through what was parsed later
	for _, p := range kept {
		if !w.checkParsed(p, "later, ") {
			break
		}
	}
	w.Log("%d documents parsed", len(kept))
}

func newPieceReader(op *Op, doc []byte) *pieceReader {
	return &pieceReader{data: doc, r: NewRng(op.Style ^ 0xabc), max: op.Chunk, eofData: op.D&1 != 0, zero: op.D&2 != 0}
}

func (w *World) checkParsed(p parsed, when string) bool {
	if len(p.got) != len(p.want) {
		w.Report("field", "%sa %s document of %d spans gave %d spans", when, p.op.Fmt, len(p.want), len(p.got))
		return false
	}
	for i := range p.got {
		if d := diffSpan(p.got[i], p.want[i]); d != "" {
			w.Report("field", "%sspan %d of a %s document: %s", when, i, p.op.Fmt, d)
			return false
		}
	}
	w.Probe("codec_documents", 1)
	w.Probe("codec_spans", int64(len(p.got)))
	return true
}

// Limits for arbitrary input, far above what any of the parsers needs.
const (
	rawAllocBase = 3 << 20
	rawAllocByte = 1500
	rawStmtBase  = 60_000
	rawStmtByte  = 200
)

func (w *World) parseRaw(op *Op, alone bool) {
	var before, after runtime.MemStats
	st := runtime.SimStats().Statements
	if alone {
		runtime.ReadMemStats(&before)
	}
	got, err := parsers[op.Fmt](newPieceReader(op, op.Raw))
	if alone {
		runtime.ReadMemStats(&after)
		used := int64(after.TotalAlloc - before.TotalAlloc)
		if limit := rawAllocBase + rawAllocByte*int64(len(op.Raw)); used > limit {
			w.Report("unbounded", "parsing %d bytes allocated %d bytes", len(op.Raw), used)
		}
		n := int64(runtime.SimStats().Statements - st)
		if limit := rawStmtBase + rawStmtByte*int64(len(op.Raw)); n > limit {
			w.Report("unbounded", "parsing %d bytes took %d steps", len(op.Raw), n)
		}
		if len(op.Raw) > 2000 {
			w.Probe("raw_large", 1)
		}
	}
	if err != nil {
		w.Probe("raw_rejected", 1)
	} else {
		w.Probe("raw_accepted", 1)
		w.Probe("raw_spans", int64(len(got)))
	}
	w.Log("raw %s, %d bytes: %d spans, error %v", op.Fmt, len(op.Raw), len(got), err != nil)
}

// ---------------------------------------------------------------- generators

func genCodecOps(r *Rng, p *Plan) {
	p.Scenario = "codec"
	p.Sched.YieldMean = pick(r, uint32(1), 3, 10, 40, 200)
	p.Knobs["stmt_limit"] = 1_000_000_000
	workers := r.Range(1, 6)
	if p.Sched.Mode != 5 && r.P(40) {
		p.Sched.Mode = 5
	}
	only, odd := "", pick(r, 5, 15, 50)
	if r.P(40) {
		only = pick(r, "v1", "v1", "v2", "jaeger")
	}
	for c := 1; c <= workers; c++ {
		g := &genState{r: r, o: &sysOpt{wildText: pick(r, 0, 20, 90), longPct: pick(r, 0, 5, 30), brokenTS: 3, skewPct: 0, noSvc: pick(r, 0, 0, 30)}, used: map[uint64]bool{}}
		for k := r.Range(1, 8); k > 0; k-- {
			op := Op{Kind: "parse", Conn: c, Fmt: pick(r, "v1", "v2", "jaeger"), Style: r.U64() >> 16, D: int64(r.N(4))}
			if only != "" {
				op.Fmt = only
			}
			op.Chunk = pick(r, 0, 1, 2, 7, 100, 4096, 8192, 5000)
			n := pick(r, 0, 1, 2, r.Range(1, 10), r.Range(1, 10), r.Range(10, 90), r.Range(60, 70))
			for i := 0; i < n; i++ {
				s := LSpan{T: g.id(), I: g.id()}
				if r.P(70) {
					s.P = g.id()
				}
				g.fill(&s, op.Fmt, r.I64(10*sec), "")
				if (s.LongN > 0 || s.LongV > 0) && op.Chunk > 0 && op.Chunk < 100 {
					op.Chunk = 100
				}
				op.Spans = append(op.Spans, s)
			}
			if n > 0 && r.P(15) {
				op.Bad = pick(r, badKinds...)
			} else if n > 0 && r.P(15) {
				op.Cut = r.Range(1, 999)
			} else if n > 0 && r.P(odd) {
				// an odd document: whatever becomes of it, it must not leave traces in the others
				op.Kind, op.Raw = "raw", encodeSpans(op.Fmt, op.Spans, op.Style, "dup")
				if r.P(30) {
					op.Raw = mutateDoc(r, op.Raw)
				}
				op.Spans = nil
			}
			p.Ops = append(p.Ops, op)
		}
	}
}

// mutateDoc damages a document in a way that keeps most of its structure.
func mutateDoc(r *Rng, doc []byte) []byte {
	tokens := []string{"{", "}", "[", "]", "\"", "\\", ",", ":", "null", "true", "fals", "1e", "-", "1E+", "\\u", "\\ud83d", "\"\\u12\"", "\x00", "\xff", "\x85",
		"\"id\":", "\"tags\":{", "\"annotations\":[", "\"binaryAnnotations\":[{", "99999999999999999999999", "\\\"", "tru", "n", "\"\"", "\xe2\x80\xa8"}
	for n := r.Range(1, 6); n > 0 && len(doc) > 0; n-- {
		i := r.N(len(doc))
		switch r.N(7) {
		case 0:
			doc[i] ^= byte(1 << r.N(8))
		case 1:
			doc = append(doc[:i:i], doc[min(len(doc), i+1+r.N(20)):]...)
		case 2:
			j := min(len(doc), i+1+r.N(200))
			doc = append(doc[:j:j], doc[i:]...)
		case 3, 4:
			t := pick(r, tokens...)
			doc = append(doc[:i:i], append([]byte(t), doc[i:]...)...)
		case 5:
			doc = doc[:i]
		case 6:
			doc[i] = byte(r.N(256))
		}
	}
	return doc
}

// rawDoc makes hostile input.
func rawDoc(r *Rng, format string, max int) []byte {
	switch r.N(8) {
	case 0: // noise
		b := make([]byte, r.Range(0, 300))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case 1: // structural noise
		var b []byte
		for n := r.Range(1, 300); n > 0; n-- {
			b = append(b, pick(r, "{", "[", "\"", "}", "]", ",", ":", "1", "\\", "null", "\"a\"", " ", "\"id\":\"1\"", "t", "\\u0041", "-", "e")...)
		}
		return b
	case 2: // deep nesting
		n := pick(r, 100, 9990, 10010, r.Range(1, max/2), max)
		open := pick(r, "[", "{\"a\":", "[{\"x\":", "[[")
		pre := pick(r, "[{\"x\":", "[{\"tags\":", "", "[{\"annotations\":[{\"endpoint\":{\"x\":", "{\"data\":[{\"x\":", "[{\"id\":")
		if n > max/len(open) {
			n = max / len(open)
		}
		s := pre + strings.Repeat(open, n)
		if r.P(30) {
			s += strings.Repeat("]", n)
		}
		return []byte(s)
	case 3: // a long token
		n := r.Range(1, max)
		return []byte(pick(r, "[{\"name\":\"", "[{\"timestamp\":", "[{\"tags\":{\"", "[{\"x\":\"", "[", "[{\"id\":\"", "{\"data\":[{\"spans\":[{\"operationName\":\"") +
			strings.Repeat(pick(r, "a", "1", "\\\"", "\\u00e9", " ", "\\", ",", "\\ud83d\\ude00"), n/3+1) + pick(r, "", "\"", "\"}]", "}]"))
	case 4: // many small elements
		n := r.Range(1, max/4)
		return []byte("[" + strings.Repeat(pick(r, "{}", "{},", "{\"id\":null},", "{\"annotations\":[]},", "{\"annotations\":[{},{},{},{},{},{}]},",
			"{\"tags\":{\"a\":\"b\"}},", "null,", "{\"binaryAnnotations\":[{},{}]},", "{\"binaryAnnotations\":[{\"key\":\"a\",\"value\":1}]},"), n/8+1) + pick(r, "", "]"))
	}
	g := &genState{r: r, o: &sysOpt{wildText: 30, longPct: 10}, used: map[uint64]bool{}}
	var spans []LSpan
	for n := r.Range(1, 8); n > 0; n-- {
		s := LSpan{T: g.id(), I: g.id(), P: g.id()}
		g.fill(&s, format, 0, "")
		spans = append(spans, s)
	}
	return mutateDoc(r, encodeSpans(format, spans, r.U64()>>16, ""))
}

func genRawCodec(r *Rng, p *Plan) {
	p.Scenario = "codec"
	p.Knobs["stmt_limit"] = 1_000_000_000
	p.Sched.YieldMean = pick(r, uint32(0), 0, 10)
	workers := pick(r, 1, 1, 1, 3)
	for c := 1; c <= workers; c++ {
		for k := r.Range(3, 12); k > 0; k-- {
			op := Op{Kind: "raw", Conn: c, Fmt: pick(r, "v1", "v2", "jaeger"), Style: r.U64() >> 16, D: int64(r.N(4))}
			op.Raw = rawDoc(r, op.Fmt, pick(r, 500, 5000, 60_000, 250_000))
			op.Chunk = pick(r, 0, 0, 1, 3, 100, 8192)
			if len(op.Raw) > 20000 && op.Chunk > 0 && op.Chunk < 100 {
				op.Chunk = 100
			}
			p.Ops = append(p.Ops, op)
			if r.P(40) { // valid documents must not suffer
				v := Op{Kind: "parse", Conn: c, Fmt: op.Fmt, Style: r.U64() >> 16}
				g := &genState{r: r, o: &sysOpt{wildText: 20}, used: map[uint64]bool{}}
				for i := r.Range(1, 4); i > 0; i-- {
					s := LSpan{T: g.id(), I: g.id(), P: g.id()}
					g.fill(&s, v.Fmt, 0, "")
					v.Spans = append(v.Spans, s)
				}
				p.Ops = append(p.Ops, v)
			}
		}
	}
}

// genRawSystem sends hostile requests among good ones.
func genRawSystem(r *Rng, p *Plan) {
	o := baseSys()
	o.traces = [2]int{1, 5}
	o.span = 3 * sec
	o.slowPct = 20
	p.Scenario = "system"
	p.Ops = genSystemOps(r, o)
	g := &genState{r: r, o: o, used: map[uint64]bool{}}
	for k := r.Range(3, 15); k > 0; k-- {
		op := Op{Kind: "post", At: r.I64(o.span), Fmt: pick(r, "v1", "v2", "jaeger")}
		op.Raw = rawDoc(r, op.Fmt, pick(r, 500, 5000, 40_000))
		if op.Raw == nil {
			op.Raw = []byte{}
		}
		g.wireStyle(&op)
		if r.P(20) {
			op.S = pick(r, "text/plain", "application/json; charset=utf-8", "application/x-thrift", "", "x/y; application/json")
		}
		switch r.N(8) {
		case 0:
			op.Bad, op.Gzip = "notgzip", true
			if len(op.Raw) > 1 && op.Raw[0] == 0x1f {
				op.Raw[0] = '['
			}
		case 1:
			op.Cut, op.CutMode = r.Range(1, 999), pick(r, "close", "reset")
		case 2:
			op.Gzip, op.Flip = true, r.Range(1, 999)
		}
		p.Ops = append(p.Ops, op)
	}
	genNetKnobs(r, p)
}
