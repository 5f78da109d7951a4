//go:build go1.22

package main

import "strings"

// Generators for the whole-system workloads.

type sysOpt struct {
	traces    [2]int // number of traces
	spans     [2]int // spans per trace
	window    int64  // a trace's spans are sent within this time
	span      int64  // workload is spread over this time
	damagePct int    // requests that are cut, damaged or invalid
	dupPct    int    // requests that are sent a second time
	mergePct  int    // spans reported by client and server
	oddPct    int    // traces without a usable root
	fakePct   int    // traces with a common missing parent
	longPct   int    // spans with long texts
	noSvc     int    // percent of spans without a service
	wildText  int    // percent of texts with escapes, unicode
	slowPct   int    // requests that trickle in
	skewPct   int    // percent of server halves with a skewed clock
	brokenTS  int    // percent of spans with a pre-2020 timestamp
	burstPct  int    // traces with stragglers
	wideTrace int    // percent of traces with many spans
	admin     int
	maxSpans  int
}

var words = []string{"get", "put", "select", "/users/{id}", "checkout", "auth", "render", "cache-lookup", "query", "POST /api", "x"}
var services = []string{"frontend", "backend", "users", "billing", "db", "edge-proxy", "svc-é"}
var wild = []string{"\"quoted\"", "back\\slash", "tab\tnew\nline", "ünïcödé", "日本語", "emoji \U0001F600!", "slash/", "\r\n", "ctrl\u0001\u001f", "]}", "{\"a\":[1,2]}", "null", "true", "a,b:c", "\u2028", "\b\f"}

type genState struct {
	r      *Rng
	o      *sysOpt
	nextID uint64
	used   map[uint64]bool
	total  int
}

func (g *genState) id() uint64 {
	for {
		var v uint64
		switch g.r.N(6) {
		case 0:
			v = uint64(g.r.Range(1, 300))
		case 1:
			v = g.r.U64() >> 32
		case 2:
			v = g.r.U64() | 1<<63
		default:
			v = g.r.U64()
		}
		if v != 0 && v != 77 && !g.used[v] && v < 0xfeed000000000000 {
			g.used[v] = true
			return v
		}
	}
}

func (g *genState) text(list []string) string {
	s := pick(g.r, list...)
	if g.r.P(g.o.wildText) {
		s = strings.Repeat(pick(g.r, wild...), g.r.Range(1, 3)) + s
		if g.r.P(50) {
			s += pick(g.r, wild...)
		}
	}
	return s
}

func (g *genState) fill(s *LSpan, format string, at int64, kind string) {
	r := g.r
	s.N = g.text(words)
	if r.P(5) {
		s.N = ""
	}
	s.Svc = g.text(services)
	if r.P(g.o.noSvc + 5) {
		s.Svc = ""
	}
	base := uint64((1700000000*sec + at) / 1000)
	s.TS = base - uint64(r.N(2_000_000))
	s.D = uint64(r.Range(1, 500000))
	switch r.N(12) {
	case 0:
		s.D = 0
	case 1:
		s.D = uint64(r.Range(1, 3))
	case 2:
		s.D = uint64(r.Range(1, 60)) * 1000000
	}
	if r.P(g.o.brokenTS) {
		s.TS = uint64(pick(r, 1, 5, 1000, 1577836799_999_999, 1577836800_000_000, 1500000000_000_000))
	}
	if n := r.N(5); n > 0 {
		seen := map[string]bool{}
		for ; n > 0; n-- {
			k := pick(r, "http.method", "http.url", "error", "lc", "component", "retry", "k"+itoa(r.N(20)), "db.statement")
			if r.P(g.o.wildText) {
				k = pick(r, wild...)
			}
			if seen[k] || (k == "lc" && seen["component"]) || (k == "component" && seen["lc"]) {
				continue
			}
			seen[k] = true
			v := g.text([]string{"GET", "200", "true", "false", "0", "1", "", "timeout", "12345", "v" + itoa(r.N(1000)),
				"-7", "1.5", "-0.25e+3", "1E5", "9007199254740993", "18446744073709551616", "0.1000"})
			s.Tags = append(s.Tags, [2]string{k, v})
		}
	}
	if r.P(g.o.longPct) {
		if r.P(50) {
			s.LongN = r.Range(200, 30000)
		} else {
			s.LongV = r.Range(200, 40000)
		}
	}
	s.Kind = ""
	switch kind {
	case "client":
		s.Kind = pick(r, "CLIENT", "client", "Client")
	case "server":
		s.Kind = pick(r, "SERVER", "server")
	case "":
		if r.P(20) {
			s.Kind = pick(r, "CLIENT", "SERVER", "PRODUCER", "consumer")
		}
	case "none":
	}
	if format == "v1" {
		d := s.D
		if d == 0 {
			d = 1000
		}
		ep := ""
		if r.P(60) {
			ep = s.Svc
		}
		switch strings.ToLower(s.Kind) {
		case "client":
			s.Ann = []LAnn{{"cs", s.TS, ep}, {"cr", s.TS + d, ep}}
		case "server":
			s.Ann = []LAnn{{"sr", s.TS, ep}, {"ss", s.TS + d, ep}}
		}
		if r.P(20) {
			s.Ann = append(s.Ann, LAnn{"wire.custom", s.TS + 1, ep})
		}
		if kind == "" && r.P(10) { // one span carries both sides
			s.Ann = []LAnn{{"cs", s.TS, ep}, {"sr", s.TS + d/4, ep}, {"ss", s.TS + d/2, ep}, {"cr", s.TS + d, ep}}
		}
		if s.Kind != "" && r.P(50) {
			s.TS, s.D = 0, 0
			if len(s.Ann) == 0 {
				s.Ann = []LAnn{{"custom", 1, ep}}
			}
		}
		if s.TS > 1600000000_000_000 && len(s.Ann) > 1 && r.P(25) { // what the annotations say is not what the span says
			s.TS += uint64(r.Range(1, 900_000))
			if r.P(50) {
				s.D = uint64(r.Range(1, 900_000))
			}
		}
		s.Kind = ""
		shuffle(r, s.Ann)
	}
}

// halves makes two reports (client and server) out of one span.
func (g *genState) halves(s LSpan, format string, at int64) (LSpan, LSpan, string) {
	r := g.r
	c := LSpan{T: s.T, I: s.I, P: s.P}
	v := LSpan{T: s.T, I: s.I, P: s.P}
	f2 := format
	if r.P(30) {
		f2 = pick(r, "v1", "v2", "jaeger")
	}
	g.fill(&c, format, at, "client")
	g.fill(&v, f2, at, "server")
	if r.P(30) && f2 != "jaeger" && v.P != v.I {
		v.P = 0
	}
	if r.P(g.o.skewPct) {
		d := uint64(r.Range(0, 4_000_000))
		if v.TS > 1600000000_000_000 {
			v.TS += d
		}
		for i := range v.Ann {
			if v.Ann[i].TS > 1600000000_000_000 {
				v.Ann[i].TS += d
			}
		}
	}
	return c, v, f2
}

type timedSpan struct {
	at  int64
	fmt string
	s   LSpan
}

// genTrace lays out one trace; the reports carry the time they are sent.
func (g *genState) genTrace(start int64, format string) []timedSpan {
	r := g.r
	o := g.o
	n := r.Range(o.spans[0], o.spans[1])
	if r.P(15) {
		n = 1
	}
	if r.P(o.wideTrace) {
		n = r.Range(100, 400)
	}
	t := g.id()
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = g.id()
	}
	if r.P(50) {
		ids[0] = t
	}
	parent := make([]uint64, n)
	rootStyle := r.N(3)
	odd := r.P(o.oddPct)
	fake := !odd && n >= 2 && r.P(o.fakePct)
	for i := range parent {
		if i == 0 {
			switch rootStyle {
			case 0:
				parent[i] = ids[0]
			case 1:
				parent[i] = 0
			case 2:
				parent[i] = g.id() // caller outside
			}
			continue
		}
		switch r.N(3) {
		case 0:
			parent[i] = ids[0]
		case 1:
			parent[i] = ids[i-1]
		default:
			parent[i] = ids[r.N(i)]
		}
	}
	if fake {
		p := g.id()
		if r.P(50) {
			p = t
		}
		ids[0] = g.id() // a top level span never has the trace's id here, see DESIGN.md
		k := r.Range(2, n)
		for i := 0; i < n; i++ {
			if i < k {
				parent[i] = p
			} else {
				parent[i] = ids[r.N(i)]
			}
		}
	}
	if odd && n >= 2 {
		k := r.N(4)
		if n < 3 && k == 3 {
			k = 1
		}
		switch k {
		case 3: // one of several has another missing parent
			p := g.id()
			m := r.Range(3, n)
			for i := 0; i < m; i++ {
				parent[i] = p
			}
			parent[r.N(m)] = g.id()
		case 0: // two self rooted spans
			parent[0], parent[1] = ids[0], ids[1]
		case 1: // two different missing parents
			parent[0], parent[1] = g.id(), g.id()
		case 2: // only a cycle
			for i := range parent {
				parent[i] = ids[(i+1)%n]
			}
		}
	}
	var out []timedSpan
	spread := int64(0)
	if r.P(60) {
		spread = r.I64(o.window)
	}
	for i := range ids {
		s := LSpan{T: t, I: ids[i], P: parent[i]}
		at := start + r.I64(spread+1)
		if r.P(o.mergePct) && !fake {
			c, v, f2 := g.halves(s, format, at)
			out = append(out, timedSpan{at, format, c}, timedSpan{start + r.I64(spread+1), f2, v})
		} else {
			kind := ""
			g.fill(&s, format, at, kind)
			out = append(out, timedSpan{at, format, s})
		}
	}
	shuffle(r, out)
	if len(out) > 1 && r.P(o.burstPct) {
		d := pick(r, r.Range64(3*sec, 6800*ms), r.Range64(9500*ms, 20*sec))
		for i := r.Range(1, len(out)-1); i < len(out); i++ {
			out[i].at += d
		}
		if r.P(30) {
			d := pick(r, r.Range64(3*sec, 6800*ms), r.Range64(9500*ms, 15*sec))
			for i := r.Range(1, len(out)-1); i < len(out); i++ {
				out[i].at += d
			}
		}
	}
	g.total += len(out)
	return out
}

var badKinds = []string{"longid", "hexid", "syntax", "numname", "garbage",
	"tsfrac", "tsneg", "tsstr", "tsbool", "idtype", "tagtype", "toplevel"}

// wireStyle decides how a request travels.
func (g *genState) wireStyle(op *Op) {
	r := g.r
	op.Style = r.U64() >> 16
	op.Gzip = r.P(35)
	op.Chunked = r.P(30)
	if r.P(50) {
		op.Conn = r.Range(1, 3)
	}
	if r.P(g.o.slowPct) {
		op.Chunk = pick(r, 1, 7, 64, 500, 3000)
		op.Gap = r.I64(20 * ms)
		// keep the transfer within a second
		size := 0
		for i := range op.Spans {
			size += 600 + op.Spans[i].LongN + op.Spans[i].LongV
		}
		for op.Chunk*200 < size {
			op.Chunk *= 3
		}
		if m := int64(size / op.Chunk); m > 0 && op.Gap*m > 800*ms {
			op.Gap = 800 * ms / m
		}
	}
}

func genSystemOps(r *Rng, o *sysOpt) []Op {
	return genOps(&genState{r: r, o: o, used: map[uint64]bool{}})
}

func genOps(g *genState) []Op {
	r, o := g.r, g.o
	var ops []Op
	nt := r.Range(o.traces[0], o.traces[1])
	for k := 0; k < nt && (o.maxSpans == 0 || g.total < o.maxSpans); k++ {
		format := pick(r, "v1", "v2", "v2", "jaeger")
		start := r.I64(o.span)
		reports := g.genTrace(start, format)
		// requests: group the reports of the trace into a few bodies
		parts := 1
		if r.P(60) {
			parts = r.Range(1, 1+len(reports)/2)
		}
		groups := map[string]*Op{}
		var order []*Op
		for _, ts := range reports {
			key := ts.fmt + itoa(r.N(parts)) + "/" + itoa(int((ts.at-start)/(o.window+1)))
			op := groups[key]
			if op == nil {
				op = &Op{Kind: "post", At: ts.at, Fmt: ts.fmt}
				groups[key] = op
				order = append(order, op)
			}
			op.Spans = append(op.Spans, ts.s)
		}
		for _, op := range order {
			g.wireStyle(op)
			ops = append(ops, *op)
			if r.P(o.dupPct) {
				d := *op
				d.At += r.I64(2 * sec)
				g.wireStyle(&d)
				ops = append(ops, d)
			}
		}
	}
	// several traces of the same format in one request
	for i := 0; i+1 < len(ops); i++ {
		if ops[i].Fmt == ops[i+1].Fmt && ops[i].Cut == 0 && r.P(25) {
			a, b := &ops[i], &ops[i+1]
			if d := a.At - b.At; d < 2*sec && d > -2*sec {
				a.Spans = append(append([]LSpan(nil), a.Spans...), b.Spans...)
				if b.At > a.At {
					a.At = b.At
				}
				if r.P(50) {
					shuffle(r, a.Spans)
				}
				ops = append(ops[:i+1], ops[i+2:]...)
			}
		}
	}
	for i := range ops {
		if !r.P(o.damagePct) {
			continue
		}
		op := &ops[i]
		switch r.N(6) {
		case 0:
			op.Bad = pick(r, badKinds...)
		case 1:
			op.Cut, op.CutMode = r.Range(1, 999), "close"
		case 2:
			op.Cut, op.CutMode = r.Range(1, 999), "reset"
		case 3:
			op.Cut, op.CutMode = r.Range(1, 999), "json"
		case 4:
			op.Gzip = true
			op.Cut, op.CutMode = r.Range(1, 999), "gzip"
		case 5:
			op.Gzip = true
			op.Flip = r.Range(1, 999)
		}
	}
	for k := 0; k < o.admin; k++ {
		ops = append(ops, Op{Kind: "admin", At: r.I64(o.span + 14*sec)})
	}
	return ops
}

func genSched(r *Rng) Sched {
	s := Sched{Seed: r.U64() >> 8, Mode: pick(r, uint32(0), 1, 1, 2, 3, 3, 4, 4, 5, 5, 5)}
	s.YieldMean = pick(r, uint32(0), 3, 10, 40, 200)
	s.PoolMiss = pick(r, uint32(0), 0, 10, 50, 90)
	return s
}

// genStalls adds pauses of the process and steps of the wall clock.
func genStalls(r *Rng, p *Plan, span int64, maxStall int64) {
	if r.P(50) {
		for n := r.Range(1, 4); n > 0; n-- {
			p.Faults = append(p.Faults, Fault{Kind: "stall", From: r.I64(span), Arg: r.I64(maxStall) + 1})
		}
	}
	if r.P(50) {
		for n := r.Range(1, 4); n > 0; n-- {
			p.Faults = append(p.Faults, Fault{Kind: "wall", From: r.I64(span), Arg: r.Range64(-7200*sec, 7200*sec)})
		}
	}
	if p.Sched.YieldMean > 0 && r.P(30) {
		p.Sched.StallPpm = pick(r, uint32(50), 500, 3000)
		p.Sched.StallMaxNs = pick(r, 1*ms, 5*ms, 30*ms)
	}
}

// addBulk adds requests with very many spans, and times in which the user's
// converter is stuck.
func addBulk(r *Rng, p *Plan, span int64, pct int) {
	if !r.P(pct) {
		return
	}
	if p.Sched.YieldMean > 0 && p.Sched.YieldMean < 40 {
		p.Sched.YieldMean = 40
	}
	bulk := func(at int64, n int) {
		op := Op{Kind: "bulk", At: at, Fmt: pick(r, "v1", "v2", "jaeger"), Style: r.U64() >> 16, N: int64(n), Per: pick(r, 1, 1, 2, r.Range(3, 60)),
			Gzip: r.P(35), Chunked: r.P(30)}
		op.Spans = []LSpan{{T: r.U64()>>8<<4 | 1<<60, I: r.U64()>>8<<4 | 1<<61, N: "bulk", Svc: "bulk", TS: uint64((1700000000*sec + at) / 1000), D: uint64(r.Range(1, 5000))}}
		p.Ops = append(p.Ops, op)
	}
	size := func() int { return pick(r, r.Range(257, 600), r.Range(300, 1200)) }
	at := r.I64(span)
	bulk(at, size())
	if r.P(50) {
		from := at + 8*sec - r.I64(200*ms)
		p.Faults = append(p.Faults, Fault{Kind: "convstall", From: from, To: from + r.Range64(300*ms, 3*sec)})
		if r.P(80) {
			bulk(from+r.I64(400*ms), size())
		}
	} else if r.P(30) {
		bulk(r.I64(span), size())
	}
	for _, pre := range []string{"client", "agent"} { // tiny segments would take for ever
		if c, ok := p.Knobs[pre+"_chunk"]; ok && c < 1400 {
			p.Knobs[pre+"_chunk"] = 1400
		}
	}
	delete(p.Knobs, "client_window")
}

// addPads makes some requests arrive as several gzip members or as very long documents.
func addPads(r *Rng, p *Plan, pct int) {
	big := false
	for i := range p.Ops {
		op := &p.Ops[i]
		if op.Kind != "post" || op.Cut > 0 || op.Flip > 0 || op.Bad != "" || op.Raw != nil {
			continue
		}
		if op.Gzip && r.P(pct) {
			op.M = int64(r.Range(2, 4))
		}
		if !big && r.P(pct) {
			if r.P(20) {
				big = true
				op.D = r.Range64(1<<20, 5<<20)
				op.Gap = 0
				if op.Chunk > 0 && op.Chunk < 60000 {
					op.Chunk = 60000
				}
			} else {
				op.D = r.Range64(1, 5000)
			}
		}
	}
	if big {
		if c, ok := p.Knobs["client_chunk"]; ok && c < 9000 {
			p.Knobs["client_chunk"] = 9000
		}
		delete(p.Knobs, "client_window")
	}
}
