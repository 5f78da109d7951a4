//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "soak": the same round of traffic again and again with other ids;
// after each round everything is out and memory and goroutines are measured.
//
// knobs: rounds, stage (0: whole proxy, 1: assembly stage)
// ops of stage 0: as in the system scenario, repeated in every round
// ops of stage 1: plain, noroot, large, twice: N traces of M spans
//                 old: N traces that get a span every D ns for 5.5 hold times

func init() {
	scenarios["soak"] = runSoak
	generators["P20"] = genSoak
}

type soakRound struct {
	heap  int64
	gor   int64
	spans int64
}

func runSoak(w *World) {
	n := int(w.Plan.Knob("rounds", 10))
	var res []soakRound
	// more decides after a round whether there is another one.
	more := func(spans int64) bool {
		w.log = nil
		for i := 0; i < 3; i++ { // pools are emptied step by step
			runtime.GC()
			sleepNs(sec)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		res = append(res, soakRound{int64(m.HeapAlloc), int64(runtime.NumGoroutine()), spans})
		switch len(res) {
		case n:
			h, g := soakGrowth(res, n-7, n)
			return h > soakHeap || g > soakGor
		case 2 * n:
			return false
		}
		return true
	}
	if w.Plan.Knob("stage", 0) == 1 {
		soakAssembly(w, more)
	} else {
		soakSystem(w, more)
	}
	line := ""
	for _, r := range res {
		line += fmt.Sprintf(" %dK/%d", r.heap/1024, r.gor)
	}
	w.Probe("soak_rounds", int64(len(res)))
	w.Probe("soak_spans", res[0].spans*int64(len(res)))
	if w.Plan.Knob("show", 0) != 0 {
		w.Log("memory/goroutines after the rounds:%s", line)
	}
	if len(res) == n {
		return
	}
	// It grew. What is only settling (maps, pools, caches) comes to an end, a
	// leak goes on at the same rate.
	w.Probe("soak_long", 1)
	h1, g1 := soakGrowth(res, n-7, n)
	h2, g2 := soakGrowth(res, n-3, 2*n)
	if h1 > soakHeap && h2 > soakHeap && h2 > h1 {
		w.Report("memory", "the idle proxy holds more and more memory: %d KB more after %d equal rounds of %d spans, and again %d KB more after %d rounds (per round, with the number of goroutines:%s)", h1/1024, n, res[0].spans, h2/1024, len(res), line)
	}
	if g1 > soakGor && g2 > soakGor && g2 > g1 {
		w.Report("memory", "the idle proxy has more and more goroutines: %d more after %d equal rounds of %d spans, and again %d more after %d rounds (memory/goroutines per round:%s)", g1, n, res[0].spans, g2, len(res), line)
	}
}

const (
	soakHeap = 100 * 1024
	soakGor  = 3
)

// soakGrowth compares the best of the three rounds up to late with the best of
// the three rounds from early on.
func soakGrowth(res []soakRound, early, late int) (heap, gor int64) {
	low := func(l []soakRound) (h, g int64) {
		h, g = l[0].heap, l[0].gor
		for _, r := range l {
			h, g = min(h, r.heap), min(g, r.gor)
		}
		return
	}
	eh, eg := low(res[early : early+3])
	lh, lg := low(res[late-3 : late])
	return lh - eh, lg - eg
}

func soakSystem(w *World, more func(int64) bool) {
	s := NewSystem(w)
	var k8 *kafkaSim
	if b := w.Plan.Knob("brokers", 0); b > 0 {
		k8 = &kafkaSim{s: s, c: newCluster(w, int(b), 1)}
		s.kafka = k8
		s.lag = kafkaLag
		k8.c.Fault = k8.fault
		k8.start()
		if !k8.settle(150 * sec) {
			return
		}
		k8.armed = true
	} else {
		netKnobs(w, w.Net.Link("proxy0:3080"), "client")
		netKnobs(w, w.Net.Link("agent0:8126"), "agent")
		s.Start(0, "")
	}
	s.insts[0].agent.forget = true
	s.forget = true
	plain := make([][]LSpan, len(w.Plan.Ops))
	total := int64(0)
	for i := range w.Plan.Ops {
		plain[i] = append([]LSpan(nil), w.Plan.Ops[i].Spans...)
		total += int64(len(plain[i]))
	}
	for k := 0; ; k++ {
		mask := uint64(k) * 0x0003_5000_0000_1000
		for i := range w.Plan.Ops {
			for j := range w.Plan.Ops[i].Spans {
				a, b := &w.Plan.Ops[i].Spans[j], plain[i][j]
				a.T, a.I = b.T^mask, b.I^mask
				if b.P != 0 {
					a.P = b.P ^ mask
				}
			}
		}
		s.base = w.Now()
		if k8 != nil {
			k8.base0 = s.base
			for i := range w.Plan.Faults {
				go s.runFault(&w.Plan.Faults[i])
			}
		} else {
			s.RunFaults()
		}
		s.RunOps()
		last := int64(0)
		for _, f := range w.Plan.Faults {
			last = max(last, f.From, f.To)
		}
		sleepUntil(w, s.base+last)
		w.settle(holdTime + 30*sec)
		for _, c := range s.conns {
			if c.c != nil {
				c.c.Close()
				c.c = nil
			}
		}
		s.conns = map[string]*clientConn{}
		s.sweep(uint64(k) << 24)
		s.reqs, s.adm, s.conv = nil, nil, nil
		if k8 != nil && !k8.settle(240*sec) {
			return
		}
		w.settle(120 * sec) // idle connections are closed
		if k8 != nil {
			k8.c.Forget()
		}
		if !more(total) {
			return
		}
	}
}

// sweep sends spans until the recent spans and the sink's preallocated spans
// hold nothing of the round; the converter takes away what they carry.
func (s *System) sweep(mask uint64) {
	op := &Op{Kind: "post", Fmt: "v2"}
	n := uint64(9000)
	for i := uint64(1); i <= n; i++ {
		root := 0x00aa_0000_0000_0000 ^ mask | i&^15 | 1
		op.Spans = append(op.Spans, LSpan{T: root, I: 0x00aa_0000_0000_0000 ^ mask | i + 16, P: root, N: "sweep", Svc: "sweep", TS: 1700000000_000_000, D: 1})
		if i%16 == 1 {
			op.Spans[i-1].I = root
		}
	}
	r := &Request{Op: op, Idx: -1}
	body, _, _, _ := buildBody(op)
	cc := &clientConn{}
	s.exchange(cc, s.insts[0], op, r, body, -1)
	if cc.c != nil {
		cc.c.Close()
	}
	s.w.settle(holdTime + 20*sec)
}

func soakAssembly(w *World, more func(int64) bool) {
	in := make(chan proxy.Span, 64)
	out := make(chan proxy.Trace, 64)
	go func() {
		for range out {
		}
	}()
	go zipkinproxy.ErrorCorrectSpans(in, out)
	quietLogs(w)
	id := uint64(0x10_0000_0000)
	total := int64(0)
	for k := 0; ; k++ {
		total = 0
		running := 0
		for i := range w.Plan.Ops {
			op := &w.Plan.Ops[i]
			base := id
			id += uint64(op.N+1) * 100_000
			running++
			go func() {
				defer func() { running-- }()
				at := w.Now() + op.At
				span := func(trace, i, parent uint64) {
					in <- proxy.Span{Trace: proxy.Id(trace), Id: proxy.Id(i), Parent: proxy.Id(parent), Name: "n", Service: "s",
						Timestamp: proxy.Timestamp(1700000000 * sec), Duration: time.Millisecond}
					total++
				}
				sleepUntil(w, at)
				again := int64(1)
				if op.Kind == "old" {
					again = 44*sec/op.D + 1
				}
				for r := int64(0); r < again; r++ {
					for n := uint64(0); n < uint64(op.N); n++ {
						trace := base + n*100_000
						for m := uint64(0); m < uint64(op.M); m++ {
							switch {
							case op.Kind == "noroot":
								span(trace, trace+m+1, trace+50_000+m)
							case op.Kind == "twice":
								span(trace, trace+m/2, trace)
							default:
								span(trace, trace+m, trace)
							}
						}
					}
					if again > 1 {
						sleepNs(op.D)
					}
				}
			}()
		}
		for running > 0 {
			sleepNs(100 * ms)
		}
		w.settle(20 * sec)
		if !more(total) {
			return
		}
	}
}

func genSoak(r *Rng, p *Plan) {
	p.Scenario = "soak"
	p.Knobs["stmt_limit"] = 12_000_000_000
	p.Knobs["max_sim"] = 40_000 * sec
	p.Knobs["rounds"] = int64(r.Range(10, 12))
	if r.P(40) {
		p.Knobs["stage"] = 1
		p.Sched.YieldMean = pick(r, uint32(0), 0, 200, 1000)
		p.Sched.StallPpm = 0
		for k := r.Range(1, 3); k > 0; k-- {
			op := Op{Kind: pick(r, "plain", "noroot", "large", "twice", "old", "old"), At: r.I64(5 * sec)}
			switch op.Kind {
			case "large":
				op.N, op.M = 1, int64(r.Range(8193, 9000))
			case "old":
				op.N, op.M, op.D = int64(r.Range(1200, 3000)), 1, r.Range64(6*sec, 7500*ms)
			default:
				op.N, op.M = int64(pick(r, 100, 1000, 4000)), int64(r.Range(2, 8))
			}
			p.Ops = append(p.Ops, op)
		}
		return
	}
	o := baseSys()
	o.traces = [2]int{1, 10}
	o.maxSpans = 120
	o.damagePct = pick(r, 0, 30, 60)
	o.dupPct = pick(r, 0, 20)
	o.mergePct = pick(r, 0, 30)
	o.oddPct = pick(r, 0, 40)
	o.fakePct = pick(r, 0, 20)
	o.slowPct = pick(r, 0, 20)
	o.admin = pick(r, 0, 2)
	o.span = 4 * sec
	p.Ops = genSystemOps(r, o)
	g := &genState{r: r, o: o, used: map[uint64]bool{}}
	for k := r.Range(1, 3); k > 0; k-- {
		s := LSpan{T: g.id()&^0xffff | 1, I: g.id()&^0xffff | 1}
		f := pick(r, "v1", "v2", "jaeger")
		g.fill(&s, f, 0, "none")
		s.Ann, s.LongN, s.LongV = nil, 0, 0
		if s.TS == 0 {
			s.TS, s.D = 1700000000_000_000, 1000
		}
		p.Ops = append(p.Ops, Op{Kind: "bulk", At: r.I64(o.span), Fmt: f, Gzip: r.P(30), N: int64(r.Range(500, 2500)), Per: pick(r, 1, 3, 20, 200), Spans: []LSpan{s}})
	}
	if v := r.Fork(5); v.P(30) {
		p.Knobs["brokers"] = int64(v.Range(1, 2))
		genKafkaNet(v, p)
		delete(p.Knobs, "start_gap")
		if v.P(60) {
			f := Fault{From: v.I64(4 * sec), Node: v.Range(-1, int(p.Knobs["brokers"])-1), Inst: -1}
			f.To = f.From + pick(v, v.Range64(1, 15*sec), v.Range64(10*sec, 60*sec))
			switch v.N(4) {
			case 0, 1:
				f.Kind, f.S = "kafkalink", pick(v, "refuse", "blackhole", "partition")
			case 2:
				f.Kind, f.S = "broker", pick(v, "hang", "close", "error", "error/0", "close/0", "error/1", "error/12", "hang/11", "error/14", "error/3")
			case 3:
				f.Kind, f.To = "rebalance", f.From
			}
			p.Faults = append(p.Faults, f)
		}
	} else {
		genNetKnobs(r, p)
	}
	for _, k := range []string{"client_chunk", "agent_chunk", "kafka_chunk"} { // many small packets only cost memory of the simulator
		if p.Knobs[k] > 0 && p.Knobs[k] < 1000 {
			p.Knobs[k] = 1400
		}
	}
	addPads(r, p, 5)
	p.Sched.YieldMean = pick(r, uint32(0), 0, 60, 300)
	if r.P(40) {
		p.Knobs["converter"] = int64(r.Range(1, 255))
	}
	switch r.N(4) {
	case 0:
		genAgentFaults(r, p, o.span)
	case 1: // no agent at all, ever
		if r.P(50) {
			p.Faults = append(p.Faults, Fault{Kind: "agent", From: 0, To: 60 * sec, S: pick(r, agentModes[:6]...)})
		} else {
			p.Faults = append(p.Faults, Fault{Kind: "agentlink", From: 0, To: 60 * sec, S: pick(r, "refuse", "blackhole", "partition")})
		}
	}
	if r.P(20) {
		p.Faults = append(p.Faults, Fault{Kind: "client_reset", From: r.I64(o.span)})
	}
}
