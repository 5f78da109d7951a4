//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"net/http"
	"runtime"
	"sort"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "sink": the real trace-agent sink between a channel of traces and
// a simulated transport.
//
// ops:    trace  a trace with N spans, id D (parts of one trace may follow each other)
// faults: transport (From, To): calls take Arg ns longer, S = slow, error, hang (until To)

func init() { scenarios["sink"] = runSink }

type sinkCall struct {
	from, to int64
	hung     bool
	groups   [][]DDSpan
}

type sinkSend struct {
	at, done int64
	id       proxy.Id
	spans    []proxy.Span
}

type simTransport struct {
	w     *World
	calls []*sinkCall
	busy  int
}

func fromTracer(s *tracer.Span) DDSpan {
	m := make(map[string]string, len(s.Meta))
	for k, v := range s.Meta {
		m[k] = v
	}
	return DDSpan{Name: s.Name, Service: s.Service, Resource: s.Resource, Type: s.Type, Start: s.Start, Duration: s.Duration,
		SpanID: s.SpanID, TraceID: s.TraceID, ParentID: s.ParentID, Error: int64(s.Error), Meta: m}
}

func (t *simTransport) SetHeader(k, v string) {}

func (t *simTransport) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return &http.Response{StatusCode: 200}, nil
}

func (t *simTransport) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	w := t.w
	c := &sinkCall{from: w.Now()}
	for _, tr := range traces {
		g := make([]DDSpan, 0, len(tr))
		for _, s := range tr {
			if s == nil {
				w.Report("batch", "a submission holds an absent span")
				continue
			}
			g = append(g, fromTracer(s))
		}
		c.groups = append(c.groups, g)
	}
	t.calls = append(t.calls, c)
	t.busy++
	var f *Fault
	for i := range w.Plan.Faults {
		x := &w.Plan.Faults[i]
		if x.Kind == "transport" && c.from >= x.From && c.from < x.To {
			f = x
		}
	}
	d := w.Plan.Knob("send_ns", 2*ms)
	if f != nil {
		w.Fire("transport_" + f.S)
		switch f.S {
		case "hang":
			c.hung = true
			d = f.To - c.from
		default:
			d += f.Arg
		}
	}
	sleepNs(d)
	// the spans must not change while they are being sent
	for i, tr := range traces {
		for j, s := range tr {
			if s == nil {
				continue
			}
			if diff := diffDD(fromTracer(s), c.groups[i][j]); diff != "" {
				w.Report("batch", "a span changes while its submission is being sent: %s", diff)
			}
		}
	}
	c.to = w.Now()
	t.busy--
	if f != nil && f.S != "slow" {
		return nil, errors.New("simulated transport failure")
	}
	return &http.Response{StatusCode: 200}, nil
}

func runSink(w *World) {
	tr := &simTransport{w: w}
	in := make(chan proxy.Trace, int(w.Plan.Knob("in_buffer", 0)))
	returned := false
	go func() {
		datadog.Sink(tr, in)
		returned = true
	}()
	for i := range w.Plan.Faults {
		f := &w.Plan.Faults[i]
		go func() {
			sleepUntil(w, f.From)
			switch f.Kind {
			case "stall":
				w.Fire("process_stall")
				runtime.SimStall(f.Arg)
			case "wall":
				w.Fire("wall_clock_jump")
				runtime.SimSetWallOffset(f.Arg)
			}
		}()
	}
	ops := make([]*Op, 0, len(w.Plan.Ops))
	for i := range w.Plan.Ops {
		ops = append(ops, &w.Plan.Ops[i])
	}
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].At < ops[b].At })
	var sends []*sinkSend
	last := int64(0)
	for k, op := range ops {
		sleepUntil(w, op.At)
		g := &genState{r: NewRng(op.Style), o: &sysOpt{wildText: 10, brokenTS: 3}, used: map[uint64]bool{}}
		var trace proxy.Trace
		for i := 0; i < int(op.N); i++ {
			l := LSpan{T: uint64(op.D), I: uint64(op.D)<<20 + uint64(k)<<40 + uint64(i) + 1, P: uint64(g.r.N(3))}
			g.fill(&l, "v2", op.At, "")
			s := l.Expect("v2")
			if g.r.P(5) { // synthetic roots and corrected spans can have any
				s.Duration = time.Duration(pick(g.r, 0, 1, 999, 1000, 1001, -1, -int64(g.r.N(1_000_000_000))))
			}
			if g.r.P(3) {
				s.Tags = nil
			}
			trace = append(trace, s)
		}
		ref := &sinkSend{at: w.Now(), id: proxy.Id(op.D)}
		for _, s := range trace {
			ref.spans = append(ref.spans, copySpan(s))
		}
		in <- trace
		ref.done = w.Now()
		sends = append(sends, ref)
		last = ref.done
	}
	for _, f := range w.Plan.Faults {
		if f.To > last {
			last = f.To
		}
		if f.From > last {
			last = f.From
		}
	}
	sleepUntil(w, last)
	w.settle(20 * sec)
	close(in)
	w.settle(10 * sec)
	if !returned {
		w.Report("wedge", "the sink does not end when its input is closed")
	}
	checkSink(w, tr, sends)
}

func checkSink(w *World, tr *simTransport, sends []*sinkSend) {
	slack := w.StallNs()
	faulty, begin, end := false, int64(1<<62), int64(0)
	for _, f := range w.Plan.Faults {
		if f.Kind == "transport" {
			faulty = true
			if f.From < begin {
				begin = f.From
			}
			if f.To > end {
				end = f.To
			}
		}
	}
	type seen struct {
		call *sinkCall
		n    int
		d    DDSpan
	}
	got := map[uint64]*seen{}
	for _, c := range tr.calls {
		n := 0
		ids := map[uint64]bool{}
		for _, g := range c.groups {
			if len(g) == 0 {
				w.Report("batch", "a submission holds an empty trace")
				continue
			}
			n += len(g)
			if ids[g[0].TraceID] {
				w.Report("batch", "trace %016x has several lists in one submission", g[0].TraceID)
			}
			ids[g[0].TraceID] = true
			for _, d := range g {
				if d.TraceID != g[0].TraceID {
					w.Report("batch", "one list of a submission holds spans of traces %016x and %016x", g[0].TraceID, d.TraceID)
				}
				if d.Duration < 1000 {
					w.Report("batch", "span %016x is submitted with a duration of %d ns", d.SpanID, d.Duration)
				}
				if d.Resource == "" {
					w.Report("batch", "span %016x is submitted without an operation name", d.SpanID)
				}
				if x := got[d.SpanID]; x != nil {
					x.n++
					if x.call == c {
						w.Report("dup", "span %016x is twice in one submission", d.SpanID)
					} else {
						w.Report("dup", "span %016x is in two submissions, at %.3fs and %.3fs", d.SpanID, float64(x.call.from)/1e9, float64(c.from)/1e9)
					}
					continue
				}
				got[d.SpanID] = &seen{c, 1, d}
			}
		}
		if n == 0 {
			w.Report("batch", "an empty submission was sent")
		}
		w.Probe("sink_submissions", 1)
		w.Probe("sink_spans", int64(n))
	}
	known := 0
	sendNs := w.Plan.Knob("send_ns", 2*ms)
	var late int64
	// what has been collected since the last flush, as seen from outside
	for _, s := range sends {
		here, missing := 0, 0
		var first *sinkCall
		for _, sp := range s.spans {
			x := got[uint64(sp.Id)]
			if x == nil {
				missing++
				continue
			}
			known++
			here++
			want := modelDD(sp)
			if diff := diffDD(x.d, want); diff != "" {
				w.Report("batch-field", "span %s: %s", sp.Id, diff)
			} else if x.d.Start != want.Start || x.d.Duration != want.Duration {
				w.Report("batch-field", "span %s: start %d duration %d, want %d and %d", sp.Id, x.d.Start, x.d.Duration, want.Start, want.Duration)
			}
			if first == nil {
				first = x.call
			} else if first != x.call {
				w.Report("partial", "the spans of trace %s handed over at once are in different submissions", s.id)
				break
			}
		}
		if here > 0 && missing > 0 {
			w.Report("partial", "of %d spans of trace %s handed over at once %d were submitted", len(s.spans), s.id, here)
		}
		wait := s.done - s.at
		if wait > slack+ms {
			w.Report("wedge", "the sink took no traces for %.3fs", float64(wait)/1e9)
		}
		outside := !faulty || s.done+5*sec+slack < begin || s.at > end+10*sec
		if !outside {
			w.Probe("sink_traces_inside_outage", 1)
			continue
		}
		w.Probe("sink_traces", 1)
		if here == 0 && len(s.spans) > 0 {
			w.Report("lost", "trace %s (%d spans, handed over at %.3fs) was never submitted", s.id, len(s.spans), float64(s.at)/1e9)
			continue
		}
		if first != nil {
			d := first.from - s.done
			if d > late {
				late = d
			}
			if d > 4*sec+slack+8*sendNs {
				w.Report("late", "trace %s was submitted %.3fs after it had been handed over", s.id, float64(d)/1e9)
			}
		}
	}
	if known != len(got) {
		w.Report("foreign", "%d spans were submitted that nobody handed over", len(got)-known)
	}
	// a thousand collected spans leave at once
	if !faulty && slack == 0 && w.Plan.Knob("in_buffer", 0) == 0 {
		pending := map[*sinkCall]int{}
		for _, s := range sends {
			if len(s.spans) == 0 || got[uint64(s.spans[0].Id)] == nil {
				continue
			}
			c := got[uint64(s.spans[0].Id)].call
			pending[c] += len(s.spans)
			if pending[c] >= 1000 {
				w.Probe("sink_full_batches", 1)
				if c.from-s.done > 9*sendNs+10*ms {
					w.Report("late", "%d spans had been collected at %.3fs, they were submitted %.3fs later", pending[c], float64(s.done)/1e9, float64(c.from-s.done)/1e9)
					break
				}
				if pending[c]-len(s.spans) >= 1000 {
					w.Report("late", "%d spans had been collected at %.3fs but more were added to the submission", pending[c]-len(s.spans), float64(s.done)/1e9)
					break
				}
			}
		}
	}
	// what waits during an outage is bounded
	for _, c := range tr.calls {
		if !c.hung {
			continue
		}
		piled := map[*sinkCall]bool{}
		for _, s := range sends {
			if len(s.spans) > 0 && s.done < c.to {
				if x := got[uint64(s.spans[0].Id)]; x != nil && x.call.from >= c.to {
					piled[x.call] = true
				}
			}
		}
		n := len(piled)
		w.Probe("sink_hangs", 1)
		if n > 64 {
			w.Report("unbounded", "%d submissions had piled up while the agent hung for %.1fs", n, float64(c.to-c.from)/1e9)
		}
	}
	w.Log("sink: %s", fmt.Sprintf("%d calls, %d spans, longest wait %.3fs", len(tr.calls), len(got), float64(late)/1e9))
}

// genSink makes a workload for the sink.
func genSink(r *Rng, p *Plan, outage bool) {
	p.Scenario = "sink"
	p.Knobs["in_buffer"] = pick(r, int64(0), 0, 256)
	p.Knobs["stmt_limit"] = 400_000_000
	p.Knobs["max_sim"] = 6000 * sec
	p.Knobs["send_ns"] = pick(r, 100_000, 2*ms, 20*ms, 60*ms)
	span := r.Range64(3*sec, 25*sec)
	at := r.I64(3 * sec)
	style := r.N(4)
	budget := 12_000
	burst := 0
	if !outage && r.P(12) { // as much as may wait for a slow agent
		style = 4
		p.Knobs["send_ns"] = r.Range64(300*ms, 1200*ms)
		span = 60 * sec
		budget = 20_000
	}
	id := int64(1)
	for at < span && budget > 0 {
		n := 1
		gap := int64(0)
		switch style {
		case 0: // a trickle
			n = r.Range(1, 5)
			gap = r.I64(700 * ms)
		case 1: // steady small traffic
			n = r.Range(1, 2)
			gap = r.I64(60 * ms)
		case 2: // about a thousand at a time
			n = pick(r, 999, 1000, 1001, 500, 1, r.Range(1, 1500), 333)
			gap = pick(r, r.I64(3*sec), r.Range64(50*ms, 2*sec))
		case 4:
			n = pick(r, 1000, r.Range(1000, 1400), 400, r.Range(300, 1000))
			gap = r.I64(30 * ms)
			if burst++; burst == 7 {
				burst = 0
				gap = 9*p.Knobs["send_ns"] + 4*sec
			}
		default:
			n = pick(r, r.Range(1, 20), r.Range(1, 400), 1000)
			gap = pick(r, int64(0), r.I64(900*ms), r.I64(4*sec))
		}
		budget -= n + 20
		op := Op{Kind: "trace", At: at, N: int64(n), D: id, Style: r.U64() >> 16}
		p.Ops = append(p.Ops, op)
		if !r.P(10) { // otherwise another part of the same trace
			id++
		}
		if style != 4 && gap < 9*p.Knobs["send_ns"] && n >= 250 {
			gap = 9 * p.Knobs["send_ns"]
		}
		at += gap
	}
	if outage {
		from := int64(0)
		for k := r.Range(1, 3); k > 0; k-- {
			f := Fault{Kind: "transport", From: from + r.I64(span/2), S: pick(r, "hang", "hang", "error", "ok", "error")}
			f.To = f.From + pick(r, r.Range64(1, 3*sec), r.Range64(3*sec, 40*sec))
			if f.S == "ok" {
				f.Arg = r.I64(3 * sec)
				f.S = "slow"
			}
			if k == 1 && r.P(12) { // for long
				f.To = f.From + r.Range64(200*sec, 1500*sec)
				for at := max(f.From, span); at < f.To; at += r.Range64(sec, 6*sec) {
					p.Ops = append(p.Ops, Op{Kind: "trace", At: at, N: int64(r.Range(1, 3)), D: id, Style: r.U64() >> 16})
					id++
				}
			}
			from = f.To
			p.Faults = append(p.Faults, f)
		}
		at := from + 10*sec
		for k := r.Range(2, 12); k > 0; k-- {
			at += r.I64(2 * sec)
			p.Ops = append(p.Ops, Op{Kind: "trace", At: at, N: int64(r.Range(1, 300)), D: id, Style: r.U64() >> 16})
			id++
		}
	} else if r.P(40) {
		procStalls(r, p, span, 600*ms)
	}
	wallSteps(r, p, span)
}
