//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func sleepNs(d int64) { time.Sleep(time.Duration(d)) }

// netKnobs applies the plan's network parameters to a link.
func netKnobs(w *World, lk *link, prefix string) {
	lk.latency = w.Plan.Knob(prefix+"_latency", 200_000)
	lk.jitter = w.Plan.Knob(prefix+"_jitter", 300_000)
	lk.chunkMax = int(w.Plan.Knob(prefix+"_chunk", 0))
	lk.window = int(w.Plan.Knob(prefix+"_window", 256*1024))
}

func genNetKnobs(r *Rng, p *Plan) {
	for _, pre := range []string{"client", "agent"} {
		if r.P(50) {
			p.Knobs[pre+"_latency"] = r.I64(20 * ms)
			p.Knobs[pre+"_jitter"] = r.I64(20 * ms)
		}
		if r.P(50) {
			p.Knobs[pre+"_chunk"] = pick(r, int64(3), 16, 100, 1400, 9000)
		}
	}
	if r.P(30) {
		p.Knobs["client_window"] = pick(r, int64(2000), 16000)
	}
}

// runSystem is one instance without Kafka: clients -> proxy -> trace agent.
func runSystem(w *World) {
	s := NewSystem(w)
	netKnobs(w, w.Net.Link("proxy0:3080"), "client")
	netKnobs(w, w.Net.Link("agent0:8126"), "agent")
	s.Start(0, "")
	s.RunFaults()
	s.RunOps()
	lastFault := int64(0)
	faulty := false
	for _, f := range w.Plan.Faults {
		if f.To > lastFault {
			lastFault = f.To
		}
		if f.From > lastFault {
			lastFault = f.From
		}
		if f.Kind == "agent" || f.Kind == "agentlink" {
			faulty = true
		}
	}
	sleepUntil(w, lastFault)
	// everything sent so far has to be out by now
	w.settle(holdTime + 200*ms + 4*sec + sec)
	if faulty {
		w.settle(12 * sec) // batches queued during the outage
	}
	s.view(0).checkMetrics(false)
	s.probe(0, 0x1001, 14*sec+w.StallNs())
	if w.Plan.Knob("admin_end", 0) != 0 {
		s.Admin(0)
	}
	s.checkRequests()
	v := s.view(0)
	v.attach(s.insts[0].agent.Payloads())
	if faulty {
		v.checkOutage()
	} else {
		v.checkTraces(true)
		if w.Plan.Knob("converter", 0) != 0 {
			v.checkConverter()
		}
	}
	v.checkBatches(!faulty)
	s.checkRecent(v)
}

// checkBatches verifies the form of the submissions.
func (v *sysView) checkBatches(healthy bool) {
	w := v.s.w
	var all []*Payload
	for _, in := range v.s.insts {
		all = append(all, in.agent.Payloads()...)
	}
	for _, p := range all {
		n := 0
		ids := map[uint64]bool{}
		for _, g := range p.Groups {
			n += len(g)
			if len(g) > 0 {
				if ids[g[0].TraceID] {
					w.Report("batch", "trace %016x is split into several lists of one submission", g[0].TraceID)
				}
				ids[g[0].TraceID] = true
			}
			for _, d := range g {
				if len(d.Extra) > 0 {
					w.Report("batch", "span %016x has unknown fields %v", d.SpanID, d.Extra)
				}
			}
		}
		if n == 0 {
			w.Report("batch", "an empty submission was sent to the agent")
		}
		w.Probe("submissions", 1)
	}
}

// checkOutage verifies a run in which the agent misbehaved for a while.
func (v *sysView) checkOutage() {
	w := v.s.w
	end := int64(0)
	begin := int64(1 << 62)
	for _, f := range w.Plan.Faults {
		if f.Kind == "agent" || f.Kind == "agentlink" {
			if f.To > end {
				end = f.To
			}
			if f.From < begin {
				begin = f.From
			}
		}
	}
	for _, id := range v.order {
		t := v.traces[id]
		// released after recovery, or delivered long before the outage
		healthy := t.hi > 0 && (t.lo+holdTime > end+12*sec || t.hi+holdTime+5*sec+v.slack < begin)
		if healthy {
			w.Probe("traces_outside_outage", 1)
		} else {
			w.Probe("traces_inside_outage", 1)
		}
		parts, clear := v.bursts(t)
		if !clear || len(parts) > 1 {
			w.Probe("traces_not_compact", 1)
			v.checkOrigin(t)
			continue
		}
		v.checkTrace(parts[0], healthy)
	}
	for _, r := range v.s.reqs {
		if r.Status != 0 && r.Op.Gap == 0 && r.Op.Conn <= 0 {
			if d := r.Done - r.LastSent; d > sec+v.slack {
				w.Report("wedge", "request %d waited %.3fs for its answer while the agent was unavailable", r.Idx, float64(d)/1e9)
			}
		}
	}
}

// checkRecent verifies the recent-spans view.
func (s *System) checkRecent(v *sysView) {
	w := s.w
	key := func(a adminSpan) string { return fmt.Sprintf("%s/%s", a.Trace, a.Id) }
	var prev *AdminSnap
	for _, snap := range s.adm {
		if snap.Status == 0 {
			continue // connection broken by a fault
		}
		if snap.Status != 200 {
			w.Report("recent", "the recent spans view answers with status %d: %.100s", snap.Status, snap.Raw)
			continue
		}
		if len(snap.Spans) > 2048 {
			w.Report("recent", "the recent spans view holds %d spans, capacity is 2048", len(snap.Spans))
		}
		w.Probe("admin_snapshots", 1)
		if len(snap.Spans) == 2048 {
			w.Probe("admin_full", 1)
		}
		// snapshots grow at the end and lose at the front
		if prev != nil && len(prev.Spans) > 0 {
			if !overlaps(prev.Spans, snap.Spans, key, len(snap.Spans) == 2048) {
				w.Report("recent", "two successive views (%d and %d spans) do not continue each other in the order received", len(prev.Spans), len(snap.Spans))
			}
		}
		prev = snap
		// a trace is visible whole (unless it is partly overwritten) and contiguous
		last := map[string]int{}
		for i, a := range snap.Spans {
			k := a.Trace.String()
			if j, ok := last[k]; ok && j != i-1 && v.once(a.Trace) {
				w.Report("recent", "trace %s is not contiguous in the recent spans view", a.Trace)
			}
			last[k] = i
		}
		mode := w.Plan.Knob("converter", 0)
		{
			count := map[string]int{}
			for _, a := range snap.Spans {
				count[a.Trace.String()]++
			}
			for i, a := range snap.Spans {
				t := v.traces[a.Trace]
				if t == nil {
					if !isProbe(uint64(a.Trace)) {
						w.Report("recent", "the recent spans view shows trace %s which nobody sent", a.Trace)
					}
					continue
				}
				if len(t.groups) != 1 {
					continue
				}
				g := t.groups[0].g
				if i == 0 && len(snap.Spans) == 2048 {
					count[a.Trace.String()] = len(g) // may be cut off
				}
				if count[a.Trace.String()] != len(g) {
					w.Report("recent", "the recent spans view shows %d of the %d spans of trace %s", count[a.Trace.String()], len(g), a.Trace)
					count[a.Trace.String()] = len(g)
				}
				found := false
				for _, d := range g {
					if d.SpanID != uint64(a.Id) {
						continue
					}
					found = true
					got := proxyFromAdmin(a)
					if diff := diffDD(modelDD(got), d); diff != "" {
						w.Report("recent", "span %s in the recent spans view differs from what the agent got: %s", a.Id, diff)
					}
					if want, ok := v.timings(t, a.Id); mode != 0 && ok && a.Timings != want {
						w.Report("recent", "span %s in the recent spans view has the timings %v, the converter returned %v", a.Id, a.Timings, want)
					}
				}
				if !found {
					w.Report("recent", "span %s of trace %s is in the recent spans view but not in the delivered trace", a.Id, a.Trace)
				}
			}
		}
	}
	// after everything was delivered the last spans must be visible
	if w.Plan.Knob("admin_end", 0) != 0 && prev != nil && prev == s.adm[len(s.adm)-1] {
		total := 0
		type pos struct{ first int64 }
		var seqs []*Payload
		for _, p := range s.insts[0].agent.Payloads() {
			for _, g := range p.Groups {
				total += len(g)
			}
			seqs = append(seqs, p)
		}
		want := total
		if want > 2048 {
			want = 2048
		}
		if !w.outage() && len(prev.Spans) != want {
			w.Report("recent", "%d spans were forwarded, the recent spans view shows %d (expected %d)", total, len(prev.Spans), want)
		}
		// order follows the order of submission
		rank := map[uint64]int{}
		for i, p := range seqs {
			for _, g := range p.Groups {
				rank[g[0].TraceID] = i
			}
		}
		lastRank := -1
		for _, a := range prev.Spans {
			if r, ok := rank[uint64(a.Trace)]; ok && v.once(a.Trace) {
				if r < lastRank {
					w.Report("recent", "recent spans are not in the order received: trace %s was submitted before its predecessor", a.Trace)
					break
				}
				lastRank = r
			}
		}
	}
}

// timings the converter gave a span, if that is certain.
func (v *sysView) timings(t *traceInfo, id proxy.Id) (proxy.Timings, bool) {
	if len(t.maybe) > 0 || t.loose {
		return proxy.Timings{}, false
	}
	spans, ok := v.given[t]
	if !ok {
		spans = map[proxy.Id]proxy.Timings{}
		if parts, clear := v.bursts(t); clear && len(parts) == 1 {
			if m := modelAssemble(spansOf(t.sure)); !m.merged && m.verdict != "undefined" {
				for _, s := range m.spans {
					c, _ := convModel(v.s.w.Plan.Knob("converter", 0), s)
					spans[s.Id] = c.Timings
				}
			}
		}
		if v.given == nil {
			v.given = map[*traceInfo]map[proxy.Id]proxy.Timings{}
		}
		v.given[t] = spans
	}
	c, ok := spans[id]
	return c, ok
}

// once: the trace was delivered exactly one time.
func (v *sysView) once(id proxy.Id) bool {
	t := v.traces[id]
	return t != nil && len(t.groups) == 1
}

// overlaps: cur continues prev, with spans lost at the front only if the view is full.
func overlaps(prev, cur []adminSpan, key func(adminSpan) string, full bool) bool {
	for k := 0; k <= len(prev); k++ {
		if k > 0 && !full {
			return false
		}
		rest := prev[k:]
		if len(rest) > len(cur) {
			continue
		}
		same := true
		for i := range rest {
			if key(rest[i]) != key(cur[i]) {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	return false
}

func proxyFromAdmin(a adminSpan) proxy.Span {
	return proxy.Span{Id: a.Id, Parent: a.Parent, Trace: a.Trace, Name: a.Name, Service: a.Service,
		Timestamp: proxy.Timestamp(a.Timestamp.UnixNano()), Duration: a.Duration, Tags: a.Tags}
}

func (w *World) StallNs() int64 { return int64(runtime.SimStats().StallNs) }

// settle waits for d of undisturbed simulated time: pauses of the process
// that happen meanwhile do not count.
func (w *World) settle(d int64) {
	for d > 10*ms {
		before := w.StallNs()
		sleepNs(d)
		d = w.StallNs() - before
	}
}

func (w *World) outage() bool {
	for _, f := range w.Plan.Faults {
		if f.Kind == "agent" || f.Kind == "agentlink" {
			return true
		}
	}
	return false
}
