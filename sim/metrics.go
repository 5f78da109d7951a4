//go:build go1.22

package main

import (
	"strings"

	"github.com/rcrowley/go-metrics"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// What the proxy says about itself: its metrics against what really happened.

// registries holds every registry in use: each instance makes a new one with
// what was there so far.
var registries = []metrics.Registry{metrics.DefaultRegistry}

func noteRegistry() {
	if r := metrics.DefaultRegistry; r != registries[len(registries)-1] {
		registries = append(registries, r)
	}
}

func find(name string) []any {
	var list []any
	seen := map[any]bool{}
	for _, r := range registries {
		r.Each(func(n string, m any) {
			if (n == name || strings.HasSuffix(n, "."+name)) && !seen[m] {
				seen[m] = true
				list = append(list, m)
			}
		})
	}
	return list
}

func counted(name string) int64 {
	n := int64(0)
	for _, m := range find(name) {
		switch m := m.(type) {
		case metrics.Meter:
			n += m.Count()
		case metrics.Gauge:
			n += m.Value()
		case metrics.Timer:
			n += m.Count()
		case metrics.Histogram:
			n += m.Count()
		case metrics.Counter:
			n += m.Count()
		}
	}
	return n
}

func (w *World) metric(name string, lo, hi int64, what string) {
	if got := counted(name); got < lo || got > hi {
		if lo == hi {
			w.Report("metrics", "the metric %s is %d, there were %d %s", name, got, lo, what)
		} else {
			w.Report("metrics", "the metric %s is %d, there were %d to %d %s", name, got, lo, hi, what)
		}
		return
	}
	w.Probe("metric_checked", 1)
	if hi > 0 {
		w.Probe("metric_"+name, 1)
	}
}

// conservation: after everything has left the assembly stage, every span that
// went in is counted exactly once. spans: how many went in.
func (w *World) conservation(spansLo, spansHi int64) {
	var h metrics.Histogram
	for _, m := range find("traces.finishedsize") {
		h, _ = m.(metrics.Histogram)
	}
	if h == nil {
		w.Report("metrics", "there is no metric traces.finishedsize")
		return
	}
	left := h.Count()
	fates := counted("traces.finished") + counted("traces.noroot") + counted("traces.toolarge") + counted("traces.tooold")
	if left != fates {
		w.Report("metrics", "%d traces left the assembly, %d are counted: finished %d, noroot %d, toolarge %d, tooold %d", left, fates,
			counted("traces.finished"), counted("traces.noroot"), counted("traces.toolarge"), counted("traces.tooold"))
	}
	if a, b := counted("traces.corrected"), counted("traces.finished"); a != b {
		w.Report("metrics", "%d traces were corrected and %d finished", a, b)
	}
	if left <= 1024 { // the histogram is complete
		sum := h.Sample().Sum() + counted("spans.merged") + counted("blacklist.span.received") + counted("spans.discarded")
		if sum < spansLo || sum > spansHi {
			w.Report("metrics", "%d to %d spans went in, %d are counted: in traces %d, merged %d, of blocked traces %d, discarded %d", spansLo, spansHi, sum,
				h.Sample().Sum(), counted("spans.merged"), counted("blacklist.span.received"), counted("spans.discarded"))
		}
		w.Probe("metric_conservation", 1)
	}
	w.metric("traces.partial.count", 0, 0, "traces in flight")
	w.metric("traces.partial.span.count", 0, 0, "spans in flight")
}

// checkMetrics compares the counters with the requests and what the agents got.
// Everything sent has left the proxy.
func (v *sysView) checkMetrics(kafka bool) {
	w := v.s.w
	var lo, hi int64
	recvLo, recvHi := map[string]int64{}, map[string]int64{}
	for _, r := range v.s.reqs {
		n := int64(len(r.Op.Spans))
		typ := map[string]string{"v1": "json-v1", "v2": "json-v2", "jaeger": "jaeger"}[r.Op.Fmt]
		if !r.Op.wrongType() {
			recvHi[typ]++
			if r.Status != 0 && !(r.Op.Gzip && r.fate() == "rejected") {
				recvLo[typ]++
			}
		}
		switch r.fate() {
		case "accepted":
			lo += n
			hi += n
		case "unanswered":
			if r.DocOut {
				hi += n
			}
		}
	}
	for _, typ := range []string{"json-v1", "json-v2", "jaeger"} {
		w.metric("spans.receive[type:"+typ+"]", recvLo[typ], recvHi[typ], "requests of this type")
	}
	w.metric("spans.parsed[type:json]", lo, hi, "spans in accepted requests")
	if kafka {
		w.metric("kafka.span.size", 0, hi, "spans published") // sampled
	}
	w.conservation(lo, hi)
	w.metric("traces.toolarge", 0, 0, "traces that are too large")
	w.metric("spans.discarded", 0, 0, "discarded spans")
	w.metric("traces.discarded", 0, 0, "discarded traces")
	var fin, non, merged [2]int64
	for _, id := range v.order {
		parts, clear := v.bursts(v.traces[id])
		if !clear {
			w.Probe("metric_unclear_runs", 1)
			return
		}
		for _, q := range parts {
			sure, all := spansOf(q.sure), spansOf(q.sure, q.maybe)
			if len(all) == 0 {
				continue
			}
			merged[0] += repeats(sure)
			merged[1] += repeats(all)
			if len(q.maybe) > 0 {
				fin[1]++
				non[1]++
				continue
			}
			switch m := modelAssemble(all); {
			case m.verdict == "undefined":
				fin[1]++
				non[1]++
			case m.spans == nil:
				non[0]++
				non[1]++
			default:
				fin[0]++
				fin[1]++
			}
		}
	}
	w.metric("traces.finished", fin[0], fin[1], "traces delivered")
	w.metric("traces.noroot", non[0], non[1], "traces without a unique root")
	w.metric("traces.tooold", 0, 0, "traces that are too old")
	w.metric("blacklist.span.received", 0, 0, "spans of blocked traces")
	w.metric("spans.merged", merged[0], merged[1], "repeated reports of a span")
	w.Probe("metric_runs", 1)
}

// repeats: reports of spans that were reported before.
func repeats(list []proxy.Span) int64 {
	ids := map[proxy.Id]bool{}
	n := int64(0)
	for _, s := range list {
		if ids[s.Id] {
			n++
		}
		ids[s.Id] = true
	}
	return n
}

// ------------------------------------------------------------ assembly stage

type gaugeAt struct{ t, spans, traces int64 }

// asmGauges reads the gauges now and then.
func asmGauges(w *World, stop *bool) *[]gaugeAt {
	var list []gaugeAt
	r := NewRng(w.Plan.Seed ^ 0x6a06e)
	go func() {
		for !*stop {
			sleepNs(r.Range64(50*ms, 900*ms))
			list = append(list, gaugeAt{w.Now(), counted("traces.partial.span.count"), counted("traces.partial.count")})
		}
	}()
	return &list
}

// checkMetrics: the counters of the assembly stage against the model and the
// traces that came out.
func (o *asmOracle) checkMetrics(in, out int64, gauges []gaugeAt) {
	w := o.w
	w.metric("traces.finished", out, out, "traces delivered")
	w.conservation(in, in)
	unclear := o.chaos || o.undef
	for _, x := range o.order {
		unclear = unclear || x.unclear
	}
	for _, g := range o.ties {
		unclear = unclear || g.broken
	}
	if unclear {
		w.Probe("metric_unclear_runs", 1)
		return
	}
	w.metric("traces.toolarge", o.nLarge, o.nLarge, "traces that are too large")
	w.metric("traces.tooold", o.nOld, o.nOld+o.nMayOld, "traces that are too old")
	w.metric("traces.discarded", o.nOver, o.nOver, "traces discarded because of the load")
	w.metric("spans.discarded", o.nOverSpans, o.nOverSpans, "spans discarded because of the load")
	if o.nMayOld == 0 {
		w.metric("blacklist.span.received", o.blackLo, o.blackHi, "spans of blocked traces")
		left := int64(0)
		for _, x := range o.order {
			if x.present && x.goneFrom > 0 {
				left++
			}
		}
		w.metric("traces.noroot", o.nNoRoot, o.nNoRoot+left, "traces without a unique root")
	}
	if !o.fuzzy {
		o.hist = append(o.hist, loadAt{1 << 62, o.llo, o.lhi, o.tlo, o.thi})
		for _, g := range gauges {
			from, to := g.t-scanTol-o.slack-50*ms, g.t+50*ms+o.slack
			lo, hi, tlo, thi := 1<<30, 0, 1<<30, 0
			for i, h := range o.hist { // each value held from the previous entry until its time
				if h.t < from || i > 0 && o.hist[i-1].t > to {
					continue
				}
				lo, hi, tlo, thi = min(lo, h.lo), max(hi, h.hi), min(tlo, h.tlo), max(thi, h.thi)
			}
			if g.spans < int64(lo) || g.spans > int64(hi) {
				w.Report("metrics", "at %.3fs the metric traces.partial.span.count is %d, there are %d to %d spans waiting", float64(g.t)/1e9, g.spans, lo, hi)
				break
			}
			if g.traces < int64(tlo) || g.traces > int64(thi) {
				w.Report("metrics", "at %.3fs the metric traces.partial.count is %d, there are %d to %d traces waiting", float64(g.t)/1e9, g.traces, tlo, thi)
				break
			}
			if lo > 0 {
				w.Probe("metric_gauge_checked", 1)
			}
		}
	}
	w.Probe("metric_runs", 1)
}
