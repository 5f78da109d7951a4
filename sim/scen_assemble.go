//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"sort"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "assemble": the real assembly stage between two channels, fed with
// small traces, filler load and huge traces; its output is checked against a
// reference model that follows the load in the recorded history.
//
// ops: spans  Spans in format Fmt
//      bulk   spans Arr[0]..Arr[1] of trace N, M = shape
//      fill   N traces of M spans each, ids from D

func init() { scenarios["assemble"] = runAssemble }

type asmEvent struct {
	t   int64 // time after which it has certainly happened
	lo  int64
	out bool
	seq int
	id  proxy.Id
	rep []proxy.Span
}

func (op *Op) assembleSpans() []proxy.Span {
	var res []proxy.Span
	switch op.Kind {
	case "spans":
		for i := range op.Spans {
			res = append(res, op.Spans[i].Expect(op.Fmt))
		}
	case "bulk":
		res = bulkSpans(proxy.Id(op.N), int(op.Arr[0]), int(op.Arr[1]), int(op.M))
	case "fill":
		for k := int64(0); k < op.N; k++ {
			id := proxy.Id(op.D + k*1_000_000)
			if len(op.Arr) == 2 {
				res = append(res, bulkSpans(id, int(op.Arr[0]), int(op.Arr[1]), 0)...)
			} else {
				res = append(res, bulkSpans(id, 0, int(op.M), 0)...)
			}
		}
	default:
		trouble("op %s", op.Kind)
	}
	return res
}

// bulkSpans: span 0 is the root with the trace's id, span i has the id trace-i.
func bulkSpans(trace proxy.Id, from, to, shape int) []proxy.Span {
	res := make([]proxy.Span, 0, to-from)
	for i := from; i < to; i++ {
		p := trace
		if i > 0 && shape > 0 {
			p = trace - proxy.Id((i-1)/shape)
		}
		res = append(res, proxy.Span{Id: trace - proxy.Id(i), Trace: trace, Parent: p, Name: "n", Service: "s",
			Timestamp: proxy.Timestamp(1700000000*sec + int64(i)), Duration: time.Millisecond})
	}
	return res
}

func runAssemble(w *World) {
	in := make(chan proxy.Span, int(w.Plan.Knob("in_buffer", 0)))
	out := make(chan proxy.Trace, int(w.Plan.Knob("out_buffer", 0)))
	var events []asmEvent
	seq := 0
	go func() {
		for tr := range out {
			seq++
			now := w.Now()
			if len(tr) == 0 {
				w.Report("assembly", "the assembly stage released an empty trace")
				continue
			}
			cp := make([]proxy.Span, len(tr))
			for i := range tr {
				cp[i] = copySpan(tr[i])
			}
			w.Log("released %s with %d spans", tr[0].Trace, len(tr))
			events = append(events, asmEvent{t: now, lo: now, out: true, seq: seq, id: tr[0].Trace, rep: cp})
		}
	}()
	returned := false
	go func() {
		zipkinproxy.ErrorCorrectSpans(in, out)
		returned = true
	}()
	for i := range w.Plan.Faults {
		f := &w.Plan.Faults[i]
		go func() {
			sleepUntil(w, f.From)
			switch f.Kind {
			case "stall":
				w.Log("fault: process stalls for %dms", f.Arg/ms)
				w.Fire("process_stall")
				runtime.SimStall(f.Arg)
			case "wall":
				w.Log("fault: wall clock offset %dms", f.Arg/ms)
				w.Fire("wall_clock_jump")
				runtime.SimSetWallOffset(f.Arg)
			}
		}()
	}
	stopGauges := false
	gauges := asmGauges(w, &stopGauges)
	sent := int64(0)
	ops := make([]*Op, 0, len(w.Plan.Ops))
	for i := range w.Plan.Ops {
		ops = append(ops, &w.Plan.Ops[i])
	}
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].At < ops[b].At })
	for _, op := range ops {
		sleepUntil(w, op.At)
		list := op.assembleSpans()
		lo := w.Now()
		byTrace := map[proxy.Id][]proxy.Span{}
		var order []proxy.Id
		for _, s := range list {
			if byTrace[s.Trace] == nil {
				order = append(order, s.Trace)
			}
			byTrace[s.Trace] = append(byTrace[s.Trace], copySpan(s))
			in <- s
			if s.Id != 0 && s.Trace != 0 {
				sent++
			}
		}
		hi := w.Now()
		w.Log("sent %s with %d spans of %d traces", op.Kind, len(list), len(order))
		for _, id := range order {
			seq++
			events = append(events, asmEvent{t: hi, lo: lo, seq: seq, id: id, rep: byTrace[id]})
		}
	}
	w.settle(9*sec + sec)
	end := w.Now()
	stopGauges = true
	close(in)
	sleepNs(sec)
	if !returned {
		w.Report("wedge", "the assembly stage does not end when its input is closed")
	}
	o := &asmOracle{w: w, traces: map[proxy.Id]*asmTrace{}, slack: w.StallNs()}
	sort.SliceStable(events, func(a, b int) bool {
		if events[a].t != events[b].t {
			return events[a].t < events[b].t
		}
		return events[a].seq < events[b].seq
	})
	o.run(events, end)
	released := int64(0)
	for i := range events {
		if events[i].out {
			released++
		}
	}
	o.checkMetrics(sent, released, *gauges)
}

type asmTrace struct {
	id           proxy.Id
	present      bool
	doomed       string // discarded for good: nothing of it may come out any more
	unclear      bool
	startLo      int64
	startHi      int64
	updLo, updHi int64
	ids          map[proxy.Id]bool
	reports      []proxy.Span
	dueSince     int64
	mayOld       bool
	verdict      *modelTrace
	tie          int   // member of a group of which some were discarded
	goneFrom     int64 // silently released from here on (no unique root)
	doomAt       int64
}

type asmOracle struct {
	w      *World
	traces map[proxy.Id]*asmTrace
	order  []*asmTrace
	slack  int64
	llo    int // bounds of the number of waiting spans
	lhi    int
	hist   []loadAt
	ties   []tieGroup
	chaos  bool // the model cannot tell any more what must happen
	overAt int64

	// for the metrics
	tlo, thi          int // bounds of the number of waiting traces
	nLarge, nOld      int64
	nMayOld           int64
	nOver, nOverSpans int64
	nNoRoot           int64
	blackLo, blackHi  int64
	undef, fuzzy      bool
}

type loadAt struct {
	t        int64
	lo, hi   int
	tlo, thi int // traces
}

// tieGroup: equally large traces of which only some had to be discarded.
type tieGroup struct {
	members, removed, delivered, size int
	broken                            bool
}

func holdFor(load int) int64 {
	switch {
	case load >= 80_000:
		return 2 * sec
	case load >= 60_000:
		return 4 * sec
	case load >= 40_000:
		return 6 * sec
	}
	return 8 * sec
}

const (
	maxTraceSize = 8192
	scanTol      = 400 * ms // a scan happens at least this often
)

func (o *asmOracle) hold(t int64) (hmin, hmax int64) {
	lo, hi := o.llo, o.lhi
	for i := len(o.hist) - 1; i >= 0; i-- {
		h := o.hist[i]
		if h.lo < lo {
			lo = h.lo
		}
		if h.hi > hi {
			hi = h.hi
		}
		if h.t < t-scanTol-o.slack {
			break
		}
	}
	return holdFor(hi), holdFor(lo)
}

func (o *asmOracle) load(t int64) {
	lo, hi, tlo, thi := 0, 0, 0, 0
	for _, x := range o.order {
		if !x.present || len(x.ids) > maxTraceSize {
			continue
		}
		if x.tie > 0 && !o.ties[x.tie-1].broken {
			continue
		}
		if x.unclear || x.tie > 0 || x.mayOld || x.doomed != "" || (x.goneFrom > 0 && t >= x.goneFrom) {
			hi += len(x.ids)
			thi++
			continue
		}
		lo += len(x.ids)
		hi += len(x.ids)
		tlo++
		thi++
	}
	for _, g := range o.ties {
		if !g.broken {
			lo += (g.members - g.removed - g.delivered) * g.size
			hi += (g.members - g.removed - g.delivered) * g.size
			tlo += g.members - g.removed - g.delivered
			thi += g.members - g.removed - g.delivered
		}
	}
	if lo != o.llo || hi != o.lhi || tlo != o.tlo || thi != o.thi {
		o.hist = append(o.hist, loadAt{t, o.llo, o.lhi, o.tlo, o.thi}) // the value until now
		o.llo, o.lhi, o.tlo, o.thi = lo, hi, tlo, thi
	}
}

func (o *asmOracle) run(events []asmEvent, end int64) {
	w := o.w
	i := 0
	const step = 50 * ms
	for t := int64(0); t < end; t += step {
		for i < len(events) && events[i].t <= t {
			e := &events[i]
			i++
			if e.out {
				o.output(e)
			} else {
				o.arrival(e)
			}
			if i == len(events) || events[i].t != e.t || events[i].out != e.out {
				o.load(e.t)
			}
		}
		o.tick(t)
	}
	for _, x := range o.order {
		if x.present && !x.unclear && x.doomed == "" && x.tie == 0 && !o.chaos && x.goneFrom == 0 && !x.mayOld {
			if x.verdict == nil {
				m := modelAssemble(x.reports)
				x.verdict = &m
			}
			if x.verdict.spans != nil {
				w.Report("lost", "trace %s (%d spans) was never released", x.id, len(x.ids))
			}
		}
	}
	if !o.chaos {
		for k, g := range o.ties {
			if !g.broken && g.delivered != g.members-g.removed {
				w.Report("overload", "of %d equally large traces (group %d) %d had to be discarded, %d were delivered", g.members, k, g.removed, g.delivered)
			}
		}
	}
	if o.chaos {
		w.Probe("asm_unclear_runs", 1)
	}
	w.Probe("asm_checked", 1)
}

func (o *asmOracle) get(id proxy.Id) *asmTrace {
	x := o.traces[id]
	if x == nil {
		x = &asmTrace{id: id, ids: map[proxy.Id]bool{}}
		o.traces[id] = x
		o.order = append(o.order, x)
	}
	return x
}

func (o *asmOracle) arrival(e *asmEvent) {
	x := o.get(e.id)
	if o.overAt > 0 && e.lo < o.overAt+scanTol && e.t > o.overAt {
		o.unclear("spans arrive at the time of the overload")
	}
	if x.doomed != "" && x.doomed != "overload" {
		o.w.Probe("asm_spans_after_discard", int64(len(e.rep)))
		for _, s := range e.rep {
			if s.Id != 0 && s.Trace != 0 {
				o.blackHi++
				if e.lo > x.doomAt+scanTol+o.slack {
					o.blackLo++
				}
			}
		}
		return
	}
	if x.present {
		hmin, _ := o.hold(e.t)
		if x.tie > 0 {
			o.ties[x.tie-1].broken = true // it may be a new trace now
			x.unclear = true
		}
		if e.t-x.updLo > hmin-10*ms && x.goneFrom > 0 || x.mayOld && !x.unclear {
			x.unclear = true
		} else if e.t-x.updLo > hmin-10*ms && e.lo < e.t {
			x.unclear = true
		}
	} else {
		*x = asmTrace{id: x.id, ids: map[proxy.Id]bool{}, present: true, startLo: e.lo, startHi: e.t, unclear: x.unclear}
		if o.w.Plan.Knob("in_buffer", 0) != 0 {
			// the spans may still be queued
		}
	}
	for _, s := range e.rep {
		if s.Id == 0 || s.Trace == 0 {
			continue
		}
		x.ids[s.Id] = true
		x.reports = append(x.reports, s)
	}
	x.updLo, x.updHi = e.lo, e.t
	x.dueSince, x.verdict, x.goneFrom = 0, nil, 0
	if len(x.ids) > maxTraceSize {
		x.doomed, x.doomAt = "too large", e.t
		o.nLarge++
		o.fuzzy = o.fuzzy || e.lo < e.t || o.w.Plan.Knob("in_buffer", 0) != 0
		o.w.Probe("asm_too_large", 1)
	}
}

func (o *asmOracle) verdict(x *asmTrace) *modelTrace {
	if x.verdict == nil {
		m := modelAssemble(x.reports)
		x.verdict = &m
		o.undef = o.undef || m.verdict == "undefined"
	}
	return x.verdict
}

func (o *asmOracle) output(e *asmEvent) {
	w := o.w
	x := o.traces[e.id]
	if x == nil {
		w.Report("foreign", "a trace %s was released that nobody sent", e.id)
		return
	}
	for _, s := range e.rep {
		if s.Trace != e.id {
			w.Report("foreign", "the released trace %s holds a span of trace %s", e.id, s.Trace)
		}
	}
	switch {
	case x.doomed == "too large" || x.doomed == "too old":
		w.Report("overload", "trace %s was delivered (%d spans) although it had to be discarded as %s", x.id, len(e.rep), x.doomed)
		return
	case x.unclear || o.chaos:
		x.present = false
		return
	case !x.present:
		if x.doomed == "overload" {
			w.Report("overload", "trace %s (%d spans) had to be discarded, it is one of the largest, but was delivered", x.id, len(e.rep))
		} else {
			w.Report("dup", "trace %s was released again without new spans", x.id)
		}
		return
	}
	hmin, hmax := o.hold(e.t)
	if e.t-x.startHi > 5*hmax+scanTol+o.slack {
		w.Report("overload", "trace %s was delivered at an age of %.3fs, hold time %.0fs", x.id, float64(e.t-x.startHi)/1e9, float64(hmax)/1e9)
	}
	if e.t-x.updLo < hmin {
		w.Report("early", "trace %s was released %.3fs after its last span arrived, the hold time is %.0fs at a load of %d..%d spans", x.id,
			float64(e.t-x.updLo)/1e9, float64(hmin)/1e9, o.llo, o.lhi)
	}
	if x.tie > 0 {
		o.ties[x.tie-1].delivered++
	}
	o.content(x, e.rep)
	x.present = false
	if x.mayOld {
		o.nMayOld--
	}
	w.Probe("asm_released", 1)
	w.Probe("asm_hold_"+itoa(int(hmin/sec)), 1)
	if len(x.ids) == maxTraceSize {
		w.Probe("asm_released_max_size", 1)
	}
}

func (o *asmOracle) content(x *asmTrace, got []proxy.Span) {
	w := o.w
	m := o.verdict(x)
	if m.verdict == "undefined" {
		return
	}
	if m.spans == nil {
		w.Report("assembly", "trace %s has no unique root (%s) but was delivered", x.id, m.verdict)
		return
	}
	w.Probe("asm_verdict_"+m.verdict, 1)
	if m.merged {
		w.Probe("asm_merged", 1)
	}
	want := map[proxy.Id]*proxy.Span{}
	for i := range m.spans {
		want[m.spans[i].Id] = &m.spans[i]
	}
	count := map[proxy.Id]int{}
	for _, r := range x.reports {
		count[r.Id]++
	}
	seen := map[proxy.Id]bool{}
	fake := false
	for i := range got {
		g := got[i]
		if seen[g.Id] {
			w.Report("dup", "span %s is twice in the released trace %s", g.Id, x.id)
			return
		}
		seen[g.Id] = true
		if want[g.Id] == nil {
			if (m.fake != 0 || m.verdict == "fake root") && g.Id == m.fake {
				fake = true
				if g.Parent != g.Id && g.Parent != 0 && want[g.Parent] != nil {
					w.Report("fakeroot", "the synthetic root of trace %s has parent %s, which is part of the trace", x.id, g.Parent)
				}
				if !m.fakeAny && (int64(g.Timestamp) != m.fakeLo || int64(g.Timestamp)+int64(g.Duration) != m.fakeHi) {
					w.Report("fakeroot", "the synthetic root of trace %s covers [%d,%d], its spans [%d,%d]", x.id, g.Timestamp, int64(g.Timestamp)+int64(g.Duration), m.fakeLo, m.fakeHi)
				}
				continue
			}
			w.Report("assembly", "span %s in the released trace %s was never sent", g.Id, x.id)
			return
		}
		if diff := diffAsm(g, *want[g.Id]); diff != "" {
			kind := "field"
			if count[g.Id] > 1 {
				kind = "merge"
			} else if g.Timestamp != want[g.Id].Timestamp {
				kind = "skew"
			}
			w.Report(kind, "span %s of trace %s: %s", g.Id, x.id, diff)
			return
		}
	}
	for _, s := range m.spans {
		if !seen[s.Id] {
			w.Report("partial", "span %s is missing from the released trace %s (%d of %d)", s.Id, x.id, len(got), len(m.spans))
			return
		}
	}
	if m.verdict == "fake root" && !fake {
		w.Report("fakeroot", "the released trace %s has no synthetic root %s", x.id, m.fake)
	}
}

// diffAsm ignores the timings, they are not delivered.
func diffAsm(got, want proxy.Span) string {
	got.Timings, want.Timings = proxy.Timings{}, proxy.Timings{}
	return diffSpan(got, want)
}

// tick brings the model to time t.
func (o *asmOracle) tick(t int64) {
	w := o.w
	hmin, hmax := o.hold(t)
	changed := false
	for _, x := range o.order {
		if !x.present {
			continue
		}
		if x.doomed != "" {
			continue
		}
		if x.unclear || o.chaos {
			continue
		}
		if t-x.startLo > 5*hmin && !x.mayOld {
			x.mayOld, changed = true, true
			o.nMayOld++
		}
		if t-x.startHi > 5*hmax+scanTol+o.slack {
			if t-x.updHi < hmax {
				x.doomed, changed = "too old", true
				x.doomAt = t
				o.nMayOld--
				o.nOld++
				w.Probe("asm_too_old", 1)
			}
			continue
		}
		if x.mayOld {
			continue
		}
		if t-x.updLo >= hmin && x.goneFrom == 0 {
			if v := o.verdict(x); v.spans == nil {
				x.goneFrom, changed = t, true
			}
		}
		if x.goneFrom > 0 {
			if t-x.updHi >= hmax+scanTol+o.slack {
				x.present, changed = false, true
				o.nNoRoot++
				w.Probe("asm_dropped_without_root", 1)
			}
			continue
		}
		if t-x.updHi >= hmax {
			if x.dueSince == 0 {
				x.dueSince = t
			}
			if t-x.dueSince > scanTol+o.slack && x.tie == 0 {
				w.Report("late", "trace %s was not released %.3fs after its last span arrived, the hold time is %.0fs at a load of %d..%d spans", x.id,
					float64(t-x.updHi)/1e9, float64(hmax)/1e9, o.llo, o.lhi)
				x.unclear, changed = true, true
			}
		} else {
			x.dueSince = 0
		}
	}
	if changed {
		o.load(t)
	}
	if o.overAt > 0 && t > o.overAt+scanTol {
		o.overAt = 0
	}
	if o.lhi > 100_000 && o.overAt == 0 {
		o.overload(t)
	}
}

// overload applies the discarding of the largest traces.
func (o *asmOracle) overload(t int64) {
	w := o.w
	var list []*asmTrace
	for _, x := range o.order {
		if !x.present || len(x.ids) > maxTraceSize {
			continue
		}
		if x.unclear || x.tie > 0 || x.mayOld || t+scanTol-x.updLo >= 2*sec {
			o.unclear("something else may leave in the same scan")
			return
		}
		list = append(list, x)
	}
	if o.llo <= 100_000 || o.slack > 0 {
		o.unclear("the load is not known")
		return
	}
	sort.SliceStable(list, func(a, b int) bool { return len(list[a].ids) > len(list[b].ids) })
	sum := o.llo
	k := 0
	for k < len(list) && sum >= 100_000 {
		sum -= len(list[k].ids)
		k++
	}
	o.nOver += int64(k)
	o.nOverSpans += int64(o.llo - sum)
	cut := len(list[k-1].ids)
	g := tieGroup{size: cut}
	for j, x := range list {
		switch {
		case len(x.ids) > cut:
			x.doomed, x.present = "overload", false
			w.Probe("asm_overload_discarded", 1)
		case len(x.ids) == cut:
			g.members++
			if j < k {
				g.removed++
			}
		}
	}
	if g.removed == g.members {
		for _, x := range list[:k] {
			if len(x.ids) == cut {
				x.doomed, x.present = "overload", false
				w.Probe("asm_overload_discarded", 1)
			}
		}
	} else {
		o.ties = append(o.ties, g)
		for _, x := range list {
			if len(x.ids) == cut {
				x.tie = len(o.ties)
			}
		}
		w.Probe("asm_overload_ties", 1)
	}
	w.Probe("asm_overloads", 1)
	o.overAt = t
	// the number of spans is known, whoever of a tie was hit
	o.load(t)
	w.Log("model: overload, %d traces discarded, %s", k, fmt.Sprint(o.ties))
}

func (o *asmOracle) unclear(why string) {
	if !o.chaos {
		o.chaos = true
		o.w.Log("model: cannot follow any more: %s", why)
		o.w.Probe("asm_unclear: "+why, 1)
	}
}
