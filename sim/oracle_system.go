//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// kindProps says which listed properties an observation contradicts. A check
// only reports what contradicts its own property.
var kindProps = map[string][]string{
	"crash":          {"*"},
	"lost":           {"P01", "P02", "P03", "P04", "P05", "P08", "P09", "P12", "P13", "P14", "P15", "P18", "P07", "P21"},
	"dup":            {"P01", "P02", "P03", "P08", "P09", "P12", "P13", "P14", "P15", "P18", "P07"},
	"foreign":        {"P01", "P02", "P05", "P03", "P08", "P09", "P12", "P13", "P14", "P15", "P17", "P18", "P07"},
	"leak":           {"P01", "P02"},
	"partial":        {"P01", "P02", "P03", "P09", "P14", "P15", "P18", "P07"},
	"assembly":       {"P03", "P06", "P07"},
	"fakeroot":       {"P03"},
	"field":          {"P05", "P12", "P13", "P14", "P17"},
	"key":            {"P12"},
	"session":        {"P13"},
	"mark":           {"P13"},
	"merge":          {"P06"},
	"skew":           {"P06"},
	"convert":        {"P18"},
	"early":          {"P04", "P03", "P07"},
	"late":           {"P04", "P09", "P08", "P07"},
	"batch":          {"P09"},
	"batch-field":    {"P09", "P05"},
	"unbounded":      {"P08", "P16", "P17"},
	"undecodable":    {"P09"},
	"reject-valid":   {"P01", "P02", "P05", "P16", "P08"},
	"accept-invalid": {"P02", "P16"},
	"wedge":          {"P01", "P02", "P08", "P15", "P16", "P13", "P14", "P18", "P03", "P09", "P10", "P12", "P17", "P11", "P07", "P04"},
	"overload":       {"P07"},
	"recent":         {"P10", "P18"},
	"json":           {"P10", "P18"},
	"cache":          {"P11"},
	"cache-size":     {"P11"},
	"shutdown":       {"P12", "P13", "P14", "P21"},
	"metrics":        {"P19"},
	"cache-gauge":    {"P19"},
	"memory":         {"P20"},
	"exit":           {"*"},
	"livelock":       {"*"},
}

// Report files an observation under the property being checked, if it
// contradicts it.
func (w *World) Report(kind, format string, args ...any) {
	props := kindProps[kind]
	if props == nil {
		trouble("unknown observation kind %q", kind)
	}
	for _, p := range props {
		if p == "*" || p == w.Plan.Prop {
			w.Fail(w.Plan.Prop, kind, format, args...)
			return
		}
	}
	w.Log("note (other property) %s: "+format, append([]any{kind}, args...)...)
	w.Probe("note_"+kind, 1)
}

type spanSrc struct {
	req  *Request
	span proxy.Span
}

type traceInfo struct {
	id      proxy.Id
	sure    []spanSrc // from accepted requests
	maybe   []spanSrc // from requests without an answer
	never   []spanSrc // from rejected or incomplete requests
	lo, hi  int64     // when its spans can have entered
	lastIn  int64     // earliest time at which the last sure span entered
	groups  []groupAt
	damaged bool
	loose   bool // sent while there was trouble: only its origin is checked
	part    int  // >0: a later burst of a trace that was released before
}

type groupAt struct {
	p *Payload
	g []DDSpan
}

type sysView struct {
	given  map[*traceInfo]map[proxy.Id]proxy.Timings // cache of timings
	s      *System
	traces map[proxy.Id]*traceInfo
	order  []proxy.Id
	slack  int64
}

func (s *System) view(inst int) *sysView {
	v := &sysView{s: s, traces: map[proxy.Id]*traceInfo{}}
	st := runtime.SimStats()
	v.slack = int64(st.StallNs)
	for _, f := range s.w.Plan.Faults {
		if f.Kind == "convstall" { // everything behind the converter waits
			v.slack += f.To - f.From
		}
	}
	get := func(id proxy.Id) *traceInfo {
		t := v.traces[id]
		if t == nil {
			t = &traceInfo{id: id, lo: 1 << 62, lastIn: -1}
			v.traces[id] = t
			v.order = append(v.order, id)
		}
		return t
	}
	for _, r := range s.reqs {
		if inst >= 0 && r.Op.Inst != inst {
			continue
		}
		for i := range r.Op.Spans {
			sp := r.Op.Spans[i].Expect(r.Op.Fmt)
			t := get(sp.Trace)
			src := spanSrc{r, sp}
			switch {
			case r.fate() == "accepted":
				t.sure = append(t.sure, src)
				if r.LastSent > t.lastIn {
					t.lastIn = r.LastSent
				}
			case r.fate() == "unanswered" && r.DocOut:
				t.maybe = append(t.maybe, src)
			default:
				t.never = append(t.never, src)
				continue
			}
			if r.Sent < t.lo {
				t.lo = r.Sent
			}
			if r.Done+s.lag > t.hi {
				t.hi = r.Done + s.lag
			}
			if r.Damaged {
				t.damaged = true
			}
		}
	}
	return v
}

func (v *sysView) attach(payloads []*Payload) {
	w := v.s.w
	for _, p := range payloads {
		if p.Refused {
			continue
		}
		for _, g := range p.Groups {
			if len(g) == 0 {
				w.Report("batch", "the agent got an empty trace")
				continue
			}
			for _, d := range g[1:] {
				if d.TraceID != g[0].TraceID {
					w.Report("batch", "one submitted trace mixes spans of traces %016x and %016x", g[0].TraceID, d.TraceID)
				}
			}
			id := proxy.Id(g[0].TraceID)
			t := v.traces[id]
			if t == nil {
				if isProbe(g[0].TraceID) {
					continue
				}
				w.Report("foreign", "the agent got trace %016x which nobody sent", g[0].TraceID)
				continue
			}
			t.groups = append(t.groups, groupAt{p, g})
		}
	}
}

func spansOf(list ...[]spanSrc) []proxy.Span {
	var out []proxy.Span
	for _, l := range list {
		for _, s := range l {
			out = append(out, s.span)
		}
	}
	return out
}

// checkRequests verifies the answers themselves.
func (s *System) checkRequests() {
	w := s.w
	for _, r := range s.reqs {
		op := r.Op
		name := fmt.Sprintf("request %d (%s, gzip=%v, cut=%d %s, flip=%d, bad=%q)", r.Idx, op.Fmt, op.Gzip, op.Cut, op.CutMode, op.Flip, op.Bad)
		switch {
		case r.Status >= 500 || (r.Status != 0 && r.Status != 202 && r.Status != 400):
			w.Report("wedge", "%s was answered with status %d: %.200s", name, r.Status, r.Body)
		case r.Status == 0 && r.Complete && r.TimedOut && strings.Contains(r.Err, "EOF"):
			w.Probe("header_timeouts", 1)
		case r.Status == 0 && r.Complete && !strings.Contains(r.Err, "reset"):
			w.Report("wedge", "%s was sent completely and never answered: %s", name, r.Err)
		case r.Status == 202 && op.Raw != nil:
			// may be valid by chance
		case r.Status == 202 && (op.Bad != "" || op.wrongType() || (op.Cut > 0 && op.CutMode == "json")):
			w.Report("accept-invalid", "%s is invalid and was accepted", name)
		case r.Status == 202 && r.Damaged:
			w.Report("accept-invalid", "%s has a damaged body and was accepted", name)
		case r.Status == 400 && op.Bad == "" && op.Cut == 0 && !r.Damaged && op.Raw == nil && !op.wrongType():
			w.Report("reject-valid", "%s is valid and was rejected: %.200s", name, r.Body)
		}
		switch r.fate() {
		case "accepted":
			w.Probe("requests_accepted", 1)
		case "rejected":
			w.Probe("requests_rejected", 1)
		case "unanswered":
			w.Probe("requests_unanswered", 1)
		}
	}
}

// checkTraces verifies everything that reached the agent against the model.
func (v *sysView) checkTraces(healthy bool) {
	w := v.s.w
	ids := append([]proxy.Id(nil), v.order...)
	sort.Slice(ids, func(i, j int) bool { return uint64(ids[i]) < uint64(ids[j]) })
	for _, id := range ids {
		t := v.traces[id]
		if t.loose {
			w.Probe("traces_in_trouble", 1)
			v.checkOrigin(t)
			continue
		}
		parts, clear := v.bursts(t)
		if !clear {
			w.Probe("traces_not_compact", 1)
			v.checkOrigin(t)
			continue
		}
		if len(parts) > 1 {
			w.Probe("traces_in_bursts", 1)
		}
		for _, q := range parts {
			v.checkTrace(q, healthy)
		}
	}
	w.Probe("traces_checked", int64(len(ids)))
}

const holdTime = 8 * sec

// compact: the trace cannot have been released between any two arrivals.
func (v *sysView) compact(t *traceInfo) bool {
	limit := holdTime - 300*ms - v.slack
	if t.hi-t.lo < limit {
		return true
	}
	if len(t.maybe) > 0 {
		return false
	}
	reqs := []*Request{}
	seen := map[*Request]bool{}
	for _, s := range t.sure {
		if !seen[s.req] {
			seen[s.req] = true
			reqs = append(reqs, s.req)
		}
	}
	// a request enters between LastSent and Done
	sort.SliceStable(reqs, func(i, j int) bool { return reqs[i].Done < reqs[j].Done })
	for i, r := range reqs {
		if r.Done+v.s.lag-r.LastSent >= limit || (i > 0 && r.Done+v.s.lag-reqs[i-1].LastSent >= limit) {
			return false
		}
	}
	return true
}

// bursts cuts the reports of a trace where it must have been released in
// between. It returns false if the times do not tell.
func (v *sysView) bursts(t *traceInfo) ([]*traceInfo, bool) {
	type arrival struct {
		r    *Request
		sure bool
		list []spanSrc
	}
	var list []*arrival
	byReq := map[*Request]*arrival{}
	add := func(src []spanSrc, sure bool) {
		for _, s := range src {
			a := byReq[s.req]
			if a == nil {
				a = &arrival{r: s.req, sure: sure}
				byReq[s.req] = a
				list = append(list, a)
			}
			a.list = append(a.list, s)
		}
	}
	add(t.sure, true)
	add(t.maybe, false)
	if len(list) == 0 {
		return []*traceInfo{t}, true
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].r.Sent < list[j].r.Sent })
	var parts []*traceInfo
	var cur *traceInfo
	firstIn := int64(0)
	for _, a := range list {
		if cur != nil {
			if a.r.Sent > cur.hi+holdTime+300*ms+v.slack {
				// released in between
				if !v.compact(cur) {
					return nil, false
				}
				cur = nil
			}
		}
		if cur == nil {
			cur = &traceInfo{id: t.id, lo: 1 << 62, lastIn: -1, never: t.never, damaged: t.damaged, part: len(parts)}
			parts = append(parts, cur)
			firstIn = a.r.Sent
		}
		if a.sure {
			cur.sure = append(cur.sure, a.list...)
			if a.r.LastSent > cur.lastIn {
				cur.lastIn = a.r.LastSent
			}
		} else {
			cur.maybe = append(cur.maybe, a.list...)
		}
		if a.r.Sent < cur.lo {
			cur.lo = a.r.Sent
		}
		if a.r.Done+v.s.lag > cur.hi {
			cur.hi = a.r.Done + v.s.lag
		}
		if cur.hi-firstIn > 5*holdTime-sec-v.slack {
			return nil, false
		}
	}
	if !v.compact(cur) {
		return nil, false
	}
	for _, ga := range t.groups {
		k := len(parts) - 1
		for k > 0 && ga.p.At < parts[k].lo+holdTime {
			k--
		}
		parts[k].groups = append(parts[k].groups, ga)
	}
	return parts, true
}

// checkOrigin: nothing that was not accepted may appear.
func (v *sysView) checkOrigin(t *traceInfo) {
	w := v.s.w
	known := map[proxy.Id]bool{}
	for _, s := range t.sure {
		known[s.span.Id] = true
	}
	maybe := map[proxy.Id]bool{}
	for _, s := range t.maybe {
		maybe[s.span.Id] = true
	}
	never := map[proxy.Id]bool{}
	for _, s := range t.never {
		never[s.span.Id] = true
	}
	for _, ga := range t.groups {
		for _, d := range ga.g {
			id := proxy.Id(d.SpanID)
			if known[id] || maybe[id] {
				continue
			}
			if v.mayBeFake(t, id) {
				continue // the synthetic root
			}
			if never[id] {
				w.Report("leak", "span %s of trace %s reached the agent although its request was not accepted", id, t.id)
			} else {
				w.Report("foreign", "span %s in trace %s reached the agent but nobody sent it", id, t.id)
			}
		}
	}
}

func (v *sysView) checkTrace(t *traceInfo, healthy bool) {
	w := v.s.w
	mode := w.Plan.Knob("converter", 0)
	all := spansOf(t.sure, t.maybe)
	full := modelAssemble(all)

	v.checkOrigin(t)
	if len(all) == 0 {
		return
	}
	if full.verdict == "undefined" {
		w.Probe("traces_with_undefined_merge", 1)
		return
	}
	if t.damaged {
		// accepted despite damage: content is still what was meant
		w.Probe("traces_damaged_accepted", 1)
	}
	if len(t.groups) > 1 {
		dup := map[uint64]int{}
		for _, ga := range t.groups {
			for _, d := range ga.g {
				dup[d.SpanID]++
			}
		}
		isDup := false
		for _, n := range dup {
			if n > 1 {
				isDup = true
			}
		}
		if isDup {
			w.Report("dup", "spans of trace %s reached the agent more than once (%d groups)", t.id, len(t.groups))
		} else {
			w.Report("partial", "trace %s reached the agent in %d pieces", t.id, len(t.groups))
		}
		return
	}
	// try every subset of the requests whose fate is open
	var open []*Request
	for _, s := range t.maybe {
		if len(open) == 0 || open[len(open)-1] != s.req {
			open = append(open, s.req)
		}
	}
	if len(open) > 6 {
		w.Probe("traces_too_open", 1)
		return
	}
	var firstErr string
	var firstKind string
	for mask := 0; mask < 1<<len(open); mask++ {
		reports := spansOf(t.sure)
		for _, s := range t.maybe {
			for k, r := range open {
				if r == s.req && mask>>k&1 == 1 {
					reports = append(reports, s.span)
				}
			}
		}
		m := full
		if len(t.maybe) > 0 {
			m = modelAssemble(reports)
		}
		kind, msg := v.matchTrace(t, m, mode, healthy)
		if kind == "" {
			firstErr = ""
			firstKind = ""
			if m.merged && len(t.groups) > 0 {
				w.Probe("merged_traces_delivered", 1)
			}
			if m.fake != 0 {
				w.Probe("fake_root_traces", 1)
			}
			w.Probe("verdict_"+strings.ReplaceAll(m.verdict, " ", "_"), 1)
			break
		}
		if firstKind == "" {
			firstKind, firstErr = kind, msg
		}
	}
	if firstKind != "" {
		w.Report(firstKind, "%s", firstErr)
		return
	}
	if len(t.groups) == 1 && len(t.maybe) == 0 {
		at := t.groups[0].p.At
		if at < t.lastIn+holdTime {
			w.Report("early", "trace %s reached the agent %.3fs after its last span was sent, the hold time is 8s", t.id, float64(at-t.lastIn)/1e9)
		}
		if healthy {
			limit := t.hi + holdTime + 200*ms + 4*sec + sec + v.slack
			if at > limit {
				w.Report("late", "trace %s reached the agent %.3fs after its last span was accepted (allowed %.3fs)", t.id,
					float64(at-t.hi)/1e9, float64(limit-t.hi)/1e9)
			}
		}
		w.Probe("traces_delivered", 1)
	}
}

// checkConverter: every span of a released trace was given to the converter
// once, with the content it was released with.
func (v *sysView) checkConverter() {
	w := v.s.w
	calls := map[proxy.Id][]convCall{}
	for _, c := range v.s.conv {
		calls[c.span.Trace] = append(calls[c.span.Trace], c)
	}
	for _, id := range v.order {
		t := v.traces[id]
		if t.loose {
			continue
		}
		parts, clear := v.bursts(t)
		if !clear {
			continue
		}
		byPart := make([][]convCall, len(parts))
		for _, c := range calls[id] {
			k := len(parts) - 1
			for k > 0 && c.at < parts[k].lo+holdTime {
				k--
			}
			byPart[k] = append(byPart[k], c)
		}
		for k, q := range parts {
			if len(q.maybe) > 0 {
				continue
			}
			m := modelAssemble(spansOf(q.sure))
			if m.verdict == "undefined" {
				continue
			}
			want := map[proxy.Id]proxy.Span{}
			for _, s := range m.spans {
				want[s.Id] = s
			}
			seen := map[proxy.Id]bool{}
			for _, c := range byPart[k] {
				s, ok := want[c.span.Id]
				switch {
				case seen[c.span.Id]:
					w.Report("convert", "span %s of trace %s was given to the converter more than once", c.span.Id, id)
				case c.span.Id == m.fake && m.verdict == "fake root":
				case !ok:
					w.Report("convert", "the converter was given span %s of trace %s, which is no part of the released trace (%s)", c.span.Id, id, m.verdict)
				default:
					diff := diffDD(modelDD(c.span), modelDD(s))
					if diff == "" && c.span.Timings != s.Timings {
						diff = fmt.Sprintf("timings %v, want %v", c.span.Timings, s.Timings)
					}
					if diff != "" && !m.merged {
						w.Report("convert", "the converter was given a different span %s of trace %s: %s", c.span.Id, id, diff)
					}
				}
				seen[c.span.Id] = true
			}
			for _, s := range m.spans {
				if !seen[s.Id] {
					w.Report("convert", "span %s of trace %s was not given to the converter", s.Id, id)
					break
				}
			}
			if m.fake != 0 && m.spans != nil && !seen[m.fake] {
				w.Report("convert", "the synthetic root %s of trace %s was not given to the converter", m.fake, id)
			}
			w.Probe("converter_traces", 1)
		}
	}
}

// mayBeFake: the id is the common missing parent of top level spans.
func (v *sysView) mayBeFake(t *traceInfo, id proxy.Id) bool {
	for _, s := range append(append([]spanSrc(nil), t.sure...), t.maybe...) {
		if s.span.Parent == id {
			return true
		}
	}
	return false
}

// matchTrace compares what was delivered for a trace with the model.
func (v *sysView) matchTrace(t *traceInfo, m modelTrace, mode int64, healthy bool) (string, string) {
	type exp struct {
		dd   DDSpan
		orig proxy.Span
	}
	want := map[uint64]exp{}
	dropped := 0
	for _, s := range m.spans {
		c, fate := s, "ok"
		if mode != 0 {
			c, fate = convModel(mode, s)
		}
		if fate != "ok" {
			dropped++
			continue
		}
		want[uint64(c.Id)] = exp{modelDD(c), s}
	}
	var got []DDSpan
	if len(t.groups) == 1 {
		got = t.groups[0].g
	}
	fakeWanted := m.fake != 0
	if fakeWanted && mode != 0 {
		if _, fate := convModel(mode, proxy.Span{Id: m.fake, Trace: t.id}); fate != "ok" {
			fakeWanted = false
			dropped++
		}
	}
	if len(want) == 0 && !fakeWanted {
		if len(got) > 0 {
			if m.spans == nil {
				return "assembly", fmt.Sprintf("trace %s has no unique root (%s) but %d of its spans were delivered", t.id, m.verdict, len(got))
			}
			return "convert", fmt.Sprintf("every span of trace %s is refused by the converter, but %d were delivered", t.id, len(got))
		}
		return "", ""
	}
	if len(got) == 0 {
		if !healthy {
			return "", ""
		}
		return "lost", fmt.Sprintf("trace %s (%d spans, %s) was accepted and never reached the agent", t.id, len(want), m.verdict)
	}
	seen := map[uint64]bool{}
	for _, d := range got {
		if seen[d.SpanID] {
			return "dup", fmt.Sprintf("span %016x of trace %s is twice in one submission", d.SpanID, t.id)
		}
		seen[d.SpanID] = true
		if fakeWanted && d.SpanID == uint64(m.fake) {
			lo, hi := d.Start, d.Start+d.Duration
			if mode&(8|64) == 0 && !m.fakeAny && (!near(lo, m.fakeLo) || !near(hi, m.fakeHi)) && m.fakeHi-m.fakeLo >= 1000 {
				return "fakeroot", fmt.Sprintf("synthetic root of trace %s covers [%d,%d], its spans cover [%d,%d]", t.id, lo, hi, m.fakeLo, m.fakeHi)
			}
			continue
		}
		e, ok := want[d.SpanID]
		if !ok {
			if mode != 0 {
				return "convert", fmt.Sprintf("span %016x of trace %s was refused by the converter and delivered anyway", d.SpanID, t.id)
			}
			return "assembly", fmt.Sprintf("span %016x of trace %s delivered unexpectedly (%s)", d.SpanID, t.id, m.verdict)
		}
		if diff := diffDD(d, e.dd); diff != "" {
			kind := "field"
			if m.merged && v.reports(t, e.orig.Id) > 1 {
				kind = "merge"
			}
			if strings.HasPrefix(diff, "start") && kind == "field" && v.moved(t, e.orig) {
				kind = "skew"
			}
			if mode&8 != 0 && kind == "field" {
				kind = "convert"
			}
			return kind, fmt.Sprintf("span %016x of trace %s: %s", d.SpanID, t.id, diff)
		}
	}
	for _, s := range m.spans {
		if _, ok := want[uint64(s.Id)]; ok && !seen[uint64(s.Id)] {
			return "partial", fmt.Sprintf("span %s of trace %s is missing from the delivered trace (%d of %d spans arrived)", s.Id, t.id, len(got), len(want))
		}
	}
	if fakeWanted && !seen[uint64(m.fake)] {
		return "fakeroot", fmt.Sprintf("trace %s: the synthetic root %s for the missing parent is absent", t.id, m.fake)
	}
	return "", ""
}

// reports counts the distinct reports of a span.
func (v *sysView) reports(t *traceInfo, id proxy.Id) int {
	c, s := 0, 0
	for _, x := range append(append([]spanSrc(nil), t.sure...), t.maybe...) {
		if x.span.Id == id {
			if isServerHalf(&x.span) {
				s = 1
			} else {
				c = 1
			}
		}
	}
	return c + s
}

// moved tells if the model changed the start time of a span.
func (v *sysView) moved(t *traceInfo, s proxy.Span) bool {
	for _, x := range append(append([]spanSrc(nil), t.sure...), t.maybe...) {
		if x.span.Id == s.Id {
			return x.span.Timestamp != s.Timestamp
		}
	}
	return true
}

const probeTrace = 0xfeedfeedfeedfeed

// probe checks that the proxy still takes and forwards spans: bounded
// liveness after the last fault. It returns when the agent has the span.
func (s *System) probe(inst int, id uint64, limit int64) bool {
	for mode := s.w.Plan.Knob("converter", 0); mode != 0; id++ { // an id the converter lets pass
		if _, fate := convModel(mode, proxy.Span{Id: proxy.Id(id), Trace: 1}); fate == "ok" {
			break
		}
	}
	op := &Op{Kind: "post", Inst: inst, Fmt: "v2", Style: 0, Spans: []LSpan{{T: probeTrace, I: id, P: id, N: "probe", Svc: "probe", TS: uint64(1700000000*sec+s.w.Now()) / 1000, D: 1000}}}
	r := &Request{Op: op, Idx: -1}
	body, _, _, _ := buildBody(op)
	cc := &clientConn{}
	s.exchange(cc, s.insts[inst], op, r, body, -1)
	if cc.c != nil {
		cc.c.Close()
	}
	if r.Status != 202 {
		s.w.Report("wedge", "after the run a plain request is answered with %d %s", r.Status, r.Err)
		return false
	}
	until := s.w.Now() + limit
	for s.w.Now() < until {
		for _, in := range s.insts {
			for _, p := range in.agent.Payloads() {
				for _, g := range p.Groups {
					for _, d := range g {
						if d.TraceID == probeTrace && d.SpanID == id && p.Accepted {
							return true
						}
					}
				}
			}
		}
		sleepNs(100 * ms)
	}
	s.w.Report("lost", "a span sent after all faults ended did not reach the agent within %.1fs", float64(limit)/1e9)
	return false
}
