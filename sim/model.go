//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// The reference model of the pipeline: what has to come out for a set of
// spans, independent of the order and the schedule in which they went in.

func copySpan(s proxy.Span) proxy.Span {
	if s.Tags != nil {
		t := make(map[string]string, len(s.Tags))
		for k, v := range s.Tags {
			t[k] = v
		}
		s.Tags = t
	}
	return s
}

func isServerHalf(s *proxy.Span) bool { return s.Timings.SR > 0 || s.Timings.SS > 0 }

// modelMerge joins all reports of one span id. The result is defined for any
// number of identical reports and for one client plus one server report.
func modelMerge(halves []proxy.Span) proxy.Span {
	var client, server *proxy.Span
	for i := range halves {
		h := &halves[i]
		if isServerHalf(h) {
			if server == nil {
				server = h
			}
		} else if client == nil {
			client = h
		}
	}
	if server == nil {
		return copySpan(*client)
	}
	if client == nil {
		return copySpan(*server)
	}
	out := copySpan(*client)
	if server.Service != "" {
		out.Service = server.Service
	}
	if server.Name != "" {
		out.Name = server.Name
	}
	if out.Parent == 0 {
		out.Parent = server.Parent
	}
	for k, v := range server.Tags {
		if out.Tags == nil {
			out.Tags = map[string]string{}
		}
		out.Tags[k] = v
	}
	out.Timings.SR = server.Timings.SR
	out.Timings.SS = server.Timings.SS
	return out
}

// mergeDefined: the reports of one span id are copies of at most one client
// and one server report, both with start and end if there are two.
func mergeDefined(reports []proxy.Span) bool {
	var client, server *proxy.Span
	for i := range reports {
		h := &reports[i]
		p := &client
		if isServerHalf(h) {
			p = &server
		}
		if *p == nil {
			*p = h
		} else if diffSpan(*h, **p) != "" {
			return false
		}
	}
	if client == nil || server == nil {
		return true
	}
	c, s := client.Timings, server.Timings
	if c.CS <= 0 || c.CR <= 0 || s.SR <= 0 || s.SS <= 0 || s.CS != 0 || s.CR != 0 {
		return false
	}
	return client.Parent == 0 || server.Parent == 0 || client.Parent == server.Parent
}

type modelTrace struct {
	spans   []proxy.Span // delivered spans, nil if the trace is dropped
	fake    proxy.Id     // id of the synthetic root, 0 if none
	fakeLo  int64        // extent the synthetic root must cover
	fakeHi  int64
	fakeAny bool // a top level span has several reports: its time is not yet settled
	verdict string
	merged  bool
}

// modelAssemble computes what one complete trace is delivered as.
func modelAssemble(reports []proxy.Span) modelTrace {
	byId := map[proxy.Id][]proxy.Span{}
	var ids []proxy.Id
	for _, s := range reports {
		if s.Id == 0 || s.Trace == 0 {
			continue
		}
		if byId[s.Id] == nil {
			ids = append(ids, s.Id)
		}
		byId[s.Id] = append(byId[s.Id], s)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if len(ids) == 0 {
		return modelTrace{verdict: "empty"}
	}
	var res modelTrace
	for _, id := range ids {
		if !mergeDefined(byId[id]) {
			return modelTrace{verdict: "undefined"}
		}
	}
	spans := make([]proxy.Span, 0, len(ids)+1)
	index := map[proxy.Id]int{}
	for _, id := range ids {
		index[id] = len(spans)
		if len(byId[id]) > 1 {
			res.merged = true
		}
		spans = append(spans, modelMerge(byId[id]))
	}
	var roots []int
	for i, s := range spans {
		if s.Parent == s.Id {
			roots = append(roots, i)
		} else if _, ok := index[s.Parent]; !ok {
			roots = append(roots, i)
		}
	}
	rootSpan := -1
	if len(roots) == 1 {
		rootSpan = roots[0]
	} else if len(roots) > 1 {
		parent := spans[roots[0]].Parent
		for _, r := range roots {
			if spans[r].Parent != parent {
				res.verdict = "several roots"
				return res
			}
		}
		if _, ok := index[parent]; ok {
			res.verdict = "several roots"
			return res
		}
		res.fake = parent
		res.fakeLo, res.fakeHi = 1<<62, -1<<62
		for _, r := range roots {
			s := spans[r]
			if len(byId[s.Id]) > 1 {
				res.fakeAny = true
			}
			if v := int64(s.Timestamp); v < res.fakeLo {
				res.fakeLo = v
			}
			if v := int64(s.Timestamp) + int64(s.Duration); v > res.fakeHi {
				res.fakeHi = v
			}
		}
	} else {
		res.verdict = "cycle"
		return res
	}
	children := map[proxy.Id][]int{}
	for i, s := range spans {
		if s.Parent != s.Id {
			children[s.Parent] = append(children[s.Parent], i)
		}
	}
	var walk func(i int, parentTS proxy.Timestamp, hasParent bool, off time.Duration)
	walk = func(i int, parentTS proxy.Timestamp, hasParent bool, off time.Duration) {
		s := &spans[i]
		t := s.Timings
		s.Timestamp += proxy.Timestamp(off)
		if t.CS != 0 && t.CR != 0 && t.SR != 0 && t.SS != 0 {
			s.Timestamp = t.CS + proxy.Timestamp(off)
			s.Duration = time.Duration(t.CR - t.CS)
			off += time.Duration((t.CR+t.CS)/2 - (t.SR+t.SS)/2)
		}
		if hasParent && int64(s.Timestamp) < 1577836800_000_000_000 {
			s.Timestamp = parentTS
		}
		for _, c := range children[s.Id] {
			walk(c, s.Timestamp, true, off)
		}
	}
	if rootSpan >= 0 {
		walk(rootSpan, 0, false, 0)
		res.verdict = "root"
	} else {
		for _, c := range children[res.fake] {
			walk(c, proxy.Timestamp(res.fakeLo), true, 0)
		}
		res.verdict = "fake root"
	}
	res.spans = spans
	return res
}

// DDSpan is a span as the trace agent receives it.
type DDSpan struct {
	Name, Service, Resource   string
	Type                      string
	Start, Duration           int64
	SpanID, TraceID, ParentID uint64
	Error                     int64
	Meta                      map[string]string
	Extra                     []string // unexpected fields
}

func modelDD(s proxy.Span) DDSpan {
	d := DDSpan{Name: s.Service, Service: s.Service, Resource: s.Name, Start: int64(s.Timestamp), Duration: int64(s.Duration),
		SpanID: uint64(s.Id), TraceID: uint64(s.Trace), ParentID: uint64(s.Parent), Meta: s.Tags}
	if d.Resource == "" {
		d.Resource = "(resource empty)"
	}
	if d.Duration < 1000 {
		d.Duration = 1000
	}
	if e, ok := s.Tags["error"]; ok && e != "false" && e != "0" {
		d.Error = 1
	}
	return d
}

func near(a, b int64) bool { return a-b <= 1000 && b-a <= 1000 }

// diffDD returns "" if got is what want says (times to the microsecond).
func diffDD(got, want DDSpan) string {
	switch {
	case got.SpanID != want.SpanID:
		return fmt.Sprintf("span id %016x, want %016x", got.SpanID, want.SpanID)
	case got.TraceID != want.TraceID:
		return fmt.Sprintf("trace id %016x, want %016x", got.TraceID, want.TraceID)
	case got.ParentID != want.ParentID:
		return fmt.Sprintf("parent id %016x, want %016x", got.ParentID, want.ParentID)
	case got.Name != want.Name:
		return fmt.Sprintf("name %.60q, want %.60q", got.Name, want.Name)
	case got.Service != want.Service:
		return fmt.Sprintf("service %.60q, want %.60q", got.Service, want.Service)
	case got.Resource != want.Resource:
		return fmt.Sprintf("resource %s", diffText(got.Resource, want.Resource))
	case !near(got.Start, want.Start):
		return fmt.Sprintf("start %d, want %d (off by %d ns)", got.Start, want.Start, got.Start-want.Start)
	case !near(got.Duration, want.Duration):
		return fmt.Sprintf("duration %d, want %d", got.Duration, want.Duration)
	case (got.Error != 0) != (want.Error != 0):
		return fmt.Sprintf("error flag %d, want %d", got.Error, want.Error)
	}
	return diffTags(got.Meta, want.Meta)
}

func diffText(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		e := i + 40
		if e > len(s) {
			e = len(s)
		}
		return s[i:e]
	}
	return fmt.Sprintf("differs at byte %d: %q (of %d), want %q (of %d)", i, cut(got), len(got), cut(want), len(want))
}

func diffTags(got, want map[string]string) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("tag %.60q missing", k)
		}
		if g != want[k] {
			return fmt.Sprintf("tag %.60q %s", k, diffText(g, want[k]))
		}
	}
	if len(got) != len(want) {
		keys = keys[:0]
		for k := range got {
			if _, ok := want[k]; !ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		return fmt.Sprintf("unexpected tags %.100q", keys)
	}
	return ""
}

// diffSpan compares two proxy spans exactly.
func diffSpan(got, want proxy.Span) string {
	switch {
	case got.Id != want.Id || got.Trace != want.Trace || got.Parent != want.Parent:
		return fmt.Sprintf("ids %s/%s/%s, want %s/%s/%s (id/trace/parent)", got.Id, got.Trace, got.Parent, want.Id, want.Trace, want.Parent)
	case got.Name != want.Name:
		return "name " + diffText(got.Name, want.Name)
	case got.Service != want.Service:
		return "service " + diffText(got.Service, want.Service)
	case got.Timestamp != want.Timestamp:
		return fmt.Sprintf("timestamp %d, want %d", got.Timestamp, want.Timestamp)
	case got.Duration != want.Duration:
		return fmt.Sprintf("duration %d, want %d", got.Duration, want.Duration)
	case got.Timings != want.Timings:
		return fmt.Sprintf("timings %v, want %v", got.Timings, want.Timings)
	}
	return diffTags(got.Tags, want.Tags)
}
