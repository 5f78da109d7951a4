//go:build go1.22

package main

import (
	"encoding/json"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "recent": the real recent-spans buffer with one writer and several
// concurrent readers; every view must be a point in the history of the buffer.
//
// knobs: capacity, in_buffer, readers
// ops:   trace  N spans;  read  by reader Conn, M reads in a row;  json = read, then encode

func init() { scenarios["recent"] = runRecent }

type recentView struct {
	lo, hi int // traces certainly added before, possibly added after
	spans  []proxy.Span
}

func recentSpan(k int64, i int) proxy.Span {
	r := NewRng(uint64(k)*1000003 + uint64(i))
	s := proxy.Span{Id: proxy.Id(k<<20 + int64(i) + 1), Trace: proxy.Id(k), Parent: proxy.Id(r.N(5)), Name: pick(r, words...), Service: pick(r, services...),
		Timestamp: proxy.Timestamp(1700000000*sec + r.I64(sec)), Duration: time.Duration(r.Range64(1, 1000000))}
	if r.P(60) {
		s.Tags = map[string]string{"k": pick(r, wild...), "i": itoa(i)}
	}
	if r.P(20) {
		s.Timings.CS = s.Timestamp
	}
	return s
}

func runRecent(w *World) {
	capacity := int(w.Plan.Knob("capacity", 2048))
	buf := zipkinproxy.NewSpansBuffer(uint(capacity))
	in := make(chan proxy.Trace, int(w.Plan.Knob("in_buffer", 0)))
	go buf.ReadFrom(in)
	queue := int(w.Plan.Knob("in_buffer", 0))

	var starts []int // number of spans before trace i
	var all []proxy.Span
	begun, sent := 0, 0
	starts = append(starts, 0)
	var views []*recentView
	running := 0
	byReader := map[int][]*Op{}
	var writes []*Op
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		if op.Kind == "trace" {
			writes = append(writes, op)
		} else {
			byReader[op.Conn] = append(byReader[op.Conn], op)
		}
	}
	read := func(enc bool) {
		v := &recentView{}
		// the last of the traces that left the channel may still be on its way
		v.lo = sent - queue - 1
		if v.lo < 0 {
			v.lo = 0
		}
		got := buf.ToSlice()
		v.hi = begun
		for _, s := range got {
			v.spans = append(v.spans, copySpan(s))
		}
		if enc {
			b, err := json.Marshal(got)
			if err != nil {
				w.Report("json", "the recent spans cannot be encoded: %v", err)
			}
			var back []struct {
				Id proxy.Id `json:"id"`
			}
			if err := json.Unmarshal(b, &back); err != nil || len(back) != len(v.spans) {
				w.Report("json", "the encoded recent spans are damaged: %v", err)
			}
			for i := range back {
				if i < len(v.spans) && back[i].Id != v.spans[i].Id {
					w.Report("json", "the encoded recent spans differ from the view at position %d", i)
					break
				}
			}
		}
		views = append(views, v)
	}
	for c := 1; c <= int(w.Plan.Knob("readers", 1)); c++ {
		ops := byReader[c]
		running++
		go func() {
			defer func() { running-- }()
			for _, op := range ops {
				sleepUntil(w, op.At)
				for k := int64(0); k < op.M; k++ {
					read(op.Kind == "json")
				}
			}
		}()
	}
	for _, op := range writes {
		sleepUntil(w, op.At)
		var tr proxy.Trace
		for i := 0; i < int(op.N); i++ {
			tr = append(tr, recentSpan(op.D, i))
			all = append(all, recentSpan(op.D, i))
		}
		begun++
		starts = append(starts, len(all))
		in <- tr
		sent++
	}
	sleepNs(2 * sec)
	for running > 0 {
		sleepNs(10 * ms)
	}
	sleepNs(10 * ms)
	final := &recentView{lo: begun, hi: begun}
	for _, s := range buf.ToSlice() {
		final.spans = append(final.spans, copySpan(s))
	}
	views = append(views, final)
	close(in)

	window := func(n int) []proxy.Span {
		end := starts[n]
		from := end - capacity
		if from < 0 {
			from = 0
		}
		return all[from:end]
	}
	for k, v := range views {
		w.Probe("views", 1)
		if len(v.spans) > capacity {
			w.Report("recent", "a view holds %d spans, the capacity is %d", len(v.spans), capacity)
			continue
		}
		if len(v.spans) == capacity {
			w.Probe("views_full", 1)
		}
		if v.hi > v.lo {
			w.Probe("views_concurrent", 1)
		}
		found := -1
		why := ""
		for n := v.hi; n >= v.lo && found < 0; n-- {
			want := window(n)
			if len(want) != len(v.spans) {
				continue
			}
			same := true
			for i := range want {
				if d := diffSpan(v.spans[i], want[i]); d != "" {
					same = false
					if n == v.hi || why == "" {
						why = "position " + itoa(i) + ": " + d
					}
					break
				}
			}
			if same {
				found = n
			}
		}
		if found < 0 {
			w.Report("recent", "view %d holds %d spans and is not the last %d spans after any of the traces %d..%d (%s)", k, len(v.spans), capacity, v.lo, v.hi, why)
			break
		}
	}
	w.Log("%d views checked", len(views))
}

func genRecent(r *Rng, p *Plan) {
	p.Scenario = "recent"
	p.Sched.YieldMean = pick(r, uint32(2), 4, 10, 30, 100)
	capacity := pick(r, 1, 2, 7, 16, 64, 200, 2048)
	p.Knobs["capacity"] = int64(capacity)
	p.Knobs["in_buffer"] = pick(r, int64(0), 0, 3, 256)
	readers := r.Range(1, 4)
	p.Knobs["readers"] = int64(readers)
	n := r.Range(1, 40)
	max := capacity
	if capacity > 400 {
		max = 400
	}
	id := int64(1)
	span := pick(r, int64(1), ms, sec)
	for k := 0; k < n; k++ {
		m := pick(r, 1, r.Range(1, 5), r.Range(1, max), r.Range(0, max+3))
		p.Ops = append(p.Ops, Op{Kind: "trace", At: r.I64(span), N: int64(m), D: id})
		id++
	}
	// in the order of time
	ats := []int64{}
	for _, op := range p.Ops {
		ats = append(ats, op.At)
	}
	sortI64(ats)
	for i := range p.Ops {
		p.Ops[i].At = ats[i]
	}
	for c := 1; c <= readers; c++ {
		at := int64(0)
		for k := r.Range(1, 6); k > 0; k-- {
			at += r.I64(span/2 + 1)
			p.Ops = append(p.Ops, Op{Kind: pick(r, "read", "read", "json"), At: at, Conn: c, M: int64(r.Range(1, 8))})
		}
	}
}
