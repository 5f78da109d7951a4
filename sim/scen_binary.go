//go:build go1.22

package main

import (
	"bytes"
	"runtime"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "binary": several threads decode Kafka messages, hostile and valid
// ones, at the same time. Each decoding ends, within bounds for its steps and
// its memory if it runs alone, and the valid ones are decoded right, also when
// looked at again at the end.
//
// Ops: raw  Conn = thread, Raw
//      msg  Conn = thread, M = seed of the span, D = shape

func init() {
	scenarios["binary"] = runBinary
	generators["P17"] = func(r *Rng, p *Plan) {
		if r.P(70) {
			genBinary(r, p)
			return
		}
		p.Scenario = "consume"
		p.Sched.YieldMean = pick(r, uint32(1), 3, 10, 40, 200)
		parts := pick(r, 1, 2, 5)
		p.Knobs["parts"] = int64(parts)
		p.Knobs["kafka_buffer"] = pick(r, int64(0), 1, 64)
		if r.P(30) {
			p.Knobs["group"] = 1
		}
		consumeOps(r, p, parts, pick(r, 0, 500*ms, 3*sec), pick(r, 30, 60, 90))
	}
}

const (
	binAllocBase = 40_000
	binAllocByte = 400
	binStmtBase  = 2_000
	binStmtByte  = 100
)

func runBinary(w *World) {
	threads := map[int][]*Op{}
	var order []int
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		if threads[op.Conn] == nil {
			order = append(order, op.Conn)
		}
		threads[op.Conn] = append(threads[op.Conn], op)
	}
	type kept struct{ got, want proxy.Span }
	var all []kept
	running := 0
	for _, t := range order {
		running++
		go func() {
			defer func() { running-- }()
			for _, op := range threads[t] {
				if op.Kind == "raw" {
					w.decodeRaw(op.Raw, len(order) == 1)
					continue
				}
				want := anySpan(NewRng(uint64(op.M)), op.D, proxy.Id(op.M))
				value := encodeMsg(want)
				got, err := codec.BinaryDecode(bytes.NewReader(value))
				if err != nil {
					w.Report("field", "a valid message of %d bytes cannot be decoded: %v", len(value), err)
					continue
				}
				for i := range value { // the consumer's buffer is used for something else
					value[i] = 'X'
				}
				if d := diffSpan(got, want); d != "" {
					w.Report("field", "span %s of trace %s is decoded with %s", want.Id, want.Trace, d)
				}
				all = append(all, kept{got, copySpan(want)})
				w.Probe("valid_decoded", 1)
			}
		}()
	}
	for running > 0 {
		sleepNs(ms)
	}
	for _, k := range all {
		if d := diffSpan(k.got, k.want); d != "" {
			w.Report("field", "span %s of trace %s changed later: %s", k.want.Id, k.want.Trace, d)
		}
	}
}

func (w *World) decodeRaw(raw []byte, alone bool) {
	value := append([]byte(nil), raw...)
	var before, after runtime.MemStats
	st := runtime.SimStats().Statements
	if alone {
		runtime.ReadMemStats(&before)
	}
	_, err := codec.BinaryDecode(bytes.NewReader(value))
	if alone {
		runtime.ReadMemStats(&after)
		used := int64(after.TotalAlloc - before.TotalAlloc)
		if limit := binAllocBase + binAllocByte*int64(len(raw)); used > limit {
			w.Report("unbounded", "decoding a message of %d bytes allocated %d bytes", len(raw), used)
		}
		n := int64(runtime.SimStats().Statements - st)
		if limit := binStmtBase + binStmtByte*int64(len(raw)); n > limit {
			w.Report("unbounded", "decoding a message of %d bytes took %d steps", len(raw), n)
		}
		w.Probe("bounds_checked", 1)
	}
	if err != nil {
		w.Probe("undecodable", 1)
	} else {
		w.Probe("raw_decoded", 1)
	}
}

func genBinary(r *Rng, p *Plan) {
	p.Scenario = "binary"
	p.Sched.YieldMean = pick(r, uint32(1), 3, 10, 40, 200)
	p.Knobs["stmt_limit"] = 200_000_000
	threads := pick(r, 1, 1, 2, 4)
	if threads == 1 {
		p.Sched.PoolMiss = 0 // each miss costs a buffer
	}
	for t := 1; t <= threads; t++ {
		for k := r.Range(3, 30); k > 0; k-- {
			op := Op{Kind: "raw", Conn: t}
			if r.P(40) {
				op.Kind, op.M, op.D = "msg", int64(r.U64()>>20), int64(pick(r, 0, 0, 1, 2, 3))
			} else {
				op.Raw = rawMessage(r, pick(r, 30, 300, 5000, 60000))
			}
			p.Ops = append(p.Ops, op)
		}
	}
}
