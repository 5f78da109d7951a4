//go:build go1.22

package main

// Workloads for the "assemble" scenario.

func asmKnobs(r *Rng, p *Plan) {
	p.Scenario = "assemble"
	p.Knobs["stmt_limit"] = 6_000_000_000
	p.Knobs["in_buffer"] = 0
	p.Knobs["out_buffer"] = pick(r, int64(0), 0, 64)
	p.Sched.YieldMean = pick(r, uint32(0), 0, 200, 1000)
	if p.Sched.StallPpm > 0 {
		p.Sched.StallPpm = 0
	}
}

// asmTraces makes small traces without the HTTP side.
func asmTraces(r *Rng, o *sysOpt, n int) []Op {
	g := &genState{r: r, o: o, used: map[uint64]bool{}}
	var ops []Op
	for k := 0; k < n; k++ {
		format := pick(r, "v1", "v2", "jaeger")
		reports := g.genTrace(r.I64(o.span), format)
		groups := map[string]int{}
		parts := r.Range(1, 1+len(reports)/2)
		for _, ts := range reports {
			key := ts.fmt + itoa(r.N(parts)) + "/" + itoa(int(ts.at/(o.window+1)))
			i, ok := groups[key]
			if !ok {
				i = len(ops)
				groups[key] = i
				ops = append(ops, Op{Kind: "spans", At: ts.at, Fmt: ts.fmt})
			}
			ops[i].Spans = append(ops[i].Spans, ts.s)
			if r.P(o.dupPct) {
				ops = append(ops, Op{Kind: "spans", At: ts.at + r.I64(2*sec), Fmt: ts.fmt, Spans: []LSpan{ts.s}})
			}
		}
	}
	return ops
}

func wallSteps(r *Rng, p *Plan, span int64) {
	if r.P(50) {
		for n := r.Range(1, 5); n > 0; n-- {
			p.Faults = append(p.Faults, Fault{Kind: "wall", From: r.I64(span), Arg: r.Range64(-7200*sec, 7200*sec)})
		}
	}
}

func procStalls(r *Rng, p *Plan, span, max int64) {
	for n := r.Range(1, 4); n > 0; n-- {
		p.Faults = append(p.Faults, Fault{Kind: "stall", From: r.I64(span), Arg: r.I64(max) + 1})
	}
}

const fillBase = int64(1) << 40

// fillLoad emits traces holding exactly n spans in total.
func fillLoad(r *Rng, at int64, n, size int, base int64) []Op {
	var ops []Op
	if k := n / size; k > 0 {
		ops = append(ops, Op{Kind: "fill", At: at, N: int64(k), M: int64(size), D: base})
	}
	if rest := n % size; rest > 0 {
		ops = append(ops, Op{Kind: "fill", At: at, N: 1, M: int64(rest), D: base + int64(n/size)*1_000_000})
	}
	return ops
}

func refresh(at int64, ops []Op) []Op {
	var out []Op
	for _, op := range ops {
		op.At = at
		op.Arr = []int64{0, 1} // the first span once more
		out = append(out, op)
	}
	return out
}

// asmP04 tests when traces are released at various loads.
func asmP04(r *Rng, p *Plan) {
	asmKnobs(r, p)
	o := baseSys()
	o.window = pick(r, 1*sec, 4*sec, 7*sec)
	o.span = pick(r, 2*sec, 12*sec)
	o.burstPct = pick(r, 0, 20, 60)
	o.oddPct = pick(r, 0, 0, 20)
	o.fakePct = pick(r, 0, 20)
	o.mergePct = pick(r, 0, 20)
	o.dupPct = pick(r, 0, 0, 20)
	switch r.N(4) {
	case 0: // no load at all
		p.Ops = asmTraces(r, o, r.Range(1, 20))
		if r.P(50) {
			procStalls(r, p, 25*sec, 400*ms)
		}
		if r.P(25) { // spans without a pause
			gap := r.Range64(20*ms, 99*ms)
			at := r.I64(sec)
			for k := r.Range64(9, 13) * sec / gap; k > 0; k-- {
				at += gap
				p.Ops = append(p.Ops, Op{Kind: "bulk", At: at, N: 0x5_0000_0000 + k*10, M: 1, Arr: []int64{0, 1}})
			}
		}
		if r.P(40) { // a trace that is touched again and again
			t := int64(7_000_000_000 + r.I64(1<<30))
			at := r.I64(sec)
			for k := r.Range(2, 9); k > 0; k-- {
				p.Ops = append(p.Ops, Op{Kind: "bulk", At: at, N: t, M: 1, Arr: []int64{int64(k), int64(k) + 1}})
				at += r.Range64(1, 7800*ms)
				if at > 39*sec {
					break
				}
			}
			p.Ops = append(p.Ops, Op{Kind: "bulk", At: p.Ops[len(p.Ops)-1].At, N: t, M: 1, Arr: []int64{0, 1}})
		}
	case 1, 2: // an exact load while the probe waits
		load := pick(r, 39_999, 40_000, 40_001, 59_999, 60_000, 79_999, 80_000, 100_000, r.Range(1, 39_000), r.Range(41_000, 99_000))
		n := r.Range(1, 30)
		at := r.I64(200 * ms)
		fill := fillLoad(r, at, load-n, r.Range(40, 160), fillBase)
		p.Ops = append(p.Ops, fill...)
		hold := holdFor(load)
		probeAt := at + r.I64(hold-400*ms)
		p.Ops = append(p.Ops, Op{Kind: "bulk", At: probeAt, N: 0x7777_0000, M: int64(r.N(3)), Arr: []int64{0, int64(n)}})
		// keep the load until the probe is out
		last := at
		for last+hold-300*ms < probeAt+hold+600*ms {
			last += r.Range64(hold/3, hold-400*ms)
			p.Ops = append(p.Ops, refresh(last, fill)...)
			if last-at > 5*hold-2*hold {
				break
			}
		}
	default: // the load rises and falls while traces wait
		p.Ops = asmTraces(r, o, r.Range(1, 12))
		at := r.I64(4 * sec)
		base := fillBase
		total := 0
		for k := r.Range(1, 4); k > 0; k-- {
			n := pick(r, r.Range(1000, 45_000), r.Range(1000, 45_000), 40_000, 20_000)
			if total+n > 95_000 {
				break
			}
			total += n
			f := fillLoad(r, at, n, r.Range(40, 160), base)
			base += 1 << 35
			p.Ops = append(p.Ops, f...)
			if r.P(50) {
				p.Ops = append(p.Ops, refresh(at+r.I64(5*sec), f)...)
			}
			at += r.I64(4 * sec)
		}
	}
	wallSteps(r, p, 30*sec)
}

// asmP07 tests the limits: size and age of a trace, total load.
func asmP07(r *Rng, p *Plan) {
	asmKnobs(r, p)
	o := baseSys()
	o.span = pick(r, 2*sec, 20*sec)
	o.traces = [2]int{0, 6}
	switch r.N(4) {
	case 0: // size
		p.Ops = asmTraces(r, o, r.Range(1, 6))
		for k := r.Range(1, 2); k > 0; k-- {
			n := pick(r, 8191, 8192, 8192, 8193, 8193, 8194, r.Range(8195, 9000), 16_385)
			t := int64(k)<<32 + 0x5000_0000
			at := r.I64(2 * sec)
			cuts := []int64{0}
			for c := r.Range(0, 4); c > 0; c-- {
				cuts = append(cuts, r.I64(int64(n)))
			}
			cuts = append(cuts, int64(n))
			sortI64(cuts)
			var ops []Op
			for i := 0; i+1 < len(cuts); i++ {
				if cuts[i] == cuts[i+1] {
					continue
				}
				ops = append(ops, Op{Kind: "bulk", At: at, N: t, M: int64(r.Range(1, 400)), Arr: []int64{cuts[i], cuts[i+1]}})
				at += r.I64(3 * sec)
			}
			shape := ops[0].M
			for i := range ops {
				ops[i].M = shape
			}
			p.Ops = append(p.Ops, ops...)
			if r.P(40) { // some spans twice
				lo := r.I64(int64(n) - 200)
				p.Ops = append(p.Ops, Op{Kind: "bulk", At: ops[0].At + r.I64(3*sec), N: t, M: shape, Arr: []int64{lo, lo + r.Range64(1, 200)}})
			}
			for c := r.Range(0, 3); c > 0; c-- { // stragglers
				lo := int64(n) + r.I64(100)
				if n <= 8192 {
					lo = r.I64(int64(n))
				}
				p.Ops = append(p.Ops, Op{Kind: "bulk", At: at + r.I64(25*sec), N: t, M: shape, Arr: []int64{lo, lo + r.Range64(1, 50)}})
			}
		}
	case 1: // age
		p.Ops = asmTraces(r, o, r.Range(1, 6))
		load := pick(r, 0, 0, 0, 41_000, 61_000, 81_000)
		hold := holdFor(load)
		end := 5*hold + r.Range64(-2*sec, 6*sec)
		if load == 0 && r.P(30) { // many of them
			at := r.I64(sec)
			f := []Op{{Kind: "fill", At: at, N: int64(r.Range(20, 1000)), M: int64(r.Range(1, 3)), D: fillBase}}
			p.Ops = append(p.Ops, f...)
			for last := at + 5*hold + r.Range64(sec, 2*sec); at < last; {
				at += r.Range64(hold/2, hold-200*ms)
				p.Ops = append(p.Ops, refresh(at, f)...)
			}
			for c := r.Range(1, 3); c > 0; c-- {
				at += r.I64(20 * sec)
				p.Ops = append(p.Ops, refresh(at, f)...)
			}
		}
		for k := r.Range(1, 3); k > 0; k-- {
			t := int64(k)<<32 + 0x6000_0000
			at := r.I64(sec)
			i := int64(0)
			for at < end {
				p.Ops = append(p.Ops, Op{Kind: "bulk", At: at, N: t, M: int64(r.N(2)), Arr: []int64{i, i + r.Range64(1, 3)}})
				i++
				at += pick(r, r.Range64(1, hold-200*ms), r.Range64(hold/2, hold-200*ms))
			}
			for c := r.Range(0, 4); c > 0; c-- {
				p.Ops = append(p.Ops, Op{Kind: "bulk", At: at + r.I64(30*sec), N: t, M: 0, Arr: []int64{i, i + 2}})
				i += 2
			}
		}
		if load > 0 { // each part of the load is young
			base := fillBase
			n := load / 4
			var fills [][]Op
			for at := int64(0); at < end+hold; at += hold - 400*ms {
				var next [][]Op
				for _, f := range fills {
					if at-f[0].At < 3*hold {
						p.Ops = append(p.Ops, refresh(at, f)...)
						next = append(next, f)
					}
				}
				fills = next
				for len(fills) < 4 {
					f := fillLoad(r, at, n+1, r.Range(60, 150), base)
					base += 1 << 35
					p.Ops = append(p.Ops, f...)
					fills = append(fills, f)
				}
			}
		}
	default: // overload
		at := r.Range64(0, 500*ms)
		spread := pick(r, int64(1), 1, 90*ms, 700*ms)
		total := pick(r, 100_001, 100_002, r.Range(100_001, 104_000), r.Range(100_001, 130_000))
		base := fillBase
		rest := total
		big := r.Range(0, 8)
		size := r.Range(100, 8192)
		for k := 0; k < big && rest > 30_000; k++ {
			n := size
			if r.P(40) {
				n = r.Range(100, 8192)
			}
			p.Ops = append(p.Ops, Op{Kind: "fill", At: at + r.I64(spread), N: 1, M: int64(n), D: base})
			base += 1 << 30
			rest -= n
		}
		for rest > 0 {
			n := r.Range(1, 60_000)
			if n > rest || r.P(40) {
				n = rest
			}
			f := fillLoad(r, at+r.I64(spread), n, pick(r, r.Range(20, 90), r.Range(100, 900), 50), base)
			base += 1 << 36
			rest -= n
			p.Ops = append(p.Ops, f...)
		}
		if r.P(30) { // one that does not count
			n := r.Range(8193, 9000)
			p.Ops = append(p.Ops, Op{Kind: "fill", At: at + r.I64(spread), N: 1, M: int64(n), D: base})
			base += 1 << 30
		}
		// later spans of everything and fresh traces
		for k := r.Range(0, 3); k > 0; k-- {
			src := p.Ops[r.N(len(p.Ops))]
			if src.Kind == "fill" && src.Arr == nil {
				src.At = at + 1200*ms + r.I64(12*sec)
				src.Arr = []int64{0, r.Range64(1, 3)}
				p.Ops = append(p.Ops, src)
			}
		}
		o.span = 1 * sec
		late := asmTraces(r, o, r.Range(0, 5))
		for i := range late {
			late[i].At += at + 3*sec
		}
		p.Ops = append(p.Ops, late...)
	}
	wallSteps(r, p, 30*sec)
}

// asmShapes: trace shapes without the HTTP side, at higher volume.
func asmShapes(r *Rng, p *Plan, o *sysOpt) {
	asmKnobs(r, p)
	p.Ops = asmTraces(r, o, r.Range(5, 40))
	wallSteps(r, p, 20*sec)
	if r.P(30) {
		procStalls(r, p, 20*sec, 300*ms)
	}
}

func sortI64(a []int64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func init() {
	generators["P04"] = func(r *Rng, p *Plan) {
		if r.P(85) {
			asmP04(r, p)
			return
		}
		o := baseSys()
		o.burstPct = 40
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		genNetKnobs(r, p)
		genStalls(r, p, o.span+10*sec, 300*ms)
	}
	generators["P07"] = asmP07
}
