//go:build go1.22

package main

func baseSys() *sysOpt {
	return &sysOpt{traces: [2]int{1, 14}, spans: [2]int{1, 10}, window: 4 * sec, span: 8 * sec, maxSpans: 250}
}

var agentModes = []string{"reset_before", "reset_after", "hang", "hang_read", "http500", "http404", "slow", "trickle"}

// genAgentFaults makes windows in which the agent or its link misbehaves.
func genAgentFaults(r *Rng, p *Plan, span int64) {
	at := int64(0)
	for n := r.Range(1, 4); n > 0; n-- {
		from := at + r.I64(span/2)
		to := from + pick(r, r.Range64(1, 2*sec), r.Range64(2*sec, 12*sec), r.Range64(5*sec, 30*sec))
		at = to
		if r.P(50) {
			f := Fault{Kind: "agent", From: from, To: to, S: pick(r, agentModes...)}
			switch f.S {
			case "reset_before":
				f.Arg = r.I64(3000)
			case "slow":
				f.Arg = r.Range64(1, 900*ms)
			case "trickle":
				f.Arg = r.Range64(1, 80*ms)
			}
			p.Faults = append(p.Faults, f)
		} else {
			p.Faults = append(p.Faults, Fault{Kind: "agentlink", From: from, To: to, S: pick(r, "refuse", "blackhole", "partition")})
		}
	}
}

func init() {
	generators["P01"] = func(r *Rng, p *Plan) {
		o := baseSys()
		o.damagePct = pick(r, 0, 10, 30)
		o.dupPct = pick(r, 0, 0, 20)
		o.mergePct = pick(r, 0, 10)
		o.oddPct = pick(r, 0, 10)
		o.fakePct = pick(r, 0, 10)
		o.longPct = pick(r, 0, 0, 5)
		o.wildText = pick(r, 0, 10)
		o.slowPct = pick(r, 0, 30)
		o.burstPct = pick(r, 0, 0, 15)
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		genNetKnobs(r, p)
		genStalls(r, p, o.span+10*sec, 400*ms)
		if r.P(20) {
			p.Faults = append(p.Faults, Fault{Kind: "client_reset", From: r.I64(o.span)})
		}
		addBulk(r, p, o.span, 8)
		addPads(r, p, 3)
	}
	generators["P02"] = func(r *Rng, p *Plan) {
		o := baseSys()
		o.span = 4 * sec
		o.damagePct = pick(r, 40, 60, 80)
		o.wildText = pick(r, 0, 20)
		o.longPct = pick(r, 0, 10, 30)
		o.slowPct = pick(r, 0, 30, 60)
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		for i := range p.Ops {
			if p.Ops[i].Fmt == "v1" && r.P(10) {
				p.Ops[i].S = pick(r, "text/plain", "application/x-thrift", "application/xml")
			} else if r.P(10) {
				p.Ops[i].S = pick(r, "application/json; charset=utf-8", "application/json;foo=bar")
			}
		}
		genNetKnobs(r, p)
		genStalls(r, p, o.span, 200*ms)
		if r.P(20) {
			p.Faults = append(p.Faults, Fault{Kind: "client_reset", From: r.I64(o.span)})
		}
		addBulk(r, p, o.span, 6)
		addPads(r, p, 10)
	}
	sysP03 := func(r *Rng, p *Plan) {
		o := baseSys()
		o.oddPct = pick(r, 0, 20, 40)
		o.fakePct = pick(r, 0, 30, 60)
		o.burstPct = pick(r, 0, 30, 60)
		o.mergePct = pick(r, 0, 0, 20)
		o.wideTrace = pick(r, 0, 0, 20)
		o.window = pick(r, 1*sec, 4*sec, 6*sec)
		o.spans = pick(r, [2]int{1, 4}, [2]int{2, 10}, [2]int{5, 40})
		o.maxSpans = 500
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		genNetKnobs(r, p)
		genStalls(r, p, o.span+15*sec, 200*ms)
	}
	generators["P03"] = func(r *Rng, p *Plan) {
		if r.P(65) {
			sysP03(r, p)
			return
		}
		o := baseSys()
		o.oddPct = pick(r, 0, 20, 40)
		o.fakePct = pick(r, 0, 30, 60)
		o.burstPct = pick(r, 0, 30, 60)
		o.mergePct = pick(r, 0, 0, 20)
		o.wideTrace = pick(r, 0, 0, 20)
		o.dupPct = pick(r, 0, 0, 10)
		o.window = pick(r, 1*sec, 4*sec, 6*sec)
		o.spans = pick(r, [2]int{1, 4}, [2]int{2, 10}, [2]int{5, 40})
		asmShapes(r, p, o)
	}
	sysP05 := func(r *Rng, p *Plan) {
		o := baseSys()
		o.span = pick(r, 200*ms, 1*sec, 6*sec) // many at the same time
		o.window = pick(r, 10*ms, 1*sec)
		o.wildText = pick(r, 10, 50, 90)
		o.longPct = pick(r, 0, 10, 50)
		o.slowPct = pick(r, 0, 50, 80)
		o.traces = [2]int{4, 20}
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		genNetKnobs(r, p)
		if r.P(60) {
			p.Knobs["client_chunk"] = pick(r, int64(1), 2, 5, 60)
		}
		p.Sched.YieldMean = pick(r, uint32(2), 5, 20, 60)
		addPads(r, p, 5)
	}
	generators["P05"] = func(r *Rng, p *Plan) {
		if r.P(55) {
			sysP05(r, p)
		} else {
			genCodecOps(r, p)
		}
	}
	generators["P16"] = func(r *Rng, p *Plan) {
		if r.P(60) {
			genRawCodec(r, p)
		} else {
			genRawSystem(r, p)
		}
	}
	sysP06 := func(r *Rng, p *Plan) {
		o := baseSys()
		o.mergePct = pick(r, 40, 70, 100)
		o.skewPct = pick(r, 0, 60, 100)
		o.dupPct = pick(r, 0, 30)
		o.brokenTS = pick(r, 0, 0, 20)
		o.fakePct = pick(r, 0, 15)
		o.spans = pick(r, [2]int{1, 4}, [2]int{2, 12})
		o.window = pick(r, 1*sec, 5*sec)
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		genNetKnobs(r, p)
	}
	generators["P06"] = func(r *Rng, p *Plan) {
		if r.P(65) {
			sysP06(r, p)
			return
		}
		o := baseSys()
		o.mergePct = pick(r, 40, 70, 100)
		o.skewPct = pick(r, 0, 60, 100)
		o.dupPct = pick(r, 0, 30, 60)
		o.brokenTS = pick(r, 0, 0, 20)
		o.fakePct = pick(r, 0, 15)
		o.spans = pick(r, [2]int{1, 4}, [2]int{2, 12})
		o.window = pick(r, 1*sec, 5*sec)
		asmShapes(r, p, o)
	}
	sysP08 := func(r *Rng, p *Plan) {
		o := baseSys()
		o.traces = [2]int{6, 25}
		o.span = r.Range64(10*sec, 40*sec)
		o.window = 2 * sec
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		genNetKnobs(r, p)
		genAgentFaults(r, p, o.span)
		genStalls(r, p, o.span, 100*ms)
		if r.P(30) {
			for k := 0; k < 3; k++ {
				p.Ops = append(p.Ops, Op{Kind: "admin", At: r.I64(o.span + 14*sec)})
			}
		}
	}
	generators["P08"] = func(r *Rng, p *Plan) {
		if r.P(65) {
			sysP08(r, p)
		} else {
			genSink(r, p, true)
		}
	}
	generators["P09"] = func(r *Rng, p *Plan) {
		if r.P(70) {
			genSink(r, p, false)
			return
		}
		o := baseSys()
		o.spans = pick(r, [2]int{1, 10}, [2]int{5, 60}, [2]int{20, 300})
		o.traces = [2]int{1, 40}
		o.maxSpans = pick(r, 100, 1500, 5000)
		o.span = pick(r, 500*ms, 8*sec)
		o.wildText = pick(r, 0, 20)
		o.burstPct = pick(r, 0, 20)
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		genNetKnobs(r, p)
		genStalls(r, p, o.span+10*sec, 200*ms)
	}
	sysP10 := func(r *Rng, p *Plan) {
		o := baseSys()
		o.traces = [2]int{2, 40}
		o.spans = pick(r, [2]int{1, 10}, [2]int{5, 60}, [2]int{1, 200})
		o.maxSpans = pick(r, 200, 1500, 4500)
		o.window = 1 * sec
		o.span = 20 * sec
		o.admin = r.Range(2, 10)
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		p.Knobs["admin_end"] = 1
		addBulk(r, p, o.span, 20)
		genNetKnobs(r, p)
		genStalls(r, p, o.span, 100*ms)
	}
	generators["P10"] = func(r *Rng, p *Plan) {
		if r.P(40) {
			sysP10(r, p)
		} else {
			genRecent(r, p)
		}
	}
	generators["P11"] = genCache
	sysP18 := func(r *Rng, p *Plan) {
		o := baseSys()
		o.spans = [2]int{1, 14}
		o.fakePct = pick(r, 0, 20)
		o.mergePct = pick(r, 0, 20)
		o.burstPct = pick(r, 0, 20)
		o.admin = r.Range(0, 3)
		p.Scenario = "system"
		p.Ops = genSystemOps(r, o)
		p.Knobs["converter"] = int64(r.Range(1, 255))
		addBulk(r, p, o.span, 8)
		genNetKnobs(r, p)
		genStalls(r, p, o.span+10*sec, 100*ms)
	}
	generators["P18"] = sysP18
	generators["P19"] = func(r *Rng, p *Plan) {
		switch k := r.N(100); {
		case k < 25:
			asmP07(r, p)
		case k < 40:
			asmP04(r, p)
		case k < 60:
			o := baseSys()
			o.oddPct = pick(r, 0, 20, 40)
			o.fakePct = pick(r, 0, 30)
			o.burstPct = pick(r, 0, 30, 60)
			o.mergePct = pick(r, 0, 30)
			o.dupPct = pick(r, 0, 0, 20)
			asmShapes(r, p, o)
		case k < 85:
			o := baseSys()
			o.damagePct = pick(r, 0, 20, 50)
			o.dupPct = pick(r, 0, 20)
			o.mergePct = pick(r, 0, 30)
			o.oddPct = pick(r, 0, 30)
			o.fakePct = pick(r, 0, 20)
			o.burstPct = pick(r, 0, 20)
			o.slowPct = pick(r, 0, 30)
			p.Scenario = "system"
			p.Ops = genSystemOps(r, o)
			genNetKnobs(r, p)
			if r.P(30) {
				genAgentFaults(r, p, o.span)
			}
			if r.P(20) {
				p.Knobs["converter"] = int64(r.Range(1, 255))
			}
			for k := r.N(5); k > 0; k-- {
				p.Ops = append(p.Ops, Op{Kind: "metrics", At: r.I64(o.span + 20*sec)})
			}
			addBulk(r, p, o.span, 6)
		case k < 90:
			genP14(r, p)
			p.Faults = nil
			ops := p.Ops[:0]
			for _, op := range p.Ops {
				if op.M == 1 {
					ops = append(ops, op)
				}
			}
			p.Ops = ops
		default:
			genCache(r, p)
		}
	}
}
