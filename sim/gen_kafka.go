//go:build go1.22

package main

// kafkaSys is the traffic of one phase of the kafka scenario.
func kafkaOps(r *Rng, p *Plan, g *genState, phase int64, instances int, span int64) {
	g.total = 0
	ops := genOps(g)
	for i := range ops {
		ops[i].M = phase
		ops[i].Inst = r.N(instances)
	}
	p.Ops = append(p.Ops, ops...)
}

func kafkaOpt(r *Rng) *sysOpt {
	o := baseSys()
	o.traces = [2]int{1, 8}
	o.spans = pick(r, [2]int{1, 6}, [2]int{2, 12})
	o.window = pick(r, 200*ms, 1200*ms)
	o.span = 3 * sec
	o.maxSpans = 150
	o.mergePct = pick(r, 0, 20, 50)
	o.fakePct = pick(r, 0, 20)
	o.oddPct = pick(r, 0, 10)
	o.wildText = pick(r, 0, 20)
	o.longPct = pick(r, 0, 0, 10)
	o.slowPct = pick(r, 0, 20)
	return o
}

func genKafkaNet(r *Rng, p *Plan) {
	genNetKnobs(r, p)
	if r.P(50) {
		p.Knobs["kafka_latency"] = r.I64(30 * ms)
		p.Knobs["kafka_jitter"] = r.I64(30 * ms)
	}
	if r.P(40) {
		p.Knobs["kafka_chunk"] = pick(r, int64(30), 300, 1400, 9000)
	}
	p.Knobs["rebalance_delay"] = pick(r, 0, 500*ms, 3*sec)
	p.Knobs["start_gap"] = pick(r, 0, r.I64(5*sec))
	p.Sched.YieldMean = pick(r, uint32(0), 10, 40, 200)
}

func genP14(r *Rng, p *Plan) {
	p.Scenario = "kafka"
	n := r.Range(1, 3)
	p.Knobs["instances"] = int64(n)
	p.Knobs["brokers"] = int64(r.Range(1, 3))
	genKafkaNet(r, p)
	g := &genState{r: r, o: kafkaOpt(r), used: map[uint64]bool{}}
	kafkaOps(r, p, g, 1, n, 3*sec)
	if r.P(25) {
		return
	}
	for k := r.Range(1, 2); k > 0; k-- {
		f := Fault{Kind: pick(r, "inst_stop", "inst_crash", "inst_start", "rebalance"), Inst: r.N(n), From: r.I64(15 * sec)}
		if f.Kind != "inst_start" && f.Kind != "rebalance" && n == 1 {
			f.Kind = "rebalance"
		}
		p.Faults = append(p.Faults, f)
	}
	if r.P(60) {
		g.o.span = pick(r, 3*sec, 15*sec)
		kafkaOps(r, p, g, 0, n, g.o.span)
		g.o.span = 3 * sec
	}
	kafkaOps(r, p, g, 2, n, 3*sec)
}

func genP15(r *Rng, p *Plan) {
	p.Scenario = "kafka"
	n := r.Range(1, 2)
	b := r.Range(1, 3)
	p.Knobs["instances"] = int64(n)
	p.Knobs["brokers"] = int64(b)
	genKafkaNet(r, p)
	g := &genState{r: r, o: kafkaOpt(r), used: map[uint64]bool{}}
	if r.P(50) {
		kafkaOps(r, p, g, 1, n, 3*sec)
	}
	span := pick(r, 5*sec, 20*sec, 60*sec)
	gap := span / 2
	at := int64(0)
	// sometimes the brokers are away for minutes
	long := int64(0)
	if v := r.Fork(11); v.P(8) {
		long = v.Range64(3*60*sec, 40*60*sec)
	}
	for k := r.Range(1, 4); k > 0; k-- {
		from := at + r.I64(gap)
		to := from + pick(r, r.Range64(1, 2*sec), r.Range64(2*sec, 15*sec), r.Range64(10*sec, 60*sec))
		if long > 0 {
			to, long = to+long, 0
			span = to + 20*sec
			p.Knobs["max_sim"] = to + 3600*sec
		}
		if r.P(70) {
			at = to
		}
		f := Fault{From: from, To: to, Node: r.Range(-1, b-1), Inst: r.Range(-1, n-1)}
		switch r.N(8) {
		case 0, 1, 2:
			f.Kind, f.S = "kafkalink", pick(r, "refuse", "blackhole", "partition")
		case 3, 4, 5:
			f.Kind, f.S = "broker", pick(r, "hang", "close", "error", "slow", "error/0", "close/0", "hang/0", "error/1", "hang/1", "error/12", "hang/11", "error/14", "error/3")
			f.Arg = r.Range64(1, 3*sec)
		case 6:
			f.Kind, f.Arg, f.Inst = "broker_restart", int64(r.N(4)), 0
		case 7:
			f.Kind, f.To = "rebalance", f.From
		}
		if f.S == "error/12" && f.To-f.From > 100*sec {
			f.S = "error/11" // no heartbeat but everything else: sessions in quick succession
		}
		p.Faults = append(p.Faults, f)
	}
	g.o.span = span
	g.o.traces = pick(r, [2]int{1, 8}, [2]int{20, 60})
	g.o.maxSpans = pick(r, 150, 150, 900)
	kafkaOps(r, p, g, 0, n, span)
	g.o = kafkaOpt(r)
	kafkaOps(r, p, g, 2, n, 3*sec)
}

func init() {
	generators["P14"] = genP14
	generators["P15"] = genP15
}
