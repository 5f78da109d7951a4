//go:build go1.22

package main

import (
	"os"
	"syscall"
	"time"
)

// Scenarios "stop" and "stopkafka": a proxy is told to end by a signal while
// requests are on their way, idle connections are open and, perhaps, the
// agent or Kafka does not work.
//
// Fault: signal  Inst, From, S = TERM | INT

const (
	stopLimit      = 8 * sec  // from the end of the last request in progress to the end of the process
	stopLimitKafka = 20 * sec // with Kafka, working
	stopLimitAway  = 180 * sec
)

func init() {
	scenarios["stop"] = runStop
	scenarios["stopkafka"] = runStopKafka
	generators["P21"] = genP21
}

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

// signal delivers a signal as the runtime does: to all channels that asked for
// it and can take it. It returns false if none asked for it: that kills the
// process.
func (s *System) signal(id int, regs []sigReg, name string) bool {
	var sig os.Signal = syscall.SIGTERM
	if name == "INT" {
		sig = os.Interrupt
	}
	s.w.Log("signal %s to instance %d", name, id)
	s.insts[id].signalled = true
	s.w.Fire("signal_" + name)
	known := false
	for _, r := range regs {
		for _, have := range r.sigs {
			if have != sig {
				continue
			}
			known = true
			go func() {
				select {
				case r.c <- sig:
				case <-time.After(time.Second): // it takes only one
				}
			}()
		}
		if len(r.sigs) == 0 {
			trouble("signal.Notify for all signals")
		}
	}
	return known
}

// dead cuts a process that ended off; what it wrote before still arrives.
func (s *System) dead(inst int) {
	for side, a := range []string{s.insts[inst].agentAt, s.insts[inst].http} {
		lk := s.w.Net.Link(a)
		lk.set(func(l *link) { l.refuse = true })
		lk.HangUp(side)
	}
}

// reach is the longest time from a client's first byte to the server having seen it.
func (s *System) reach() int64 {
	w := s.w
	return 4*(w.Plan.Knob("client_latency", 200_000)+w.Plan.Knob("client_jitter", 300_000)) + 50*ms + w.StallNs()
}

// awaitStop waits until the instance has ended and checks its last time.
func (s *System) awaitStop(id int, at int64, limit int64) {
	w := s.w
	inst := s.insts[id]
	slack := w.StallNs
	for !inst.exited {
		// the last request that the server has to finish
		last := at
		s.mu.Lock()
		open := 0
		for _, r := range s.busy {
			if r.Op.Inst == id && r.Sent < at+s.reach() {
				open++
			}
		}
		for _, r := range s.reqs {
			if r.Op.Inst == id && r.Sent < at+s.reach() && r.Done > last {
				last = r.Done
			}
		}
		s.mu.Unlock()
		if w.Now() > last+limit+slack() && open == 0 {
			w.Report("shutdown", "instance %d is still running %ds after a signal to end and %ds after the last request was answered", id,
				(w.Now()-at)/sec, (w.Now()-last)/sec)
			return
		}
		if w.Now() > at+1200*sec {
			w.Report("shutdown", "instance %d does not end, there are still requests without an answer", id)
			return
		}
		sleepNs(20 * ms)
	}
	last := at
	for _, r := range s.reqs {
		if r.Op.Inst == id && r.Sent < at+s.reach() && r.Done > last && r.Done < inst.exitAt {
			last = r.Done
		}
	}
	w.Log("instance %d ended %dms after the signal, %dms after the last answer", id, (inst.exitAt-at)/ms, (inst.exitAt-last)/ms)
	w.Probe("stops", 1)
	w.Probe("stop_after_ms", (inst.exitAt-last)/ms)
	w.Probe("stop_ms", (inst.exitAt-at)/ms)
	s.dead(id)
}

// checkStop verifies what became of the requests around the stop.
func (s *System) checkStop(id int, at int64, away bool) {
	w := s.w
	for _, r := range s.reqs {
		op := r.Op
		if op.Inst != id {
			continue
		}
		switch {
		case r.Sent+s.reach() < at && r.Done > at:
			// it was in progress
			if !r.Complete && r.Status == 0 && op.Cut > 0 {
				continue
			}
			if r.Status == 0 && (r.TimedOut || r.LastSent-r.Sent > 59*sec) {
				continue // the client gave up
			}
			if r.Status == 0 && away {
				continue // nothing can be taken while Kafka is away
			}
			w.Probe("stop_in_progress", 1)
			invalid := op.Bad != "" || op.wrongType() || op.Cut > 0 || r.Damaged
			switch {
			case r.Status == 0:
				w.Report("shutdown", "request %d was in progress at the signal (sent from %.3fs to %.3fs, signal at %.3fs) and was not answered: %s",
					r.Idx, float64(r.Sent)/1e9, float64(r.LastSent)/1e9, float64(at)/1e9, r.Err)
			case !invalid && r.Status != 202 || r.Status != 202 && r.Status != 400:
				w.Report("shutdown", "request %d was in progress at the signal and was answered with %d: %.100s", r.Idx, r.Status, r.Body)
			}
		case r.Sent > at+sec+s.reach() && r.Status != 0:
			w.Report("shutdown", "request %d was sent %.3fs after the signal and was answered with %d", r.Idx, float64(r.Sent-at)/1e9, r.Status)
		case r.Sent > at+sec:
			w.Probe("stop_refused", 1)
		}
	}
}

func (s *System) findSignal() *Fault {
	for i := range s.w.Plan.Faults {
		if s.w.Plan.Faults[i].Kind == "signal" {
			return &s.w.Plan.Faults[i]
		}
	}
	return nil
}

func runStop(w *World) {
	s := NewSystem(w)
	netKnobs(w, w.Net.Link("proxy0:3080"), "client")
	netKnobs(w, w.Net.Link("agent0:8126"), "agent")
	s.Start(0, "")
	f := s.findSignal()
	if f == nil {
		return
	}
	sleepNs(20 * ms)
	s.base = w.Now()
	s.RunFaults()
	done := false
	go func() {
		s.RunOps()
		done = true
	}()
	sleepUntil(w, s.base+f.From)
	at := w.Now()
	if !s.signal(0, s.sigs, f.S) {
		w.Report("shutdown", "the proxy does not handle the signal %s", f.S)
		return
	}
	again := f.Arg
	if again > 0 {
		go func() {
			sleepNs(again)
			if !s.insts[0].exited && !s.signal(0, s.sigs, f.S) {
				w.Fire("signal_kills")
				s.ended(s.insts[0], "killed")
			}
		}()
	}
	s.awaitStop(0, at, stopLimit)
	for !done {
		sleepNs(100 * ms)
	}
	s.checkStop(0, at, false)
	if !s.insts[0].exited {
		return
	}
	// what was due before the end is out
	v := s.view(0)
	end := s.insts[0].exitAt
	faulty := w.outage()
	for _, t := range v.traces {
		if faulty || t.hi+holdTime+200*ms+4*sec+sec+v.slack > end {
			t.loose = true
		} else {
			w.Probe("stop_traces", 1)
		}
	}
	var out []*Payload
	for _, p := range s.insts[0].agent.Payloads() {
		if p.At <= end {
			out = append(out, p)
		}
	}
	v.attach(out)
	v.checkTraces(!faulty)
}

func runStopKafka(w *World) {
	s := NewSystem(w)
	n := int(w.Plan.Knob("instances", 1))
	k := &kafkaSim{s: s, c: newCluster(w, int(w.Plan.Knob("brokers", 1)), n)}
	s.kafka = k
	s.lag = kafkaLag
	k.c.Fault = k.fault
	for i := 0; i < n; i++ {
		k.start()
	}
	if !k.settle(150 * sec) {
		return
	}
	f := s.findSignal()
	if f == nil {
		return
	}
	s.base = w.Now()
	k.base0 = s.base
	k.armed = true
	away := false
	for i := range w.Plan.Faults {
		g := &w.Plan.Faults[i]
		switch g.Kind {
		case "signal":
			continue
		case "broker", "kafkalink", "broker_restart", "rebalance":
			away = true
		}
		go s.runFault(g)
	}
	done := false
	go func() {
		s.RunOps()
		done = true
	}()
	sleepUntil(w, s.base+f.From)
	at := w.Now()
	id := f.Inst % n
	if !s.signal(id, k.regs(id), f.S) {
		w.Report("shutdown", "the proxy does not handle the signal %s", f.S)
		return
	}
	if again := f.Arg; again > 0 {
		go func() {
			sleepNs(again)
			if !s.insts[id].exited && !s.signal(id, k.regs(id), f.S) {
				w.Fire("signal_kills")
				s.ended(s.insts[id], "killed")
			}
		}()
	}
	limit := int64(stopLimitKafka)
	if away {
		limit = stopLimitAway
		w.Probe("stop_kafka_away", 1)
	}
	s.awaitStop(id, at, limit)
	if s.insts[id].exited {
		if away {
			w.Probe("stop_away_ms", (s.insts[id].exitAt-at)/ms)
		}
		k.cut(-1, id, "refuse", true)
	}
	for !done {
		sleepNs(100 * ms)
	}
	s.checkStop(id, at, away)
	k.finish()
}

func genP21(r *Rng, p *Plan) {
	kafka := r.P(45)
	o := baseSys()
	o.damagePct = pick(r, 0, 10)
	o.dupPct = pick(r, 0, 20)
	o.mergePct = pick(r, 0, 10)
	o.longPct = pick(r, 0, 0, 5)
	o.slowPct = pick(r, 0, 30)
	o.span = pick(r, 4*sec, 20*sec, 40*sec)
	o.traces = [2]int{1, pick(r, 6, 14, 30)}
	o.admin = pick(r, 0, 2)
	p.Scenario = "stop"
	inst := 1
	sig := Fault{Kind: "signal", From: r.Range64(0, o.span+3*sec), S: pick(r, "TERM", "TERM", "INT")}
	if r.P(25) {
		sig.Arg = pick(r, 1*ms, 100*ms, 2*sec)
	}
	if kafka {
		p.Scenario = "stopkafka"
		o.span = pick(r, 4*sec, 20*sec)
		sig.From = r.Range64(0, o.span+3*sec)
		inst = r.Range(1, 2)
		sig.Inst = r.N(inst)
		b := r.Range(1, 3)
		p.Knobs["instances"] = int64(inst)
		p.Knobs["brokers"] = int64(b)
		genKafkaNet(r, p)
		delete(p.Knobs, "start_gap")
		switch r.N(4) {
		case 0: // a long outage, the signal at any time in it
			sig.From += r.I64(60 * sec)
			from := max(0, sig.From-r.I64(60*sec))
			f := Fault{From: from, To: sig.From + r.I64(90*sec), Node: -1, Inst: r.Range(-1, inst-1)}
			f.Kind, f.S = "kafkalink", pick(r, "refuse", "refuse", "blackhole", "partition")
			if r.P(40) {
				f.Kind, f.S = "broker", pick(r, "error", "close", "error/11", "close/11", "error/14", "error/10", "close/10", "error/3", "close/3")
			}
			p.Faults = append(p.Faults, f)
		case 1:
			for n := r.Range(1, 2); n > 0; n-- {
				from := max(0, sig.From-r.I64(12*sec))
				f := Fault{From: from, To: from + pick(r, r.Range64(1, 2*sec), r.Range64(2*sec, 15*sec), r.Range64(10*sec, 60*sec)),
					Node: r.Range(-1, b-1), Inst: r.Range(-1, inst-1)}
				switch r.N(7) {
				case 0, 1, 2:
					f.Kind, f.S = "kafkalink", pick(r, "refuse", "blackhole", "partition")
				case 3, 4, 5:
					f.Kind, f.S = "broker", pick(r, "hang", "close", "error", "slow", "error/0", "close/0", "hang/0", "error/1", "hang/1", "error/12", "hang/11", "error/14", "error/3")
					f.Arg = r.Range64(1, 3*sec)
				case 6:
					f.Kind, f.To = "rebalance", f.From
				}
				p.Faults = append(p.Faults, f)
			}
		}
	} else {
		genNetKnobs(r, p)
	}
	p.Ops = genSystemOps(r, o)
	for i := range p.Ops {
		op := &p.Ops[i]
		op.Inst = r.N(inst)
		// slow requests around the signal
		if d := sig.From - op.At; op.Kind == "post" && d > 0 && d < 20*sec && r.P(40) {
			pieces := r.Range(2, 12)
			op.Chunk = 1 + 300*len(op.Spans)/pieces
			op.Gap = r.Range64(0, 2*sec)
		}
	}
	// late ones
	for n := r.N(6); n > 0; n-- {
		op := p.Ops[r.N(len(p.Ops))]
		if op.Kind == "post" {
			op.At = sig.From + r.I64(12*sec)
			op.Inst = sig.Inst
			p.Ops = append(p.Ops, op)
		}
	}
	p.Faults = append(p.Faults, sig)
	if r.P(25) {
		genAgentFaults(r, p, o.span)
	}
	genStalls(r, p, o.span, 300*ms)
	if !kafka {
		addBulk(r, p, o.span, 8)
	}
}
