//go:build go1.22

package main

import (
	"fmt"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/Shopify/sarama"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "kafka": several instances of the whole proxy share a topic of a
// simulated Kafka cluster. The run has three phases, marked by Op.M:
//
//	1  traffic while everything is stable, checked completely
//	0  trouble: traffic together with the plan's faults; only the origin of what arrives is checked
//	2  traffic after recovery, checked completely
//
// Faults: kafkalink      Node, Inst, S = refuse | blackhole | partition
//	       broker         Node, Inst, S = hang | close | error | slow [/api], Arg
//	       broker_restart Node, Arg = records lost from the end of each partition
//	       rebalance
//	       inst_stop, inst_crash, inst_start

const (
	kafkaTopic = "zipkin-spans"
	kafkaGroup = "zipkin-proxy"
	kafkaLag   = 4 * sec // HTTP answer to arrival at the assembly of some instance, in a stable cluster
)

func init() { scenarios["kafka"] = runKafka }

type kafkaSim struct {
	s     *System
	c     *sarama.SimCluster
	base0 int64
	armed bool
	live  []bool
	sigAt []int // index of the instance's signal channel
	stops int
}

func newCluster(w *World, brokers, clients int) *sarama.SimCluster {
	c := &sarama.SimCluster{Brokers: brokers, Clients: clients,
		RebalanceDelay: time.Duration(w.Plan.Knob("rebalance_delay", 3*sec)),
		Trace:          func(f string, a ...interface{}) { w.Log(f, a...) }}
	for b := 0; b < brokers; b++ {
		for i := 0; i < clients; i++ {
			netKnobs(w, w.Net.Link(c.Addr(b, i)), "kafka")
		}
	}
	c.Verbose = w.Plan.Knob("kafka_trace", 0) != 0
	if err := c.Start(); err != nil {
		trouble("kafka: %v", err)
	}
	return c
}

// parseMode splits "error/3" into the mode and the API it is restricted to.
func parseMode(s string) (string, int16) {
	if i := strings.IndexByte(s, '/'); i >= 0 {
		n, _ := strconv.Atoi(s[i+1:])
		return s[:i], int16(n)
	}
	return s, -1
}

func (k *kafkaSim) fault(broker, client int, api int16) (string, time.Duration) {
	if !k.armed {
		return "", 0
	}
	w := k.s.w
	now := w.Now() - k.base0
	for i := range w.Plan.Faults {
		f := &w.Plan.Faults[i]
		if f.Kind != "broker" || now < f.From || now >= f.To || f.Node >= 0 && f.Node != broker || f.Inst >= 0 && f.Inst != client {
			continue
		}
		mode, only := parseMode(f.S)
		if only >= 0 && only != api {
			continue
		}
		w.Fire("broker_" + mode)
		return mode, time.Duration(f.Arg)
	}
	return "", 0
}

func (k *kafkaSim) links(node, inst int) []*link {
	var res []*link
	for b := 0; b < k.c.Brokers; b++ {
		for i := 0; i < k.c.Clients; i++ {
			if (node < 0 || node == b) && (inst < 0 || inst == i) {
				res = append(res, k.s.w.Net.Link(k.c.Addr(b, i)))
			}
		}
	}
	return res
}

func (k *kafkaSim) cut(node, inst int, mode string, on bool) {
	for _, lk := range k.links(node, inst) {
		lk.set(func(l *link) {
			switch mode {
			case "refuse":
				l.refuse = on
			case "blackhole":
				l.blackhole = on
			case "partition":
				l.held = on
			}
		})
		if on && mode != "partition" {
			lk.ResetAll()
		}
	}
}

// runFault executes one fault of the trouble phase; the caller has slept until From.
func (k *kafkaSim) runFault(f *Fault) {
	w := k.s.w
	switch f.Kind {
	case "broker":
		w.Log("fault: broker %d (client %d) %s until %.3fs", f.Node, f.Inst, f.S, float64(k.base0+f.To)/1e9)
	case "kafkalink":
		w.Log("fault: link broker %d - client %d %s", f.Node, f.Inst, f.S)
		w.Fire("kafkalink_" + f.S)
		k.cut(f.Node, f.Inst, f.S, true)
		sleepUntil(w, k.base0+f.To)
		k.cut(f.Node, f.Inst, f.S, false)
		w.Log("fault: link broker %d - client %d %s healed", f.Node, f.Inst, f.S)
	case "broker_restart":
		lost := 0
		k.cut(f.Node, -1, "refuse", true)
		if f.Arg > 0 {
			lost = k.c.LoseTail(kafkaTopic, int(f.Arg))
		}
		if f.Node <= 0 {
			k.c.ForgetMembers()
		}
		w.Log("fault: broker %d crashed, %d records lost", f.Node, lost)
		w.Fire("broker_restart")
		if lost > 0 {
			w.Fire("broker_records_lost")
		}
		sleepUntil(w, k.base0+f.To)
		k.cut(f.Node, -1, "refuse", false)
		w.Log("fault: broker %d is up again", f.Node)
	case "rebalance":
		w.Log("fault: rebalance")
		w.Fire("group_rebalance")
		k.c.Rebalance()
	case "inst_stop", "inst_crash":
		if f.Inst >= len(k.live) || !k.live[f.Inst] || k.count() == 1 {
			return
		}
		k.live[f.Inst] = false
		w.Fire(f.Kind)
		if f.Kind == "inst_stop" {
			k.stop(f.Inst)
		}
		w.Log("fault: instance %d is gone", f.Inst)
		runtime.SimGroupEnd(k.s.insts[f.Inst].group)
		k.cut(-1, f.Inst, "refuse", true)
		for _, a := range []string{fmt.Sprintf("agent%d:8126", f.Inst), fmt.Sprintf("proxy%d:3080", f.Inst)} {
			lk := w.Net.Link(a)
			lk.set(func(l *link) { l.refuse = true })
			lk.ResetAll()
		}
	case "inst_start":
		if len(k.live) >= k.c.Clients {
			return
		}
		w.Fire("inst_start")
		k.start()
	default:
		trouble("unknown fault kind %q", f.Kind)
	}
}

// regs are the channels for which instance i asked for signals.
func (k *kafkaSim) regs(i int) []sigReg {
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	to := len(k.s.sigs)
	if i+1 < len(k.sigAt) {
		to = k.sigAt[i+1]
	}
	return k.s.sigs[k.sigAt[i]:to:to]
}

// stop sends SIGTERM and waits for the end of the instance.
func (k *kafkaSim) stop(i int) {
	w := k.s.w
	at := w.Now()
	if !k.s.signal(i, k.regs(i), "TERM") {
		w.Report("shutdown", "the proxy does not handle the signal TERM")
		return
	}
	for !k.s.insts[i].exited {
		if w.Now()-at > 90*sec {
			w.Report("shutdown", "instance %d is still running %ds after SIGTERM", i, (w.Now()-at)/sec)
			return
		}
		sleepNs(50 * ms)
	}
	w.Probe("graceful_stops", 1)
	w.Probe("graceful_stop_ms", (k.s.insts[i].exitAt-at)/ms)
}

func (k *kafkaSim) start() {
	w := k.s.w
	id := len(k.live)
	k.live = append(k.live, true)
	k.s.mu.Lock()
	at := len(k.s.sigs)
	k.s.mu.Unlock()
	k.sigAt = append(k.sigAt, at)
	netKnobs(w, w.Net.Link(fmt.Sprintf("proxy%d:3080", id)), "client")
	netKnobs(w, w.Net.Link(fmt.Sprintf("agent%d:8126", id)), "agent")
	var addrs []string
	for b := 0; b < k.c.Brokers; b++ {
		addrs = append(addrs, k.c.Addr(b, id))
	}
	k.s.Start(id, strings.Join(addrs, ","))
	for {
		k.s.mu.Lock()
		n := len(k.s.sigs)
		k.s.mu.Unlock()
		if n > at {
			return
		}
		sleepNs(ms)
	}
}

func (k *kafkaSim) count() int {
	n := 0
	for _, l := range k.live {
		if l {
			n++
		}
	}
	return n
}

func (k *kafkaSim) alive() []int {
	var res []int
	for i, l := range k.live {
		if l {
			res = append(res, i)
		}
	}
	return res
}

// settle waits until the group is complete and every partition is served.
func (k *kafkaSim) settle(limit int64) bool {
	w := k.s.w
	until := w.Now() + limit
	for {
		if k.c.Settled(kafkaGroup, kafkaTopic, k.count()) {
			w.Log("kafka: settled, members %v", k.c.Members(kafkaGroup))
			return true
		}
		if w.Now() > until {
			w.Report("wedge", "the %d instances did not share the partitions within %ds, members are %v", k.count(), limit/sec, k.c.Members(kafkaGroup))
			return false
		}
		sleepNs(100 * ms)
	}
}

// phase runs the ops marked with m.
func (k *kafkaSim) phase(m int64) {
	w := k.s.w
	k.s.base = w.Now()
	live := k.alive()
	var idxs []int
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		if op.M == m {
			if m != 0 {
				op.Inst = live[op.Inst%len(live)]
			}
			idxs = append(idxs, i)
		}
	}
	w.Log("phase %d: %d ops", m, len(idxs))
	k.s.runOps(idxs)
}

func runKafka(w *World) {
	s := NewSystem(w)
	n := int(w.Plan.Knob("instances", 2))
	starts := 0
	for _, f := range w.Plan.Faults {
		if f.Kind == "inst_start" {
			starts++
		}
	}
	k := &kafkaSim{s: s, c: newCluster(w, int(w.Plan.Knob("brokers", 1)), n+starts)}
	s.kafka = k
	s.lag = kafkaLag
	k.c.Fault = k.fault
	for i := 0; i < n; i++ {
		k.start()
		if g := w.Plan.Knob("start_gap", 0); g > 0 {
			sleepNs(g)
		}
	}
	if !k.settle(150 * sec) {
		return
	}
	k.phase(1)
	trouble := false
	for _, op := range w.Plan.Ops {
		trouble = trouble || op.M != 1
	}
	if trouble || len(w.Plan.Faults) > 0 {
		// nothing of phase 1 is on its way any more
		w.settle(kafkaLag + holdTime + 6*sec)
		k.trouble()
		if !k.recover(w.Plan.Knob("recover_limit", 240*sec)) || !k.settle(120*sec) {
			s.checkKafka()
			return
		}
		k.phase(2)
	}
	w.settle(kafkaLag + holdTime + 200*ms + 4*sec + sec)
	if !trouble && len(w.Plan.Faults) == 0 {
		s.view(-1).checkMetrics(true)
	}
	s.checkKafka()
	k.finish()
}

func (k *kafkaSim) finish() {
	for _, e := range k.c.Errors {
		trouble("kafka: %s", e)
	}
}

// trouble runs the faults together with their traffic.
func (k *kafkaSim) trouble() {
	w := k.s.w
	k.s.base = w.Now()
	k.base0 = w.Now()
	k.armed = true
	last := int64(0)
	running := 0
	for i := range w.Plan.Faults {
		f := &w.Plan.Faults[i]
		if f.To > last {
			last = f.To
		}
		running++
		go func() {
			k.s.runFault(f)
			running--
		}()
	}
	k.phase(0)
	sleepUntil(w, k.base0+last)
	for running > 0 {
		sleepNs(10 * ms)
	}
	k.armed = false
	w.Log("trouble is over")
}

const probeCount = 16

func isProbe(id uint64) bool { return id>>32 == probeTrace>>32 }

// recover sends spans through every instance until one whole round of them is
// delivered: bounded liveness after the last fault.
func (k *kafkaSim) recover(limit int64) bool {
	w := k.s.w
	begin := w.Now()
	id := uint64(probeTrace&^0xffff | 1)
	for round := 1; ; round++ {
		want := map[uint64]bool{}
		answered := true
		for _, i := range k.alive() {
			op := &Op{Kind: "post", Inst: i, Fmt: "v2"}
			for j := 0; j < probeCount; j++ {
				op.Spans = append(op.Spans, LSpan{T: id, I: id, P: id, N: "probe", Svc: "probe", TS: uint64(1700000000*sec+w.Now()) / 1000, D: 1000})
				want[id] = true
				id++
			}
			r := &Request{Op: op, Idx: -1}
			body, _, _, _ := buildBody(op)
			cc := &clientConn{}
			k.s.exchange(cc, k.s.insts[i], op, r, body, -1)
			if cc.c != nil {
				cc.c.Close()
			}
			if r.Status != 202 {
				answered = false
				w.Log("probe request %d to instance %d: status %d %s", round, i, r.Status, r.Err)
			}
		}
		w.settle(kafkaLag + holdTime + 6*sec)
		got := 0
		for _, in := range k.s.insts {
			for _, p := range in.agent.Payloads() {
				for _, g := range p.Groups {
					for _, d := range g {
						if want[d.SpanID] && p.Accepted {
							delete(want, d.SpanID)
							got++
						}
					}
				}
			}
		}
		w.Log("probe round %d: %d delivered, %d missing", round, got, len(want))
		if len(want) == 0 && answered {
			w.Probe("recoveries", 1)
			w.Probe("recovery_ms", (w.Now()-begin)/ms)
			return true
		}
		if w.Now()-begin > limit {
			w.Report("wedge", "%ds after the last fault %d of %d spans sent to the instances are still not delivered (all requests answered: %v)",
				(w.Now()-begin)/sec, len(want), probeCount*len(k.alive()), answered)
			return false
		}
	}
}

// checkKafka verifies what all agents got.
func (s *System) checkKafka() {
	all := s.reqs
	s.reqs = nil
	for _, r := range all {
		if r.Op.M != 0 {
			s.reqs = append(s.reqs, r)
		}
	}
	s.checkRequests()
	s.reqs = all
	v := s.view(-1)
	for _, t := range v.traces {
		for _, src := range append(append([]spanSrc(nil), t.sure...), t.maybe...) {
			if src.req.Op.M == 0 {
				t.loose = true
			}
		}
	}
	for _, in := range s.insts {
		v.attach(in.agent.Payloads())
	}
	v.checkTraces(true)
	v.checkBatches(true)
	v.spread()
}

// spread counts the traces whose spans came through several instances.
func (v *sysView) spread() {
	for _, t := range v.traces {
		in := map[int]bool{}
		for _, s := range t.sure {
			in[s.req.Op.Inst] = true
		}
		if len(in) > 1 && !t.loose {
			v.s.w.Probe("traces_over_several_instances", 1)
		}
	}
}

var _ = proxy.Span{}
var _ http.Handler
var _ os.Signal
