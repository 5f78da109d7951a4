//go:build go1.22

package main

import (
	"bytes"
	"math"
	"sort"
	"time"

	"github.com/Shopify/sarama"

	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "publish": several real balance.Senders put spans on a topic of the
// simulated Kafka cluster, and a real balance.Consume takes them off again.
// The log of the cluster and the consumer's callback are compared with what
// was sent.
//
// Ops: pub  At, Inst = sender, Conn = thread, N = number of spans, M = seed, D = shape

func init() {
	scenarios["publish"] = runPublish
	generators["P12"] = genPublish
}

func kafkaConfig(w *World) *sarama.Config {
	c := sarama.NewConfig() // as main.go sets it up
	c.Version = sarama.V1_1_1_0
	c.Consumer.Fetch.Min = 128 * 1024
	c.Consumer.Fetch.Max = 1024 * 1024
	c.Consumer.MaxWaitTime = time.Second
	c.Producer.RequiredAcks = sarama.RequiredAcks(w.Plan.Knob("acks", 0))
	c.Producer.Flush.Frequency = time.Duration(w.Plan.Knob("flush_every", sec))
	c.Producer.Flush.MaxMessages = int(w.Plan.Knob("flush_max", 0))
	c.Producer.MaxMessageBytes = 768 * 1024
	if w.Plan.Knob("oldest", 0) == 1 {
		c.Consumer.Offsets.Initial = sarama.OffsetOldest
	}
	c.ChannelBufferSize = int(w.Plan.Knob("kafka_buffer", 64))
	return c
}

func kafkaClient(w *World, c *sarama.SimCluster, id int) sarama.Client {
	var addrs []string
	for b := 0; b < c.Brokers; b++ {
		addrs = append(addrs, c.Addr(b, id))
	}
	cl, err := sarama.NewClient(addrs, kafkaConfig(w))
	if err != nil {
		trouble("kafka client: %v", err)
	}
	return cl
}

func anyInt(r *Rng) int64 {
	switch r.N(8) {
	case 0:
		return pick(r, int64(0), 1, -1, 63, 64, -64, -65, 127, 128)
	case 1:
		return pick(r, int64(math.MaxInt64), math.MinInt64, math.MaxInt64-1, math.MinInt64+1, 1<<62, -1<<62, 1<<32, -1<<31)
	case 2:
		return int64(r.U64() >> r.N(64))
	case 3:
		return -int64(r.U64() >> (1 + r.N(62)))
	}
	return int64(r.U64())
}

func anyText(r *Rng, max int) string {
	switch r.N(6) {
	case 0:
		return ""
	case 1:
		return pick(r, words...)
	case 2:
		return pick(r, wild...)
	}
	b := make([]byte, r.Range(1, max))
	for i := range b {
		if r.P(10) {
			b[i] = byte(r.U64())
		} else {
			b[i] = "abcdefghijklmnopqrstuvwxyz"[r.N(26)]
		}
	}
	return string(b)
}

// anySpan makes a span of any value. Shapes: 0 small, 1 around the size of
// the publisher's slots, 2 any, 3 large.
func anySpan(r *Rng, shape int64, trace proxy.Id) proxy.Span {
	s := proxy.Span{Id: proxy.Id(r.U64()), Trace: trace}
	stamp := func() proxy.Timestamp {
		if shape != 0 && r.P(40) {
			return proxy.Timestamp(anyInt(r))
		}
		if r.P(50) {
			return 0
		}
		return proxy.Timestamp(1700000000*sec + r.I64(1000*sec))
	}
	s.Parent = pick(r, 0, s.Id, trace, proxy.Id(anyInt(r)))
	s.Timestamp = stamp()
	s.Duration = time.Duration(r.I64(10 * sec))
	if shape != 0 && r.P(30) {
		s.Duration = time.Duration(anyInt(r))
	}
	s.Timings.CS, s.Timings.CR, s.Timings.SS, s.Timings.SR = stamp(), stamp(), stamp(), stamp()
	tags := func(n, max int) {
		if n > 0 || r.P(50) {
			s.Tags = map[string]string{}
		}
		for ; n > 0; n-- {
			s.Tags[anyText(r, max)] = anyText(r, max)
		}
	}
	switch shape {
	case 0:
		s.Name, s.Service = pick(r, words...), pick(r, services...)
		if r.P(30) {
			s.Tags = map[string]string{"a": pick(r, words...)}
		}
	case 1:
		s.Name = anyText(r, 20)
		s.Service = anyText(r, 20)
		n := r.Range(300, 520)
		if r.P(70) {
			n = r.Range(400, 460)
		}
		s.Tags = map[string]string{"x": longText(uint64(s.Id), n)}
		if r.P(50) {
			s.Tags[anyText(r, 10)] = anyText(r, 30)
		}
	case 2:
		s.Name, s.Service = anyText(r, 300), anyText(r, 300)
		tags(r.N(12), pick(r, 5, 50, 300))
	default:
		s.Name = longText(uint64(s.Id), r.Range(0, 40000))
		s.Service = anyText(r, 30)
		tags(r.N(4), 2000)
		if r.P(30) {
			if s.Tags == nil {
				s.Tags = map[string]string{}
			}
			s.Tags["big"] = longText(uint64(s.Id)+1, r.Range(30000, 600000))
		}
		if r.P(10) {
			for n := r.Range(100, 2000); n > 0; n-- {
				s.Tags = put(s.Tags, "tag"+itoa(n), itoa(r.N(100)))
			}
		}
	}
	return s
}

func put(m map[string]string, k, v string) map[string]string {
	if m == nil {
		m = map[string]string{}
	}
	m[k] = v
	return m
}

type published struct {
	span    proxy.Span
	records int
	calls   int
}

func runPublish(w *World) {
	quietLogs(w)
	simNet(w)
	senders := int(w.Plan.Knob("senders", 1))
	parts := int(w.Plan.Knob("parts", 12))
	c := newCluster(w, int(w.Plan.Knob("brokers", 1)), senders+1)
	c.CreateTopic(kafkaTopic, parts)

	sent := map[proxy.Id]*published{}
	callbackMs := w.Plan.Knob("callback_us", 0)
	callbacks := 0
	var order []proxy.Id

	var group sarama.ConsumerGroup
	var stop func()
	group, err := sarama.NewConsumerGroupFromClient(kafkaGroup, kafkaClient(w, c, senders))
	if err != nil {
		trouble("consumer group: %v", err)
	}
	stop = balance.Consume(group, kafkaTopic, func(span proxy.Span) {
		if callbackMs > 0 {
			sleepNs(callbackMs * 1000)
		}
		callbacks++
		got := copySpan(span)
		p := sent[got.Id]
		if p == nil {
			w.Report("foreign", "the consumer hands on a span nobody sent: %s of trace %s, name %.60q", got.Id, got.Trace, got.Name)
			return
		}
		if d := diffSpan(got, p.span); d != "" {
			w.Report("field", "span %s of trace %s arrives at the consumer with %s", got.Id, got.Trace, d)
		}
		p.calls++
		if p.calls == 2 {
			w.Report("dup", "span %s of trace %s arrives at the consumer twice", got.Id, got.Trace)
		}
	})
	until := w.Now() + 60*sec
	for !c.Settled(kafkaGroup, kafkaTopic, 1) {
		if w.Now() > until {
			w.Report("wedge", "the consumer did not get its partitions within 60s")
			return
		}
		sleepNs(100 * ms)
	}

	traces := make([]proxy.Id, w.Plan.Knob("traces", 20))
	tr := NewRng(w.Plan.Seed ^ 0x7261)
	for i := range traces {
		for traces[i] == 0 {
			traces[i] = proxy.Id(tr.U64())
			if tr.P(10) {
				traces[i] = proxy.Id(anyInt(tr))
			}
		}
	}
	var inputs []chan proxy.Span
	for i := 0; i < senders; i++ {
		s, err := balance.NewSender(kafkaClient(w, c, i), kafkaTopic)
		if err != nil {
			trouble("sender: %v", err)
		}
		ch := make(chan proxy.Span, 256)
		inputs = append(inputs, ch)
		for n := w.Plan.Knob("send_threads", 1); n > 0; n-- {
			go s.Send(ch)
		}
	}
	base := w.Now()
	for _, f := range w.Plan.Faults {
		go func() {
			sleepUntil(w, base+f.From)
			k := &kafkaSim{s: &System{w: w}, c: c, base0: base}
			k.runFault(&f)
		}()
	}
	threads := map[int][]*Op{}
	var ids []int
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		if threads[op.Conn] == nil {
			ids = append(ids, op.Conn)
		}
		threads[op.Conn] = append(threads[op.Conn], op)
	}
	running := 0
	for _, id := range ids {
		running++
		go func() {
			defer func() { running-- }()
			ops := threads[id]
			sort.SliceStable(ops, func(i, j int) bool { return ops[i].At < ops[j].At })
			for _, op := range ops {
				sleepUntil(w, base+op.At)
				r := NewRng(uint64(op.M))
				for n := op.N; n > 0; n-- {
					s := anySpan(r, op.D, traces[r.N(len(traces))])
					if s.Id == 0 || sent[s.Id] != nil {
						continue
					}
					sent[s.Id] = &published{span: copySpan(s)}
					order = append(order, s.Id)
					inputs[op.Inst%senders] <- s
				}
			}
		}()
	}
	until = w.Now() + 600*sec
	for running > 0 {
		if w.Now() > until {
			w.Report("wedge", "the sender does not take spans any more")
			return
		}
		sleepNs(50 * ms)
	}
	last := base
	for _, f := range w.Plan.Faults {
		if base+f.To > last {
			last = base + f.To
		}
	}
	sleepUntil(w, last)
	moved, seen := w.Now(), 0
	for callbacks < len(order) && w.Now() < moved+25*sec {
		if n := callbacks + len(c.Records(kafkaTopic)); n != seen {
			moved, seen = w.Now(), n
		}
		sleepNs(200 * ms)
	}
	sleepNs(3 * sec)

	// the log
	keys := map[proxy.Id][]byte{}
	where := map[proxy.Id]int32{}
	used := map[int32]bool{}
	for _, rec := range c.Records(kafkaTopic) {
		span, err := codec.BinaryDecode(bytes.NewReader(rec.Value))
		if err != nil {
			w.Report("field", "record %d/%d of %d bytes cannot be decoded: %v", rec.Partition, rec.Offset, len(rec.Value), err)
			continue
		}
		p := sent[span.Id]
		if p == nil {
			w.Report("foreign", "record %d/%d holds a span nobody sent: %s of trace %s, name %.60q", rec.Partition, rec.Offset, span.Id, span.Trace, span.Name)
			continue
		}
		p.records++
		if d := diffSpan(span, p.span); d != "" {
			w.Report("field", "span %s of trace %s is published with %s", span.Id, span.Trace, d)
			continue
		}
		if k, ok := keys[span.Trace]; ok && !bytes.Equal(k, rec.Key) {
			w.Report("key", "spans of trace %s have the keys %x and %x", span.Trace, k, rec.Key)
		}
		keys[span.Trace] = rec.Key
		if q, ok := where[span.Trace]; ok && q != rec.Partition {
			w.Report("key", "spans of trace %s are in the partitions %d and %d", span.Trace, q, rec.Partition)
		}
		where[span.Trace] = rec.Partition
		used[rec.Partition] = true
		w.Probe("published", 1)
		switch n := len(rec.Value); {
		case n > 512:
			w.Probe("published_large", 1)
		case n > 490:
			w.Probe("published_slot_size", 1)
		}
	}
	for _, id := range order {
		p := sent[id]
		switch {
		case p.records == 0:
			w.Report("lost", "span %s of trace %s was handed to the sender but is not in the log", id, p.span.Trace)
		case p.records > 1:
			w.Report("dup", "span %s of trace %s is in the log %d times", id, p.span.Trace, p.records)
		case p.calls == 0:
			w.Report("lost", "span %s of trace %s is in the log but was not handed on by the consumer", id, p.span.Trace)
		}
	}
	if len(where) >= 300 && len(used) < parts {
		w.Report("key", "the %d traces use only %d of %d partitions", len(where), len(used), parts)
	}
	if len(where) >= 300 {
		w.Probe("spread_checked", 1)
	}
	w.Probe("consumed", int64(callbacks))

	begin := w.Now()
	done := false
	go func() {
		stop()
		done = true
	}()
	for !done {
		if w.Now()-begin > 60*sec {
			w.Report("shutdown", "the consumer is still not closed after 60s")
			return
		}
		sleepNs(20 * ms)
	}
	for _, e := range c.Errors {
		trouble("kafka: %s", e)
	}
}

func genPublish(r *Rng, p *Plan) {
	p.Scenario = "publish"
	p.Sched.YieldMean = pick(r, uint32(1), 3, 10, 40, 200)
	p.Sched.PoolMiss = pick(r, uint32(0), 0, 10, 60)
	senders := pick(r, 1, 1, 2, 3)
	p.Knobs["senders"] = int64(senders)
	p.Knobs["send_threads"] = pick(r, int64(1), 1, 2, 4)
	p.Knobs["brokers"] = int64(r.Range(1, 3))
	p.Knobs["parts"] = pick(r, int64(1), 2, 5, 12, 12)
	p.Knobs["acks"] = pick(r, int64(0), 0, 1)
	p.Knobs["flush_every"] = pick(r, 10*ms, sec, sec, 3*sec)
	p.Knobs["flush_max"] = pick(r, int64(0), 0, 1, 10)
	p.Knobs["kafka_buffer"] = pick(r, int64(0), 1, 64, 64)
	p.Knobs["traces"] = pick(r, int64(1), 10, 40, 600)
	p.Knobs["rebalance_delay"] = pick(r, 0, 500*ms)
	if r.P(30) {
		p.Knobs["callback_us"] = r.I64(3000)
	}
	if r.P(40) {
		p.Knobs["kafka_latency"] = r.I64(30 * ms)
		p.Knobs["kafka_jitter"] = r.I64(30 * ms)
	}
	if r.P(30) {
		p.Knobs["kafka_chunk"] = pick(r, int64(300), 1400, 9000)
	}
	p.Knobs["stmt_limit"] = 400_000_000
	threads := r.Range(1, 6)
	many := r.P(30) // enough to use up the publisher's memory
	total := int64(0)
	for t := 1; t <= threads; t++ {
		inst := r.N(senders)
		at := int64(0)
		for k := r.Range(1, 6); k > 0; k-- {
			op := Op{Kind: "pub", Conn: t, Inst: inst, At: at, M: int64(r.U64() >> 20), D: int64(pick(r, 0, 0, 1, 1, 2, 2, 3)), N: int64(r.Range(1, 30))}
			if op.D == 3 {
				op.N = int64(r.Range(1, 4))
			} else if many {
				op.N = int64(r.Range(1, 700))
			}
			if total += op.N; total > 2500 {
				break
			}
			at += pick(r, 0, r.I64(100*ms), r.I64(2*sec))
			p.Ops = append(p.Ops, op)
		}
	}
	if r.P(30) { // everything waits, nothing is lost
		for k := r.Range(1, 3); k > 0; k-- {
			from := r.I64(5 * sec)
			p.Faults = append(p.Faults, Fault{Kind: "kafkalink", S: "partition", Node: r.Range(-1, int(p.Knobs["brokers"])-1), Inst: r.Range(-1, senders), From: from, To: from + r.I64(3*sec)})
		}
	}
}
