//go:build go1.22

package main

import (
	"bytes"
	"context"
	"errors"
	"math"
	"runtime"
	"sync"
	"time"

	"github.com/Shopify/sarama"

	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Scenario "consume": the real balance.Consume on top of
//
//	group=0  a consumer group made by the harness, with sessions of any
//	         length, failures and redelivery from the marked offsets
//	group=1  sarama's consumer group on the simulated cluster
//
// In both cases the group is wrapped, so that sessions, claims, messages and
// marks are seen by the harness.
//
// Ops:    msg   At, Inst = partition, M = seed of the span, D = shape, Raw = these bytes instead
// Faults: consume_error  From..To: calls of Consume fail, Arg = after this time
//         session_end    From: the running session ends (rebalance)
//         and those of the kafka scenario (group=1)

func init() {
	scenarios["consume"] = runConsume
	generators["P13"] = genConsume
}

type conMsg struct {
	part   int32
	offset int64
	value  []byte
	bad    bool // cannot be decoded
	span   proxy.Span
	calls  int
}

type conClaim struct {
	sess     *conSession
	part     int32
	inner    sarama.ConsumerGroupClaim
	out      chan *sarama.ConsumerMessage
	taken    []*conMsg // handed to the claim loop, in order
	next     int       // first of them that was not handed on
	running  int       // callbacks
	finished map[int64]bool
	marked   int64 // offset after the last mark, -1: none
	returned bool
	closed   bool // the channel ended before
}

type conSession struct {
	sarama.ConsumerGroupSession
	w      *conWatch
	no     int
	claims map[int32]*conClaim
	cm     sync.Mutex
	ended  bool
}

// conWatch observes one consumer.
type conWatch struct {
	w        *World
	inner    sarama.ConsumerGroup
	msgs     map[int32][]*conMsg
	byId     map[proxy.Id]*conMsg
	sessions int
	cur      *conSession
	calls    []int64 // times at which Consume was called
	failed   []int64 // times at which it returned an error
	active   int
	closing  bool
	closed   bool
	callback func(*conMsg)
	stable   int64 // time of the last change
}

func (c *conWatch) Errors() <-chan error { return c.inner.Errors() }
func (c *conWatch) Close() error         { return c.inner.Close() }

func (c *conWatch) Consume(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
	now := c.w.Now()
	c.calls = append(c.calls, now)
	if c.active > 0 {
		c.w.Report("session", "Consume is called while another call is running")
	}
	if len(topics) != 1 || topics[0] != kafkaTopic {
		c.w.Report("session", "Consume is called for the topics %q", topics)
	}
	if c.closed {
		c.w.Report("shutdown", "Consume is called after the consumer was closed")
	}
	c.active++
	err := c.inner.Consume(ctx, topics, &conHandler{h: h, w: c})
	c.active--
	if err != nil {
		c.w.Probe("consume_errors", 1)
		now = c.w.Now()
		c.failed = append(c.failed, now)
		if k := len(c.failed) - 200; k >= 0 && now-c.failed[k] < 4*sec {
			c.w.Report("session", "200 sessions failed within %dms: the consumer retries without a pause", (now-c.failed[k])/ms)
			c.w.Finish()
		}
	}
	c.w.Log("Consume ends with error %v", err != nil)
	return err
}

type conHandler struct {
	h    sarama.ConsumerGroupHandler
	w    *conWatch
	sess *conSession
	done bool
}

func (h *conHandler) Setup(s sarama.ConsumerGroupSession) error {
	h.w.sessions++
	h.sess = &conSession{ConsumerGroupSession: s, w: h.w, no: h.w.sessions, claims: map[int32]*conClaim{}}
	h.w.cur = h.sess
	h.w.w.Log("session %d with %d partitions", h.sess.no, len(s.Claims()[kafkaTopic]))
	h.w.w.Probe("sessions", 1)
	err := h.h.Setup(h.sess)
	if err != nil {
		h.w.w.Report("session", "Setup fails: %v", err)
	}
	return err
}

func (h *conHandler) Cleanup(s sarama.ConsumerGroupSession) error {
	h.w.w.Log("session %d is over", h.sess.no)
	return h.h.Cleanup(h.sess)
}

func (h *conHandler) ConsumeClaim(s sarama.ConsumerGroupSession, inner sarama.ConsumerGroupClaim) error {
	c := &conClaim{sess: h.sess, part: inner.Partition(), inner: inner, out: make(chan *sarama.ConsumerMessage), marked: -1, finished: map[int64]bool{}}
	h.sess.cm.Lock()
	h.sess.claims[c.part] = c
	h.sess.cm.Unlock()
	quit := make(chan bool)
	go func() {
		defer close(c.out)
		for m := range inner.Messages() {
			list := h.w.msgs[c.part]
			if m.Offset >= int64(len(list)) {
				trouble("message %d/%d is not known", c.part, m.Offset)
			}
			cm := list[m.Offset]
			c.taken = append(c.taken, cm)
			select {
			case c.out <- m:
			case <-quit:
				c.taken = c.taken[:len(c.taken)-1]
				for range inner.Messages() {
				}
				return
			}
		}
		c.closed = true
	}()
	err := h.h.ConsumeClaim(h.sess, c)
	c.returned = true
	ended := s.Context().Err() != nil
	if !c.closed && !ended {
		h.w.w.Report("session", "the claim of partition %d returned (error: %v) although its session goes on", c.part, err != nil)
	}
	if c.closed {
		c.check("at the end of its claim")
	}
	close(quit)
	return err
}

func (c *conClaim) Topic() string                            { return c.inner.Topic() }
func (c *conClaim) Partition() int32                         { return c.part }
func (c *conClaim) InitialOffset() int64                     { return c.inner.InitialOffset() }
func (c *conClaim) HighWaterMarkOffset() int64               { return c.inner.HighWaterMarkOffset() }
func (c *conClaim) Messages() <-chan *sarama.ConsumerMessage { return c.out }

// check: every message taken was handed on and marked.
func (c *conClaim) check(when string) {
	last := int64(-1)
	for i, m := range c.taken {
		if m.bad {
			continue
		}
		if i >= c.next {
			c.sess.w.w.Report("lost", "message %d/%d of session %d was not handed on %s", m.part, m.offset, c.sess.no, when)
			return
		}
		last = m.offset
	}
	if last >= 0 && last >= c.marked {
		c.sess.w.w.Report("mark", "message %d/%d of session %d was handed on but is not marked %s", c.part, last, c.sess.no, when)
	}
}

// handOn is the callback of the consumer.
func (c *conWatch) handOn(span proxy.Span) {
	got := copySpan(span)
	m := c.byId[got.Id]
	if m == nil {
		c.w.Report("foreign", "a span is handed on that no message holds: %s of trace %s", got.Id, got.Trace)
		return
	}
	if d := diffSpan(got, m.span); d != "" {
		c.w.Report("field", "message %d/%d is handed on with %s", m.part, m.offset, d)
	}
	if c.closed {
		c.w.Report("shutdown", "message %d/%d is handed on after the consumer was closed", m.part, m.offset)
	}
	var cl *conClaim
	if c.cur != nil {
		cl = c.cur.claims[m.part]
	}
	if cl == nil {
		c.w.Report("session", "message %d/%d is handed on outside of a session", m.part, m.offset)
		return
	}
	at := -1
	for i := cl.next; i < len(cl.taken); i++ {
		if cl.taken[i] == m {
			at = i
			break
		}
	}
	if at < 0 {
		for i := 0; i < cl.next; i++ {
			if cl.taken[i] == m {
				c.w.Report("dup", "message %d/%d is handed on again, or after a later one, in session %d", m.part, m.offset, c.cur.no)
				return
			}
		}
		c.w.Report("session", "message %d/%d is handed on although session %d did not get it", m.part, m.offset, c.cur.no)
		return
	}
	for i := cl.next; i < at; i++ {
		if !cl.taken[i].bad {
			c.w.Report("lost", "message %d/%d is handed on before or without %d/%d in session %d", m.part, m.offset, m.part, cl.taken[i].offset, c.cur.no)
			return
		}
	}
	cl.next = at + 1
	m.calls++
	c.w.Probe("handed_on", 1)
	if m.calls > 1 {
		c.w.Probe("handed_on_again", 1)
	}
	c.stable = c.w.Now()
	c.w.Log("session %d: %d/%d", c.cur.no, m.part, m.offset)
	c.callback(m)
	c.stable = c.w.Now()
	cl.finished[m.offset] = true
}

// mark checks a mark up to (excluding) the offset.
func (s *conSession) mark(part int32, upto int64) {
	c := s.claims[part]
	if c == nil {
		s.w.w.Report("mark", "partition %d is marked in session %d that does not have it", part, s.no)
		return
	}
	for _, m := range c.taken {
		if m.offset < upto && !m.bad && !c.finished[m.offset] {
			s.w.w.Report("mark", "offset %d of partition %d is marked although message %d was not handed on completely", upto, part, m.offset)
			return
		}
	}
	if n := len(c.taken); n == 0 || upto > c.taken[n-1].offset+1 {
		s.w.w.Report("mark", "offset %d of partition %d is marked although later messages were not seen", upto, part)
	}
	if upto > c.marked {
		c.marked = upto
	}
	s.w.w.Probe("marks", 1)
}

func (s *conSession) MarkOffset(topic string, part int32, offset int64, meta string) {
	s.mark(part, offset)
	s.ConsumerGroupSession.MarkOffset(topic, part, offset, meta)
}

func (s *conSession) MarkMessage(m *sarama.ConsumerMessage, meta string) {
	s.mark(m.Partition, m.Offset+1)
	s.ConsumerGroupSession.MarkMessage(m, meta)
}

// ------------------------------------------------------------ harness group

type fakeGroup struct {
	w     *World
	watch *conWatch
	base  int64
	parts int
	comm  []int64 // committed offsets
	end   chan bool
	gen   int32
	wake  chan bool
	errs  chan error
}

func (g *fakeGroup) Errors() <-chan error { return g.errs }
func (g *fakeGroup) Close() error         { return nil }

var errConsume = errors.New("simulated session failure")

func (g *fakeGroup) Consume(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
	now := g.w.Now() - g.base
	for i := range g.w.Plan.Faults {
		f := &g.w.Plan.Faults[i]
		if f.Kind == "consume_error" && f.From <= now && now < f.To {
			g.w.Fire("consume_error")
			select {
			case <-ctx.Done():
			case <-time.After(time.Duration(f.Arg)):
			}
			return pick[error](NewRng(uint64(now)), errConsume, sarama.ErrOutOfBrokers, context.DeadlineExceeded, sarama.ErrNotCoordinatorForConsumer)
		}
	}
	r := NewRng(g.w.Plan.Seed ^ uint64(len(g.watch.calls))<<20)
	if ctx.Err() != nil {
		return nil
	}
	// joining takes some time
	select {
	case <-ctx.Done():
		return nil
	case <-time.After(time.Duration(r.Range64(1, g.w.Plan.Knob("join", 300*ms)))):
	}
	g.gen++
	sctx, cancel := context.WithCancel(ctx)
	defer cancel()
	s := &fakeSession{g: g, ctx: sctx, gen: g.gen}
	for p := 0; p < g.parts; p++ {
		if int64(p) >= g.w.Plan.Knob("foreign_parts", 0) || g.gen%2 == 0 {
			s.parts = append(s.parts, int32(p))
			s.marked = append(s.marked, g.comm[p])
		}
	}
	if err := h.Setup(s); err != nil {
		h.Cleanup(s)
		return err
	}
	end := make(chan bool)
	g.end = end
	go func() {
		select {
		case <-sctx.Done():
		case <-end:
			cancel()
		}
	}()
	var wg sync.WaitGroup
	for i, p := range s.parts {
		cl := &fakeClaim{part: p, from: s.marked[i], ch: make(chan *sarama.ConsumerMessage, int(g.w.Plan.Knob("kafka_buffer", 64)))}
		wg.Add(2)
		go func() { // the broker's side
			defer wg.Done()
			defer close(cl.ch)
			for off := cl.from; ; off++ {
				for int(off) >= len(g.watch.msgs[p]) {
					wake := g.wake
					select {
					case <-sctx.Done():
						return
					case <-wake:
					}
				}
				m := g.watch.msgs[p][off]
				select {
				case <-sctx.Done():
					return
				case cl.ch <- &sarama.ConsumerMessage{Topic: kafkaTopic, Partition: p, Offset: off, Value: append([]byte(nil), m.value...)}:
				}
			}
		}()
		go func() {
			defer wg.Done()
			h.ConsumeClaim(s, cl)
			cancel() // as sarama does: the first claim to return ends the session
			for range cl.ch {
			}
		}()
	}
	wg.Wait()
	h.Cleanup(s)
	lose := r.P(int(g.w.Plan.Knob("lose_commit", 0)))
	for i, p := range s.parts {
		if !lose && s.marked[i] > g.comm[p] {
			g.comm[p] = s.marked[i]
		}
	}
	if lose {
		g.w.Fire("commit_lost")
	}
	if r.P(int(g.w.Plan.Knob("end_error", 0))) {
		g.w.Fire("session_error")
		return errConsume
	}
	return nil
}

type fakeSession struct {
	g      *fakeGroup
	ctx    context.Context
	gen    int32
	parts  []int32
	marked []int64
}

func (s *fakeSession) Claims() map[string][]int32 { return map[string][]int32{kafkaTopic: s.parts} }
func (s *fakeSession) MemberID() string           { return "member" }
func (s *fakeSession) GenerationID() int32        { return s.gen }
func (s *fakeSession) Context() context.Context   { return s.ctx }
func (s *fakeSession) MarkOffset(topic string, part int32, offset int64, meta string) {
	for i, p := range s.parts {
		if p == part && offset > s.marked[i] {
			s.marked[i] = offset
		}
	}
}
func (s *fakeSession) ResetOffset(topic string, part int32, offset int64, meta string) {
	for i, p := range s.parts {
		if p == part && offset < s.marked[i] {
			s.marked[i] = offset
		}
	}
}
func (s *fakeSession) MarkMessage(m *sarama.ConsumerMessage, meta string) {
	s.MarkOffset(m.Topic, m.Partition, m.Offset+1, meta)
}

type fakeClaim struct {
	part int32
	from int64
	ch   chan *sarama.ConsumerMessage
}

func (c *fakeClaim) Topic() string                            { return kafkaTopic }
func (c *fakeClaim) Partition() int32                         { return c.part }
func (c *fakeClaim) InitialOffset() int64                     { return c.from }
func (c *fakeClaim) HighWaterMarkOffset() int64               { return c.from }
func (c *fakeClaim) Messages() <-chan *sarama.ConsumerMessage { return c.ch }

// ------------------------------------------------------------ the run

func encodeMsg(s proxy.Span) []byte {
	var b bytes.Buffer
	if err := codec.BinaryEncode(s, &b); err != nil {
		trouble("encode: %v", err)
	}
	return b.Bytes()
}

func runConsume(w *World) {
	quietLogs(w)
	simNet(w)
	parts := int(w.Plan.Knob("parts", 4))
	real := w.Plan.Knob("group", 0) == 1
	watch := &conWatch{w: w, msgs: map[int32][]*conMsg{}, byId: map[proxy.Id]*conMsg{}}
	cr := NewRng(w.Plan.Seed ^ 0xca11)
	watch.callback = func(m *conMsg) {
		if d := w.Plan.Knob("callback", 0); d > 0 && cr.P(20) {
			sleepNs(cr.I64(d))
		}
	}
	var c *sarama.SimCluster
	var fake *fakeGroup
	if real {
		c = newCluster(w, int(w.Plan.Knob("brokers", 1)), 1)
		c.CreateTopic(kafkaTopic, parts)
		w.Plan.Knobs["oldest"] = 1
		g, err := sarama.NewConsumerGroupFromClient(kafkaGroup, kafkaClient(w, c, 0))
		if err != nil {
			trouble("consumer group: %v", err)
		}
		watch.inner = g
	} else {
		fake = &fakeGroup{w: w, watch: watch, parts: parts, comm: make([]int64, parts), wake: make(chan bool), errs: make(chan error)}
		watch.inner = fake
	}
	fakeBase := w.Now()
	if fake != nil {
		fake.base = fakeBase
	}
	stop := balance.Consume(watch, kafkaTopic, watch.handOn)
	if real {
		until := w.Now() + 60*sec
		for !c.Settled(kafkaGroup, kafkaTopic, 1) {
			if w.Now() > until {
				w.Report("wedge", "the consumer did not get its partitions within 60s")
				return
			}
			sleepNs(100 * ms)
		}
	}
	base := w.Now()
	last := int64(0)
	k := &kafkaSim{s: &System{w: w}, c: c, base0: base, armed: true}
	if real {
		c.Fault = k.fault
	}
	for i := range w.Plan.Faults {
		f := &w.Plan.Faults[i]
		if f.To > last {
			last = f.To
		}
		if f.From > last {
			last = f.From
		}
		go func() {
			sleepUntil(w, base+f.From)
			switch f.Kind {
			case "consume_error":
			case "session_end":
				if fake != nil && fake.end != nil {
					w.Fire("session_end")
					close(fake.end)
					fake.end = nil
				}
			default:
				k.runFault(f)
			}
		}()
	}
	closeAt := w.Plan.Knob("close_at", 0)
	total := 0
	feed := func() {
		for i := range w.Plan.Ops {
			op := &w.Plan.Ops[i]
			sleepUntil(w, base+op.At)
			part := int32(op.Inst % parts)
			for n := 0; n < int(op.N); n++ {
				m := &conMsg{part: part, offset: int64(len(watch.msgs[part]))}
				if op.Raw != nil {
					m.value = append([]byte(nil), op.Raw...)
					s, err := codec.BinaryDecode(bytes.NewReader(op.Raw))
					if err == nil {
						if watch.byId[s.Id] != nil {
							continue
						}
						m.span = copySpan(s)
						watch.byId[s.Id] = m
					} else {
						m.bad = true
						w.Probe("undecodable", 1)
					}
				} else {
					r := NewRng(uint64(op.M) + uint64(n)<<32)
					m.span = anySpan(r, op.D, proxy.Id(r.U64()))
					if watch.byId[m.span.Id] != nil {
						continue
					}
					watch.byId[m.span.Id] = m
					m.value = encodeMsg(m.span)
				}
				total++
				watch.msgs[part] = append(watch.msgs[part], m)
				if real {
					c.Inject(kafkaTopic, part, nil, m.value)
				} else {
					close(fake.wake)
					fake.wake = make(chan bool)
				}
			}
		}
	}
	shut := func(limit int64) bool {
		begin := w.Now()
		w.Log("closing the consumer")
		done := false
		go func() {
			stop()
			watch.closed = true
			done = true
		}()
		for !done {
			if w.Now()-begin > limit {
				w.Report("shutdown", "the consumer is still not closed after %ds", limit/sec)
				return false
			}
			sleepNs(5 * ms)
		}
		w.Probe("closed", 1)
		w.Probe("closed_ms", (w.Now()-begin)/ms)
		if watch.active > 0 {
			w.Report("shutdown", "a call of Consume is still running after the consumer was closed")
		}
		n := len(watch.calls)
		sleepNs(5 * sec)
		if len(watch.calls) > n {
			w.Report("shutdown", "Consume is called after the consumer was closed")
		}
		return true
	}
	// the longest a claim can take to work off what it holds
	slow := w.Plan.Knob("callback", 0) * (w.Plan.Knob("kafka_buffer", 64)*3 + 20)
	limit := 3*sec + slow + w.Plan.Knob("join", 300*ms)
	if real {
		limit = 90*sec + slow
	}
	if closeAt > 0 {
		go feed()
		sleepUntil(w, base+closeAt)
		w.Fire("close_in_traffic")
		shut(limit)
		return
	}
	feed()
	sleepUntil(w, base+last)
	k.armed = false
	// everything is handed on in the end
	pending := func() *conMsg {
		for p := 0; p < parts; p++ {
			for _, m := range watch.msgs[int32(p)] {
				if !m.bad && m.calls == 0 {
					return m
				}
			}
		}
		return nil
	}
	until := w.Now() + 60*sec + slow*int64(total)
	if real && len(w.Plan.Faults) > 0 {
		until += 240 * sec
	}
	if w.Plan.Knob("foreign_parts", 0) > 0 {
		// the other sessions are somebody else's: end them once more
		go func() {
			for {
				sleepNs(20 * sec)
				if fake.end != nil {
					close(fake.end)
					fake.end = nil
				}
			}
		}()
	}
	for m := pending(); m != nil; m = pending() {
		if w.Now() > until {
			w.Report("lost", "message %d/%d was never handed on", m.part, m.offset)
			return
		}
		sleepNs(100 * ms)
	}
	for watch.stable = w.Now(); w.Now()-watch.stable < 2*sec+2*w.Plan.Knob("callback", 0); {
		sleepNs(100 * ms)
	}
	if s := watch.cur; s != nil {
		for p := 0; p < parts; p++ {
			if c := s.claims[int32(p)]; c != nil && !c.returned {
				c.check("while it is idle")
			}
		}
	}
	shut(limit)
	if c != nil {
		for _, e := range c.Errors {
			trouble("kafka: %s", e)
		}
	}
}

// ------------------------------------------------------------ generator

func varint(v int64) []byte {
	u := uint64(v<<1) ^ uint64(v>>63)
	var b []byte
	for u >= 128 {
		b = append(b, byte(u)|128)
		u >>= 7
	}
	return append(b, byte(u))
}

// rawMessage makes a hostile Kafka message.
func rawMessage(r *Rng, max int) []byte {
	big := []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, -1, 1 << 40, 1 << 20, 1 << 30, -(1 << 40)}
	head := func() []byte { // up to the name
		return append(append(varint(anyInt(r)), varint(anyInt(r))...), varint(anyInt(r))...)
	}
	str := func(n int) []byte { return append(varint(int64(n)), longText(r.U64(), n)...) }
	times := func() (b []byte) {
		for i := 0; i < 6; i++ {
			b = append(b, varint(anyInt(r))...)
		}
		return b
	}
	full := func() []byte {
		return append(append(append(head(), str(r.N(20))...), str(r.N(20))...), times()...)
	}
	switch r.N(9) {
	case 0:
		b := make([]byte, r.N(200))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case 1: // a string that is longer than the message
		b := append(head(), varint(pick(r, pick(r, big...), r.I64(100000), 9))...)
		return append(b, longText(r.U64(), r.N(20))...)
	case 2: // numbers that never end
		b := head()[:r.N(4)]
		return append(b, bytes.Repeat([]byte{byte(pick(r, 0x80, 0xff, 0x81))}, r.Range(1, max))...)
	case 3: // extreme blocks of tags
		b := append(full(), varint(pick(r, big...))...)
		if r.P(50) {
			b = append(b, varint(pick(r, big...))...)
		}
		for n := r.N(20); n > 0; n-- {
			b = append(append(b, str(r.N(5))...), str(r.N(5))...)
		}
		return b
	case 4: // many empty or tiny tags
		n := r.Range(1, max/2)
		b := append(full(), varint(int64(pick(r, n, n*2, 1<<40)))...)
		b = append(b, bytes.Repeat(pick(r, []byte{0}, []byte{2, 'a'}, []byte{0, 2, 'b'}), n)...)
		return append(b, 0)
	case 5: // many blocks
		b := full()
		for n := r.Range(1, max/8); n > 0; n-- {
			b = append(b, varint(pick(r, int64(1), -1, 1))...)
			if r.P(50) {
				b = append(b, varint(anyInt(r))...)
			}
			b = append(append(b, str(1)...), str(1)...)
		}
		return append(b, 0)
	case 6: // many different tags
		b := append(full(), varint(int64(pick(r, max/4, max, 10)))...)
		for n := 0; n < max/6; n++ {
			b = append(append(b, str(2)...), str(1)...)
		}
		return append(b, 0)
	}
	s := encodeMsg(anySpan(r, int64(pick(r, 0, 1, 2)), proxy.Id(r.U64())))
	for n := r.Range(1, 4); n > 0 && len(s) > 0; n-- {
		i := r.N(len(s))
		switch r.N(5) {
		case 0:
			s = s[:i]
		case 1:
			s[i] ^= 1 << r.N(8)
		case 2:
			s = append(s[:i:i], append(varint(pick(r, big...)), s[i:]...)...)
		case 3:
			s = append(s[:i:i], s[min(len(s), i+r.N(30)):]...)
		case 4:
			j := r.N(len(s))
			s = append(s[:i:i], s[j:]...)
		}
	}
	return s
}

func consumeOps(r *Rng, p *Plan, parts int, span int64, badPct int) {
	at := int64(0)
	gap := pick(r, 0, span/50, span/20)
	for k := r.Range(3, 60); k > 0; k-- {
		op := Op{Kind: "msg", At: at, Inst: r.N(parts), M: int64(r.U64() >> 40), D: int64(pick(r, 0, 0, 1, 2)), N: int64(pick(r, 1, 1, r.Range(1, 10)))}
		if r.P(badPct) {
			op.Raw = rawMessage(r, pick(r, 30, 300, 3000))
			if op.Raw == nil {
				op.Raw = []byte{}
			}
		}
		p.Ops = append(p.Ops, op)
		if at += r.I64(2*gap + 1); at > span {
			at = span
		}
	}
}

func genConsume(r *Rng, p *Plan) {
	p.Scenario = "consume"
	p.Sched.YieldMean = pick(r, uint32(1), 3, 10, 40, 200)
	parts := pick(r, 1, 2, 3, 5, 12)
	p.Knobs["parts"] = int64(parts)
	p.Knobs["kafka_buffer"] = pick(r, int64(0), 1, 5, 64)
	if r.P(50) {
		p.Knobs["callback"] = pick(r, ms, 20*ms, 300*ms)
	}
	span := pick(r, 500*ms, 3*sec, 12*sec)
	consumeOps(r, p, parts, span, pick(r, 0, 10, 40))
	if r.P(40) {
		p.Knobs["close_at"] = r.Range64(1, span+2*sec)
	}
	if r.P(60) {
		p.Knobs["join"] = pick(r, ms, 50*ms, 300*ms, 2*sec)
		p.Knobs["lose_commit"] = pick(r, int64(0), 0, 30)
		p.Knobs["end_error"] = pick(r, int64(0), 20, 80)
		if r.P(30) {
			p.Knobs["foreign_parts"] = r.Range64(1, int64(parts))
		}
		for k := r.N(5); k > 0; k-- {
			p.Faults = append(p.Faults, Fault{Kind: "session_end", From: r.I64(span + sec)})
		}
		for k := r.N(3); k > 0; k-- {
			from := r.I64(span + sec)
			p.Faults = append(p.Faults, Fault{Kind: "consume_error", From: from, To: from + pick(r, r.I64(sec), r.I64(20*sec)), Arg: pick(r, 0, 0, r.I64(sec))})
		}
		return
	}
	p.Knobs["group"] = 1
	b := r.Range(1, 2)
	p.Knobs["brokers"] = int64(b)
	p.Knobs["rebalance_delay"] = pick(r, 0, 500*ms)
	if r.P(40) {
		p.Knobs["kafka_latency"] = r.I64(30 * ms)
		p.Knobs["kafka_jitter"] = r.I64(30 * ms)
	}
	for k := r.N(4); k > 0; k-- {
		from := r.I64(span + sec)
		f := Fault{Kind: "rebalance", From: from, To: from}
		if r.P(40) {
			f = Fault{Node: r.Range(-1, b-1), Inst: -1, From: from, To: from + pick(r, r.I64(2*sec), r.I64(20*sec))}
			if r.P(50) {
				f.Kind, f.S = "kafkalink", pick(r, "refuse", "blackhole", "partition")
			} else {
				f.Kind, f.S = "broker", pick(r, "close", "error", "slow", "error/1", "error/12", "error/11", "error/14", "close/12", "hang/12")
				f.Arg = r.Range64(1, sec)
			}
		}
		p.Faults = append(p.Faults, f)
	}
}

var _ = runtime.Gosched
