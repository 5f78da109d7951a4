package sarama

// A simulated Kafka cluster. It is compiled into a scratch copy of the sarama
// module (see bin/build.py) because it uses its wire codecs; the client code
// of that module is used unchanged.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"sync"
	"time"
)

type SimRecord struct {
	Partition  int32
	Offset     int64
	Key, Value []byte
	At         time.Time
	Client     int // the instance that produced it
	Corrupt    bool
}

type SimFetch struct {
	Began, At time.Time
	Client    int
	Upto      int64 // first offset not handed out
}

type simPartition struct {
	base    int64 // offset of the first record
	records []*SimRecord
	fetches []SimFetch
}

func (p *simPartition) end() int64 { return p.base + int64(len(p.records)) }

// Forget drops everything in the log.
func (c *SimCluster) Forget() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range c.topics {
		for _, p := range t.parts {
			p.base, p.records, p.fetches = p.end(), nil, nil
		}
	}
	c.Commits = nil
}

type simTopic struct {
	name  string
	parts []*simPartition
}

type simMember struct {
	id                string
	client            int
	protocols         map[string][]byte
	session, rebalans time.Duration
	seen              time.Time
	join              chan *JoinGroupResponse
	sync              chan *SyncGroupResponse
	assignment        []byte
	order             int
}

const (
	simEmpty = iota
	simPreparing
	simCompleting
	simStable
)

type simGroup struct {
	state    int
	gen      int32
	members  map[string]*simMember
	leader   string
	protocol string
	deadline time.Time // of the rebalance
	offsets  map[string]map[int32]int64
	since    time.Time // of the current state
}

// SimCluster is a cluster of Brokers brokers; each client instance reaches
// each broker under an address of its own so that links can fail one by one.
type SimCluster struct {
	Brokers, Clients int
	RebalanceDelay   time.Duration // of an empty group
	LogDelay         time.Duration // between produce and visibility
	// Fault tells how a broker treats a request: "", "hang", "close", "error", or "slow" (for arg)
	Fault    func(broker, client int, api int16) (string, time.Duration)
	OnAppend func(*SimRecord)
	Verbose  bool
	Trace    func(format string, args ...interface{})

	mu      sync.Mutex
	topics  map[string]*simTopic
	groups  map[string]*simGroup
	changed chan struct{}
	ids     int
	lis     []net.Listener

	Commits []SimCommit
	Errors  []string // protocol violations by the client
}

type SimCommit struct {
	At        time.Time
	Client    int
	Partition int32
	Offset    int64
}

func (c *SimCluster) Addr(broker, client int) string {
	return fmt.Sprintf("kafka%d-c%d:9092", broker, client)
}

// Start listens on all addresses.
func (c *SimCluster) Start() error {
	c.topics = map[string]*simTopic{}
	c.groups = map[string]*simGroup{}
	c.changed = make(chan struct{})
	for b := 0; b < c.Brokers; b++ {
		for i := 0; i < c.Clients; i++ {
			l, err := net.Listen("tcp", c.Addr(b, i))
			if err != nil {
				return err
			}
			c.lis = append(c.lis, l)
			go func(l net.Listener, b, i int) {
				for {
					conn, err := l.Accept()
					if err != nil {
						return
					}
					go c.serve(conn, b, i)
				}
			}(l, b, i)
		}
	}
	go c.expire()
	return nil
}

func (c *SimCluster) wake() {
	close(c.changed)
	c.changed = make(chan struct{})
}

// CreateTopic adds a topic, as an earlier start of the service did.
func (c *SimCluster) CreateTopic(name string, parts int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.create(name, parts)
}

func (c *SimCluster) create(name string, parts int) bool {
	if c.topics[name] != nil {
		return false
	}
	t := &simTopic{name: name}
	for i := 0; i < parts; i++ {
		t.parts = append(t.parts, &simPartition{})
	}
	c.topics[name] = t
	return true
}

// Inject appends a message of somebody else.
func (c *SimCluster) Inject(topic string, partition int32, key, value []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.topics[topic]
	if t == nil || int(partition) >= len(t.parts) {
		return
	}
	c.append(t, partition, key, value, -1)
	c.wake()
}

func (c *SimCluster) append(t *simTopic, partition int32, key, value []byte, client int) {
	p := t.parts[partition]
	r := &SimRecord{Partition: partition, Offset: p.end(), Key: append([]byte(nil), key...),
		Value: append([]byte(nil), value...), At: time.Now(), Client: client}
	p.records = append(p.records, r)
	if c.Verbose {
		c.trace("kafka: client %d appends %s/%d@%d", client, t.name, partition, r.Offset)
	}
	if c.OnAppend != nil {
		c.OnAppend(r)
	}
}

// Records lists everything in the log of a topic.
func (c *SimCluster) Records(topic string) []*SimRecord {
	c.mu.Lock()
	defer c.mu.Unlock()
	var res []*SimRecord
	if t := c.topics[topic]; t != nil {
		for _, p := range t.parts {
			res = append(res, p.records...)
		}
	}
	return res
}

// Partitions is the number of partitions of a topic.
func (c *SimCluster) Partitions(topic string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t := c.topics[topic]; t != nil {
		return len(t.parts)
	}
	return 0
}

// Owner tells which client fetched the record first, and when.
func (c *SimCluster) Owner(topic string, r *SimRecord) (int, time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.topics[topic].parts[r.Partition].fetches {
		if f.Upto > r.Offset {
			return f.Client, f.At
		}
	}
	return -1, time.Time{}
}

// Settled: the group is stable with n members and each partition is being
// fetched by its owner: fetches of earlier owners have ended long ago.
func (c *SimCluster) Settled(group, topic string, n int) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	g, t := c.groups[group], c.topics[topic]
	if g == nil || t == nil || g.state != simStable || len(g.members) != n {
		return false
	}
	for _, p := range t.parts {
		if k := len(p.fetches); k == 0 || p.fetches[k-1].Began.Before(g.since.Add(3*time.Second)) {
			return false
		}
	}
	return true
}

// Members lists the clients in the group.
func (c *SimCluster) Members(group string) []int {
	c.mu.Lock()
	defer c.mu.Unlock()
	var res []int
	if g := c.groups[group]; g != nil {
		for _, m := range g.members {
			res = append(res, m.client)
		}
	}
	sort.Ints(res)
	return res
}

// ForgetMembers is a restart of the group's coordinator.
func (c *SimCluster) ForgetMembers() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, g := range c.groups {
		for _, m := range g.members {
			c.drop(g, m)
		}
		g.state = simEmpty
		g.since = time.Now()
	}
}

// LoseTail removes the last n records of a partition: unflushed data of a
// crashed broker. Only records nobody has fetched go.
func (c *SimCluster) LoseTail(topic string, n int) (lost int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.topics[topic]
	if t == nil {
		return 0
	}
	for _, p := range t.parts {
		seen := int64(0)
		for _, f := range p.fetches {
			if f.Upto > seen {
				seen = f.Upto
			}
		}
		for k := 0; k < n && len(p.records) > 0 && p.end() > seen; k++ {
			p.records = p.records[:len(p.records)-1]
			lost++
		}
	}
	return lost
}

// Rebalance makes all members of all groups rejoin.
func (c *SimCluster) Rebalance() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, g := range c.groups {
		if g.state == simStable || g.state == simCompleting {
			c.prepare(g)
		}
	}
}

func (c *SimCluster) trace(format string, args ...interface{}) {
	if c.Trace != nil {
		c.Trace(format, args...)
	}
}

// ------------------------------------------------------------ connections

func (c *SimCluster) serve(conn net.Conn, broker, client int) {
	defer conn.Close()
	for {
		var size [4]byte
		if _, err := io.ReadFull(conn, size[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(size[:])
		if n > 64<<20 {
			c.fail("request of %d bytes", n)
			return
		}
		raw := make([]byte, 4+n)
		copy(raw, size[:])
		if _, err := io.ReadFull(conn, raw[4:]); err != nil {
			return
		}
		req, _, err := decodeRequest(bytes.NewReader(raw))
		if err != nil {
			c.fail("request cannot be decoded: %v", err)
			return
		}
		mode, arg := "", time.Duration(0)
		if c.Fault != nil {
			mode, arg = c.Fault(broker, client, req.body.key())
		}
		switch mode {
		case "hang":
			io.Copy(io.Discard, conn) // until the client gives up
			return
		case "close":
			if c.Verbose {
				c.trace("kafka: broker %d client %d %T close", broker, client, req.body)
			}
			return
		case "slow":
			time.Sleep(arg)
		}
		res := c.handle(req.body, broker, client, mode == "error")
		if c.Verbose {
			c.trace("kafka: broker %d client %d %T %s -> %s", broker, client, req.body, mode, simErrs(res))
		}
		switch res.(type) {
		case nil:
			continue // a produce request that wants no answer
		case simClose:
			return
		}
		body, err := encode(res, nil)
		if err != nil {
			c.fail("response cannot be encoded: %v", err)
			return
		}
		out := make([]byte, 8, 8+len(body))
		binary.BigEndian.PutUint32(out, uint32(4+len(body)))
		binary.BigEndian.PutUint32(out[4:], uint32(req.correlationID))
		if _, err := conn.Write(append(out, body...)); err != nil {
			return
		}
	}
}

func (c *SimCluster) fail(format string, args ...interface{}) {
	c.mu.Lock()
	c.Errors = append(c.Errors, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

func (c *SimCluster) leads(broker int, partition int32) bool {
	return int(partition)%c.Brokers == broker
}

// simClose as an answer closes the connection.
type simClose struct{}

func (simClose) encode(packetEncoder) error { return nil }

// handle executes a request.
func (c *SimCluster) handle(body protocolBody, broker, client int, bad bool) encoder {
	switch r := body.(type) {
	case *MetadataRequest:
		return c.metadata(r, client, bad)
	case *CreateTopicsRequest:
		res := &CreateTopicsResponse{Version: r.Version, TopicErrors: map[string]*TopicError{}}
		c.mu.Lock()
		defer c.mu.Unlock()
		for name, d := range r.TopicDetails {
			e := ErrNoError
			switch {
			case bad:
				e = ErrRequestTimedOut
			case d.NumPartitions < 1:
				e = ErrInvalidPartitions
			case !c.create(name, int(d.NumPartitions)):
				e = ErrTopicAlreadyExists
			}
			res.TopicErrors[name] = &TopicError{Err: e}
		}
		return res
	case *FindCoordinatorRequest:
		if bad {
			return &FindCoordinatorResponse{Version: r.Version, Err: ErrConsumerCoordinatorNotAvailable}
		}
		return &FindCoordinatorResponse{Version: r.Version, Coordinator: c.node(0, client)}
	case *ProduceRequest:
		return c.produce(r, broker, client, bad)
	case *FetchRequest:
		return c.fetch(r, broker, client, bad)
	case *OffsetRequest:
		return c.listOffsets(r, broker, bad)
	case *JoinGroupRequest:
		if bad || broker != 0 {
			return &JoinGroupResponse{Version: r.Version, Err: ErrNotCoordinatorForConsumer, MemberId: r.MemberId}
		}
		return c.joinGroup(r, client)
	case *SyncGroupRequest:
		if bad || broker != 0 {
			return &SyncGroupResponse{Err: ErrNotCoordinatorForConsumer}
		}
		return c.syncGroup(r)
	case *HeartbeatRequest:
		if bad || broker != 0 {
			return &HeartbeatResponse{Err: ErrNotCoordinatorForConsumer}
		}
		return c.heartbeat(r)
	case *LeaveGroupRequest:
		if bad || broker != 0 {
			return &LeaveGroupResponse{Err: ErrNotCoordinatorForConsumer}
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		g := c.groups[r.GroupId]
		if g == nil || g.members[r.MemberId] == nil {
			return &LeaveGroupResponse{Err: ErrUnknownMemberId}
		}
		c.drop(g, g.members[r.MemberId])
		c.prepare(g)
		return &LeaveGroupResponse{}
	case *OffsetFetchRequest:
		return c.offsetFetch(r, broker, bad)
	case *OffsetCommitRequest:
		return c.offsetCommit(r, broker, client, bad)
	}
	c.fail("unexpected request %T", body)
	return simClose{}
}

func (c *SimCluster) node(broker, client int) *Broker {
	return &Broker{id: int32(broker + 1), addr: c.Addr(broker, client)}
}

func (c *SimCluster) metadata(r *MetadataRequest, client int, bad bool) encoder {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &MetadataResponse{Version: r.Version, ControllerID: 1}
	for b := 0; b < c.Brokers; b++ {
		res.Brokers = append(res.Brokers, c.node(b, client))
	}
	names := r.Topics
	if len(names) == 0 {
		for n := range c.topics {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	for _, n := range names {
		t := c.topics[n]
		if t == nil {
			res.Topics = append(res.Topics, &TopicMetadata{Name: n, Err: ErrUnknownTopicOrPartition})
			continue
		}
		tm := &TopicMetadata{Name: n}
		for i := range t.parts {
			id := int32(i%c.Brokers + 1)
			pm := &PartitionMetadata{ID: int32(i), Leader: id, Replicas: []int32{id}, Isr: []int32{id}}
			if bad {
				pm.Err, pm.Leader = ErrLeaderNotAvailable, -1
			}
			tm.Partitions = append(tm.Partitions, pm)
		}
		res.Topics = append(res.Topics, tm)
	}
	return res
}

func (c *SimCluster) produce(r *ProduceRequest, broker, client int, bad bool) encoder {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &ProduceResponse{Version: r.Version, Blocks: map[string]map[int32]*ProduceResponseBlock{}}
	failed := bad
	names := make([]string, 0, len(r.records))
	for n := range r.records {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		res.Blocks[n] = map[int32]*ProduceResponseBlock{}
		parts := r.records[n]
		ids := make([]int, 0, len(parts))
		for p := range parts {
			ids = append(ids, int(p))
		}
		sort.Ints(ids)
		for _, id := range ids {
			p := int32(id)
			blk := &ProduceResponseBlock{}
			res.Blocks[n][p] = blk
			t := c.topics[n]
			switch {
			case bad || t == nil || id >= len(t.parts) || !c.leads(broker, p):
				blk.Err = ErrNotLeaderForPartition
				failed = true
				continue
			}
			blk.Offset = t.parts[p].end()
			rec := parts[p]
			switch {
			case rec.RecordBatch != nil:
				for _, m := range rec.RecordBatch.Records {
					c.append(t, p, m.Key, m.Value, client)
				}
			case rec.MsgSet != nil:
				for _, m := range rec.MsgSet.Messages {
					c.append(t, p, m.Msg.Key, m.Msg.Value, client)
				}
			}
		}
	}
	c.wake()
	if r.RequiredAcks == NoResponse {
		if failed {
			return simClose{} // as Kafka does
		}
		return nil
	}
	return res
}

func (c *SimCluster) listOffsets(r *OffsetRequest, broker int, bad bool) encoder {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &OffsetResponse{Version: r.Version, Blocks: map[string]map[int32]*OffsetResponseBlock{}}
	for n, parts := range r.blocks {
		res.Blocks[n] = map[int32]*OffsetResponseBlock{}
		for p, b := range parts {
			blk := &OffsetResponseBlock{}
			res.Blocks[n][p] = blk
			t := c.topics[n]
			if bad || t == nil || int(p) >= len(t.parts) || !c.leads(broker, p) {
				blk.Err = ErrNotLeaderForPartition
				continue
			}
			if b.time == OffsetNewest {
				blk.Offset = t.parts[p].end()
			}
			blk.Offsets = []int64{blk.Offset}
			blk.Timestamp = -1
		}
	}
	return res
}

func (c *SimCluster) fetch(r *FetchRequest, broker, client int, bad bool) encoder {
	began := time.Now()
	deadline := began.Add(time.Duration(r.MaxWaitTime) * time.Millisecond)
	for {
		c.mu.Lock()
		res := &FetchResponse{Version: r.Version, Blocks: map[string]map[int32]*FetchResponseBlock{}}
		size, fault := 0, bad
		type handed struct {
			p    *simPartition
			upto int64
			from int64
			id   int32
		}
		var out []handed
		for n, parts := range r.blocks {
			res.Blocks[n] = map[int32]*FetchResponseBlock{}
			for id, b := range parts {
				blk := &FetchResponseBlock{RecordsSet: []*Records{}}
				res.Blocks[n][id] = blk
				t := c.topics[n]
				if bad || t == nil || int(id) >= len(t.parts) || !c.leads(broker, id) {
					blk.Err = ErrNotLeaderForPartition
					fault = true
					continue
				}
				p := t.parts[id]
				end := p.end()
				blk.HighWaterMarkOffset, blk.LastStableOffset = end, end
				if b.fetchOffset > end || b.fetchOffset < 0 {
					blk.Err = ErrOffsetOutOfRange
					fault = true
					continue
				}
				off := b.fetchOffset
				batch := &RecordBatch{FirstOffset: off, Version: 2, ProducerID: -1, ProducerEpoch: -1, FirstSequence: -1}
				bytes := 0
				for off < end {
					rec := p.records[off-p.base]
					k := len(rec.Key) + len(rec.Value) + 20
					if len(batch.Records) > 0 && bytes+k > int(b.maxBytes) {
						break
					}
					if len(batch.Records) == 0 {
						batch.FirstTimestamp = rec.At
					}
					batch.MaxTimestamp = rec.At
					batch.Records = append(batch.Records, &Record{OffsetDelta: off - batch.FirstOffset, Key: rec.Key, Value: rec.Value,
						TimestampDelta: rec.At.Sub(batch.FirstTimestamp)})
					bytes += k
					off++
				}
				if len(batch.Records) > 0 {
					batch.LastOffsetDelta = int32(len(batch.Records) - 1)
					rs := newDefaultRecords(batch)
					blk.RecordsSet = append(blk.RecordsSet, &rs)
				}
				size += bytes
				out = append(out, handed{p, off, b.fetchOffset, id})
			}
		}
		now := time.Now()
		if size >= int(r.MinBytes) || fault || !now.Before(deadline) {
			for _, h := range out {
				if k := len(h.p.fetches); c.Verbose && (k == 0 || h.p.fetches[k-1].Upto < h.upto) {
					c.trace("kafka: client %d fetches %d..%d of partition %d", client, h.from, h.upto, h.id)
				}
				h.p.fetches = append(h.p.fetches, SimFetch{began, now, client, h.upto})
			}
			c.mu.Unlock()
			return res
		}
		ch := c.changed
		c.mu.Unlock()
		t := time.NewTimer(deadline.Sub(now))
		select {
		case <-ch:
		case <-t.C:
		}
		t.Stop()
	}
}

// ------------------------------------------------------------ groups

func (c *SimCluster) group(id string) *simGroup {
	g := c.groups[id]
	if g == nil {
		g = &simGroup{members: map[string]*simMember{}, offsets: map[string]map[int32]int64{}, since: time.Now()}
		c.groups[id] = g
	}
	return g
}

func (g *simGroup) sorted() []*simMember {
	var l []*simMember
	for _, m := range g.members {
		l = append(l, m)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].order < l[j].order })
	return l
}

func (c *SimCluster) drop(g *simGroup, m *simMember) {
	delete(g.members, m.id)
	if m.join != nil {
		m.join <- &JoinGroupResponse{Version: 1, Err: ErrUnknownMemberId, MemberId: m.id}
		m.join = nil
	}
	if m.sync != nil {
		m.sync <- &SyncGroupResponse{Err: ErrUnknownMemberId}
		m.sync = nil
	}
	c.trace("kafka: member %s of client %d is out of the group", m.id, m.client)
}

// prepare starts a rebalance.
func (c *SimCluster) prepare(g *simGroup) {
	if g.state == simPreparing {
		c.complete(g)
		return
	}
	was := g.state
	g.state = simPreparing
	g.since = time.Now()
	d := time.Duration(0)
	for _, m := range g.members {
		if m.rebalans > d {
			d = m.rebalans
		}
		if m.sync != nil {
			m.sync <- &SyncGroupResponse{Err: ErrRebalanceInProgress}
			m.sync = nil
		}
	}
	if was == simEmpty {
		d = c.RebalanceDelay
	}
	g.deadline = g.since.Add(d)
	gen := g.gen
	time.AfterFunc(d, func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		if g.state == simPreparing && g.gen == gen && !time.Now().Before(g.deadline) {
			c.finishJoin(g)
		}
	})
	if was != simEmpty {
		c.complete(g)
	}
}

// complete ends the join phase if everybody is there.
func (c *SimCluster) complete(g *simGroup) {
	if g.gen == 0 && time.Now().Before(g.deadline) {
		return // the first rebalance waits for more members
	}
	for _, m := range g.members {
		if m.join == nil {
			return
		}
	}
	c.finishJoin(g)
}

func (c *SimCluster) finishJoin(g *simGroup) {
	for _, m := range g.sorted() {
		if m.join == nil {
			c.drop(g, m)
		}
	}
	g.since = time.Now()
	g.gen++
	if len(g.members) == 0 {
		g.state = simEmpty
		return
	}
	g.state = simCompleting
	l := g.sorted()
	g.leader = l[0].id
	for _, m := range l {
		m.assignment = nil
		for name := range m.protocols {
			g.protocol = name
		}
	}
	for _, m := range l {
		res := &JoinGroupResponse{Version: 1, GenerationId: g.gen, GroupProtocol: g.protocol, LeaderId: g.leader, MemberId: m.id, Members: map[string][]byte{}}
		if m.id == g.leader {
			for _, o := range l {
				res.Members[o.id] = o.protocols[g.protocol]
			}
		}
		m.seen = time.Now()
		m.join <- res
		m.join = nil
	}
	c.trace("kafka: generation %d with %d members", g.gen, len(l))
}

func (c *SimCluster) joinGroup(r *JoinGroupRequest, client int) encoder {
	c.mu.Lock()
	g := c.group(r.GroupId)
	m := g.members[r.MemberId]
	if r.MemberId != "" && m == nil {
		c.mu.Unlock()
		return &JoinGroupResponse{Version: r.Version, Err: ErrUnknownMemberId, MemberId: r.MemberId}
	}
	if m == nil {
		c.ids++
		m = &simMember{id: "member-" + strconv.Itoa(c.ids), client: client, order: c.ids}
		g.members[m.id] = m
	}
	m.session = time.Duration(r.SessionTimeout) * time.Millisecond
	m.rebalans = time.Duration(r.RebalanceTimeout) * time.Millisecond
	if r.Version < 1 {
		m.rebalans = m.session
	}
	m.protocols = r.GroupProtocols
	m.seen = time.Now()
	if m.join != nil {
		m.join <- &JoinGroupResponse{Version: r.Version, Err: ErrUnknownMemberId, MemberId: m.id}
	}
	ch := make(chan *JoinGroupResponse, 1)
	m.join = ch
	c.prepare(g)
	c.mu.Unlock()
	res := <-ch
	res.Version = r.Version
	return res
}

func (c *SimCluster) syncGroup(r *SyncGroupRequest) encoder {
	c.mu.Lock()
	g := c.group(r.GroupId)
	m := g.members[r.MemberId]
	if e := g.check(m, r.GenerationId); e != ErrNoError {
		c.mu.Unlock()
		return &SyncGroupResponse{Err: e}
	}
	m.seen = time.Now()
	switch g.state {
	case simStable:
		a := m.assignment
		c.mu.Unlock()
		return &SyncGroupResponse{MemberAssignment: a}
	case simCompleting:
	default:
		c.mu.Unlock()
		return &SyncGroupResponse{Err: ErrRebalanceInProgress}
	}
	if m.sync != nil {
		m.sync <- &SyncGroupResponse{Err: ErrUnknownMemberId}
	}
	ch := make(chan *SyncGroupResponse, 1)
	m.sync = ch
	if m.id == g.leader {
		for id, a := range r.GroupAssignments {
			if o := g.members[id]; o != nil {
				o.assignment = a
			}
		}
		g.state = simStable
		g.since = time.Now()
		for _, o := range g.sorted() {
			if o.sync != nil {
				o.sync <- &SyncGroupResponse{MemberAssignment: o.assignment}
				o.sync = nil
			}
		}
	}
	c.mu.Unlock()
	return <-ch
}

func (g *simGroup) check(m *simMember, gen int32) KError {
	switch {
	case m == nil:
		return ErrUnknownMemberId
	case gen != g.gen:
		return ErrIllegalGeneration
	}
	return ErrNoError
}

func (c *SimCluster) heartbeat(r *HeartbeatRequest) encoder {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(r.GroupId)
	m := g.members[r.MemberId]
	if e := g.check(m, r.GenerationId); e != ErrNoError {
		return &HeartbeatResponse{Err: e}
	}
	m.seen = time.Now()
	if g.state == simPreparing {
		return &HeartbeatResponse{Err: ErrRebalanceInProgress}
	}
	return &HeartbeatResponse{}
}

// expire removes members that are silent for longer than their session.
func (c *SimCluster) expire() {
	for {
		time.Sleep(500 * time.Millisecond)
		c.mu.Lock()
		now := time.Now()
		for _, g := range c.groups {
			gone := false
			for _, m := range g.sorted() {
				if m.join == nil && m.sync == nil && now.Sub(m.seen) > m.session {
					c.drop(g, m)
					gone = true
				}
			}
			if gone {
				if len(g.members) == 0 {
					g.state = simEmpty
					g.since = now
				} else {
					c.prepare(g)
				}
			}
		}
		c.mu.Unlock()
	}
}

func (c *SimCluster) offsetFetch(r *OffsetFetchRequest, broker int, bad bool) encoder {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &OffsetFetchResponse{Version: r.Version}
	g := c.group(r.ConsumerGroup)
	for n, parts := range r.partitions {
		for _, p := range parts {
			b := &OffsetFetchResponseBlock{Offset: -1}
			if bad || broker != 0 {
				b.Err = ErrNotCoordinatorForConsumer
			} else if o, ok := g.offsets[n][p]; ok {
				b.Offset = o
			}
			res.AddBlock(n, p, b)
		}
	}
	return res
}

func (c *SimCluster) offsetCommit(r *OffsetCommitRequest, broker, client int, bad bool) encoder {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &OffsetCommitResponse{Version: r.Version}
	g := c.group(r.ConsumerGroup)
	m := g.members[r.ConsumerID]
	e := g.check(m, r.ConsumerGroupGeneration)
	if bad || broker != 0 {
		e = ErrNotCoordinatorForConsumer
	} else if e == ErrNoError {
		m.seen = time.Now()
		if g.state == simCompleting {
			e = ErrRebalanceInProgress
		}
	}
	for n, parts := range r.blocks {
		if g.offsets[n] == nil {
			g.offsets[n] = map[int32]int64{}
		}
		for p, b := range parts {
			res.AddError(n, p, e)
			if e == ErrNoError {
				g.offsets[n][p] = b.offset
				c.Commits = append(c.Commits, SimCommit{time.Now(), client, p, b.offset})
			}
		}
	}
	return res
}

func simErrs(res encoder) string {
	switch r := res.(type) {
	case nil:
		return "nothing"
	case *FetchResponse:
		s := ""
		for _, ps := range r.Blocks {
			for p, b := range ps {
				if b.Err != ErrNoError {
					s += fmt.Sprintf(" %d:%v", p, b.Err)
				}
			}
		}
		return s
	}
	return fmt.Sprintf("%T", res)
}
