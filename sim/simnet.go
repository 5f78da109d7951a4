//go:build go1.22

package main

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

// Net is the simulated network: the only one the process can reach. Every
// listener and connection of the code under test goes through it (net.Dialer
// and net.ListenConfig are redirected here by the verification build).
type Net struct {
	w         *World
	rng       *Rng
	mu        sync.Mutex
	listeners map[string]*simListener
	links     map[string]*link
	conns     int
}

// link holds the state of the network path to one address.
type link struct {
	mu        sync.Mutex
	refuse    bool
	blackhole bool // dial never completes
	held      bool // partition: nothing is delivered until it heals
	latency   int64
	jitter    int64
	chunkMax  int // largest piece delivered to one Read, 0 = unlimited
	window    int
	conns     []*simConn // open connections, oldest first
}

func NewNet(w *World, seed uint64) *Net {
	return &Net{w: w, rng: NewRng(seed ^ 0x6e6574), listeners: map[string]*simListener{}, links: map[string]*link{}}
}

func (n *Net) Link(addr string) *link {
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.links[addr]
	if l == nil {
		l = &link{latency: 200_000, jitter: 300_000, window: 256 * 1024}
		n.links[addr] = l
	}
	return l
}

func (l *link) set(f func(l *link)) {
	l.mu.Lock()
	f(l)
	list := append([]*simConn(nil), l.conns...)
	l.mu.Unlock()
	for _, c := range list {
		c.pair.mu.Lock()
		c.pair.cond.Broadcast()
		c.pair.mu.Unlock()
	}
}

// ResetAll breaks every open connection of the link.
func (l *link) ResetAll() int {
	l.mu.Lock()
	list := append([]*simConn(nil), l.conns...)
	l.mu.Unlock()
	for _, c := range list {
		c.Reset()
	}
	return len(list)
}

// HangUp closes one side of every open connection of the link.
func (l *link) HangUp(side int) {
	l.mu.Lock()
	list := append([]*simConn(nil), l.conns...)
	l.mu.Unlock()
	for _, c := range list {
		c.pair.ends[side].Close()
	}
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simListener struct {
	n      *Net
	addr   string
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*simConn
	closed bool
}

func (n *Net) Listen(network, addr string) (net.Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if l := n.listeners[addr]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr(addr), Err: syscall.EADDRINUSE}
	}
	l := &simListener{n: n, addr: addr}
	l.cond = sync.NewCond(&l.mu)
	n.listeners[addr] = l
	return l, nil
}

func (n *Net) Listening(addr string) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.listeners[addr]
	return l != nil && !l.closed
}

func (l *simListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: simAddr(l.addr), Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *simListener) Close() error {
	l.mu.Lock()
	l.closed = true
	q := l.queue
	l.queue = nil
	l.cond.Broadcast()
	l.mu.Unlock()
	for _, c := range q {
		c.Reset()
	}
	return nil
}

func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

func (n *Net) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: simAddr(addr), Err: err}
	}
	lk := n.Link(addr)
	n.mu.Lock()
	lat := n.rng.I64(lk.jitter+1) + lk.latency
	n.mu.Unlock()
	select {
	case <-time.After(time.Duration(lat)):
	case <-ctx.Done():
		return fail(ctxErr(ctx))
	}
	var refuse bool
	for again := time.Second; ; again *= 2 { // as TCP repeats its SYN
		lk.mu.Lock()
		hole := lk.blackhole || lk.held
		refuse = lk.refuse
		lk.mu.Unlock()
		if !hole {
			break
		}
		n.w.Fire("dial_blackholed")
		select {
		case <-time.After(again):
		case <-ctx.Done():
			return fail(ctxErr(ctx))
		}
	}
	n.mu.Lock()
	l := n.listeners[addr]
	n.mu.Unlock()
	if refuse || l == nil {
		if refuse {
			n.w.Fire("dial_refused")
		}
		return fail(syscall.ECONNREFUSED)
	}
	n.mu.Lock()
	n.conns++
	id := n.conns
	n.mu.Unlock()
	p := &connPair{w: n.w, lk: lk, rng: NewRng(n.rng.s ^ uint64(id)*77)}
	p.cond = sync.NewCond(&p.mu)
	cl := &simConn{pair: p, side: 0, local: simAddr("client:" + itoa(id)), remote: simAddr(addr)}
	sv := &simConn{pair: p, side: 1, local: simAddr(addr), remote: simAddr("10.0.0.1:" + itoa(id))}
	p.ends = [2]*simConn{cl, sv}
	lk.mu.Lock()
	lk.conns = append(lk.conns, cl)
	lk.mu.Unlock()
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return fail(syscall.ECONNREFUSED)
	}
	l.queue = append(l.queue, sv)
	l.cond.Broadcast()
	l.mu.Unlock()
	return cl, nil
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func ctxErr(ctx context.Context) error {
	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
		return timeoutErr{}
	}
	return ctx.Err()
}

type segment struct {
	data []byte
	at   int64
}

type connPair struct {
	w     *World
	lk    *link
	rng   *Rng
	mu    sync.Mutex
	cond  *sync.Cond
	ends  [2]*simConn
	reset bool
}

// simConn is one end of a simulated TCP connection.
type simConn struct {
	pair          *connPair
	side          int
	local, remote simAddr

	in       []segment // data on its way to this end
	inBytes  int
	lastAt   int64
	finAt    int64 // peer closed; EOF at this time
	closed   bool
	rdl, wdl int64 // deadlines, 0 = none
	wake     int64 // earliest timer already armed
}

func simClock() int64 { return time.Since(clockBase).Nanoseconds() + 1 }

var clockBase time.Time

// arm makes sure the condition is signalled at time at.
func (p *connPair) arm(at int64) {
	d := at - simClock()
	if d < 0 {
		d = 0
	}
	time.AfterFunc(time.Duration(d), func() {
		p.mu.Lock()
		p.cond.Broadcast()
		p.mu.Unlock()
	})
}

func (c *simConn) Read(b []byte) (int, error) {
	c.pair.w.collect()
	p := c.pair
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for {
		now := simClock()
		if c.closed {
			return 0, c.err("read", net.ErrClosed)
		}
		if p.reset {
			return 0, c.err("read", syscall.ECONNRESET)
		}
		if c.rdl != 0 && c.rdl <= now {
			return 0, c.err("read", os.ErrDeadlineExceeded)
		}
		p.lk.mu.Lock()
		held, chunkMax := p.lk.held, p.lk.chunkMax
		p.lk.mu.Unlock()
		next := int64(0)
		if !held {
			if len(c.in) > 0 && c.in[0].at <= now {
				limit := len(b)
				if chunkMax > 0 {
					if m := 1 + p.rng.N(chunkMax); m < limit {
						limit = m
					}
				}
				n := 0
				for n < limit && len(c.in) > 0 && c.in[0].at <= now {
					k := copy(b[n:limit], c.in[0].data)
					n += k
					c.in[0].data = c.in[0].data[k:]
					if len(c.in[0].data) == 0 {
						c.in = c.in[1:]
					}
					if chunkMax > 0 {
						break
					}
				}
				c.inBytes -= n
				p.cond.Broadcast()
				return n, nil
			}
			if len(c.in) == 0 && c.finAt != 0 && c.finAt <= now {
				return 0, io.EOF
			}
			if len(c.in) > 0 {
				next = c.in[0].at
			} else if c.finAt != 0 {
				next = c.finAt
			}
		}
		if c.rdl != 0 && (next == 0 || c.rdl < next) {
			next = c.rdl
		}
		if next != 0 {
			p.arm(next)
		}
		p.cond.Wait()
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	c.pair.w.collect()
	p := c.pair
	p.mu.Lock()
	defer p.mu.Unlock()
	peer := p.ends[1-c.side]
	total := 0
	for {
		now := simClock()
		if c.closed {
			return total, c.err("write", net.ErrClosed)
		}
		if p.reset {
			return total, c.err("write", syscall.ECONNRESET)
		}
		if peer.closed {
			return total, c.err("write", syscall.EPIPE)
		}
		if c.wdl != 0 && c.wdl <= now {
			return total, c.err("write", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return total, nil
		}
		room := p.lk.window - peer.inBytes
		if room >= len(b) || room >= p.lk.window/2 { // no tiny segments
			n := len(b)
			if n > room {
				n = room
			}
			at := now + p.lk.latency + p.rng.I64(p.lk.jitter+1)
			if at < peer.lastAt {
				at = peer.lastAt
			}
			peer.lastAt = at
			peer.in = append(peer.in, segment{append([]byte(nil), b[:n]...), at})
			peer.inBytes += n
			b = b[n:]
			total += n
			p.cond.Broadcast()
			continue
		}
		if c.wdl != 0 {
			p.arm(c.wdl)
		}
		p.cond.Wait()
	}
}

func (c *simConn) err(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *simConn) unlink() {
	lk := c.pair.lk
	lk.mu.Lock()
	for i, o := range lk.conns {
		if o == c.pair.ends[0] {
			lk.conns = append(lk.conns[:i:i], lk.conns[i+1:]...)
			break
		}
	}
	lk.mu.Unlock()
}

func (c *simConn) Close() error {
	p := c.pair
	p.mu.Lock()
	if !c.closed {
		c.closed = true
		peer := p.ends[1-c.side]
		if peer.finAt == 0 {
			peer.finAt = simClock() + p.lk.latency
			if peer.finAt < peer.lastAt {
				peer.finAt = peer.lastAt
			}
		}
	}
	both := p.ends[0].closed && p.ends[1].closed
	p.cond.Broadcast()
	p.mu.Unlock()
	if both {
		c.unlink()
	}
	return nil
}

// CloseWrite sends EOF to the peer but keeps reading.
func (c *simConn) CloseWrite() error {
	p := c.pair
	p.mu.Lock()
	peer := p.ends[1-c.side]
	if peer.finAt == 0 {
		peer.finAt = simClock() + p.lk.latency
		if peer.finAt < peer.lastAt {
			peer.finAt = peer.lastAt
		}
	}
	p.cond.Broadcast()
	p.mu.Unlock()
	return nil
}

// Reset breaks the connection in both directions; data in flight is lost.
func (c *simConn) Reset() {
	p := c.pair
	p.mu.Lock()
	p.reset = true
	p.ends[0].in, p.ends[1].in = nil, nil
	p.cond.Broadcast()
	p.mu.Unlock()
	c.unlink()
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	v := t.Sub(clockBase).Nanoseconds() + 1
	if v < 1 {
		v = 1
	}
	return v
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.pair.mu.Lock()
	c.rdl = deadline(t)
	c.pair.cond.Broadcast()
	c.pair.mu.Unlock()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.pair.mu.Lock()
	c.wdl = deadline(t)
	c.pair.cond.Broadcast()
	c.pair.mu.Unlock()
	return nil
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}
