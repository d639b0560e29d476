// Package net re-exports net with the parts that touch the network replaced
// by a simulated network. It lives inside a synctest bubble: latency, windows
// and deadlines are virtual time, and a blocked call is a blocked goroutine.
package net

import (
	"context"
	"errors"
	"fmt"
	"io"
	std "net"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// Net is the network of one case.
type Net struct {
	AcceptErr func() error // why waiting connections cannot be accepted now; to be set before there are any

	mu        sync.Mutex
	listeners map[int]*listener // of the program under test, by port
	hosts     map[string]*Host  // simulated remote ends, by canonical ip:port
	conns     []*End            // ends held by the program under test
	dials     []DialRecord
	ephemeral int
	LocalIP   string

	// Defaults for new connections.
	Link Link
	// OnConn sees the end of the program under test before it carries any bytes.
	OnConn func(app *End, inbound bool)
}

// Link describes both directions of a connection.
type Link struct {
	Latency time.Duration
	Jitter  time.Duration // up to this much more per write
	Window  int           // bytes accepted before the reader has taken any
	Cut     int           // reads return at most this many bytes at a time, 0: any
	Seed    uint64
}

// Host answers dials of the program under test.
type Host struct {
	Refuse    bool
	Blackhole bool
	Delay     time.Duration // before a dial succeeds
	Link      *Link
	Handle    func(c *End) // gets the remote end, in a goroutine of its own
}

type DialRecord struct {
	Addr string
	At   time.Time
}

var (
	curMu sync.Mutex
	cur   *Net
)

// Install makes n the network; nil: none.
func Install(n *Net) {
	curMu.Lock()
	defer curMu.Unlock()
	cur = n
}

func current() (*Net, error) {
	curMu.Lock()
	defer curMu.Unlock()
	if cur == nil {
		return nil, errors.New("simulated network: none installed")
	}
	return cur, nil
}

func NewNet(link Link) *Net {
	return &Net{listeners: map[int]*listener{}, hosts: map[string]*Host{}, ephemeral: 40000, LocalIP: "192.0.2.1", Link: link}
}

// SetHost makes ip:port reachable.
func (n *Net) SetHost(ip string, port int, h *Host) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.hosts[canon(ip, port)] = h
}

// Dials lists the addresses dialled so far, in order.
func (n *Net) Dials() []DialRecord {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]DialRecord(nil), n.dials...)
}

// Open lists the ends the program under test has not closed.
func (n *Net) Open() []*End {
	n.mu.Lock()
	cs := append([]*End(nil), n.conns...)
	n.mu.Unlock()
	var out []*End
	for _, c := range cs {
		if !c.Closed() {
			out = append(out, c)
		}
	}
	return out
}

// Listening reports whether the program under test listens on port.
func (n *Net) Listening(port int) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.listeners[port] != nil
}

// Listeners counts open listeners.
func (n *Net) Listeners() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.listeners)
}

func canon(ip string, port int) string {
	p := std.ParseIP(ip)
	if p != nil {
		ip = p.String()
	}
	return std.JoinHostPort(ip, strconv.Itoa(port))
}

// Connect dials the program under test from a simulated remote address.
func (n *Net) Connect(ip string, port, to int, link *Link) (*End, error) {
	n.mu.Lock()
	l := n.listeners[to]
	lk := n.Link
	if link != nil {
		lk = *link
	}
	n.mu.Unlock()
	if l == nil {
		return nil, &OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	time.Sleep(lk.Latency)
	n.mu.Lock()
	for again := true; again; { // no two connections at a time from one port
		again = false
		for _, c := range n.conns {
			if c.RemoteKey() == Key(ip, port) && !c.Other.Closed() {
				port = port%65535 + 1
				again = true
			}
		}
	}
	remote := &TCPAddr{IP: std.ParseIP(ip), Port: port}
	app, far := pair(l.addr, remote, lk)
	n.conns = append(n.conns, app)
	n.mu.Unlock()
	if n.OnConn != nil {
		n.OnConn(app, true)
	}
	if !l.push(app) {
		return nil, &OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	return far, nil
}

func dial(ctx context.Context, network, address string) (std.Conn, error) {
	fail := func(addr std.Addr, err error) (std.Conn, error) {
		return nil, &OpError{Op: "dial", Net: network, Addr: addr, Err: err}
	}
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return fail(nil, std.UnknownNetworkError(network))
	}
	n, err := current()
	if err != nil {
		return fail(nil, err)
	}
	n.mu.Lock()
	n.dials = append(n.dials, DialRecord{address, time.Now()})
	n.mu.Unlock()
	host, ps, err := std.SplitHostPort(address)
	if err != nil {
		return fail(nil, err)
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return fail(nil, &AddrError{Err: "invalid port", Addr: ps})
	}
	ip := std.ParseIP(host)
	if host == "" {
		ip = std.IPv4(127, 0, 0, 1)
	}
	if ip == nil {
		return fail(nil, &DNSError{Err: "no such host", Name: host, IsNotFound: true})
	}
	if err := ctx.Err(); err != nil {
		return fail(nil, mapErr(err))
	}
	addr := &TCPAddr{IP: ip, Port: port}
	n.mu.Lock()
	h := n.hosts[canon(ip.String(), port)]
	lk := n.Link
	n.mu.Unlock()
	if h != nil && h.Link != nil {
		lk = *h.Link
	}
	wait := 2*lk.Latency + 1
	if h != nil {
		wait += h.Delay
	}
	if h != nil && h.Blackhole {
		wait = 127 * time.Second
	}
	t := time.NewTimer(wait)
	defer t.Stop()
	select {
	case <-ctx.Done():
		return fail(addr, mapErr(ctx.Err()))
	case <-t.C:
	}
	switch {
	case h == nil || h.Refuse:
		return fail(addr, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case h.Blackhole:
		return fail(addr, os.NewSyscallError("connect", syscall.ETIMEDOUT))
	}
	n.mu.Lock()
	n.ephemeral++
	local := &TCPAddr{IP: std.ParseIP(n.LocalIP), Port: n.ephemeral}
	app, far := pair(local, addr, lk)
	n.conns = append(n.conns, app)
	n.mu.Unlock()
	if n.OnConn != nil {
		n.OnConn(app, false)
	}
	go h.Handle(far)
	return app, nil
}

type timeoutError struct{ s string }

func (e timeoutError) Error() string   { return e.s }
func (e timeoutError) Timeout() bool   { return true }
func (e timeoutError) Temporary() bool { return true }
func (e timeoutError) Is(err error) bool {
	return err == context.DeadlineExceeded
}

func mapErr(err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		return timeoutError{"i/o timeout"}
	}
	return errors.New("operation was canceled")
}

func Dial(network, address string) (std.Conn, error) {
	return dial(context.Background(), network, address)
}

func DialTimeout(network, address string, d time.Duration) (std.Conn, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	return dial(ctx, network, address)
}

func DialTCP(network string, laddr, raddr *TCPAddr) (*TCPConn, error) {
	return nil, errors.New("simulated network: DialTCP is not simulated")
}

// Dialer has the fields of the real one.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       std.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig std.KeepAliveConfig
	Resolver        *std.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (std.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (std.Conn, error) {
	if d.Timeout > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	if !d.Deadline.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, d.Deadline)
		defer cancel()
	}
	return dial(ctx, network, address)
}

// ---- listening ----

type listener struct {
	n      *Net
	addr   *TCPAddr
	mu     sync.Mutex
	queue  []*End
	closed bool
	wake   chan struct{}
}

func Listen(network, address string) (std.Listener, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &OpError{Op: "listen", Net: network, Err: std.UnknownNetworkError(network)}
	}
	n, err := current()
	if err != nil {
		return nil, err
	}
	host, ps, err := std.SplitHostPort(address)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return nil, &OpError{Op: "listen", Net: network, Err: &AddrError{Err: "invalid port", Addr: ps}}
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if port == 0 {
		n.ephemeral++
		port = n.ephemeral
	}
	if n.listeners[port] != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	ip := std.ParseIP(host)
	if ip == nil {
		ip = std.ParseIP(n.LocalIP)
	}
	l := &listener{n: n, addr: &TCPAddr{IP: ip, Port: port}, wake: make(chan struct{})}
	n.listeners[port] = l
	return l, nil
}

// ListenConfig has the fields of the real one.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig std.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (std.Listener, error) {
	return Listen(network, address)
}

func (l *listener) push(c *End) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		c.abort()
		return false
	}
	l.queue = append(l.queue, c)
	close(l.wake)
	l.wake = make(chan struct{})
	return true
}

func (l *listener) Accept() (std.Conn, error) {
	for {
		l.mu.Lock()
		if l.closed {
			l.mu.Unlock()
			return nil, &OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: std.ErrClosed}
		}
		if f := l.n.AcceptErr; len(l.queue) > 0 && f != nil {
			if err := f(); err != nil {
				l.mu.Unlock()
				return nil, &OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", err)}
			}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			l.mu.Unlock()
			return c, nil
		}
		w := l.wake
		l.mu.Unlock()
		<-w
	}
}

func (l *listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return &OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: std.ErrClosed}
	}
	l.closed = true
	for _, c := range l.queue {
		c.abort()
	}
	l.queue = nil
	close(l.wake)
	l.wake = make(chan struct{})
	l.n.mu.Lock()
	delete(l.n.listeners, l.addr.Port)
	l.n.mu.Unlock()
	return nil
}

func (l *listener) Addr() std.Addr { return l.addr }

// ---- connections ----

// half is one direction.
type half struct {
	mu     sync.Mutex
	segs   []seg
	queued int
	fin    bool // the writer closed, arrives at finAt
	finAt  time.Time
	rst    bool // aborted
	dead   bool // the reader closed: writes fail from deadAt on
	deadAt time.Time
	last   time.Time
	wake   chan struct{}
	link   Link
	n      uint64
	total  int64 // bytes written
	taken  int64 // bytes read
	reads  []readMark
}

type readMark struct {
	upto int64
	at   time.Time
}

type seg struct {
	b  []byte
	at time.Time
}

func (h *half) signal() {
	close(h.wake)
	h.wake = make(chan struct{})
}

func (h *half) rnd() uint64 {
	h.n++
	x := h.link.Seed + h.n*0x9E3779B97F4A7C15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func (h *half) delay() time.Duration {
	d := h.link.Latency
	if h.link.Jitter > 0 {
		d += time.Duration(h.rnd() % uint64(h.link.Jitter))
	}
	return d
}

// End is one end of a connection.
type End struct {
	local, remote *TCPAddr
	in, out       *half
	mu            sync.Mutex
	closed        bool
	closedAt      time.Time
	rd, wd        time.Time
	wake          chan struct{}  // deadline or closing changed
	Tap           func(b []byte) // sees the bytes this end writes, when accepted
	Other         *End
}

func pair(a, b *TCPAddr, lk Link) (*End, *End) {
	if lk.Window <= 0 {
		lk.Window = 1 << 18
	}
	h1 := &half{wake: make(chan struct{}), link: lk}
	lk.Seed ^= 0x5555555555555555
	h2 := &half{wake: make(chan struct{}), link: lk}
	x := &End{local: a, remote: b, in: h1, out: h2, wake: make(chan struct{})}
	y := &End{local: b, remote: a, in: h2, out: h1, wake: make(chan struct{})}
	x.Other, y.Other = y, x
	return x, y
}

func (c *End) LocalAddr() std.Addr  { return c.local }
func (c *End) RemoteAddr() std.Addr { return c.remote }
func (c *End) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Unread counts the bytes this end was sent and has not read.
func (c *End) Unread() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.queued
}

// Written counts the bytes this end has written.
func (c *End) Written() int64 {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.total
}

// ReadBy tells when the other end had read the first n bytes this end wrote.
func (c *End) ReadBy(n int64) (time.Time, bool) {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	h := c.out
	if h.taken < n {
		return time.Time{}, false
	}
	lo, hi := 0, len(h.reads)-1
	for lo < hi {
		m := (lo + hi) / 2
		if h.reads[m].upto >= n {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return h.reads[lo].at, true
}

// Gone reports whether the other end closed or reset the connection.
func (c *End) Gone() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.fin || c.in.rst
}

// ClosedAt tells when this end was closed.
func (c *End) ClosedAt() (time.Time, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closedAt, c.closed
}

// Peer address helpers for the harness.
func (c *End) RemoteKey() string { return c.remote.String() }

// SetCut changes the size of reads at this end.
func (c *End) SetCut(n int) {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	c.in.link.Cut = n
}

func (c *End) err(op string, err error) error {
	return &OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *End) state(write bool) (closed bool, dl time.Time, wake chan struct{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	dl = c.rd
	if write {
		dl = c.wd
	}
	return c.closed, dl, c.wake
}

func (c *End) Read(p []byte) (int, error) {
	h := c.in
	for {
		closed, dl, cw := c.state(false)
		if closed {
			return 0, c.err("read", std.ErrClosed)
		}
		now := time.Now()
		if !dl.IsZero() && !now.Before(dl) {
			return 0, c.err("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		h.mu.Lock()
		var next time.Time
		switch {
		case h.rst:
			h.mu.Unlock()
			return 0, c.err("read", os.NewSyscallError("read", syscall.ECONNRESET))
		case len(h.segs) > 0 && !h.segs[0].at.After(now):
			n := 0
			limit := len(p)
			if h.link.Cut > 0 {
				limit = min(limit, 1+int(h.rnd()%uint64(h.link.Cut)))
			}
			for n < limit && len(h.segs) > 0 && !h.segs[0].at.After(now) {
				s := &h.segs[0]
				k := copy(p[n:limit], s.b)
				n += k
				s.b = s.b[k:]
				if len(s.b) == 0 {
					h.segs = h.segs[1:]
				}
			}
			h.queued -= n
			h.taken += int64(n)
			if k := len(h.reads); k > 0 && h.reads[k-1].at.Equal(now) {
				h.reads[k-1].upto = h.taken
			} else {
				h.reads = append(h.reads, readMark{h.taken, now})
			}
			h.signal()
			h.mu.Unlock()
			return n, nil
		case len(h.segs) > 0:
			next = h.segs[0].at
		case h.fin && !h.finAt.After(now):
			h.mu.Unlock()
			return 0, io.EOF
		case h.fin:
			next = h.finAt
		}
		w := h.wake
		h.mu.Unlock()
		sleep(w, cw, next, dl)
	}
}

// sleep waits for either channel or time.
func sleep(a, b chan struct{}, t1, t2 time.Time) {
	t := t1
	if t.IsZero() || !t2.IsZero() && t2.Before(t) {
		t = t2
	}
	if t.IsZero() {
		select {
		case <-a:
		case <-b:
		}
		return
	}
	tm := time.NewTimer(time.Until(t))
	defer tm.Stop()
	select {
	case <-a:
	case <-b:
	case <-tm.C:
	}
}

func (c *End) Write(p []byte) (int, error) {
	h := c.out
	n := 0
	for {
		closed, dl, cw := c.state(true)
		if closed {
			return n, c.err("write", std.ErrClosed)
		}
		now := time.Now()
		if !dl.IsZero() && !now.Before(dl) {
			return n, c.err("write", os.ErrDeadlineExceeded)
		}
		h.mu.Lock()
		var next time.Time
		if h.rst {
			h.mu.Unlock()
			return n, c.err("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if h.dead && !h.deadAt.After(now) {
			h.mu.Unlock()
			return n, c.err("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(p) == n {
			h.mu.Unlock()
			return n, nil
		}
		if room := h.link.Window - h.queued; room > 0 {
			k := min(room, len(p)-n)
			at := now.Add(h.delay())
			if at.Before(h.last) {
				at = h.last
			}
			h.last = at
			h.segs = append(h.segs, seg{append([]byte(nil), p[n:n+k]...), at})
			if c.Tap != nil {
				c.Tap(p[n : n+k])
			}
			h.queued += k
			h.total += int64(k)
			n += k
			h.signal()
			h.mu.Unlock()
			if n == len(p) {
				return n, nil
			}
			continue
		}
		if h.dead {
			next = h.deadAt
		}
		w := h.wake
		h.mu.Unlock()
		sleep(w, cw, next, dl)
	}
}

func (c *End) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.err("close", std.ErrClosed)
	}
	c.closed = true
	c.closedAt = time.Now()
	close(c.wake)
	c.wake = make(chan struct{})
	c.mu.Unlock()
	now := time.Now()
	c.out.mu.Lock()
	c.out.fin = true
	c.out.finAt = now.Add(c.out.delay())
	if c.out.finAt.Before(c.out.last) {
		c.out.finAt = c.out.last
	}
	c.out.signal()
	c.out.mu.Unlock()
	c.in.mu.Lock()
	c.in.dead = true
	c.in.deadAt = now.Add(c.in.delay())
	c.in.signal()
	c.in.mu.Unlock()
	return nil
}

// CloseWrite ends this direction only.
func (c *End) CloseWrite() error {
	c.out.mu.Lock()
	c.out.fin = true
	c.out.finAt = time.Now().Add(c.out.delay())
	if c.out.finAt.Before(c.out.last) {
		c.out.finAt = c.out.last
	}
	c.out.signal()
	c.out.mu.Unlock()
	return nil
}

// Abort resets the connection: both ends fail at once.
func (c *End) Abort() { c.abort() }

func (c *End) abort() {
	c.mu.Lock()
	if !c.closed {
		c.closed = true
		c.closedAt = time.Now()
		close(c.wake)
		c.wake = make(chan struct{})
	}
	c.mu.Unlock()
	for _, h := range []*half{c.in, c.out} {
		h.mu.Lock()
		h.rst = true
		h.signal()
		h.mu.Unlock()
	}
}

func (c *End) SetDeadline(t time.Time) error {
	return c.setDeadline(t, true, true)
}
func (c *End) SetReadDeadline(t time.Time) error  { return c.setDeadline(t, true, false) }
func (c *End) SetWriteDeadline(t time.Time) error { return c.setDeadline(t, false, true) }

func (c *End) setDeadline(t time.Time, r, w bool) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.err("set", std.ErrClosed)
	}
	if r {
		c.rd = t
	}
	if w {
		c.wd = t
	}
	close(c.wake)
	c.wake = make(chan struct{})
	return nil
}

func (c *End) String() string { return fmt.Sprintf("%v-%v", c.local, c.remote) }

// Key is the address a connection to ip:port shows.
func Key(ip string, port int) string { return canon(ip, port) }
