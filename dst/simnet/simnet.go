// Package simnet is the simulated network: hosts, TCP-like connections with
// latency, jitter, fragmentation, bounded buffers, partitions, resets, refused
// connections and silent peers. Everything is decided by one seeded generator
// and happens in simulated time.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Net is one simulated network.
type Net struct {
	mu     sync.Mutex
	rng    *rand.Rand
	hosts  []*Host
	byName map[string]*Host
	links  map[[2]int]*link
	// NodeHost says which host the calling goroutine runs on (nil: none) and
	// the incarnation it belongs to; dead reports a crashed incarnation.
	NodeHost func() (h *Host, incarnation int32, dead bool)
	Def      LinkParams
	// OnDialFail hears of connection attempts that failed; it must not use the
	// network.
	OnDialFail func(node int32, address string)
	// Fired counts the network faults that actually happened.
	Fired    map[string]int
	Segments int
	Bytes    int64
	connSeq  int
	// OnDial is called when a process starts to connect to something.
	OnDial func(node int32, host string, port int)
	open   map[peering]int // connections a process has opened and not closed
	Most   map[peering]int // and their largest number so far
}

type peering struct {
	Node int32
	Host string
}

// MostOpen tells how many connections to a host a process had open at most.
func (n *Net) MostOpen(node int32, host string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.Most[peering{node, host}]
}

// LinkParams describe the delay of a link.
type LinkParams struct {
	LatUS, JitterUS int64 // one-way latency and jitter, microseconds
	Frag            bool  // cut writes into random segments and reads short
	Window          int   // bytes in flight plus unread, per direction
}

type link struct {
	p       *LinkParams
	blocked bool
	pipes   map[*pipe]struct{}
	extraUS int64
}

// Host is a simulated machine.
type Host struct {
	net       *Net
	ID        int
	Name, IP  string
	Up        bool // a silent (powered-off) host answers nothing
	listeners map[int]*Listener
	conns     map[*Conn]struct{}
	nextPort  int
}

func New(seed uint64) *Net {
	return &Net{
		rng:    rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15)),
		byName: map[string]*Host{},
		links:  map[[2]int]*link{},
		Fired:  map[string]int{},
		open:   map[peering]int{},
		Most:   map[peering]int{},
		Def:    LinkParams{LatUS: 200, JitterUS: 300, Window: 256 << 10},
	}
}

func (n *Net) AddHost(name string) *Host {
	n.mu.Lock()
	defer n.mu.Unlock()
	id := len(n.hosts)
	h := &Host{net: n, ID: id, Name: name, IP: fmt.Sprintf("10.0.%d.%d", id/200, id%200+1), Up: true,
		listeners: map[int]*Listener{}, conns: map[*Conn]struct{}{}, nextPort: 40000}
	n.hosts = append(n.hosts, h)
	n.byName[name] = h
	n.byName[h.IP] = h
	return h
}

func (n *Net) Host(name string) *Host {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.byName[name]
}

func (n *Net) linkOf(a, b int) *link {
	if a > b {
		a, b = b, a
	}
	l := n.links[[2]int{a, b}]
	if l == nil {
		l = &link{pipes: map[*pipe]struct{}{}}
		n.links[[2]int{a, b}] = l
	}
	return l
}

func (n *Net) params(l *link) *LinkParams {
	if l.p != nil {
		return l.p
	}
	return &n.Def
}

func (n *Net) delay(a, b int) time.Duration {
	if a == b {
		return time.Duration(5+n.rng.Int64N(20)) * time.Microsecond
	}
	l := n.linkOf(a, b)
	p := n.params(l)
	d := p.LatUS + l.extraUS
	if p.JitterUS > 0 {
		d += n.rng.Int64N(p.JitterUS + 1)
	}
	return time.Duration(d)*time.Microsecond + 1
}

// ---- faults ----

// Partition stops all delivery between two hosts until Heal.
func (n *Net) Partition(a, b *Host) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.linkOf(a.ID, b.ID).blocked = true
	n.Fired["partition"]++
}

// Heal resumes delivery; everything held is delivered in order (as TCP
// retransmission would), unless reset is set.
func (n *Net) Heal(a, b *Host, reset bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.linkOf(a.ID, b.ID)
	if !l.blocked {
		return
	}
	l.blocked = false
	n.Fired["heal"]++
	for _, p := range sortedPipes(l.pipes) {
		if reset {
			p.conn.resetLocked(syscall.ECONNRESET)
			p.conn.peer.resetLocked(syscall.ECONNRESET)
		} else {
			p.scheduleLocked(0)
		}
	}
}

func sortedPipes(m map[*pipe]struct{}) []*pipe {
	var s []*pipe
	for p := range m {
		i := len(s)
		s = append(s, p)
		for i > 0 && s[i-1].id > s[i].id {
			s[i-1], s[i] = s[i], s[i-1]
			i--
		}
	}
	return s
}

func sortedConns(m map[*Conn]struct{}) []*Conn {
	var s []*Conn
	for p := range m {
		i := len(s)
		s = append(s, p)
		for i > 0 && s[i-1].id > s[i].id {
			s[i-1], s[i] = s[i], s[i-1]
			i--
		}
	}
	return s
}

// Reset breaks every open connection between two hosts.
func (n *Net) Reset(a, b *Host) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := 0
	for _, p := range sortedPipes(n.linkOf(a.ID, b.ID).pipes) {
		if p.conn.err == nil {
			p.conn.resetLocked(syscall.ECONNRESET)
			p.conn.peer.resetLocked(syscall.ECONNRESET)
			c++
		}
	}
	if c > 0 {
		n.Fired["conn-reset"]++
	}
	return c
}

// Slow adds latency to a link (0 restores it).
func (n *Net) Slow(a, b *Host, extra time.Duration) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.linkOf(a.ID, b.ID).extraUS = extra.Microseconds()
	if extra > 0 {
		n.Fired["slow-link"]++
	}
}

// Blocked reports whether the link is partitioned.
func (n *Net) Blocked(a, b *Host) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.linkOf(a.ID, b.ID).blocked
}

// Kill ends everything the process incarnation owned on host h, as the kernel
// does when a process dies: listeners close and peers see resets. If silent,
// peers see nothing (power loss); Revive makes the host reachable again.
func (n *Net) Kill(h *Host, incarnation int32, silent bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for port, l := range h.listeners {
		if l.node == incarnation {
			delete(h.listeners, port)
			l.closed = true
			l.cond.Broadcast()
		}
	}
	if silent {
		h.Up = false
	}
	for _, c := range sortedConns(h.conns) {
		if c.node != incarnation {
			continue
		}
		c.err = net.ErrClosed
		c.in.cond.Broadcast()
		c.out.cond.Broadcast()
		delete(h.conns, c)
		if !silent {
			c.out.rst = true
			c.out.scheduleLocked(n.delay(c.lh.ID, c.rh.ID))
		} else {
			c.silent = true
		}
	}
}

func (n *Net) Revive(h *Host) {
	n.mu.Lock()
	defer n.mu.Unlock()
	h.Up = true
	// Peers of connections lost silently learn about it when the host is back.
	for _, o := range n.hosts {
		for _, c := range sortedConns(o.conns) {
			if c.rh == h && c.peer.silent && c.err == nil {
				c.resetLocked(syscall.ECONNRESET)
			}
		}
	}
}

// OpenConns counts established connections between two hosts.
func (n *Net) OpenConns(a, b *Host) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := 0
	for x := range a.conns {
		if x.rh == b && x.err == nil && !x.closed {
			c++
		}
	}
	return c
}

// ---- connections ----

type seg struct {
	at   int64 // simulated time, free of any host's clock skew
	data []byte
}

// pipe carries bytes toward conn.
type pipe struct {
	id      int
	n       *Net
	conn    *Conn // receiving end
	cond    *sync.Cond
	queue   []seg
	queued  int
	buf     []byte
	fin     bool // sender closed: EOF after queue
	rst     bool // sender died or reset: error after queue
	eof     bool // EOF delivered
	lastAt  int64
	timerOn bool
}

type deadline struct {
	t     time.Time
	timer *time.Timer
}

func (d *deadline) passed() bool { return !d.t.IsZero() && !time.Now().Before(d.t) }

// Conn is one end of a simulated TCP connection.
type Conn struct {
	n        *Net
	id       int
	node     int32
	lh, rh   *Host
	la, ra   *net.TCPAddr
	in, out  *pipe
	peer     *Conn
	rd, wd   deadline
	closed   bool
	silent   bool
	err      error
	BytesIn  int64
	BytesOut int64
	// Limit, when > 0, breaks the connection after that many more bytes have
	// been sent by this end (torn replies).
	Limit  int64
	dialed bool
}

func (p *pipe) scheduleLocked(extra time.Duration) {
	if p.timerOn {
		return
	}
	if len(p.queue) == 0 && !p.fin && !p.rst {
		return
	}
	if p.n.linkOf(p.conn.lh.ID, p.conn.rh.ID).blocked {
		return // resumed by Heal
	}
	at := p.lastAt
	if len(p.queue) > 0 {
		at = p.queue[0].at
	}
	d := time.Duration(at - runtime.DSTNow())
	if d < extra {
		d = extra
	}
	if d < 1 {
		d = 1
	}
	p.timerOn = true
	time.AfterFunc(d, func() {
		p.n.mu.Lock()
		defer p.n.mu.Unlock()
		p.timerOn = false
		p.deliverLocked()
	})
}

func (p *pipe) deliverLocked() {
	c := p.conn
	if p.n.linkOf(c.lh.ID, c.rh.ID).blocked {
		return
	}
	now := runtime.DSTNow()
	for len(p.queue) > 0 && p.queue[0].at <= now {
		s := p.queue[0]
		p.queue = p.queue[1:]
		p.queued -= len(s.data)
		p.n.Segments++
		p.n.Bytes += int64(len(s.data))
		if !c.lh.Up || c.silent {
			continue // lost: nobody is there
		}
		if c.closed || c.err != nil {
			// Data for a closed socket: the peer gets a reset.
			if c.peer.err == nil && !c.out.rst {
				c.out.rst = true
				c.out.scheduleLocked(p.n.delay(c.lh.ID, c.rh.ID))
			}
			continue
		}
		p.buf = append(p.buf, s.data...)
	}
	if len(p.queue) == 0 {
		if p.rst && c.err == nil {
			c.resetLocked(syscall.ECONNRESET)
		} else if p.fin {
			p.eof = true
		}
	}
	p.cond.Broadcast()
	if len(p.queue) > 0 {
		p.scheduleLocked(0)
	}
}

func (c *Conn) resetLocked(err error) {
	if c.err == nil {
		c.err = err
	}
	c.in.queue, c.in.queued = nil, 0
	delete(c.lh.conns, c)
	c.in.cond.Broadcast()
	c.out.cond.Broadcast()
}

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: err}
}

func sysErr(op string, err error) error {
	if e, ok := err.(syscall.Errno); ok {
		return os.NewSyscallError(op, e)
	}
	return err
}

func (c *Conn) Read(b []byte) (int, error) {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.rd.passed() {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(c.in.buf) > 0 && len(b) > 0 {
			k := min(len(b), len(c.in.buf))
			if k > 1 && n.params(n.linkOf(c.lh.ID, c.rh.ID)).Frag && n.rng.IntN(4) == 0 {
				k = 1 + n.rng.IntN(k)
			}
			copy(b, c.in.buf[:k])
			c.in.buf = c.in.buf[k:]
			if len(c.in.buf) == 0 {
				c.in.buf = nil
			}
			c.BytesIn += int64(k)
			c.in.cond.Broadcast() // window opens for the writer
			return k, nil
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.err != nil {
			return 0, c.opErr("read", sysErr("read", c.err))
		}
		if c.in.eof {
			return 0, io.EOF
		}
		c.in.cond.Wait()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.linkOf(c.lh.ID, c.rh.ID)
	p := n.params(l)
	win := p.Window
	if win <= 0 {
		win = 256 << 10
	}
	total := 0
	for {
		if c.closed {
			return total, c.opErr("write", net.ErrClosed)
		}
		if c.err != nil {
			return total, c.opErr("write", sysErr("write", c.err))
		}
		if c.wd.passed() {
			return total, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return total, nil
		}
		room := win - c.out.queued - len(c.out.buf)
		if room < min(len(b), win/4) { // no tiny segments just because little was read
			c.out.cond.Wait()
			continue
		}
		k := min(room, len(b), 64<<10)
		if p.Frag && k > 1 && n.rng.IntN(4) == 0 {
			k = 1 + n.rng.IntN(k)
		}
		if c.Limit > 0 && int64(k) >= c.Limit {
			k = int(c.Limit)
		}
		at := runtime.DSTNow() + int64(n.delay(c.lh.ID, c.rh.ID))
		if at <= c.out.lastAt {
			at = c.out.lastAt + 1
		}
		c.out.lastAt = at
		c.out.queue = append(c.out.queue, seg{at, append([]byte(nil), b[:k]...)})
		c.out.queued += k
		c.out.scheduleLocked(0)
		b = b[k:]
		total += k
		c.BytesOut += int64(k)
		if c.Limit > 0 {
			c.Limit -= int64(k)
			if c.Limit == 0 {
				c.out.rst = true
				c.err = syscall.ECONNRESET
				c.in.cond.Broadcast()
				delete(c.lh.conns, c)
				return total, c.opErr("write", sysErr("write", c.err))
			}
		}
	}
}

func (c *Conn) Close() error {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	if c.dialed {
		n.open[peering{c.node, c.rh.Name}]--
	}
	delete(c.lh.conns, c)
	if c.err == nil {
		if len(c.in.buf) > 0 {
			c.out.rst = true
		} else {
			c.out.fin = true
		}
		at := runtime.DSTNow() + int64(n.delay(c.lh.ID, c.rh.ID))
		if at <= c.out.lastAt {
			at = c.out.lastAt + 1
		}
		c.out.lastAt = at
		c.out.scheduleLocked(0)
	}
	c.in.cond.Broadcast()
	c.out.cond.Broadcast()
	for _, d := range []*deadline{&c.rd, &c.wd} {
		if d.timer != nil {
			d.timer.Stop()
		}
	}
	// forget the pipes on the link once both ends are done
	if c.peer.closed || c.peer.err != nil {
		l := n.linkOf(c.lh.ID, c.rh.ID)
		delete(l.pipes, c.in)
		delete(l.pipes, c.out)
	}
	return nil
}

// Abort closes the connection with a reset.
func (c *Conn) Abort() {
	n := c.n
	n.mu.Lock()
	c.out.rst = true
	c.out.lastAt = runtime.DSTNow() + int64(n.delay(c.lh.ID, c.rh.ID))
	c.out.queue, c.out.queued = nil, 0
	c.out.scheduleLocked(0)
	c.err = net.ErrClosed
	delete(c.lh.conns, c)
	c.in.cond.Broadcast()
	c.out.cond.Broadcast()
	n.mu.Unlock()
}

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

func (c *Conn) setDL(d *deadline, t time.Time, cond *sync.Cond) {
	if d.timer != nil {
		d.timer.Stop()
		d.timer = nil
	}
	d.t = t
	if !t.IsZero() {
		if w := time.Until(t); w > 0 {
			d.timer = time.AfterFunc(w, func() {
				c.n.mu.Lock()
				cond.Broadcast()
				c.n.mu.Unlock()
			})
		}
	}
	cond.Broadcast()
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.n.mu.Lock()
	defer c.n.mu.Unlock()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.setDL(&c.rd, t, c.in.cond)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.n.mu.Lock()
	defer c.n.mu.Unlock()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.setDL(&c.wd, t, c.out.cond)
	return nil
}

// RemoteHost is the host at the other end.
func (c *Conn) RemoteHost() *Host { return c.rh }

// RemoteNode is the process at the other end.
func (c *Conn) RemoteNode() int32 { return c.peer.node }

// ---- listeners and dialing ----

type Listener struct {
	h      *Host
	port   int
	node   int32
	cond   *sync.Cond
	queue  []*Conn
	closed bool
}

func (l *Listener) Accept() (net.Conn, error) {
	n := l.h.net
	n.mu.Lock()
	defer n.mu.Unlock()
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: net.ErrClosed}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.cond.Wait()
	}
}

func (l *Listener) Close() error {
	n := l.h.net
	n.mu.Lock()
	defer n.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	if l.h.listeners[l.port] == l {
		delete(l.h.listeners, l.port)
	}
	for _, c := range l.queue {
		c.out.rst = true
		c.out.scheduleLocked(n.delay(c.lh.ID, c.rh.ID))
		c.err = net.ErrClosed
	}
	l.cond.Broadcast()
	return nil
}

func (l *Listener) Addr() net.Addr {
	return &net.TCPAddr{IP: net.ParseIP(l.h.IP), Port: l.port}
}

var errDead = errors.New("simulated process is gone")

// ListenOn opens a listener on a host for an incarnation.
func (n *Net) ListenOn(h *Host, node int32, port int) (*Listener, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if h.listeners[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{h: h, port: port, node: node, cond: sync.NewCond(&n.mu)}
	h.listeners[port] = l
	return l, nil
}

// Listen is the hook behind net.Listen.
func (n *Net) Listen(_ context.Context, network, address string) (net.Listener, error) {
	h, inc, dead := n.NodeHost()
	if h == nil || dead {
		return nil, errDead
	}
	_, port, err := splitPort(address)
	if err != nil {
		return nil, err
	}
	return n.ListenOn(h, inc, port)
}

func splitPort(address string) (string, int, error) {
	host, ps, err := net.SplitHostPort(address)
	if err != nil {
		return "", 0, err
	}
	port, err := strconv.Atoi(ps)
	if err != nil {
		return "", 0, &net.AddrError{Err: "unknown port", Addr: address}
	}
	if port < 0 || port > 65535 {
		return "", 0, &net.AddrError{Err: "invalid port", Addr: address}
	}
	return host, port, nil
}

// Lookup is the hook behind name resolution.
func (n *Net) Lookup(host string) ([]net.IPAddr, error) {
	if ip := net.ParseIP(host); ip != nil {
		return []net.IPAddr{{IP: ip}}, nil
	}
	if host == "localhost" {
		return []net.IPAddr{{IP: net.IPv4(127, 0, 0, 1)}}, nil
	}
	if h := n.Host(strings.TrimSuffix(host, ".")); h != nil {
		return []net.IPAddr{{IP: net.ParseIP(h.IP)}}, nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}

func (n *Net) dialFailed(node int32, address string) {
	if n.OnDialFail != nil {
		n.OnDialFail(node, address)
	}
}

// Dial is the hook behind net.Dialer.
func (n *Net) Dial(ctx context.Context, network, address string) (net.Conn, error) {
	h, inc, dead := n.NodeHost()
	if dead {
		select {} // the process is gone
	}
	if h == nil {
		return nil, errDead
	}
	name, port, err := splitPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	if n.OnDial != nil {
		n.OnDial(inc, name, port)
	}
	var to *Host
	if name == "" || name == "localhost" {
		to = h
	} else if ip := net.ParseIP(name); ip != nil && ip.IsLoopback() {
		to = h
	} else {
		to = n.Host(strings.TrimSuffix(name, "."))
	}
	if to == nil {
		if net.ParseIP(name) != nil {
			// Nobody routes there.
			time.Sleep(time.Millisecond)
			n.dialFailed(inc, address)
			return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ENETUNREACH)}
		}
		// The name server takes a moment to say no.
		time.Sleep(time.Millisecond)
		n.dialFailed(inc, address)
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: name, IsNotFound: true}}
	}
	fail := func(err error) (net.Conn, error) {
		n.dialFailed(inc, address)
		if h, _, dead := n.NodeHost(); h == nil || dead {
			err = errDead
		}
		return nil, &net.OpError{Op: "dial", Net: network, Addr: &net.TCPAddr{IP: net.ParseIP(to.IP), Port: port}, Err: err}
	}
	wait := func(d time.Duration) error {
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-ctx.Done():
			return mapCtx(ctx.Err())
		case <-t.C:
			return nil
		}
	}
	n.mu.Lock()
	rtt := n.delay(h.ID, to.ID) + n.delay(h.ID, to.ID)
	n.mu.Unlock()
	if err := wait(rtt); err != nil {
		return fail(err)
	}
	// SYN retransmission while nothing answers.
	for try, gap := 0, time.Second; ; try++ {
		n.mu.Lock()
		silent := !to.Up || n.linkOf(h.ID, to.ID).blocked
		n.mu.Unlock()
		if !silent {
			break
		}
		if try == 0 {
			n.Fired["dial-blackhole"]++
		}
		if try == 6 {
			return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT))
		}
		if err := wait(gap); err != nil {
			return fail(err)
		}
		gap *= 2
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	l := to.listeners[port]
	if l == nil {
		n.Fired["dial-refused"]++
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	h.nextPort++
	la := &net.TCPAddr{IP: net.ParseIP(h.IP), Port: h.nextPort}
	ra := &net.TCPAddr{IP: net.ParseIP(to.IP), Port: port}
	n.connSeq += 2
	a := &Conn{n: n, id: n.connSeq, node: inc, lh: h, rh: to, la: la, ra: ra}
	a.dialed = true
	k := peering{inc, to.Name}
	n.open[k]++
	n.Most[k] = max(n.Most[k], n.open[k])
	b := &Conn{n: n, id: n.connSeq + 1, node: l.node, lh: to, rh: h, la: ra, ra: la}
	a.peer, b.peer = b, a
	a.in = &pipe{id: a.id, n: n, conn: a, cond: sync.NewCond(&n.mu), lastAt: runtime.DSTNow()}
	b.in = &pipe{id: b.id, n: n, conn: b, cond: sync.NewCond(&n.mu), lastAt: runtime.DSTNow()}
	a.out, b.out = b.in, a.in
	lk := n.linkOf(h.ID, to.ID)
	lk.pipes[a.in] = struct{}{}
	lk.pipes[b.in] = struct{}{}
	h.conns[a] = struct{}{}
	to.conns[b] = struct{}{}
	l.queue = append(l.queue, b)
	l.cond.Broadcast()
	return a, nil
}

func mapCtx(err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		return os.ErrDeadlineExceeded
	}
	return errors.New("operation was canceled")
}

// Broken reports whether the connection can no longer be used.
func (c *Conn) Broken() bool {
	c.n.mu.Lock()
	defer c.n.mu.Unlock()
	return c.closed || c.err != nil || c.silent || c.in.eof
}

// Listening reports whether something listens on a port of the host.
func (h *Host) Listening(port int) bool {
	h.net.mu.Lock()
	defer h.net.mu.Unlock()
	return h.listeners[port] != nil
}
