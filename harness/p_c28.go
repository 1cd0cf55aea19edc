package main

import (
	"context"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C28", MinEv: 300, Par: 16,
		Rule: "one evaluation per limit that had to fire (or not), per blocked operation that had to be released and per payload that crossed a pause; distinct = (situation, transport, side, limit)",
		Notes: []string{"lower bounds (nothing ends before the limit) are exact; upper bounds are the limit plus seconds, and only judged tightly while the process itself was scheduled in time",
			"all time limits are whole seconds, as the library has them; pauses are longer than the library's 3 s context-check interval"},
		Jobs: []JobSpec{
			{Name: "pause", Quick: 8, Deep: 48, Fn: c28pause},
			{Name: "write-limit", Quick: 8, Deep: 48, Fn: c28write},
			{Name: "read-limit", Quick: 8, Deep: 48, Fn: c28read},
			{Name: "close", Quick: 8, Deep: 48, Fn: c28close},
			{Name: "dial", Quick: 3, Deep: 24, Fn: c28dial},
		}})
}

// lag is the longest time a 10 ms sleep overslept, in ms: how late this process was scheduled.
var lagOnce sync.Once
var lagMax int64

func startLag() {
	lagOnce.Do(func() {
		go func() {
			for {
				t := time.Now()
				time.Sleep(10 * time.Millisecond)
				if d := int64(time.Since(t)/time.Millisecond) - 10; d > atomic.LoadInt64(&lagMax) {
					atomic.StoreInt64(&lagMax, d)
				}
			}
		}()
	})
}

func lagOK(ms int64) bool { return atomic.LoadInt64(&lagMax) < ms }

// gate lets a number of bytes through in one direction of a proxied connection.
type gate struct {
	mu     sync.Mutex
	cond   *sync.Cond
	passed int64
	limit  int64 // -1: none
	closed bool
	tap    *Tap
	endAt  time.Time // when the source ended
}

func newGate() *gate { g := &gate{limit: -1}; g.cond = sync.NewCond(&g.mu); return g }

// pauseAfter stops the flow after n more bytes.
func (g *gate) pauseAfter(n int64) { g.mu.Lock(); g.limit = g.passed + n; g.mu.Unlock() }

func (g *gate) resume() { g.mu.Lock(); g.limit = -1; g.cond.Broadcast(); g.mu.Unlock() }

func (g *gate) atLimit() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.limit >= 0 && g.passed >= g.limit
}

func (g *gate) ended() time.Time { g.mu.Lock(); defer g.mu.Unlock(); return g.endAt }

func (g *gate) count() int64 { g.mu.Lock(); defer g.mu.Unlock(); return g.passed }

func (g *gate) pump(dst, src net.Conn) {
	buf := make([]byte, 16<<10)
	for {
		g.mu.Lock()
		for g.limit >= 0 && g.passed >= g.limit && !g.closed {
			g.cond.Wait()
		}
		n := int64(len(buf))
		if g.limit >= 0 && g.limit-g.passed < n {
			n = g.limit - g.passed
		}
		if g.closed {
			n = 0
		}
		g.mu.Unlock()
		if n == 0 {
			return
		}
		// a limit set while this read is under way is exceeded by at most one read
		m, err := src.Read(buf[:n])
		if m > 0 {
			g.tap.add(buf[:m])
			if _, err := dst.Write(buf[:m]); err != nil {
				return
			}
		}
		g.mu.Lock()
		g.passed += int64(m)
		if err != nil && g.endAt.IsZero() {
			g.endAt = time.Now()
		}
		g.mu.Unlock()
		if err != nil {
			return
		}
	}
}

// gproxy relays connections to a server byte by byte.
type gproxy struct {
	ln    net.Listener
	mu    sync.Mutex
	links []*glink
}

type glink struct {
	up, down *gate // client to server, server to client
	a, b     net.Conn
}

func (l *glink) end() {
	for _, g := range []*gate{l.up, l.down} {
		g.mu.Lock()
		g.closed = true
		g.cond.Broadcast()
		g.mu.Unlock()
	}
	l.a.Close()
	l.b.Close()
}

func newProxy(c *C, target string, taps bool) *gproxy {
	p := &gproxy{ln: newListener()}
	go func() {
		for {
			a, err := p.ln.Accept()
			if err != nil {
				return
			}
			b, err := netDial(target, 10*time.Second)
			if err != nil {
				a.Close()
				continue
			}
			for _, x := range []net.Conn{a, b} {
				x.(*net.TCPConn).SetReadBuffer(64 << 10)
				x.(*net.TCPConn).SetWriteBuffer(64 << 10)
			}
			l := &glink{up: newGate(), down: newGate(), a: a, b: b}
			if taps {
				l.up.tap, l.down.tap = &Tap{}, &Tap{}
			}
			p.mu.Lock()
			p.links = append(p.links, l)
			p.mu.Unlock()
			go func() { l.up.pump(b, a); b.Close() }()
			go func() { l.down.pump(a, b); a.Close() }()
		}
	}()
	return p
}

func (p *gproxy) addr() string { return p.ln.Addr().String() }

func (p *gproxy) link(c *C, i int) (l *glink) {
	c.MustUntil("relayed connection", func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		if i < len(p.links) {
			l = p.links[i]
		}
		return l != nil
	})
	return
}

func (p *gproxy) stop() {
	p.ln.Close()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, l := range p.links {
		l.end()
	}
}

var c28modes = []string{"tcp", "tls", "ws", "wss"}

// c28conn connects a client through a proxy.
func c28conn(c *C, srv *Srv, p *gproxy, conf qrpc.ConnectionConfig, f qrpc.SubFunc) (conn *qrpc.Connection) {
	var err error
	if conf.WBufSize == 0 {
		conf.WBufSize, conf.RBufSize = 64<<10, 64<<10
	}
	c.Do("dialing the server", func() { conn, err = qrpc.NewConnection(p.addr(), clientConf(srv.Mode, conf), f) })
	if err != nil {
		c.Violate("dial", "NewConnection: %v", err)
		c.Abort()
	}
	return
}

// c28pause: no limits (or limits far above), the peer pauses for seconds in the middle of anything.
func c28pause(c *C) {
	startLag()
	r := c.Rng
	mode := c28modes[(c.K+int(baseSeed()))%4]
	const pushes = 60
	// reading a payload takes at most 3 s once there is a read limit
	rlimit, limit := r.Pick(0, -1), r.Pick(0, -1, 60)
	srv := startServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler, WBufSize: 64 << 10, RBufSize: 64 << 10, DefaultReadTimeout: rlimit, DefaultWriteTimeout: limit})
	px := newProxy(c, srv.Addrs[0], mode == "tcp")
	var drops int64
	var mu sync.Mutex
	var seen []uint64
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) {
		tag := tagOf28(f.Payload)
		mu.Lock()
		seen = append(seen, tag)
		mu.Unlock()
		if !same(f.Payload, push28(tag)) {
			c.Violate("corrupt", "%s: a push crossed a pause as %s, want %s", mode, brief(f.Payload), brief(push28(tag)))
		}
	}
	conf := qrpc.ConnectionConfig{ReadTimeout: rlimit, WriteTimeout: limit, LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{OnDisconnect: func(*qrpc.Connection) { atomic.AddInt64(&drops, 1) }}}
	conn := c28conn(c, srv, px, conf, sub)
	link := px.link(c, 0)
	c.probe(conn, "setup", "before any pause")
	var w qrpc.FrameWriter
	c.MustUntil("registration of the connection", func() bool {
		srv.S.WalkConn(0, func(fw qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { w = ci.GetWriter(); return false })
		return w != nil
	})

	// the traffic goes on until the pauses are over
	var over int32
	var calls int64
	rngs := []*Rng{}
	for i := 0; i < 6; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(7, func(g int) {
		if g == 6 {
			for i := uint64(0); i < pushes || atomic.LoadInt32(&over) == 0; i++ {
				w.StartWrite(srv.S.GetPushID(), 9, qrpc.PushFlag)
				w.WriteBytes(push28(i))
				if err := w.EndWrite(); err != nil {
					c.Violate("push", "%s limit %d: a push failed: %v", mode, limit, err)
					return
				}
				if i > pushes {
					time.Sleep(50 * time.Millisecond)
				}
			}
			return
		}
		rr := rngs[g]
		for i := 0; (i < 20 || atomic.LoadInt32(&over) == 0) && !c.Violated(); i++ {
			pl := gen(rr.Uint64(), rr.Pick(0, 1, 100, 3000, 70000, 300000))
			cmd := uint32(rr.Range(1, 0xffffff))
			_, resp, err := conn.Request(qrpc.Cmd(cmd), qrpc.FrameFlag(rr.Pick(0, int(qrpc.NBFlag))), pl)
			var f *qrpc.Frame
			if err == nil {
				f, err = resp.GetFrame()
			}
			if err != nil {
				c.Violate("call", "%s limit %d: a request that crossed a pause failed: %v", mode, limit, err)
				return
			}
			rc, rp := respFor(cmd, pl)
			if uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("corrupt", "%s: an answer that crossed a pause is cmd %#x %s, want %#x %s", mode, f.Cmd, brief(f.Payload), rc, brief(rp))
			}
			atomic.AddInt64(&calls, 1)
			c.Eval("")
		}
	})
	rounds := 2
	if c.Tier == "thorough" {
		rounds = 5
	}
	for i := 0; i < rounds && !c.Violated(); i++ {
		var gs []*gate
		switch r.Intn(3) {
		case 0:
			gs = append(gs, link.up)
		case 1:
			gs = append(gs, link.down)
		default:
			gs = append(gs, link.up, link.down)
		}
		if i < 2 { // both directions in the first two rounds
			gs = []*gate{[]*gate{link.up, link.down}[(i+c.K/4)%2]}
		}
		for _, g := range gs {
			g.pauseAfter(int64(r.Intn(200000)))
		}
		before := atomic.LoadInt64(&calls)
		c.Until(func() bool { return gs[0].atLimit() || c.Violated() })
		d := time.Duration(r.Range(3300, 4600)) * time.Millisecond
		time.Sleep(d)
		for _, g := range gs {
			g.resume()
		}
		c.Logf("pause %d: %v at byte %d after %d calls", i, d, gs[0].count(), before)
		c.Eval(fmt.Sprint("pause ", mode, " ", i, limit, len(gs), gs[0] == link.up))
		c.MustUntil("traffic after a pause", func() bool { return atomic.LoadInt64(&calls) > before+6 || c.Violated() })
	}
	atomic.StoreInt32(&over, 1)
	if !c.waitAtLeast(done, 2*stallWall, 2*stallTicks) {
		c.StallAbort("calls after the pauses")
	}
	if c.Violated() {
		return
	}
	if conn.IsClosed() || atomic.LoadInt64(&drops) > 0 || !link.up.ended().IsZero() || !link.down.ended().IsZero() {
		c.Violate("dropped", "%s limit %d: a peer that paused was disconnected", mode, limit)
		return
	}
	c.probe(conn, "after", "after the pauses")
	c.MustUntil("pushes", func() bool { mu.Lock(); defer mu.Unlock(); return len(seen) >= pushes })
	mu.Lock()
	for i, v := range seen {
		if v != uint64(i) {
			c.Violate("push-order", "%s: push %d is number %d", mode, v, i)
			break
		}
		c.Eval("")
	}
	mu.Unlock()
	if mode == "tcp" {
		for _, g := range []*gate{link.up, link.down} {
			fs, _, err := parseWire(g.tap.Bytes())
			if err != nil {
				c.Violate("wire", "the bytes that crossed the pauses are no sequence of frames: %v", err)
			}
			ids := map[uint64]bool{}
			for _, f := range fs {
				if f.Flags&fPush != 0 {
					continue
				}
				if ids[f.ID] {
					c.Violate("repeated", "the frame with id %d was sent twice", f.ID)
				}
				ids[f.ID] = true
			}
			c.Count("wire_frames_checked", int64(len(fs)))
		}
	}
	closeConn(c, conn)
	px.stop()
	srv.Stop()
}

func push28(i uint64) []byte {
	p := gen(i+7, 8+int(i*7919%40000))
	for k := 0; k < 8; k++ {
		p[k] = byte(i >> (8 * k))
	}
	return p
}

func tagOf28(p []byte) (i uint64) {
	for k := 0; k < 8 && k < len(p); k++ {
		i |= uint64(p[k]) << (8 * k)
	}
	return
}

const (
	tcFlood = iota + 1
	tcEcho
	tcSet
	tcSilent
	tcRead
	tcAsk
	tcClose
)

// c28write: a write to a peer that has stopped reading fails within the limit and ends the connection.
func c28write(c *C) {
	startLag()
	mode := c28modes[(c.K+int(baseSeed()))%4]
	server := (c.K/4)%2 == 0
	var wg sync.WaitGroup
	limits := []int{1, 2, 4}
	for i, t := range limits {
		wg.Add(1)
		r := c.Rng.Fork()
		go func(i, t int) {
			defer wg.Done()
			if server {
				c28writeServer(c, r, mode, t, r.Pick(1, 1, 4))
			} else {
				c28writeClient(c, r, mode, t, r.Pick(1, 1, 4), i == 0)
			}
		}(i, t)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.waitAtLeast(done, 5*stallWall, 5*stallTicks) {
		c.StallAbort("write limits")
	}
}

// c28short lets a pause below the limit pass.
func c28short(r *Rng, t int) time.Duration {
	if t == 1 {
		return 300 * time.Millisecond
	}
	return time.Duration(t)*time.Second - time.Duration(r.Range(700, 900))*time.Millisecond
}

func c28writeServer(c *C, r *Rng, mode string, t, writers int) {
	key := fmt.Sprintf("server %s write limit %d writers %d", mode, t, writers)
	type fail struct {
		after time.Duration
		err   error
		n     int
	}
	fails := make(chan fail, writers)
	closed := make(chan struct{})
	progress := int64(0)
	hold := make(chan struct{})
	held := make(chan struct{}, 1)
	srv := startBeside(c, mode, qrpc.ServerBinding{DefaultWriteTimeout: r.Pick(0, t%4+1, t+4), Handler: echoHandler}, qrpc.ServerBinding{DefaultWriteTimeout: t, WBufSize: 64 << 10, RBufSize: 64 << 10, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0x7777 { // a blocking handler that is busy meanwhile
			held <- struct{}{}
			<-hold
			return
		}
		if q.Cmd != tcFlood {
			answer(w, q)
			return
		}
		q.ConnectionInfo().NotifyWhenClose(func() {
			defer func() { recover() }()
			close(closed)
		})
		for n := 0; ; n++ {
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes(make([]byte, 20000))
			b := time.Now()
			if err := w.EndWrite(); err != nil {
				fails <- fail{time.Since(b), err, n}
				return
			}
			atomic.AddInt64(&progress, 1)
		}
	})})
	px := newProxy(c, srv.Addrs[0], false)
	conn := c28conn(c, srv, px, qrpc.ConnectionConfig{}, nil)
	link := px.link(c, 0)
	for i := 0; i < writers; i++ {
		_, resp, err := conn.Request(tcFlood, qrpc.NBFlag, nil)
		if err != nil {
			c.Violate("setup", "%s: %v", key, err)
			return
		}
		go func() {
			if f, err := resp.GetFrame(); err == nil {
				for range f.FrameCh() {
				}
			}
		}()
	}
	c.MustUntil("flow of frames", func() bool { return atomic.LoadInt64(&progress) > 20 })
	if r.P(1, 2) {
		key += " handler busy"
		if _, _, err := conn.Request(0x7777, 0, nil); err != nil {
			c.Violate("setup", "%s: %v", key, err)
			return
		}
		c.Do("start of the blocking handler", func() { <-held })
	}
	c28stalls(c, r, key, t, link.down, &progress, func() bool { return len(fails) > 0 })
	for i := 0; i < writers; i++ {
		var f fail
		c.Do("end of a write to a peer that stopped reading", func() { f = <-fails })
		if writers == 1 && f.after < time.Duration(t)*time.Second-20*time.Millisecond {
			c.Violate("too-early", "%s: a write failed after %v: %v", key, f.after, f.err)
		}
		if f.after > within(t, mode, writers) && lagOK(300) {
			c.Violate("too-late", "%s: a write failed only after %v: %v", key, f.after, f.err)
		}
		c.Eval(key)
	}
	c.Must("end of the connection whose write timed out", closed)
	link.down.resume()
	c.MustUntil("end of the connection at the peer", conn.IsClosed)
	close(hold)
	c.Eval(key + " closed")
	// others are not concerned
	other := srv.dial(qrpc.ConnectionConfig{}, nil)
	c.probe(other, "other", key+": another connection")
	other.Close()
	conn.Close()
	px.stop()
	srv.Stop()
}

// within is when a write to a peer that stopped reading must have failed at the latest. With several
// writers one waits for the other: a write may get the last room there is after 3 s, and the next one gets
// the whole limit. Closing a tls connection whose socket is full takes the standard library 5 s, and a
// failed write is reported after the connection was closed.
func within(t int, mode string, writers int) time.Duration {
	d := time.Duration(t+2) * time.Second
	if writers > 1 {
		d += time.Duration(t+1) * time.Second
	}
	if mode == "tls" || mode == "wss" {
		d += 5 * time.Second
	}
	return d
}

// c28stalls makes a pause that is shorter than the limit, and then the final one.
func c28stalls(c *C, r *Rng, key string, t int, g *gate, progress *int64, failed func() bool) {
	g.pauseAfter(int64(r.Intn(60000)))
	c.Until(func() bool { return g.atLimit() || failed() })
	time.Sleep(c28short(r, t))
	g.resume()
	p := atomic.LoadInt64(progress)
	c.MustUntil("flow after a short pause", func() bool { return atomic.LoadInt64(progress) > p+10 || failed() })
	if failed() && lagOK(200) {
		c.Violate("too-early", "%s: a pause of %v ended the connection", key, c28short(r, t))
	}
	c.Eval(key + " short pause")
	g.pauseAfter(int64(r.Intn(60000)))
}

func c28writeClient(c *C, r *Rng, mode string, t, writers int, reconnect bool) {
	key := fmt.Sprintf("client %s write limit %d writers %d reconnect %v", mode, t, writers, reconnect)
	srv := startServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler, SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {}, WBufSize: 64 << 10, RBufSize: 64 << 10})
	px := newProxy(c, srv.Addrs[0], false)
	off := make(chan struct{}, 10)
	conf := qrpc.ConnectionConfig{WriteTimeout: t, WBufSize: 64 << 10, RBufSize: 64 << 10,
		LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{OnDisconnect: func(*qrpc.Connection) { off <- struct{}{} }}}
	var conn *qrpc.Connection
	if reconnect {
		conn = qrpc.NewConnectionWithReconnect([]string{px.addr()}, clientConf(mode, conf), nil)
	} else {
		conn = c28conn(c, srv, px, conf, nil)
	}
	c.probe(conn, "setup", key)
	type fail struct {
		after time.Duration
		err   error
	}
	for round := 0; round < 2; round++ {
		link := px.link(c, round)
		progress := int64(0)
		fails := make(chan fail, writers)
		for i := 0; i < writers; i++ {
			go func() {
				for {
					b := time.Now()
					if _, _, err := conn.Request(1, qrpc.PushFlag, make([]byte, 20000)); err != nil {
						fails <- fail{time.Since(b), err}
						return
					}
					atomic.AddInt64(&progress, 1)
				}
			}()
		}
		c.MustUntil("flow of frames", func() bool { return atomic.LoadInt64(&progress) > 20 })
		c28stalls(c, r, key, t, link.up, &progress, func() bool { return len(fails) > 0 })
		for i := 0; i < writers; i++ {
			var f fail
			c.Do("end of a write to a peer that stopped reading", func() { f = <-fails })
			if writers == 1 && f.after < time.Duration(t)*time.Second-20*time.Millisecond {
				c.Violate("too-early", "%s: a write failed after %v: %v", key, f.after, f.err)
			}
			if f.after > within(t, mode, writers) && lagOK(300) {
				c.Violate("too-late", "%s: a write failed only after %v: %v", key, f.after, f.err)
			}
			c.Eval(key)
		}
		c.Do("end of the connection whose write timed out", func() { <-off })
		if reconnect {
			px.link(c, round+1)
			c.MustUntil("working connection after reconnecting", func() bool {
				_, resp, err := conn.Request(1, 0, nil)
				if err == nil {
					_, err = resp.GetFrame()
				}
				return err == nil
			})
		} else {
			c.Do("Wait of the connection whose write timed out", conn.Wait)
		}
		c.Eval(key + " closed")
		if !reconnect {
			break
		}
		key += " again"
	}
	conn.Close()
	c.Do("Wait of a closed connection", conn.Wait)
	px.stop()
	srv.Stop()
}

// c28read: silent peers are dropped after the limit, not before; peers that keep sending are not.
func c28read(c *C) {
	startLag()
	mode := c28modes[(c.K+int(baseSeed()))%4]
	server := (c.K/4)%2 == 0
	r := c.Rng
	var wg sync.WaitGroup
	run := func(f func(r *Rng)) {
		wg.Add(1)
		rr := r.Fork()
		go func() { defer wg.Done(); f(rr) }()
	}
	if server {
		for _, t := range []int{1, 2, 5} {
			t := t
			srv := c28readServer(c, mode, t)
			run(func(r *Rng) { c28silent(c, srv, fmt.Sprintf("server %s read limit %d", mode, t), t, r, false) })
			run(func(r *Rng) { c28silent(c, srv, fmt.Sprintf("server %s read limit %d", mode, t), t, r, true) })
			run(func(r *Rng) { c28keeps(c, srv, fmt.Sprintf("server %s read limit %d", mode, t), t, r) })
			if mode == "tcp" {
				run(func(r *Rng) { c28halfFrame(c, srv, t, r) })
			}
		}
		for _, ab := range [][2]int{{0, 1}, {-1, 2}, {1, 0}, {1, -1}, {1, 3}, {3, 1}, {2, 5}} {
			ab := ab
			srv := c28readServer(c, mode, ab[0])
			run(func(r *Rng) { c28change(c, srv, mode, ab[0], ab[1], r) })
		}
	} else {
		for _, t := range []int{1, 2, 5} {
			t := t
			run(func(r *Rng) { c28clientSilent(c, mode, t, r) })
		}
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.waitAtLeast(done, 5*stallWall, 5*stallTicks) {
		c.StallAbort("read limits")
	}
}

func c28readServer(c *C, mode string, t int) *Srv {
	return startBeside(c, mode, qrpc.ServerBinding{DefaultReadTimeout: c.Rng.Pick(0, -1, 1, 2, 4), Handler: echoHandler}, qrpc.ServerBinding{DefaultReadTimeout: t, SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {}, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		switch q.Cmd {
		case tcSet:
			q.ConnectionInfo().ReaderConfig().SetReadTimeout(int(int8(q.Payload[0])))
		case tcFlood:
			// what the server sends does not make the client less silent
			cw := q.ConnectionInfo().GetWriter()
			gone := make(chan struct{})
			q.ConnectionInfo().NotifyWhenClose(func() { close(gone) })
			go func() {
				for {
					cw.StartWrite(q.ConnectionInfo().Server().GetPushID(), 1, qrpc.PushFlag)
					if cw.EndWrite() != nil {
						return
					}
					select {
					case <-gone:
						return
					case <-time.After(100 * time.Millisecond):
					}
				}
			}()
		}
		answer(w, q)
	})})
}

// expectDrop checks that the connection ends t seconds after the last byte was sent to it.
func expectDrop(c *C, key string, sent time.Time, t int, over <-chan struct{}) {
	c.Must("end of a connection that stayed silent", over)
	el := time.Since(sent)
	if el < time.Duration(t)*time.Second-20*time.Millisecond {
		c.Violate("too-early", "%s: closed %v after the last byte was sent", key, el)
	}
	if el > time.Duration(t+2)*time.Second && lagOK(300) {
		c.Violate("too-late", "%s: closed only %v after the last byte was sent", key, el)
	}
	c.Eval(key + " dropped")
}

func waited(conn *qrpc.Connection) <-chan struct{} {
	ch := make(chan struct{})
	go func() { conn.Wait(); close(ch) }()
	return ch
}

// c28silent: silent from the beginning or after some traffic.
func c28silent(c *C, srv *Srv, key string, t int, r *Rng, traffic bool) {
	sent := time.Now()
	conn := srv.dial(qrpc.ConnectionConfig{}, func(*qrpc.Connection, *qrpc.Frame) {})
	over := waited(conn)
	if traffic {
		for i := 0; i < r.Range(1, 4); i++ {
			cmd := qrpc.Cmd(r.Pick(tcEcho, tcEcho, tcFlood))
			sent = time.Now()
			c.call(conn, uint32(cmd), qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag))), gen(r.Uint64(), r.Pick(0, 5, 5000, 100000)))
		}
	}
	expectDrop(c, fmt.Sprint(key, " traffic ", traffic), sent, t, over)
}

// c28keeps: one that keeps sending is not dropped.
func c28keeps(c *C, srv *Srv, key string, t int, r *Rng) {
	conn := srv.dial(qrpc.ConnectionConfig{}, nil)
	over := waited(conn)
	gap := time.Duration(t) * time.Second / 3
	n := 7
	if t > 2 {
		n = 4
	}
	sent := time.Now()
	for i := 0; i < n; i++ {
		b := sent
		time.Sleep(gap)
		sent = time.Now()
		_, _, err := conn.Request(tcEcho, qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag), int(qrpc.PushFlag))), gen(r.Uint64(), r.Pick(0, 1, 3000)))
		if (err != nil || closedCh(over)) && sent.Sub(b) < gap*3/2 && lagOK(150) {
			c.Violate("dropped", "%s: a connection that sent a frame every %v was closed: %v", key, gap, err)
			return
		}
		if err != nil {
			return
		}
		c.Eval(key + " keeps sending")
	}
	expectDrop(c, key+" kept sending", sent, t, over)
}

// c28halfFrame: a frame that is never completed.
func c28halfFrame(c *C, srv *Srv, t int, r *Rng) {
	p := dialRaw(c, srv.Addrs[0])
	b := WFrame{ID: 1, Flags: fNB, Cmd: tcEcho, Payload: gen(3, 500)}.Bytes()
	n := r.Pick(1, 15, 16, 17, 300, len(b)-1)
	at := time.Now()
	p.nc.Write(b[:n])
	min := t
	if n >= 16 && min > 3 {
		min = 3
	}
	expectDrop(c, fmt.Sprintf("server tcp read limit %d with %d bytes of a frame of %d", t, n, len(b)), at, min, p.over)
	if n := p.N(); n > 0 {
		c.Violate("answered", "an incomplete frame was answered")
	}
	p.Close()
}

// c28change: the limit is changed while the connection is in use.
func c28change(c *C, srv *Srv, mode string, a, b int, r *Rng) {
	key := fmt.Sprintf("server %s read limit changed from %d to %d", mode, a, b)
	conn := srv.dial(qrpc.ConnectionConfig{}, nil)
	over := waited(conn)
	set := func(v int) bool {
		// the handler runs before the next frame is read
		_, _, err := c.call(conn, tcSet, 0, []byte{byte(int8(v))})
		if err != nil {
			if lagOK(150) {
				c.Violate("dropped", "%s: the connection was closed while in use: %v", key, err)
			}
			return false
		}
		return true
	}
	sent := time.Now()
	if !set(b) {
		return
	}
	if b <= 0 {
		// silent for longer than the old limit
		time.Sleep(time.Duration(a)*time.Second + 1300*time.Millisecond)
		if closedCh(over) {
			c.Violate("dropped", "%s: a silent connection without limit was closed", key)
			return
		}
		c.probe(conn, "after", key)
		c.Eval(key + " not dropped")
		sent = time.Now()
		if !set(1) {
			return
		}
		b = 1
	}
	if r.P(1, 2) && b > a && a > 0 {
		// longer than the old limit
		time.Sleep(time.Duration(a)*time.Second + 400*time.Millisecond)
		sent = time.Now()
		if _, _, err := c.call(conn, tcEcho, 0, nil); err != nil && lagOK(150) {
			c.Violate("dropped", "%s: a frame after a pause within the limit failed: %v", key, err)
			return
		}
	}
	expectDrop(c, key, sent, b, over)
}

// c28clientSilent: the client's limit.
func c28clientSilent(c *C, mode string, t int, r *Rng) {
	key := fmt.Sprintf("client %s read limit %d", mode, t)
	srv := startServer(c, mode, nil, qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == tcSilent {
			<-q.Context().Done()
			return
		}
		answer(w, q)
	})})
	// silent, with a request waiting
	conn := srv.dial(qrpc.ConnectionConfig{ReadTimeout: t}, nil)
	over := waited(conn)
	sent := time.Now()
	c.probe(conn, "setup", key)
	_, resp, err := conn.Request(tcSilent, qrpc.NBFlag, nil)
	if err != nil {
		c.Violate("setup", "%s: %v", key, err)
		return
	}
	rel := make(chan struct{})
	go func() {
		defer close(rel)
		if _, err := resp.GetFrame(); err == nil {
			c.Violate("answered", "%s: an answer nobody gave", key)
		}
	}()
	expectDrop(c, key, sent, t, over)
	c.Must("end of a request of a connection that timed out", rel)
	// a server that keeps sending
	conn = srv.dial(qrpc.ConnectionConfig{ReadTimeout: t}, nil)
	over = waited(conn)
	gap := time.Duration(t) * time.Second / 3
	for i := 0; i < 6; i++ {
		sent = time.Now()
		if _, _, err := c.call(conn, tcEcho, qrpc.NBFlag, nil); err != nil {
			if lagOK(150) {
				c.Violate("dropped", "%s: a connection that received a frame every %v was closed: %v", key, gap, err)
			}
			return
		}
		if i == 5 {
			break
		}
		time.Sleep(gap)
		c.Eval(key + " keeps sending")
	}
	expectDrop(c, key+" kept sending", sent, t, over)
	srv.Stop()
}

// c28close: Close releases whatever waits.
func c28close(c *C) {
	startLag()
	mode := c28modes[(c.K+int(baseSeed()))%4]
	if (c.K/4)%2 == 0 {
		c28closeClient(c, mode)
	} else {
		for _, how := range []string{"handler", "shutdown", "peer"} {
			c28closeServer(c, mode, how)
		}
	}
}

// blocked runs operations that block and tells when they end.
type blocked struct {
	c    *C
	mu   sync.Mutex
	end  map[string]time.Time
	left int32
	all  chan struct{}
	n    int32
}

func newBlocked(c *C) *blocked {
	return &blocked{c: c, end: map[string]time.Time{}, all: make(chan struct{})}
}

func (b *blocked) run(name string, f func()) {
	atomic.AddInt32(&b.left, 1)
	atomic.AddInt32(&b.n, 1)
	go b.in(name, f)
}

func (b *blocked) in(name string, f func()) {
	f()
	b.mu.Lock()
	b.end[fmt.Sprint(name, "#", len(b.end))] = time.Now()
	b.mu.Unlock()
	atomic.AddInt32(&b.left, -1)
}

func (b *blocked) ended() int { b.mu.Lock(); defer b.mu.Unlock(); return len(b.end) }

func (b *blocked) check(key string, at time.Time, within time.Duration) {
	b.c.MustUntil("release of what waited on a connection that was closed: "+key, func() bool { return atomic.LoadInt32(&b.left) == 0 })
	b.mu.Lock()
	defer b.mu.Unlock()
	for k, t := range b.end {
		if t.Before(at) {
			b.c.Violate("early", "%s: %s ended before the connection was closed", key, k)
		}
		if t.Sub(at) > within && lagOK(300) {
			b.c.Violate("late", "%s: %s was released %v after the connection was closed", key, k, t.Sub(at))
		}
		b.c.Eval(key + " " + k)
	}
}

func c28closeClient(c *C, mode string) {
	r := c.Rng
	for round := 0; round < 3 && !c.Violated(); round++ {
		limit := r.Pick(0, 30)
		key := fmt.Sprintf("%s client Close, limits %d", mode, limit)
		srv := startServer(c, mode, nil, qrpc.ServerBinding{WBufSize: 64 << 10, RBufSize: 64 << 10, SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {}, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			if q.Cmd == tcEcho || q.Cmd == 0x77 {
				answer(w, q)
				return
			}
			if q.Cmd == tcRead {
				w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
				w.EndWrite()
			}
			<-q.Context().Done()
		})})
		px := newProxy(c, srv.Addrs[0], false)
		conn := c28conn(c, srv, px, qrpc.ConnectionConfig{ReadTimeout: limit, WriteTimeout: limit, WriteFrameChSize: r.Pick(0, 2)}, nil)
		link := px.link(c, 0)
		c.probe(conn, "setup", key)
		b := newBlocked(c)
		// an answer that does not come
		_, resp, err := conn.Request(tcSilent, qrpc.NBFlag, nil)
		if err == nil {
			b.run("GetFrame", func() { resp.GetFrame() })
		}
		// an answer whose second frame does not come
		if _, resp, err := conn.Request(tcRead, qrpc.NBFlag, nil); err == nil {
			f, err := c.getFrame("first frame of a streamed answer", resp)
			if err != nil {
				c.Violate("setup", "%s: %v", key, err)
				return
			}
			b.run("FrameCh", func() {
				for range f.FrameCh() {
				}
			})
		}
		sw, resp2, err := conn.StreamRequest(tcSilent, 0, nil)
		if err != nil {
			c.Violate("setup", "%s: %v", key, err)
			return
		}
		b.run("GetFrame of a stream", func() { resp2.GetFrame() })
		b.run("Wait", conn.Wait)
		link.up.pauseAfter(0)
		b.run("stream EndWrite", func() {
			for {
				sw.StartWrite(1)
				sw.WriteBytes(make([]byte, 20000))
				if sw.EndWrite(false) != nil {
					return
				}
			}
		})
		for i := 0; i < r.Range(1, 5); i++ {
			b.run("Request", func() {
				for {
					if _, _, err := conn.Request(1, qrpc.PushFlag, make([]byte, 20000)); err != nil {
						return
					}
				}
			})
		}
		// until nothing moves
		time.Sleep(time.Duration(r.Range(200, 3300)) * time.Millisecond)
		if n := b.ended(); n > 0 {
			c.Violate("early", "%s: %d blocked operations ended before the connection was closed", key, n)
			return
		}
		at := time.Now()
		conn.Close()
		b.check(key, at, 2*time.Second)
		link.up.resume()
		px.stop()
		srv.Stop()
	}
}

func c28closeServer(c *C, mode, how string) {
	if c.Violated() {
		return
	}
	r := c.Rng
	key := fmt.Sprintf("%s server, closed by %s", mode, how)
	b := newBlocked(c)
	h := func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		switch q.Cmd {
		case tcFlood:
			b.in("EndWrite", func() {
				for {
					w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
					w.WriteBytes(make([]byte, 20000))
					if w.EndWrite() != nil {
						return
					}
				}
			})
		case tcAsk:
			b.in("GetFrame", func() {
				if _, resp, err := q.ConnectionInfo().Request(tcSilent, qrpc.NBFlag, nil); err == nil {
					resp.GetFrame()
				}
			})
		case tcRead:
			b.in("FrameCh", func() {
				for range q.FrameCh() {
				}
			})
		case tcSilent:
			b.in("Done", func() { <-q.Context().Done() })
		case tcClose:
			time.Sleep(time.Duration(q.Payload[0]) * 10 * time.Millisecond)
			q.Close()
		default:
			answer(w, q)
		}
	}
	srv := startServer(c, mode, nil, qrpc.ServerBinding{WBufSize: 64 << 10, RBufSize: 64 << 10, WriteFrameChSize: r.Pick(0, 3), Handler: qrpc.HandlerFunc(h)})
	px := newProxy(c, srv.Addrs[0], false)
	never := make(chan struct{})
	defer close(never)
	conn := c28conn(c, srv, px, qrpc.ConnectionConfig{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		select {
		case <-q.Context().Done():
		case <-never:
		}
	})}, nil)
	link := px.link(c, 0)
	c.probe(conn, "setup", key)
	n := r.Range(1, 3)
	atomic.StoreInt32(&b.left, int32(n+3))
	conn.Request(tcAsk, qrpc.NBFlag, nil)
	conn.StreamRequest(tcRead, 0, nil)
	conn.Request(tcSilent, qrpc.NBFlag, nil)
	for i := 0; i < n; i++ {
		conn.Request(tcFlood, qrpc.NBFlag, nil)
	}
	link.down.pauseAfter(0)
	wait := time.Duration(r.Range(300, 3400)) * time.Millisecond
	var at time.Time
	within := 2 * time.Second
	switch how {
	case "handler":
		at = time.Now()
		conn.Request(tcClose, qrpc.NBFlag, []byte{byte(wait / (10 * time.Millisecond) % 256)})
		within += 3 * time.Second
	case "shutdown":
		time.Sleep(wait)
		at = time.Now()
		within += 2 * time.Second
		go srv.Stop()
	case "peer":
		time.Sleep(wait)
		at = time.Now()
		link.end()
	}
	b.check(key, at, within)
	conn.Close()
	px.stop()
	srv.Stop()
}

// c28dial: connecting to something that does not answer.
func c28dial(c *C) {
	startLag()
	r := c.Rng
	// a listener whose queue is full
	full, fill := fullListener(c)
	defer fill()
	// a listener that accepts and says nothing, or only a byte now and then
	mute := newListener()
	go func() {
		var keep []net.Conn // a collected connection would be closed
		defer func() {
			for _, nc := range keep {
				nc.Close()
			}
		}()
		for i := 0; ; i++ {
			nc, err := mute.Accept()
			if err != nil {
				return
			}
			keep = append(keep, nc)
			if i%2 == 1 {
				go func() {
					for _, x := range []byte("\x16\x03\x03\x20\x00HTTP/1.1 101 Switching Protocols\r\nX: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa") {
						if _, err := nc.Write([]byte{x}); err != nil {
							return
						}
						time.Sleep(200 * time.Millisecond)
					}
				}()
			}
		}
	}()
	defer mute.Close()
	var wg sync.WaitGroup
	for _, mode := range c28modes {
		for _, kind := range []string{"plain", "reconnect", "reused", "api"} {
			for _, addr := range []string{full, mute.Addr().String()} {
				if mode == "tcp" && addr != full || kind == "reused" && mode != "tcp" && mode != "tls" {
					continue
				}
				wg.Add(1)
				mode, kind, addr, rr := mode, kind, addr, r.Fork()
				go func() {
					defer wg.Done()
					n := 1
					if addr != full {
						n = 2 // both kinds of mute peer
					}
					for i := 0; i < n; i++ {
						c28dialOne(c, rr, mode, kind, addr, addr == full)
					}
				}()
			}
		}
	}
	// a connection that was made in time stays
	for _, mode := range c28modes {
		wg.Add(1)
		mode, rr := mode, r.Fork()
		go func() {
			defer wg.Done()
			d := time.Duration(rr.Range(500, 900)) * time.Millisecond
			srv := startServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler})
			conf := clientConf(mode, qrpc.ConnectionConfig{DialTimeout: d})
			var conns []*qrpc.Connection
			conn, err := qrpc.NewConnection(srv.Addrs[0], conf, nil)
			if err == nil {
				conns = append(conns, conn)
			}
			if mode == "tcp" || mode == "tls" {
				if conn, err := qrpc.NewReusedConnection(srv.Addrs[0], conf, nil); err == nil {
					conns = append(conns, conn)
				}
			}
			conns = append(conns, qrpc.NewConnectionWithReconnect([]string{srv.Addrs[0]}, conf, nil))
			time.Sleep(d + 800*time.Millisecond)
			for _, conn := range conns {
				if conn.IsClosed() {
					c.Violate("dropped", "%s: a connection was closed %v after dialing with a timeout of that", mode, d)
					continue
				}
				c.probe(conn, "after-dial", fmt.Sprintf("%s connection older than its dial timeout %v", mode, d))
				c.Eval("stays " + mode)
				conn.Close()
				c.Do("Wait of a closed connection", conn.Wait)
			}
			srv.Stop()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.waitAtLeast(done, 5*stallWall, 5*stallTicks) {
		c.StallAbort("dialing")
	}
}

func c28dialOne(c *C, r *Rng, mode, kind, addr string, full bool) {
	d := time.Duration(r.Range(500, 1500)) * time.Millisecond
	key := fmt.Sprintf("%s %s queue full %v", mode, kind, full)
	conf := clientConf(mode, qrpc.ConnectionConfig{DialTimeout: d})
	at := time.Now()
	var conn *qrpc.Connection
	var err error
	c.Do("connecting with a dial timeout: "+key, func() {
		switch kind {
		case "plain":
			conn, err = qrpc.NewConnection(addr, conf, nil)
		case "reconnect":
			conn = qrpc.NewConnectionWithReconnect([]string{addr}, conf, nil)
		case "reused":
			conn, err = qrpc.NewReusedConnection(addr, conf, nil)
		case "api":
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			api := qrpc.NewAPI([]string{addr}, conf, nil)
			_, err = api.CallOne(ctx, addr, 1, nil)
			if err == nil {
				c.Violate("connected", "%s: a call succeeded", key)
			}
			closeAPI(api)
		}
	})
	el := time.Since(at)
	if err == nil && kind != "reconnect" && kind != "api" {
		c.Violate("connected", "%s: no error after %v", key, el)
		conn.Close()
		return
	}
	if el < d-20*time.Millisecond && kind != "api" {
		c.Violate("dial-early", "%s: gave up after %v, the timeout is %v: %v", key, el, d, err)
	}
	if el > d+1500*time.Millisecond && kind != "api" && lagOK(300) {
		c.Violate("dial-late", "%s: gave up only after %v, the timeout is %v: %v", key, el, d, err)
	}
	c.Eval(key)
	if kind == "reconnect" {
		if _, _, err := conn.Request(1, 0, nil); err == nil {
			c.Violate("connected", "%s: a request was accepted", key)
		}
		time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
		at = time.Now()
		conn.Close()
		c.Do("Wait of a closed connection that was connecting", conn.Wait)
		if el := time.Since(at); el > d+2500*time.Millisecond && lagOK(300) {
			c.Violate("late", "%s: Wait returned %v after Close, the dial timeout is %v", key, el, d)
		}
		c.Eval(key + " closed")
	}
}

func closeAPI(api qrpc.API) {
	if x, ok := api.(interface{ Close() error }); ok {
		x.Close()
	}
}

// fullListener is a socket with a full accept queue: connecting to it takes for ever.
func fullListener(c *C) (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	if err == nil {
		err = syscall.Listen(fd, 0)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "full listener:", err)
		c.Abort()
	}
	sa, _ := syscall.Getsockname(fd)
	addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	var held []net.Conn
	for i := 0; i < 20; i++ {
		nc, err := netDial(addr, 300*time.Millisecond)
		if err != nil {
			break
		}
		held = append(held, nc)
	}
	return addr, func() {
		for _, nc := range held {
			nc.Close()
		}
		syscall.Close(fd)
	}
}
