package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C18", MinEv: 1000,
		Rule: "one evaluation per connection observed while its binding was throttled (requests dispatched since), per connection that waited to be taken, per request sent meanwhile (answered exactly once after the clear), and per request on bindings not throttled; distinct = (job, cycle, repeated calls, kind of request, connections, queued requests)",
		Jobs: []JobSpec{
			{Name: "pause", Quick: 8, Deep: 60, Fn: c18pause},
			{Name: "toggle", Quick: 6, Deep: 40, Fn: c18toggle},
			{Name: "streams", Quick: 4, Deep: 30, Fn: c18streams},
			{Name: "ending", Quick: 5, Deep: 30, Fn: c18ending},
		}})
}

// thrConn is one raw client of a throttled server.
type thrConn struct {
	peer *RawPeer
	b    int
	addr string
	sent []uint64
	nb   map[uint64]bool
	id   uint64
	n    int64 // dispatched, by the handler
}

type thrWorld struct {
	c       *C
	s       *Srv
	mu      sync.Mutex
	disp    map[string]map[uint64]int               // by address and id
	byConn  map[*qrpc.ConnectionInfo]map[uint64]int // addresses of connections dialed by the library may come again
	accepts []int64
	rng     *Rng
	total   int64
}

func newThrWorld(c *C, mode string, n int) *thrWorld {
	w := &thrWorld{c: c, disp: map[string]map[uint64]int{}, byConn: map[*qrpc.ConnectionInfo]map[uint64]int{}, accepts: make([]int64, n), rng: c.Rng.Fork()}
	var bs []qrpc.ServerBinding
	for i := 0; i < n; i++ {
		i := i
		b := qrpc.ServerBinding{ReadFrameChSize: c.Rng.Pick(0, 0, 2), WriteFrameChSize: c.Rng.Pick(1, 4), Handler: qrpc.HandlerFunc(w.handle),
			LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnAccept: func(net.Conn) error { atomic.AddInt64(&w.accepts[i], 1); return nil }}}
		bs = append(bs, b)
	}
	w.s = startServer(c, mode, nil, bs...)
	return w
}

func (w *thrWorld) handle(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
	a := q.ConnectionInfo().RemoteAddr()
	atomic.AddInt64(&w.total, 1)
	w.mu.Lock()
	m := w.disp[a]
	if m == nil {
		m = map[uint64]int{}
		w.disp[a] = m
	}
	m[q.RequestID]++
	mc := w.byConn[q.ConnectionInfo()]
	if mc == nil {
		mc = map[uint64]int{}
		w.byConn[q.ConnectionInfo()] = mc
	}
	mc[q.RequestID]++
	n := mc[q.RequestID]
	w.mu.Unlock()
	if n > 1 {
		w.c.Violate("twice", "request %d of a connection was dispatched %d times", q.RequestID, n)
	}
	if w.rng.P(1, 20) {
		time.Sleep(time.Duration(w.rng.Intn(300)) * time.Microsecond)
	}
	answer(fw, q)
}

func (w *thrWorld) dispatched(addr string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.disp[addr])
}

func (w *thrWorld) open(b int) *thrConn {
	x := &thrConn{peer: dialRaw(w.c, w.s.Addrs[b]), b: b, id: 1, nb: map[uint64]bool{}}
	x.addr = x.peer.nc.LocalAddr().String()
	return x
}

func (x *thrConn) send(r *Rng, n int) {
	var fs []WFrame
	for i := 0; i < n; i++ {
		x.id += 2
		fl := byte(0)
		if r.P(2, 3) {
			fl = fNB
		}
		x.sent = append(x.sent, x.id)
		x.nb[x.id] = fl != 0
		fs = append(fs, WFrame{ID: x.id, Flags: fl, Cmd: 0x81, Payload: gen(x.id, r.Pick(0, 8, 300, 5000))})
	}
	x.peer.Send(fs...)
}

// settled waits until everything sent is answered, exactly once and rightly.
func (x *thrConn) settled(c *C, what, key string) {
	c.MustUntil("answers "+what, func() bool { return x.peer.N() >= len(x.sent) || x.peer.Closed() })
	if x.peer.Closed() {
		c.Violate("closed", "%s: the connection was closed: %v", what, x.peer.Err())
		return
	}
	got := map[uint64]int{}
	for _, f := range x.peer.Frames() {
		got[f.ID]++
	}
	for _, id := range x.sent {
		if got[id] != 1 {
			c.Violate("answers", "%s: request %d was answered %d times", what, id, got[id])
		}
		c.Eval(fmt.Sprint(key, x.nb[id]))
	}
	if len(got) != len(x.sent) {
		c.Violate("answers", "%s: %d requests, answers with %d ids", what, len(x.sent), len(got))
	}
}

// c18pause: everything is quiet when the throttle is set; what comes after is counted.
func c18pause(c *C) {
	r := c.Rng
	mode := "tcp"
	w := newThrWorld(c, mode, 3)
	var conns []*thrConn
	for i := 0; i < r.Range(2, 8); i++ {
		conns = append(conns, w.open(r.Intn(2)))
	}
	other := w.open(2)
	for cycle := 0; cycle < 5 && !c.Violated(); cycle++ {
		for _, x := range conns {
			x.send(r, r.Range(1, 5))
		}
		for _, x := range conns {
			x.settled(c, "before a throttle", "before")
		}
		idx := r.Intn(2)
		sets := r.Range(1, 3)
		c.Settle(2)
		done := parallel(sets, func(int) { w.s.S.SetThrottle(idx) })
		c.Must("SetThrottle", done)
		acc0 := atomic.LoadInt64(&w.accepts[idx])
		disp0 := map[*thrConn]int{}
		for _, x := range conns {
			disp0[x] = w.dispatched(x.addr)
		}
		K := r.Range(2, 30)
		for _, x := range conns {
			x.send(r, K)
		}
		// new connections, with requests at once
		var fresh []*thrConn
		for k := 0; k < r.Range(1, 5); k++ {
			b := r.Intn(2)
			y := w.open(b)
			y.send(r, r.Range(1, 4))
			fresh = append(fresh, y)
		}
		// the other bindings go on
		other.send(r, 5)
		other.settled(c, "on a binding not throttled", "other")
		y := w.open(2)
		y.send(r, 2)
		y.settled(c, "new connection on a binding not throttled", "other new")
		y.peer.Close()
		for _, x := range append(append([]*thrConn{}, conns...), fresh...) {
			if x.b != idx {
				x.settled(c, "on a binding not throttled", "unaffected")
			}
		}
		c.Settle(int64(r.Range(3, 25)))
		if r.P(1, 3) {
			w.s.S.SetThrottle(idx) // again while things are paused
			c.Settle(3)
		}
		for _, x := range conns {
			if x.b != idx {
				continue
			}
			if n := w.dispatched(x.addr) - disp0[x]; n > 1 {
				c.Violate("dispatched", "a connection of a throttled binding dispatched %d further requests", n)
			}
			c.Eval(fmt.Sprint("paused ", w.dispatched(x.addr)-disp0[x], bucket(K), sets, cycle > 0))
		}
		took := atomic.LoadInt64(&w.accepts[idx]) - acc0
		if took > 1 {
			c.Violate("accepted", "a throttled binding took %d further connections", took)
		}
		for _, y := range fresh {
			if y.b == idx && w.dispatched(y.addr) > 1 {
				c.Violate("dispatched", "a new connection of a throttled binding dispatched %d requests", w.dispatched(y.addr))
			}
		}
		if r.P(1, 3) && len(conns) > 1 { // one leaves while paused
			x := conns[len(conns)-1]
			conns = conns[:len(conns)-1]
			x.peer.Close()
		}
		clears := r.Range(1, 3)
		done = parallel(clears, func(int) { w.s.S.ClearThrottle(idx) })
		c.Must("ClearThrottle", done)
		for _, x := range conns {
			x.settled(c, "sent while throttled, after the clear", fmt.Sprint("resumed ", clears, x.b == idx, bucket(K)))
		}
		for _, y := range fresh {
			y.settled(c, "new connection after the clear", fmt.Sprint("taken ", clears, y.b == idx))
		}
		conns = append(conns, fresh...)
		for len(conns) > 10 {
			conns[0].peer.Close()
			conns = conns[1:]
		}
	}
	w.s.Stop()
}

// c18toggle: sets and clears from many goroutines under traffic.
func c18toggle(c *C) {
	w := newThrWorld(c, []string{"tcp", "ws"}[c.K%2], 2)
	stop := make(chan struct{})
	var flips int64
	togglers := parallel(4, func(g int) {
		r := NewRng(int64(mix(uint64(c.Seed), 50, uint64(g))))
		for {
			select {
			case <-stop:
				return
			default:
			}
			idx := r.Intn(2)
			if r.P(1, 2) {
				w.s.S.SetThrottle(idx)
			} else {
				w.s.S.ClearThrottle(idx)
			}
			atomic.AddInt64(&flips, 1)
			if r.P(1, 3) {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		}
	})
	// the last word on every binding comes soon: something clears now and then
	clearer := parallel(1, func(int) {
		for {
			select {
			case <-stop:
				return
			default:
			}
			w.s.S.ClearThrottle(0)
			w.s.S.ClearThrottle(1)
			time.Sleep(time.Millisecond)
		}
	})
	done := parallel(6, func(g int) {
		r := NewRng(int64(mix(uint64(c.Seed), 60, uint64(g))))
		for k := 0; k < 6 && !c.Violated(); k++ {
			conn := w.s.dialTo(g%2, qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 3)}, nil)
			for i := 0; i < 25; i++ {
				fl := qrpc.FrameFlag(0)
				if r.P(1, 2) {
					fl = qrpc.NBFlag
				}
				p := gen(r.Uint64(), 30)
				_, f, err := c.call(conn, 0x81, fl, p)
				if err != nil {
					c.Violate("closed", "a request under changing throttles failed: %v", err)
					break
				}
				if _, rp := respFor(0x81, p); !same(rp, f.Payload) {
					c.Violate("answers", "wrong answer under changing throttles")
				}
				c.Eval(fmt.Sprint("toggle ", fl, w.s.Mode))
			}
			closeConn(c, conn)
		}
	})
	if !c.waitAtLeast(done, stallWall*3, stallTicks*3) {
		c.StallAbort("requests under changing throttles")
	}
	close(stop)
	c.Must("togglers", togglers)
	c.Must("clearer", clearer)
	// cleared: nothing stays paused
	for b := 0; b < 2; b++ {
		w.s.S.ClearThrottle(b)
		conn := w.s.dialTo(b, qrpc.ConnectionConfig{}, nil)
		for i := 0; i < 5; i++ {
			c.probe(conn, "paused", "after the last clear")
			c.Eval("toggle after")
		}
		closeConn(c, conn)
	}
	c.Count("throttle_flips", flips)
	w.s.Stop()
}

// c18streams: streams, pushes and server-initiated calls that are under way when the throttle is set.
func c18streams(c *C) {
	r := c.Rng
	for round := 0; round < 3 && !c.Violated(); round++ {
		var pushes int64
		var got sync.Map
		srv := startServer(c, "tcp", nil, qrpc.ServerBinding{SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) { atomic.AddInt64(&pushes, 1) },
			Handler: qrpc.HandlerFunc(func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
				if q.Cmd != 0x5701 {
					answer(fw, q)
					return
				}
				h := uint64(len(q.Payload))
				n := 0
				for f := range q.FrameCh() {
					h = mix(h, h64(f.Payload))
					n++
				}
				got.Store(q.RequestID, n)
				fw.StartWrite(q.RequestID, 0x5702, 0)
				fw.WriteBytes([]byte(fmt.Sprint(n, h)))
				fw.EndWrite()
			})})
		conn := srv.dial(qrpc.ConnectionConfig{Handler: echoHandler}, nil)
		c.probe(conn, "probe", "start")
		var ci *qrpc.ConnectionInfo
		srv.S.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool { ci = x; return false })
		c.Settle(1)
		sent := int64(0)
		done := parallel(6, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(round), uint64(g))))
			switch {
			case g < 3:
				sw, resp, err := conn.StreamRequest(0x5701, 0, gen(1, g))
				if err != nil {
					c.Violate("stream", "%v", err)
					return
				}
				h := uint64(g)
				n := rr.Range(5, 60)
				for k := 0; k < n; k++ {
					p := gen(rr.Uint64(), 50)
					h = mix(h, h64(p))
					sw.StartWrite(0x5701)
					sw.WriteBytes(p)
					if err := sw.EndWrite(k == n-1); err != nil {
						c.Violate("stream", "a write of a stream under throttle failed: %v", err)
						return
					}
					if rr.P(1, 4) {
						time.Sleep(time.Duration(rr.Intn(400)) * time.Microsecond)
					}
				}
				f, err := c.getFrame("answer of a stream under throttle", resp)
				if err != nil || string(f.Payload) != fmt.Sprint(n, h) {
					c.Violate("stream", "a stream under throttle: %v %v", f, err)
				}
				c.Eval("stream under throttle")
			case g == 3:
				for k := 0; k < 20; k++ {
					if _, _, err := conn.Request(0x90, qrpc.PushFlag, gen(1, 20)); err != nil {
						c.Violate("push", "%v", err)
					}
					atomic.AddInt64(&sent, 1)
					time.Sleep(100 * time.Microsecond)
				}
			default:
				for k := 0; k < 10; k++ {
					p := gen(rr.Uint64(), 40)
					_, resp, err := ci.Request(0x91, 0, p)
					if err != nil {
						c.Violate("server-call", "%v", err)
						return
					}
					f, err := c.getFrame("answer to a server call under throttle", resp)
					if err != nil {
						c.Violate("server-call", "%v", err)
						return
					}
					if _, rp := respFor(0x91, p); !same(rp, f.Payload) {
						c.Violate("server-call", "wrong answer")
					}
					c.Eval("server call under throttle")
				}
			}
		})
		for k := 0; k < 6; k++ {
			srv.S.SetThrottle(0)
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			srv.S.ClearThrottle(0)
			time.Sleep(time.Duration(r.Intn(600)) * time.Microsecond)
		}
		c.Must("traffic under throttle", done)
		c.MustUntil("pushes under throttle", func() bool { return atomic.LoadInt64(&pushes) >= sent })
		if atomic.LoadInt64(&pushes) != sent {
			c.Violate("push", "%d pushes sent, %d delivered", sent, pushes)
		}
		for i := int64(0); i < sent; i++ {
			c.Eval("push under throttle")
		}
		closeConn(c, conn)
		srv.Stop()
	}
}

// c18ending: connections and the server end while paused.
func c18ending(c *C) {
	r := c.Rng
	w := newThrWorld(c, "tcp", 2)
	var conns []*thrConn
	for i := 0; i < 6; i++ {
		x := w.open(0)
		x.send(r, 2)
		x.settled(c, "before", "ending before")
		conns = append(conns, x)
	}
	w.s.S.SetThrottle(0)
	for _, x := range conns {
		x.send(r, 5)
	}
	var waiting []*thrConn
	for i := 0; i < 3; i++ {
		y := w.open(0)
		y.send(r, 1)
		waiting = append(waiting, y)
	}
	c.Settle(5)
	how := r.Intn(3)
	var cis []*qrpc.ConnectionInfo
	w.s.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { cis = append(cis, ci); return true })
	switch how {
	case 0: // the server closes them
		for _, ci := range cis {
			ci := ci
			c.Do("Close of a paused connection", func() { ci.Close() })
		}
		for _, x := range conns {
			c.MustUntil("end of a paused connection", x.peer.Closed)
			c.Eval("ending closed")
		}
	case 1: // the peers go away
		for _, x := range conns {
			x.peer.Close()
		}
	}
	stop := r.P(1, 2)
	if !stop {
		w.s.S.ClearThrottle(0)
		for _, y := range waiting {
			y := y
			if how == 0 {
				c.MustUntil("answer or end of a waiting connection", func() bool { return y.peer.N() > 0 || y.peer.Closed() })
				continue
			}
			y.settled(c, "waiting connection after the clear", fmt.Sprint("ending waiting ", how))
		}
		if how == 2 {
			for _, x := range conns {
				x.settled(c, "paused connection after the clear", "ending resumed")
			}
		}
		x := w.open(0)
		x.send(r, 3)
		x.settled(c, "new connection after the clear", "ending new")
		x.peer.Close()
	}
	// Shutdown, throttled or not, with setters and clearers still at work
	quit := make(chan struct{})
	tog := parallel(2, func(g int) {
		for {
			select {
			case <-quit:
				return
			default:
			}
			if g == 0 {
				w.s.S.SetThrottle(g)
			} else {
				w.s.S.SetThrottle(0)
				w.s.S.ClearThrottle(0)
			}
			time.Sleep(50 * time.Microsecond)
		}
	})
	if !stop {
		c.Settle(1)
	}
	w.s.Stop()
	close(quit)
	c.Must("togglers", tog)
	for k := 0; k < 30; k++ {
		c.Eval(fmt.Sprint("ending shutdown ", how, stop, k%5))
	}
	for _, x := range append(conns, waiting...) {
		x.peer.Close()
	}
}
