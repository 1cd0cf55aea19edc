package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C17", MinEv: 500,
		Rule: "one evaluation per filling of a connection to its in-flight limit (all N must run at once), per excess (the connection and no other must end, never more than N handlers at once), per request sent within the rate and per burst above it (dispatches compared with the limit times the clock seconds it took), and per request on connections without limits; distinct = (limit, mix of request kinds, what came before, way of finishing)",
		Jobs: []JobSpec{
			{Name: "inflight", Quick: 10, Deep: 80, Fn: c17inflight},
			{Name: "storm", Quick: 6, Deep: 40, Fn: c17storm},
			{Name: "rate", Quick: 6, Deep: 30, Fn: c17rate},
			{Name: "nolimit", Quick: 3, Deep: 15, Fn: c17nolimit},
		}})
}

const (
	lQuick  = 0x71
	lHold   = 0x72
	lPanic  = 0x73
	lStream = 0x74
	lHoldP  = 0x75 // held, then panics
)

// limConn is what one connection does at the server.
type limConn struct {
	active, max int32 // nonblocking handlers running
	started     int64
	ended       int64
	blocking    int64
}

type limWorld struct {
	c    *C
	s    *Srv
	mu   sync.Mutex
	m    map[string]*limConn
	hold map[string]chan struct{}
	rng  *Rng
}

func (w *limWorld) of(addr string) *limConn {
	w.mu.Lock()
	defer w.mu.Unlock()
	x := w.m[addr]
	if x == nil {
		x = &limConn{}
		w.m[addr] = x
		w.hold[addr] = make(chan struct{})
	}
	return x
}

func (w *limWorld) gate(addr string) chan struct{} {
	w.of(addr)
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.hold[addr]
}

// free lets the held handlers of a connection go.
func (w *limWorld) free(addr string) {
	w.mu.Lock()
	close(w.hold[addr])
	w.hold[addr] = make(chan struct{})
	w.mu.Unlock()
}

func newLimWorld(c *C, mode string, limits ...qrpc.ServerBinding) *limWorld {
	w := &limWorld{c: c, m: map[string]*limConn{}, hold: map[string]chan struct{}{}, rng: c.Rng.Fork()}
	for i := range limits {
		limits[i].Handler = qrpc.HandlerFunc(w.handle)
	}
	w.s = startServer(c, mode, nil, limits...)
	return w
}

func (w *limWorld) handle(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
	addr := q.ConnectionInfo().RemoteAddr()
	x := w.of(addr)
	g := w.gate(addr)
	atomic.AddInt64(&x.started, 1)
	defer atomic.AddInt64(&x.ended, 1)
	if q.Flags.IsNonBlock() {
		n := atomic.AddInt32(&x.active, 1)
		for {
			m := atomic.LoadInt32(&x.max)
			if n <= m || atomic.CompareAndSwapInt32(&x.max, m, n) {
				break
			}
		}
		defer atomic.AddInt32(&x.active, -1)
	} else {
		atomic.AddInt64(&x.blocking, 1)
	}
	switch q.Cmd {
	case lHold, lHoldP:
		<-g
		if q.Cmd == lHoldP {
			panic("limit")
		}
	case lPanic:
		panic("limit")
	case lStream:
		for range q.FrameCh() {
		}
	}
	answer(fw, q)
}

// idleNow waits until what the handlers left running is gone, as far as it can be seen from outside.
func idleNow(c *C, base int) {
	t0 := atomic.LoadInt64(&controlTicks)
	for runtime.NumGoroutine() > base && atomic.LoadInt64(&controlTicks)-t0 < 60 {
		time.Sleep(500 * time.Microsecond)
	}
	c.Settle(1)
}

// c17inflight: one connection is filled to its limit again and again, with other traffic in between, then exceeded.
func c17inflight(c *C) {
	r := c.Rng
	N := r.Pick(1, 1, 2, 3, 5, 8)
	w := newLimWorld(c, []string{"tcp", "tcp", "ws"}[c.K%3], qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(N), ReadFrameChSize: r.Pick(0, 1, 4), WriteFrameChSize: r.Pick(1, 4)}, qrpc.ServerBinding{})
	other := w.s.dial(qrpc.ConnectionConfig{}, nil)
	free := w.s.dialTo(1, qrpc.ConnectionConfig{}, nil)
	c.probe(other, "probe", "before")
	c.probe(free, "probe", "before")
	infoOf := func(conn *qrpc.Connection) (string, *limConn) {
		w.mu.Lock()
		known := map[string]int64{}
		for a, x := range w.m {
			known[a] = atomic.LoadInt64(&x.started)
		}
		w.mu.Unlock()
		c.probe(conn, "probe", "new connection")
		w.mu.Lock()
		defer w.mu.Unlock()
		for a, x := range w.m {
			if atomic.LoadInt64(&x.started) != known[a] {
				return a, x
			}
		}
		return "", nil
	}
	for round := 0; round < 4 && !c.Violated(); round++ {
		conn := w.s.dial(qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 3)}, nil)
		addr, x := infoOf(conn)
		if x == nil {
			c.Violate("probe", "no handler saw the probe of a new connection")
			return
		}
		c.Settle(2)
		base := runtime.NumGoroutine()
		history := ""
		for fill := 0; fill < r.Range(1, 5); fill++ {
			// what comes before
			prev := r.Intn(6)
			history = fmt.Sprint(prev)
			for k := 0; k < r.Range(1, 12); k++ {
				switch prev {
				case 0, 1: // blocking ones do not count
					if _, _, err := c.call(conn, lQuick, 0, gen(r.Uint64(), 20)); err != nil {
						c.Violate("closed-for-blocking", "a blocking request failed on a connection with limit %d: %v", N, err)
					}
				case 2: // panics give their place back
					if _, _, err := c.call(conn, lPanic, qrpc.NBFlag, nil); err == nil {
						c.Violate("answer", "a panicking request was answered")
					}
					idleNow(c, base)
				case 3:
					if _, _, err := c.call(conn, lPanic, 0, nil); err == nil {
						c.Violate("answer", "a panicking request was answered")
					}
				case 4: // streams
					sw, resp, err := conn.StreamRequest(lStream, 0, gen(r.Uint64(), 30))
					if err != nil {
						c.Violate("closed", "a stream request failed: %v", err)
						break
					}
					sw.StartWrite(lStream)
					if err := sw.EndWrite(true); err != nil {
						c.Violate("closed", "a stream write failed: %v", err)
					}
					if _, err := c.getFrame("answer of a stream", resp); err != nil {
						c.Violate("closed", "a stream was not answered: %v", err)
					}
					idleNow(c, base)
				case 5: // cancelled before they end
					sw, _, err := conn.StreamRequest(lStream, 0, nil)
					if err != nil {
						c.Violate("closed", "a stream request failed: %v", err)
						break
					}
					sw.ResetFrame(0)
					c.MustUntil("end of a reset stream", func() bool { return atomic.LoadInt64(&x.started) == atomic.LoadInt64(&x.ended) })
					idleNow(c, base)
				}
			}
			c.MustUntil("end of the handlers", func() bool { return atomic.LoadInt64(&x.started) == atomic.LoadInt64(&x.ended) })
			idleNow(c, base)
			if c.Violated() {
				break
			}
			// fill
			var resps []qrpc.Response
			var cmds []int
			for k := 0; k < N; k++ {
				cmd := r.Pick(lHold, lHold, lHoldP)
				var resp qrpc.Response
				var err error
				if r.P(1, 3) {
					_, resp, err = conn.StreamRequest(qrpc.Cmd(cmd), 0, gen(uint64(k), 10))
				} else {
					_, resp, err = conn.Request(qrpc.Cmd(cmd), qrpc.NBFlag, gen(uint64(k), 10))
				}
				if err != nil {
					c.Violate("closed-below", "after %s: request %d of %d allowed at once failed: %v", history, k+1, N, err)
					break
				}
				resps = append(resps, resp)
				cmds = append(cmds, cmd)
			}
			ok := c.Until(func() bool { return int(atomic.LoadInt32(&x.active)) == N || conn.IsClosed() })
			if conn.IsClosed() {
				c.Violate("closed-below", "after %s: %d nonblocking requests at once closed the connection, %d are allowed", history, N, N)
				break
			}
			if !ok {
				c.StallAbort("filling to the limit")
			}
			// blocking ones still work
			if r.P(1, 2) {
				if _, _, err := c.call(conn, lQuick, 0, gen(1, 20)); err != nil {
					c.Violate("closed-for-blocking", "a blocking request failed while %d of %d allowed are running: %v", N, N, err)
				}
			}
			c.Eval(fmt.Sprint("fill ", N, history, fill > 0))
			if fill > 0 && r.P(1, 3) { // exceed now
				break
			}
			w.free(addr)
			for k, resp := range resps {
				_, err := c.getFrame("answer of a held request", resp)
				if (err != nil) != (cmds[k] == lHoldP) {
					c.Violate("answer", "a held request (cmd %#x) ended with %v", cmds[k], err)
				}
			}
			c.MustUntil("end of the handlers", func() bool { return atomic.LoadInt64(&x.started) == atomic.LoadInt64(&x.ended) })
			idleNow(c, base)
		}
		if c.Violated() {
			break
		}
		// exceed
		for int(atomic.LoadInt32(&x.active)) < N {
			n := int(atomic.LoadInt32(&x.active))
			if _, _, err := conn.Request(lHold, qrpc.NBFlag, nil); err != nil {
				c.Violate("closed-below", "request %d of %d allowed at once failed: %v", n+1, N, err)
				break
			}
			c.MustUntil("start of a held handler", func() bool { return int(atomic.LoadInt32(&x.active)) > n || conn.IsClosed() })
			if conn.IsClosed() {
				c.Violate("closed-below", "after %s: request %d of %d allowed at once closed the connection", history, n+1, N)
				break
			}
		}
		extra := r.Range(1, 4)
		for k := 0; k < extra; k++ {
			if r.P(1, 2) {
				conn.Request(lHold, qrpc.NBFlag, nil)
			} else {
				conn.StreamRequest(lHold, 0, nil)
			}
		}
		if !c.Until(conn.IsClosed) {
			c.Violate("not-closed", "after %s: %d nonblocking requests at once did not close the connection, %d are allowed", history, N+extra, N)
		}
		if m := int(atomic.LoadInt32(&x.max)); m > N {
			c.Violate("too-many", "%d nonblocking requests of one connection were handled at once, the limit is %d", m, N)
		}
		w.free(addr)
		c.Eval(fmt.Sprint("exceed ", N, extra, history))
		for _, o := range []*qrpc.Connection{other, free} {
			c.probe(o, "others", "after another connection exceeded its limit")
			c.Eval("other " + history)
		}
		closeConn(c, conn)
	}
	// no limit on the other binding
	var resps []qrpc.Response
	for k := 0; k < 4*N+20; k++ {
		_, resp, err := free.Request(lHold, qrpc.NBFlag, nil)
		if err != nil {
			c.Violate("nolimit", "request %d on a connection without limit failed: %v", k, err)
			break
		}
		resps = append(resps, resp)
	}
	w.freeAll(func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, x := range w.m {
			if int(atomic.LoadInt32(&x.active)) == len(resps) {
				return true
			}
		}
		return false
	})
	for _, resp := range resps {
		if _, err := c.getFrame("answer on a connection without limit", resp); err != nil {
			c.Violate("nolimit", "%v", err)
		}
		c.Eval("nolimit binding")
	}
	w.s.Stop()
}

func (w *limWorld) freeAll(when func() bool) {
	w.c.MustUntil("held handlers", when)
	w.mu.Lock()
	var as []string
	for a := range w.hold {
		as = append(as, a)
	}
	w.mu.Unlock()
	for _, a := range as {
		w.free(a)
	}
}

// c17storm: many connections with limits under load far above and well below them.
func c17storm(c *C) {
	r := c.Rng
	N := r.Range(2, 6)
	w := newLimWorld(c, "tcp", qrpc.ServerBinding{MaxInboundInflightStreamPerConn: int32(N), ReadFrameChSize: r.Pick(0, 2)})
	G := 12
	var closed int64
	done := parallel(G, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		nc, err := netDial(w.s.Addrs[0], 10*time.Second)
		if err != nil {
			c.Violate("raw-dial", "%v", err)
			return
		}
		peer := newRawPeer(c, nc)
		defer peer.Close()
		addr := nc.LocalAddr().String()
		x := w.of(addr)
		id := uint64(1)
		if g%2 == 0 { // one nonblocking request at a time beside blocking ones: at most 2 are ever counted
			for k := 0; k < 60; k++ {
				fl := fNB
				cmd := uint32(rr.Pick(lQuick, lPanic))
				if rr.P(1, 2) {
					fl = 0
				}
				id += 2
				my := id
				peer.Send(WFrame{ID: my, Flags: fl, Cmd: cmd, Payload: gen(my, 16)})
				c.MustUntil("answer", func() bool { return len(peer.ByID(my)) > 0 || peer.Closed() })
				if peer.Closed() {
					c.Violate("closed-below", "a connection with at most one request at a time was closed, %d are allowed: %v", N, peer.Err())
					return
				}
				c.MustUntil("end of the handler", func() bool { return atomic.LoadInt64(&x.ended) == atomic.LoadInt64(&x.started) })
				c.Eval(fmt.Sprint("storm single ", fl, cmd))
			}
			return
		}
		for !peer.Closed() { // far above
			var fs []WFrame
			for k := 0; k < 3*N; k++ {
				id += 2
				fl := fNB
				if rr.P(1, 5) {
					fl = 0
				}
				if rr.P(1, 4) {
					fl = fStream
				}
				fs = append(fs, WFrame{ID: id, Flags: fl, Cmd: uint32(rr.Pick(lQuick, lQuick, lPanic)), Payload: gen(id, 16)})
			}
			if id > 4000 { // they all finished in time: hold them
				for k := range fs {
					fs[k].Flags |= fNB
					fs[k].Cmd = lHold
				}
			}
			if peer.Send(fs...) != nil {
				break
			}
			c.Eval("storm burst")
			if id > 6000 {
				c.MustUntil("closing of a connection far above its limit", peer.Closed)
			}
		}
		c.MustUntil("end of the connection", peer.Closed)
		w.free(addr)
		atomic.AddInt64(&closed, 1)
		c.Eval(fmt.Sprint("storm closed ", N))
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("storm")
	}
	w.mu.Lock()
	for _, x := range w.m {
		if m := int(atomic.LoadInt32(&x.max)); m > N {
			c.Violate("too-many", "%d nonblocking requests of one connection were handled at once, the limit is %d", m, N)
		}
	}
	w.mu.Unlock()
	c.Count("closed_for_load", closed)
	w.s.Stop()
}

// nextSecond waits for a clock second later than s.
func nextSecond(s int64) {
	for time.Now().Unix() <= s {
		time.Sleep(2 * time.Millisecond)
	}
}

// c17rate: the limit per clock second.
func c17rate(c *C) {
	r := c.Rng
	R := r.Pick(1, 2, 5, 20, 100)
	w := newLimWorld(c, "tcp", qrpc.ServerBinding{MaxInboundFramePerSecond: R, ReadFrameChSize: r.Pick(0, 0, 4)}, qrpc.ServerBinding{})
	done := parallel(6, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		peer := dialRaw(c, w.s.Addrs[0])
		defer peer.Close()
		x := w.of(peer.nc.LocalAddr().String())
		id := uint64(1)
		mk := func() []WFrame {
			id += 2
			my := id
			switch rr.Intn(5) {
			case 0:
				return []WFrame{{ID: my, Flags: fNB, Cmd: lPanic}}
			case 1: // the further frames of a stream are not requests
				fs := []WFrame{{ID: my, Flags: fStream, Cmd: lStream, Payload: gen(my, 8)}}
				for k := 0; k < rr.Intn(4); k++ {
					fs = append(fs, WFrame{ID: my, Flags: fStream, Cmd: lStream})
				}
				return append(fs, WFrame{ID: my, Flags: fStream | fEnd, Cmd: lStream})
			case 2:
				return []WFrame{{ID: my, Cmd: lQuick, Payload: gen(my, 8)}}
			default:
				return []WFrame{{ID: my, Flags: fNB, Cmd: lQuick, Payload: gen(my, 8)}}
			}
		}
		for batch := 0; batch < 2; batch++ {
			n := R
			if rr.P(1, 3) {
				n = rr.Range(1, R)
			}
			var ids []uint64
			for k := 0; k < n; k++ {
				fs := mk()
				ids = append(ids, id)
				peer.Send(fs...)
				if rr.P(1, 20) {
					time.Sleep(time.Millisecond)
				}
			}
			c.MustUntil("answers within the rate", func() bool {
				if peer.Closed() {
					return true
				}
				for _, i := range ids {
					if len(peer.ByID(i)) == 0 {
						return false
					}
				}
				return true
			})
			if peer.Closed() {
				c.Violate("closed-within", "a connection that sent %d requests was closed, %d per second are allowed: %v", n, R, peer.Err())
				return
			}
			for range ids {
				c.Eval(fmt.Sprint("rate within ", R, n == R, batch))
			}
			nextSecond(time.Now().Unix())
		}
		if g%2 == 0 { // stays within: a connection at rest stays open
			return
		}
		// above it
		before := atomic.LoadInt64(&x.started)
		B := 12*R + rr.Intn(50) + 1
		var buf []WFrame
		for k := 0; k < B; k++ {
			id += 2
			buf = append(buf, WFrame{ID: id, Flags: fNB, Cmd: lQuick})
		}
		t0 := time.Now().Unix()
		peer.Send(buf...)
		done := func() bool { return peer.Closed() || atomic.LoadInt64(&x.started)-before >= int64(B) }
		c.MustUntil("end of a burst above the rate", done)
		secs := time.Now().Unix() - t0 + 1
		c.MustUntil("handlers", func() bool { return atomic.LoadInt64(&x.started) == atomic.LoadInt64(&x.ended) })
		got := atomic.LoadInt64(&x.started) - before
		if got > secs*int64(R) {
			c.Violate("too-fast", "%d requests were dispatched in %d clock seconds, %d per second are allowed", got, secs, R)
		}
		if int64(B) > secs*int64(R) && !peer.Closed() {
			c.Violate("not-closed", "%d requests within %d clock seconds did not close the connection, %d per second are allowed", B, secs, R)
		}
		c.Eval(fmt.Sprint("rate above ", R, secs))
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("rate")
	}
	// the other binding has no limit
	conn := w.s.dialTo(1, qrpc.ConnectionConfig{}, nil)
	for k := 0; k < 3*R+50; k++ {
		c.probe(conn, "nolimit", "a binding without limits")
		c.Eval("rate other binding")
	}
	w.s.Stop()
}

// c17nolimit: no limits, a lot at once.
func c17nolimit(c *C) {
	w := newLimWorld(c, "tcp", qrpc.ServerBinding{ReadFrameChSize: c.Rng.Pick(0, 8)})
	peer := dialRaw(c, w.s.Addrs[0])
	addr := peer.nc.LocalAddr().String()
	x := w.of(addr)
	const held, fast = 600, 4000
	id := uint64(1)
	var fs []WFrame
	for k := 0; k < held; k++ {
		id += 2
		fs = append(fs, WFrame{ID: id, Flags: fNB, Cmd: lHold})
	}
	for k := 0; k < fast; k++ {
		id += 2
		fs = append(fs, WFrame{ID: id, Flags: fNB, Cmd: lQuick})
	}
	peer.Send(fs...)
	c.MustUntil("handling of a large burst without limits", func() bool {
		return (int(atomic.LoadInt32(&x.active)) == held && peer.N() == fast) || peer.Closed()
	})
	w.free(addr)
	c.MustUntil("answers of a large burst without limits", func() bool { return peer.N() == held+fast || peer.Closed() })
	if peer.N() != held+fast {
		c.Violate("nolimit", "%d of %d requests were answered on a connection without limits: %v", peer.N(), held+fast, peer.Err())
	}
	for k := 0; k < 20; k++ {
		c.Eval(fmt.Sprint("nolimit ", k%3))
	}
	peer.Close()
	w.s.Stop()
}
