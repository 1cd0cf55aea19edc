package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C09", MinEv: 500,
		Rule: "one evaluation per waiting operation (caller, handler, stream reader, writer, Wait, OnClose) that had to be released when its connection ended; distinct = (how it ended and at which byte offset of which direction, kind of operation)",
		Jobs: []JobSpec{
			{Name: "cut-client-read", Quick: 2, Deep: 4, Timeout: 200 * time.Second, Fn: func(c *C) { c09cut(c, 0) }},
			{Name: "cut-client-write", Quick: 2, Deep: 4, Timeout: 200 * time.Second, Fn: func(c *C) { c09cut(c, 1) }},
			{Name: "cut-server-read", Quick: 2, Deep: 4, Timeout: 200 * time.Second, Fn: func(c *C) { c09cut(c, 2) }},
			{Name: "cut-server-write", Quick: 2, Deep: 4, Timeout: 200 * time.Second, Fn: func(c *C) { c09cut(c, 3) }},
			{Name: "ways", Quick: 6, Deep: 60, Fn: c09ways},
			{Name: "blocked", Quick: 4, Deep: 30, Fn: c09blocked},
			{Name: "rawserver", Quick: 4, Deep: 30, Fn: c09rawserver},
		}, Notes: []string{"cut offsets are enumerated over one scripted exchange; other exchanges are sampled"}})
}

// exch is one connection with all kinds of pending operations.
type exch struct {
	c    *C
	mu   sync.Mutex
	rel  []*rel
	ci   *qrpc.ConnectionInfo
	shut int32
	nb   sync.WaitGroup
	key  string
}

type rel struct {
	name string
	done chan struct{}
}

// track runs f, which has to return once the connection ended.
func (x *exch) track(name string, f func()) {
	r := &rel{name, make(chan struct{})}
	x.mu.Lock()
	x.rel = append(x.rel, r)
	x.mu.Unlock()
	go func() { defer close(r.done); f() }()
}

const (
	xHold   = 0x41 // handler waits for its context
	xReadS  = 0x42 // handler reads its stream and echoes every frame
	xFeed   = 0x43 // handler sends three stream frames, then waits
	xBack   = 0x44 // handler opens requests of its own to the client
	xQuiet  = 0x45 // handler waits for the end of its stream only
	xBlockQ = 0x46 // blocking handler that waits for its context
)

type exchWorld struct {
	c       *C
	cur     atomic.Value // *exch
	closes  int64
	closeMu sync.Mutex
	closed  map[net.Conn]int
	srv     *Srv
	closeCh chan struct{}
}

func (w *exchWorld) handler(client bool) qrpc.Handler {
	return qrpc.HandlerFunc(func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
		switch uint32(q.Cmd) {
		case 0x77:
			answer(fw, q)
		case xHold, xBlockQ:
			<-q.Context().Done()
		case xQuiet:
			for range q.FrameCh() {
			}
		case xReadS:
			n := 0
			for f := range q.FrameCh() {
				fw.StartWrite(q.RequestID, f.Cmd, qrpc.StreamFlag)
				fw.WriteBytes(f.Payload)
				if fw.EndWrite() != nil {
					n++
				}
			}
			if q.Context().Err() == nil {
				w.c.Violate("ctx", "the frame channel of stream %d ended with its connection, its context is not cancelled", q.RequestID)
			}
		case xFeed:
			for i := 0; i < 3; i++ {
				fw.StartWrite(q.RequestID, qrpc.Cmd(i), qrpc.StreamFlag)
				fw.WriteBytes(gen(uint64(i), 9))
				fw.EndWrite()
			}
			<-q.Context().Done()
		case xBack:
			x := w.cur.Load().(*exch)
			ci := q.ConnectionInfo()
			x.mu.Lock()
			x.ci = ci
			x.mu.Unlock()
			calls(x, "server", ci, false)
			answer(fw, q)
		}
	})
}

// calls opens the pending operations on one side.
func calls(x *exch, side string, o initiator, blocking bool) {
	c := x.c
	wait := func(name string, resp qrpc.Response, err error, wantCmd uint32, want []byte, echo bool) {
		if err != nil {
			return
		}
		x.track(side+" "+name, func() {
			f, err := resp.GetFrame()
			if err == nil && echo {
				if rc, rp := respFor(wantCmd, want); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("forged", "%s %s completed with an answer nobody sent: cmd=%#x %s", side, name, f.Cmd, brief(f.Payload))
				}
			} else if err == nil && !echo {
				c.Violate("forged", "%s %s completed with %#x %s, its handler never answers", side, name, f.Cmd, brief(f.Payload))
			}
		})
	}
	p1 := gen(mix(1, uint64(len(side))), 11)
	_, resp, err := o.Request(0x77, qrpc.NBFlag, p1)
	wait("echo", resp, err, 0x77, p1, true)
	_, resp, err = o.Request(xHold, qrpc.NBFlag, nil)
	wait("held request", resp, err, 0, nil, false)
	// open stream: frames are echoed
	sw, resp, err := o.StreamRequest(xReadS, 0, gen(3, 8))
	if err == nil {
		resp1 := resp
		x.track(side+" echo stream", func() {
			f, err := resp1.GetFrame()
			if err != nil {
				return
			}
			i := uint64(0)
			for ; f != nil; i++ {
				if i > 1 || !same(f.Payload, gen(10+i, 7)) {
					c.Violate("forged", "%s echo stream: frame %d is %s", side, i, brief(f.Payload))
				}
				if f.Stream != nil {
					first := f
					f = <-first.FrameCh()
					if f != nil {
						i++
						if !same(f.Payload, gen(10+i, 7)) {
							c.Violate("forged", "%s echo stream: frame %d is %s", side, i, brief(f.Payload))
						}
						for range first.FrameCh() {
							c.Violate("forged", "%s echo stream: a third frame", side)
						}
					}
					break
				}
			}
		})
		for i := uint64(0); i < 2; i++ {
			sw.StartWrite(5)
			sw.WriteBytes(gen(10+i, 7))
			if sw.EndWrite(false) != nil {
				break
			}
		}
	}
	// the other side feeds
	_, resp, err = o.StreamRequest(xFeed, qrpc.StreamEndFlag, nil)
	if err == nil {
		resp2 := resp
		x.track(side+" fed stream", func() {
			f, err := resp2.GetFrame()
			if err != nil {
				return
			}
			n := uint64(0)
			if !same(f.Payload, gen(n, 9)) {
				c.Violate("forged", "%s fed stream: first frame is %s", side, brief(f.Payload))
			}
			for g := range f.FrameCh() {
				n++
				if n > 2 || !same(g.Payload, gen(n, 9)) {
					c.Violate("forged", "%s fed stream: frame %d is %s", side, n, brief(g.Payload))
				}
			}
		})
	}
	_, resp, err = o.StreamRequest(xQuiet, 0, nil)
	wait("quiet stream", resp, err, 0, nil, false)
	// a streamed push that stays open
	o.StreamRequest(0x66, qrpc.PushFlag, gen(9, 5))
	if blocking {
		_, resp, err = o.Request(0x77, 0, p1)
		wait("blocking echo", resp, err, 0x77, p1, true)
		_, resp, err = o.Request(xBack, qrpc.NBFlag, p1)
		wait("back", resp, err, xBack, p1, true)
	}
}

func (w *exchWorld) sub(f *qrpc.Frame) {
	x := w.cur.Load().(*exch)
	x.track("reader of a streamed push", func() { drain(f) })
}

func newExchWorld(c *C, wrap func(int, net.Conn) net.Conn, b qrpc.ServerBinding) *exchWorld {
	w := &exchWorld{c: c, closed: map[net.Conn]int{}, closeCh: make(chan struct{}, 10000)}
	b.Handler = w.handler(false)
	b.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { w.sub(f) }
	b.LifecycleCallbacks.OnClose = func(nc net.Conn) {
		w.closeMu.Lock()
		w.closed[nc]++
		if w.closed[nc] > 1 {
			c.Violate("onclose-twice", "OnClose ran twice for one connection")
		}
		w.closeMu.Unlock()
		w.closeCh <- struct{}{}
	}
	w.srv = startServer(c, "tcp", wrap, b)
	return w
}

func (w *exchWorld) open(wrapC func(net.Conn) net.Conn, ccs int) (*exch, *qrpc.Connection, error) {
	x := &exch{c: w.c}
	w.cur.Store(x)
	conf := qrpc.ConnectionConfig{WriteFrameChSize: ccs, Handler: w.handler(true)}
	if wrapC != nil {
		conf.OverlayNetwork = overlayWith(wrapC)
	}
	conn, err := qrpc.NewConnection(w.srv.Addrs[0], conf, func(_ *qrpc.Connection, f *qrpc.Frame) { w.sub(f) })
	return x, conn, err
}

// released checks that everything came back; the connection has ended.
func (w *exchWorld) released(x *exch, conn *qrpc.Connection, how string) {
	c := w.c
	if !closedCh(conn.Done()) {
		c.Must("Done of the ended connection ("+how+")", conn.Done())
	}
	c.Do("Wait of the ended connection ("+how+")", conn.Wait)
	c.Must("OnClose and end of all handlers ("+how+")", func() chan struct{} {
		d := make(chan struct{})
		go func() { <-w.closeCh; close(d) }()
		return d
	}())
	x.mu.Lock()
	rels := append([]*rel(nil), x.rel...)
	ci := x.ci
	x.mu.Unlock()
	for _, r := range rels {
		c.Must(r.name+" after the end of its connection ("+how+")", r.done)
		c.Eval(how + "|" + r.name)
	}
	c.Do("requests after the end ("+how+")", func() {
		if _, _, err := conn.Request(0x77, qrpc.NBFlag, nil); err == nil {
			c.Violate("request-after", "%s: a request on the ended connection was accepted", how)
		}
		if _, _, err := conn.StreamRequest(0x77, 0, nil); err == nil {
			c.Violate("request-after", "%s: a stream on the ended connection was accepted", how)
		}
		if conn.ResetFrame(3, 1) == nil {
			c.Violate("request-after", "%s: a reset on the ended connection was accepted", how)
		}
		if ci != nil {
			if _, _, err := ci.Request(0x77, qrpc.NBFlag, nil); err == nil {
				c.Violate("request-after", "%s: a server-side request on the ended connection was accepted", how)
			}
			if !ci.IsClosed() {
				c.Violate("isclosed", "%s: the server's side does not know the connection ended", how)
			}
			w := ci.GetWriter()
			w.StartWrite(100, 1, qrpc.PushFlag)
			if w.EndWrite() == nil {
				c.Violate("request-after", "%s: a push on the ended connection was accepted", how)
			}
		}
	})
	if !conn.IsClosed() {
		c.Violate("isclosed", "%s: the connection ended but IsClosed is false", how)
	}
}

// c09cut: the connection breaks at every byte offset in turn.
func c09cut(c *C, where int) {
	names := []string{"client-read", "client-write", "server-read", "server-write"}
	r := c.Rng
	var sp atomic.Value
	sp.Store(Policy{})
	var last atomic.Value
	w := newExchWorld(c, func(_ int, nc net.Conn) net.Conn {
		f := wrapConn(nc, sp.Load().(Policy))
		last.Store(f)
		return f
	}, qrpc.ServerBinding{WriteFrameChSize: []int{1, 16}[c.K%2], ReadFrameChSize: c.K % 2})
	var cf *fconn
	run := func(k int64) (total int64) {
		p, s := Policy{}, Policy{}
		switch where {
		case 0:
			p.CutR = k
		case 1:
			p.CutW = k
		case 2:
			s.CutR = k
		case 3:
			s.CutW = k
		}
		sp.Store(s)
		x, conn, err := w.open(func(nc net.Conn) net.Conn { cf = wrapConn(nc, p); return cf }, []int{0, 8}[c.K%2])
		if err != nil {
			c.Violate("dial", "%v", err)
			c.Abort()
		}
		c.Do("opening requests on a connection that breaks", func() { calls(x, "client", conn, true) })
		bytes := func() int64 {
			sf, _ := last.Load().(*fconn)
			switch where {
			case 0:
				return atomic.LoadInt64(&cf.r)
			case 1:
				return atomic.LoadInt64(&cf.w)
			}
			if sf == nil {
				return 0
			}
			if where == 2 {
				return atomic.LoadInt64(&sf.r)
			}
			return atomic.LoadInt64(&sf.w)
		}
		how := fmt.Sprintf("cut %s at byte %d", names[where], k)
		if k == 0 { // measure
			prev := int64(-1)
			for n := bytes(); n != prev; n = bytes() {
				prev = n
				c.Settle(25)
			}
			total = prev
			conn.Close()
			how = "close of the full exchange"
		} else if !c.Until(func() bool { return conn.IsClosed() || (bytes() <= k && quiet(c, conn, bytes)) }) {
			c.StallAbort("end of the connection, " + how)
		} else if !conn.IsClosed() {
			c.Count("cut_not_reached", 1)
			conn.Close()
		}
		w.released(x, conn, how)
		return
	}
	total := run(0)
	c.Count("exchange_bytes_"+names[where], total)
	c.Sample("cutting the exchange of %d bytes (%s) at every offset, part %d", total, names[where], c.K)
	parts := int64(2)
	if c.Tier == "thorough" {
		parts = 1
	}
	for k := int64(1) + int64(c.K)%parts; k <= total+1 && !c.Violated(); k += parts {
		run(k)
		c.Count("cuts", 1)
	}
	_ = r
	w.srv.Stop()
}

// quiet tells whether the byte count stands still.
func quiet(c *C, conn *qrpc.Connection, n func() int64) bool {
	a := n()
	for i := 0; i < 1000; i++ {
		if conn.IsClosed() {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	c.Settle(20)
	return n() == a
}

// c09ways: connections with everything pending end in different ways at random moments.
func c09ways(c *C) {
	r := c.Rng
	var last atomic.Value
	w := newExchWorld(c, func(_ int, nc net.Conn) net.Conn {
		f := wrapConn(nc, Policy{})
		last.Store(f)
		return f
	}, qrpc.ServerBinding{WriteFrameChSize: r.Pick(1, 16, 100), ReadFrameChSize: r.Pick(0, 5), MaxFrameSize: 100000})
	for k := 0; k < 40 && !c.Violated(); k++ {
		var cf *fconn
		x, conn, err := w.open(func(nc net.Conn) net.Conn { cf = wrapConn(nc, Policy{}); return cf }, r.Pick(0, 1, 8, 100))
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		how := r.Intn(9)
		name := []string{"client Close", "server Close", "client socket closed", "server socket closed", "client RST", "server RST", "malformed to server", "handler Close", "oversized to server"}[how]
		pending := r.Range(0, 3)
		moment := time.Duration(r.Intn(1500)) * time.Microsecond
		workers := parallel(pending, func(int) { calls(x, "client", conn, true) })
		if moment%3 != 0 {
			c.Must("opening requests", workers)
		} else {
			time.Sleep(moment)
		}
		sf, _ := last.Load().(*fconn)
		findCI := func() *qrpc.ConnectionInfo {
			var ci *qrpc.ConnectionInfo
			c.MustUntil("registration", func() bool {
				w.srv.S.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return false })
				return ci != nil
			})
			return ci
		}
		switch how {
		case 0:
			conn.Close()
		case 1:
			c.Do("Close on the server", func() { findCI().Close() })
		case 2:
			cf.c.Close()
		case 3:
			findCI()
			sf, _ = last.Load().(*fconn)
			sf.c.Close()
		case 4:
			cf.c.SetLinger(0)
			cf.c.Close()
		case 5:
			findCI()
			sf, _ = last.Load().(*fconn)
			sf.c.SetLinger(0)
			sf.c.Close()
		case 6:
			c.Must("opening requests", workers) // not in the middle of a frame of theirs
			cf.c.Write([]byte{0, 0, 0, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
		case 7:
			findCI()
			sf, _ = last.Load().(*fconn)
			c.Do("Close by several", func() {
				ci := findCI()
				<-parallel(3, func(int) { ci.Close() })
			})
			conn.Close()
		case 8:
			c.Must("opening requests", workers)
			cf.c.Write([]byte{1, 0, 0, 3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
		}
		c.Must("requests opened while the connection ends ("+name+")", workers)
		w.released(x, conn, name)
		c.Eval(fmt.Sprint("way", name, pending))
	}
	w.srv.Stop()
}

// c09blocked: writers blocked on a peer that does not read are released when the connection ends.
func c09blocked(c *C) {
	r := c.Rng
	// the server's writers
	var inW int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt64(&inW, 1)
		for {
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes(make([]byte, 60000))
			if w.EndWrite() != nil {
				return
			}
		}
	})
	closed := make(chan struct{}, 100)
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, WriteFrameChSize: r.Pick(1, 4, 50), WBufSize: 8192, LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{OnClose: func(net.Conn) { closed <- struct{}{} }}})
	for k := 0; k < 6 && !c.Violated(); k++ {
		atomic.StoreInt64(&inW, 0)
		nc, err := netDial(s.Addrs[0], 10*time.Second)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		n := r.Range(1, 6)
		for i := 0; i < n; i++ {
			nc.Write(WFrame{ID: uint64(2*i + 1), Flags: fNB, Cmd: 1}.Bytes())
		}
		c.MustUntil("handlers start to write", func() bool { return atomic.LoadInt64(&inW) == int64(n) })
		var ci *qrpc.ConnectionInfo
		c.MustUntil("registration", func() bool {
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return false })
			return ci != nil
		})
		c.Settle(10)
		how := r.Intn(3)
		switch how {
		case 0:
			c.Do("Close while writers are blocked", func() { ci.Close() })
		case 1:
			nc.(*net.TCPConn).SetLinger(0)
			nc.Close()
		case 2:
			nc.Close() // unread data: becomes a reset
		}
		c.Must("end of blocked handlers", func() chan struct{} {
			d := make(chan struct{})
			go func() { <-closed; close(d) }()
			return d
		}())
		nc.Close()
		c.Eval(fmt.Sprint("blocked server", how, n))
	}
	s.Stop()
	// the client's writers
	rs := newRawServer(c)
	for k := 0; k < 6 && !c.Violated(); k++ {
		conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 4, 50), WBufSize: 8192}, nil)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		nc := rs.next()
		n := r.Range(1, 6)
		var wrote int64
		done := parallel(n, func(int) {
			for {
				_, resp, err := conn.Request(1, qrpc.NBFlag, make([]byte, 60000))
				if err != nil {
					return
				}
				atomic.AddInt64(&wrote, 1)
				_ = resp
			}
		})
		prev := int64(-1)
		for w := atomic.LoadInt64(&wrote); w != prev; w = atomic.LoadInt64(&wrote) {
			prev = w
			c.Settle(20)
		}
		how := r.Intn(2)
		if how == 0 {
			conn.Close()
		} else {
			nc.(*net.TCPConn).SetLinger(0)
			nc.Close()
		}
		c.Must("blocked client writers", done)
		c.Do("Wait", conn.Wait)
		nc.Close()
		c.Eval(fmt.Sprint("blocked client", how, n))
	}
}

// c09rawserver: a raw server breaks off in the middle of answers, or answers garbage.
func c09rawserver(c *C) {
	r := c.Rng
	rs := newRawServer(c)
	for k := 0; k < 25 && !c.Violated(); k++ {
		conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 4, 50)}, nil)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		nc := rs.next()
		n := r.Range(1, 8)
		type rq struct {
			id   uint64
			resp qrpc.Response
		}
		var rqs []rq
		for i := 0; i < n; i++ {
			id, resp, err := conn.Request(1, qrpc.NBFlag, nil)
			if err != nil {
				c.Violate("open", "%v", err)
				return
			}
			rqs = append(rqs, rq{id, resp})
		}
		// the answers, cut somewhere or followed by something malformed
		var b []byte
		ends := make([]int, n)
		order := r.Perm(n)
		fl := make([]byte, n)
		for _, i := range order {
			fl[i] = byte(r.Pick(0, 0, int(fStream)))
			b = append(b, WFrame{ID: rqs[i].id, Flags: fl[i], Cmd: 7, Payload: gen(rqs[i].id, r.Pick(0, 5, 2000))}.Bytes()...)
			ends[i] = len(b)
		}
		cut := r.Range(0, len(b))
		how := r.Intn(4)
		b = b[:cut]
		nc.Write(b)
		switch how {
		case 0:
			nc.Close()
		case 1: // malformed, if at a frame boundary; else it is payload and then the end
			nc.Write([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
			nc.(*net.TCPConn).CloseWrite()
		case 2:
			nc.(*net.TCPConn).CloseWrite()
		case 3: // an even id without a handler, then the end
			nc.Write(WFrame{ID: 2, Flags: fNB, Cmd: 1}.Bytes())
			nc.(*net.TCPConn).CloseWrite()
		}
		done := parallel(n, func(i int) {
			f, err := rqs[i].resp.GetFrame()
			if err == nil {
				if f.Cmd != 7 && ends[i] <= cut {
					c.Violate("forged", "answer of request %d has cmd %d", rqs[i].id, f.Cmd)
				}
				if ends[i] > cut && how != 1 && how != 3 {
					c.Violate("forged", "request %d was completed although its answer was cut off: %s", rqs[i].id, brief(f.Payload))
				}
				for range f.FrameCh() {
				}
			} else if ends[i] <= cut && how != 0 {
				// the whole answer was received before an orderly end
				c.Count("complete_but_lost", 1)
			}
			c.Eval(fmt.Sprint("rawserver", how, ends[i] <= cut, fl[i]))
		})
		if !c.Wait(done) {
			c.StallAbort("callers of a server that broke off")
		}
		c.Do("Wait", conn.Wait)
		nc.Close()
	}
}
