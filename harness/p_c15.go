package main

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C15", MinEv: 1500,
		Rule: "one evaluation per connection whose accept/close/notify callbacks were counted against the handlers that ran, per walk compared with the set of connections that were open throughout it, and per client connect/disconnect pair compared with the accepts of the listener; distinct = (job, way of closing, handlers pending, registrations, transport)",
		Jobs: []JobSpec{
			{Name: "walk", Quick: 5, Deep: 40, Fn: c15walk},
			{Name: "concurrent", Quick: 6, Deep: 40, Fn: c15concurrent},
			{Name: "callbacks", Quick: 8, Deep: 60, Fn: c15callbacks},
			{Name: "notify", Quick: 5, Deep: 40, Fn: c15notify},
			{Name: "client", Quick: 6, Deep: 40, Fn: c15client},
		}})
}

const (
	lcHello = 0x51
	lcHold  = 0x52 // waits until told; the payload is ignored
	lcPanic = 0x53
	lcWhoIs = 0x7777 // not registered
)

// lcConn is what the monitor knows about one accepted socket.
type lcConn struct {
	addr      string
	binding   int
	accepts   int32
	closes    int32
	reject    bool
	active    int32 // handlers running
	handled   int32
	notified  []*int32
	ci        *qrpc.ConnectionInfo
	atClose   int32 // handlers active when OnClose ran
	closeSeen chan struct{}
	openSock  int32 // the socket was still open when OnClose ran
}

// lcWorld is a server with every lifecycle callback installed.
type lcWorld struct {
	c       *C
	s       *Srv
	mu      sync.Mutex
	m       map[string]*lcConn // by the address of the peer
	all     []*lcConn
	rejectP int
	hold    chan struct{}
	rng     *Rng
	mode    string
	socks   map[string]*fconn
}

func newLCWorld(c *C, mode string, bindings, rejectP int, kick bool) *lcWorld {
	w := &lcWorld{c: c, m: map[string]*lcConn{}, rejectP: rejectP, hold: make(chan struct{}), rng: c.Rng.Fork(), mode: mode, socks: map[string]*fconn{}}
	var bs []qrpc.ServerBinding
	for i := 0; i < bindings; i++ {
		i := i
		mux := qrpc.NewServeMux()
		track := func(f func(fw qrpc.FrameWriter, q *qrpc.RequestFrame)) func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
			return func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
				x := w.get(i, q.ConnectionInfo().RemoteAddr())
				atomic.AddInt32(&x.active, 1)
				defer atomic.AddInt32(&x.active, -1)
				atomic.AddInt32(&x.handled, 1)
				if atomic.LoadInt32(&x.closes) != 0 {
					c.Violate("served-after-close", "a handler ran on %s after OnClose", x.addr)
				}
				w.mu.Lock()
				x.ci = q.ConnectionInfo()
				w.mu.Unlock()
				f(fw, q)
			}
		}
		mux.HandleFunc(lcHello, track(func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(fw, q) }))
		mux.HandleFunc(lcHold, track(func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
			<-w.hold
			if w.rng.P(1, 2) {
				time.Sleep(time.Duration(w.rng.Intn(1500)) * time.Microsecond)
			}
			answer(fw, q)
		}))
		mux.HandleFunc(lcPanic, track(func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) { panic("lifecycle") }))
		b := qrpc.ServerBinding{Handler: mux, WriteFrameChSize: c.Rng.Pick(1, 4), ReadFrameChSize: c.Rng.Pick(0, 1, 3)}
		b.LifecycleCallbacks = qrpc.ServerLifecycleCallbacks{
			OnAccept: func(nc net.Conn) error {
				x := w.fresh(i, nc.RemoteAddr().String())
				x.binding = i
				if atomic.AddInt32(&x.accepts, 1) != 1 {
					c.Violate("accept-twice", "OnAccept ran again for %s", x.addr)
				}
				if rejectP > 0 && w.rng.P(1, rejectP) {
					x.reject = true
					return errors.New("rejected")
				}
				return nil
			},
			OnClose: func(nc net.Conn) {
				x := w.get(i, nc.RemoteAddr().String())
				atomic.StoreInt32(&x.atClose, atomic.LoadInt32(&x.active))
				if atomic.LoadInt32(&x.accepts) == 0 {
					c.Violate("close-first", "OnClose of %s before its OnAccept", x.addr)
				}
				if atomic.AddInt32(&x.closes, 1) == 1 {
					if _, err := nc.Write([]byte{0}); err == nil {
						atomic.StoreInt32(&x.openSock, 1)
					}
					close(x.closeSeen)
				}
			},
		}
		if kick {
			b.OnKickCB = func(fw qrpc.FrameWriter) {}
		}
		bs = append(bs, b)
	}
	w.s = startServer(c, mode, nil, bs...)
	return w
}

// get finds a connection by its binding and its remote address, which connections of two bindings may share.
func (w *lcWorld) get(b int, addr string) *lcConn {
	addr = fmt.Sprint(b, "/", addr)
	w.mu.Lock()
	defer w.mu.Unlock()
	x := w.m[addr]
	if x == nil {
		x = &lcConn{addr: addr, closeSeen: make(chan struct{})}
		w.m[addr] = x
		w.all = append(w.all, x)
	}
	return x
}

// fresh is get for a socket just accepted; the port may have been used by an earlier one.
func (w *lcWorld) fresh(b int, addr string) *lcConn {
	key := fmt.Sprint(b, "/", addr)
	w.mu.Lock()
	if x := w.m[key]; x != nil && atomic.LoadInt32(&x.closes) != 0 {
		delete(w.m, key)
	}
	w.mu.Unlock()
	return w.get(b, addr)
}

func (w *lcWorld) info(x *lcConn) *qrpc.ConnectionInfo { w.mu.Lock(); defer w.mu.Unlock(); return x.ci }

// open makes an accepted connection and waits until it was served once.
func (w *lcWorld) open(b int) (*RawPeer, *lcConn) {
	for {
		p := dialRaw(w.c, w.s.Addrs[b])
		p.Send(WFrame{ID: 1, Flags: fNB, Cmd: lcHello})
		w.c.MustUntil("hello or rejection", func() bool { return p.N() > 0 || p.Closed() })
		x := w.get(b, p.nc.LocalAddr().String())
		if x.reject {
			continue
		}
		if p.N() == 0 {
			w.c.Violate("dropped", "the accepted connection %s was closed without being served: %v", x.addr, p.Err())
			w.c.Abort()
		}
		return p, x
	}
}

func (w *lcWorld) walk(b int) []*qrpc.ConnectionInfo {
	var got []*qrpc.ConnectionInfo
	w.s.S.WalkConn(b, func(fw qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		if fw == nil {
			w.c.Violate("walk-writer", "WalkConn gave no writer")
		}
		got = append(got, ci)
		return true
	})
	return got
}

// c15walk: nothing else happens during a walk; the result is known exactly.
func c15walk(c *C) {
	r := c.Rng
	w := newLCWorld(c, "tcp", 3, r.Pick(0, 6), true)
	type oc struct {
		p *RawPeer
		x *lcConn
	}
	var live [3][]oc
	nIDs := 0
	for step := 0; step < 150 && !c.Violated(); step++ {
		b := r.Intn(3)
		switch v := r.Intn(10); {
		case v < 4:
			p, x := w.open(b)
			live[b] = append(live[b], oc{p, x})
		case v < 5 && len(live[b]) > 0:
			i := r.Intn(len(live[b]))
			o := live[b][i]
			live[b] = append(live[b][:i:i], live[b][i+1:]...)
			how := r.Intn(5)
			ci := w.info(o.x)
			switch how {
			case 0:
				o.p.Close()
			case 1:
				c.Do("Close of a connection", func() { ci.Close() })
				if !ci.IsClosed() {
					c.Violate("close", "Close returned, IsClosed is false")
				}
			case 2:
				o.p.Send(WFrame{ID: 9, Flags: fNB, Cmd: lcWhoIs})
			case 3: // malformed
				o.p.nc.Write([]byte{0, 0, 0, 5, 1, 2, 3, 4, 5, 6, 7, 8, 0, 0, 0, 1})
			case 4: // takeover
				id := ci.GetID()
				if id == "" {
					nIDs++
					id = fmt.Sprint("t", nIDs)
					c.Do("SetID", func() { ci.SetID(id) })
				}
				p2, x2 := w.open(b)
				c.Do("SetID", func() { w.info(x2).SetID(id) })
				live[b] = append(live[b], oc{p2, x2})
			}
			if how == 1 || how == 4 {
				for _, g := range w.walk(b) {
					if g == ci {
						c.Violate("walk-closed", "a closed connection is visited (way of closing %d)", how)
					}
				}
			}
			c.Must("OnClose", o.x.closeSeen)
			c.Eval(fmt.Sprint("walk close ", how))
		default:
			got := w.walk(b)
			seen := map[*qrpc.ConnectionInfo]int{}
			for _, g := range got {
				seen[g]++
				if seen[g] > 1 {
					c.Violate("walk-twice", "a walk visited a connection twice")
				}
				if g.IsClosed() {
					c.Violate("walk-closed", "a walk visited a closed connection")
				}
			}
			for _, o := range live[b] {
				if seen[w.info(o.x)] != 1 {
					c.Violate("walk-missed", "a walk of binding %d visited the open connection %s %d times", b, o.x.addr, seen[w.info(o.x)])
				}
			}
			if len(got) != len(live[b]) {
				c.Violate("walk-extra", "a walk of binding %d visited %d connections, %d are open", b, len(got), len(live[b]))
			}
			c.Eval(fmt.Sprint("walk all ", bucket(len(got))))
			if len(live[b]) > 0 { // stop early
				stop := r.Range(1, len(live[b]))
				n := 0
				w.s.S.WalkConn(b, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { n++; return n < stop })
				if n != stop {
					c.Violate("walk-stop", "a walk that asked to stop at %d of %d visited %d", stop, len(live[b]), n)
				}
				c.Eval(fmt.Sprint("walk stop ", bucket(stop)))
			}
		}
	}
	// a walk may write: each open connection gets exactly one push
	for b := range live {
		w.s.S.WalkConn(b, func(fw qrpc.FrameWriter, _ *qrpc.ConnectionInfo) bool {
			fw.StartWrite(w.s.S.GetPushID(), 0x99, qrpc.PushFlag)
			fw.WriteBytes([]byte("walk"))
			return fw.EndWrite() == nil
		})
		for _, o := range live[b] {
			o := o
			pushes := func() (n int) {
				for _, f := range o.p.Frames() {
					if f.Cmd == 0x99 && f.Flags&fPush != 0 {
						n++
					}
				}
				return
			}
			c.MustUntil("push to a walked connection", func() bool { return pushes() > 0 })
			c.Settle(1)
			if pushes() != 1 {
				c.Violate("walk-push", "a walk that pushed to everyone gave %s %d pushes", o.x.addr, pushes())
			}
			c.Eval("walk push")
		}
	}
	w.finish("walk")
}

// finish shuts down and judges every connection.
func (w *lcWorld) finish(job string) {
	c := w.c
	w.s.Stop()
	for b := range w.s.Addrs {
		if n := len(w.walk(b)); n != 0 {
			c.Violate("walk-closed", "after Shutdown a walk visits %d connections", n)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range w.all {
		if n := atomic.LoadInt32(&x.accepts); n != 1 {
			c.Violate("accepts", "OnAccept ran %d times for %s", n, x.addr)
		}
		if n := atomic.LoadInt32(&x.closes); n != 1 {
			c.Violate("closes", "after Shutdown OnClose has run %d times for %s (rejected=%v)", n, x.addr, x.reject)
		}
		if n := atomic.LoadInt32(&x.atClose); n != 0 {
			c.Violate("close-early", "OnClose of %s ran while %d of its handlers were running", x.addr, n)
		}
		if atomic.LoadInt32(&x.openSock) != 0 {
			c.Violate("close-open", "OnClose of %s ran while its socket was still writable", x.addr)
		}
		if x.reject && atomic.LoadInt32(&x.handled) != 0 {
			c.Violate("rejected-served", "the rejected connection %s was served %d requests", x.addr, x.handled)
		}
		for _, n := range x.notified {
			if atomic.LoadInt32(n) != 1 {
				c.Violate("notify", "a close notification of %s ran %d times", x.addr, atomic.LoadInt32(n))
			}
		}
		c.Eval(fmt.Sprint(job, " conn ", x.reject, x.handled > 1, len(x.notified), w.mode))
	}
	c.Count("connections", int64(len(w.all)))
}

// c15concurrent: connections come and go while walks run.
func c15concurrent(c *C) {
	w := newLCWorld(c, "tcp", 2, 0, false)
	var stable [2][]*qrpc.ConnectionInfo
	for b := 0; b < 2; b++ {
		for i := 0; i < c.Rng.Range(1, 5); i++ {
			_, x := w.open(b)
			stable[b] = append(stable[b], w.info(x))
		}
	}
	stop := make(chan struct{})
	var mu sync.Mutex
	gone := map[*qrpc.ConnectionInfo]bool{}     // Close has returned
	where := map[*qrpc.ConnectionInfo]int{}     // binding
	var entered [2]map[*qrpc.ConnectionInfo]int // open before
	entered[0], entered[1] = map[*qrpc.ConnectionInfo]int{}, map[*qrpc.ConnectionInfo]int{}
	var walks int64
	churn := parallel(6, func(g int) {
		r := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 40 && !c.Violated(); k++ {
			b := r.Intn(2)
			_, x := w.open(b)
			ci := w.info(x)
			mu.Lock()
			where[ci] = b
			mu.Unlock()
			if r.P(1, 2) {
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			}
			c.Do("Close of a connection", func() { ci.Close() })
			mu.Lock()
			gone[ci] = true
			mu.Unlock()
		}
	})
	walker := parallel(3, func(g int) {
		r := NewRng(int64(mix(uint64(c.Seed), 100, uint64(g))))
		for {
			select {
			case <-stop:
				return
			default:
			}
			b := r.Intn(2)
			mu.Lock()
			before := map[*qrpc.ConnectionInfo]bool{}
			for ci := range gone {
				before[ci] = true
			}
			mu.Unlock()
			seen := map[*qrpc.ConnectionInfo]int{}
			w.s.S.WalkConn(b, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				seen[ci]++
				if r.P(1, 8) {
					time.Sleep(time.Duration(r.Intn(50)) * time.Microsecond)
				}
				return true
			})
			for ci, n := range seen {
				if n > 1 {
					c.Violate("walk-twice", "a walk visited a connection %d times", n)
				}
				if before[ci] {
					c.Violate("walk-closed", "a walk visited a connection whose Close had returned before the walk began")
				}
				mu.Lock()
				if wb, ok := where[ci]; ok && wb != b {
					c.Violate("walk-binding", "a walk of binding %d visited a connection of binding %d", b, wb)
				}
				mu.Unlock()
			}
			for _, ci := range stable[b] {
				if seen[ci] != 1 {
					c.Violate("walk-missed", "a walk visited a connection that was open throughout %d times", seen[ci])
				}
			}
			for _, ci := range stable[1-b] {
				if seen[ci] != 0 {
					c.Violate("walk-binding", "a walk of binding %d visited a connection of the other one", b)
				}
			}
			atomic.AddInt64(&walks, 1)
			c.Eval(fmt.Sprint("concurrent walk ", bucket(len(seen))))
			time.Sleep(100 * time.Microsecond)
		}
	})
	if !c.waitAtLeast(churn, stallWall*3, stallTicks*2) {
		c.StallAbort("connections opened and closed")
	}
	close(stop)
	c.Must("walks", walker)
	c.Count("walks", walks)
	w.finish("concurrent")
}

// c15callbacks: every way of closing, with handlers pending.
func c15callbacks(c *C) {
	r := c.Rng
	mode := []string{"tcp", "tcp", "ws", "tls"}[c.K%4]
	w := newLCWorld(c, mode, 2, 5, true)
	type job struct {
		how     int
		pending int
		block   bool
	}
	var wg sync.WaitGroup
	var lateMu sync.Mutex
	var late []func() // connections kept open until Shutdown
	for i := 0; i < 40; i++ {
		j := job{r.Intn(9), r.Intn(4), r.P(1, 3)}
		b := r.Intn(2)
		rr := r.Fork()
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			var send func(WFrame)
			var conn *qrpc.Connection
			var peer *RawPeer
			var x *lcConn
			closed := func() bool { return false }
			raw := mode == "tcp" && rr.P(2, 3)
			for x == nil {
				if raw {
					peer = dialRaw(c, w.s.Addrs[b])
					peer.Send(WFrame{ID: 1, Flags: fNB, Cmd: lcHello})
					c.MustUntil("hello or rejection", func() bool { return peer.N() > 0 || peer.Closed() })
					y := w.get(b, peer.nc.LocalAddr().String())
					if y.reject {
						c.Eval("rejected raw")
						continue
					}
					if peer.N() == 0 {
						c.Violate("dropped", "an accepted connection was closed without being served: %v", peer.Err())
						return
					}
					x = y
					closed = peer.Closed
					ids := uint64(1)
					send = func(f WFrame) { ids += 2; f.ID = ids; peer.Send(f) }
					continue
				}
				var err error
				c.Do("dial", func() { conn, err = qrpc.NewConnection(w.s.Addrs[b], clientConf(mode, qrpc.ConnectionConfig{}), nil) })
				if err != nil { // rejected during the handshake
					c.Eval("rejected in handshake " + mode)
					continue
				}
				// find ourselves by the payload of a request, as the local address is not known
				found := make(chan *lcConn, 1)
				c.Do("hello of a client", func() {
					_, resp, err := conn.Request(lcHello, qrpc.NBFlag, []byte(fmt.Sprint("c", i)))
					if err == nil {
						_, err = resp.GetFrame()
					}
					if err != nil {
						found <- nil
						return
					}
					found <- &lcConn{}
				})
				if <-found == nil {
					closeConn(c, conn)
					c.Eval("rejected " + mode)
					continue
				}
				x = &lcConn{} // not identified: only ways of closing by the client or Shutdown
				cc := conn
				closed = cc.IsClosed
				send = func(f WFrame) {
					cc.Request(qrpc.Cmd(f.Cmd), qrpc.FrameFlag(f.Flags), f.Payload)
				}
			}
			ci := w.info(x)
			for k := 0; k < j.pending; k++ {
				fl := fNB
				if j.block && k == j.pending-1 {
					fl = 0
				}
				send(WFrame{Cmd: lcHold, Flags: fl})
			}
			if ci != nil {
				c.MustUntil("start of the held handlers", func() bool { return int(atomic.LoadInt32(&x.active)) == j.pending })
				for k := 0; k < rr.Intn(4); k++ {
					n := new(int32)
					w.mu.Lock()
					x.notified = append(x.notified, n)
					w.mu.Unlock()
					ci.NotifyWhenClose(func() { atomic.AddInt32(n, 1) })
				}
			}
			how := j.how
			if ci == nil && how != 0 && how != 8 && how != 2 {
				how = 0
			}
			switch how {
			case 0:
				if peer != nil {
					peer.Close()
				} else {
					conn.Close()
				}
			case 1:
				if tc, ok := peer.nc.(*net.TCPConn); ok {
					tc.SetLinger(0)
				}
				peer.Close()
			case 2:
				send(WFrame{Cmd: lcWhoIs, Flags: fNB})
			case 3:
				peer.nc.Write([]byte{0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 1, 1})
			case 4:
				go ci.Close()
			case 5: // several at once
				for k := 0; k < 4; k++ {
					go ci.Close()
				}
				peer.Close()
			case 6: // takeover
				id := fmt.Sprint("id", i)
				c.Do("SetID", func() { ci.SetID(id) })
				go func() {
					_, y := w.open(b)
					w.info(y).SetID(id)
				}()
			case 7: // a panicking request, then closed by the peer
				send(WFrame{Cmd: lcPanic, Flags: fNB})
				peer.Close()
			case 8:
				lateMu.Lock()
				late = append(late, func() { c.MustUntil("end of a connection after Shutdown", closed) })
				lateMu.Unlock()
				return
			}
			if ci != nil {
				// while a blocking request is handled the socket is not read: only the server's own ways of closing
				if how >= 4 && how <= 6 || !(j.block && j.pending > 0) {
					c.MustUntil("closing of the connection", ci.IsClosed)
					w.mu.Lock()
					ns := append([]*int32(nil), x.notified...)
					w.mu.Unlock()
					for _, n := range ns {
						n := n
						c.MustUntil("close notification", func() bool { return atomic.LoadInt32(n) != 0 })
					}
				}
				if j.pending > 0 && atomic.LoadInt32(&x.closes) != 0 && atomic.LoadInt32(&x.active) > 0 {
					c.Violate("close-early", "OnClose ran while %d handlers were running", atomic.LoadInt32(&x.active))
				}
			}
			c.Eval(fmt.Sprint("callbacks ", how, j.pending, j.block, raw, mode))
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.waitAtLeast(done, stallWall*3, stallTicks*2) {
		c.StallAbort("closing of connections")
	}
	if r.P(1, 2) {
		close(w.hold)
		c.Settle(1)
	} else {
		go func() { c.Settle(2); close(w.hold) }()
	}
	w.s.Stop()
	for _, f := range late {
		f()
	}
	w.finish("callbacks")
}

// c15notify: registration races with closing.
func c15notify(c *C) {
	r := c.Rng
	w := newLCWorld(c, "tcp", 1, 0, false)
	for round := 0; round < 60 && !c.Violated(); round++ {
		p, x := w.open(0)
		ci := w.info(x)
		G := r.Range(1, 5)
		per := r.Range(1, 6)
		counts := make([]int32, G*per)
		how := r.Intn(3)
		gate := make(chan struct{})
		var immediate int64
		done := parallel(G+1, func(g int) {
			<-gate
			if g == G {
				switch how {
				case 0:
					ci.Close()
				case 1:
					p.Close()
				case 2:
					p.Send(WFrame{ID: 5, Flags: fNB, Cmd: lcWhoIs})
				}
				return
			}
			for k := 0; k < per; k++ {
				i := g*per + k
				ci.NotifyWhenClose(func() {
					if !ci.IsClosed() {
						c.Violate("notify-early", "a close notification ran before the connection was closed")
					}
					// registering from inside a notification must not hang and runs at once or later
					atomic.AddInt32(&counts[i], 1)
				})
				if atomic.LoadInt32(&counts[i]) == 1 {
					atomic.AddInt64(&immediate, 1)
				}
				if k%2 == 1 {
					time.Sleep(time.Duration(k*20) * time.Microsecond)
				}
			}
		})
		close(gate)
		c.Must("registrations racing with a close", done)
		c.Must("OnClose", x.closeSeen)
		for i := range counts {
			i := i
			c.MustUntil("close notification", func() bool { return atomic.LoadInt32(&counts[i]) != 0 })
		}
		// closed: runs immediately, exactly once
		var late int32
		c.Do("NotifyWhenClose on a closed connection", func() { ci.NotifyWhenClose(func() { atomic.AddInt32(&late, 1) }) })
		if late != 1 {
			c.Violate("notify-late", "a notification registered on a closed connection ran %d times before NotifyWhenClose returned", late)
		}
		ci.Close()
		for i := range counts {
			if n := atomic.LoadInt32(&counts[i]); n != 1 {
				c.Violate("notify", "a close notification ran %d times", n)
			}
		}
		if atomic.LoadInt32(&late) != 1 {
			c.Violate("notify-late", "a late notification ran again")
		}
		c.Eval(fmt.Sprint("notify ", how, G, immediate > 0))
		c.Count("notifications", int64(len(counts)+1))
		// one that registers another one
		p2, x2 := w.open(0)
		ci2 := w.info(x2)
		var inner int32
		ci2.NotifyWhenClose(func() { ci2.NotifyWhenClose(func() { atomic.AddInt32(&inner, 1) }) })
		p2.Close()
		c.Must("OnClose", x2.closeSeen)
		c.MustUntil("notification registered by a notification", func() bool { return atomic.LoadInt32(&inner) != 0 })
		if atomic.LoadInt32(&inner) != 1 {
			c.Violate("notify", "a notification registered by a notification ran %d times", inner)
		}
		c.Eval("notify nested")
	}
	w.finish("notify")
}

// c15client: connect and disconnect callbacks of clients against the accepts of a listener.
func c15client(c *C) {
	r := c.Rng
	for round := 0; round < 8 && !c.Violated(); round++ {
		reconnect := r.P(2, 3)
		ln := newListener()
		var accepted int32
		var mu sync.Mutex
		var socks []net.Conn
		lnDone := make(chan struct{})
		rr := r.Fork()
		go func() {
			defer close(lnDone)
			for {
				nc, err := ln.Accept()
				if err != nil {
					return
				}
				atomic.AddInt32(&accepted, 1)
				mu.Lock()
				socks = append(socks, nc)
				mu.Unlock()
				d := time.Duration(rr.Intn(3000)) * time.Microsecond
				go func() { // what the server does with it
					time.Sleep(d)
					nc.Close()
				}()
				if !reconnect {
					continue
				}
			}
		}()
		var state int32 // 0 disconnected 1 connected
		var con, dis int32
		conf := qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1, 4), LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{
			OnConnect: func(cc *qrpc.Connection) {
				if !atomic.CompareAndSwapInt32(&state, 0, 1) {
					c.Violate("connect-twice", "OnConnect ran twice in a row")
				}
				atomic.AddInt32(&con, 1)
			},
			OnDisconnect: func(cc *qrpc.Connection) {
				if !atomic.CompareAndSwapInt32(&state, 1, 0) {
					c.Violate("disconnect-twice", "OnDisconnect ran without an OnConnect")
				}
				atomic.AddInt32(&dis, 1)
			},
		}}
		var conn *qrpc.Connection
		if reconnect {
			conn = qrpc.NewConnectionWithReconnect([]string{ln.Addr().String()}, conf, nil)
			want := int32(r.Range(1, 6))
			c.MustUntil("reconnections", func() bool { return atomic.LoadInt32(&con) >= want })
			if r.P(1, 2) {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
			closeConn(c, conn)
		} else {
			var err error
			c.Do("dial", func() { conn, err = qrpc.NewConnection(ln.Addr().String(), conf, nil) })
			if err != nil {
				c.Violate("dial", "%v", err)
				break
			}
			if r.P(1, 2) {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				conn.Close()
			}
			c.Do("Wait", conn.Wait)
		}
		// everything dialed is in the accept queue or was accepted
		a, b := atomic.LoadInt32(&con), atomic.LoadInt32(&dis)
		c.MustUntil("accept of the connections made", func() bool { return atomic.LoadInt32(&accepted) >= a })
		c.Settle(1)
		if a != b || state != 0 {
			c.Violate("client-pairs", "Wait returned; OnConnect ran %d times, OnDisconnect %d times", a, b)
		}
		if n := atomic.LoadInt32(&accepted); n != a {
			c.Violate("client-count", "%d connections were established, OnConnect ran %d times", n, a)
		}
		if x := atomic.LoadInt32(&con); x != a || atomic.LoadInt32(&dis) != b {
			c.Violate("client-late", "a callback ran after Wait returned")
		}
		ln.Close()
		c.Must("listener", lnDone)
		mu.Lock()
		for _, s := range socks {
			s.Close()
		}
		mu.Unlock()
		c.Eval(fmt.Sprint("client ", reconnect, bucket(int(a))))
		for i := int32(0); i < a; i++ {
			c.Eval("")
		}
	}
}
