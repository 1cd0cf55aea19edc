package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C33", MinEv: 300,
		Rule: "one evaluation per close that was timed against the configured rate, or per call or close elsewhere while a storm of closes was going on; distinct = (transport, cause of the closes, rate, what was observed)",
		Jobs: []JobSpec{
			{Name: "rate", Quick: 8, Deep: 60, Fn: c33rate},
			{Name: "isolation", Quick: 4, Deep: 24, Fn: c33isolation},
		}})
}

// rateLog counts events of a kind against the bound of a rate: by any time at most what the rate gives since the first
// cause, plus the burst the limiter's slack of ten allows.
type rateLog struct {
	c     *C
	key   string
	rate  int
	begin time.Time
	mu    sync.Mutex
	n     map[string]int
}

func (r *rateLog) event(kind string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	dt := time.Since(r.begin) // read after the event: never too short
	r.n[kind]++
	most := 12 + int(dt.Seconds()*float64(r.rate))
	if n := r.n[kind]; n > most {
		r.c.Violate("rate", "%s: %d connections are closed (%s) %v after the first cause, where %d a second allows %d", r.key, n, kind, dt, r.rate, most)
	}
	r.c.Eval(r.key + kind)
}

func (r *rateLog) count(kind string) int { r.mu.Lock(); defer r.mu.Unlock(); return r.n[kind] }

// c33rate: however the connections of a binding come to be closed, they are closed at the configured rate at most, and
// all of them are closed, each once.
func c33rate(c *C) {
	causes := []string{"close", "peers", "shutdown", "both", "frames"}
	cause := causes[c.K%len(causes)]
	mode := []string{"tcp", "ws", "tls", "wss"}[(c.K+c.K/len(causes)+int(c.Seed))%4]
	rate := c.Rng.Pick(40, 80, 150, 400)
	n := rate/2 + 45
	rl := &rateLog{c: c, key: fmt.Sprintf("%s %s ", mode, cause), rate: rate, n: map[string]int{}}
	var armed int32
	var notified sync.Map
	var total int64
	var onClose sync.Map
	b := qrpc.ServerBinding{MaxCloseRate: rate, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		answer(w, r)
	})}
	b.LifecycleCallbacks.OnClose = func(nc net.Conn) {
		if atomic.LoadInt32(&armed) == 1 {
			rl.event("OnClose")
			if _, dup := onClose.LoadOrStore(nc, true); dup {
				c.Violate("twice", "%s: OnClose twice for a connection", rl.key)
			}
		}
	}
	// the binding is one of several, the others have no limit
	idx := (c.K + int(c.Seed)) % 3
	bs := []qrpc.ServerBinding{{Handler: echoHandler}, {Handler: echoHandler}, {Handler: echoHandler}}
	bs[idx] = b
	srv := startServer(c, mode, nil, bs...)
	conns := make([]*qrpc.Connection, n)
	ready := parallel(n, func(i int) {
		conns[i] = srv.dialTo(idx, qrpc.ConnectionConfig{}, nil)
		c.call(conns[i], 0x41, qrpc.NBFlag, []byte{byte(i)})
	})
	c.Must("connections", ready)
	var infos []*qrpc.ConnectionInfo
	srv.S.WalkConn(idx, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { infos = append(infos, ci); return true })
	if len(infos) != n {
		c.Violate("registered", "%s: %d of %d connections are registered", rl.key, len(infos), n)
		return
	}
	for i, ci := range infos {
		i := i
		ci.NotifyWhenClose(func() {
			atomic.AddInt64(&total, 1)
			rl.event("notified")
			if _, dup := notified.LoadOrStore(i, true); dup {
				c.Violate("twice", "%s: close notification twice", rl.key)
			}
		})
	}
	atomic.AddInt32(&c.closing, 1)
	rl.begin = time.Now()
	atomic.StoreInt32(&armed, 1)
	down := make(chan struct{})
	var clients []<-chan struct{}
	if cause != "peers" && cause != "both" {
		for _, conn := range conns { // the other ends see at most as many ends
			conn := conn
			done := make(chan struct{})
			clients = append(clients, done)
			go func() { defer close(done); conn.Wait(); rl.event("ended at the peer") }()
		}
	}
	switch cause {
	case "close":
		for _, ci := range infos {
			go ci.Close()
		}
	case "peers":
		for _, conn := range conns {
			conn.Close()
		}
	case "both":
		for i := range infos {
			go infos[i].Close()
			go conns[i].Close()
		}
	case "frames": // bytes that are not a frame end a connection; so does one the handler closes
		for _, ci := range infos {
			ci := ci
			go func() { ci.Close() }()
			go func() { ci.GetWriter().StartWrite(1, 1, qrpc.PushFlag); ci.Close() }()
		}
	case "shutdown":
		go func() { defer close(down); srv.S.Shutdown() }()
	}
	limit := time.Duration(n*6/rate+12) * time.Second // a connection may use the limiter a few times
	all := make(chan struct{})
	go func() {
		for atomic.LoadInt64(&total) < int64(n) || rl.count("OnClose") < n {
			time.Sleep(5 * time.Millisecond)
		}
		close(all)
	}()
	if !c.waitAtLeast(all, limit, stallTicks) {
		c.StallAbort(fmt.Sprintf("closing %s: %d notified, %d OnClose, of %d connections at %d a second", rl.key, atomic.LoadInt64(&total), rl.count("OnClose"), n, rate))
	}
	for _, done := range clients {
		c.Must("the end at the peer", done)
	}
	left := 0
	c.MustUntil("unregistering", func() bool {
		left = 0
		srv.S.WalkConn(idx, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { left++; return true })
		return left == 0
	})
	if cause == "shutdown" {
		if !c.waitAtLeast(down, limit, stallTicks) {
			c.StallAbort("Shutdown")
		}
	}
	if a, b := atomic.LoadInt64(&total), rl.count("OnClose"); a != int64(n) || b != n {
		c.Violate("count", "%s: %d connections, %d notifications, %d OnClose", rl.key, n, a, b)
	}
	for _, conn := range conns {
		conn.Close()
	}
	c.Count("closes", int64(n))
	srv.Stop()
}

// c33isolation: while a binding works off a storm of closes, its living connections, new ones and the other bindings
// are served as ever, and connections of other bindings are closed at once.
func c33isolation(c *C) {
	mode := []string{"tcp", "ws", "tls", "wss"}[(c.K+int(c.Seed))%4]
	rate, n := 6, 80
	var closed1 int64
	b0 := qrpc.ServerBinding{MaxCloseRate: rate, Handler: echoHandler}
	b1 := qrpc.ServerBinding{Handler: echoHandler}
	b2 := qrpc.ServerBinding{Handler: echoHandler, MaxCloseRate: 1000000}
	b1.LifecycleCallbacks.OnClose = func(net.Conn) { atomic.AddInt64(&closed1, 1) }
	b2.LifecycleCallbacks.OnClose = func(net.Conn) { atomic.AddInt64(&closed1, 1) }
	srv := startServer(c, mode, nil, b0, b1, b2)
	living := make([]*qrpc.Connection, 6)
	for i := range living {
		living[i] = srv.dialTo(0, qrpc.ConnectionConfig{}, nil)
		c.probe(living[i], "before", "before the storm")
	}
	safe := map[*qrpc.ConnectionInfo]bool{}
	srv.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { safe[ci] = true; return true })
	victims := make([]*qrpc.Connection, n)
	c.Must("connections", parallel(n, func(i int) {
		victims[i] = srv.dialTo(0, qrpc.ConnectionConfig{}, nil)
		c.call(victims[i], 0x41, qrpc.NBFlag, []byte{byte(i)})
	}))
	var ended int64
	begin := time.Now()
	walked := map[*qrpc.ConnectionInfo]bool{}
	srv.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		if !safe[ci] {
			walked[ci] = true
			ci.NotifyWhenClose(func() { atomic.AddInt64(&ended, 1) })
			if len(walked)%2 == 0 {
				go ci.Close()
			}
		}
		return true
	})
	for i, conn := range victims {
		if i%2 == 0 {
			conn.Close()
		}
	}
	// at 6 a second 80 closes take 11 s at least: what follows must be over before, and does on its own
	during := func() bool {
		return atomic.LoadInt64(&ended) < int64(len(walked))/2 && time.Since(begin) < 7*time.Second
	}
	rounds := 0
	for ; rounds < 40 && during() && !c.Violated(); rounds++ {
		for _, conn := range living {
			c.probe(conn, "living", fmt.Sprintf("%s: a living connection during a storm of closes", mode))
			c.Eval("living " + mode)
		}
		conn := srv.dialTo(0, qrpc.ConnectionConfig{}, nil)
		c.probe(conn, "fresh", fmt.Sprintf("%s: a new connection during a storm of closes", mode))
		living = append(living, conn)
		c.Eval("fresh " + mode)
		// the other bindings close theirs at once
		before := atomic.LoadInt64(&closed1)
		k := 1 + rounds%2
		for j := 0; j < 3; j++ {
			other := srv.dialTo(k, qrpc.ConnectionConfig{}, nil)
			c.probe(other, "other", fmt.Sprintf("%s: another binding during a storm of closes", mode))
			if j == 0 {
				other.Close()
			} else {
				srv.S.WalkConn(k, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { go ci.Close(); return true })
			}
		}
		done := make(chan struct{})
		go func() {
			for atomic.LoadInt64(&closed1) < before+3 {
				time.Sleep(time.Millisecond)
			}
			close(done)
		}()
		if during() && !c.waitAtLeast(done, 2500*time.Millisecond, 500) && time.Since(begin) < 9*time.Second {
			c.Violate("other", "%s: connections of binding %d are not closed %v after, while binding 0 closes %d a second", mode, k, 2500*time.Millisecond, rate)
		}
		c.Eval(fmt.Sprint("other ", mode, k))
		time.Sleep(30 * time.Millisecond)
	}
	c.Count("rounds_during_storms", int64(rounds))
	if rounds == 0 {
		c.Count("no_round", 1)
	}
	for _, conn := range living {
		conn.Close()
	}
	for _, conn := range victims {
		conn.Close()
	}
	// working off the rest would take long, and the end of this process does it too
	atomic.AddInt32(&c.closing, 1)
}
