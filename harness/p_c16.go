package main

import (
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C16", MinEv: 300,
		Rule: "one evaluation per Shutdown call that returned (handlers running, connections open, addresses accepting and shutdown functions were looked at then), per value returned by a serving call, per connection and per shutdown function counted; distinct = (job, moment, bindings, callers, transport, what was in progress)",
		Jobs: []JobSpec{
			{Name: "traffic", Quick: 10, Deep: 80, Fn: c16traffic},
			{Name: "moment", Quick: 6, Deep: 40, Fn: c16moment},
			{Name: "functions", Quick: 3, Deep: 20, Fn: c16functions},
			{Name: "held", Quick: 6, Deep: 40, Fn: c16held},
			{Name: "partial", Quick: 2, Deep: 10, Fn: c16partial},
		}})
}

// ownIP is a loopback address no other process of the harness listens on, so that nobody else takes a
// port this process has given up.
func ownIP() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+p>>14&0x7f, 1+p>>7&0x7f, 1+p&0x7f)
}

var ownPort int32 = 20000

// ownAddr gives an address that was not used before in this process.
func ownAddr() string { return fmt.Sprintf("%s:%d", ownIP(), atomic.AddInt32(&ownPort, 1)) }

func accepts(addr string) bool {
	nc, err := netDial(addr, 3*time.Second)
	if err != nil {
		return false
	}
	nc.Close()
	return true
}

// downWorld is a server about to be shut down.
type downWorld struct {
	c       *C
	mode    string
	srv     *qrpc.Server
	addrs   []string
	active  int32
	started int64
	target  int64
	down    int32 // a Shutdown has returned
	acc     int64
	closed  int64
	hold    chan struct{}
	rng     *Rng
	fns     []*int32
	mu      sync.Mutex
	cis     []*qrpc.ConnectionInfo
	ret     chan error
	ignore  bool // held handlers ignore the end of their context
}

const (
	dEcho   = 0x61
	dHold   = 0x62
	dStream = 0x63
	dPush   = 0x64
	dCall   = 0x65 // calls the client
)

func newDownWorld(c *C, mode string, n int) *downWorld {
	w := &downWorld{c: c, mode: mode, hold: make(chan struct{}), rng: c.Rng.Fork(), ret: make(chan error, 4)}
	var bs []qrpc.ServerBinding
	for i := 0; i < n; i++ {
		b := qrpc.ServerBinding{Addr: ownAddr(), ReadFrameChSize: w.rng.Pick(0, 2), WriteFrameChSize: w.rng.Pick(1, 3)}
		b.Handler = qrpc.HandlerFunc(w.handle)
		b.LifecycleCallbacks = qrpc.ServerLifecycleCallbacks{
			OnAccept: func(net.Conn) error { atomic.AddInt64(&w.acc, 1); return nil },
			OnClose: func(net.Conn) {
				if w.rng.P(1, 4) {
					time.Sleep(time.Duration(w.rng.Intn(3000)) * time.Microsecond)
				}
				atomic.AddInt64(&w.closed, 1)
			}}
		setMode(mode, &b)
		w.addrs = append(w.addrs, b.Addr)
		bs = append(bs, b)
	}
	w.srv = qrpc.NewServer(bs)
	return w
}

func (w *downWorld) handle(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
	atomic.AddInt64(&w.started, 1)
	atomic.AddInt32(&w.active, 1)
	defer atomic.AddInt32(&w.active, -1)
	if atomic.LoadInt32(&w.down) != 0 {
		w.c.Violate("started-after", "a handler started after Shutdown had returned")
	}
	ci := q.ConnectionInfo()
	w.mu.Lock()
	w.cis = append(w.cis, ci)
	w.mu.Unlock()
	switch q.Cmd {
	case dHold:
		if w.ignore {
			<-w.hold
		} else {
			select {
			case <-w.hold:
			case <-q.Context().Done():
			}
		}
		time.Sleep(time.Duration(w.rng.Intn(2000)) * time.Microsecond)
	case dStream:
		for range q.FrameCh() {
		}
	case dPush:
		p := ci.GetWriter()
		p.StartWrite(2, 0x99, qrpc.PushFlag)
		p.WriteBytes([]byte("x"))
		p.EndWrite()
	case dCall:
		_, resp, err := ci.Request(0x70, 0, q.Payload)
		if err == nil {
			resp.GetFrame()
		}
	}
	answer(fw, q)
}

// judge looks at everything that must hold when a Shutdown returns.
func (w *downWorld) judge(what string) {
	c := w.c
	a := atomic.LoadInt32(&w.active)
	acc, cl := atomic.LoadInt64(&w.acc), atomic.LoadInt64(&w.closed)
	atomic.StoreInt32(&w.down, 1)
	if a != 0 {
		c.Violate("handlers", "%s: Shutdown returned while %d handlers were running", what, a)
	}
	w.mu.Lock()
	cis := append([]*qrpc.ConnectionInfo(nil), w.cis...)
	w.mu.Unlock()
	for _, ci := range cis {
		if !ci.IsClosed() {
			c.Violate("open", "%s: Shutdown returned, a connection is not closed", what)
			break
		}
	}
	if acc != cl {
		c.Violate("open", "%s: Shutdown returned, %d connections were accepted, %d have ended", what, acc, cl)
	}
	for i, ad := range w.addrs {
		if accepts(ad) {
			c.Violate("listening", "%s: Shutdown returned, binding %d still accepts connections", what, i)
		}
	}
	for i, n := range w.fns {
		if k := atomic.LoadInt32(n); k != 1 {
			c.Violate("functions", "%s: Shutdown returned, shutdown function %d has run %d times", what, i, k)
		}
	}
}

// after judges what must still hold some time later.
func (w *downWorld) after(what string) {
	c := w.c
	for i := range w.addrs {
		n := 0
		w.srv.WalkConn(i, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { n++; return true })
		if n != 0 {
			c.Violate("open", "%s: after Shutdown %d connections are registered", what, n)
		}
	}
	var late int32
	c.Do("OnShutdown after Shutdown", func() { w.srv.OnShutdown(func() { atomic.AddInt32(&late, 1) }) })
	if late != 1 {
		c.Violate("functions", "%s: a function registered after Shutdown ran %d times before OnShutdown returned", what, late)
	}
	c.Do("Shutdown again", func() { w.srv.Shutdown() })
	if late != 1 {
		c.Violate("functions", "%s: a further Shutdown ran a function again", what)
	}
	w.judge(what + ", again")
	c.Eval("again " + w.mode)
}

func (w *downWorld) fn() {
	n := new(int32)
	w.fns = append(w.fns, n)
	w.srv.OnShutdown(func() { atomic.AddInt32(n, 1) })
}

func (w *downWorld) served(what string, n int) {
	for i := 0; i < n; i++ {
		var err error
		w.c.Do("return of serving "+what, func() { err = <-w.ret })
		if err != qrpc.ErrServerClosed {
			w.c.Violate("serve-return", "%s: serving returned %v", what, err)
		}
		w.c.Eval("served " + what)
	}
}

// load keeps clients busy until their connection ends; it returns a channel that closes when they are done.
func (w *downWorld) load(n int) <-chan struct{} {
	c := w.c
	return parallel(n, func(g int) {
		r := NewRng(int64(mix(uint64(c.Seed), uint64(g), 7)))
		conf := clientConf(w.mode, qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1, 4), Handler: echoHandler})
		conn, err := qrpc.NewConnection(w.addrs[g%len(w.addrs)], conf, func(*qrpc.Connection, *qrpc.Frame) {})
		if err != nil {
			return
		}
		for k := 0; ; k++ {
			cmd := qrpc.Cmd(r.Pick(dEcho, dEcho, dHold, dPush, dCall, dStream))
			if k > 300 {
				cmd = dHold
			}
			if cmd == dStream {
				sw, resp, err := conn.StreamRequest(cmd, 0, gen(r.Uint64(), 100))
				if err != nil {
					break
				}
				sw.StartWrite(dStream)
				sw.WriteBytes(gen(1, 200))
				if sw.EndWrite(r.P(2, 3)) == nil && r.P(1, 2) {
					go resp.GetFrame()
				}
				continue
			}
			fl := qrpc.FrameFlag(0)
			if cmd == dHold || r.P(2, 3) {
				fl = qrpc.NBFlag
			}
			if cmd == dCall && atomic.LoadInt64(&w.started) < w.target { // from a blocking handler it can't be answered
				fl = qrpc.NBFlag
			}
			_, resp, err := conn.Request(cmd, fl, gen(r.Uint64(), r.Pick(0, 10, 3000)))
			if err != nil {
				break
			}
			if cmd == dHold && k <= 300 && (r.P(9, 10) || atomic.LoadInt64(&w.started) < w.target) {
				continue
			}
			if _, err = resp.GetFrame(); err != nil {
				break
			}
		}
		conn.Wait()
	})
}

// c16traffic: Shutdown, several times at once, with everything in progress.
func c16traffic(c *C) {
	r := c.Rng
	w := newDownWorld(c, []string{"tcp", "tcp", "ws", "tls", "wss"}[c.K%5], r.Range(1, 3))
	for i := 0; i < r.Intn(4); i++ {
		w.fn()
	}
	go func() { w.ret <- w.srv.ListenAndServe() }()
	for _, a := range w.addrs {
		a := a
		c.MustUntil("listening", func() bool { return accepts(a) })
	}
	target := int64(r.Pick(0, 1, 20, 200))
	w.target = target
	clients := w.load(r.Range(2, 12))
	c.MustUntil("traffic", func() bool { return atomic.LoadInt64(&w.started) >= target })
	throttled := -1
	if r.P(1, 3) {
		throttled = r.Intn(len(w.addrs))
		w.srv.SetThrottle(throttled)
		c.Settle(1)
	}
	// some sockets that never say anything, some that come while it shuts down
	for i := 0; i < r.Intn(4); i++ {
		if nc, err := netDial(w.addrs[r.Intn(len(w.addrs))], 10*time.Second); err == nil {
			defer nc.Close()
		}
	}
	stopDial := make(chan struct{})
	dialer := parallel(2, func(g int) {
		for i := 0; i < 400; i++ {
			select {
			case <-stopDial:
				return
			default:
			}
			if nc, err := netDial(w.addrs[(g+i)%len(w.addrs)], time.Second); err == nil {
				nc.Write(WFrame{ID: 1, Flags: fNB, Cmd: dEcho}.Bytes())
				if i%3 == 0 {
					defer nc.Close()
				} else {
					nc.Close()
				}
			}
			time.Sleep(2 * time.Millisecond)
		}
	})
	callers := r.Range(1, 4)
	what := fmt.Sprintf("traffic in progress (%s, %d bindings, %d callers, throttled %v)", w.mode, len(w.addrs), callers, throttled >= 0)
	gate := make(chan struct{})
	done := parallel(callers, func(g int) {
		<-gate
		rr := NewRng(int64(g) + c.Seed)
		if g > 0 {
			time.Sleep(time.Duration(rr.Intn(2000)) * time.Microsecond)
		}
		w.srv.Shutdown()
		a := atomic.LoadInt32(&w.active)
		if a != 0 {
			c.Violate("handlers", "%s: Shutdown returned while %d handlers were running", what, a)
		}
		c.Eval(fmt.Sprint("shutdown ", w.mode, len(w.addrs), callers, throttled >= 0, bucket(int(target))))
	})
	close(gate)
	c.Must("Shutdown with traffic", done)
	w.judge(what)
	close(stopDial)
	w.served("with traffic", 1)
	c.Must("clients after Shutdown", clients)
	c.Must("dialers", dialer)
	w.after(what)
	c.Count("handlers", atomic.LoadInt64(&w.started))
	c.Count("connections", atomic.LoadInt64(&w.acc))
	if w.acc > 0 {
		c.Eval(fmt.Sprint("connections ", bucket(int(w.acc))))
	}
}

// c16moment: Shutdown before, during and right after the start of serving.
func c16moment(c *C) {
	r := c.Rng
	n := 12
	done := parallel(n, func(i int) {
		w := newDownWorld(c, []string{"tcp", "ws", "tls"}[r.Intn(3)], r.Range(1, 3))
		for k := 0; k < r.Intn(3); k++ {
			w.fn()
		}
		how := r.Intn(5)
		what := fmt.Sprint("moment ", how)
		switch how {
		case 0: // before anything
			w.srv.Shutdown()
			w.judge(what)
			w.ret <- w.srv.ListenAndServe()
		case 1: // at about the same time
			d := time.Duration(r.Intn(600)) * time.Microsecond
			go func() { w.ret <- w.srv.ListenAndServe() }()
			time.Sleep(d)
			w.srv.Shutdown()
			if a := atomic.LoadInt32(&w.active); a != 0 {
				c.Violate("handlers", "%s: Shutdown returned while %d handlers were running", what, a)
			}
			// a listen call that was under way may take until serving returns
		case 2: // between listening and serving
			if err := w.srv.ListenAll(); err != nil {
				c.Violate("listen", "ListenAll: %v", err)
			}
			var nc net.Conn
			if r.P(1, 2) {
				nc, _ = netDial(w.addrs[0], 10*time.Second)
			}
			w.srv.Shutdown()
			w.judge(what)
			go func() { w.ret <- w.srv.ServeAll() }()
			if nc != nil {
				c.Do("end of a connection never accepted", func() { nc.Read(make([]byte, 1)) })
				nc.Close()
			}
		case 3: // serving on listeners of one's own, one per binding, one started late
			lns := make([]net.Listener, len(w.addrs))
			for k, a := range w.addrs {
				ln, err := net.Listen("tcp", a)
				if err != nil {
					c.Violate("listen", "%v", err)
					return
				}
				lns[k] = ln
			}
			late := r.P(1, 2)
			for k := range lns {
				k := k
				if late && k == len(lns)-1 {
					continue
				}
				go func() { w.ret <- w.srv.Serve(lns[k], k) }()
			}
			if r.P(1, 2) {
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			}
			w.srv.Shutdown()
			if late {
				go func() { w.ret <- w.srv.Serve(lns[len(lns)-1], len(lns)-1) }()
			}
			w.served(what, len(lns))
			w.judge(what)
			c.Eval(fmt.Sprint(what, late, len(lns)))
			w.after(what)
			return
		case 4: // clients at once, then right away
			go func() { w.ret <- w.srv.ListenAndServe() }()
			cl := w.load(3)
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			w.srv.Shutdown()
			c.Must("clients after Shutdown", cl)
		}
		w.served(what, 1)
		w.judge(what + ", served")
		c.Eval(fmt.Sprint(what, len(w.addrs), w.mode))
		w.after(what)
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("Shutdown around the start of serving")
	}
}

// c16functions: registration of shutdown functions races with Shutdown.
func c16functions(c *C) {
	r := c.Rng
	n := 20
	done := parallel(n, func(i int) {
		w := newDownWorld(c, "tcp", 1)
		go func() { w.ret <- w.srv.ListenAndServe() }()
		if r.P(1, 2) {
			c.MustUntil("listening", func() bool { return accepts(w.addrs[0]) })
		}
		early := make([]int32, r.Range(0, 5))
		for k := range early {
			k := k
			w.srv.OnShutdown(func() {
				time.Sleep(time.Duration(w.rng.Intn(1500)) * time.Microsecond)
				atomic.AddInt32(&early[k], 1)
			})
		}
		const G, per = 4, 10
		var racing [G * per]int32
		gate := make(chan struct{})
		regs := parallel(G, func(g int) {
			<-gate
			for k := 0; k < per; k++ {
				x := g*per + k
				w.srv.OnShutdown(func() { atomic.AddInt32(&racing[x], 1) })
				if k%3 == 0 {
					time.Sleep(time.Duration(w.rng.Intn(100)) * time.Microsecond)
				}
			}
		})
		callers := w.rng.Range(1, 3)
		var first int32
		shut := parallel(callers, func(g int) {
			<-gate
			w.srv.Shutdown()
			atomic.AddInt32(&first, 1)
		})
		close(gate)
		c.Must("Shutdown with functions being registered", shut)
		c.Must("OnShutdown", regs)
		for k := range early {
			if v := atomic.LoadInt32(&early[k]); v != 1 {
				c.Violate("functions", "all Shutdown calls returned, a function registered before ran %d times", v)
			}
			c.Eval(fmt.Sprint("function early ", callers))
		}
		for k := range racing {
			k := k
			c.MustUntil("a function registered while shutting down", func() bool { return atomic.LoadInt32(&racing[k]) != 0 })
			if v := atomic.LoadInt32(&racing[k]); v != 1 {
				c.Violate("functions", "a function registered while shutting down ran %d times", v)
			}
			c.Eval(fmt.Sprint("function racing ", callers))
		}
		w.served("functions", 1)
		w.judge("functions")
		w.after("functions")
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("Shutdown with functions")
	}
}

// c16held: Shutdown does not return before the handlers do, and does right after.
func c16held(c *C) {
	r := c.Rng
	w := newDownWorld(c, []string{"tcp", "ws", "tls"}[c.K%3], r.Range(1, 2))
	w.ignore = true
	w.fn()
	go func() { w.ret <- w.srv.ListenAndServe() }()
	for _, a := range w.addrs {
		a := a
		c.MustUntil("listening", func() bool { return accepts(a) })
	}
	n := r.Range(1, 6)
	var conns []*qrpc.Connection
	for i := 0; i < n; i++ {
		var conn *qrpc.Connection
		var err error
		c.Do("dial", func() {
			conn, err = qrpc.NewConnection(w.addrs[i%len(w.addrs)], clientConf(w.mode, qrpc.ConnectionConfig{}), nil)
		})
		if err != nil {
			c.Violate("dial", "%v", err)
			c.Abort()
		}
		conns = append(conns, conn)
		fl := qrpc.FrameFlag(0)
		if r.P(1, 2) {
			fl = qrpc.NBFlag
		}
		if _, _, err = conn.Request(dHold, fl, nil); err != nil {
			c.Violate("request", "%v", err)
		}
	}
	c.MustUntil("held handlers", func() bool { return int(atomic.LoadInt32(&w.active)) == n })
	if r.P(1, 2) { // the connections of some go first
		conns[0].Close()
	}
	callers := r.Range(1, 3)
	var returned int32
	done := parallel(callers, func(int) {
		w.srv.Shutdown()
		if a := atomic.LoadInt32(&w.active); a != 0 {
			c.Violate("handlers", "Shutdown returned while %d held handlers were running", a)
		}
		atomic.AddInt32(&returned, 1)
	})
	// all connections are closed although handlers still run
	for _, conn := range conns {
		c.MustUntil("closing of connections by Shutdown", conn.IsClosed)
	}
	c.Settle(int64(r.Range(5, 60)))
	if k := atomic.LoadInt32(&returned); k != 0 {
		c.Violate("early", "%d Shutdown calls returned while %d handlers were running", k, atomic.LoadInt32(&w.active))
	}
	c.Eval(fmt.Sprint("held pending ", n, callers, w.mode))
	close(w.hold)
	c.Must("Shutdown once the handlers returned", done)
	w.judge("held")
	w.served("held", 1)
	w.after("held")
	for k := 0; k < callers; k++ {
		c.Eval(fmt.Sprint("held ", n, callers, w.mode))
	}
}

// c16partial: listening fails half way; Shutdown still leaves nothing behind.
func c16partial(c *C) {
	for round := 0; round < 12; round++ {
		r := c.Rng
		n := r.Range(2, 4)
		bad := r.Range(1, n-1)
		w := newDownWorld(c, "tcp", n)
		var bs []qrpc.ServerBinding
		for i := 0; i < n; i++ {
			b := w.srv.BindingConfig(i)
			if i == bad {
				b.ListenFunc = func(string, string) (net.Listener, error) { return nil, errors.New("no address") }
			}
			bs = append(bs, b)
		}
		w.srv = qrpc.NewServer(bs)
		var err error
		c.Do("ListenAndServe with a binding that cannot listen", func() { err = w.srv.ListenAndServe() })
		if err == nil || !strings.Contains(err.Error(), "no address") {
			c.Violate("listen-error", "ListenAndServe with a binding that cannot listen returned %v", err)
		}
		c.Do("Shutdown", func() { w.srv.Shutdown() })
		w.judge("a binding could not listen")
		w.after("a binding could not listen")
		c.Eval(fmt.Sprint("partial ", n, bad))
	}
}
