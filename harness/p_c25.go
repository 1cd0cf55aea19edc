package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C25", MinEv: 4000,
		Rule: "one evaluation per request whose log of middleware and handler entries was compared with the registrations, per registration that had to succeed or panic, per command split and combined, and per connection that had to close or live on; distinct = (job, direction, flags, chain length, where it aborts and how, opaque byte, nesting)",
		Jobs: []JobSpec{
			{Name: "dispatch", Quick: 8, Deep: 60, Fn: c25dispatch},
			{Name: "registrations", Quick: 4, Deep: 30, Fn: c25registrations},
			{Name: "live", Quick: 4, Deep: 30, Fn: c25live},
			{Name: "unregistered", Quick: 6, Deep: 40, Fn: c25unregistered},
		}})
}

// what a middleware does is a function of the tag of the request and its position
const (
	mwPass = iota
	mwAnswer
	mwSilent
	mwPanic
)

type mwEntry struct {
	pos   int // position in the chain; -1 is the handler
	route int // which registration
	cmd   qrpc.Cmd
	bad   string
}

type mwWorld struct {
	mu  sync.Mutex
	log map[uint64][]mwEntry
}

func (w *mwWorld) add(tag uint64, e mwEntry) {
	w.mu.Lock()
	w.log[tag] = append(w.log[tag], e)
	w.mu.Unlock()
}

func (w *mwWorld) get(tag uint64) []mwEntry {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]mwEntry(nil), w.log[tag]...)
}

// abortOf tells where the chain of n middlewares aborts for tag, -1 for nowhere, and how.
func abortOf(tag uint64, n int) (int, int) {
	h := mix(tag, 77)
	if n == 0 || h%3 == 0 {
		return -1, mwPass
	}
	return int((h >> 8) % uint64(n)), 1 + int((h>>24)%3)
}

type mwStash struct {
	tag  uint64
	next int
}

func (w *mwWorld) middleware(route, pos, n int) qrpc.MiddlewareFunc {
	return func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) bool {
		tag := tagOf(q.Payload)
		e := mwEntry{pos: pos, route: route, cmd: q.Cmd}
		if pos == 0 {
			if q.GetStash() != nil {
				e.bad = fmt.Sprintf("the stash of a fresh request is %v", q.GetStash())
			}
			q.SetStash(&mwStash{tag, 1})
		} else if s, ok := q.GetStash().(*mwStash); !ok || s.tag != tag || s.next != pos {
			e.bad = fmt.Sprintf("stash at position %d is %v", pos, q.GetStash())
		} else {
			q.SetStash(&mwStash{tag, pos + 1})
		}
		w.add(tag, e)
		if at, how := abortOf(tag, n); at == pos {
			switch how {
			case mwAnswer:
				fw.StartWrite(q.RequestID, q.Cmd^0xffffff, endFlag(true))
				fw.WriteBytes(gen(mix(tag, 9), 30))
				fw.EndWrite()
			case mwPanic:
				panic("middleware")
			}
			return false
		}
		return true
	}
}

func (w *mwWorld) handler(route, n int) qrpc.HandlerFunc {
	return func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
		tag := tagOf(q.Payload)
		e := mwEntry{pos: -1, route: route, cmd: q.Cmd}
		if n > 0 {
			if s, ok := q.GetStash().(*mwStash); !ok || s.tag != tag || s.next != n {
				e.bad = fmt.Sprintf("stash at the handler is %v", q.GetStash())
			}
		} else if q.GetStash() != nil {
			e.bad = fmt.Sprintf("stash without middleware is %v", q.GetStash())
		}
		w.add(tag, e)
		fw.StartWrite(q.RequestID, q.Cmd^0x5a5a5a, endFlag(true))
		fw.WriteBytes(gen(mix(tag, uint64(route)), 40))
		fw.EndWrite()
	}
}

func c25dispatch(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	w := &mwWorld{log: map[uint64][]mwEntry{}}
	type route struct {
		cmd qrpc.Cmd
		n   int
	}
	var routes []route
	mux := qrpc.NewServeMux()
	inner := qrpc.NewServeMux() // registered within mux, for half of the commands
	used := map[uint32]bool{}
	special := []uint32{0, 1, 0xff, 0x100, 0xffff, 0xff00, 0x7fff, 0x8000}
	nested := map[qrpc.Cmd]bool{}
	for i := 0; i < 60; i++ {
		low := uint32(r.Intn(1 << 16))
		if i < len(special) {
			low = special[i]
		}
		if i > 20 && r.P(1, 2) { // neighbours of others
			low = uint32(routes[r.Intn(len(routes))].cmd.Routing()) ^ 1<<uint(r.Intn(16))
		}
		if used[low] {
			continue
		}
		used[low] = true
		k := len(routes)
		n := r.Pick(0, 0, 1, 2, 3, 5)
		cmd := qrpc.Cmd(low | uint32(r.Pick(0, 1, 0x80, 0xff))<<16) // the opaque byte does not matter
		var mws []qrpc.MiddlewareFunc
		for j := 0; j < n; j++ {
			mws = append(mws, w.middleware(k, j, n))
		}
		h := w.handler(k, n)
		switch r.Intn(4) {
		case 0:
			mux.HandleFunc(cmd, h, mws...)
		case 1:
			mux.Handle(cmd, h, mws...)
		case 2: // wrapped by hand
			mux.Handle(cmd, qrpc.HandlerWithMW(h, mws...))
		case 3:
			split := 0
			if n > 0 {
				split = r.Intn(n + 1)
			}
			inner.Handle(cmd, h, mws[split:]...)
			mux.Handle(cmd, inner, mws[:split]...)
			nested[cmd.Routing()] = true
		}
		routes = append(routes, route{cmd.Routing(), n})
	}
	p := newPair(c, pairOpt{rev: rev}, mux)
	rngs := make([]*Rng, 5)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	done := parallel(len(rngs), func(g int) {
		rr := rngs[g]
		for k := 0; k < 120 && !c.Violated(); k++ {
			i := rr.Intn(len(routes))
			rt := routes[i]
			tag := rr.Uint64()
			opaque := uint8(rr.Pick(0, 1, 0x7f, 0x80, 0xff, rr.Intn(256)))
			cmd := qrpc.CmdWithOpaque(rt.cmd, opaque)
			if uint32(cmd) != uint32(rt.cmd)|uint32(opaque)<<16 || cmd.Opaque() != opaque || cmd.Routing() != rt.cmd {
				c.Violate("cmd", "command %#x with opaque byte %#x is %#x", rt.cmd, opaque, cmd)
			}
			var resp qrpc.Response
			var f *qrpc.Frame
			var err error
			flags := qrpc.FrameFlag(rr.Pick(0, int(qrpc.NBFlag), int(qrpc.StreamFlag)))
			fin := make(chan struct{})
			go func() {
				defer close(fin)
				if flags == qrpc.StreamFlag {
					_, resp, err = p.open.StreamRequest(cmd, qrpc.StreamEndFlag, gen(tag, 8+rr.Intn(50)))
				} else {
					_, resp, err = p.open.Request(cmd, flags, gen(tag, 8+rr.Intn(50)))
				}
				if err == nil {
					f, err = resp.GetFrame()
				}
			}()
			c.Must("dispatch of a registered command", fin)
			at, how := abortOf(tag, rt.n)
			key := fmt.Sprint(rev, " ", flags, " ", rt.n, " ", at, " ", how, " ", nested[rt.cmd])
			// the log of this request; an answered request has all of it
			if at >= 0 && how != mwAnswer {
				if err == nil && !f.Flags.IsRst() {
					c.Violate("answered", "%s: command %#x was aborted without answer by middleware %d and got %v", key, cmd, at, f)
				}
			} else if err != nil {
				c.Violate("unanswered", "%s: command %#x: %v", key, cmd, err)
				continue
			} else if at >= 0 {
				if f.Cmd != cmd^0xffffff || !same(f.Payload, gen(mix(tag, 9), 30)) {
					c.Violate("wrong-answer", "%s: the middleware's answer to %#x arrived as cmd %#x %s", key, cmd, f.Cmd, brief(f.Payload))
				}
			} else if f.Cmd != cmd^0x5a5a5a || !same(f.Payload, gen(mix(tag, uint64(i)), 40)) {
				c.Violate("wrong-answer", "%s: the answer of the handler of %#x arrived as cmd %#x %s", key, cmd, f.Cmd, brief(f.Payload))
			}
			var want []int
			for j := 0; j < rt.n && (at < 0 || j <= at); j++ {
				want = append(want, j)
			}
			if at < 0 {
				want = append(want, -1)
			}
			got := w.get(tag)
			ok := len(got) == len(want)
			for j := range got {
				ok = ok && j < len(want) && got[j].pos == want[j] && got[j].route == i && got[j].cmd == cmd
				if got[j].bad != "" {
					c.Violate("stash", "%s: command %#x: %s", key, cmd, got[j].bad)
				}
			}
			if !ok {
				c.Violate("chain", "%s: command %#x (route %d, %d middlewares, aborts at %d): entered %+v, want positions %v", key, cmd, i, rt.n, at, got, want)
			}
			c.Eval(key + fmt.Sprint(opaque == 0))
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("dispatching")
	}
	// nothing ran later
	w.mu.Lock()
	n := len(w.log)
	w.mu.Unlock()
	c.Count("requests_dispatched", int64(n))
	p.stop()
}

func mustPanic(f func()) (what interface{}) {
	defer func() { what = recover() }()
	f()
	return nil
}

func c25registrations(c *C) {
	r := c.Rng
	// every command splits into what it was made of
	for i := 0; i < 3000; i++ {
		v := uint32(r.Intn(1 << 24))
		cmd := qrpc.Cmd(v)
		if uint32(cmd.Routing()) != v&0xffff || uint32(cmd.Opaque()) != v>>16 || qrpc.CmdWithOpaque(cmd, uint8(i)) != qrpc.Cmd(v&0xffff|uint32(uint8(i))<<16) {
			c.Violate("cmd", "%#x: routing %#x opaque %#x", v, cmd.Routing(), cmd.Opaque())
		}
		c.Eval("")
	}
	for round := 0; round < 12 && !c.Violated(); round++ {
		mux := qrpc.NewServeMux()
		hits := map[qrpc.Cmd]int{} // by the command of the registration that served
		reg := func(cmd qrpc.Cmd) interface{} {
			return mustPanic(func() {
				h := qrpc.HandlerFunc(func(qrpc.FrameWriter, *qrpc.RequestFrame) { hits[cmd]++ })
				if r.P(1, 2) {
					mux.Handle(cmd, h)
				} else {
					mux.HandleFunc(cmd, h)
				}
			})
		}
		owner := map[qrpc.Cmd]qrpc.Cmd{}
		for i := 0; i < 200; i++ {
			cmd := qrpc.Cmd(r.Intn(1 << 24))
			if r.P(1, 2) {
				cmd = qrpc.CmdWithOpaque(qrpc.Cmd(r.Intn(40)), uint8(r.Intn(256)))
			}
			switch r.Intn(8) {
			case 0:
				cmd = qrpc.Cmd(r.Pick(0x1000000, 0x1000001, 0x7fffffff, 0xffffffff, 0x1000000+int(cmd)))
			case 1:
				cmd = qrpc.Cmd(r.Pick(0, 0xffffff, 0xffff, 0x10000))
			}
			_, dup := owner[cmd.Routing()]
			want := cmd > qrpc.MaxCmd || dup
			var got interface{}
			what := "fresh"
			c.Do("registering a command", func() {
				if r.P(1, 10) {
					what, want = "nil", true
					got = mustPanic(func() { mux.Handle(cmd, nil) })
				} else {
					got = reg(cmd)
				}
			})
			if want && what != "nil" {
				what = "too big"
				if dup && cmd <= qrpc.MaxCmd {
					what = "duplicate"
				}
			}
			if (got != nil) != want {
				c.Violate("registration", "registering %#x (%s): panicked=%v (%v)", cmd, what, got != nil, got)
				return
			}
			if !want {
				owner[cmd.Routing()] = cmd
			}
			c.Eval("register " + what)
		}
		// what was refused did not replace anything
		for rt, o := range owner {
			before := hits[o]
			total := 0
			for _, n := range hits {
				total += n
			}
			q := &qrpc.RequestFrame{RequestID: 1, Cmd: qrpc.CmdWithOpaque(rt, uint8(r.Intn(256)))}
			c.Do("dispatching a command", func() { mux.ServeQRPC(nil, q) })
			after := 0
			for _, n := range hits {
				after += n
			}
			if hits[o] != before+1 || after != total+1 {
				c.Violate("replaced", "command %#x, registered as %#x, went to another handler", q.Cmd, o)
			}
			c.Eval("kept")
		}
	}
	// of many concurrent registrations of one command exactly one succeeds, and it serves
	for round := 0; round < 60 && !c.Violated(); round++ {
		mux := qrpc.NewServeMux()
		const N = 6
		var won [N]int32
		served := make([]int32, N)
		done := parallel(N, func(i int) {
			cmd := qrpc.CmdWithOpaque(5, uint8(i))
			if mustPanic(func() {
				mux.HandleFunc(cmd, func(qrpc.FrameWriter, *qrpc.RequestFrame) { atomic.AddInt32(&served[i], 1) })
			}) == nil {
				won[i] = 1
			}
			mux.HandleFunc(qrpc.Cmd(100+i), func(qrpc.FrameWriter, *qrpc.RequestFrame) { atomic.AddInt32(&served[i], 100) })
		})
		c.Must("concurrent registrations", done)
		mux.ServeQRPC(nil, &qrpc.RequestFrame{RequestID: 1, Cmd: 0x50005})
		for i := 0; i < N; i++ {
			mux.ServeQRPC(nil, &qrpc.RequestFrame{RequestID: 1, Cmd: qrpc.Cmd(100 + i)})
		}
		n := 0
		for i := range won {
			n += int(won[i])
			if served[i] != 100+won[i] {
				c.Violate("concurrent", "registration %d succeeded=%v, its handlers ran %d", i, won[i] == 1, served[i])
			}
		}
		if n != 1 {
			c.Violate("concurrent", "%d of %d concurrent registrations of one command succeeded", n, N)
		}
		c.Eval("concurrent registrations")
	}
}

// c25live: handlers are registered while requests are served.
func c25live(c *C) {
	rev := c.K%2 == 1
	mux := qrpc.NewServeMux()
	mux.Handle(0x77, echoHandler)
	var registered int64 // commands 1000..1000+registered-1
	p := newPair(c, pairOpt{rev: rev}, mux)
	const N = 400
	done := parallel(4, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		if g == 0 {
			for i := 0; i < N; i++ {
				mux.HandleFunc(qrpc.Cmd(1000+i), func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
					w.StartWrite(q.RequestID, qrpc.Cmd(i), 0)
					w.WriteBytes(q.Payload)
					w.EndWrite()
				}, func(qrpc.FrameWriter, *qrpc.RequestFrame) bool { return true })
				atomic.AddInt64(&registered, 1)
				if i%5 == 0 {
					time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
				}
			}
			return
		}
		for k := 0; k < 200 && !c.Violated(); k++ {
			n := int(atomic.LoadInt64(&registered))
			if n == 0 {
				p.echo("unanswered", "while registering", 0x77, qrpc.NBFlag, gen(rr.Uint64(), 10))
				continue
			}
			i := rr.Intn(n)
			if rr.P(1, 2) {
				i = n - 1
			}
			pl := gen(rr.Uint64(), 20)
			f, err := p.call(uint32(1000+i)|0xab0000, qrpc.FrameFlag(rr.Pick(0, int(qrpc.NBFlag))), pl)
			if err != nil || int(f.Cmd) != i || !same(f.Payload, pl) {
				c.Violate("live", "command %d, registered a moment ago: %v %v", 1000+i, f, err)
			}
			c.Eval(fmt.Sprint("live ", rev, n/50))
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("dispatching while registering")
	}
	p.stop()
}

// c25unregistered: only the connection a request without handler came over is closed.
func c25unregistered(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	mux := qrpc.NewServeMux()
	var held int64
	hold := make(chan struct{})
	mux.Handle(0x77, echoHandler)
	mux.HandleFunc(0x88, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt64(&held, 1)
		defer atomic.AddInt64(&held, -1)
		select {
		case <-q.Context().Done():
		case <-hold:
		}
	})
	binding := qrpc.ServerBinding{Handler: mux}
	if rev {
		binding.Handler = echoHandler
	}
	srv := startServer(c, "tcp", nil, binding, binding)
	type cl struct {
		conn *qrpc.Connection
		ci   *qrpc.ConnectionInfo
		open initiator
	}
	seen := map[*qrpc.ConnectionInfo]bool{}
	mk := func(b int) *cl {
		x := &cl{}
		conf := qrpc.ConnectionConfig{}
		if rev {
			conf.Handler = mux
		}
		x.conn = srv.dialTo(b, conf, nil)
		x.open = x.conn
		c.MustUntil("registration", func() bool {
			srv.S.WalkConn(b, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				if !seen[ci] {
					seen[ci] = true
					x.ci = ci
					return false
				}
				return true
			})
			return x.ci != nil
		})
		if rev {
			x.open = x.ci
		}
		return x
	}
	try := func(x *cl, sig, why string) {
		pl := gen(r.Uint64(), 30)
		var f *qrpc.Frame
		var err error
		c.Do("request on another connection", func() {
			var resp qrpc.Response
			_, resp, err = x.open.Request(0x77, qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag))), pl)
			if err == nil {
				f, err = resp.GetFrame()
			}
		})
		if err != nil {
			c.Violate(sig, "%s: %v", why, err)
			return
		}
		if rc, rp := respFor(0x77, pl); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate(sig, "%s: wrong answer", why)
		}
	}
	others := []*cl{mk(0), mk(0), mk(1)}
	// one of the others has a request open throughout
	var heldResp qrpc.Response
	var err error
	c.Do("a held request", func() { _, heldResp, err = others[0].open.Request(0x88, qrpc.NBFlag, []byte("held request")) })
	if err != nil {
		c.Violate("write", "%v", err)
		return
	}
	c.MustUntil("held request", func() bool { return atomic.LoadInt64(&held) == 1 })
	for round := 0; round < 14 && !c.Violated(); round++ {
		x := mk(r.Intn(2))
		try(x, "unanswered", "registered command")
		cmd := qrpc.Cmd(r.Pick(0x78, 0x76, 0x7700, 0, 0x770078, 0xffffff, 0x880089, 0x7777))
		flags := qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag), int(qrpc.StreamFlag)))
		var resp qrpc.Response
		pending := r.P(1, 2)
		var pendResp qrpc.Response
		c.Do("requests before the one without handler", func() {
			if pending {
				_, pendResp, err = x.open.Request(0x88, qrpc.NBFlag, []byte("pending"))
			}
			if flags == qrpc.StreamFlag {
				_, resp, err = x.open.StreamRequest(cmd, qrpc.FrameFlag(r.Pick(0, int(qrpc.StreamEndFlag))), []byte("unregistered"))
			} else {
				_, resp, err = x.open.Request(cmd, flags, []byte("unregistered"))
			}
		})
		if err == nil {
			if f, e := c.getFrame("end of a request without handler", resp); e == nil && !f.Flags.IsRst() {
				c.Violate("answered", "command %#x is not registered and was answered: %v", cmd, f)
			}
		}
		if pendResp != nil {
			if f, e := c.getFrame("end of a request beside one without handler", pendResp); e == nil && !f.Flags.IsRst() {
				c.Violate("answered", "a pending request was answered: %v", f)
			}
		}
		c.MustUntil("end of a connection with a request without handler", func() bool { return x.conn.IsClosed() && (x.ci == nil || x.ci.IsClosed()) })
		for _, o := range others {
			try(o, "others", fmt.Sprintf("after command %#x (flags %#x) on another connection", cmd, flags))
		}
		if atomic.LoadInt64(&held) != 1 {
			c.MustUntil("handlers of an ended connection", func() bool { return atomic.LoadInt64(&held) == 1 })
		}
		closeConn(c, x.conn)
		c.Eval(fmt.Sprint("unregistered ", rev, flags, cmd == 0, pending))
	}
	for _, o := range others {
		if o.conn.IsClosed() {
			c.Violate("others", "another connection was closed")
		}
	}
	close(hold)
	if f, e := c.getFrame("end of the held request", heldResp); e == nil && !f.Flags.IsRst() {
		c.Violate("answered", "the held request was answered: %v", f)
	}
	try(others[0], "others", "at the end")
	for _, o := range others {
		closeConn(c, o.conn)
	}
	srv.Stop()
}
