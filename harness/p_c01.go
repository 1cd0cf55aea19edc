package main

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C01", MinEv: 2000,
		Rule: "one evaluation per request answered: id parity and uniqueness, response id, command and payload bytes against the answer computed from the request; distinct = (transport policy, flags, client/server channel sizes, payload size bucket, answer kind)",
		Jobs: []JobSpec{
			{Name: "mix", Quick: 10, Deep: 80, Fn: c01mix},
			{Name: "many", Quick: 2, Deep: 8, Fn: c01many},
			{Name: "serverids", Quick: 2, Deep: 12, Fn: c01server},
		}})
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 1008:
		return "<1008"
	case n <= 1024:
		return "1008-1024"
	case n <= 4096:
		return "<=4096"
	case n <= 65536:
		return "<=64K"
	}
	return ">64K"
}

type idSet struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

func newIDSet() *idSet { return &idSet{m: map[uint64]struct{}{}} }

func (s *idSet) add(id uint64) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[id]; ok {
		return false
	}
	s.m[id] = struct{}{}
	return true
}

func chunkPolicy(r *Rng) (string, func(nc net.Conn) net.Conn) {
	switch r.Intn(4) {
	case 0:
		return "plain", nil
	case 1:
		return "chunk", func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), WChunk: 700, RChunk: 600, YieldP: 64})
		}
	case 2:
		return "timeouts", func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), WChunk: 3000, WTimeoutP: 5, RChunk: 2000, YieldP: 64})
		}
	}
	return "yield", func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{Rng: r.Fork(), YieldP: 8}) }
}

// c01mix: several connections, many callers each, every kind of request.
func c01mix(c *C) {
	r := c.Rng
	pol, wrap := chunkPolicy(r)
	var swrap func(int, net.Conn) net.Conn
	if wrap != nil && r.P(1, 2) {
		swrap = func(_ int, nc net.Conn) net.Conn { return wrap(nc) }
	}
	scs, ccs, rcs := r.Pick(0, 1, 2, 16, 1000), r.Pick(0, 1, 2, 16, 1000), r.Pick(0, 0, 1, 8)
	hr := r.Fork()
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		rc, rp := respFor(uint32(q.Cmd), q.Payload)
		if q.Flags.IsNonBlock() {
			switch v := hr.Intn(32); {
			case v < 4:
				time.Sleep(time.Duration(hr.Range(10, 3000)) * time.Microsecond)
			case v < 10:
				runtime.Gosched()
			}
		}
		if q.Cmd.Opaque()&1 == 1 { // a streamed answer: the caller gets the first frame
			w.StartWrite(q.RequestID, qrpc.Cmd(rc), qrpc.StreamFlag)
			w.WriteBytes(rp)
			if w.EndWrite() != nil {
				return
			}
			for i := 0; i < 2; i++ {
				w.StartWrite(q.RequestID, qrpc.Cmd(rc+1)&0xffffff, qrpc.StreamFlag)
				w.WriteBytes([]byte("rest"))
				w.EndWrite()
			}
			w.StartWrite(q.RequestID, 1, qrpc.StreamEndFlag)
			w.EndWrite()
			return
		}
		w.StartWrite(q.RequestID, qrpc.Cmd(rc), 0)
		w.WriteBytes(rp)
		w.EndWrite()
	})
	s := startServer(c, "tcp", swrap, qrpc.ServerBinding{Handler: h, WriteFrameChSize: scs, ReadFrameChSize: rcs})
	nconn := r.Range(1, 3)
	type unit struct {
		conn *qrpc.Connection
		ids  *idSet
	}
	var units []unit
	for i := 0; i < nconn; i++ {
		conf := qrpc.ConnectionConfig{WriteFrameChSize: ccs}
		if wrap != nil {
			conf.OverlayNetwork = overlayWith(wrap)
		}
		units = append(units, unit{s.dial(conf, nil), newIDSet()})
	}
	callers := r.Range(4, 24)
	per := 40
	rngs := make([]*Rng, nconn*callers)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	done := parallel(nconn*callers, func(i int) {
		u, r := units[i%nconn], rngs[i]
		type pend struct {
			id    uint64
			cmd   uint32
			p     []byte
			flags qrpc.FrameFlag
			resp  qrpc.Response
		}
		var ps []pend
		var streams sync.WaitGroup
		take := func(q pend) {
			if r.P(1, 10) { // give up waiting once, the answer must still come
				ctx, cancel := ctxT(time.Duration(r.Intn(300)) * time.Microsecond)
				f, err := q.resp.GetFrameWithContext(ctx)
				cancel()
				if err == nil {
					c01check(c, pol, scs, ccs, q.id, q.cmd, q.flags, q.p, f)
					c01rest(c, q.id, f)
					return
				}
				c.Count("waits_given_up", 1)
			}
			f, err := c.getFrame(fmt.Sprintf("response of an answered request (flags %#x)", q.flags), q.resp)
			if err != nil {
				c.Violate("no-answer", "request id=%d cmd=%#x flags=%#x %s: %v on a healthy connection", q.id, q.cmd, q.flags, brief(q.p), err)
				return
			}
			c01check(c, pol, scs, ccs, q.id, q.cmd, q.flags, q.p, f)
			c01rest(c, q.id, f)
		}
		flush := func() {
			for _, k := range r.Perm(len(ps)) {
				take(ps[k])
			}
			ps = ps[:0]
		}
		for k := 0; k < per && !c.Violated(); k++ {
			flags := qrpc.FrameFlag(0)
			if r.P(3, 4) {
				flags = qrpc.NBFlag
			}
			cmd := uint32(r.Intn(1 << 24))
			if r.P(2, 3) {
				cmd &^= 1 << 16
			}
			p := gen(r.Uint64(), pickSize(r, true))
			id, resp, err := u.conn.Request(qrpc.Cmd(cmd), flags, p)
			if err != nil {
				c.Violate("request-error", "Request on a healthy connection: %v", err)
				return
			}
			if id%2 != 1 {
				c.Violate("id-parity", "client issued the even id %d", id)
			}
			if !u.ids.add(id) {
				c.Violate("id-reused", "id %d was issued twice on one connection", id)
			}
			q := pend{id, cmd, p, flags, resp}
			if cmd&(1<<16) != 0 {
				// a streamed answer that nobody reads holds up its connection: take it right away
				streams.Add(1)
				go func() { defer streams.Done(); take(q) }()
				if r.P(1, 2) {
					streams.Wait()
				}
				continue
			}
			ps = append(ps, q)
			if len(ps) > 8 || r.P(1, 3) {
				flush()
			}
		}
		flush()
		streams.Wait()
	})
	if !c.waitAtLeast(done, 70*time.Second, 4000) {
		c.StallAbort("callers of healthy connections")
	}
	for _, u := range units {
		closeConn(c, u.conn)
	}
	s.Stop()
}

// c01rest reads the rest of a streamed answer.
func c01rest(c *C, id uint64, f *qrpc.Frame) {
	if !f.Flags.IsStream() {
		return
	}
	n := 0
	for c.nextFrame("stream end of a streamed answer", f.FrameCh()) != nil {
		n++
	}
	if n != 3 {
		c.Violate("stream-rest", "streamed answer of id=%d had %d frames after the first, want 3", id, n)
	}
}

func c01check(c *C, pol string, scs, ccs int, id uint64, cmd uint32, flags qrpc.FrameFlag, p []byte, f *qrpc.Frame) {
	rc, rp := respFor(cmd, p)
	kind := "plain"
	if cmd&(1<<16) != 0 {
		kind = "stream"
	}
	c.Eval(fmt.Sprint(pol, flags, scs, ccs, bucket(len(p)), kind))
	if f.RequestID != id {
		c.Violate("wrong-id", "request %d got a frame with id %d", id, f.RequestID)
	}
	if uint32(f.Cmd) != rc {
		c.Violate("wrong-cmd", "request %d (cmd %#x, %s) got cmd %#x, want %#x", id, cmd, brief(p), f.Cmd, rc)
	}
	if !same(f.Payload, rp) {
		c.Violate("wrong-payload", "request %d (cmd %#x, %s) got %s, want %s", id, cmd, brief(p), brief(f.Payload), brief(rp))
	}
	c.Sample("request id=%d cmd=%#x flags=%#x payload %s answered cmd=%#x %s", id, cmd, flags, brief(p), f.Cmd, brief(f.Payload))
}

// c01many: enough requests on one connection to get past 16 bit (and 17 bit) id arithmetic, while a few old
// requests stay pending all the time.
func c01many(c *C) {
	total := int64(140000)
	if c.Tier == "thorough" {
		total = 600000
	}
	gate := make(chan struct{})
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0xBEEF {
			<-gate
		}
		w.StartWrite(q.RequestID, q.Cmd, 0)
		w.WriteBytes(q.Payload)
		w.EndWrite()
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, WriteFrameChSize: 1000, ReadFrameChSize: c.Rng.Pick(0, 64)})
	conn := s.dial(qrpc.ConnectionConfig{WriteFrameChSize: 1000}, nil)
	ids := newIDSet()
	type old struct {
		id   uint64
		p    []byte
		resp qrpc.Response
	}
	var olds []old
	for i := 0; i < 50; i++ {
		p := gen(c.Rng.Uint64(), 24)
		id, resp, err := conn.Request(0xBEEF, qrpc.NBFlag, p)
		if err != nil {
			c.Violate("request-error", "Request: %v", err)
			return
		}
		ids.add(id)
		olds = append(olds, old{id, p, resp})
	}
	var n int64
	rngs := make([]*Rng, 64)
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	done := parallel(64, func(i int) {
		r := rngs[i]
		for atomic.AddInt64(&n, 1) <= total && !c.Violated() {
			p := gen(r.Uint64(), r.Pick(8, 12, 20))
			id, resp, err := conn.Request(7, qrpc.NBFlag, p)
			if err != nil {
				c.Violate("request-error", "Request on a healthy connection: %v", err)
				return
			}
			if id%2 != 1 || !ids.add(id) {
				c.Violate("id-reused", "id %d is even or was issued twice on one connection (about request %d)", id, atomic.LoadInt64(&n))
				return
			}
			f, err := resp.GetFrame()
			if err != nil || f.RequestID != id || !same(f.Payload, p) {
				c.Violate("wrong-payload", "request %d got %v err=%v, want %s", id, f, err, brief(p))
				return
			}
			c.Eval("")
		}
	})
	if !c.waitAtLeast(done, 80*time.Second, 4000) {
		c.StallAbort("echo requests on a healthy connection")
	}
	close(gate)
	for _, o := range olds {
		f, err := c.getFrame("response of an old request", o.resp)
		if err != nil || f.RequestID != o.id || !same(f.Payload, o.p) {
			c.Violate("old-request", "old request %d got %v err=%v", o.id, f, err)
		}
		c.Eval("old pending across id growth")
	}
	c.Eval(fmt.Sprint("ids past ", total))
	c.Count("ids_issued", total)
	closeConn(c, conn)
	s.Stop()
}

// c01server: ids issued by the server are even and unique, also next to client traffic.
func c01server(c *C) {
	got := make(chan *qrpc.ConnectionInfo, 1)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0xCAFE {
			got <- q.ConnectionInfo()
		}
		answer(w, q)
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, WriteFrameChSize: c.Rng.Pick(1, 4, 1000)})
	conn := s.dial(qrpc.ConnectionConfig{WriteFrameChSize: c.Rng.Pick(0, 4, 1000), Handler: echoHandler}, nil)
	if _, _, err := c.call(conn, 0xCAFE, qrpc.NBFlag, nil); err != nil {
		c.Violate("request-error", "%v", err)
		return
	}
	ci := <-got
	sids, cids := newIDSet(), newIDSet()
	rngs := make([]*Rng, 24)
	for i := range rngs {
		rngs[i] = c.Rng.Fork()
	}
	done := parallel(24, func(i int) {
		r := rngs[i]
		for k := 0; k < 400 && !c.Violated(); k++ {
			p := gen(r.Uint64(), pickSize(r, false))
			cmd := uint32(r.Intn(1 << 24))
			if cmd == 0xCAFE {
				cmd++
			}
			var id uint64
			var resp qrpc.Response
			var err error
			who := "server"
			if i%2 == 0 {
				id, resp, err = ci.Request(qrpc.Cmd(cmd), qrpc.NBFlag, p)
				if err == nil && (id%2 != 0 || !sids.add(id)) {
					c.Violate("server-id", "server issued id %d: odd or repeated", id)
				}
			} else {
				who = "client"
				id, resp, err = conn.Request(qrpc.Cmd(cmd), qrpc.NBFlag, p)
				if err == nil && (id%2 != 1 || !cids.add(id)) {
					c.Violate("id-reused", "client issued id %d: even or repeated", id)
				}
			}
			if err != nil {
				c.Violate("request-error", "%s Request: %v", who, err)
				return
			}
			f, err := c.getFrame(who+" response", resp)
			if err != nil {
				c.Violate("no-answer", "%s request %d: %v", who, id, err)
				return
			}
			c01check(c, who, 0, 0, id, cmd, qrpc.NBFlag, p, f)
		}
	})
	if !c.waitAtLeast(done, 70*time.Second, 4000) {
		c.StallAbort("bidirectional callers")
	}
	closeConn(c, conn)
	s.Stop()
}
