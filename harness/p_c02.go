package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C02", MinEv: 500,
		Rule: "one evaluation per handler run (no overlap with a running blocking handler of its connection, start order = sending order) and per response (wire order = sending order); distinct = (sender, channel sizes, what precedes and what follows on the connection)",
		Jobs: []JobSpec{
			{Name: "pipeline", Quick: 10, Deep: 80, Fn: c02pipeline},
			{Name: "gate", Quick: 4, Deep: 30, Fn: c02gate},
		}})
}

type c02rec struct {
	mu      sync.Mutex
	running int32  // blocking handlers running on the connection
	cur     uint64 // id of the running one
	starts  []uint64
	kinds   []bool
}

// c02pipeline: a raw peer (so that the sending order is known) or a library client pipelines blocking requests,
// with nonblocking ones and panics among them.
func c02pipeline(c *C) {
	r := c.Rng
	rcs, scs := r.Pick(0, 0, 1, 4, 64), r.Pick(1, 2, 16, 1000)
	nconn := r.Range(1, 4)
	var recs sync.Map // remote addr -> *c02rec
	hr := r.Fork()
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		v, _ := recs.LoadOrStore(q.ConnectionInfo().RemoteAddr(), &c02rec{})
		rec := v.(*c02rec)
		blocking := !q.Flags.IsNonBlock()
		rec.mu.Lock()
		// ids are in sending order; a nonblocking request dispatched before a blocking one may well start later
		if n := rec.running; n != 0 && (blocking || q.RequestID > rec.cur) {
			c.Violate("overlap", "request id=%d (blocking=%v) was dispatched while the handler of the blocking request %d of its connection was running", q.RequestID, blocking, rec.cur)
		}
		if blocking {
			rec.running++
			rec.cur = q.RequestID
		}
		rec.starts = append(rec.starts, q.RequestID)
		rec.kinds = append(rec.kinds, blocking)
		rec.mu.Unlock()
		if blocking {
			defer func() { rec.mu.Lock(); rec.running--; rec.mu.Unlock() }()
			switch v := hr.Intn(16); {
			case v < 4:
				time.Sleep(time.Duration(hr.Range(10, 1500)) * time.Microsecond)
			case v == 4:
				if q.Cmd == 9 {
					panic("handler panic")
				}
			}
		} else if hr.P(1, 4) {
			time.Sleep(time.Duration(hr.Range(10, 2000)) * time.Microsecond)
		}
		answer(w, q)
		if blocking && hr.P(1, 4) { // still running after the answer
			time.Sleep(time.Duration(hr.Range(10, 800)) * time.Microsecond)
		}
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, ReadFrameChSize: rcs, WriteFrameChSize: scs})
	n := 250
	rngs := make([]*Rng, nconn)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	done := parallel(nconn, func(ci int) {
		r := rngs[ci]
		p := dialRaw(c, s.Addrs[0])
		local := p.nc.LocalAddr().String()
		var sent []WFrame
		for k := 0; k < n; k++ {
			f := WFrame{ID: uint64(2*k + 3), Cmd: uint32(r.Pick(8, 9)), Payload: gen(r.Uint64(), r.Pick(0, 1, 30, 1008, 2000))}
			if r.P(1, 5) {
				f.Flags = fNB
			}
			sent = append(sent, f)
		}
		for i := 0; i < n; {
			k := r.Range(1, 40)
			if i+k > n {
				k = n - i
			}
			if err := p.Send(sent[i : i+k]...); err != nil {
				c.Violate("conn-lost", "connection of blocking requests lost: %v", err)
				return
			}
			i += k
			if r.P(1, 3) {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
		}
		c.MustUntil("responses of pipelined blocking requests", func() bool { return p.N() >= n || p.Closed() || c.Violated() })
		if c.Violated() {
			return
		}
		got := p.Frames()
		pos := map[uint64]int{}
		for i, f := range got {
			if _, dup := pos[f.ID]; dup {
				c.Violate("dup", "two frames for request %d", f.ID)
			}
			pos[f.ID] = i
		}
		last := -1
		for _, f := range sent {
			i, ok := pos[f.ID]
			if !ok {
				c.Violate("missing", "request %d has no response", f.ID)
				continue
			}
			if f.Flags&fNB == 0 {
				if i < last {
					c.Violate("resp-order", "the response of blocking request %d left before that of an earlier one", f.ID)
				}
				last = i
			}
			g := got[i]
			if g.Flags&fRst == 0 {
				rc, rp := respFor(f.Cmd, f.Payload)
				if g.Cmd != rc || !same(g.Payload, rp) {
					c.Violate("wrong-answer", "request %v got %v", f, g)
				}
			} else if f.Cmd != 9 {
				c.Violate("rst", "request %v was reset", f)
			}
		}
		v, ok := recs.Load(local)
		if !ok {
			c.Violate("missing", "no handler ran for %s", local)
			return
		}
		rec := v.(*c02rec)
		rec.mu.Lock()
		defer rec.mu.Unlock()
		// blocking starts are in sending order, and everything before a blocking request starts before what follows it
		idx := map[uint64]int{}
		for i, id := range rec.starts {
			idx[id] = i
		}
		var lastB = -1
		for i, f := range sent {
			c.Eval(fmt.Sprint("raw", rcs, scs, f.Flags, i > 0 && sent[max0(i-1)].Flags&fNB != 0, f.Cmd))
			if f.Flags&fNB == 0 {
				if idx[f.ID] < lastB {
					c.Violate("start-order", "blocking request %d started out of order", f.ID)
				}
				lastB = idx[f.ID]
			} else if idx[f.ID] < lastB {
				c.Violate("start-order", "nonblocking request %d, sent after a blocking one, started before it", f.ID)
			}
		}
		c.Sample("raw peer: %d pipelined requests, starts %v...", n, rec.starts[:10])
		p.Close()
	})
	if !c.waitAtLeast(done, 60*time.Second, 4000) {
		c.StallAbort("pipelining peers")
	}

	// the library client: one goroutine, so the sending order is the id order
	conn := s.dial(qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 4, 1000)}, nil)
	var resps []qrpc.Response
	var ids []uint64
	var ps [][]byte
	for k := 0; k < 150; k++ {
		p := gen(r.Uint64(), pickSize(r, false))
		id, resp, err := conn.Request(8, 0, p)
		if err != nil {
			c.Violate("request-error", "%v", err)
			return
		}
		ids, resps, ps = append(ids, id), append(resps, resp), append(ps, p)
	}
	for k, resp := range resps {
		f, err := c.getFrame("response of a blocking request", resp)
		rc, rp := respFor(8, ps[k])
		if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("wrong-answer", "blocking request %d: %v", ids[k], err)
		}
		c.Eval(fmt.Sprint("lib", rcs, scs))
	}
	var order []uint64
	recs.Range(func(k, v interface{}) bool {
		rec := v.(*c02rec)
		if len(rec.starts) == 150 {
			order = rec.starts
		}
		return true
	})
	if len(order) != 150 {
		c.Violate("missing", "the handler did not run exactly once per blocking request of the library client")
	}
	for i := range order {
		if order[i] != ids[i] {
			c.Violate("start-order", "library client: blocking request %d started at position %d of request %d", order[i], i, ids[i])
			break
		}
	}
	closeConn(c, conn)
	s.Stop()
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

// c02gate: a blocking handler is held; nothing sent after it on its connection may start, while other
// connections go on; the next starts only after it returned, not just answered.
func c02gate(c *C) {
	r := c.Rng
	rcs := r.Pick(0, 0, 1, 16)
	type ev struct {
		addr string
		id   uint64
	}
	started := make(chan ev, 1000)
	var gates sync.Map
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		a := q.ConnectionInfo().RemoteAddr()
		started <- ev{a, q.RequestID}
		if q.Cmd == 2 || q.Cmd == 3 {
			if q.Cmd == 3 { // answers first, then keeps running
				answer(w, q)
			}
			g, _ := gates.LoadOrStore(fmt.Sprint(a, q.RequestID), make(chan struct{}))
			<-g.(chan struct{})
			if q.Cmd == 3 {
				return
			}
		}
		answer(w, q)
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, ReadFrameChSize: rcs, WriteFrameChSize: r.Pick(1, 16)})
	open := func(a string, id uint64) {
		g, _ := gates.LoadOrStore(fmt.Sprint(a, id), make(chan struct{}))
		close(g.(chan struct{}))
	}
	next := func(what string) ev {
		var e ev
		ok := false
		c.MustUntil(what, func() bool {
			select {
			case e = <-started:
				ok = true
			default:
			}
			return ok
		})
		return e
	}
	rounds := 12
	peers := []*RawPeer{dialRaw(c, s.Addrs[0]), dialRaw(c, s.Addrs[0]), dialRaw(c, s.Addrs[0])}
	addr := func(i int) string { return peers[i].nc.LocalAddr().String() }
	id := uint64(1)
	for k := 0; k < rounds; k++ {
		// every connection holds a blocking handler at the same time: they do not serialize each other
		holdCmd := uint32(r.Pick(2, 3))
		id += 2
		hid := id
		for i := range peers {
			peers[i].Send(WFrame{ID: hid, Cmd: holdCmd, Payload: gen(r.Uint64(), 20)})
		}
		seen := map[string]bool{}
		for range peers {
			e := next("start of blocking handlers on different connections")
			if e.id != hid || seen[e.addr] {
				c.Violate("overlap", "unexpected start of request %d on %s", e.id, e.addr)
			}
			seen[e.addr] = true
		}
		follow := byte(r.Pick(0, int(fNB), int(fStream|fEnd)))
		id += 2
		for i := range peers {
			peers[i].Send(WFrame{ID: id, Flags: follow, Cmd: 1, Payload: gen(r.Uint64(), 20)})
		}
		c.Settle(int64(r.Pick(2, 4, 12)))
		select {
		case e := <-started:
			c.Violate("overlap", "request %d (flags %#x) on %s was dispatched while the blocking handler of %d was running", e.id, follow, e.addr, hid)
			return
		default:
		}
		for _, i := range r.Perm(len(peers)) {
			open(addr(i), hid)
			e := next("start of the request after a blocking one")
			if e.addr != addr(i) || e.id != id {
				c.Violate("overlap", "request %d on %s started, want %d on %s", e.id, e.addr, id, addr(i))
				return
			}
			c.Eval(fmt.Sprint("gate", rcs, holdCmd, follow))
		}
	}
	c.Sample("%d rounds: blocking handler held on 3 connections, follower flags varied, released in random order", rounds)
	for _, p := range peers {
		p.Close()
	}
	s.Stop()
}
