package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C03", MinEv: 200,
		Rule: "one evaluation per request completed while others are stalled; distinct = (what stalls, how many, request kind, channel sizes)",
		Jobs: []JobSpec{
			{Name: "stall", Quick: 8, Deep: 60, Fn: c03stall},
			{Name: "undrained", Quick: 4, Deep: 30, Fn: c03undrained},
			{Name: "otherconn", Quick: 4, Deep: 30, Fn: c03other},
			{Name: "clientside", Quick: 3, Deep: 20, Fn: c03client},
		}})
}

// c03stall: k stalled nonblocking handlers, later requests complete, stalled ones then finish in any order.
func c03stall(c *C) {
	r := c.Rng
	k := r.Pick(1, 2, 3, 17, 64, 130, 300)
	rcs, scs, ccs := r.Pick(0, 0, 1, 8), r.Pick(1, 2, 1000), r.Pick(0, 1, 1000)
	gates := make([]chan struct{}, k)
	for i := range gates {
		gates[i] = make(chan struct{})
	}
	var stalled int32
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd.Routing() == 5 {
			i := int(q.Payload[8])<<8 | int(q.Payload[9])
			atomic.AddInt32(&stalled, 1)
			<-gates[i]
		}
		answer(w, q)
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, ReadFrameChSize: rcs, WriteFrameChSize: scs})
	conn := s.dial(qrpc.ConnectionConfig{WriteFrameChSize: ccs}, nil)
	type pend struct {
		p    []byte
		resp qrpc.Response
		ch   chan error
	}
	ps := make([]pend, k)
	for i := range ps {
		p := gen(r.Uint64(), r.Range(10, 40))
		p[8], p[9] = byte(i>>8), byte(i)
		var resp qrpc.Response
		var err error
		stream := r.P(1, 3)
		if stream {
			_, resp, err = conn.StreamRequest(5, 0, p) // its stream stays open
		} else {
			_, resp, err = conn.Request(5, qrpc.NBFlag, p)
		}
		if err != nil {
			c.Violate("request-error", "%v", err)
			return
		}
		ps[i] = pend{p: p, resp: resp, ch: make(chan error, 1)}
		go func(pp *pend) {
			f, err := pp.resp.GetFrame()
			if err == nil {
				rc, rp := respFor(5, pp.p)
				if uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					err = fmt.Errorf("wrong answer %v", f)
				}
			}
			pp.ch <- err
		}(&ps[i])
	}
	c.MustUntil("dispatch of nonblocking requests while earlier ones are stalled", func() bool { return int(atomic.LoadInt32(&stalled)) == k })
	later := func() {
		for _, kind := range []string{"nb", "stream", "nb-big"} {
			p := gen(r.Uint64(), 30)
			if kind == "nb-big" {
				p = gen(r.Uint64(), 70000)
			}
			var f *qrpc.Frame
			var err error
			if kind == "stream" {
				var resp qrpc.Response
				var sw qrpc.StreamWriter
				c.Do("stream request next to stalled handlers", func() {
					sw, resp, err = conn.StreamRequest(6, 0, p)
					if err == nil {
						sw.StartWrite(6)
						err = sw.EndWrite(true)
					}
				})
				if err == nil {
					f, err = c.getFrame("answer of a stream next to stalled handlers", resp)
				}
			} else {
				_, f, err = c.call(conn, 6, qrpc.NBFlag, p)
			}
			if err != nil {
				c.Violate("later-failed", "%s request next to %d stalled handlers: %v", kind, k, err)
				return
			}
			rc, rp := respFor(6, p)
			if uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("wrong-answer", "%s request next to stalled handlers", kind)
			}
			c.Eval(fmt.Sprint("stall", k, kind, rcs, scs, ccs))
		}
	}
	later()
	for n, i := range r.Perm(k) {
		close(gates[i])
		var err error
		c.Do("answer of a released handler while others are stalled", func() { err = <-ps[i].ch })
		if err != nil {
			c.Violate("released", "released request failed: %v", err)
			return
		}
		c.Eval(fmt.Sprint("release", k, rcs, scs, ccs))
		if n%20 == 7 {
			later()
		}
	}
	c.Sample("%d stalled handlers, released in a random order, 3 kinds of later requests in between", k)
	closeConn(c, conn)
	s.Stop()
}

// c03undrained: handlers that return without reading (all of) their request stream.
func c03undrained(c *C) {
	r := c.Rng
	rcs, scs := r.Pick(0, 0, 4), r.Pick(1, 1000)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		switch q.Cmd {
		case 0x77, 6:
			answer(w, q)
		case 1: // answers at once, reads nothing
			answer(w, q)
		case 2: // returns without an answer
		case 3: // panics
			panic("undrained")
		case 4: // reads a few frames, then answers; there is one at least
			for i := 0; i < int(q.Payload[0]); i++ {
				<-q.FrameCh()
			}
			answer(w, q)
		case 5: // resets
			w.ResetFrame(q.RequestID, 9)
		}
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, ReadFrameChSize: rcs, WriteFrameChSize: scs})
	conn := s.dial(qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1000)}, nil)
	p := dialRaw(c, s.Addrs[0])
	for round := 0; round < 30 && !c.Violated(); round++ {
		cmd := qrpc.Cmd(r.Range(1, 5))
		n := r.Pick(1, 4, 30)
		end := r.P(1, 2)
		if r.P(1, 2) {
			var resp qrpc.Response
			var sw qrpc.StreamWriter
			var err error
			c.Do("stream whose handler does not read it", func() {
				p := gen(uint64(round), 20)
				p[0] = byte(r.Range(0, min(n, 3)))
				sw, resp, err = conn.StreamRequest(cmd, 0, p)
				for i := 0; i < n && err == nil; i++ {
					sw.StartWrite(cmd)
					sw.WriteBytes(gen(uint64(i), r.Pick(10, 3000)))
					if sw.EndWrite(end && i == n-1) != nil {
						break
					}
				}
			})
			if err != nil {
				c.Violate("request-error", "%v", err)
				return
			}
			_, err = c.getFrame("release of the caller of an undrained stream", resp)
			if err != nil && (cmd == 1) {
				c.Violate("no-answer", "answered undrained stream: %v", err)
			}
			c.probe(conn, "wedged", fmt.Sprintf("after a handler (kind %d) left a stream of %d frames unread", cmd, n))
		} else {
			id := uint64(100000 + 4*round + 1)
			first := gen(1, 10)
			first[0] = byte(r.Range(0, min(n, 3)))
			fs := []WFrame{{ID: id, Flags: fStream, Cmd: uint32(cmd), Payload: first}}
			for i := 0; i < n; i++ {
				fl := fStream
				if end && i == n-1 {
					fl |= fEnd
				}
				fs = append(fs, WFrame{ID: id, Flags: fl, Cmd: uint32(cmd), Payload: gen(2, 50)})
			}
			fs = append(fs, WFrame{ID: id + 2, Flags: fNB, Cmd: 6, Payload: gen(3, 12)})
			p.Send(fs...)
			c.MustUntil("request after a stream the handler did not read", func() bool { return len(p.ByID(id+2)) > 0 || p.Closed() })
			if p.Closed() {
				c.Violate("closed", "connection closed after an undrained stream")
			}
		}
		c.Eval(fmt.Sprint("undrained", cmd, n, end, rcs, scs))
	}
	c.Sample("streams of 1..30 frames left unread by handlers that answer, return, panic, read some or reset")
	closeConn(c, conn)
	p.Close()
	s.Stop()
}

// c03other: one connection is stuck in every way we know; the others go on.
func c03other(c *C) {
	r := c.Rng
	gate := make(chan struct{})
	var once sync.Once
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		switch q.Cmd {
		case 1: // blocking or not: stalled
			<-gate
		case 2: // floods a peer that does not read
			for i := 0; i < 64; i++ {
				w.StartWrite(q.RequestID, 2, qrpc.StreamFlag)
				w.WriteBytes(make([]byte, 1<<18))
				if w.EndWrite() != nil {
					return
				}
			}
		case 3: // stream read slowly: never
			<-gate
		}
		answer(w, q)
	})
	release := func() { once.Do(func() { close(gate) }) }
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, ReadFrameChSize: r.Pick(0, 4), WriteFrameChSize: r.Pick(1, 100)})
	var stuck []*RawPeer
	for i := 0; i < r.Range(2, 8); i++ {
		nc, err := netDial(s.Addrs[0], 10*time.Second)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		p := newRawPeerHeld(c, nc)
		kind := r.Intn(5)
		switch kind {
		case 0:
			p.Send(WFrame{ID: 3, Cmd: 1}, WFrame{ID: 5, Cmd: 1})
		case 1:
			p.Send(WFrame{ID: 3, Flags: fNB, Cmd: 2})
		case 2:
			p.Send(WFrame{ID: 3, Cmd: 2})
		case 3:
			p.Send(WFrame{ID: 3, Flags: fStream, Cmd: 3}, WFrame{ID: 3, Flags: fStream, Cmd: 3}, WFrame{ID: 3, Flags: fStream, Cmd: 3})
		case 4: // half a frame
			b := WFrame{ID: 3, Cmd: 4, Payload: gen(1, 400)}.Bytes()
			nc.Write(b[:r.Range(1, len(b)-1)])
		}
		stuck = append(stuck, p)
		conn := s.dial(qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 100)}, nil)
		for k := 0; k < 8; k++ {
			c.probe(conn, "other-conn", fmt.Sprintf("while another connection is stuck (kind %d)", kind))
			p := gen(r.Uint64(), 40)
			_, f, err := c.call(conn, 8, 0, p)
			rc, rp := respFor(8, p)
			if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("other-conn", "blocking call while another connection is stuck: %v", err)
			}
			c.Eval(fmt.Sprint("other", kind, i))
		}
		closeConn(c, conn)
	}
	c.Sample("%d connections stuck (stalled blocking/nonblocking handler, unread flood, unread stream, half a frame), fresh connections served", len(stuck))
	release()
	for _, p := range stuck {
		p.Close()
	}
	s.Stop()
}

// c03client: stalled handlers at the client do not delay requests in either direction.
func c03client(c *C) {
	r := c.Rng
	gate := make(chan struct{})
	got := make(chan *qrpc.ConnectionInfo, 1)
	sh := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0xCAFE {
			got <- q.ConnectionInfo()
		}
		answer(w, q)
	})
	var stalled int32
	ch := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 5 {
			atomic.AddInt32(&stalled, 1)
			<-gate
		}
		if q.Cmd == 7 { // leaves its stream unread
			answer(w, q)
			return
		}
		answer(w, q)
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: sh, WriteFrameChSize: r.Pick(1, 100)})
	conn := s.dial(qrpc.ConnectionConfig{Handler: ch, WriteFrameChSize: r.Pick(0, 100)}, nil)
	c.call(conn, 0xCAFE, qrpc.NBFlag, nil)
	ci := <-got
	n := r.Pick(1, 10, 100)
	var pend []qrpc.Response
	for i := 0; i < n; i++ {
		_, resp, err := ci.Request(5, 0, gen(uint64(i), 20))
		if err != nil {
			c.Violate("request-error", "%v", err)
			return
		}
		pend = append(pend, resp)
	}
	c.MustUntil("dispatch of server requests to stalled client handlers", func() bool { return int(atomic.LoadInt32(&stalled)) == n })
	for i := 0; i < 30 && !c.Violated(); i++ {
		c.probe(conn, "client-stall", "client request while client handlers are stalled")
		p := gen(r.Uint64(), pickSize(r, false))
		_, resp, err := ci.Request(6, 0, p)
		if err != nil {
			c.Violate("client-stall", "server request while client handlers are stalled: %v", err)
			return
		}
		f, err := c.getFrame("server request while client handlers are stalled", resp)
		rc, rp := respFor(6, p)
		if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("client-stall", "wrong answer err=%v", err)
		}
		var sw qrpc.StreamWriter
		c.Do("server stream the client handler leaves unread", func() {
			sw, resp, err = ci.StreamRequest(7, 0, p)
			for k := 0; k < 4 && err == nil; k++ {
				sw.StartWrite(7)
				sw.WriteBytes(p)
				if sw.EndWrite(k == 3) != nil {
					break
				}
			}
		})
		if err == nil {
			c.getFrame("answer of a server stream", resp)
		}
		c.Eval(fmt.Sprint("client", n, i%3))
	}
	close(gate)
	for i, resp := range pend {
		f, err := c.getFrame("released server request", resp)
		rc, rp := respFor(5, gen(uint64(i), 20))
		if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("released", "server request %d: %v", i, err)
		}
	}
	c.Sample("%d stalled client handlers", n)
	time.Sleep(time.Millisecond)
	closeConn(c, conn)
	s.Stop()
}
