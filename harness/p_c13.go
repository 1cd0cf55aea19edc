package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C13", MinEv: 1500,
		Rule: "one evaluation per server-initiated call followed from its caller through the one dispatch at the client and back to that caller (or to its error), and per client call running beside them; distinct = (kind of call, nesting, handler behaviour, channel sizes, payload bucket)",
		Jobs: []JobSpec{
			{Name: "mix", Quick: 8, Deep: 60, Fn: c13mix},
			{Name: "many", Quick: 4, Deep: 30, Fn: c13many},
			{Name: "failing", Quick: 6, Deep: 40, Fn: c13failing},
			{Name: "rawclient", Quick: 6, Deep: 40, Fn: c13rawclient},
			{Name: "closing", Quick: 8, Deep: 60, Fn: c13closing},
		}})
}

// once notes how often each tag was dispatched and as what.
type once struct {
	mu sync.Mutex
	m  map[uint64]int
}

func newOnce() *once { return &once{m: map[uint64]int{}} }
func (o *once) hit(t uint64) int {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.m[t]++
	return o.m[t]
}
func (o *once) n(t uint64) int { o.mu.Lock(); defer o.mu.Unlock(); return o.m[t] }
func (o *once) total() int     { o.mu.Lock(); defer o.mu.Unlock(); return len(o.m) }

const (
	nPlain  = 0x31
	nNest   = 0x32 // the handler calls the other side before it answers
	nStream = 0x5700
)

// nestCall is one call whose handler may call back; depth is in the payload.
func nestPayload(tag uint64, depth, size int) []byte {
	p := gen(tag, 9+size)
	p[8] = byte(depth)
	return p
}

// c13mix: calls of both sides at once, nested up to three deep, plain and streamed.
func c13mix(c *C) {
	r := c.Rng
	seen := map[bool]*once{false: newOnce(), true: newOnce()}
	var p *pair
	ready := make(chan struct{})
	var call func(o initiator, rr *Rng, dir string, depth int) bool
	handler := func(client bool) qrpc.Handler {
		return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			<-ready
			defer func() {
				if e := recover(); e != nil {
					c.Violate("handler", "%v %s", e, allStacks())
				}
			}()
			tag := tagOf(q.Payload)
			if n := seen[client].hit(tag); n > 1 {
				c.Violate("twice", "request %x was dispatched %d times at the client=%v", tag, n, client)
			}
			if q.FromClient() == client {
				c.Violate("direction", "request id %d was dispatched at the client=%v", q.RequestID, client)
			}
			if q.Cmd&0xff00 == nStream {
				serveStream(c, dirName(client), w, (*qrpc.Frame)(q), nil)
				return
			}
			if q.Cmd == nNest {
				depth := int(q.Payload[8])
				var o initiator
				if client {
					if q.ClientConnectionInfo().CC != p.conn {
						c.Violate("conninfo", "a client handler got another connection")
					}
					o = p.conn
					if q.StreamInitiator() != qrpc.StreamInitiator(p.conn) {
						c.Violate("conninfo", "the stream initiator of a client handler is not its connection")
					}
				} else {
					if q.ConnectionInfo() != p.ci {
						c.Violate("conninfo", "a server handler got another connection")
					}
					o = q.ConnectionInfo()
					if _, ok := runStream(c, "server->client by StreamInitiator", q.StreamInitiator(), mix(tag, 5), 30); !ok {
						return
					}
				}
				rr := NewRng(int64(tag))
				if !call(o, rr, dirName(!client)+" nested", depth-1) {
					return
				}
			}
			answer(w, q)
		})
	}
	scs, ccs := r.Pick(1, 3, 100), r.Pick(0, 3, 100)
	call = func(o initiator, rr *Rng, dir string, depth int) bool {
		tag := rr.Uint64()
		server := o != initiator(p.conn)
		if rr.P(1, 5) {
			_, ok := runStream(c, dir, o.(qrpc.StreamInitiator), tag, rr.Pick(0, 10, 1500))
			c.Eval(fmt.Sprint(dir, "stream", scs, ccs))
			return ok
		}
		cmd := uint32(nPlain)
		if depth > 0 && rr.P(2, 3) {
			cmd = nNest
		}
		pl := nestPayload(tag, depth, rr.Pick(0, 3, 990, 3000))
		fl := qrpc.NBFlag
		if server && rr.P(1, 2) {
			fl = 0
		}
		var resp qrpc.Response
		var id uint64
		var err error
		c.Do(dir+" request", func() { id, resp, err = o.Request(qrpc.Cmd(cmd), fl, pl) })
		if err != nil {
			c.Violate("call", "%s request: %v", dir, err)
			return false
		}
		if (id%2 == 0) != server {
			c.Violate("direction", "%s request has id %d", dir, id)
		}
		f, err := c.getFrame(dir+" answer", resp)
		if err != nil {
			c.Violate("call", "%s answer of id %d: %v", dir, id, err)
			return false
		}
		rc, rp := respFor(cmd, pl)
		if f.RequestID != id || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("misrouted", "%s caller of id %d got %v, want cmd %#x %s", dir, id, toW(f), rc, brief(rp))
			return false
		}
		if n := seen[server].n(tag); n != 1 {
			c.Violate("twice", "%s request %x was dispatched %d times", dir, tag, n)
		}
		c.Eval(fmt.Sprint(dir, cmd, depth, fl, scs, ccs, bucket(len(pl))))
		c.Sample("%s id=%d cmd=%#x depth=%d payload %s answered %s", dir, id, cmd, depth, brief(pl), brief(rp))
		return true
	}
	_, wrap := chunkPolicy(r)
	o := pairOpt{binding: qrpc.ServerBinding{WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 4)}, conf: qrpc.ConnectionConfig{Handler: handler(true), WriteFrameChSize: ccs}}
	if wrap != nil {
		o.wrapC = wrap
		o.wrapS = func(_ int, nc net.Conn) net.Conn { return wrap(nc) }
	}
	p = newPair(c, o, handler(false))
	close(ready)
	rngs := []*Rng{}
	for i := 0; i < 12; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(12, func(g int) {
		for k := 0; k < 30 && !c.Violated(); k++ {
			depth := rngs[g].Intn(4)
			if g < 7 {
				call(p.ci, rngs[g], "server->client", depth)
			} else {
				call(p.conn, rngs[g], "client->server", depth)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("calls of both sides")
	}
	p.stop()
}

// c13many: the same server calls many connections at once; ids are the same on each.
func c13many(c *C) {
	r := c.Rng
	const N = 10
	var s *Srv
	s = startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: echoHandler})
	type cl struct {
		conn *qrpc.Connection
		ci   *qrpc.ConnectionInfo
		n    int64
	}
	var cls []*cl
	known := map[*qrpc.ConnectionInfo]bool{}
	for i := 0; i < N; i++ {
		x := &cl{}
		me := uint64(i + 1)
		x.conn = s.dial(qrpc.ConnectionConfig{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			atomic.AddInt64(&x.n, 1)
			if q.ClientConnectionInfo().CC != x.conn {
				c.Violate("conninfo", "client handler with another client's connection")
			}
			t := tagOf(q.Payload)
			if t%3 == 0 {
				time.Sleep(time.Duration(t%400) * time.Microsecond)
			}
			w.StartWrite(q.RequestID, qrpc.Cmd(me), 0)
			w.WriteBytes(gen(mix(me, t), 8+int(t%700)))
			if err := w.EndWrite(); err != nil {
				c.writeFailed("answer", err, "write")
			}
		})}, nil)
		c.MustUntil("registration", func() bool {
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
				if !known[ci] {
					known[ci] = true
					x.ci = ci
				}
				return true
			})
			return x.ci != nil
		})
		cls = append(cls, x)
	}
	rngs := []*Rng{}
	for i := 0; i < 12; i++ {
		rngs = append(rngs, r.Fork())
	}
	var calls [N]int64
	done := parallel(12, func(g int) {
		r := rngs[g]
		for k := 0; k < 60 && !c.Violated(); k++ {
			i := r.Intn(N)
			x := cls[i]
			t := r.Uint64()
			id, resp, err := x.ci.Request(7, 0, gen(t, 8+r.Intn(900)))
			if err != nil {
				c.Violate("call", "%v", err)
				return
			}
			atomic.AddInt64(&calls[i], 1)
			f, err := c.getFrame("answer of one of many clients", resp)
			if err != nil {
				c.Violate("call", "%v", err)
				return
			}
			if f.RequestID != id || uint32(f.Cmd) != uint32(i+1) || !same(f.Payload, gen(mix(uint64(i+1), t), 8+int(t%700))) {
				c.Violate("misrouted", "the caller of client %d got %v", i, toW(f))
			}
			c.Eval(fmt.Sprint("many", i, id < 20))
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("calls to many clients")
	}
	for i, x := range cls {
		if n := atomic.LoadInt64(&x.n); n != calls[i] {
			c.Violate("twice", "client %d handled %d requests, %d were made", i, n, calls[i])
		}
		closeConn(c, x.conn)
	}
	s.Stop()
}

// c13failing: client handlers that fail in every way, among ones that answer.
func c13failing(c *C) {
	r := c.Rng
	const (
		ok = iota
		returns
		panics
		resets
		partial // writes part of a streamed answer and returns
		partialPanic
		abandons // fills a frame and returns
		twice    // answers and panics
		otherID  // answers a request that does not exist
		nWays
	)
	names := []string{"ok", "returns", "panics", "resets", "partial", "partial+panic", "abandons", "answers+panics", "answers another id"}
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		t := tagOf(q.Payload)
		if t&1 == 1 {
			time.Sleep(time.Duration(t>>8%300) * time.Microsecond)
		}
		go func() {
			for range q.FrameCh() {
			}
		}()
		switch int(q.Cmd) {
		case ok:
			answer(w, q)
		case returns:
		case panics:
			panic("client handler")
		case resets:
			w.ResetFrame(q.RequestID, 77)
		case partial, partialPanic:
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes(gen(t, 50))
			if err := w.EndWrite(); err != nil {
				c.writeFailed("answer", err, "write")
			}
			if int(q.Cmd) == partialPanic {
				panic(nil)
			}
		case abandons:
			w.StartWrite(q.RequestID, 1, 0)
			w.WriteBytes(gen(t, 50))
		case twice:
			answer(w, q)
			panic(fmt.Errorf("after the answer"))
		case otherID:
			w.StartWrite(q.RequestID+100000, 1, 0)
			if w.EndWrite() == nil {
				c.Violate("other-id", "an answer to a request that does not exist was accepted")
			}
		}
	})
	p := newPair(c, pairOpt{rev: true, binding: qrpc.ServerBinding{WriteFrameChSize: r.Pick(1, 10)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 10)}}, h)
	rngs := []*Rng{}
	for i := 0; i < 9; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(9, func(g int) {
		r := rngs[g]
		for k := 0; k < 40 && !c.Violated(); k++ {
			if g == 8 { // client calls beside
				pl := gen(r.Uint64(), 20)
				_, f, err := c.call(p.conn, 5, qrpc.NBFlag, pl)
				if err != nil {
					c.Violate("beside", "client call among failing client handlers: %v", err)
				} else if rc, rp := respFor(5, pl); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("beside", "client call got %v", toW(f))
				}
				c.Eval("client call beside failing handlers")
				continue
			}
			way := r.Intn(nWays)
			if r.P(1, 4) {
				way = ok
			}
			t := r.Uint64()
			pl := gen(t, 8+r.Pick(0, 10, 1200))
			var resp qrpc.Response
			var err error
			stream := r.P(1, 3)
			if stream {
				var sw qrpc.StreamWriter
				sw, resp, err = p.ci.StreamRequest(qrpc.Cmd(way), 0, pl)
				if err == nil {
					sw.StartWrite(1)
					sw.WriteBytes(gen(t, 20))
					sw.EndWrite(r.P(1, 2))
				}
			} else {
				_, resp, err = p.ci.Request(qrpc.Cmd(way), 0, pl)
			}
			if err != nil {
				c.Violate("call", "server request: %v", err)
				return
			}
			f, err := c.getFrame("server-side caller of a client handler that "+names[way], resp)
			switch way {
			case ok, twice:
				if err != nil {
					c.Violate("call", "%s: %v", names[way], err)
					break
				}
				if rc, rp := respFor(uint32(way), pl); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("misrouted", "%s: got %v", names[way], toW(f))
				}
			case partial, partialPanic:
				if err != nil {
					c.Violate("call", "%s: %v", names[way], err)
					break
				}
				if !same(f.Payload, gen(t, 50)) {
					c.Violate("misrouted", "%s: got %v", names[way], toW(f))
				}
				if g := c.nextFrame("end of a response stream whose handler "+names[way], f.FrameCh()); g != nil {
					c.Violate("extra", "%s: another frame %v", names[way], toW(g))
				}
			default:
				if err != qrpc.ErrStreamClosed {
					c.Violate("released", "%s: server-side caller got frame %v, error %v", names[way], f != nil, err)
				}
			}
			c.Eval(fmt.Sprint("failing", names[way], stream, bucket(len(pl))))
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("failing client handlers")
	}
	p.stop()
}

// c13rawclient: the client side is ours: answers out of order, split, streamed, reset, and requests of its own
// whose ids differ from the pending ones by one.
func c13rawclient(c *C) {
	r := c.Rng
	var handled int64
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{WriteFrameChSize: r.Pick(1, 10), ReadFrameChSize: r.Pick(0, 3), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt64(&handled, 1)
		if q.RequestID%2 == 0 {
			c.Violate("direction", "an answer was dispatched as a request: %v", toW((*qrpc.Frame)(q)))
		}
		answer(w, q)
	})})
	p := dialRaw(c, s.Addrs[0])
	var ci *qrpc.ConnectionInfo
	c.MustUntil("registration", func() bool {
		s.S.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return false })
		return ci != nil
	})
	asked := 0
	for round := 0; round < 25 && !c.Violated(); round++ {
		n := r.Range(1, 12)
		type pend struct {
			id   uint64
			sent []byte
			resp qrpc.Response
			how  int
		}
		ps := make([]pend, n)
		done := parallel(n, func(i int) {
			pl := gen(mix(uint64(round), uint64(i), uint64(c.Seed)), 8+i*10)
			id, resp, err := ci.Request(qrpc.Cmd(i), 0, pl)
			if err != nil {
				c.Violate("call", "%v", err)
				return
			}
			ps[i] = pend{id: id, sent: pl, resp: resp}
		})
		c.Must("server requests", done)
		ids := map[uint64]bool{}
		for i := range ps {
			x := &ps[i]
			if ids[x.id] || x.id == 0 || x.id%2 != 0 {
				c.Violate("ids", "id %d is used twice or not a server id", x.id)
				return
			}
			ids[x.id] = true
			x.how = r.Intn(4)
			c.MustUntil("server request on the wire", func() bool { return len(p.ByID(x.id)) > 0 || p.Closed() })
			fs := p.ByID(x.id)
			if len(fs) != 1 || fs[0].Cmd != uint32(i) || fs[0].Flags != fNB || !same(fs[0].Payload, x.sent) {
				c.Violate("dispatch", "server request id %d arrived as %v", x.id, fs)
				return
			}
		}
		var script []WFrame
		for _, i := range r.Perm(n) {
			x := ps[i]
			f := WFrame{ID: x.id, Cmd: uint32(i) + 100, Payload: gen(mix(x.id, 9), 20)}
			switch x.how {
			case 0:
				script = append(script, f)
			case 1:
				f.Flags = fStream | fEnd
				script = append(script, f)
			case 2:
				f.Flags = fNB
				script = append(script, f)
			case 3:
				script = append(script, WFrame{ID: x.id, Flags: fRst})
			}
			if r.P(1, 2) {
				id := x.id + 1
				if r.P(1, 2) {
					id = x.id - 1
				}
				if len(p.ByID(id)) == 0 && !ids[id] {
					ids[id] = true
					asked++
					script = append(script, WFrame{ID: id, Flags: fNB, Cmd: 5, Payload: gen(mix(id), 12)})
				}
			}
		}
		b := wireOf(script)
		for len(b) > 0 {
			k := r.Range(1, 200)
			if k > len(b) {
				k = len(b)
			}
			p.nc.Write(b[:k])
			b = b[k:]
		}
		for i, x := range ps {
			f, err := c.getFrame("server-side caller", x.resp)
			if x.how == 3 {
				if err != qrpc.ErrStreamClosed {
					c.Violate("released", "caller of id %d, which was reset, got frame %v, error %v", x.id, f != nil, err)
				}
			} else if err != nil {
				c.Violate("call", "caller of id %d: %v", x.id, err)
			} else if f.RequestID != x.id || uint32(f.Cmd) != uint32(i)+100 || !same(f.Payload, gen(mix(x.id, 9), 20)) {
				c.Violate("misrouted", "caller of id %d got %v", x.id, toW(f))
			}
			c.Eval(fmt.Sprint("raw", x.how, n))
		}
	}
	c.MustUntil("client requests beside", func() bool { return atomic.LoadInt64(&handled) >= int64(asked) || c.Violated() })
	if !c.Violated() && atomic.LoadInt64(&handled) != int64(asked) {
		c.Violate("direction", "%d client requests were sent, %d handled", asked, handled)
	}
	p.Close()
	s.Stop()
}

// c13closing: server-side callers are released when the connection goes.
func c13closing(c *C) {
	r := c.Rng
	hows := []string{"client close", "server close", "socket", "handler close", "shutdown", "takeover"}
	for round := 0; round < 6 && !c.Violated(); round++ {
		how := hows[(round+c.K)%len(hows)]
		hold := make(chan struct{})
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			switch q.Cmd {
			case 1:
				answer(w, q)
			case 2:
				<-q.Context().Done()
			case 3:
				w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
				w.EndWrite()
				<-q.Context().Done()
			case 4:
				q.Close()
			}
		})
		var sock net.Conn
		p := newPair(c, pairOpt{rev: true, binding: qrpc.ServerBinding{WriteFrameChSize: r.Pick(1, 10)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 10)},
			wrapC: func(nc net.Conn) net.Conn { sock = nc; return nc }}, h)
		rngs := []*Rng{}
		for i := 0; i < 8; i++ {
			rngs = append(rngs, r.Fork())
		}
		var pending int64
		done := parallel(8, func(g int) {
			r := rngs[g]
			for k := 0; k < 200; k++ {
				cmd := r.Pick(1, 1, 1, 2, 3)
				if k < 3 {
					cmd = 1
				}
				pl := gen(r.Uint64(), 8+r.Intn(50))
				if cmd != 1 {
					atomic.AddInt64(&pending, 1)
				}
				var resp qrpc.Response
				var err error
				if r.P(1, 2) {
					_, resp, err = p.ci.Request(qrpc.Cmd(cmd), 0, pl)
				} else {
					_, resp, err = p.ci.StreamRequest(qrpc.Cmd(cmd), 0, pl)
				}
				if err != nil {
					return
				}
				f, err := resp.GetFrame()
				c.Eval(fmt.Sprint("closing", how, cmd, err == nil))
				if err != nil {
					if err != qrpc.ErrStreamClosed {
						c.Violate("released", "%s: %v", how, err)
					}
					return
				}
				if cmd == 2 {
					c.Violate("forged", "%s: a request whose handler never answers got %v", how, toW(f))
				}
				if cmd == 1 {
					if rc, rp := respFor(1, pl); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
						c.Violate("misrouted", "%s: got %v", how, toW(f))
					}
				}
				for range f.FrameCh() {
				}
			}
		})
		want := int64(r.Range(1, 8))
		c.MustUntil("held server requests", func() bool { return atomic.LoadInt64(&pending) >= want })
		switch how {
		case "client close":
			p.conn.Close()
		case "server close":
			p.ci.Close()
		case "socket":
			sock.Close()
		case "handler close":
			p.ci.Request(4, 0, nil)
		case "shutdown":
			go p.srv.S.Shutdown()
		case "takeover":
			p.ci.SetID("x")
			other := p.srv.dial(qrpc.ConnectionConfig{}, nil)
			var oci *qrpc.ConnectionInfo
			c.MustUntil("registration", func() bool {
				p.srv.S.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool {
					if i != p.ci {
						oci = i
					}
					return true
				})
				return oci != nil
			})
			c.Do("takeover with pending server requests", func() { oci.SetID("x") })
			defer other.Close()
		}
		c.Must("server-side callers after the end of the connection: "+how, done)
		c.Do("a server request on the ended connection", func() {
			c.Until(p.ci.IsClosed)
			if _, _, err := p.ci.Request(1, 0, nil); err == nil {
				c.Violate("after", "%s: a server request on the ended connection was accepted", how)
			}
		})
		close(hold)
		p.stop()
	}
}
