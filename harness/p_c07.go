package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C07", MinEv: 300,
		Rule: "one evaluation per write or reset that has to be refused (or accepted) after a given history of its request, with the wire compared to exactly the accepted ones; distinct = (side, history, refused operation, written alone or inside a batch, channel size)",
		Jobs: []JobSpec{
			{Name: "server", Quick: 6, Deep: 50, Fn: c07server},
			{Name: "client", Quick: 5, Deep: 40, Fn: c07client},
			{Name: "batch", Quick: 6, Deep: 50, Fn: c07batch},
			{Name: "closed", Quick: 3, Deep: 20, Fn: c07closed},
		}})
}

type op struct {
	kind string // stream end plain reset
}

// c07history: one handler run = one history of writes by the handler's writer.
func c07history(c *C, side string, hr *Rng, lg *wlog, left *int32) qrpc.Handler {
	var wid int32
	return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		defer atomic.AddInt32(left, -1)
		me := int(atomic.AddInt32(&wid, 1))
		id := q.RequestID
		over := false
		hist := ""
		put := func(flags byte) {
			f := WFrame{ID: id, Flags: flags, Cmd: uint32(hr.Intn(1 << 24)), Payload: gen(hr.Uint64(), hr.Pick(0, 1, 40, 1100))}
			if over {
				f.Payload = gen(hr.Uint64(), hr.Pick(30, 1100)) // so that it would be noticed
			}
			w.StartWrite(id, qrpc.Cmd(f.Cmd), qrpc.FrameFlag(flags))
			w.WriteBytes(f.Payload)
			err := w.EndWrite()
			if over && err == nil {
				c.Violate("accepted", "after [%s] of request %d (flags %#x) a write with flags %#x returned success", hist, id, q.Flags, flags)
			}
			if !over && err != nil {
				c.Violate("refused", "after [%s] of request %d a write with flags %#x failed: %v", hist, id, flags, err)
			}
			if err == nil {
				lg.ok(me, f)
			}
			c.Eval(fmt.Sprint(side, q.Flags, hist, flags, over))
		}
		n := hr.Range(0, 3)
		for i := 0; i < n; i++ {
			put(fStream)
			hist += "s"
		}
		switch v := hr.Intn(4); v {
		case 0, 1:
			put(fStream | fEnd)
			hist += "E"
			over = true
		case 2:
			if n == 0 {
				put(byte(hr.Pick(0, int(fNB))))
				hist += "P"
			} else {
				put(fEnd)
				hist += "e"
			}
			over = true
		case 3:
			reason := uint32(hr.Intn(1 << 24))
			if err := w.ResetFrame(id, qrpc.Cmd(reason)); err != nil {
				c.Violate("refused", "reset after [%s]: %v", hist, err)
			} else {
				lg.ok(me, WFrame{ID: id, Flags: fRst, Cmd: reason})
			}
			hist += "R"
			over = true
		}
		for i := hr.Range(1, 4); i > 0; i-- {
			put(byte(hr.Pick(0, int(fNB), int(fStream), int(fStream|fEnd), int(fEnd))))
		}
		if !q.Flags.IsStream() || q.Flags.IsDone() {
			// both sides are done: a reset has no target
			if err := w.ResetFrame(id, 7); err == nil {
				c.Violate("reset-nothing", "resetting request %d after [%s], over on both sides, returned success", id, hist)
			}
			c.Eval(fmt.Sprint(side, "-reset", q.Flags, hist))
		}
		if err := w.ResetFrame(id+1000000, 8); err == nil {
			c.Violate("reset-nothing", "resetting a request that never existed returned success")
		}
		w.StartWrite(id+1000000, 3, 0)
		w.WriteBytes([]byte("to nobody"))
		if err := w.EndWrite(); err == nil {
			c.Violate("accepted", "answering a request that never existed returned success")
		}
	})
}

// c07server: handlers of the server.
func c07server(c *C) {
	r := c.Rng
	lg := newWlog()
	var left int32
	h := c07history(c, "server", r.Fork(), lg, &left)
	tap := &Tap{}
	scs := r.Pick(0, 1, 3, 100)
	s := startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn { return wrapConn(nc, Policy{TapW: tap}) }, qrpc.ServerBinding{Handler: h, WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 3)})
	p := dialRaw(c, s.Addrs[0])
	n := 120
	atomic.StoreInt32(&left, int32(n))
	for i := 0; i < n; i++ {
		f := WFrame{ID: uint64(2*i + 1), Flags: byte(r.Pick(0, int(fNB), int(fStream), int(fStream|fEnd))), Cmd: 1, Payload: gen(1, 10)}
		p.Send(f)
		if f.Flags == fStream && r.P(1, 2) {
			p.Send(WFrame{ID: f.ID, Flags: fStream | fEnd, Cmd: 1})
		}
	}
	c.MustUntil("handlers writing after the end", func() bool { return atomic.LoadInt32(&left) == 0 || p.Closed() || c.Violated() })
	c.MustUntil("frames reaching the peer", func() bool { return p.N() >= lg.total() || p.Closed() || c.Violated() })
	c.Settle(5)
	if !c.Violated() {
		lg.match(c, "server", "refusals", scs, tap.Bytes())
	}
	p.Close()
	s.Stop()
}

// c07client: stream writers and resets of the client.
func c07client(c *C) {
	r := c.Rng
	lg := newWlog()
	tap := &Tap{}
	rs := newRawServer(c)
	ccs := r.Pick(0, 1, 3, 100)
	conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{WriteFrameChSize: ccs, OverlayNetwork: overlayWith(func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{TapW: tap}) })}, nil)
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	p := newRawPeer(c, rs.next())
	rngs := []*Rng{}
	for i := 0; i < 6; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(6, func(i int) {
		r := rngs[i]
		for k := 0; k < 25 && !c.Violated(); k++ {
			kind := r.Intn(4)
			if kind == 3 { // a plain request, answered, then reset
				id, resp, err := conn.Request(1, qrpc.NBFlag, gen(uint64(k), 9))
				if err != nil {
					c.Violate("refused", "%v", err)
					return
				}
				lg.ok(i, WFrame{ID: id, Flags: fNB, Cmd: 1, Payload: gen(uint64(k), 9)})
				p.Send(WFrame{ID: id, Cmd: 2})
				c.getFrame("answer of the raw server", resp)
				if err := conn.ResetFrame(id, 5); err == nil {
					c.Violate("reset-nothing", "resetting the answered request %d returned success", id)
				}
				c.Eval(fmt.Sprint("client-reset answered", ccs))
				continue
			}
			oneShot := kind == 2
			fl := byte(0)
			if oneShot {
				fl = fEnd
			}
			sw, resp, err := conn.StreamRequest(1, qrpc.FrameFlag(fl), nil)
			if err != nil {
				c.Violate("refused", "%v", err)
				return
			}
			id := sw.RequestID()
			lg.ok(i, WFrame{ID: id, Flags: fStream | fl, Cmd: 1})
			hist := "o"
			over := oneShot
			put := func(end bool) {
				cmd, pl := uint32(r.Intn(1<<24)), gen(r.Uint64(), r.Pick(20, 600))
				sw.StartWrite(qrpc.Cmd(cmd))
				sw.WriteBytes(pl)
				err := sw.EndWrite(end)
				if over && err == nil {
					c.Violate("accepted", "client stream after [%s]: a write (end=%v) returned success", hist, end)
				}
				if !over && err != nil {
					c.Violate("refused", "client stream after [%s]: write failed: %v", hist, err)
				}
				if err == nil {
					f := WFrame{ID: id, Flags: fStream | fl, Cmd: cmd, Payload: pl}
					if end {
						f.Flags |= fEnd
					}
					lg.ok(i, f)
				}
				c.Eval(fmt.Sprint("client", hist, end, over, ccs))
			}
			if !oneShot {
				for j := r.Intn(3); j > 0; j-- {
					put(false)
					hist += "s"
				}
				if kind == 1 {
					reason := uint32(r.Intn(1 << 24))
					if err := sw.ResetFrame(qrpc.Cmd(reason)); err != nil {
						c.Violate("refused", "reset: %v", err)
					} else {
						lg.ok(i, WFrame{ID: id, Flags: fRst, Cmd: reason})
					}
					hist += "R"
				} else {
					put(true)
					hist += "E"
				}
				over = true
			}
			peerEnds := r.P(1, 2)
			if peerEnds {
				p.Send(WFrame{ID: id, Flags: fStream | fEnd, Cmd: 2})
				if f, err := c.getFrame("answer of the raw server", resp); err == nil {
					c.nextFrame("end of the answer", f.FrameCh())
				}
				hist += "A"
			}
			for j := r.Range(1, 3); j > 0; j-- {
				put(r.P(1, 2))
			}
			if peerEnds {
				if err := conn.ResetFrame(id, 5); err == nil {
					c.Violate("reset-nothing", "resetting stream %d, over on both sides (%s), returned success", id, hist)
				}
				if err := sw.ResetFrame(6); err == nil {
					c.Violate("reset-nothing", "resetting stream %d, over on both sides (%s), returned success", id, hist)
				}
				c.Eval(fmt.Sprint("client-reset", hist, ccs))
			}
			if err := conn.ResetFrame(id+1<<30, 5); err == nil {
				c.Violate("reset-nothing", "resetting a request that never existed returned success")
			}
		}
	})
	c.Must("client writers after the end", done)
	c.MustUntil("frames reaching the peer", func() bool { return p.N() >= lg.total() || p.Closed() || c.Violated() })
	c.Settle(5)
	if !c.Violated() {
		lg.match(c, "client", "refusals", ccs, tap.Bytes())
	}
	closeConn(c, conn)
	p.Close()
	rs.ln.Close()
}

// gated lets the test hold the first transport write, so that what is written meanwhile forms one batch.
type wgate struct {
	mu   sync.Mutex
	hold chan struct{}
	in   chan struct{}
}

func (g *wgate) onWrite() {
	g.mu.Lock()
	h, in := g.hold, g.in
	g.hold, g.in = nil, nil
	g.mu.Unlock()
	if h != nil {
		close(in)
		<-h
	}
}

func (g *wgate) arm() (in, release chan struct{}) {
	in, release = make(chan struct{}), make(chan struct{})
	g.mu.Lock()
	g.hold, g.in = release, in
	g.mu.Unlock()
	return
}

// c07batch: refused and accepted frames queue up behind a held write and leave as one batch, on both sides.
func c07batch(c *C) {
	r := c.Rng
	serverSide := c.K%2 == 0
	g := &wgate{}
	tap := &Tap{}
	lg := newWlog()
	chs := r.Pick(4, 16, 64)
	wrap := func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{TapW: tap, OnWrite: g.onWrite}) }
	var conn *qrpc.Connection
	var p *RawPeer
	var ci *qrpc.ConnectionInfo
	type hw struct {
		q *qrpc.RequestFrame
		w qrpc.FrameWriter
		d chan struct{}
	}
	handlers := make(chan hw, 1000)
	var s *Srv
	var rs *rawServer
	if serverSide {
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			x := hw{q, w, make(chan struct{})}
			handlers <- x
			<-x.d
		})
		s = startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn { return wrap(nc) }, qrpc.ServerBinding{Handler: h, WriteFrameChSize: chs})
		p = dialRaw(c, s.Addrs[0])
	} else {
		rs = newRawServer(c)
		var err error
		conn, err = qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{WriteFrameChSize: chs, OverlayNetwork: overlayWith(wrap)}, nil)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		p = newRawPeer(c, rs.next())
	}
	id := uint64(1)
	for round := 0; round < 14 && !c.Violated(); round++ {
		n := r.Range(2, chs)
		if n > 20 {
			n = 20
		}
		// n requests, each brought into a state, then one write each inside a batch
		type unit struct {
			write func(flags byte, cmd uint32, pl []byte) error
			reset func(reason uint32) error
			id    uint64
			state string
			done  func()
		}
		var units []unit
		for i := 0; i <= n; i++ {
			state := []string{"open", "ended", "reset", "gone"}[r.Intn(4)]
			if i == 0 {
				state = "open"
			}
			var u unit
			if serverSide {
				id += 2
				// gone: the peer is done as well
				fl := fStream
				if state == "gone" {
					fl = fNB
				}
				p.Send(WFrame{ID: id, Flags: fl, Cmd: 1})
				var x hw
				c.Do("dispatch of a request", func() { x = <-handlers })
				u = unit{id: id, state: state, done: func() { close(x.d) }}
				ci = x.q.ConnectionInfo()
				u.write = func(flags byte, cmd uint32, pl []byte) error {
					x.w.StartWrite(u.id, qrpc.Cmd(cmd), qrpc.FrameFlag(flags))
					x.w.WriteBytes(pl)
					return x.w.EndWrite()
				}
				u.reset = func(reason uint32) error { return x.w.ResetFrame(u.id, qrpc.Cmd(reason)) }
			} else {
				sw, resp, err := conn.StreamRequest(1, 0, nil)
				if err != nil {
					c.Violate("refused", "%v", err)
					return
				}
				lg.ok(i, WFrame{ID: sw.RequestID(), Flags: fStream, Cmd: 1})
				u = unit{id: sw.RequestID(), state: state, done: func() {}}
				u.write = func(flags byte, cmd uint32, pl []byte) error {
					sw.StartWrite(qrpc.Cmd(cmd))
					sw.WriteBytes(pl)
					return sw.EndWrite(flags&fEnd != 0)
				}
				u.reset = func(reason uint32) error { return sw.ResetFrame(qrpc.Cmd(reason)) }
				if state == "gone" {
					p.Send(WFrame{ID: u.id, Flags: fStream | fEnd, Cmd: 2})
					c.getFrame("answer of the raw server", resp)
				}
			}
			var err error
			switch state {
			case "ended", "gone":
				if err = u.write(fStream|fEnd, 9, nil); err == nil {
					lg.ok(i, WFrame{ID: u.id, Flags: fStream | fEnd, Cmd: 9})
				}
			case "reset":
				if err = u.reset(4); err == nil {
					lg.ok(i, WFrame{ID: u.id, Flags: fRst, Cmd: 4})
				}
			}
			if err != nil {
				c.Violate("refused", "bringing request %d into state %s: %v", u.id, state, err)
				return
			}
			units = append(units, u)
		}
		in, release := g.arm()
		var wg sync.WaitGroup
		exec := func(i int, u unit, what string) {
			defer wg.Done()
			pl := gen(mix(uint64(round), uint64(i), u.id), 20+i)
			cmd := uint32(i + 1)
			var err error
			var f WFrame
			ok := u.state == "open"
			switch what {
			case "frame":
				f = WFrame{ID: u.id, Flags: fStream, Cmd: cmd, Payload: pl}
				err = u.write(fStream, cmd, pl)
			case "end":
				f = WFrame{ID: u.id, Flags: fStream | fEnd, Cmd: cmd, Payload: pl}
				err = u.write(fStream|fEnd, cmd, pl)
			case "reset":
				f = WFrame{ID: u.id, Flags: fRst, Cmd: cmd}
				err = u.reset(cmd)
				if u.state == "ended" || u.state == "reset" {
					// over on this side only: a reset may or may not be worth sending
					if err == nil {
						f.Cmd = cmd
						lg.mu.Lock()
						lg.failed = append(lg.failed, f)
						lg.mu.Unlock()
					}
					return
				}
			case "unknown":
				f = WFrame{ID: u.id + 1<<32, Flags: fRst, Cmd: cmd}
				if serverSide {
					w := ci.GetWriter()
					err = w.ResetFrame(f.ID, qrpc.Cmd(cmd))
				} else {
					err = conn.ResetFrame(f.ID, qrpc.Cmd(cmd))
				}
				ok = false
			}
			if ok && err != nil {
				c.Violate("refused", "batch: %s of a request in state %s failed: %v", what, u.state, err)
			}
			if !ok && err == nil {
				c.Violate("accepted", "batch: %s of a request in state %s returned success", what, u.state)
			}
			if err == nil {
				lg.ok(1000*round+i, f)
			}
			c.Eval(fmt.Sprint("batch", serverSide, what, u.state, chs))
		}
		wg.Add(1)
		go exec(0, units[0], "frame")
		c.Must("first write of a batch reaching the transport", in)
		for i := 1; i <= n; i++ {
			what := []string{"frame", "end", "reset", "unknown"}[r.Intn(4)]
			wg.Add(1)
			go exec(i, units[i], what)
			if r.P(1, 3) {
				c.Settle(1)
			}
		}
		c.Settle(1)
		close(release)
		c.Do("writers of a batch", wg.Wait)
		for _, u := range units {
			if serverSide && u.state == "open" {
				// finish it, so that the end of the handler adds nothing
				if err := u.write(fStream|fEnd, 8, nil); err == nil {
					lg.ok(5000, WFrame{ID: u.id, Flags: fStream | fEnd, Cmd: 8})
				}
			}
			u.done()
		}
	}
	n := lg.total()
	c.MustUntil("frames reaching the peer", func() bool { return p.N() >= n || p.Closed() || c.Violated() })
	c.Settle(5)
	if !c.Violated() {
		// resets of half-over requests are left out of the comparison
		drop := map[string]int{}
		for _, f := range lg.failed {
			drop[fkey(f)]++
		}
		fs, rest, err := parseWire(tap.Bytes())
		if err != nil || len(rest) > 0 {
			c.Violate("wire-format", "batch: bytes on the wire are not frames")
		}
		var b []byte
		for _, f := range fs {
			if k := fkey(f); drop[k] > 0 {
				drop[k]--
				continue
			}
			b = append(b, f.Bytes()...)
		}
		lg.match(c, "batch", fmt.Sprint("gated serverSide=", serverSide), chs, b)
	}
	if serverSide {
		p.Close()
		s.Stop()
	} else {
		closeConn(c, conn)
		p.Close()
		rs.ln.Close()
	}
}

// c07closed: what is refused because the connection is closed never reaches the peer.
func c07closed(c *C) {
	r := c.Rng
	rs := newRawServer(c)
	for k := 0; k < 15 && !c.Violated(); k++ {
		conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1, 50)}, nil)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		p := newRawPeer(c, rs.next())
		var okIDs sync.Map
		var refused int32
		sw, _, err := conn.StreamRequest(3, 0, nil)
		if err != nil {
			c.Violate("refused", "%v", err)
			return
		}
		okIDs.Store(sw.RequestID(), true)
		conn.Close()
		rngs := []*Rng{r.Fork(), r.Fork(), r.Fork()}
		c.Must("requests on a closed connection", parallel(3, func(i int) {
			for j := 0; j < 20; j++ {
				pl := []byte("refused")
				var err error
				switch rngs[i].Intn(3) {
				case 0:
					_, _, err = conn.Request(1, qrpc.NBFlag, pl)
				case 1:
					_, _, err = conn.StreamRequest(1, 0, pl)
				case 2:
					_, _, err = conn.Request(1, qrpc.PushFlag, pl)
				}
				if err == nil {
					c.Violate("accepted", "request on a closed connection returned success")
					return
				}
				atomic.AddInt32(&refused, 1)
			}
		}))
		c.Do("Wait of a closed connection", conn.Wait)
		sw.StartWrite(1)
		sw.WriteBytes([]byte("late"))
		if err := sw.EndWrite(true); err == nil {
			c.Violate("accepted", "stream write on a closed connection returned success")
		}
		c.MustUntil("end of the connection at the peer", p.Closed)
		for _, f := range p.Frames() {
			if _, ok := okIDs.Load(f.ID); !ok {
				c.Violate("wire-extra", "frame %v of a refused request reached the peer", f)
			}
		}
		c.Eval(fmt.Sprint("closed client", k))
		p.Close()
	}
	rs.ln.Close()
	// the server side
	got := make(chan *qrpc.ConnectionInfo, 1)
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		got <- q.ConnectionInfo()
		answer(w, q)
	}), WriteFrameChSize: r.Pick(1, 50)})
	for k := 0; k < 10 && !c.Violated(); k++ {
		p := dialRaw(c, s.Addrs[0])
		p.Send(WFrame{ID: 3, Flags: fNB, Cmd: 1})
		var ci *qrpc.ConnectionInfo
		c.Do("dispatch", func() { ci = <-got })
		c.MustUntil("answer", func() bool { return p.N() == 1 })
		ci.Close()
		for j := 0; j < 10; j++ {
			if _, _, err := ci.Request(1, 0, []byte("refused")); err == nil {
				c.Violate("accepted", "server request on a closed connection returned success")
			}
			w := ci.GetWriter()
			w.StartWrite(9, 1, qrpc.PushFlag)
			w.WriteBytes([]byte("refused"))
			if err := w.EndWrite(); err == nil {
				c.Violate("accepted", "push on a closed connection returned success")
			}
		}
		c.MustUntil("end of the connection at the peer", p.Closed)
		if p.N() != 1 {
			c.Violate("wire-extra", "frames of refused server requests reached the peer: %v", p.Frames())
		}
		c.Eval(fmt.Sprint("closed server", k))
		p.Close()
	}
	c.Sample("requests, streams, pushes and stream writes on closed connections, client and server side")
	s.Stop()
}
