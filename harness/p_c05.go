package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C05", MinEv: 1000,
		Rule: "one evaluation per frame found on the wire and matched with the one successful EndWrite that produced it (id, flags, command, payload bytes; nothing left over; order per writer); distinct = (side, transport behaviour, channel size, kind of frame, payload size bucket)",
		Jobs: []JobSpec{
			{Name: "server", Quick: 10, Deep: 80, Fn: c05server},
			{Name: "client", Quick: 8, Deep: 60, Fn: c05client},
			{Name: "slowtcp", Quick: 2, Deep: 16, Fn: c05slow},
		}})
}

type wlog struct {
	mu     sync.Mutex
	writes map[int][]WFrame // writer -> successful writes in order
	failed []WFrame
}

func newWlog() *wlog { return &wlog{writes: map[int][]WFrame{}} }

func (l *wlog) ok(writer int, f WFrame) {
	l.mu.Lock()
	l.writes[writer] = append(l.writes[writer], f)
	l.mu.Unlock()
}
func (l *wlog) total() (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, w := range l.writes {
		n += len(w)
	}
	return
}

func fkey(f WFrame) string {
	return fmt.Sprintf("%d/%x/%x/%d/%x", f.ID, f.Flags, f.Cmd, len(f.Payload), h64(f.Payload))
}

// match compares the wire with the log.
func (l *wlog) match(c *C, side, how string, ch int, wire []byte) {
	fs, rest, err := parseWire(wire)
	if err != nil || len(rest) != 0 {
		c.Violate("wire-format", "%s: the bytes on the wire are not a sequence of frames: err=%v, %d bytes left after %d frames: %s", side, err, len(rest), len(fs), brief(rest))
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	pos := map[string][]int{}
	for i, f := range fs {
		pos[fkey(f)] = append(pos[fkey(f)], i)
	}
	used := 0
	for w, list := range l.writes {
		last := -1
		for i, f := range list {
			k := fkey(f)
			if len(pos[k]) == 0 {
				c.Violate("wire-lost", "%s: frame %v (write %d of writer %d) returned success and is not on the wire (intact)", side, f, i, w)
				return
			}
			if len(pos[k]) > 1 {
				c.Violate("wire-dup", "%s: frame %v is %d times on the wire", side, f, len(pos[k]))
				return
			}
			at := pos[k][0]
			if at < last {
				c.Violate("wire-order", "%s: write %d of writer %d is on the wire before an earlier one of the same writer", side, i, w)
				return
			}
			last = at
			used++
			kind := "push"
			switch {
			case f.Flags&fPush != 0:
			case f.Flags&(fStream|fEnd) != 0:
				kind = "stream"
			case f.ID%2 == 0:
				kind = "srvreq"
			default:
				kind = "plain"
			}
			c.Eval(fmt.Sprint(side, how, ch, kind, bucket(len(f.Payload))))
		}
	}
	if used != len(fs) {
		known := map[string]bool{}
		for _, list := range l.writes {
			for _, f := range list {
				known[fkey(f)] = true
			}
		}
		for _, f := range fs {
			if !known[fkey(f)] {
				c.Violate("wire-extra", "%s: frame %v is on the wire but no successful write produced it", side, f)
				return
			}
		}
		c.Violate("wire-extra", "%s: %d frames on the wire, %d successful writes", side, len(fs), used)
	}
	c.Sample("%s over %s: %d frames of %d writers matched, %d bytes", side, how, len(fs), len(l.writes), len(wire))
}

func writePolicies(r *Rng, tap *Tap) (string, func(nc net.Conn) net.Conn) {
	switch r.Intn(5) {
	case 0:
		return "whole", func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap}) }
	case 1:
		return "pieces", func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, WChunk: r.Pick(60, 900, 3000)})
		}
	case 2:
		return "timeouts", func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, WChunk: r.Pick(100, 900, 3000), WTimeoutP: r.Pick(2, 3, 10)})
		}
	case 3:
		return "timeouts-whole", func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, WTimeoutP: 2})
		}
	}
	return "slow", func(nc net.Conn) net.Conn {
		return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, WChunk: 5000, WTimeoutP: 20, YieldP: 3})
	}
}

// c05server: handlers, pushers and server-side callers write at once on one connection.
func c05server(c *C) {
	r := c.Rng
	lg := newWlog()
	tap := &Tap{}
	how, wrap := writePolicies(r, tap)
	var wid int32
	var inHandler int32
	hr := r.Fork()
	put := func(writer int, w qrpc.FrameWriter, f WFrame) error {
		w.StartWrite(f.ID, qrpc.Cmd(f.Cmd), qrpc.FrameFlag(f.Flags))
		// in pieces
		p := f.Payload
		for len(p) > 0 {
			k := hr.Range(1, len(p))
			w.WriteBytes(p[:k])
			p = p[k:]
		}
		err := w.EndWrite()
		if err == nil {
			lg.ok(writer, f)
		}
		return err
	}
	got := make(chan *qrpc.ConnectionInfo, 1)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt32(&inHandler, 1)
		defer atomic.AddInt32(&inHandler, -1)
		me := int(atomic.AddInt32(&wid, 1))
		if q.Cmd == 0xCAFE {
			got <- q.ConnectionInfo()
		}
		n := 0
		if q.Cmd == 2 {
			n = hr.Range(1, 8)
		}
		for i := 0; i < n; i++ {
			f := WFrame{ID: q.RequestID, Flags: fStream, Cmd: uint32(hr.Intn(1 << 24)), Payload: gen(hr.Uint64(), pickSize(hr, false))}
			if err := put(me, w, f); err != nil {
				c.Violate("write-failed", "stream frame: %v", err)
				return
			}
		}
		f := WFrame{ID: q.RequestID, Cmd: uint32(hr.Intn(1 << 24)), Payload: gen(hr.Uint64(), pickSize(hr, true))}
		if n > 0 {
			f.Flags = fStream | fEnd
		}
		if hr.P(1, 6) {
			f.Flags |= fNB // legal, and to be kept
		}
		if err := put(me, w, f); err != nil {
			c.Violate("write-failed", "final frame: %v", err)
		}
	})
	scs := r.Pick(0, 1, 2, 5, 1000)
	s := startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn { return wrap(nc) }, qrpc.ServerBinding{Handler: h, WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 8)})
	p := dialRaw(c, s.Addrs[0])
	p.Send(WFrame{ID: 1, Flags: fNB, Cmd: 0xCAFE})
	ci := <-got
	var fs []WFrame
	for i := 0; i < 120; i++ {
		fs = append(fs, WFrame{ID: uint64(2*i + 3), Flags: byte(r.Pick(int(fNB), int(fNB), int(fNB), 0)), Cmd: uint32(r.Pick(1, 1, 2)), Payload: gen(r.Uint64(), 10)})
	}
	rngs := []*Rng{}
	for i := 0; i < 8; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(8, func(i int) {
		r := rngs[i]
		me := 100000 + i
		switch {
		case i == 0: // feeds the requests
			for k := 0; k < len(fs); {
				n := r.Range(1, 20)
				if k+n > len(fs) {
					n = len(fs) - k
				}
				p.Send(fs[k : k+n]...)
				k += n
			}
		case i < 5: // pushes, one writer each
			w := ci.GetWriter()
			for k := 0; k < 60; k++ {
				f := WFrame{ID: uint64(1e9) + uint64(i)*1e6 + uint64(k), Flags: fPush, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), pickSize(r, true))}
				if err := put(me, w, f); err != nil {
					c.Violate("write-failed", "push: %v", err)
					return
				}
			}
		default: // server requests
			for k := 0; k < 40; k++ {
				pl := gen(r.Uint64(), pickSize(r, false))
				cmd := uint32(r.Intn(1 << 24))
				id, _, err := ci.Request(qrpc.Cmd(cmd), 0, pl)
				if err != nil {
					c.Violate("write-failed", "server request: %v", err)
					return
				}
				lg.ok(me, WFrame{ID: id, Flags: fNB, Cmd: cmd, Payload: pl})
			}
		}
	})
	if !c.waitAtLeast(done, 60*time.Second, 4000) {
		c.StallAbort("concurrent writers")
	}
	c.MustUntil("handlers of concurrent writers", func() bool {
		return int(atomic.LoadInt32(&wid)) == len(fs)+1 && atomic.LoadInt32(&inHandler) == 0 || c.Violated()
	})
	if !c.Violated() {
		// what the peer received is what was put on the wire
		n := lg.total()
		c.MustUntil("frames reaching the peer", func() bool { return p.N() >= n || p.Closed() })
		c.Settle(3)
		lg.match(c, "server", how, scs, tap.Bytes())
		l2 := len(p.Frames())
		if l2 != n {
			c.Violate("wire-extra", "the peer received %d frames, %d were written", l2, n)
		}
	}
	p.Close()
	s.Stop()
}

// rawServer accepts sockets and speaks the wire format.
type rawServer struct {
	c   *C
	ln  net.Listener
	acc chan net.Conn
}

func newRawServer(c *C) *rawServer {
	s := &rawServer{c: c, ln: newListener(), acc: make(chan net.Conn, 100)}
	go func() {
		for {
			nc, err := s.ln.Accept()
			if err != nil {
				return
			}
			s.acc <- nc
		}
	}()
	return s
}

func (s *rawServer) addr() string { return s.ln.Addr().String() }
func (s *rawServer) next() (nc net.Conn) {
	got := make(chan struct{})
	go func() { nc = <-s.acc; close(got) }()
	s.c.Must("connection to the raw server", got)
	return
}

// c05client: requests, streams and pushes of a client written from many goroutines.
func c05client(c *C) {
	r := c.Rng
	lg := newWlog()
	tap := &Tap{}
	how, wrap := writePolicies(r, tap)
	rs := newRawServer(c)
	ccs := r.Pick(0, 1, 2, 5, 1000)
	conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{WriteFrameChSize: ccs, OverlayNetwork: overlayWith(wrap)}, nil)
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	p := newRawPeer(c, rs.next())
	rngs := []*Rng{}
	for i := 0; i < 10; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(10, func(i int) {
		r := rngs[i]
		for k := 0; k < 40 && !c.Violated(); k++ {
			cmd, pl := uint32(r.Intn(1<<24)), gen(r.Uint64(), pickSize(r, true))
			if i < 5 {
				flags := byte(r.Pick(0, int(fNB), int(fNB), int(fPush), int(fPush|fNB)))
				id, resp, err := conn.Request(qrpc.Cmd(cmd), qrpc.FrameFlag(flags), pl)
				if err != nil {
					c.Violate("write-failed", "request: %v", err)
					return
				}
				if (resp == nil) != (flags&fPush != 0) {
					c.Violate("push-resp", "flags %#x: response object %v", flags, resp)
				}
				lg.ok(i, WFrame{ID: id, Flags: flags, Cmd: cmd, Payload: pl})
				continue
			}
			fl := byte(r.Pick(0, 0, int(fNB), int(fEnd)))
			sw, _, err := conn.StreamRequest(qrpc.Cmd(cmd), qrpc.FrameFlag(fl), pl)
			if err != nil {
				c.Violate("write-failed", "stream: %v", err)
				return
			}
			lg.ok(i, WFrame{ID: sw.RequestID(), Flags: fl | fStream, Cmd: cmd, Payload: pl})
			if fl&fEnd != 0 {
				continue
			}
			n := r.Range(1, 6)
			for j := 0; j < n; j++ {
				cmd, pl := uint32(r.Intn(1<<24)), gen(r.Uint64(), pickSize(r, false))
				sw.StartWrite(qrpc.Cmd(cmd))
				if len(pl) > 0 {
					k := r.Intn(len(pl))
					sw.WriteBytes(pl[:k])
					sw.WriteBytes(pl[k:])
				}
				end := j == n-1
				if err := sw.EndWrite(end); err != nil {
					c.Violate("write-failed", "stream frame: %v", err)
					return
				}
				f := WFrame{ID: sw.RequestID(), Flags: fStream | fl, Cmd: cmd, Payload: pl}
				if end {
					f.Flags |= fEnd
				}
				lg.ok(i, f)
			}
		}
	})
	if !c.waitAtLeast(done, 60*time.Second, 4000) {
		c.StallAbort("concurrent writers of a client")
	}
	if !c.Violated() {
		n := lg.total()
		c.MustUntil("frames reaching the peer", func() bool { return p.N() >= n || p.Closed() })
		c.Settle(3)
		lg.match(c, "client", how, ccs, tap.Bytes())
		if l2 := p.N(); l2 != n {
			c.Violate("wire-extra", "the peer received %d frames, %d were written", l2, n)
		}
	}
	closeConn(c, conn)
	p.Close()
	rs.ln.Close()
}

// c05slow: real sockets (writev), small buffers, a peer that reads in fits and starts for longer than one
// write slice.
func c05slow(c *C) {
	r := c.Rng
	lg := newWlog()
	got := make(chan *qrpc.ConnectionInfo, 1)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		got <- q.ConnectionInfo()
		answer(w, q)
	})
	scs := r.Pick(1, 7, 1000)
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, WriteFrameChSize: scs, WBufSize: 16384})
	nc, err := netDial(s.Addrs[0], 10*time.Second)
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	nc.(*net.TCPConn).SetReadBuffer(16384)
	first := WFrame{ID: 1, Flags: fNB, Cmd: 0x77}
	nc.Write(first.Bytes())
	ci := <-got
	rc, rp := respFor(0x77, nil)
	lg.ok(0, WFrame{ID: 1, Cmd: rc, Payload: rp})
	tap := &Tap{}
	var stop int32
	readerDone := make(chan struct{})
	rr := r.Fork()
	go func() {
		defer close(readerDone)
		b := make([]byte, 30000)
		pauses := 0
		for {
			n, err := nc.Read(b[:rr.Range(1, len(b))])
			tap.add(b[:n])
			if err != nil {
				return
			}
			if pauses < 12 && atomic.LoadInt32(&stop) == 0 && rr.P(1, 60) {
				pauses++
				time.Sleep(time.Duration(rr.Range(1, 300)) * time.Millisecond)
			}
		}
	}()
	// one pause longer than the library's internal write slice of 3 s
	var n32 int32
	rngs := []*Rng{}
	for i := 0; i < 6; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(6, func(i int) {
		w := ci.GetWriter()
		r := rngs[i]
		for k := 0; k < 40 && !c.Violated(); k++ {
			f := WFrame{ID: uint64(i)*1e6 + uint64(k), Flags: fPush, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), r.Pick(0, 10, 1008, 4096, 20000))}
			w.StartWrite(f.ID, qrpc.Cmd(f.Cmd), qrpc.PushFlag)
			w.WriteBytes(f.Payload)
			if err := w.EndWrite(); err != nil {
				c.Violate("write-failed", "push to a slow reader: %v", err)
				return
			}
			lg.ok(i+1, f)
			atomic.AddInt32(&n32, 1)
		}
	})
	if !c.waitAtLeast(done, 80*time.Second, 4000) {
		c.StallAbort("writers to a slow reader")
	}
	atomic.StoreInt32(&stop, 1)
	want := 0
	lg.mu.Lock()
	for _, l := range lg.writes {
		for _, f := range l {
			want += 16 + len(f.Payload)
		}
	}
	lg.mu.Unlock()
	c.MustUntil("bytes reaching the slow reader", func() bool { return tap.Len() >= want || c.Violated() || closedCh(readerDone) })
	c.Settle(3)
	if !c.Violated() {
		lg.match(c, "server", "slow real socket", scs, tap.Bytes())
	}
	nc.Close()
	s.Stop()
}
