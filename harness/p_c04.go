package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C04", MinEv: 500,
		Rule: "one evaluation per stream direction checked frame by frame (command, flags, payload, count, end) against the sequence both ends derive from the stream's tag; distinct = (initiator, direction, frames, half-close order, end style, transport policy, channel sizes)",
		Jobs: []JobSpec{
			{Name: "duplex", Quick: 10, Deep: 80, Fn: c04duplex},
			{Name: "raw", Quick: 6, Deep: 50, Fn: c04raw},
			{Name: "reuse", Quick: 3, Deep: 20, Fn: c04reuse},
			{Name: "held", Quick: 3, Deep: 20, Fn: c04held},
		}})
}

// spec of one stream, a function of its tag (the first 8 payload bytes of its first frame)
type sspec struct {
	tag      uint64
	req, ans int  // frames after the first, per direction
	emptyEnd bool // the end is a frame of its own
	order    int  // 0 both at once, 1 answer only after the request stream ended, 2 request continues after the answer ended
	oneShot  bool // the first frame ends the request direction
}

func specOf(tag uint64) sspec {
	h := mix(tag, 77)
	s := sspec{tag: tag, req: int(h % 9), ans: int((h >> 8) % 9), emptyEnd: h&(1<<20) != 0, order: int((h >> 24) % 3)}
	if (h>>32)%16 == 0 {
		s.req = 40
	}
	if (h>>36)%16 == 0 {
		s.ans = 60
	}
	s.oneShot = (h>>40)%8 == 0
	if s.oneShot {
		s.req = 0
	}
	return s
}

func (s sspec) frame(dir string, i int) (cmd uint32, p []byte) {
	h := mix(s.tag, uint64(dir[0]), uint64(i))
	cmd = uint32(h>>3) & 0xffffff
	n := smallSizes[(h>>33)%uint64(len(smallSizes))]
	if (h>>50)%40 == 0 {
		n = 70000
	}
	return cmd, gen(h, n)
}

// feed writes the frames 1..n and the end of one direction.
func (s sspec) feed(dir string, n int, put func(cmd uint32, p []byte, end bool) error) error {
	for i := 1; i <= n; i++ {
		cmd, p := s.frame(dir, i)
		if err := put(cmd, p, i == n && !s.emptyEnd); err != nil {
			return fmt.Errorf("frame %d of %d: %v", i, n, err)
		}
	}
	if n == 0 || s.emptyEnd {
		if err := put(uint32(s.tag)&0xffff, nil, true); err != nil {
			return fmt.Errorf("end frame: %v", err)
		}
	}
	return nil
}

// expect reads the frames 1..n and the end of one direction; first is the frame the channel hangs on.
func (s sspec) expect(c *C, who, dir string, first *qrpc.Frame, n int) {
	total := n
	if n == 0 || s.emptyEnd {
		total++
	}
	ch := first.FrameCh()
	for i := 1; i <= total; i++ {
		f := c.nextFrame("frame "+who+" of a stream", ch)
		if f == nil {
			c.Violate("stream-short", "%s stream id=%d tag=%x: ended after %d of %d frames", who, first.RequestID, s.tag, i-1, total)
			return
		}
		cmd, p := uint32(s.tag)&0xffff, []byte(nil)
		if i <= n {
			cmd, p = s.frame(dir, i)
		}
		if f.RequestID != first.RequestID || uint32(f.Cmd) != cmd || !same(f.Payload, p) {
			c.Violate("stream-frame", "%s stream id=%d tag=%x: frame %d is id=%d cmd=%#x %s, want cmd=%#x %s (differs at %d)", who, first.RequestID, s.tag, i, f.RequestID, f.Cmd, brief(f.Payload), cmd, brief(p), diffAt(f.Payload, p))
			return
		}
		end := i == total
		if !f.Flags.IsStream() || f.Flags.IsDone() != end || f.Flags.IsPush() || f.Flags.IsRst() {
			c.Violate("stream-flags", "%s stream id=%d: frame %d of %d has flags %#x", who, first.RequestID, i, total, f.Flags)
		}
	}
	if f := c.nextFrame("end "+who+" of a stream", ch); f != nil {
		c.Violate("stream-long", "%s stream id=%d tag=%x: frame after the end: cmd=%#x %s", who, first.RequestID, s.tag, f.Cmd, brief(f.Payload))
	}
}

func tagOf(p []byte) uint64 {
	var t uint64
	for i := 0; i < 8 && i < len(p); i++ {
		t = t<<8 | uint64(p[i])
	}
	return t
}

func endFlag(end bool) qrpc.FrameFlag {
	if end {
		return qrpc.StreamFlag | qrpc.StreamEndFlag
	}
	return qrpc.StreamFlag
}

// serveStream is the handling side of a stream; first is its first frame.
func serveStream(c *C, who string, w qrpc.FrameWriter, first *qrpc.Frame, rng *Rng) {
	s := specOf(tagOf(first.Payload))
	if first.Flags.IsDone() != s.oneShot {
		c.Violate("stream-flags", "%s first frame id=%d has flags %#x, one-shot=%v", who, first.RequestID, first.Flags, s.oneShot)
	}
	read := func() {
		if s.oneShot {
			if f := c.nextFrame("end of a one-frame request", first.FrameCh()); f != nil {
				c.Violate("stream-long", "%s one-frame request id=%d has another frame", who, first.RequestID)
			}
			return
		}
		s.expect(c, who+" request", "q", first, s.req)
	}
	write := func() {
		cmd, p := s.frame("a", 0)
		put := func(cmd uint32, p []byte, end bool) error {
			w.StartWrite(first.RequestID, qrpc.Cmd(cmd), endFlag(end))
			w.WriteBytes(p)
			return w.EndWrite()
		}
		if err := put(cmd, p, false); err != nil {
			c.writeFailed("stream-write", err, "%s answer of id=%d, first frame", who, first.RequestID)
			return
		}
		if err := s.feed("a", s.ans, put); err != nil {
			c.writeFailed("stream-write", err, "%s answer of id=%d", who, first.RequestID)
		}
	}
	if s.order == 1 {
		read()
		write()
		return
	}
	// 0 and 2: read while writing; nobody may be held up by our not reading
	done := make(chan struct{})
	go func() { defer close(done); read() }()
	write()
	<-done
}

// runStream is the opening side.
func runStream(c *C, who string, open qrpc.StreamInitiator, tag uint64, size int) (s sspec, ok bool) {
	s = specOf(tag)
	p := gen(tag, 8+size)
	flags := qrpc.FrameFlag(0)
	if s.oneShot {
		flags = qrpc.StreamEndFlag
	}
	var sw qrpc.StreamWriter
	var resp qrpc.Response
	var err error
	c.Do("open a stream", func() { sw, resp, err = open.StreamRequest(qrpc.Cmd(0x5700|uint32(tag)&0xff), flags, p) })
	if err != nil {
		c.Violate("stream-open", "%s StreamRequest: %v", who, err)
		return s, false
	}
	id := sw.RequestID()
	answerDone := make(chan struct{})
	recv := func() {
		defer close(answerDone)
		f, err := c.getFrame("first frame of a streamed answer", resp)
		if err != nil {
			c.Violate("stream-answer", "%s stream tag=%x: %v", who, tag, err)
			return
		}
		cmd, pp := s.frame("a", 0)
		if uint32(f.Cmd) != cmd || !same(f.Payload, pp) || f.RequestID != id {
			c.Violate("stream-frame", "%s stream tag=%x id=%d: first answer id=%d cmd=%#x %s, want %#x %s", who, tag, id, f.RequestID, f.Cmd, brief(f.Payload), cmd, brief(pp))
			return
		}
		s.expect(c, who+" answer", "a", f, s.ans)
	}
	go recv()
	if !s.oneShot {
		if s.order == 2 {
			// the answer has ended before the rest of the request is sent
			<-answerDone
		}
		c.Do("write a request stream", func() {
			err = s.feed("q", s.req, func(cmd uint32, p []byte, end bool) error {
				sw.StartWrite(qrpc.Cmd(cmd))
				sw.WriteBytes(p)
				return sw.EndWrite(end)
			})
		})
		if err != nil {
			c.Violate("stream-write", "%s request of tag=%x: %v", who, tag, err)
		}
	}
	<-answerDone
	return s, !c.Violated()
}

// c04duplex: streams opened by the client and by the server, many at once, with plain requests among them.
func c04duplex(c *C) {
	r := c.Rng
	pol, wrap := chunkPolicy(r)
	var swrap func(int, net.Conn) net.Conn
	if wrap != nil && r.P(2, 3) {
		swrap = func(_ int, nc net.Conn) net.Conn { return wrap(nc) }
	}
	got := make(chan *qrpc.ConnectionInfo, 1)
	var running int32
	mk := func(who string) qrpc.Handler {
		hr := r.Fork()
		return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			atomic.AddInt32(&running, 1)
			defer atomic.AddInt32(&running, -1)
			if q.Cmd == 0xCAFE {
				got <- q.ConnectionInfo()
				answer(w, q)
				return
			}
			if q.Flags.IsStream() {
				serveStream(c, who, w, (*qrpc.Frame)(q), hr)
				return
			}
			answer(w, q)
		})
	}
	scs, ccs, rcs := r.Pick(0, 1, 3, 1000), r.Pick(0, 1, 3, 1000), r.Pick(0, 0, 4)
	s := startServer(c, "tcp", swrap, qrpc.ServerBinding{Handler: mk("server"), WriteFrameChSize: scs, ReadFrameChSize: rcs})
	conf := qrpc.ConnectionConfig{WriteFrameChSize: ccs, Handler: mk("client")}
	if wrap != nil {
		conf.OverlayNetwork = overlayWith(wrap)
	}
	conn := s.dial(conf, nil)
	c.call(conn, 0xCAFE, qrpc.NBFlag, nil)
	ci := <-got
	workers := r.Range(2, 12)
	rngs := make([]*Rng, 2*workers)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	done := parallel(2*workers, func(i int) {
		r := rngs[i]
		var open qrpc.StreamInitiator = conn
		who := "client"
		if i%2 == 1 {
			open, who = ci, "server"
		}
		for k := 0; k < 8 && !c.Violated(); k++ {
			if r.P(1, 4) {
				c.probe(conn, "request-among-streams", "plain request among streams")
			}
			sp, ok := runStream(c, who, open, r.Uint64(), r.Pick(0, 5, 1000, 5000))
			if ok {
				for _, d := range []string{"req", "ans"} {
					n := sp.req
					if d == "ans" {
						n = sp.ans
					}
					c.Eval(fmt.Sprint(who, d, n, sp.order, sp.emptyEnd, sp.oneShot, pol, scs, ccs))
				}
				c.Count("stream_frames", int64(sp.req+sp.ans+2))
				c.Sample("%s stream tag=%x req=%d ans=%d order=%d emptyEnd=%v oneShot=%v over %s", who, sp.tag, sp.req, sp.ans, sp.order, sp.emptyEnd, sp.oneShot, pol)
			}
		}
	})
	if !c.waitAtLeast(done, 70*time.Second, 4000) {
		c.StallAbort("duplex streams")
	}
	c.MustUntil("handlers of finished streams", func() bool { return atomic.LoadInt32(&running) == 0 || c.Violated() })
	closeConn(c, conn)
	s.Stop()
}

// c04raw: frames of several streams, plain requests and pushes interleaved in one byte string.
func c04raw(c *C) {
	r := c.Rng
	var mu sync.Mutex
	type seen struct {
		frames []WFrame
		ended  bool
	}
	got := map[uint64]*seen{}
	var pushes []WFrame
	var over int32
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		se := &seen{frames: []WFrame{{ID: q.RequestID, Flags: byte(q.Flags), Cmd: uint32(q.Cmd), Payload: q.Payload}}}
		mu.Lock()
		if got[q.RequestID] != nil {
			c.Violate("dispatched-twice", "two handler runs for stream %d", q.RequestID)
		}
		got[q.RequestID] = se
		mu.Unlock()
		if q.Flags.IsStream() {
			for f := range q.FrameCh() {
				mu.Lock()
				se.frames = append(se.frames, WFrame{ID: f.RequestID, Flags: byte(f.Flags), Cmd: uint32(f.Cmd), Payload: f.Payload})
				mu.Unlock()
			}
		}
		mu.Lock()
		se.ended = true
		mu.Unlock()
		answer(w, q)
		atomic.AddInt32(&over, 1)
	})
	sub := func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) {
		mu.Lock()
		pushes = append(pushes, WFrame{ID: f.RequestID, Flags: byte(f.Flags), Cmd: uint32(f.Cmd), Payload: f.Payload})
		mu.Unlock()
	}
	wrapR := r.Fork()
	chunk := r.Pick(0, 1, 7, 40, 2000)
	s := startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn {
		if chunk == 0 {
			return nc
		}
		return wrapConn(nc, Policy{Rng: wrapR, RChunk: chunk})
	}, qrpc.ServerBinding{Handler: h, SubFunc: sub, ReadFrameChSize: r.Pick(0, 2), WriteFrameChSize: r.Pick(1, 100)})
	p := dialRaw(c, s.Addrs[0])
	rounds := 10
	id := uint64(1)
	for round := 0; round < rounds && !c.Violated(); round++ {
		n := r.Range(1, 12)
		var plans [][]WFrame
		for i := 0; i < n; i++ {
			id += 2
			kind := r.Intn(4)
			var fs []WFrame
			switch kind {
			case 0: // plain
				fs = []WFrame{{ID: id, Flags: fNB, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), pickSize(r, false))}}
			case 1: // push, sometimes with the id of the next stream
				fs = []WFrame{{ID: id + uint64(r.Pick(0, 2)), Flags: fPush, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), r.Pick(0, 9, 300))}}
			default:
				m := r.Pick(1, 2, 3, 10, 25)
				for k := 0; k < m; k++ {
					fl := fStream
					if r.P(1, 3) {
						fl |= fNB
					}
					if k == m-1 {
						fl |= fEnd
						if r.P(1, 3) {
							fl &^= fStream // the end flag alone says it too
						}
					}
					fs = append(fs, WFrame{ID: id, Flags: fl, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), r.Pick(0, 1, 30, 1000, 1024, 3000))})
				}
			}
			plans = append(plans, fs)
		}
		mu.Lock()
		pushes = nil
		got = map[uint64]*seen{}
		mu.Unlock()
		atomic.StoreInt32(&over, 0)
		var wantPush []WFrame
		want := map[uint64][]WFrame{}
		idx := make([]int, n)
		left := 0
		for _, fs := range plans {
			left += len(fs)
		}
		var b []byte
		for left > 0 {
			i := r.Intn(n)
			if idx[i] >= len(plans[i]) {
				continue
			}
			f := plans[i][idx[i]]
			idx[i]++
			left--
			if f.Flags&fPush != 0 {
				wantPush = append(wantPush, f)
			} else {
				want[f.ID] = append(want[f.ID], f)
			}
			b = append(b, f.Bytes()...)
		}
		if r.P(1, 2) {
			p.nc.Write(b)
		} else {
			for len(b) > 0 {
				k := r.Range(1, 900)
				if k > len(b) {
					k = len(b)
				}
				p.nc.Write(b[:k])
				b = b[k:]
			}
		}
		c.MustUntil("handlers of interleaved streams", func() bool {
			mu.Lock()
			defer mu.Unlock()
			return int(atomic.LoadInt32(&over)) == len(want) && len(pushes) >= len(wantPush) || c.Violated() || p.Closed()
		})
		if p.Closed() {
			c.Violate("conn-lost", "the server ended the connection: %v", p.Err())
			return
		}
		mu.Lock()
		for id, fs := range want {
			se := got[id]
			if se == nil {
				c.Violate("missing", "stream %d was not dispatched", id)
				continue
			}
			if len(se.frames) != len(fs) {
				c.Violate("stream-count", "stream %d delivered %d frames, %d sent", id, len(se.frames), len(fs))
				continue
			}
			for i := range fs {
				if g, w := se.frames[i], fs[i]; g.ID != w.ID || g.Flags != w.Flags || g.Cmd != w.Cmd || !same(g.Payload, w.Payload) {
					c.Violate("stream-frame", "stream %d frame %d: got %v, sent %v", id, i, g, w)
					break
				}
			}
			c.Eval(fmt.Sprint("raw", len(fs), fs[0].Flags, n, chunk))
		}
		if len(pushes) != len(wantPush) {
			c.Violate("push-count", "%d pushes delivered, %d sent", len(pushes), len(wantPush))
		} else {
			for i := range pushes {
				if g, w := pushes[i], wantPush[i]; g.ID != w.ID || g.Cmd != w.Cmd || !same(g.Payload, w.Payload) {
					c.Violate("push-frame", "push %d: got %v, sent %v", i, g, w)
				}
			}
		}
		mu.Unlock()
	}
	p.Close()
	s.Stop()
}

// c04reuse: ids of finished streams are used again at once, at either end of the answer.
func c04reuse(c *C) {
	r := c.Rng
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Flags.IsStream() {
			serveStream(c, "server", w, (*qrpc.Frame)(q), c.Rng)
			return
		}
		answer(w, q)
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, ReadFrameChSize: r.Pick(0, 2), WriteFrameChSize: r.Pick(1, 100)})
	p := dialRaw(c, s.Addrs[0])
	const id = 7
	for k := 0; k < 120 && !c.Violated(); k++ {
		tag := r.Uint64()
		sp := specOf(tag)
		first := WFrame{ID: id, Flags: fStream, Cmd: 0x5701, Payload: gen(tag, 8+r.Pick(0, 2000))}
		if sp.oneShot {
			first.Flags |= fEnd
		}
		fs := []WFrame{first}
		if !sp.oneShot {
			sp.feed("q", sp.req, func(cmd uint32, p []byte, end bool) error {
				fl := fStream
				if end {
					fl |= fEnd
				}
				fs = append(fs, WFrame{ID: id, Flags: fl, Cmd: cmd, Payload: p})
				return nil
			})
		}
		from := p.N()
		p.Send(fs...)
		want := sp.ans + 1
		if sp.ans == 0 || sp.emptyEnd {
			want++
		}
		c.MustUntil("answer on a reused id", func() bool { return p.N() >= from+want || p.Closed() || c.Violated() })
		got := p.Frames()[from:]
		if len(got) != want {
			c.Violate("stream-count", "reused id: %d answer frames, want %d", len(got), want)
			return
		}
		for i, g := range got {
			cmd, pp := uint32(tag)&0xffff, []byte(nil)
			if i <= sp.ans {
				cmd, pp = sp.frame("a", i)
			}
			if g.ID != id || g.Cmd != cmd || !same(g.Payload, pp) {
				c.Violate("stream-frame", "reused id, stream %d: answer frame %d is %v", k, i, g)
			}
			if (g.Flags&fEnd != 0) != (i == want-1) {
				c.Violate("stream-flags", "reused id: frame %d of %d has flags %#x", i, want, g.Flags)
			}
		}
		c.Eval(fmt.Sprint("reuse", sp.req, sp.ans, sp.emptyEnd, sp.oneShot))
	}
	p.Close()
	s.Stop()
}

// c04held: the reading side takes its time; nothing is dropped, and the end is seen only after the last frame.
func c04held(c *C) {
	r := c.Rng
	gate := make(chan struct{})
	type obs struct{ n, bad int }
	res := make(chan obs, 64)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if !q.Flags.IsStream() {
			answer(w, q)
			return
		}
		<-gate
		o := obs{}
		for f := range q.FrameCh() {
			if tagOf(f.Payload) != mix(tagOf(q.Payload), uint64(o.n)) {
				o.bad++
			}
			o.n++
			if o.n%7 == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		res <- o
		answer(w, q)
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, WriteFrameChSize: r.Pick(1, 100)})
	n := r.Pick(1, 30, 200)
	k := r.Range(1, 4)
	var conns []*qrpc.Connection
	var resps []qrpc.Response
	var writers []<-chan struct{}
	for i := 0; i < k; i++ {
		// one connection each: an unread stream holds up its own connection only
		conn := s.dial(qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 100)}, nil)
		conns = append(conns, conn)
		tag := r.Uint64()
		sw, resp, err := conn.StreamRequest(5, 0, gen(tag, 8))
		if err != nil {
			c.Violate("stream-open", "%v", err)
			return
		}
		resps = append(resps, resp)
		done := make(chan struct{})
		rr := r.Fork()
		go func() {
			defer close(done)
			for j := 0; j < n; j++ {
				sw.StartWrite(5)
				sw.WriteBytes(gen(mix(tag, uint64(j)), rr.Pick(8, 100, 20000)))
				if err := sw.EndWrite(j == n-1); err != nil {
					c.Violate("stream-write", "held stream: %v", err)
					return
				}
			}
		}()
		writers = append(writers, done)
	}
	c.Settle(int64(r.Pick(1, 10, 60)))
	close(gate)
	for i := range conns {
		c.Must("writer of a held stream", writers[i])
		f, err := c.getFrame("answer of a held stream", resps[i])
		if err != nil {
			c.Violate("stream-answer", "held stream: %v %v", f, err)
		}
		o := <-res
		if o.n != n || o.bad != 0 {
			c.Violate("stream-count", "held stream: %d of %d frames, %d wrong", o.n, n, o.bad)
		}
		c.Eval(fmt.Sprint("held", n, k))
	}
	for _, conn := range conns {
		closeConn(c, conn)
	}
	s.Stop()
}
