package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C06", MinEv: 300,
		Rule: "one evaluation per connection whose byte stream was delivered under one read segmentation (or with one malformed frame) and compared with an independent decoding of the same bytes; distinct = (side, what the bytes are, segmentation, malformed size, position)",
		Jobs: []JobSpec{
			{Name: "split", Quick: 6, Deep: 40, Fn: c06split},
			{Name: "malformed", Quick: 4, Deep: 30, Fn: c06malformed},
			{Name: "limit", Quick: 2, Deep: 8, Fn: c06limit},
			{Name: "garbage", Quick: 6, Deep: 60, Fn: c06garbage},
			{Name: "client", Quick: 5, Deep: 40, Fn: c06client},
		}})
}

// planConn delivers the bytes in exactly the planned read sizes (then freely).
type planConn struct {
	*fconn
	mu   sync.Mutex
	plan []int
}

func (p *planConn) Read(b []byte) (int, error) {
	p.mu.Lock()
	n := 0
	if len(p.plan) > 0 {
		n = p.plan[0]
	}
	p.mu.Unlock()
	if n <= 0 {
		return p.fconn.Read(b)
	}
	if n > len(b) {
		n = len(b)
	}
	// exactly n bytes if the peer sends them
	got := 0
	for got < n {
		k, err := p.fconn.Read(b[got:n])
		got += k
		if err != nil {
			if got > 0 {
				break
			}
			return 0, err
		}
	}
	p.mu.Lock()
	p.plan[0] -= got
	if p.plan[0] <= 0 {
		p.plan = p.plan[1:]
	}
	p.mu.Unlock()
	return got, nil
}

// recorder is a server handler and subscriber that logs what is delivered, per connection.
type recorder struct {
	mu  sync.Mutex
	got map[string][]WFrame
	n   map[string]*int32
}

func newRecorder() *recorder {
	return &recorder{got: map[string][]WFrame{}}
}

func (rc *recorder) add(addr string, f WFrame) {
	rc.mu.Lock()
	rc.got[addr] = append(rc.got[addr], f)
	rc.mu.Unlock()
}
func (rc *recorder) of(addr string) []WFrame {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	return append([]WFrame(nil), rc.got[addr]...)
}

func toW(f *qrpc.Frame) WFrame {
	return WFrame{ID: f.RequestID, Flags: byte(f.Flags), Cmd: uint32(f.Cmd), Payload: f.Payload}
}

func (rc *recorder) handler() qrpc.Handler {
	return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		a := q.ConnectionInfo().RemoteAddr()
		rc.add(a, toW((*qrpc.Frame)(q)))
		if q.Flags.IsStream() {
			for f := range q.FrameCh() {
				rc.add(a, toW(f))
			}
		}
		answer(w, q)
	})
}

func (rc *recorder) sub() qrpc.ServerSubFunc {
	return func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { rc.add(ci.RemoteAddr(), toW(f)) }
}

// sameSet compares delivered frames with sent ones; blocking requests and stream frames keep their order per id,
// different ids may be handled at the same time.
func sameFrames(c *C, what string, got, want []WFrame) bool {
	byID := func(fs []WFrame) map[string][]WFrame {
		m := map[string][]WFrame{}
		for _, f := range fs {
			k := fmt.Sprint(f.ID, f.Flags&fPush)
			m[k] = append(m[k], f)
		}
		return m
	}
	g, w := byID(got), byID(want)
	for k, ws := range w {
		gs := g[k]
		if len(gs) != len(ws) {
			c.Violate("frames", "%s: id %s: %d frames delivered, %d sent", what, k, len(gs), len(ws))
			return false
		}
		for i := range ws {
			if gs[i].Flags != ws[i].Flags || gs[i].Cmd != ws[i].Cmd || !same(gs[i].Payload, ws[i].Payload) {
				c.Violate("frames", "%s: delivered %v, sent %v", what, gs[i], ws[i])
				return false
			}
		}
	}
	for k, gs := range g {
		if len(w[k]) == 0 {
			c.Violate("frames", "%s: frame nobody sent was delivered: %v", what, gs[0])
			return false
		}
	}
	return true
}

func someFrames(r *Rng, n int, big bool) (fs []WFrame) {
	id := uint64(r.Pick(1, 1001, 1<<40+1))
	for len(fs) < n {
		id += 2
		pl := func() []byte {
			if big {
				return gen(r.Uint64(), pickSize(r, false))
			}
			return gen(r.Uint64(), r.Pick(0, 1, 2, 5, 17, 30))
		}
		switch r.Intn(7) {
		case 5: // of a stream that doesn't exist: not delivered, but skipped whole
			fs = append(fs, WFrame{ID: id, Flags: byte(r.Pick(int(fRst), int(fRst), int(fRst|fNB), int(fRst|fStream), int(fRst|fPush))), Cmd: uint32(r.Intn(1 << 24)), Payload: pl()})
		case 0:
			fs = append(fs, WFrame{ID: id, Flags: fPush, Cmd: uint32(r.Intn(1 << 24)), Payload: pl()})
		case 1:
			m := r.Range(2, 4)
			for k := 0; k < m; k++ {
				f := WFrame{ID: id, Flags: fStream, Cmd: uint32(r.Intn(1 << 24)), Payload: pl()}
				if k == m-1 {
					f.Flags |= fEnd
				}
				fs = append(fs, f)
			}
		case 2:
			fs = append(fs, WFrame{ID: id, Cmd: uint32(r.Intn(1 << 24)), Payload: pl()})
		default:
			fs = append(fs, WFrame{ID: id, Flags: fNB, Cmd: uint32(r.Intn(1 << 24)), Payload: pl()})
		}
	}
	return
}

// delivered are the frames that are handed to somebody.
func delivered(fs []WFrame) (d []WFrame) {
	for _, f := range fs {
		if f.Flags&fRst == 0 {
			d = append(d, f)
		}
	}
	return
}

func wireOf(fs []WFrame) (b []byte) {
	for _, f := range fs {
		b = append(b, f.Bytes()...)
	}
	return
}

// answered tells how many response frames a recorder server gives to fs.
func answered(fs []WFrame) int {
	m := map[uint64]bool{}
	for _, f := range fs {
		if f.Flags&(fPush|fRst) == 0 {
			m[f.ID] = true
		}
	}
	return len(m)
}

// c06split: the same bytes, cut at every offset (one cut), byte by byte, and randomly.
func c06split(c *C) {
	r := c.Rng
	rec := newRecorder()
	var plans sync.Map // accept index -> plan
	var nth int32
	s := startServer(c, "tcp", func(i int, nc net.Conn) net.Conn {
		v, ok := plans.Load(i)
		if !ok {
			return nc
		}
		return &planConn{fconn: wrapConn(nc, Policy{}), plan: v.([]int)}
	}, qrpc.ServerBinding{Handler: rec.handler(), SubFunc: rec.sub(), ReadFrameChSize: r.Pick(0, 3), WriteFrameChSize: 4, MaxFrameSize: 1 << 20})
	type tc struct {
		how  string
		fs   []WFrame
		plan []int
	}
	var cases []tc
	small := someFrames(r, r.Range(3, 6), false)
	total := len(wireOf(small))
	for k := 1; k < total; k++ {
		cases = append(cases, tc{fmt.Sprint("cut@", k), small, []int{k}})
	}
	ones := make([]int, total)
	for i := range ones {
		ones[i] = 1
	}
	cases = append(cases, tc{"bytewise", small, ones})
	for k := 0; k < 25; k++ {
		fs := someFrames(r, r.Range(2, 8), true)
		n := len(wireOf(fs))
		var plan []int
		style := r.Intn(4)
		for n > 0 {
			var m int
			switch style {
			case 0:
				m = r.Range(1, 17)
			case 1:
				m = r.Pick(15, 16, 17, 1023, 1024, 1025)
			case 2:
				m = r.Range(1, 3000)
			default:
				m = r.Pick(1, 2, 1500, 1<<20)
			}
			m = min(m, n)
			plan = append(plan, m)
			n -= m
			if len(plan) > 3000 {
				break
			}
		}
		cases = append(cases, tc{fmt.Sprint("random style ", style), fs, plan})
	}
	for _, t := range cases {
		if c.Violated() {
			break
		}
		plans.Store(int(nth), t.plan)
		nth++
		p := dialRaw(c, s.Addrs[0])
		addr := p.nc.LocalAddr().String()
		p.nc.Write(wireOf(t.fs))
		want := answered(t.fs)
		c.MustUntil("frames of a segmented byte stream", func() bool {
			return p.N() >= want && len(rec.of(addr)) >= len(delivered(t.fs)) || p.Closed() || c.Violated()
		})
		if p.Closed() {
			c.Violate("closed", "%s: the server closed a connection with well-formed frames (%v)", t.how, p.Err())
			break
		}
		sameFrames(c, t.how, rec.of(addr), delivered(t.fs))
		for _, f := range t.fs {
			if f.Flags == fNB {
				rc, rp := respFor(f.Cmd, f.Payload)
				a := p.ByID(f.ID)
				if len(a) != 1 || a[0].Cmd != rc || !same(a[0].Payload, rp) {
					c.Violate("answer", "%s: request %v got %v", t.how, f, a)
				}
			}
		}
		p.Close()
		c.Eval("split " + t.how)
	}
	c.Sample("%d frames in %d bytes cut at every offset, byte by byte, and %d random segmentations", len(small), total, 25)
	s.Stop()
}

// c06malformed: good frames, then one with an impossible length.
func c06malformed(c *C) {
	r := c.Rng
	rec := newRecorder()
	max := r.Pick(12, 13, 40, 1000, 1<<20)
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: rec.handler(), SubFunc: rec.sub(), ReadFrameChSize: r.Pick(0, 3), MaxFrameSize: max})
	other := s.dial(qrpc.ConnectionConfig{}, nil)
	oprobe := func() {
		if max >= 12+1500 {
			c.probe(other, "other-conn", "after a malformed frame on another connection")
			return
		}
		if _, _, err := c.call(other, 0x77, qrpc.NBFlag, nil); err != nil {
			c.Violate("other-conn", "after a malformed frame on another connection: %v", err)
		}
	}
	sizes := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, uint32(max) + 1, uint32(max) + 2, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff}
	for i, sz := range sizes {
		if c.Violated() {
			break
		}
		var good []WFrame
		for _, f := range someFrames(r, r.Range(0, 4), true) {
			if 12+len(f.Payload) <= max && f.Flags&(fStream|fEnd) == 0 {
				good = append(good, f)
			}
		}
		bad := WFrame{ID: 999, Flags: byte(r.Pick(0, int(fNB), int(fStream), int(fPush), int(fRst))), Cmd: uint32(r.Intn(1 << 24)), Payload: gen(1, 50)}
		b := bad.Bytes()
		b[0], b[1], b[2], b[3] = byte(sz>>24), byte(sz>>16), byte(sz>>8), byte(sz)
		after := WFrame{ID: 1001, Flags: fNB, Cmd: 5}.Bytes()
		p := dialRaw(c, s.Addrs[0])
		addr := p.nc.LocalAddr().String()
		if r.P(1, 2) {
			p.nc.Write(wireOf(good))
			p.nc.Write(append(b, after...))
		} else {
			p.nc.Write(append(append(wireOf(good), b...), after...))
		}
		c.MustUntil("end of a connection with a malformed frame", func() bool { return p.Closed() })
		// what was delivered: the good ones only. A nonblocking request still waiting for a worker when the
		// connection ends may be dropped, what is delivered must be exact.
		c.MustUntil("delivery before a malformed frame", func() bool {
			for _, g := range rec.of(addr) {
				if g.ID == 999 || g.ID == 1001 {
					c.Violate("malformed-delivered", "declared length %d (max %d): frame %v was delivered", sz, max, g)
				}
			}
			return true
		})
		for _, g := range rec.of(addr) {
			okF := false
			for _, f := range good {
				if f.ID == g.ID && f.Flags == g.Flags && f.Cmd == g.Cmd && same(f.Payload, g.Payload) {
					okF = true
				}
			}
			if !okF && g.ID != 999 && g.ID != 1001 {
				c.Violate("frames", "frame nobody sent was delivered: %v", g)
			}
		}
		for _, f := range good {
			if f.Flags&fRst != 0 {
				continue // of a stream that doesn't exist
			}
			if f.Flags&fPush == 0 {
				continue // a request may lose the race against the close of its connection
			}
			found := false
			for _, g := range rec.of(addr) {
				found = found || g.ID == f.ID
			}
			if !found {
				c.Violate("frames", "push %v before the malformed frame was not delivered", f)
			}
		}
		p.Close()
		if i%4 == 0 {
			oprobe()
		}
		c.Eval(fmt.Sprint("malformed", sz, max, len(good)))
	}
	// every frame ahead of the malformed one is delivered: send them first, see them answered, then break
	for k := 0; k < 10 && !c.Violated(); k++ {
		p := dialRaw(c, s.Addrs[0])
		addr := p.nc.LocalAddr().String()
		var fs []WFrame
		for j := 0; j < 5; j++ {
			n := r.Intn(1 + max - 12)
			if n > 5000 {
				n = 5000
			}
			if j == 3 && max < 1<<16 {
				n = max - 12 // exactly the limit
			}
			fs = append(fs, WFrame{ID: uint64(2*j + 1), Flags: fNB, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), n)})
		}
		p.nc.Write(wireOf(fs))
		c.MustUntil("answers below the frame limit", func() bool { return p.N() >= 5 || p.Closed() })
		if p.Closed() {
			c.Violate("limit", "connection with frames of at most %d bytes (the limit) closed", max)
			break
		}
		sameFrames(c, "at the limit", rec.of(addr), fs)
		p.nc.Write([]byte{0, 0, 0, byte(r.Intn(12)), 0, 0, 0, 0, 0, 0, 0, 3, 8, 0, 0, 1})
		c.MustUntil("end of a connection with a malformed frame", func() bool { return p.Closed() })
		if n := len(rec.of(addr)); n != 5 {
			c.Violate("malformed-delivered", "%d frames delivered, 5 were well formed", n)
		}
		c.Eval(fmt.Sprint("limit", max, k))
		p.Close()
	}
	oprobe()
	c.Sample("max=%d, declared lengths %v after 0..4 good frames", max, sizes)
	closeConn(c, other)
	s.Stop()
}

// c06limit: the default limit, exactly and one above.
func c06limit(c *C) {
	rec := newRecorder()
	max := qrpc.DefaultMaxFrameSize
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: rec.handler(), MaxFrameSize: c.Rng.Pick(0, 0, -1)})
	p := dialRaw(c, s.Addrs[0])
	addr := p.nc.LocalAddr().String()
	for i, n := range []int{max - 12, 0, max - 13} {
		f := WFrame{ID: uint64(2*i + 1), Flags: fNB, Cmd: 9, Payload: gen(c.Rng.Uint64(), n)}
		go p.Send(f)
		c.MustUntil("frame of the default maximum size", func() bool { return p.N() > i || p.Closed() })
		if p.Closed() {
			c.Violate("limit", "frame with declared length %d closed the connection (default limit %d)", n+12, max)
			return
		}
		got := rec.of(addr)
		if len(got) != i+1 || !same(got[i].Payload, f.Payload) {
			c.Violate("frames", "big frame not delivered intact")
		}
		c.Eval(fmt.Sprint("default limit ", n))
	}
	go p.Send(WFrame{ID: 9, Flags: fNB, Cmd: 9, Payload: make([]byte, max-11)})
	c.MustUntil("end of a connection with a frame over the default limit", func() bool { return p.Closed() })
	if n := len(rec.of(addr)); n != 3 {
		c.Violate("malformed-delivered", "%d frames delivered, 3 expected", n)
	}
	c.Eval("default limit +1")
	// each binding has its own limit, however large
	limits := []int{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 11, 1<<40 + 100, 1<<63 - 1, max + 5, 100}
	var bs []qrpc.ServerBinding
	for _, l := range limits {
		bs = append(bs, qrpc.ServerBinding{Handler: rec.handler(), MaxFrameSize: l})
	}
	s2 := startServer(c, "tcp", nil, bs...)
	for i, l := range limits {
		l := l
		p := dialRaw(c, s2.Addrs[i])
		addr := p.nc.LocalAddr().String()
		sizes := []int{12, 100, 101, max, max + 5, max + 6}
		for k, n := range sizes {
			f := WFrame{ID: uint64(2*k + 1), Flags: fNB, Cmd: 9, Payload: gen(c.Rng.Uint64(), n-12)}
			go p.Send(f)
			k := k
			c.MustUntil("fate of a frame", func() bool { return p.N() > k || p.Closed() })
			got := rec.of(addr)
			if n > l {
				if !p.Closed() || len(got) != k {
					c.Violate("malformed-delivered", "limit %d: a frame of declared length %d was delivered", l, n)
				}
				c.Eval(fmt.Sprint("limit ", l, n, "refused"))
				break
			}
			if p.Closed() && len(got) == k {
				c.Violate("limit", "limit %d: a frame with declared length %d closed the connection", l, n)
				break
			}
			if len(got) != k+1 || !same(got[k].Payload, f.Payload) {
				c.Violate("frames", "limit %d: frame with declared length %d not delivered intact", l, n)
			}
			c.Eval(fmt.Sprint("limit ", l, n))
		}
		p.Close()
	}
	s2.Stop()
	c.Sample("default limit %d: sizes %d, 12, %d delivered; %d refused", max, max, max-1, max+1)
	p.Close()
	s.Stop()
}

// mutate damages a byte string.
func mutate(r *Rng, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := r.Range(1, 6); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 3:
			b = append(b[:i], append(r.Bytes(r.Range(1, 20)), b[i:]...)...)
		case 4:
			j := i + r.Intn(len(b)-i)
			b = append(b[:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 5:
			b = b[:i]
		}
	}
	return b
}

// drain reads whatever follows f, as a subscriber or caller has to.
func drain(f *qrpc.Frame) {
	go func() {
		for range f.FrameCh() {
		}
	}()
}

// hostile makes well-formed frames in an ill-behaved order: ids reused, ends repeated, resets of anything.
func hostile(r *Rng, n int) []byte {
	var b []byte
	for k := 0; k < n; k++ {
		f := WFrame{ID: uint64(r.Intn(6)), Flags: byte(r.Intn(64)), Cmd: uint32(r.Pick(1, 2, 0x77, r.Intn(1<<24))), Payload: gen(r.Uint64(), r.Pick(0, 0, 3, 40))}
		if r.P(1, 3) {
			f.Flags = byte(r.Pick(int(fRst), int(fRst|fPush), int(fEnd), int(fStream), int(fStream|fEnd), int(fPush|fStream), int(fPush|fStream|fEnd), int(fPush|fRst|fStream), int(fStream|fRst)))
		}
		b = append(b, f.Bytes()...)
	}
	return b
}

// c06garbage: anything at all may come in; the process and other connections go on.
func c06garbage(c *C) {
	r := c.Rng
	var live int32
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt32(&live, 1)
		defer atomic.AddInt32(&live, -1)
		if q.Cmd == 2 {
			for {
				select {
				case f := <-q.FrameCh():
					if f == nil {
						answer(w, q)
						return
					}
				case <-q.Context().Done():
					return
				}
			}
		}
		answer(w, q)
	})
	var pushes int64
	b := qrpc.ServerBinding{Handler: h, MaxFrameSize: 1 << 16, ReadFrameChSize: r.Pick(0, 2), WriteFrameChSize: r.Pick(1, 50)}
	if r.P(2, 3) {
		b.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) {
			atomic.AddInt64(&pushes, 1)
			drain(f)
		}
	}
	if r.P(1, 2) {
		b.Codec = &zlibCodec{}
	}
	s := startServer(c, "tcp", nil, b)
	other := s.dial(qrpc.ConnectionConfig{}, nil)
	rngs := []*Rng{}
	for i := 0; i < 12; i++ {
		rngs = append(rngs, r.Fork())
	}
	n := 40
	if c.Tier == "thorough" {
		n = 150
	}
	done := parallel(12, func(i int) {
		r := rngs[i]
		for k := 0; k < n && !c.Violated(); k++ {
			p := dialRaw(c, s.Addrs[0])
			var data []byte
			kind := r.Intn(4)
			switch kind {
			case 0:
				data = r.Bytes(r.Range(0, 300))
			case 1:
				data = mutate(r, wireOf(someFrames(r, r.Range(1, 8), false)))
			case 2:
				data = hostile(r, r.Range(1, 40))
			case 3:
				data = mutate(r, hostile(r, r.Range(5, 20)))
			}
			for len(data) > 0 {
				m := r.Range(1, 200)
				if m > len(data) {
					m = len(data)
				}
				if _, err := p.nc.Write(data[:m]); err != nil {
					break
				}
				data = data[m:]
			}
			if r.P(1, 2) {
				c.Settle(1)
			}
			if r.P(1, 3) {
				p.nc.(*net.TCPConn).SetLinger(0)
			}
			p.Close()
			c.Eval(fmt.Sprint("garbage", kind, k%10))
		}
	})
	c.Must("garbage connections", done)
	c.probe(other, "other-conn", "after garbage on other connections")
	c.MustUntil("handlers of ended connections", func() bool { return atomic.LoadInt32(&live) == 0 })
	c.probe(other, "other-conn", "after garbage on other connections")
	c.Sample("%d connections with random bytes, mutated frames and hostile frame orders; %d pushes delivered", 12*n, atomic.LoadInt64(&pushes))
	closeConn(c, other)
	s.Stop()
}

// c06client: the client decodes answers and pushes under every segmentation too, and ends on malformed ones.
func c06client(c *C) {
	r := c.Rng
	// nothing sent here is large: a client that takes gigabytes has misread it, and must not take the machine down
	if !raceBuild {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	}
	rs := newRawServer(c)
	run := func(how string, plan []int, pushes []WFrame, bad []byte) {
		var mu sync.Mutex
		var got []WFrame
		conf := qrpc.ConnectionConfig{Handler: echoHandler, OverlayNetwork: overlayWith(func(nc net.Conn) net.Conn {
			return &planConn{fconn: wrapConn(nc, Policy{}), plan: plan}
		})}
		conn, err := qrpc.NewConnection(rs.addr(), conf, func(_ *qrpc.Connection, f *qrpc.Frame) {
			mu.Lock()
			got = append(got, toW(f))
			mu.Unlock()
		})
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		p := newRawPeer(c, rs.next())
		reqs := make([]qrpc.Response, 3)
		ids := make([]uint64, 3)
		var out []WFrame
		for i := range reqs {
			ids[i], reqs[i], err = conn.Request(qrpc.Cmd(i), qrpc.NBFlag, nil)
			if err != nil {
				c.Violate("request-error", "%v", err)
				return
			}
		}
		c.MustUntil("requests reaching the raw server", func() bool { return p.N() >= 3 })
		for i := range reqs {
			out = append(out, WFrame{ID: ids[i], Cmd: uint32(100 + i), Payload: gen(uint64(i)+9, i*600)})
			if i < len(pushes) {
				out = append(out, pushes[i])
			}
		}
		last := len(reqs)
		b := wireOf(out)
		if bad != nil {
			b = append(b, bad...)
			b = append(b, WFrame{ID: 5, Flags: fPush, Cmd: 0xdead}.Bytes()...)
		}
		p.nc.Write(b)
		for i := 0; i < last; i++ {
			f, err := c.getFrame("answer under segmentation", reqs[i])
			if bad != nil && err != nil {
				c.Violate("frames", "%s: answer %d ahead of a malformed frame was lost: %v", how, i, err)
				continue
			}
			if err != nil || uint32(f.Cmd) != uint32(100+i) || !same(f.Payload, gen(uint64(i)+9, i*600)) || f.RequestID != ids[i] {
				c.Violate("frames", "%s: answer %d: %v %v", how, i, f, err)
			}
		}
		np := len(pushes)
		if np > 3 {
			np = 3
		}
		c.MustUntil("pushes under segmentation", func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= np || conn.IsClosed() })
		if bad != nil {
			c.Do("Wait of a connection with a malformed frame", conn.Wait)
			if !conn.IsClosed() {
				c.Violate("malformed", "%s: connection not closed", how)
			}
		}
		mu.Lock()
		sameFrames(c, how, got, pushes[:np])
		mu.Unlock()
		if bad == nil {
			closeConn(c, conn)
		}
		p.Close()
		c.Eval("client " + how)
	}
	mkPushes := func() (fs []WFrame) {
		for i := 0; i < 2; i++ {
			fs = append(fs, WFrame{ID: uint64(2 * i), Flags: fPush, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), r.Pick(0, 1, 33))})
		}
		return
	}
	pushes := mkPushes()
	total := 3*16 + 600 + 1200
	for _, f := range pushes {
		total += 16 + len(f.Payload)
	}
	for k := 0; k < 60 && !c.Violated(); k++ {
		at := r.Range(1, total-1)
		if k < 20 {
			at = k + 1
		}
		run(fmt.Sprint("cut@", at), []int{at}, pushes, nil)
	}
	for k := 0; k < 20 && !c.Violated(); k++ {
		var plan []int
		for n := total; n > 0; {
			m := min(n, r.Pick(1, 3, 15, 16, 17, 500, 1024))
			plan = append(plan, m)
			n -= m
		}
		run("random", plan, pushes, nil)
	}
	for sz := 0; sz < 12 && !c.Violated(); sz++ {
		bad := WFrame{ID: 3, Flags: byte(r.Pick(0, int(fPush), int(fNB)))}.Bytes()
		bad[3] = byte(sz)
		run(fmt.Sprint("bad size ", sz), nil, mkPushes(), bad)
	}
	// hostile orders; nothing to compare, but the process must live and the connection must still close
	for k := 0; k < 40 && !c.Violated(); k++ {
		conf := qrpc.ConnectionConfig{Handler: echoHandler}
		if r.P(1, 3) {
			conf.Handler = nil
		}
		var sub qrpc.SubFunc
		if r.P(1, 2) {
			sub = func(_ *qrpc.Connection, f *qrpc.Frame) { drain(f) }
		}
		conn, err := qrpc.NewConnection(rs.addr(), conf, sub)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		p := newRawPeer(c, rs.next())
		var resps []qrpc.Response
		for i := 0; i < 3; i++ {
			if _, resp, err := conn.Request(1, qrpc.NBFlag, nil); err == nil {
				resps = append(resps, resp)
			}
		}
		p.nc.Write(hostile(r, r.Range(1, 30)))
		c.Settle(1)
		p.Close()
		// who asks for an answer has to read it to its end
		c.Must("pending answers after hostile frames", parallel(len(resps), func(i int) {
			if f, err := resps[i].GetFrame(); err == nil {
				drain(f)
			}
		}))
		c.Do("Wait after hostile frames", conn.Wait)
		c.Eval(fmt.Sprint("client hostile", conf.Handler == nil, sub == nil))
	}
	c.Sample("answers and pushes of %d bytes cut at 60 offsets, 20 random segmentations, 12 impossible lengths, 40 hostile orders", total)
	rs.ln.Close()
}
