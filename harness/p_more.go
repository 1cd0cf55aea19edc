package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/bits"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

func init() {
	extend("C05", scale("huge", 2, 8, c05huge), JobSpec{Name: "sequences", Quick: 6, Deep: 40, Fn: c05sequences})
	extend("C24", JobSpec{Name: "retry", Quick: 3, Deep: 20, Fn: c24retry})
	extend("C08", JobSpec{Name: "after", Quick: 4, Deep: 30, Fn: c08after})
	extend("C03", JobSpec{Name: "kinds", Quick: 4, Deep: 30, Fn: c03kinds})
	extend("C15", JobSpec{Name: "many", Quick: 2, Deep: 10, Fn: c15many})
	extend("C29", JobSpec{Name: "storm", Quick: 4, Deep: 30, Fn: c29storm})
	extend("C19", JobSpec{Name: "shared", Quick: 2, Deep: 10, Fn: c19shared})
	extend("C22", JobSpec{Name: "overlayclose", Quick: 4, Deep: 30, Fn: c22overlayclose})
	extend("C11", JobSpec{Name: "appends", Quick: 4, Deep: 30, Fn: c11appends})
	extend("C34", JobSpec{Name: "long", Quick: 2, Deep: 12, Fn: c34long})
	extend("C07", JobSpec{Name: "clienthandler", Quick: 4, Deep: 30, Fn: c07clienthandler})
	extend("C16", JobSpec{Name: "samebindings", Quick: 3, Deep: 24, Fn: c16samebindings})
	extend("C24", JobSpec{Name: "noload", Quick: 4, Deep: 12, Fn: c24noload})
	extend("C20", JobSpec{Name: "single", Quick: 4, Deep: 30, Fn: c20single})
	extend("C21", JobSpec{Name: "unused", Quick: 2, Deep: 12, Fn: c21unused})
}

// c05huge: frames around and beyond 16 MiB, both ways, as requests, answers, pushes and frames of streams.
func c05huge(c *C) {
	r := c.Rng
	mode := []string{"tcp", "ws", "tls", "wss"}[(c.K+int(c.Seed))%4]
	sizes := []int{1<<24 - 13, 1<<24 - 12, 1<<24 - 11, 1 << 24, 1<<24 + 1, 20 << 20, 33<<20 + 5}
	var mu sync.Mutex
	var pushed [][]byte
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		all := append([]byte(nil), q.Payload...)
		for f := range q.FrameCh() {
			all = append(all, f.Payload...)
		}
		n := 8
		if len(all) >= 16 {
			n = int(tagOf(all[8:]) % (64 << 20))
		}
		out := gen(h64(all), n)
		if q.Cmd == 2 {
			w.StartWrite(7, 9, qrpc.PushFlag)
			w.WriteBytes(out)
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "push of %d bytes", n)
			}
			out = out[:8]
		}
		fl := qrpc.FrameFlag(0)
		if q.Cmd == 3 {
			w.StartWrite(q.RequestID, 9, qrpc.StreamFlag)
			w.WriteBytes(out)
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "stream frame of %d bytes", n)
			}
			fl = qrpc.StreamFlag | qrpc.StreamEndFlag
			out = out[:8]
		}
		w.StartWrite(q.RequestID, 8, fl)
		for len(out) > 1<<23 {
			w.WriteBytes(out[:1<<23])
			out = out[1<<23:]
		}
		w.WriteBytes(out)
		if err := w.EndWrite(); err != nil {
			c.writeFailed("write", err, "answer of %d bytes", n)
		}
	})
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) { mu.Lock(); pushed = append(pushed, f.Payload); mu.Unlock() }
	p := newPair(c, pairOpt{rev: c.K%2 == 1, mode: mode, sub: sub,
		binding: qrpc.ServerBinding{MaxFrameSize: 64 << 20, WriteFrameChSize: r.Pick(0, 3)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 3)}}, h)
	for k := 0; k < 8 && !c.Violated(); k++ {
		up, down := 16+r.Intn(3000), 8+r.Intn(3000)
		what := "answer"
		cmd := qrpc.Cmd(1)
		size := sizes[r.Intn(len(sizes))]
		switch (k + c.K/4) % 4 {
		case 0:
			up, what = size, "request"
		case 1:
			down = size
		case 2:
			if c.K%2 == 1 { // a client's pushes are a matter of another property
				up, down, what = size, sizes[r.Intn(len(sizes))], "both"
			} else {
				down, cmd, what = size, 2, "push"
			}
		case 3:
			up, down, cmd, what = size, size+1, 3, "stream"
		}
		pl := gen(r.Uint64(), up)
		binary.BigEndian.PutUint64(pl[8:], uint64(down))
		all := append([]byte(nil), pl...)
		var f *qrpc.Frame
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			var resp qrpc.Response
			if cmd == 3 {
				var sw qrpc.StreamWriter
				sw, resp, err = p.open.StreamRequest(cmd, 0, pl)
				if err == nil {
					q := gen(r.Uint64(), up)
					all = append(all, q...)
					sw.StartWrite(1)
					sw.WriteBytes(q)
					err = sw.EndWrite(true)
				}
			} else {
				_, resp, err = p.open.Request(cmd, qrpc.NBFlag, pl)
			}
			if err == nil {
				f, err = resp.GetFrame()
			}
		}()
		if !c.waitAtLeast(done, stallWall*3, stallTicks*2) {
			c.StallAbort(fmt.Sprintf("%s of %d bytes up, %d down over %s", what, up, down, mode))
		}
		if err != nil {
			c.Violate("huge", "%s: a %s of %d bytes up, %d down: %v", mode, what, up, down, err)
			break
		}
		want := gen(h64(all), down)
		if cmd == 2 {
			c.MustUntil("a huge push", func() bool { mu.Lock(); defer mu.Unlock(); return len(pushed) > 0 })
			mu.Lock()
			if len(pushed) != 1 || !same(pushed[0], want) {
				c.Violate("huge", "%s: %d pushes, the first is %s, want one of %s", mode, len(pushed), brief(pushed[0]), brief(want))
			}
			pushed = nil
			mu.Unlock()
			want = want[:8]
		}
		if !same(f.Payload, want) {
			c.Violate("huge", "%s: %s of %d bytes up: got %s want %s", mode, what, up, brief(f.Payload), brief(want))
		}
		if cmd == 3 {
			n := 0
			c.Do("the end of a huge stream", func() {
				for g := range f.FrameCh() {
					n++
					if !same(g.Payload, want[:8]) {
						c.Violate("huge", "%s: the last frame of a stream is %s", mode, brief(g.Payload))
					}
				}
			})
			if n != 1 {
				c.Violate("huge", "%s: %d frames after a huge one, want 1", mode, n)
			}
		}
		c.Eval(fmt.Sprint("huge ", mode, c.K%2, what, size))
	}
	p.stop()
}

// seqFrame is what one step of c05sequences must have put on the wire.
type seqFrame struct {
	id      uint64
	flags   byte // without the codec flag
	codec   bool // may be encoded
	cmd     uint32
	payload []byte
}

// seqCheck compares the frames of a writer with what it wrote.
func seqCheck(c *C, side, steps string, want []seqFrame, got []WFrame, dec func([]byte) ([]byte, error)) {
	for i, f := range got {
		if i >= len(want) {
			c.Violate("seq-extra", "%s: after [%s] frame %v was not written by any step", side, steps, f)
			return
		}
		w := want[i]
		p := f.Payload
		if f.Flags&fCodec != 0 {
			if !w.codec {
				c.Violate("seq-frame", "%s: [%s]: frame %d is %v, marked as encoded, the step did not ask for that", side, steps, i, f)
				return
			}
			var err error
			if p, err = dec(p); err != nil {
				c.Violate("seq-frame", "%s: [%s]: frame %d %v does not decode: %v", side, steps, i, f, err)
				return
			}
		}
		if f.ID != w.id || f.Flags&^fCodec != w.flags || f.Cmd != w.cmd || !same(p, w.payload) {
			c.Violate("seq-frame", "%s: [%s]: frame %d is %v, the step wrote id=%d flags=%#x cmd=%#x %s", side, steps, i, f, w.id, w.flags, w.cmd, brief(w.payload))
			return
		}
	}
	if len(got) != len(want) {
		c.Violate("seq-lost", "%s: [%s]: %d frames on the wire, %d writes succeeded", side, steps, len(got), len(want))
	}
}

// c05sequences: one writer is used for frames of every kind in any order; none leaves a trace in the next.
func c05sequences(c *C) {
	r := c.Rng
	codec := c24codec([]int{0, 2, 3}[c.K%3])
	type rec struct {
		steps string
		want  []seqFrame
	}
	var mu sync.Mutex
	recs := map[uint64]*rec{} // by request
	hr := r.Fork()
	var idc uint64 = 1 << 40
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		mu.Lock()
		rr := hr.Fork()
		mu.Unlock()
		rc := &rec{}
		put := func(what string, id uint64, flags byte, cmd uint32, pl []byte) {
			rc.steps += fmt.Sprintf("%s(%d) ", what, len(pl))
			w.StartWrite(id, qrpc.Cmd(cmd), qrpc.FrameFlag(flags))
			for p := pl; len(p) > 0; {
				k := rr.Range(1, len(p))
				w.WriteBytes(p[:k])
				p = p[k:]
			}
			var err error
			f := seqFrame{id, flags &^ fCodec, flags&fCodec != 0, cmd, pl}
			err = w.EndWrite()
			if err != nil {
				c.writeFailed("write", err, "%s after [%s]", what, rc.steps)
				return
			}
			rc.want = append(rc.want, f)
		}
		payload := func() []byte {
			if rr.P(1, 4) {
				return make([]byte, rr.Pick(0, 1, 500, 3000))
			}
			return gen(rr.Uint64(), rr.Pick(0, 1, 7, 30, 1008, 1009, 3000))
		}
		n := rr.Intn(5)
		stream := false
		for i := 0; i < n; i++ {
			cf := byte(rr.Pick(0, int(fCodec)))
			switch rr.Intn(4) {
			case 0, 1:
				put("push", atomic.AddUint64(&idc, 1), fPush|cf|byte(rr.Pick(0, 0, int(fNB))), uint32(rr.Intn(1<<24)), payload())
			case 2:
				stream = true
				put("frame", q.RequestID, fStream|cf, uint32(rr.Intn(1<<24)), payload())
			case 3: // precompressed
				rc.steps += "precompressed "
				pl := payload()
				enc, err := codec.Encode(pl)
				if err != nil || len(enc) == 0 {
					continue
				}
				id, cmd := atomic.AddUint64(&idc, 1), uint32(rr.Intn(1<<24))
				w.StartWrite(id, qrpc.Cmd(cmd), qrpc.PushFlag)
				w.WriteBytes(enc)
				if err := w.EndWriteCompressed(); err != nil {
					c.writeFailed("write", err, "precompressed push after [%s]", rc.steps)
					continue
				}
				rc.want = append(rc.want, seqFrame{id, fPush, true, cmd, pl})
			}
		}
		end := byte(0)
		if stream {
			end = fStream | fEnd
		}
		cf := byte(rr.Pick(0, int(fCodec)))
		switch rr.Intn(4) {
		case 0:
			put("answer", q.RequestID, end|cf, uint32(rr.Intn(1<<24)), payload())
		case 1: // an unfinished frame is thrown away by the reset
			w.StartWrite(q.RequestID, 0x123456, qrpc.FrameFlag(rr.Pick(0, int(fPush), int(fStream), int(fCodec), int(fNB), int(fPush|fCodec|fStream))))
			w.WriteBytes(gen(7, rr.Pick(0, 1, 900, 2000)))
			fallthrough
		default:
			rc.steps += "reset"
			reason := uint32(rr.Intn(1 << 24))
			if err := w.ResetFrame(q.RequestID, qrpc.Cmd(reason)); err != nil {
				c.writeFailed("write", err, "reset after [%s]", rc.steps)
			} else {
				rc.want = append(rc.want, seqFrame{q.RequestID, fRst, false, reason, nil})
			}
		}
		mu.Lock()
		recs[q.RequestID] = rc
		mu.Unlock()
	})
	tap := &Tap{}
	s := startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn { return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, YieldP: 50}) },
		qrpc.ServerBinding{Handler: h, Codec: codec, WriteFrameChSize: r.Pick(0, 1, 50)})
	p := dialRaw(c, s.Addrs[0])
	n := 150
	for i := 0; i < n; {
		var fs []WFrame
		for k := r.Range(1, 12); k > 0 && i < n; k-- {
			fs = append(fs, WFrame{ID: uint64(2*i + 1), Flags: byte(r.Pick(int(fNB), int(fNB), 0)), Cmd: 1, Payload: gen(r.Uint64(), r.Intn(20))})
			i++
		}
		p.Send(fs...)
	}
	c.MustUntil("handlers of mixed writes", func() bool { mu.Lock(); defer mu.Unlock(); return len(recs) == n || c.Violated() })
	total := 0
	owner := map[uint64]uint64{}
	mu.Lock()
	for id, rc := range recs {
		total += len(rc.want)
		for _, f := range rc.want {
			owner[f.id] = id
		}
	}
	mu.Unlock()
	c.MustUntil("frames of mixed writes", func() bool { return p.N() >= total || p.Closed() || c.Violated() })
	c.Settle(2)
	fs, rest, err := parseWire(tap.Bytes())
	if err != nil || len(rest) > 0 {
		c.Violate("wire-format", "mixed writes: %v, %d bytes left", err, len(rest))
	}
	got := map[uint64][]WFrame{}
	for _, f := range fs {
		if _, ok := owner[f.ID]; !ok {
			c.Violate("seq-extra", "server: frame %v has an id nobody wrote", f)
		}
		got[owner[f.ID]] = append(got[owner[f.ID]], f)
	}
	for id, rc := range recs {
		seqCheck(c, "server", rc.steps, rc.want, got[id], codec.Decode)
		c.Eval(fmt.Sprint("sequence ", codec.name, rc.steps))
	}
	p.Close()
	s.Stop()

	// the writers of a client's streams
	ctap := &Tap{}
	rs := newRawServer(c)
	conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: r.Pick(0, 1, 50),
		OverlayNetwork: overlayWith(func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{Rng: r.Fork(), TapW: ctap, YieldP: 50}) })}, nil)
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	rp := newRawPeer(c, rs.next())
	crecs := make([]*rec, 60)
	ids := make([]uint64, 60)
	rngs := make([]*Rng, 6)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	done := parallel(6, func(g int) {
		rr := rngs[g]
		for k := 0; k < 10; k++ {
			rc := &rec{}
			crecs[g*10+k] = rc
			payload := func() []byte { return gen(rr.Uint64()%3, rr.Pick(0, 1, 7, 30, 1008, 1009, 3000)) }
			asked := rr.P(1, 2)
			fl := byte(rr.Pick(0, int(fNB)))
			of := fl
			if asked {
				of |= fCodec
			}
			pl, cmd := payload(), uint32(rr.Intn(1<<24))
			sw, _, err := conn.StreamRequest(qrpc.Cmd(cmd), qrpc.FrameFlag(of), pl)
			if err != nil {
				c.Violate("write", "StreamRequest: %v", err)
				return
			}
			id := sw.RequestID()
			ids[g*10+k] = id
			rc.want = append(rc.want, seqFrame{id, fl | fStream, asked, cmd, pl})
			rc.steps = fmt.Sprint("open ", asked, " ")
			for j := rr.Intn(6); j > 0; j-- {
				pl, cmd := payload(), uint32(rr.Intn(1<<24))
				pre := rr.P(1, 4)
				b := pl
				if pre {
					e, err := codec.Encode(pl)
					if err != nil || len(e) == 0 {
						continue
					}
					b = e
					asked = true
				}
				sw.StartWrite(qrpc.Cmd(cmd))
				sw.WriteBytes(b)
				if pre {
					rc.steps += "precompressed "
					err = sw.EndWriteCompressed()
				} else {
					rc.steps += "frame "
					err = sw.EndWrite(false)
				}
				if err != nil {
					c.Violate("write", "a frame of a stream after [%s]: %v", rc.steps, err)
					return
				}
				rc.want = append(rc.want, seqFrame{id, fl | fStream, asked, cmd, pl})
			}
			cmd = uint32(rr.Intn(1 << 24))
			if rr.P(1, 2) {
				pl := payload()
				sw.StartWrite(qrpc.Cmd(cmd))
				sw.WriteBytes(pl)
				rc.steps += "end"
				if err := sw.EndWrite(true); err != nil {
					c.Violate("write", "the end of a stream after [%s]: %v", rc.steps, err)
					return
				}
				rc.want = append(rc.want, seqFrame{id, fl | fStream | fEnd, asked, cmd, pl})
			} else {
				if rr.P(1, 2) {
					sw.StartWrite(qrpc.Cmd(rr.Intn(1 << 24)))
					sw.WriteBytes(gen(3, rr.Pick(1, 2000)))
				}
				rc.steps += "reset"
				if err := sw.ResetFrame(qrpc.Cmd(cmd)); err != nil {
					c.Violate("write", "the reset of a stream after [%s]: %v", rc.steps, err)
					return
				}
				rc.want = append(rc.want, seqFrame{id, fRst, false, cmd, nil})
			}
		}
	})
	c.Must("mixed writes of streams", done)
	if !c.Violated() {
		total = 0
		for _, rc := range crecs {
			total += len(rc.want)
		}
		c.MustUntil("frames of mixed writes of streams", func() bool { return rp.N() >= total || rp.Closed() })
		c.Settle(2)
		fs, rest, err = parseWire(ctap.Bytes())
		if err != nil || len(rest) > 0 {
			c.Violate("wire-format", "mixed writes of streams: %v, %d bytes left", err, len(rest))
		}
		got = map[uint64][]WFrame{}
		for _, f := range fs {
			got[f.ID] = append(got[f.ID], f)
		}
		for i, rc := range crecs {
			seqCheck(c, "client", rc.steps, rc.want, got[ids[i]], codec.Decode)
			c.Eval(fmt.Sprint("sequence client ", codec.name, rc.steps))
		}
	}
	closeConn(c, conn)
	rp.Close()
	rs.ln.Close()
}

// c08after: a handler that ends a request by a reset has used its writer for other frames before; the reset is one
// all the same.
func c08after(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	mode := []string{"tcp", "ws"}[c.K/2%2]
	codec := c24codec(0)
	var pushes, got int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		tag := tagOf(q.Payload)
		rr := NewRng(int64(tag >> 1))
		for j := rr.Intn(4); j > 0; j-- {
			w.StartWrite(uint64(rr.Intn(50)), qrpc.Cmd(rr.Intn(1<<24)), qrpc.PushFlag|qrpc.FrameFlag(rr.Pick(0, int(fCodec), int(fNB))))
			w.WriteBytes(make([]byte, rr.Pick(0, 1, 400)))
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "push")
			} else {
				atomic.AddInt64(&pushes, 1)
			}
		}
		if tag%2 == 0 {
			w.StartWrite(q.RequestID, 4, qrpc.StreamFlag|qrpc.FrameFlag(rr.Pick(0, int(fCodec))))
			w.WriteBytes(q.Payload)
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "stream frame")
			}
		}
		if rr.P(1, 2) { // unfinished
			w.StartWrite(q.RequestID, 4, qrpc.FrameFlag(rr.Pick(0, int(fPush), int(fStream|fEnd), int(fCodec))))
			w.WriteBytes(make([]byte, rr.Pick(0, 10, 2000)))
		}
		if err := w.ResetFrame(q.RequestID, qrpc.Cmd(rr.Intn(1<<24))); err != nil {
			c.writeFailed("write", err, "reset")
		}
	})
	count := func() { atomic.AddInt64(&got, 1) }
	p := newPair(c, pairOpt{rev: rev, mode: mode, sub: func(_ *qrpc.Connection, f *qrpc.Frame) { count() },
		binding: qrpc.ServerBinding{Codec: codec, WriteFrameChSize: r.Pick(0, 4), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { count() }},
		conf:    qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: r.Pick(0, 4)}}, h)
	rngs := make([]*Rng, 8)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	done := parallel(len(rngs), func(g int) {
		rr := rngs[g]
		for k := 0; k < 30 && !c.Violated(); k++ {
			tag := rr.Uint64()
			pl := gen(tag, rr.Pick(8, 60, 2000))
			var resp qrpc.Response
			var err error
			stream := rr.P(1, 3)
			if stream {
				_, resp, err = p.open.StreamRequest(5, qrpc.StreamEndFlag, pl)
			} else {
				_, resp, err = p.open.Request(5, qrpc.NBFlag, pl)
			}
			if err != nil {
				c.Violate("open", "%v", err)
				return
			}
			f, err := c.getFrame("the end of a request that is reset", resp)
			switch {
			case tag%2 == 1 && err != qrpc.ErrStreamClosed:
				c.Violate("not-closed", "%s: a request reset by its handler: its caller got %v, %v", dirName(rev), f, err)
			case tag%2 == 0 && err != nil:
				c.Violate("answer", "%s: a request whose handler wrote a frame before the reset: %v", dirName(rev), err)
			case tag%2 == 0:
				if !same(f.Payload, pl) {
					c.Violate("answer", "%s: got %s want %s", dirName(rev), brief(f.Payload), brief(pl))
				}
				c.Do("the end of the stream of a request that is reset", func() {
					for g := range f.FrameCh() {
						// a reset shows as a last frame at most
						if g.Flags&qrpc.FrameFlag(fRst) == 0 {
							c.Violate("frames", "%s: another frame (flags %#x cmd %#x %s) before the reset", dirName(rev), g.Flags, g.Cmd, brief(g.Payload))
						}
					}
				})
			}
			c.Eval(fmt.Sprint("after ", rev, mode, tag%2, stream))
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("requests that are reset")
	}
	c.MustUntil("pushes", func() bool { return atomic.LoadInt64(&got) >= atomic.LoadInt64(&pushes) || c.Violated() })
	c.Settle(2)
	if a, b := atomic.LoadInt64(&got), atomic.LoadInt64(&pushes); a != b && !c.Violated() {
		c.Violate("push", "%s: %d pushes were written, %d frames arrived as pushes", dirName(rev), b, a)
	}
	p.stop()
}

// c20single: an API keeps one connection to each endpoint, however its connections come and go.
func c20single(c *C) {
	r := c.Rng
	n := r.Range(1, 3)
	w := newAPIWorld(c, n, nil)
	for _, s := range w.eps {
		s.up()
	}
	w.open()
	for cycle := 0; cycle < 25 && !c.Violated(); cycle++ {
		stop := make(chan struct{})
		done := parallel(10, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(cycle))))
			for !closedCh(stop) {
				w.call(context.Background(), rr, rr.Pick(0, 1, 1, 2), rr.Intn(n), "changing")
			}
		})
		for k := r.Range(1, 10); k > 0; k-- {
			w.eps[r.Intn(n)].drop()
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		}
		close(stop)
		c.Must("calls while connections are lost", done)
		for i := range w.eps {
			i := i
			c.MustUntil("use of an endpoint that came back", func() bool {
				ok, _ := w.call(context.Background(), r, 1, i, "back")
				return ok == 1 || c.Violated()
			})
		}
		for i, s := range w.eps {
			i, s := i, s
			// what was dropped needs a moment to be seen as gone, what is doubled stays
			if !c.Until(func() bool { return s.open() <= 1 }) {
				c.Violate("double", "the API has %d connections open to endpoint %d when all is quiet", s.open(), i)
			}
			if s.open() == 0 {
				c.Violate("none", "the API has no connection to endpoint %d, which was just called", i)
			}
			c.Eval(fmt.Sprint("single ", n, i))
		}
		for k := 0; k < 20; k++ {
			if ok, err := w.call(context.Background(), r, 1, r.Intn(n), "quiet"); ok != 1 {
				c.Violate("back", "a call to an endpoint that is up and connected: %v", err)
			}
		}
	}
	w.end()
}

// c21unused: pipes that are ended before anything was sent, and ended twice.
func c21unused(c *C) {
	var got int64
	rev := c.K%2 == 1
	p := newPair(c, pairOpt{rev: rev, conf: qrpc.ConnectionConfig{WriteFrameChSize: c.Rng.Pick(0, 6)}},
		channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, _ channel.Transport) {
			atomic.AddInt64(&got, 1)
			var x string
			for r.Receive(context.Background(), nil, &x) == nil {
			}
			s.Send(context.Background(), 2, "done", true)
		})))
	t := channel.NewTransport(p.open.(qrpc.StreamInitiator))
	used := int64(0)
	for k := 0; k < 40 && !c.Violated(); k++ {
		s, r, err := t.Pipe()
		if err != nil {
			c.Violate("pipe", "%v", err)
			return
		}
		sends := k % 3
		for i := 0; i < sends; i++ {
			if err := s.Send(context.Background(), 1, "x", false); err != nil {
				c.Violate("send", "Send %d: %v", i, err)
			}
		}
		if sends > 0 {
			used++
		}
		if err := s.End(); err != nil {
			c.Violate("end", "End after %d messages: %v", sends, err)
		}
		for i := 0; i < 2; i++ {
			if err := s.Send(context.Background(), 1, "late", i == 1); err != channel.ErrSenderClosed {
				c.Violate("send-after-end", "Send after %d messages and End returned %v, want %v", sends, err, channel.ErrSenderClosed)
			}
			if err := s.End(); err != channel.ErrSenderCloseTwice {
				c.Violate("end-twice", "a second End after %d messages returned %v, want %v", sends, err, channel.ErrSenderCloseTwice)
			}
			c.Eval(fmt.Sprint("unused ", rev, sends, i))
		}
		if sends == 0 {
			var x string
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			c.Do("Receive on a pipe that was ended unused", func() {
				if err := r.Receive(ctx, nil, &x); err == nil {
					c.Violate("receive", "Receive on a pipe that was ended unused: %q", x)
				}
			})
			cancel()
			continue
		}
		var x string
		c.Do("Receive after End", func() {
			if err := r.Receive(context.Background(), nil, &x); err != nil || x != "done" {
				c.Violate("receive", "the answer on a pipe that was ended: %q, %v", x, err)
			}
		})
	}
	c.MustUntil("handlers of used pipes", func() bool { return atomic.LoadInt64(&got) >= used || c.Violated() })
	c.Settle(2)
	if g := atomic.LoadInt64(&got); g != used {
		c.Violate("opened", "%d pipes were used, %d reached the other side", used, g)
	}
	p.stop()
}

// c24retry: a write refused by the codec leaves no trace in its stream: what is written afterwards arrives, the end too.
func c24retry(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	codec := &failCodec{}
	type got struct {
		cmd uint32
		h   uint64
	}
	var mu sync.Mutex
	seen := map[uint64][]got{}
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		tag := tagOf(q.Payload)
		var fs []got
		for f := range q.FrameCh() {
			fs = append(fs, got{uint32(f.Cmd), h64(f.Payload)})
		}
		mu.Lock()
		seen[tag] = fs
		mu.Unlock()
		answer(w, q)
	})
	p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{Codec: codec}, conf: qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: r.Pick(0, 3)}}, h)
	rngs := make([]*Rng, 4)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	done := parallel(len(rngs), func(g int) {
		rr := rngs[g]
		for k := 0; k < 25 && !c.Violated(); k++ {
			tag := rr.Uint64()
			pl := gen(tag, 8+rr.Intn(100))
			sw, resp, err := p.open.StreamRequest(3, qrpc.CodecFlag, pl)
			if err != nil {
				c.Violate("open", "%v", err)
				return
			}
			var want []got
			steps := ""
			n := rr.Range(1, 5)
			for i := 0; i < n; i++ {
				for rr.P(1, 2) { // refused
					end := rr.P(1, 2)
					steps += fmt.Sprintf("refused(end %v) ", end)
					sw.StartWrite(qrpc.Cmd(rr.Intn(1 << 24)))
					sw.WriteBytes(append([]byte("PO"), gen(rr.Uint64(), rr.Pick(1, 2000))...))
					if err := sw.EndWrite(end); err == nil {
						c.Violate("accepted", "%s: a frame that cannot be encoded was accepted", dirName(rev))
						return
					}
				}
				cmd, pl := uint32(rr.Intn(1<<24)), append([]byte("ok"), gen(rr.Uint64(), rr.Pick(1, 30, 2000))...)
				steps += "frame "
				sw.StartWrite(qrpc.Cmd(cmd))
				sw.WriteBytes(pl)
				if err := sw.EndWrite(i == n-1); err != nil {
					c.Violate("after-refusal", "%s: [%s]: %v", dirName(rev), steps, err)
					return
				}
				want = append(want, got{cmd, h64(pl)})
			}
			f, err := c.getFrame("the answer to a stream with refused frames", resp)
			rc, rp := respFor(3, pl)
			if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("after-refusal", "%s: [%s]: answer %v, %v", dirName(rev), steps, f, err)
				return
			}
			mu.Lock()
			if fmt.Sprint(seen[tag]) != fmt.Sprint(want) {
				c.Violate("after-refusal", "%s: [%s]: the handler read %d frames %v, accepted were %d %v", dirName(rev), steps, len(seen[tag]), seen[tag], len(want), want)
			}
			mu.Unlock()
			c.Eval(fmt.Sprint("retry ", rev, steps))
		}
	})
	if !c.waitAtLeast(done, stallWall, stallTicks) {
		c.StallAbort("streams with refused frames")
	}
	p.stop()
}

// c03kinds: every kind of request that is not blocking runs beside all others, whichever flags mark it.
func c03kinds(c *C) {
	r := c.Rng
	client := c.K%2 == 1
	kinds := []byte{fNB, fStream, fEnd, fStream | fEnd, fNB | fStream, fNB | fEnd, fNB | fStream | fEnd}
	gate := map[uint64]chan struct{}{}
	var mu sync.Mutex
	var inside int32
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		mu.Lock()
		g := gate[q.RequestID]
		mu.Unlock()
		if g != nil {
			atomic.AddInt32(&inside, 1)
			<-g
		}
		answer(w, q)
	})
	var p *RawPeer
	end := func() {}
	if client {
		rs := newRawServer(c)
		conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{Handler: h}, nil)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		p = newRawPeer(c, rs.next())
		end = func() { closeConn(c, conn); p.Close() }
	} else {
		srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, ReadFrameChSize: r.Pick(0, 0, 3)})
		p = dialRaw(c, srv.Addrs[0])
		end = func() { p.Close(); srv.Stop() }
	}
	id := uint64(1)
	if client {
		id = 2
	}
	for round := 0; round < 5 && !c.Violated(); round++ {
		atomic.StoreInt32(&inside, 0)
		var held []WFrame
		for rep := r.Range(1, 3); rep > 0; rep-- {
			for _, i := range r.Perm(len(kinds)) {
				held = append(held, WFrame{ID: id, Flags: kinds[i], Cmd: uint32(0x500 + i), Payload: gen(r.Uint64(), 8+r.Intn(900))})
				id += 2
			}
		}
		mu.Lock()
		for _, f := range held {
			gate[f.ID] = make(chan struct{})
		}
		mu.Unlock()
		open := func(f WFrame) {
			mu.Lock()
			g := gate[f.ID]
			delete(gate, f.ID)
			mu.Unlock()
			close(g)
		}
		check := func(f WFrame, what string) {
			c.MustUntil(what, func() bool { return len(p.ByID(f.ID)) > 0 || p.Closed() })
			got := p.ByID(f.ID)
			rc, rp := respFor(f.Cmd, f.Payload)
			if len(got) != 1 || got[0].Cmd != rc || !same(got[0].Payload, rp) {
				c.Violate("wrong-answer", "%s (flags %#x): %v", what, f.Flags, got)
			}
			c.Eval(fmt.Sprint("kinds ", client, " ", what, " ", f.Flags))
		}
		for _, f := range held {
			p.Send(f)
		}
		c.MustUntil(fmt.Sprintf("dispatch of %d requests with the flags %v, client %v", len(held), kinds, client), func() bool {
			return int(atomic.LoadInt32(&inside)) == len(held)
		})
		for _, fl := range []byte{0, fNB, fEnd} {
			if fl == 0 && client {
				continue // a client takes none that block
			}
			f := WFrame{ID: id, Flags: fl, Cmd: 0x600, Payload: gen(r.Uint64(), 8+r.Intn(900))}
			id += 2
			p.Send(f)
			check(f, "a request next to stalled handlers")
		}
		for _, i := range r.Perm(len(held)) {
			f := held[i]
			if f.Flags&fStream != 0 && f.Flags&fEnd == 0 && r.P(1, 2) {
				p.Send(WFrame{ID: f.ID, Flags: fStream | fEnd, Cmd: 1})
			}
			open(f)
			check(f, "a released request")
		}
	}
	end()
}

// c15many: many close notifications on one connection, each runs once.
func c15many(c *C) {
	r := c.Rng
	w := newLCWorld(c, "tcp", 1, 0, false)
	for round := 0; round < 6 && !c.Violated(); round++ {
		p, x := w.open(0)
		ci := w.info(x)
		n := r.Pick(63, 64, 65, 100, 255, 256, 257, 1000, 3000)
		counts := make([]int32, n)
		for i := range counts {
			i := i
			ci.NotifyWhenClose(func() { atomic.AddInt32(&counts[i], 1) })
		}
		if r.P(1, 2) {
			p.Close()
		} else {
			ci.Close()
		}
		c.Must("OnClose", x.closeSeen)
		for i := range counts {
			i := i
			c.MustUntil(fmt.Sprintf("close notification %d of %d", i, n), func() bool { return atomic.LoadInt32(&counts[i]) != 0 })
		}
		c.Settle(1)
		for i := range counts {
			if k := atomic.LoadInt32(&counts[i]); k != 1 {
				c.Violate("notify", "close notification %d of %d ran %d times", i, n, k)
			}
		}
		c.Eval(fmt.Sprint("many ", n))
		c.Count("notifications", int64(n))
		p.Close()
	}
	w.finish("many")
}

// c29storm: connections take one id from each other as fast as they can.
func c29storm(c *C) {
	r := c.Rng
	m := newRecMetric(nil)
	var kicks, sets int64
	b := qrpc.ServerBinding{CounterMetric: recCounter{m}, OnKickCB: func(w qrpc.FrameWriter) { atomic.AddInt64(&kicks, 1) },
		Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			q.ConnectionInfo().SetID(string(q.Payload))
			atomic.AddInt64(&sets, 1)
		})}
	srv := startServer(c, "tcp", nil, b)
	total := 0
	for round := 0; round < 25 && !c.Violated(); round++ {
		n := r.Range(3, 12)
		conns := make([]*RawPeer, n)
		for i := range conns {
			conns[i] = dialRaw(c, srv.Addrs[0])
		}
		id := fmt.Sprint("storm", round)
		before := atomic.LoadInt64(&sets)
		gate := make(chan struct{})
		done := parallel(n, func(i int) {
			<-gate
			conns[i].Send(WFrame{ID: 1, Flags: fNB * byte(i%2), Cmd: 1, Payload: []byte(id)})
		})
		close(gate)
		c.Must("requests", done)
		c.MustUntil("SetID", func() bool { return atomic.LoadInt64(&sets) == before+int64(n) })
		total += n - 1
		if !c.Until(func() bool { return len(m.get("kickoff")) >= total }) {
			c.Violate("takeovers-missing", "%d takeovers, %d were counted", total, len(m.get("kickoff")))
			return
		}
		c.Settle(1)
		if k := len(m.get("kickoff")); k != total || atomic.LoadInt64(&kicks) != int64(total) {
			c.Violate("takeovers-extra", "%d takeovers, %d were counted, the callback ran %d times", total, k, kicks)
		}
		c.Eval(fmt.Sprint("storm ", n))
		for _, p := range conns {
			p.Close()
		}
	}
	srv.Stop()
}

// c19shared: the addresses given belong to the caller, who may share them between connections.
func c19shared(c *C) {
	r := c.Rng
	srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: qrpc.HandlerFunc(echoHandler)})
	for round := 0; round < 6 && !c.Violated(); round++ {
		n := r.Range(2, 6)
		addrs := make([]string, n)
		for i := range addrs {
			addrs[i] = srv.Addrs[0]
			if i > 0 {
				addrs[i] = fmt.Sprint("127.0.0.1:", i) // nobody listens
			}
		}
		orig := append([]string(nil), addrs...)
		conns := make([]*qrpc.Connection, 8)
		c.Must("connections that share their addresses", parallel(len(conns), func(i int) {
			conns[i] = qrpc.NewConnectionWithReconnect(addrs, qrpc.ConnectionConfig{}, nil)
		}))
		if fmt.Sprint(addrs) != fmt.Sprint(orig) {
			c.Violate("addresses", "the caller's addresses %v were changed to %v", orig, addrs)
		}
		for i := range addrs {
			addrs[i] = "127.0.0.1:1" // the caller's to change
		}
		// at once, so that those which change the addresses or follow the change are lost
		for i, conn := range conns {
			conn := conn
			c.MustUntil("a call of a reconnecting connection whose caller changed its addresses", func() bool {
				_, f, err := c.call(conn, 7, qrpc.NBFlag, gen(uint64(i), 20))
				return err == nil && f != nil
			})
			c.Eval(fmt.Sprint("shared ", n))
		}
		srv.S.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.Close(); return true })
		for i, conn := range conns {
			conn := conn
			c.MustUntil("a call after the loss of a connection whose caller changed its addresses", func() bool {
				_, f, err := c.call(conn, 7, qrpc.NBFlag, gen(uint64(i), 20))
				return err == nil && f != nil
			})
		}
		for _, conn := range conns {
			closeConn(c, conn)
		}
	}
	srv.Stop()
}

// c22overlayclose: what was accepted by a WebSocket listener that is being closed is served by its owner or closed.
func c22overlayclose(c *C) {
	r := c.Rng
	const hello = "GET /qrpc HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
	upgraded, taken := 0, 0
	for round := 0; round < 80 && !c.Violated(); round++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Violate("listen", "%v", err)
			return
		}
		ol := wsserver.OverlayNetwork(ln, nil)
		n := r.Range(1, 24)
		if round%20 == 19 {
			n = 200 // more than the queue holds
		}
		accept := r.P(1, 3)
		var mu sync.Mutex
		var accepted []net.Conn
		over := make(chan struct{})
		go func() {
			defer close(over)
			for i := 0; accept; i++ {
				nc, err := ol.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				accepted = append(accepted, nc)
				mu.Unlock()
			}
		}()
		conns := make([]net.Conn, n)
		for i := range conns {
			if conns[i], err = netDial(ln.Addr().String(), 10*time.Second); err != nil {
				c.Violate("dial", "%v", err)
				return
			}
			conns[i].Write([]byte(hello[:len(hello)-2]))
		}
		if r.P(1, 2) {
			time.Sleep(time.Duration(r.Intn(800)) * time.Microsecond)
		}
		rngs := make([]*Rng, n)
		for i := range rngs {
			rngs[i] = r.Fork()
		}
		span := r.Pick(50, 200, 600)
		if n == 200 {
			span = 20000
		}
		got := make([]bool, n)
		gate := make(chan struct{})
		done := parallel(n, func(i int) {
			<-gate
			t, d := time.Now(), time.Duration(rngs[i].Intn(span))*time.Microsecond
			if d > 2*time.Millisecond {
				time.Sleep(d)
			}
			for time.Since(t) < d {
			}
			conns[i].Write([]byte(hello[len(hello)-2:]))
			b := make([]byte, 12)
			if _, err := io.ReadFull(conns[i], b); err != nil {
				return
			}
			got[i] = true
			for err == nil {
				_, err = conns[i].Read(b)
			}
		})
		close(gate)
		t, d := time.Now(), time.Duration(r.Intn(span))*time.Microsecond
		for time.Since(t) < d {
		}
		ol.Close()
		if accept {
			c.Must("end of Accept of a closed WebSocket listener", over)
		}
		mu.Lock()
		for _, nc := range accepted {
			nc.Close()
		}
		taken += len(accepted)
		mu.Unlock()
		c.Must(fmt.Sprintf("end of %d connections of a closed WebSocket listener (accepting %v)", n, accept), done)
		for i := range got {
			if got[i] {
				upgraded++
			}
			conns[i].Close()
		}
		c.Eval(fmt.Sprint("overlay close ", accept, n == 200))
	}
	c.Count("upgraded", int64(upgraded))
	c.Count("accepted", int64(taken))
}

// c11appends: receivers append to, and change, the payloads they received while they hold others.
func c11appends(c *C) {
	r := c.Rng
	mode := []string{"tcp", "ws", "tls", "wss"}[c.K/2%4]
	type held struct {
		p, want []byte
		kind    string
	}
	var mu sync.Mutex
	var ring []held
	var kept int
	keep := func(kind string, p []byte) {
		mu.Lock()
		defer mu.Unlock()
		kept++
		ring = append(ring, held{p, append([]byte(nil), p...), kind})
		junk := gen(uint64(kept)*77+1, 1+kept*7%90)
		out := append(p, junk...)
		ring = append(ring, held{out, append([]byte(nil), out...), kind + " with something appended"})
		for i := range ring {
			o := &ring[i]
			if !same(o.p, o.want) {
				c.Violate("shared-payload", "the payload of a %s changed (at byte %d of %d) when the receiver of another frame appended to its own, or by later traffic", o.kind, diffAt(o.p, o.want), len(o.want))
				return
			}
		}
		c.Eval(fmt.Sprintf("appends %s %s %s size%d", dirName(c.K%2 == 1), mode, kind, bits.Len(uint(len(p)))))
		if len(ring) > 120 {
			ring = append([]held(nil), ring[40:]...)
		}
	}
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		keep("request", q.Payload)
		for f := range q.FrameCh() {
			keep("frame of a request stream", f.Payload)
		}
		if q.Cmd == 2 {
			w.StartWrite(7, 9, qrpc.PushFlag)
			w.WriteBytes(gen(uint64(q.RequestID)<<20|5, int(q.RequestID)%120))
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "push")
			}
		}
		fl := qrpc.FrameFlag(0)
		if q.Cmd == 3 {
			for k := 0; k < 4; k++ {
				w.StartWrite(q.RequestID, 9, qrpc.StreamFlag)
				w.WriteBytes(gen(uint64(q.RequestID)<<20|uint64(k), 1+int(q.RequestID)%60))
				if err := w.EndWrite(); err != nil {
					c.writeFailed("write", err, "stream frame")
				}
			}
			fl = qrpc.StreamFlag | qrpc.StreamEndFlag
		}
		w.StartWrite(q.RequestID, 8, fl)
		w.WriteBytes(gen(uint64(q.RequestID)<<20|9, int(q.RequestID)*3%200))
		if err := w.EndWrite(); err != nil {
			c.writeFailed("write", err, "answer")
		}
	})
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) { keep("push", f.Payload) }
	p := newPair(c, pairOpt{rev: c.K%2 == 1, mode: mode, sub: sub,
		binding: qrpc.ServerBinding{WriteFrameChSize: r.Pick(0, 30)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 30)}}, h)
	n := 60
	rngs := make([]*Rng, 6)
	for i := range rngs {
		rngs[i] = NewRng(int64(r.Uint64()))
	}
	done := parallel(6, func(g int) {
		r := rngs[g]
		for k := 0; k < n && !c.Violated(); k++ {
			cmd := qrpc.Cmd(1 + r.Intn(3))
			if cmd == 2 && c.K%2 == 1 {
				cmd = 1 // a client's pushes are a matter of another property
			}
			pl := gen(r.Uint64(), r.Pick(0, 1, 2, 7, 16, 40, 100, 128, 129, 500, 4000))
			var resp qrpc.Response
			var err error
			if r.Intn(3) == 0 {
				var sw qrpc.StreamWriter
				sw, resp, err = p.open.StreamRequest(cmd, qrpc.StreamFlag|qrpc.NBFlag, pl)
				for m := 0; err == nil && m < 3; m++ {
					sw.StartWrite(4)
					sw.WriteBytes(gen(r.Uint64(), r.Intn(130)))
					err = sw.EndWrite(m == 2)
				}
			} else {
				_, resp, err = p.open.Request(cmd, qrpc.NBFlag, pl)
			}
			if err != nil {
				c.writeFailed("write", err, "request")
				return
			}
			f, err := resp.GetFrame()
			if err != nil {
				c.writeFailed("answer", err, "answer")
				return
			}
			keep("answer", f.Payload)
			if cmd == 3 {
				for f := range f.FrameCh() {
					keep("frame of an answer stream", f.Payload)
				}
			}
		}
	})
	c.Must("the calls", done)
	closeConn(c, p.conn)
}

// c34long: accepting fails for seconds in a row, more than once; what was asked for meanwhile is served afterwards.
func c34long(c *C) {
	mode := c34mode(c)
	var mu sync.Mutex
	kinds := []string{"temporary", "emfile"}
	dur := time.Duration(c.Rng.Range(4000, 7000)) * time.Millisecond
	if c.Tier == "thorough" {
		dur *= time.Duration(c.Rng.Range(1, 4))
	}
	failing := true
	var until time.Time
	rng := NewRng(int64(c.Rng.Uint64()))
	srv, bad := badServer(c, mode, func(i int) string {
		mu.Lock()
		defer mu.Unlock()
		if !failing {
			return ""
		}
		if until.IsZero() {
			until = time.Now().Add(dur)
		}
		if time.Now().After(until) {
			failing = false
			return ""
		}
		return kinds[rng.Intn(2)]
	}, qrpc.ServerBinding{Handler: echoHandler}, qrpc.ServerBinding{Handler: echoHandler})
	for round := 0; round < 2 && !c.Violated(); round++ {
		at := atomic.LoadInt64(&bad.i)
		done := parallel(6, func(g int) {
			to := 0
			if g == 5 {
				to = 1 // the other binding goes on all the while
			}
			conn, err := qrpc.NewConnection(srv.Addrs[to], clientConf(mode, qrpc.ConnectionConfig{DialTimeout: 120 * time.Second}), nil)
			if err != nil {
				c.Violate("accept", "%s: after accepts that failed temporarily for %v: dial: %v", mode, dur, err)
				return
			}
			p := gen(uint64(round*10+g+1), 60)
			_, f, err := c.call(conn, 0x41, qrpc.NBFlag, p)
			if err != nil {
				c.Violate("accept", "%s: binding %d: a connection amid accepts that failed temporarily for %v: %v", mode, to, dur, err)
			} else if rc, rp := respFor(0x41, p); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("echo", "%s: %s", mode, toWs(f))
			}
			c.Eval(fmt.Sprint("long ", mode, to, round))
			conn.Close()
		})
		c.Must("connections made while accepting fails for "+dur.String(), done)
		c.Count("failing_accepts", atomic.LoadInt64(&bad.faults))
		c.Count("accepts", atomic.LoadInt64(&bad.i)-at)
		mu.Lock()
		failing, until = true, time.Time{}
		mu.Unlock()
	}
	mu.Lock()
	failing = false
	mu.Unlock()
	srv.Stop()
	c34returned(c, srv, mode)
}

// c07clienthandler: handlers of the client, whose requests and streams the server opens.
func c07clienthandler(c *C) {
	r := c.Rng
	lg := newWlog()
	var left int32
	h := c07history(c, "client handler", r.Fork(), lg, &left)
	tap := &Tap{}
	ccs := r.Pick(0, 1, 3, 100)
	p := newPair(c, pairOpt{rev: true, wrapC: func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{TapW: tap}) },
		conf: qrpc.ConnectionConfig{WriteFrameChSize: ccs}, binding: qrpc.ServerBinding{WriteFrameChSize: r.Pick(0, 3)}}, h)
	n := 120
	atomic.StoreInt32(&left, int32(n))
	for i := 0; i < n; i++ {
		var err error
		switch k := r.Intn(3); k {
		case 0:
			_, _, err = p.open.Request(1, 0, gen(1, 10))
		default:
			var sw qrpc.StreamWriter
			sw, _, err = p.open.StreamRequest(1, qrpc.FrameFlag(r.Pick(0, int(fEnd)))|qrpc.NBFlag, gen(1, 10))
			if err == nil && k == 2 {
				sw.StartWrite(1)
				sw.EndWrite(true)
			}
		}
		if err != nil {
			c.Violate("refused", "request %d of the server: %v", i, err)
			return
		}
	}
	c.MustUntil("handlers writing after the end", func() bool { return atomic.LoadInt32(&left) == 0 || c.Violated() })
	c.Settle(5)
	if !c.Violated() {
		lg.match(c, "client handler", "refusals", ccs, tap.Bytes())
	}
	closeConn(c, p.conn)
}

// c24noload: a frame that carries the codec flag and no payload is delivered as it is, and needs no codec.
func c24noload(c *C) {
	r := c.Rng
	with := c.K%2 == 0
	var empties int64
	var codec qrpc.CompressorCodec
	if with {
		z := &zlibCodec{}
		codec = &rawCodec{enc: z.Encode, dec: func(b []byte) ([]byte, error) {
			if len(b) == 0 {
				atomic.AddInt64(&empties, 1)
			}
			return z.Decode(b)
		}}
	}
	type got struct {
		id   uint64
		cmd  uint32
		n, m int
	}
	seen := make(chan got, 100)
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		g := got{q.RequestID, uint32(q.Cmd), len(q.Payload), 0}
		for f := range q.FrameCh() {
			g.m++
			g.n += len(f.Payload)
		}
		seen <- g
		answer(w, q)
	})
	var p *RawPeer
	first := uint64(1)
	if c.K/2%2 == 0 {
		srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, Codec: codec})
		p = dialRaw(c, srv.Addrs[0])
	} else { // to a client
		rs := newRawServer(c)
		conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{Handler: h, Codec: codec}, nil)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		defer conn.Close()
		p = newRawPeer(c, rs.next())
		first = 2
	}
	defer p.Close()
	for k := 0; k < 12 && !c.Violated(); k++ {
		f := WFrame{ID: first + 2*uint64(k), Flags: fNB | fCodec, Cmd: uint32(r.Intn(1 << 24))}
		m := 0
		if k%3 == 2 {
			m = 2
			f.Flags |= fStream
		}
		p.Send(f)
		for i := 0; i < m; i++ {
			fl := fStream | fCodec
			if i == m-1 {
				fl |= fEnd
			}
			p.Send(WFrame{ID: f.ID, Flags: fl, Cmd: f.Cmd})
		}
		var g got
		c.Do("delivery of a frame with the codec flag and no payload", func() { g = <-seen })
		if want := (got{f.ID, f.Cmd, 0, m}); g != want {
			c.Violate("noload", "a frame with the codec flag and no payload: %+v was delivered, want %+v", g, want)
		}
		c.MustUntil("answer", func() bool { return len(p.ByID(f.ID)) == 1 || p.Closed() })
		if p.Closed() {
			c.Violate("noload", "a frame with the codec flag and no payload ended the connection (codec configured: %v)", with)
		}
		c.Eval(fmt.Sprint("noload ", with, c.K/2%2, m))
	}
	if n := atomic.LoadInt64(&empties); n != 0 {
		c.Violate("noload", "Decode was called %d times for frames without payload", n)
	}
}

// c16samebindings: servers made from one and the same slice of bindings (changed by the caller in between, as a
// program that starts several servers, or one server again and again, does) are independent: each serves its own
// address with its own handler, and shutting down one closes its own listeners and leaves the other's alone.
func c16samebindings(c *C) {
	r := c.Rng
	n := r.Range(1, 3)
	bs := make([]qrpc.ServerBinding, n)
	type one struct {
		srv   *qrpc.Server
		ws    bool
		addrs []string
		ret   chan error
		conns []*qrpc.Connection
	}
	var all []*one
	again := c.K%3 == 2 // the same addresses again after a shutdown
	for k := 0; k < 3; k++ {
		o := &one{ret: make(chan error, 1)}
		for i := range bs {
			tag := fmt.Sprintf("%d/%d", k, i)
			if !again || k == 0 {
				bs[i].Addr = ownAddr()
			}
			bs[i].Handler = qrpc.HandlerFunc(func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
				fw.StartWrite(q.RequestID, 1, qrpc.NBFlag)
				fw.WriteBytes([]byte(tag))
				fw.EndWrite()
			})
			o.addrs = append(o.addrs, bs[i].Addr)
		}
		o.ws = k == 2 // last: the wrapper sets the overlay in the bindings it is given
		if o.ws {
			o.srv = wsserver.New(bs)
		} else {
			o.srv = qrpc.NewServer(bs)
		}
		if again {
			c.sameUse(k, o.srv, o.ws, o.addrs, o.ret)
			continue
		}
		all = append(all, o)
	}
	if again {
		return
	}
	if r.P(1, 2) { // all listen before any serves
		for k, o := range all {
			if err := o.srv.ListenAll(); err != nil {
				c.Violate("samebindings", "ListenAll of server %d of 3 made from the same bindings: %v", k, err)
				c.Abort()
			}
		}
		for _, o := range all {
			o := o
			go func() { o.ret <- o.srv.ServeAll() }()
		}
	} else {
		for _, o := range all {
			o := o
			go func() { o.ret <- o.srv.ListenAndServe() }()
		}
	}
	order := []int{0, 1, 2}
	for i := range order {
		j := i + r.Intn(3-i)
		order[i], order[j] = order[j], order[i]
	}
	for k, o := range all {
		for i, a := range o.addrs {
			a := a
			c.MustUntil("a server made from bindings used before listens", func() bool { return accepts(a) })
			conn := c.sameDial(a, o.ws)
			if conn == nil {
				return
			}
			o.conns = append(o.conns, conn)
			c.sameAsk(conn, fmt.Sprintf("%d/%d", k, i), "with 3 servers up")
		}
	}
	for step, k := range order {
		o := all[k]
		done := parallel(1, func(int) { o.srv.Shutdown() })
		c.Must("Shutdown of one of the servers made from the same bindings", done)
		for i, a := range o.addrs {
			if accepts(a) {
				c.Violate("listening", "Shutdown of a server made from bindings other servers were made from returned, its binding %d still accepts", i)
			}
			c.Must("end of a client's connection", parallel(1, func(int) { o.conns[i].Wait() }))
		}
		var err error
		c.Do("return of serving", func() { err = <-o.ret })
		if err != qrpc.ErrServerClosed {
			c.Violate("serve-return", "serving of a server made from the same bindings as others returned %v", err)
		}
		for _, k2 := range order[step+1:] {
			o2 := all[k2]
			for i, a := range o2.addrs {
				if !accepts(a) {
					c.Violate("samebindings", "server %d doesn't accept at binding %d after server %d, made from the same bindings, was shut down", k2, i, k)
					continue
				}
				c.sameAsk(o2.conns[i], fmt.Sprintf("%d/%d", k2, i), "after another's Shutdown")
			}
		}
		c.Eval(fmt.Sprint("samebindings ", n, order, step))
	}
}

func (c *C) sameDial(a string, ws bool) *qrpc.Connection {
	var conn *qrpc.Connection
	var err error
	if ws {
		conn, err = wsclient.NewConnection(a, qrpc.ConnectionConfig{DialTimeout: 10 * time.Second}, nil)
	} else {
		conn, err = qrpc.NewConnection(a, qrpc.ConnectionConfig{DialTimeout: 10 * time.Second}, nil)
	}
	if err != nil {
		c.Violate("samebindings", "a connection to a server made from bindings other servers were made from (ws %v): %v", ws, err)
		return nil
	}
	return conn
}

func (c *C) sameAsk(conn *qrpc.Connection, want, when string) {
	_, resp, err := conn.Request(7, qrpc.NBFlag, []byte("q"))
	if err != nil {
		c.Violate("samebindings", "a request to server/binding %s %s: %v", want, when, err)
		return
	}
	var got string
	c.Do("answer of a server made from the same bindings as others", func() {
		f, err := resp.GetFrame()
		if err == nil {
			got = string(f.Payload)
		} else {
			got = "error " + err.Error()
		}
	})
	if got != want {
		c.Violate("samebindings", "a request to server/binding %s %s was answered by %q", want, when, got)
	}
}

// sameUse: the server serves, is used, is shut down; the next one gets the same addresses.
func (c *C) sameUse(k int, srv *qrpc.Server, ws bool, addrs []string, ret chan error) {
	go func() { ret <- srv.ListenAndServe() }()
	var conns []*qrpc.Connection
	for i, a := range addrs {
		a := a
		c.MustUntil("a server at the addresses of its predecessor listens", func() bool { return accepts(a) })
		conn := c.sameDial(a, ws)
		if conn == nil {
			return
		}
		conns = append(conns, conn)
		c.sameAsk(conn, fmt.Sprintf("%d/%d", k, i), "at the addresses of its predecessor")
	}
	c.Must("Shutdown of a successor", parallel(1, func(int) { srv.Shutdown() }))
	for i, a := range addrs {
		if accepts(a) {
			c.Violate("listening", "Shutdown of a server made from its predecessor's bindings returned, binding %d still accepts", i)
		}
		c.Must("end of a client's connection", parallel(1, func(int) { conns[i].Wait() }))
	}
	var err error
	c.Do("return of serving", func() { err = <-ret })
	if err != qrpc.ErrServerClosed {
		c.Violate("serve-return", "serving of a successor returned %v", err)
	}
	c.Eval(fmt.Sprint("successor ", len(addrs), k))
}
