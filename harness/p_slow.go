package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
	"github.com/zhiqiangxu/qrpc/codegen"
)

// Slow workloads: somebody (a handler, a reader, a callback, a transport, an endpoint) takes its time, longer
// than any grace period an implementation may have been given. None of the guarantees has a time limit
// (C28 says which do), so each has to hold across the pause. In between everything else on the connection is busy.

// extend puts jobs in front of those of a property, so that the long ones start first.
func extend(id string, js ...JobSpec) {
	extensions = append(extensions, func() { p := props[id]; p.Jobs = append(js, p.Jobs...) })
}

var extensions []func()

// applyExtensions runs after every property is registered.
func applyExtensions() {
	for _, f := range extensions {
		f()
	}
	extensions = nil
}

func slow(fn func(c *C, pause time.Duration)) JobSpec {
	return JobSpec{Name: "slow", Quick: 1, Deep: 5, Timeout: 6 * time.Minute, NoRace: true, Fn: func(c *C) {
		p := 12 * time.Second
		if c.Tier != "quick" {
			p = []time.Duration{12, 33, 63, 16, 95}[c.K%5] * time.Second
		}
		fn(c, p)
	}}
}

func init() {
	extend("C01", slow(slow01))
	extend("C02", slow(slow02))
	extend("C03", slow(slow03))
	extend("C04", slow(slow04))
	extend("C05", slow(slow05))
	extend("C06", slow(slow06))
	extend("C07", slow(slow07))
	extend("C08", slow(slow08))
	extend("C09", slow(slow09))
	extend("C10", slow(slow10))
	extend("C12", slow(slow12))
	extend("C13", slow(slow13))
	extend("C14", slow(slow14))
	extend("C15", slow(slow15))
	extend("C16", slow(slow16))
	extend("C17", slow(slow17))
	extend("C18", slow(slow18))
	extend("C19", slow(slow19))
	extend("C20", slow(slow20))
	extend("C21", slow(slow21))
	extend("C22", slow(slow22))
	extend("C23", slow(slow23))
}

// after waits for something that ends when the pause is over.
func (c *C) after(what string, pause time.Duration, done <-chan struct{}) {
	if !c.waitAtLeast(done, pause+stallWall+5*time.Second, stallTicks) {
		c.StallAbort(what)
	}
}

const cmdHeld = 0x5e1d

// heldHandler answers at once, and what has cmdHeld when the gate opens.
func heldHandler(gate <-chan struct{}, started *int64) qrpc.Handler {
	return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == cmdHeld {
			atomic.AddInt64(started, 1)
			<-gate
		}
		answer(w, q)
	})
}

// busy keeps making small calls until stop is closed; each has to be answered rightly.
func (p *pair) busy(stop <-chan struct{}, sig, why string) <-chan struct{} {
	r := p.c.Rng.Fork()
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; !closedCh(stop); i++ {
			if !p.echo(sig, why, 0x100+uint32(i%50), qrpc.NBFlag, gen(r.Uint64(), 8+r.Pick(0, 10, 1200))) {
				return
			}
			p.c.Eval("slow busy " + why)
			time.Sleep(time.Duration(r.Range(1, 60)) * time.Millisecond)
		}
	}()
	return done
}

// slow01: answers that come late, and answers that are fetched late.
func slow01(c *C, pause time.Duration) {
	modes := []string{"tcp", "tls", "ws", "wss"}
	done := parallel(8, func(i int) {
		rev, mode := i%2 == 1, modes[i/2]
		r := c.Rng.Fork()
		gate := make(chan struct{})
		var started int64
		p := newPair(c, pairOpt{rev: rev, mode: mode}, heldHandler(gate, &started))
		key := fmt.Sprint("slow ", dirName(rev), mode)
		stop := make(chan struct{})
		busy := p.busy(stop, "slow-busy", key)
		n := 30
		calls := parallel(n, func(k int) {
			pl := gen(r.Uint64(), 8+r.Pick(0, 20, 1500, 70000))
			late := k%3 == 0
			cmd := uint32(cmdHeld)
			if late {
				cmd = 0x200 + uint32(k)
			}
			_, resp, err := p.open.Request(qrpc.Cmd(cmd), qrpc.NBFlag, pl)
			if err != nil {
				c.Violate("request", "%s: Request: %v", key, err)
				return
			}
			if late {
				<-gate
			}
			var f *qrpc.Frame
			if k%2 == 0 {
				f, err = resp.GetFrame()
			} else {
				f, err = resp.GetFrameWithContext(context.Background())
			}
			if err != nil {
				c.Violate("slow-answer", "%s: no answer after %v (fetched late: %v): %v", key, pause, late, err)
				return
			}
			rc, rp := respFor(cmd, pl)
			if uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("slow-answer", "%s: wrong answer after %v (fetched late: %v): cmd %#x want %#x %s", key, pause, late, f.Cmd, rc, brief(f.Payload))
			}
			c.Eval(fmt.Sprint(key, late))
		})
		time.Sleep(pause)
		close(stop)
		c.Must("quick calls", busy)
		close(gate)
		c.after("late answers "+key, 0, calls)
		p.stop()
	})
	c.after("slow answers", pause+20*time.Second, done)
}

// slow02: a blocking handler takes long; what follows it waits for it, whatever the channel sizes.
func slow02(c *C, pause time.Duration) {
	done := parallel(8, func(i int) {
		rev := false // the server's requests to a client are never blocking
		sz := []int{0, 1, 3, 64}[i/2]
		r := c.Rng.Fork()
		gate := make(chan struct{})
		var mu sync.Mutex
		var order []int
		running := 0
		var held int32
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			mu.Lock()
			if !q.Flags.IsNonBlock() {
				running++
				if running > 1 {
					c.Violate("overlap", "slow %s ch %d: %d blocking handlers run at once, after one of them took up to %v", dirName(rev), sz, running, pause)
				}
			}
			order = append(order, int(q.Cmd))
			if atomic.LoadInt32(&held) == 1 {
				c.Violate("overlap", "slow %s ch %d: request %d was dispatched while the blocking one before it is still handled", dirName(rev), sz, q.Cmd)
			}
			mu.Unlock()
			if q.Cmd == 3 {
				atomic.StoreInt32(&held, 1)
				<-gate
				atomic.StoreInt32(&held, 0)
			}
			answer(w, q)
			if !q.Flags.IsNonBlock() {
				mu.Lock()
				running--
				mu.Unlock()
			}
		})
		p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{ReadFrameChSize: sz, WriteFrameChSize: r.Pick(0, 4)}}, h)
		q := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{ReadFrameChSize: sz}}, echoHandler)
		stop := make(chan struct{})
		busy := q.busy(stop, "serialized", "another connection while a blocking handler is slow")
		var resps []qrpc.Response
		var pls [][]byte
		n := r.Range(12, 40)
		nb := r.Range(6, n-1)
		sent := parallel(1, func(int) {
			for k := 1; k <= n; k++ {
				pl := gen(r.Uint64(), 8)
				fl := qrpc.FrameFlag(0)
				if k == nb {
					fl = qrpc.NBFlag
				}
				_, resp, err := p.open.Request(qrpc.Cmd(k), fl, pl)
				if err != nil {
					c.Violate("request", "Request: %v", err)
					return
				}
				resps, pls = append(resps, resp), append(pls, pl)
			}
		})
		time.Sleep(pause)
		close(stop)
		c.Must("quick calls", busy)
		close(gate)
		c.Must("sending", sent)
		for k, resp := range resps {
			f, err := c.getFrame("answer of a blocking request", resp)
			rc, rp := respFor(uint32(k+1), pls[k])
			if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("slow-answer", "slow %s ch %d: blocking request %d: %v", dirName(rev), sz, k+1, err)
			}
			c.Eval(fmt.Sprint("slow ", rev, sz, " k", k))
		}
		mu.Lock()
		last := 0
		for _, o := range order {
			if o == nb {
				continue
			}
			if o < last {
				c.Violate("order", "slow %s ch %d: handled in the order %v", dirName(rev), sz, order)
				break
			}
			last = o
		}
		mu.Unlock()
		p.stop()
		q.stop()
	})
	c.after("slow blocking handlers", pause+30*time.Second, done)
}

// slow03: nonblocking handlers and unread streams stay stalled for long; a peer does not read for long.
func slow03(c *C, pause time.Duration) {
	done := parallel(6, func(i int) {
		rev := i%2 == 1
		mode := []string{"tcp", "ws", "tls"}[i/2]
		gate := make(chan struct{})
		var started int64
		p := newPair(c, pairOpt{rev: rev, mode: mode}, heldHandler(gate, &started))
		n := 40
		var resps []qrpc.Response
		for k := 0; k < n; k++ {
			var resp qrpc.Response
			var err error
			if k%4 == 0 {
				_, resp, err = p.open.(qrpc.StreamInitiator).StreamRequest(cmdHeld, qrpc.NBFlag, gen(uint64(k), 20))
			} else {
				_, resp, err = p.open.Request(cmdHeld, qrpc.NBFlag, gen(uint64(k), 20))
			}
			if err != nil {
				c.Violate("request", "Request: %v", err)
				return
			}
			resps = append(resps, resp)
		}
		c.MustUntil("start of the handlers", func() bool { return atomic.LoadInt64(&started) == int64(n) })
		stop := make(chan struct{})
		busy := p.busy(stop, "delayed", fmt.Sprint("with 40 stalled handlers ", rev, mode))
		var stuck *RawPeer
		if !rev && mode == "tcp" {
			// a peer that does not read its answers
			nc, err := net.Dial("tcp", p.srv.Addrs[0])
			if err == nil {
				stuck = newRawPeerHeld(c, nc)
				nc.SetWriteDeadline(time.Now().Add(pause / 2))
				for k := 0; k < 4000; k++ {
					if stuck.Send(WFrame{ID: uint64(2*k + 1), Flags: fNB, Cmd: 0x11, Payload: gen(uint64(k), 4000)}) != nil {
						break
					}
				}
			}
		}
		time.Sleep(pause)
		close(stop)
		c.Must("quick calls", busy)
		close(gate)
		for k, resp := range resps {
			f, err := c.getFrame("answer of a stalled handler", resp)
			rc, rp := respFor(cmdHeld, gen(uint64(k), 20))
			if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("slow-answer", "slow %s %s: stalled request %d: %v", dirName(rev), mode, k, err)
			}
			c.Eval(fmt.Sprint("slow ", rev, mode, k%4 == 0))
		}
		if stuck != nil {
			stuck.Close()
			stuck.release()
		}
		p.stop()
	})
	c.after("stalled handlers", pause+30*time.Second, done)
}

// slow04: the reader of a stream, or its writer, takes its time.
func slow04(c *C, pause time.Duration) {
	done := parallel(16, func(i int) {
		rev, answerSide, slowReader, long := i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0
		r := c.Rng.Fork()
		n := 24
		if long {
			n = 400
		}
		key := fmt.Sprintf("slow %s answer=%v slow-reader=%v n=%d", dirName(rev), answerSide, slowReader, n)
		frame := func(k int) (qrpc.Cmd, []byte) {
			return qrpc.Cmd(0x300 + k), gen(uint64(k)*7919+uint64(i)+1, 8+k*37%2000)
		}
		at := r.Pick(0, 1, n/2, n-1)
		put := func(w func(k int, end bool) error) {
			for k := 0; k < n; k++ {
				if !slowReader && k == at {
					time.Sleep(pause)
				}
				if err := w(k, k == n-1); err != nil {
					c.writeFailed("stream-write", err, "%s: frame %d", key, k)
					return
				}
			}
		}
		get := func(ch <-chan *qrpc.Frame, from int, done <-chan struct{}) {
			for k := from; ; k++ {
				if slowReader && k == max0(at-1)+from {
					time.Sleep(pause)
				}
				var f *qrpc.Frame
				if slowReader {
					f = c.nextFrame("next frame of a stream", ch)
				} else {
					got := make(chan struct{})
					go func() { defer close(got); f = <-ch }()
					c.after("next frame of a stream", pause, got)
				}
				if f == nil {
					if k != n {
						c.Violate("stream-short", "%s: the stream ended after %d of %d frames", key, k, n)
					}
					return
				}
				cmd, p := frame(k)
				if k >= n || f.Cmd != cmd || !same(f.Payload, p) {
					c.Violate("stream-frame", "%s: frame %d of %d has cmd %#x, %s", key, k, n, f.Cmd, brief(f.Payload))
					return
				}
				c.Eval(key)
			}
		}
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			if q.Cmd != 0x2ff {
				answer(w, q)
				return
			}
			if !answerSide {
				get(q.FrameCh(), 0, nil)
				answer(w, q)
				return
			}
			put(func(k int, end bool) error {
				cmd, p := frame(k)
				fl := qrpc.StreamFlag
				if end {
					fl |= qrpc.StreamEndFlag
				}
				w.StartWrite(q.RequestID, cmd, fl)
				w.WriteBytes(p)
				return w.EndWrite()
			})
		})
		p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{ReadFrameChSize: r.Pick(0, 4), WriteFrameChSize: r.Pick(0, 4)}}, h)
		pl := gen(r.Uint64(), 30)
		fl := qrpc.NBFlag
		if answerSide {
			fl |= qrpc.StreamEndFlag
		}
		sw, resp, err := p.open.(qrpc.StreamInitiator).StreamRequest(0x2ff, fl, pl)
		if err != nil {
			c.Violate("stream-open", "%s: %v", key, err)
			return
		}
		if answerSide {
			if slowReader {
				time.Sleep(time.Second)
			}
			var f *qrpc.Frame
			got := make(chan struct{})
			go func() { defer close(got); f, err = resp.GetFrame() }()
			c.after("first frame of an answer", pause, got)
			cmd, p0 := frame(0)
			if err != nil || f.Cmd != cmd || !same(f.Payload, p0) {
				c.Violate("stream-frame", "%s: first frame: %v %+v", key, err, f)
			} else {
				get(f.FrameCh(), 1, nil)
			}
		} else {
			put(func(k int, end bool) error {
				cmd, p := frame(k)
				sw.StartWrite(cmd)
				sw.WriteBytes(p)
				return sw.EndWrite(end)
			})
			var f *qrpc.Frame
			got := make(chan struct{})
			go func() { defer close(got); f, err = resp.GetFrame() }()
			c.after("answer of a stream", pause, got)
			rc, rp := respFor(0x2ff, pl)
			if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("stream-answer", "%s: the answer after the stream: %v", key, err)
			}
		}
		p.echo("after", key, 0x44, 0, pl)
		p.stop()
	})
	c.after("slow streams", 2*pause+30*time.Second, done)
}

// slow05: the transport takes part of a frame, then nothing for long.
func slow05(c *C, pause time.Duration) {
	done := parallel(6, func(i int) {
		rev := i%2 == 1 // the frames watched are those the server (false) or the client (true) writes
		r := c.Rng.Fork()
		tap := &Tap{}
		var n int64
		at := int64(r.Range(2, 30))
		wrap := func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), WChunk: r.Pick(0, 7, 100), TapW: tap, OnPiece: func() {
				if atomic.AddInt64(&n, 1) == at {
					time.Sleep(pause)
				}
			}})
		}
		o := pairOpt{rev: rev, binding: qrpc.ServerBinding{WriteFrameChSize: r.Pick(0, 1, 8)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1, 8)}}
		if rev {
			o.wrapC = wrap
		} else {
			o.wrapS = func(_ int, nc net.Conn) net.Conn { return wrap(nc) }
		}
		p := newPair(c, o, echoHandler)
		log := newWlog()
		calls := parallel(10, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(i))))
			for k := 0; k < 20 && !c.Violated(); k++ {
				pl := gen(rr.Uint64(), 8+rr.Pick(0, 8, 1000, 1009, 5000))
				id, resp, err := p.open.Request(0x91, qrpc.NBFlag, pl)
				if err != nil {
					c.Violate("request", "Request: %v", err)
					return
				}
				f, err := resp.GetFrame()
				rc, rp := respFor(0x91, pl)
				if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("slow-answer", "answer over a transport that paused %v: %v", pause, err)
					return
				}
				log.ok(g, WFrame{ID: id, Cmd: rc, Payload: rp})
				c.Eval(fmt.Sprint("slow transport ", rev, k))
			}
		})
		c.after("calls over a slow transport", pause, calls)
		p.stop()
		fs, rest, err := parseWire(tap.Bytes())
		if err != nil || len(rest) != 0 {
			c.Violate("slow-wire", "after a pause of %v in the middle of a frame %d bytes on the wire make no frame: %v", pause, len(rest), err)
		}
		c.Count("frames_on_wire", int64(len(fs)))
		if len(fs) != log.total() {
			c.Violate("slow-wire", "%d frames on the wire, %d answers", len(fs), log.total())
		}
	})
	c.after("slow transports", pause+30*time.Second, done)
}

// slow06: the bytes of a frame come with a long pause between any two of them.
func slow06(c *C, pause time.Duration) {
	srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: echoHandler, ReadFrameChSize: 2})
	pl := gen(c.Rng.Uint64(), 1500)
	b := WFrame{ID: 5, Flags: fNB, Cmd: 0x61, Payload: pl}.Bytes()
	pre := WFrame{ID: 3, Flags: fNB, Cmd: 0x62, Payload: pl[:9]}.Bytes()
	rc, rp := respFor(0x61, pl)
	var cuts []int
	for i := 0; i <= 18; i++ {
		cuts = append(cuts, i)
	}
	cuts = append(cuts, 100, 1023, 1024, 1039, 1040, 1041, 1515)
	done := parallel(2*len(cuts), func(i int) {
		cut := cuts[i/2]
		p := dialRaw(c, srv.Addrs[0])
		if i%2 == 0 {
			p.nc.Write(append(append([]byte(nil), pre...), b[:cut]...))
		} else {
			p.nc.Write(b[:cut])
		}
		time.Sleep(pause)
		if p.Closed() {
			c.Violate("slow-frame", "the connection was closed while %d bytes of a frame had come for %v, without any time limit: %v", cut, pause, p.Err())
			return
		}
		p.nc.Write(b[cut:])
		c.MustUntil("answer to a frame that came in pieces", func() bool { return len(p.ByID(5)) > 0 || p.Closed() })
		fs := p.ByID(5)
		if len(fs) != 1 || fs[0].Cmd != rc || !same(fs[0].Payload, rp) {
			c.Violate("slow-frame", "a frame that paused %v after %d bytes: %d answers", pause, cut, len(fs))
		}
		c.Eval(fmt.Sprint("slow frame cut ", cut, i%2))
		p.Close()
	})
	c.after("slow frames", pause+20*time.Second, done)
	srv.Stop()
}

// slow07: writes long after the end of their half.
func slow07(c *C, pause time.Duration) {
	gate := make(chan struct{})
	var refused, ran int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		kind := q.Cmd
		if kind < 1 || kind > 3 {
			answer(w, q)
			return
		}
		switch kind {
		case 1:
			answer(w, q)
		case 2:
			w.StartWrite(q.RequestID, 0x99, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.WriteBytes([]byte("end"))
			w.EndWrite()
		case 3:
			w.ResetFrame(q.RequestID, 1)
		}
		<-gate
		for k := 0; k < 3; k++ {
			fl := qrpc.FrameFlag(0)
			if k == 1 {
				fl = qrpc.StreamFlag
			}
			w.StartWrite(q.RequestID, 0xdead, fl)
			w.WriteBytes([]byte("late"))
			if err := w.EndWrite(); err == nil {
				c.Violate("late-write", "a write %v after the end (kind %d) was accepted", pause, kind)
			} else {
				atomic.AddInt64(&refused, 1)
			}
		}
		atomic.AddInt64(&ran, 1)
	})
	srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h})
	p := dialRaw(c, srv.Addrs[0])
	n := 30
	for k := 0; k < n; k++ {
		fl := fNB
		if k%5 == 4 {
			fl |= fStream // stays open at this side
		}
		p.Send(WFrame{ID: uint64(2*k + 1), Flags: fl, Cmd: uint32(1 + k%3), Payload: gen(uint64(k), 12)})
	}
	c.MustUntil("the first frames", func() bool { return p.N() == n })
	time.Sleep(pause)
	close(gate)
	c.MustUntil("late writes", func() bool { return atomic.LoadInt64(&ran) == int64(n) })
	p.Send(WFrame{ID: 1001, Flags: fNB, Cmd: 0x44, Payload: gen(1, 9)})
	c.MustUntil("the probe", func() bool { return len(p.ByID(1001)) == 1 || p.Closed() })
	c.Settle(10)
	if p.N() != n+1 {
		c.Violate("late-bytes", "late writes put %d frames on the wire", p.N()-n-1)
	}
	for k := 0; k < n; k++ {
		c.Eval(fmt.Sprint("slow late write ", k%3, k%5 == 4))
	}
	c.Count("late_writes_refused", atomic.LoadInt64(&refused))
	p.Close()
	srv.Stop()
}

// slow08: a context lives as long as its request, however long; a reset after long hits its target only.
func slow08(c *C, pause time.Duration) {
	done := parallel(4, func(i int) {
		rev, mode := i%2 == 1, []string{"tcp", "ws"}[i/2]
		r := c.Rng.Fork()
		key := fmt.Sprint("slow ", dirName(rev), mode)
		gate := make(chan struct{})
		var mu sync.Mutex
		ctxs := map[uint64]context.Context{}
		chEnd := map[uint64]chan struct{}{}
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			if q.Cmd != cmdHeld {
				answer(w, q)
				return
			}
			ended := make(chan struct{})
			mu.Lock()
			ctxs[q.RequestID] = q.Context()
			chEnd[q.RequestID] = ended
			mu.Unlock()
			go func() {
				for range q.FrameCh() {
				}
				close(ended)
			}()
			<-gate
			answer(w, q)
		})
		p := newPair(c, pairOpt{rev: rev, mode: mode}, h)
		type reqT struct {
			id   uint64
			resp qrpc.Response
			pl   []byte
			strm bool
			sw   qrpc.StreamWriter
		}
		var reqs []reqT
		n := 20
		for k := 0; k < n; k++ {
			x := reqT{pl: gen(r.Uint64(), 20), strm: k%2 == 0}
			var err error
			if x.strm {
				x.sw, x.resp, err = p.open.(qrpc.StreamInitiator).StreamRequest(cmdHeld, qrpc.NBFlag, x.pl)
				if err == nil {
					x.id = x.sw.RequestID()
				}
			} else {
				x.id, x.resp, err = p.open.Request(cmdHeld, qrpc.NBFlag, x.pl)
			}
			if err != nil {
				c.Violate("request", "%s: %v", key, err)
				return
			}
			reqs = append(reqs, x)
		}
		c.MustUntil("start of the handlers", func() bool { mu.Lock(); defer mu.Unlock(); return len(ctxs) == n })
		stop := make(chan struct{})
		busy := p.busy(stop, "busy", key)
		time.Sleep(pause)
		victim := map[uint64]bool{}
		alive := func(when string) {
			mu.Lock()
			defer mu.Unlock()
			for id, ctx := range ctxs {
				if (ctx.Err() != nil) && !victim[id] {
					c.Violate("cancelled", "%s: the context of request %d, which is neither answered nor reset, is cancelled %s", key, id, when)
				}
			}
			for _, x := range reqs {
				if x.strm && !victim[x.id] && closedCh(chEnd[x.id]) {
					c.Violate("ended", "%s: the frame channel of open stream %d ended %s", key, x.id, when)
				}
			}
		}
		alive(fmt.Sprint("within ", pause))
		for k := 0; k < n; k += 3 {
			victim[reqs[k].id] = true
			if err := p.reset(reqs[k].id, 7); err != nil {
				c.Violate("reset", "%s: resetting a pending request: %v", key, err)
			}
		}
		for k := 0; k < n; k += 3 {
			mu.Lock()
			ctx, ended := ctxs[reqs[k].id], chEnd[reqs[k].id]
			mu.Unlock()
			c.Must("cancellation after a late reset", ctx.Done())
			c.Must("end of the frame channel after a late reset", ended)
			c.Eval(key + " reset")
		}
		c.Settle(20)
		alive("after others were reset")
		close(stop)
		c.Must("quick calls", busy)
		for _, x := range reqs {
			if x.strm && !victim[x.id] {
				x.sw.StartWrite(1)
				x.sw.EndWrite(true)
			}
		}
		close(gate)
		for _, x := range reqs {
			if victim[x.id] {
				continue
			}
			f, err := c.getFrame("late answer", x.resp)
			rc, rp := respFor(cmdHeld, x.pl)
			if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("slow-answer", "%s: request %d, not reset: %v", key, x.id, err)
			}
			c.Eval(key + " answered")
		}
		p.stop()
	})
	c.after("late resets", pause+30*time.Second, done)
}

// slow09: what has waited for long is released as well.
func slow09(c *C, pause time.Duration) {
	done := parallel(4, func(i int) {
		rev, how := i%2 == 1, i/2
		key := fmt.Sprint("slow ", dirName(rev), how)
		gate := make(chan struct{})
		var started, cancelled int64
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			atomic.AddInt64(&started, 1)
			<-q.Context().Done()
			for range q.FrameCh() {
			}
			atomic.AddInt64(&cancelled, 1)
		})
		p := newPair(c, pairOpt{rev: rev}, h)
		n := 20
		calls := parallel(n, func(k int) {
			var resp qrpc.Response
			var err error
			if k%2 == 0 {
				_, resp, err = p.open.Request(cmdHeld, qrpc.NBFlag, nil)
			} else {
				_, resp, err = p.open.(qrpc.StreamInitiator).StreamRequest(cmdHeld, qrpc.NBFlag, nil)
			}
			if err != nil {
				c.Violate("request", "%s: %v", key, err)
				return
			}
			if f, err := resp.GetFrame(); err == nil {
				c.Violate("answer", "%s: a request nobody answered got %+v", key, f)
			}
			c.Eval(key)
		})
		c.MustUntil("start of the handlers", func() bool { return atomic.LoadInt64(&started) == int64(n) })
		time.Sleep(pause)
		if p.open.IsClosed() || atomic.LoadInt64(&cancelled) != 0 || closedCh(calls) {
			c.Violate("ended", "%s: within %v of waiting the connection ended or requests were released (%d cancelled)", key, pause, atomic.LoadInt64(&cancelled))
		}
		if how == 0 {
			p.conn.Close()
		} else {
			p.ci.GetWriter() // both sides know the connection
			p.ci.Close()
		}
		c.Must("requests pending for long on a closed connection", calls)
		c.Must("Wait", parallel(1, func(int) { p.conn.Wait() }))
		c.MustUntil("handlers running for long on a closed connection", func() bool { return atomic.LoadInt64(&cancelled) == int64(n) })
		close(gate)
		p.stop()
	})
	c.after("late ends", pause+30*time.Second, done)
}

// slow10: handlers that panic after they have run for long.
func slow10(c *C, pause time.Duration) {
	done := parallel(4, func(i int) {
		rev, mode := i%2 == 1, []string{"tcp", "ws"}[i/2]
		r := c.Rng.Fork()
		key := fmt.Sprint("slow ", dirName(rev), mode)
		gate := make(chan struct{})
		var started int64
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			if q.Cmd == cmdHeld || q.Cmd == cmdHeld+1 {
				atomic.AddInt64(&started, 1)
				<-gate
				if q.Cmd == cmdHeld {
					panic(key)
				}
			}
			answer(w, q)
		})
		p := newPair(c, pairOpt{rev: rev, mode: mode}, h)
		stop := make(chan struct{})
		busy := p.busy(stop, "busy", key)
		calls := parallel(20, func(k int) {
			pl := gen(r.Uint64(), 20)
			cmd := uint32(cmdHeld + k%2)
			_, resp, err := p.open.Request(qrpc.Cmd(cmd), qrpc.NBFlag, pl)
			if err != nil {
				c.Violate("request", "%s: %v", key, err)
				return
			}
			f, err := resp.GetFrame()
			rc, rp := respFor(cmd, pl)
			if k%2 == 0 && err == nil {
				c.Violate("answer", "%s: a request whose handler panicked was answered %+v", key, f)
			}
			if k%2 == 1 && (err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp)) {
				c.Violate("other", "%s: a request beside panicking ones: %v", key, err)
			}
			c.Eval(fmt.Sprint(key, k%2))
		})
		time.Sleep(pause)
		close(gate)
		c.after("requests whose handlers panic late", 0, calls)
		close(stop)
		c.Must("quick calls", busy)
		p.echo("after", key, 0x45, 0, gen(1, 10))
		p.stop()
	})
	c.after("late panics", pause+20*time.Second, done)
}

// slow12: a subscription callback takes long.
func slow12(c *C, pause time.Duration) {
	done := parallel(4, func(i int) {
		toServer, mode := i%2 == 1, []string{"tcp", "ws"}[i/2]
		r := c.Rng.Fork()
		key := fmt.Sprint("slow subscriber server=", toServer, mode)
		var mu sync.Mutex
		var got []uint64
		gate := make(chan struct{})
		recv := func(f *qrpc.Frame) {
			t := tagOf(f.Payload)
			if !same(f.Payload, gen(t, 8+int(t%3000))) || uint64(f.Cmd) != t%0xffff {
				c.Violate("push", "%s: a push was delivered as cmd %#x %s", key, f.Cmd, brief(f.Payload))
			}
			if t%100 == 5 {
				<-gate
			}
			mu.Lock()
			got = append(got, t)
			mu.Unlock()
		}
		o := pairOpt{mode: mode, otherSide: echoHandler}
		o.sub = func(_ *qrpc.Connection, f *qrpc.Frame) { recv(f) }
		o.binding.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { recv(f) }
		p := newPair(c, o, echoHandler)
		n := 60
		sent := parallel(1, func(int) {
			for k := 1; k <= n; k++ {
				t := uint64(k)*1000 + uint64(r.Intn(90)) + 6
				if k == 10 {
					t = uint64(k)*1000 + 5
				}
				var err error
				if toServer {
					_, _, err = p.conn.Request(qrpc.Cmd(t%0xffff), qrpc.NBFlag|qrpc.PushFlag, gen(t, 8+int(t%3000)))
				} else {
					_, _, err = p.ci.Request(qrpc.Cmd(t%0xffff), qrpc.NBFlag|qrpc.PushFlag, gen(t, 8+int(t%3000)))
				}
				if err != nil {
					c.Violate("push", "%s: pushing: %v", key, err)
				}
			}
		})
		c.Must("pushes to a slow subscriber", sent)
		time.Sleep(pause)
		close(gate)
		c.MustUntil("pushes", func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= n })
		f, err := p.call(0x46, qrpc.NBFlag, gen(3, 20))
		if rc, rp := respFor(0x46, gen(3, 20)); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("after", "%s: a request after the slow callback: %v", key, err)
		}
		mu.Lock()
		for k := 1; k < len(got); k++ {
			if got[k] <= got[k-1] {
				c.Violate("order", "%s: pushes of one writer were delivered in the order %v", key, got)
				break
			}
		}
		if len(got) != n {
			c.Violate("once", "%s: %d pushes delivered, %d sent", key, len(got), n)
		}
		mu.Unlock()
		for k := 0; k < n; k++ {
			c.Eval(fmt.Sprint(key, k%3))
		}
		p.stop()
	})
	c.after("slow subscribers", pause+30*time.Second, done)
}

// slow13: the client takes long to answer the server, whose clients go on meanwhile.
func slow13(c *C, pause time.Duration) {
	done := parallel(3, func(i int) {
		mode := []string{"tcp", "tls", "ws"}[i]
		gate := make(chan struct{})
		var started int64
		p := newPair(c, pairOpt{rev: true, mode: mode, otherSide: echoHandler}, heldHandler(gate, &started))
		key := "slow client " + mode
		r := c.Rng.Fork()
		n := 300
		calls := parallel(n, func(k int) {
			pl := gen(r.Uint64(), 8+r.Pick(0, 20, 1500))
			_, resp, err := p.ci.Request(cmdHeld, qrpc.NBFlag, pl)
			if err != nil {
				c.Violate("request", "%s: Request: %v", key, err)
				return
			}
			f, err := resp.GetFrame()
			rc, rp := respFor(cmdHeld, pl)
			if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("slow-answer", "%s: answered after %v: %v", key, pause, err)
			}
			c.Eval(key)
		})
		stop := make(chan struct{})
		busy := p.busy(stop, "busy", key+" server calls")
		own := parallel(1, func(int) {
			for k := 0; !closedCh(stop); k++ {
				c.probe(p.conn, "busy", key+" client calls")
				time.Sleep(20 * time.Millisecond)
			}
		})
		time.Sleep(pause)
		if a := atomic.LoadInt64(&started); a != int64(n) {
			c.Violate("dispatch", "%s: %d of %d requests were dispatched within %v", key, a, n, pause)
		}
		close(stop)
		c.Must("quick calls", busy)
		c.Must("quick calls of the client", own)
		close(gate)
		c.Must("late answers to the server", calls)
		p.stop()
	})
	c.after("slow clients", pause+30*time.Second, done)
}

// slow14: the owner of an id is idle for long; the kick callback takes long.
func slow14(c *C, pause time.Duration) {
	gate := make(chan struct{})
	var inKick, kicks int64
	b := qrpc.ServerBinding{Handler: echoHandler}
	b.OnKickCB = func(w qrpc.FrameWriter) {
		atomic.AddInt64(&inKick, 1)
		<-gate
		atomic.AddInt64(&kicks, 1)
	}
	b2 := qrpc.ServerBinding{Handler: echoHandler}
	b2.OnKickCB = func(w qrpc.FrameWriter) { atomic.AddInt64(&kicks, 1) }
	srv := startServer(c, "tcp", nil, b, b2)
	owner := make([]*qrpc.ConnectionInfo, 40)
	conns := make([]*qrpc.Connection, 40)
	walk := func(bi int) (cis []*qrpc.ConnectionInfo) {
		srv.S.WalkConn(bi, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { cis = append(cis, ci); return true })
		return
	}
	known := map[*qrpc.ConnectionInfo]bool{}
	newCI := func(bi int) (ci *qrpc.ConnectionInfo) {
		c.MustUntil("registration", func() bool {
			for _, x := range walk(bi) {
				if !known[x] {
					known[x] = true
					ci = x
					return true
				}
			}
			return false
		})
		return
	}
	for i := range owner {
		bi := i % 2
		conns[i] = srv.dialTo(bi, qrpc.ConnectionConfig{}, nil)
		owner[i] = newCI(bi)
		id := fmt.Sprint("id", i/2)
		c.Do("SetID", func() { owner[i].SetID(id) })
	}
	look := func(when string) {
		for i, o := range owner {
			id := fmt.Sprint("id", i/2)
			sc := srv.S.GetConnectionInfoByID(i%2, id)
			if sc == nil {
				c.Violate("lost", "%s: the id %s of binding %d has no owner", when, id, i%2)
			} else if sc != o {
				c.Violate("owner", "%s: the id %s of binding %d belongs to another connection", when, id, i%2)
			}
			c.Eval("slow owner " + when)
		}
	}
	look("at once")
	// takeovers of id0 and id1 of binding 0, whose kick callback does not return for long
	heir := []*qrpc.Connection{srv.dialTo(0, qrpc.ConnectionConfig{}, nil), srv.dialTo(0, qrpc.ConnectionConfig{}, nil)}
	heirCI := []*qrpc.ConnectionInfo{newCI(0), newCI(0)}
	bound := parallel(2, func(k int) { heirCI[k].SetID(fmt.Sprint("id", k)) })
	old := []*qrpc.ConnectionInfo{owner[0], owner[2]}
	owner[0], owner[2] = heirCI[0], heirCI[1]
	c.MustUntil("kick callbacks", func() bool { return atomic.LoadInt64(&inKick) == 2 })
	time.Sleep(pause)
	close(gate)
	c.Must("binding with a slow kick callback", bound)
	c.MustUntil("end of the kicked connections", func() bool { return old[0].IsClosed() && old[1].IsClosed() })
	look(fmt.Sprint("after ", pause))
	c.Settle(5)
	if k := atomic.LoadInt64(&kicks); k != 2 {
		c.Violate("kicks", "two takeovers made %d kick callbacks", k)
	}
	for _, x := range heir {
		c.probe(x, "heir", "the connection that took over")
		closeConn(c, x)
	}
	for i, x := range conns {
		if i != 0 && i != 2 {
			c.probe(x, "idle", "an idle owner")
		}
		closeConn(c, x)
	}
	srv.Stop()
}

// slow15: handlers that outlive their connection for long hold back its close callback, and nothing else.
func slow15(c *C, pause time.Duration) {
	gate := make(chan struct{})
	var mu sync.Mutex
	active := map[string]int{}
	onClose := map[string]int{}
	notified := map[string]int{}
	b := qrpc.ServerBinding{}
	var started int64
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		a := q.ConnectionInfo().RemoteAddr()
		mu.Lock()
		active[a]++
		mu.Unlock()
		atomic.AddInt64(&started, 1)
		if q.Cmd == cmdHeld {
			<-gate
		} else {
			answer(w, q)
		}
		mu.Lock()
		active[a]--
		mu.Unlock()
	})
	b.LifecycleCallbacks.OnClose = func(nc net.Conn) {
		a := nc.RemoteAddr().String()
		mu.Lock()
		onClose[a]++
		if active[a] > 0 {
			c.Violate("close-early", "the close callback ran while %d handlers of the connection are running", active[a])
		}
		mu.Unlock()
	}
	srv := startServer(c, "tcp", nil, b)
	n, total := 12, 0
	var peers []*RawPeer
	var addrs []string
	for i := 0; i < n; i++ {
		p := dialRaw(c, srv.Addrs[0])
		peers, addrs = append(peers, p), append(addrs, p.nc.LocalAddr().String())
		for k := 0; k < 1+i%3; k++ {
			fl := fNB
			if i%4 == 3 {
				fl = 0
			}
			if fl != 0 || k == 0 {
				total++
			}
			p.Send(WFrame{ID: uint64(2*k + 1), Flags: fl, Cmd: cmdHeld})
		}
	}
	c.MustUntil("start of the handlers", func() bool { return atomic.LoadInt64(&started) == int64(total) })
	count := func() (k int) {
		srv.S.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { k++; return true })
		return
	}
	srv.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		a := ci.RemoteAddr()
		ci.NotifyWhenClose(func() { mu.Lock(); notified[a]++; mu.Unlock() })
		return true
	})
	time.Sleep(pause / 4)
	if k := count(); k != n {
		c.Violate("walk", "%d of %d open connections are visited", k, n)
	}
	for _, p := range peers {
		p.Close()
	}
	time.Sleep(pause)
	mu.Lock()
	for _, a := range addrs {
		if onClose[a] > 0 {
			c.Violate("close-early", "the close callback of %s ran although its handler is running", a)
		}
	}
	mu.Unlock()
	// others come and go meanwhile
	p := dialRaw(c, srv.Addrs[0])
	p.Send(WFrame{ID: 1, Cmd: 0x12})
	c.MustUntil("answer on another connection", func() bool { return p.N() == 1 })
	pa := p.nc.LocalAddr().String()
	p.Close()
	c.MustUntil("close callback of another connection", func() bool { mu.Lock(); defer mu.Unlock(); return onClose[pa] == 1 })
	close(gate)
	c.MustUntil("close callbacks", func() bool {
		mu.Lock()
		defer mu.Unlock()
		k := 0
		for _, a := range addrs {
			k += onClose[a]
		}
		return k >= n
	})
	c.Settle(10)
	mu.Lock()
	for _, a := range addrs {
		if onClose[a] != 1 || notified[a] != 1 {
			c.Violate("once", "close callback %d times, close notification %d times", onClose[a], notified[a])
		}
		c.Eval("slow close " + fmt.Sprint(len(a)))
	}
	mu.Unlock()
	c.MustUntil("end of the registrations", func() bool { return count() == 0 })
	srv.Stop()
}

// slow16: Shutdown waits for handlers, however long they take.
func slow16(c *C, pause time.Duration) {
	done := parallel(3, func(i int) {
		gate := make(chan struct{})
		var running, started int64
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			atomic.AddInt64(&running, 1)
			atomic.AddInt64(&started, 1)
			defer atomic.AddInt64(&running, -1)
			if q.Cmd == cmdHeld {
				<-gate
			}
			answer(w, q)
		})
		srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h}, qrpc.ServerBinding{Handler: h})
		var fns int64
		srv.S.OnShutdown(func() { atomic.AddInt64(&fns, 1) })
		var peers []*RawPeer
		n := 6
		for k := 0; k < n; k++ {
			p := dialRaw(c, srv.Addrs[k%2])
			fl := byte(0)
			if i == 1 {
				fl = fNB
			}
			p.Send(WFrame{ID: 1, Flags: fl, Cmd: cmdHeld})
			peers = append(peers, p)
		}
		c.MustUntil("start of the handlers", func() bool { return atomic.LoadInt64(&started) == int64(n) })
		down := parallel(2, func(int) {
			srv.S.Shutdown()
			if k := atomic.LoadInt64(&running); k != 0 {
				c.Violate("running", "Shutdown returned while %d handlers are running", k)
			}
			if atomic.LoadInt64(&fns) != 1 {
				c.Violate("functions", "Shutdown returned with the shutdown function run %d times", fns)
			}
		})
		time.Sleep(pause)
		if closedCh(down) {
			c.Violate("running", "Shutdown returned within %v while handlers are running", pause)
		}
		close(gate)
		c.Must("Shutdown after its handlers returned", down)
		for _, a := range srv.Addrs {
			if accepts(a) {
				c.Violate("accepts", "an address accepts after Shutdown")
			}
			c.Eval(fmt.Sprint("slow shutdown ", i))
		}
		select {
		case err := <-srv.Ret:
			if err != qrpc.ErrServerClosed {
				c.Violate("serve", "serving returned %v", err)
			}
		case <-time.After(10 * time.Second):
			c.Violate("serve", "serving did not return after Shutdown")
		}
		for _, p := range peers {
			c.MustUntil("end of the connections", p.Closed)
			p.Close()
		}
	})
	c.after("slow shutdowns", pause+30*time.Second, done)
}

// slow17: the limit holds for handlers that take long, and frees what they took.
func slow17(c *C, pause time.Duration) {
	limits := []int32{1, 3, 40}
	done := parallel(len(limits), func(i int) {
		N := limits[i]
		w := newLimWorld(c, "tcp", qrpc.ServerBinding{MaxInboundInflightStreamPerConn: N})
		good, bad, idle := dialRaw(c, w.s.Addrs[0]), dialRaw(c, w.s.Addrs[0]), dialRaw(c, w.s.Addrs[0])
		ga, ba := good.nc.LocalAddr().String(), bad.nc.LocalAddr().String()
		for k := int32(0); k < N; k++ {
			good.Send(WFrame{ID: uint64(2*k + 1), Flags: fNB, Cmd: lHold, Payload: gen(uint64(k), 9)})
			bad.Send(WFrame{ID: uint64(2*k + 1), Flags: fNB, Cmd: lHold, Payload: gen(uint64(k), 9)})
		}
		c.MustUntil("start of N handlers", func() bool {
			return atomic.LoadInt32(&w.of(ga).active) == N && atomic.LoadInt32(&w.of(ba).active) == N
		})
		time.Sleep(pause)
		if good.Closed() || bad.Closed() || idle.Closed() {
			c.Violate("closed", "limit %d: a connection with exactly that many slow handlers was closed within %v", N, pause)
		}
		bad.Send(WFrame{ID: 9001, Flags: fNB, Cmd: lQuick})
		c.MustUntil("closing of the connection over its limit", bad.Closed)
		if m := atomic.LoadInt32(&w.of(ba).max); m > N {
			c.Violate("over", "limit %d: %d handlers at once after %v", N, m, pause)
		}
		w.free(ba)
		w.free(ga)
		c.MustUntil("answers", func() bool { return good.N() == int(N) || good.Closed() })
		c.MustUntil("end of the handlers", func() bool { return atomic.LoadInt32(&w.of(ga).active) == 0 })
		c.Settle(30)
		for _, p := range []*RawPeer{good, idle} {
			a := p.nc.LocalAddr().String()
			for k := int32(0); k < N; k++ {
				p.Send(WFrame{ID: uint64(2*k + 10001), Flags: fNB, Cmd: lHold, Payload: gen(uint64(k), 9)})
			}
			c.MustUntil("start of N handlers again", func() bool { return atomic.LoadInt32(&w.of(a).active) == N || p.Closed() })
			if p.Closed() {
				c.Violate("closed", "limit %d: N requests at once were refused after the earlier ones had ended", N)
			}
			w.free(a)
			c.Eval(fmt.Sprint("slow limit ", N))
		}
		good.Close()
		idle.Close()
		bad.Close()
		w.s.Stop()
	})
	c.after("slow limited handlers", pause+30*time.Second, done)
}

// slow18: a throttle that stays on for long.
func slow18(c *C, pause time.Duration) {
	r := c.Rng
	w := newThrWorld(c, "tcp", 2)
	var xs []*thrConn
	for i := 0; i < 10; i++ {
		x := w.open(i % 2)
		x.send(r, 2)
		xs = append(xs, x)
	}
	for _, x := range xs {
		x.settled(c, "before the throttle", "slow before")
	}
	w.s.S.SetThrottle(0)
	before := map[*thrConn]int{}
	for _, x := range xs {
		before[x] = w.dispatched(x.addr)
		x.send(r, 30)
	}
	acc := atomic.LoadInt64(&w.accepts[0])
	var late []*thrConn
	for i := 0; i < 6; i++ {
		x := w.open(i % 2)
		x.send(r, 5)
		late = append(late, x)
	}
	time.Sleep(pause)
	for _, x := range xs {
		if d := w.dispatched(x.addr) - before[x]; x.b == 0 && d > 1 {
			c.Violate("dispatched", "%d requests of one connection were dispatched while throttled for %v", d, pause)
		}
	}
	if d := atomic.LoadInt64(&w.accepts[0]) - acc; d > 1 {
		c.Violate("accepted", "%d connections were accepted while throttled for %v", d, pause)
	}
	for _, x := range append(xs, late...) {
		if x.b == 1 {
			x.settled(c, "other binding", "slow other")
		}
		if x.peer.Closed() {
			c.Violate("closed", "a throttled connection was closed: %v", x.peer.Err())
		}
	}
	w.s.S.ClearThrottle(0)
	for _, x := range append(xs, late...) {
		x.settled(c, "after the throttle", "slow after")
		x.peer.Close()
	}
	w.s.Stop()
}

// slow19: the servers are away for long.
func slow19(c *C, pause time.Duration) {
	pause += 4 * time.Second
	done := parallel(3, func(i int) {
		r := c.Rng.Fork()
		var serial int64
		seen := &sync.Map{}
		var servers []*recServer
		var addrs []string
		for k := 0; k < i+1; k++ {
			s := newRecServer(c, &serial, seen)
			servers, addrs = append(servers, s), append(addrs, s.addr)
			if i != 1 {
				s.up()
			}
		}
		key := fmt.Sprint("slow outage ", i)
		conn := qrpc.NewConnectionWithReconnect(addrs, qrpc.ConnectionConfig{DialTimeout: 10 * time.Second}, nil)
		if i != 1 {
			c19recovers(c, conn, r, seen, key)
			for _, s := range servers {
				s.down()
			}
		}
		time.Sleep(pause)
		if conn.IsClosed() {
			c.Violate("gave-up", "%s: a reconnecting connection was closed by itself after %v without a server", key, pause)
		}
		servers[r.Intn(len(servers))].up()
		c19recovers(c, conn, r, seen, key)
		closeConn(c, conn)
		for _, s := range servers {
			s.down()
		}
	})
	c.after("long outages", pause+40*time.Second, done)
}

// slow20: endpoints answer late; a call is made once, and returns that answer.
func slow20(c *C, pause time.Duration) {
	done := parallel(3, func(kind int) {
		w := newAPIWorld(c, 3, nil)
		for _, s := range w.eps {
			ans := s.ans
			s.ans = func(f WFrame, n int64) WFrame {
				x := ans(f, n)
				if f.Cmd == 0xc5 {
					time.Sleep(pause)
				}
				return x
			}
			s.up()
		}
		w.open()
		if _, err := w.call(context.Background(), w.r.Fork(), 2, 0, "slow warm up"); err != nil {
			c.Violate("warm", "%v", err)
		}
		// the frames of one endpoint are answered one after another here
		calls := parallel([]int{1, 3, 1}[kind], func(k int) {
			p := gen(mix(uint64(c.Seed), uint64(kind), uint64(k)), 40)
			var fs []*qrpc.Frame
			var err error
			switch kind {
			case 0:
				f, e := w.api.Call(context.Background(), 0xc5, p)
				fs, err = append(fs, f), e
			case 1:
				f, e := w.api.CallOne(context.Background(), w.names[k%3], 0xc5, p)
				fs, err = append(fs, f), e
			default:
				for _, res := range w.api.CallAll(context.Background(), 0xc5, p) {
					if res.Err != nil {
						err = res.Err
					}
					fs = append(fs, res.Frame)
				}
			}
			if err != nil {
				c.Violate("slow-call", "kind %d: a call answered after %v: %v", kind, pause, err)
				return
			}
			for _, f := range fs {
				if i := w.from(f, p); i < 0 || kind == 1 && i != k%3 {
					c.Violate("slow-call", "kind %d: a call answered after %v: computed by %d", kind, pause, i)
				}
			}
			v, _ := w.runs.Load(h64(p))
			var total int64
			for _, n := range v.(*[8]int64) {
				total += n
			}
			want := int64(1)
			if kind == 2 {
				want = 3
			}
			if total != want {
				c.Violate("twice", "kind %d: a call answered after %v ran %d times, want %d", kind, pause, total, want)
			}
			c.Eval(fmt.Sprint("slow call ", kind, k))
		})
		c.after("slow calls", pause, calls)
		w.end()
	})
	c.after("slow endpoints", pause+40*time.Second, done)
}

// slow21: pipes on which nothing happens for long, and receivers that are late.
func slow21(c *C, pause time.Duration) {
	done := parallel(4, func(i int) {
		rev, slowRecv := i%2 == 1, i/2 == 1
		key := fmt.Sprint("slow pipe ", dirName(rev), slowRecv)
		n := 40
		recvAll := func(rc channel.Receiver, side string) {
			for k := 0; ; k++ {
				if slowRecv && k == 3 {
					time.Sleep(pause)
				}
				var v string
				var cmd qrpc.Cmd
				var err error
				got := make(chan struct{})
				go func() { defer close(got); err = rc.Receive(context.Background(), &cmd, &v) }()
				c.after("Receive", pause, got)
				if err != nil {
					if k != n || !errors.Is(err, channel.ErrStreamFinished) {
						c.Violate("end", "%s %s: Receive ended after %d of %d messages: %v", key, side, k, n, err)
					}
					return
				}
				if cmd != qrpc.Cmd(k+1) || v != fmt.Sprint(side, k) {
					c.Violate("message", "%s %s: message %d is cmd %d %q", key, side, k, cmd, v)
					return
				}
				c.Eval(key + side)
			}
		}
		sendAll := func(s channel.Sender, side string) {
			for k := 0; k < n; k++ {
				if !slowRecv && k == 5 {
					time.Sleep(pause)
				}
				if err := s.Send(context.Background(), qrpc.Cmd(k+1), fmt.Sprint(side, k), k == n-1); err != nil {
					c.writeFailed("send", err, "%s %s: message %d", key, side, k)
					return
				}
			}
		}
		finished := make(chan struct{})
		h := channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, rc channel.Receiver, _ channel.Transport) {
			defer close(finished)
			d := parallel(1, func(int) { sendAll(s, "down") })
			recvAll(rc, "up")
			<-d
		}))
		p := newPair(c, pairOpt{rev: rev}, h)
		s, rc, err := channel.NewTransport(p.open.(qrpc.StreamInitiator)).Pipe()
		if err != nil {
			c.Violate("pipe", "Pipe: %v", err)
			return
		}
		// the receiver comes into being with the first message
		if err := s.Send(context.Background(), 1, "up0", false); err != nil {
			c.Violate("send", "%v", err)
			return
		}
		d := parallel(1, func(int) {
			for k := 1; k < n; k++ {
				if !slowRecv && k == 5 {
					time.Sleep(pause)
				}
				if err := s.Send(context.Background(), qrpc.Cmd(k+1), fmt.Sprint("up", k), k == n-1); err != nil {
					c.writeFailed("send", err, "%s up: message %d", key, k)
					return
				}
			}
		})
		recvAll(rc, "down")
		c.after("sending", pause, d)
		c.after("end of the handler", pause, finished)
		p.stop()
	})
	c.after("slow pipes", 2*pause+30*time.Second, done)
}

// slow22: connections that are idle for long, or hold much that nobody reads for long.
func slow22(c *C, pause time.Duration) {
	modes := []string{"tcp", "tls", "ws", "wss"}
	done := parallel(8, func(i int) {
		mode, big := modes[i/2], i%2 == 1
		r := c.Rng.Fork()
		key := fmt.Sprint("slow ", mode, big)
		if big {
			// an unread byte stream
			a, b, stop := netPair(c, mode, nil)
			data := gen(r.Uint64(), 6<<20)
			wrote := parallel(1, func(int) {
				if n, err := a.Write(data); err != nil || n != len(data) {
					c.Violate("write", "%s: Write of %d bytes to a peer that read nothing for %v: %d, %v", key, len(data), pause, n, err)
				}
			})
			time.Sleep(pause)
			var got []byte
			read := parallel(1, func(int) {
				buf := make([]byte, 70000)
				for len(got) < len(data) {
					n, err := b.Read(buf[:r.Range(1, len(buf))])
					got = append(got, buf[:n]...)
					if err != nil {
						c.Violate("read", "%s: %v after %d bytes", key, err, len(got))
						return
					}
				}
			})
			c.after("reading what waited", 0, read)
			c.Must("writing", wrote)
			if !same(got, data) {
				c.Violate("bytes", "%s: the bytes differ at %d", key, diffAt(got, data))
			}
			c.Eval(key)
			stop()
			return
		}
		p := newPair(c, pairOpt{mode: mode}, echoHandler)
		q := newPair(c, pairOpt{mode: mode, rev: true}, echoHandler)
		for k := 0; k < 2; k++ {
			for _, x := range []*pair{p, q} {
				x.echo("idle", fmt.Sprint(key, " after idling ", k), 0x47, qrpc.NBFlag, gen(r.Uint64(), 9000))
				c.Eval(fmt.Sprint(key, k))
			}
			if k == 0 {
				time.Sleep(pause)
			}
		}
		p.stop()
		q.stop()
	})
	c.after("slow transports", pause+40*time.Second, done)
}

// slow23: a method that takes long runs once and returns its result.
func slow23(c *C, pause time.Duration) {
	const n = 3
	var runs [n]sync.Map
	var srvs []*Srv
	var addrs []string
	for i := 0; i < n; i++ {
		i := i
		mux := qrpc.NewServeMux()
		mux.Handle(svcCmd, codegen.NewServiceHandler(svcErr, map[string]codegen.MethodCall{
			codegen.FQMethod("slow", "run"): func(ctx context.Context, in []byte) ([]byte, error) {
				v, _ := runs[i].LoadOrStore(string(in), new(int64))
				atomic.AddInt64(v.(*int64), 1)
				time.Sleep(pause)
				if ctx.Err() != nil {
					c.Violate("context", "the context of a running method is cancelled: %v", ctx.Err())
				}
				return svcResult("slow", "run", i, in), nil
			},
			codegen.FQMethod("slow", "quick"): func(ctx context.Context, in []byte) ([]byte, error) {
				return svcResult("slow", "quick", i, in), nil
			},
		}))
		s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: mux})
		srvs, addrs = append(srvs, s), append(addrs, s.Addrs[0])
	}
	cl := codegen.NewClient(svcCmd, svcErr, addrs, qrpc.ConnectionConfig{})
	done := parallel(12, func(k int) {
		in := gen(uint64(k)+77, 30)
		out, err := cl.Request(context.Background(), "slow", "run", in)
		by := -1
		total := int64(0)
		for i := 0; i < n; i++ {
			if same(out, svcResult("slow", "run", i, in)) {
				by = i
			}
			if v, ok := runs[i].Load(string(in)); ok {
				total += atomic.LoadInt64(v.(*int64))
			}
		}
		if err != nil || by < 0 {
			c.Violate("slow-call", "a call of a method that takes %v: %v", pause, err)
		} else if total != 1 {
			c.Violate("twice", "a method that takes %v was run %d times for one call", pause, total)
		}
		c.Eval(fmt.Sprint("slow method ", by))
	})
	for t := time.Now(); time.Since(t) < pause-time.Second; {
		in := gen(c.Rng.Uint64(), 20)
		out, err := svcCall(c, context.Background(), cl, "slow", "quick", in)
		ok := false
		for i := 0; i < n; i++ {
			ok = ok || same(out, svcResult("slow", "quick", i, in))
		}
		if err != nil || !ok {
			c.Violate("quick-call", "a call beside slow ones: %v", err)
		}
		c.Eval("slow beside")
		time.Sleep(30 * time.Millisecond)
	}
	c.after("calls of a slow method", pause, done)
	for _, s := range srvs {
		s.Stop()
	}
}
