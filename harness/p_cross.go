package main

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	extend("C08", JobSpec{Name: "cross", Quick: 6, Deep: 60, Fn: c08cross})
	extend("C11", JobSpec{Name: "api", Quick: 2, Deep: 20, Fn: c20ctx})
	extend("C05", JobSpec{Name: "broken", Quick: 4, Deep: 40, Fn: c05broken})
}

// spin waits in small steps, so that what follows happens at a chosen moment.
func spin(d time.Duration) {
	for t := time.Now(); time.Since(t) < d; {
		runtime.Gosched()
	}
}

// edge finds, by trying, the delay after which something comes too late, and then stays around it.
type edge int64

func (e *edge) next(r *Rng) time.Duration {
	d := atomic.LoadInt64((*int64)(e))
	return time.Duration(d + int64(r.Intn(int(d/4)+2000)) - d/8)
}

func (e *edge) tried(tooLate bool) {
	d := atomic.LoadInt64((*int64)(e))
	if tooLate {
		d -= d/16 + 200
	} else {
		d += d/16 + 200
	}
	if d < 0 {
		d = 0
	}
	if d > 500000 { // the waiting itself slows everything down
		d = 500000
	}
	atomic.StoreInt64((*int64)(e), d)
}

// c08cross: a reset and the other side's end of the same request cross each other, at moments spread over the time the
// end takes to arrive. Every reset returns and the requests around it are as they were.
func c08cross(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	ccs, scs := r.Pick(0, 2, 30, 100), r.Pick(0, 2, 30, 100)
	const cmdPlain, cmdHold, cmdReset = 0x200, 0x201, 0x202
	var resets, refused, answered, closed int64
	count := func(e *edge, err error) {
		if e != nil {
			e.tried(err != nil)
		}
		atomic.AddInt64(&resets, 1)
		if err != nil {
			atomic.AddInt64(&refused, 1)
			if err != qrpc.ErrRstNonExistingStream {
				c.writeFailed("reset", err, "%s: a reset crossing the end of its request", dirName(rev))
			}
		}
	}
	var byServer, byStream, byRequest, endByClient edge = 50000, 50000, 50000, 0
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if uint32(q.Cmd) == cmdReset {
			go func() {
				for range q.FrameCh() {
				}
			}()
			// ends its half, then resets about when the opening side's end arrives
			w.StartWrite(q.RequestID, 5, 0)
			w.WriteBytes(q.Payload)
			err := w.EndWrite()
			if err != nil {
				c.writeFailed("write", err, "answer of a stream")
			}
			spin(byServer.next(NewRng(int64(tagOf(q.Payload)))))
			count(&byServer, w.ResetFrame(q.RequestID, 7))
			return
		}
		answer(w, q)
	})
	p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 4)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: ccs}}, h)
	const n = 3 // fewer than processors, as they spin
	rngs := make([]*Rng, n)
	for i := range rngs {
		rngs[i] = r.Fork()
	}
	rounds := 3000
	if raceBuild {
		rounds = 1200
	}
	done := parallel(n, func(g int) {
		r := rngs[g]
		for k := 0; k < rounds && !c.Violated(); k++ {
			pl := gen(r.Uint64(), r.Pick(8, 40))
			kind := r.Intn(4)
			switch kind {
			case 0: // nobody resets this one
				p.echo("answer", "request nobody resets", cmdPlain, qrpc.NBFlag, pl)
			case 1, 2: // reset by the opening side
				var id uint64
				var resp qrpc.Response
				var err error
				var sw qrpc.StreamWriter
				if kind == 1 {
					id, resp, err = p.open.Request(cmdPlain, qrpc.NBFlag, pl)
				} else {
					sw, resp, err = p.open.StreamRequest(cmdPlain, qrpc.StreamEndFlag, pl)
				}
				if err != nil {
					c.Violate("open", "%v", err)
					return
				}
				if kind == 2 {
					id = sw.RequestID()
				}
				// others reset it at the same time
				others := make(chan struct{}, 4)
				more := r.Pick(0, 1, 3)
				e := &byRequest
				if kind == 2 {
					e = &byStream
				}
				spin(e.next(r))
				for j := 0; j < more; j++ {
					go func() {
						count(nil, p.reset(id, 2))
						others <- struct{}{}
					}()
				}
				if kind == 1 {
					count(e, p.reset(id, 1))
				} else {
					count(e, sw.ResetFrame(1))
				}
				for j := 0; j < more; j++ {
					<-others
				}
				f, err := c.getFrame("end of a request reset while its answer is on the way", resp)
				if err == nil {
					atomic.AddInt64(&answered, 1)
					if rc, rp := respFor(cmdPlain, pl); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
						c.Violate("answer", "%s: got cmd=%#x %s, want cmd=%#x %s", dirName(rev), f.Cmd, brief(f.Payload), rc, brief(rp))
					}
				} else if err != qrpc.ErrStreamClosed {
					c.Violate("answer", "%s: a reset request ended with %v", dirName(rev), err)
				} else {
					atomic.AddInt64(&closed, 1)
				}
			case 3: // reset by the serving side, after its own end
				sw, resp, err := p.open.StreamRequest(cmdReset, 0, pl)
				if err != nil {
					c.Violate("open", "%v", err)
					return
				}
				spin(endByClient.next(r))
				sw.StartWrite(1)
				// refused when the reset was faster
				err = sw.EndWrite(true)
				endByClient.tried(err != nil)
				if err != nil && err != qrpc.ErrStreamNotExists && err != qrpc.ErrWriteAfterCloseSelf {
					c.writeFailed("write", err, "%s: the end of a stream crossing its reset", dirName(rev))
				}
				f, err := c.getFrame("answer before the reset", resp)
				if err != nil || !same(f.Payload, pl) {
					c.Violate("answer", "%s: the answer written before the reset of its stream: %v", dirName(rev), err)
				}
			}
			c.Eval(fmt.Sprint("cross ", rev, kind, ccs, scs))
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("resets crossing the ends of their requests")
	}
	c.Count("crossing_resets", atomic.LoadInt64(&resets))
	c.Count("crossing_resets_too_late", atomic.LoadInt64(&refused))
	c.Count("crossing_answered", atomic.LoadInt64(&answered))
	p.echo("answer", "after the crossing resets", cmdPlain, qrpc.NBFlag, gen(1, 100))
	p.stop()
}

// c05broken: the transport breaks after some number of bytes, in the midst of frames of many writers. Frames that
// were reported as written are among the bytes it took, whole and once.
func c05broken(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	var stopping sync.WaitGroup // which takes a second each
	defer stopping.Wait()
	for round := 0; round < 50 && !c.Violated(); round++ {
		tap := &Tap{}
		cut := int64(r.Pick(1, 15, 16, 17, 200, 2000, 9000, 40000, 200000)) + int64(r.Intn(300))
		chunk := r.Pick(0, 0, 50, 700)
		wrap := func(nc net.Conn) net.Conn {
			p := Policy{Rng: r.Fork(), TapW: tap, CutW: cut, WChunk: chunk}
			p.OnWrite = func() { time.Sleep(100 * time.Microsecond) } // so that writers queue up
			return wrapConn(nc, p)
		}
		chs := r.Pick(0, 2, 8, 32)
		o := pairOpt{rev: rev}
		if rev {
			o.wrapS = func(_ int, nc net.Conn) net.Conn { return wrap(nc) }
			o.binding.WriteFrameChSize = chs
		} else {
			o.wrapC = wrap
			o.conf.WriteFrameChSize = chs
		}
		p := newPair(c, o, echoHandler)
		var mu sync.Mutex
		okd := map[string]string{}
		all := map[string]bool{}
		var failed int64
		done := parallel(16, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(round), uint64(g))))
			for k := 0; k < 4000; k++ {
				pl := gen(rr.Uint64(), 8+rr.Pick(0, 20, 300, 2500))
				key := fmt.Sprint(len(pl), " ", h64(pl))
				mu.Lock()
				all[key] = true
				mu.Unlock()
				var err error
				kind := "push"
				if rev && rr.P(1, 2) {
					w := p.ci.GetWriter()
					w.StartWrite(uint64(k), 9, qrpc.PushFlag)
					w.WriteBytes(pl)
					err = w.EndWrite()
				} else if rr.P(1, 2) {
					kind = "request"
					_, _, err = p.open.Request(9, qrpc.NBFlag, pl)
				} else {
					_, _, err = p.open.Request(9, qrpc.PushFlag, pl)
				}
				if err != nil {
					atomic.AddInt64(&failed, 1)
					return
				}
				mu.Lock()
				okd[key] = kind
				mu.Unlock()
			}
		})
		c.Must("writes to a transport that breaks", done)
		fs, rest, err := parseWire(tap.Bytes())
		if err != nil {
			c.Violate("wire-format", "%s: what a transport took before it broke after %d bytes is no sequence of frames: %v", dirName(rev), cut, err)
		}
		times := map[string]int{}
		for _, f := range fs {
			key := fmt.Sprint(len(f.Payload), " ", h64(f.Payload))
			times[key]++
			if !all[key] {
				c.Violate("wire-extra", "%s: frame %v, which nobody wrote, on a transport that broke after %d bytes", dirName(rev), f, cut)
			}
			if times[key] > 1 {
				c.Violate("wire-dup", "%s: frame %v is twice on a transport that broke after %d bytes", dirName(rev), f, cut)
			}
		}
		for key, kind := range okd {
			if times[key] == 0 {
				c.Violate("wire-lost", "%s: a %s (payload length and hash %s) was reported as written; the transport, which broke after %d bytes (chunks of %d, queue %d), took %d frames and %d bytes more, without it",
					dirName(rev), kind, key, cut, chunk, chs, len(fs), len(rest))
			}
			c.Eval(fmt.Sprint("broken ", rev, kind, chs, chunk, bucket(int(cut))))
		}
		c.Count("frames_before_the_break", int64(len(fs)))
		c.Count("writes_refused_by_the_break", failed)
		stopping.Add(1)
		go func() {
			defer stopping.Done()
			p.stop()
		}()
	}
}
