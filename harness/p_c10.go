package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C10", MinEv: 500,
		Rule: "one evaluation per request (panicking or healthy) whose outcome was compared with the plan derived from its tag; distinct = (direction, request kind, panic position, frames written before, panic value kind, stream frames read before, channel size)",
		Jobs: []JobSpec{
			{Name: "mix", Quick: 8, Deep: 60, Fn: c10mix},
			{Name: "wire", Quick: 6, Deep: 50, Fn: c10wire},
			{Name: "kinds", Quick: 2, Deep: 6, Fn: c10kinds},
			{Name: "many", Quick: 2, Deep: 10, Fn: c10many},
			{Name: "middleware", Quick: 2, Deep: 10, Fn: c10middleware},
		}})
}

type oddPanic struct{ a, b int }

type errPanic struct{ s *string }

func (e *errPanic) Error() string { return *e.s } // panics itself when s is nil

var panicKinds = []func(){
	func() { panic("a string") },
	func() { panic(errors.New("an error")) },
	func() { panic(oddPanic{1, 2}) },
	func() { var m map[string]int; m["x"] = 1 },
	func() { var p *oddPanic; p.a = 1 },
	func() { a := []int{}; i := 3; a[i]++ },
	func() { panic(42) },
	func() { panic(&errPanic{}) },
	func() { panic(nil) },
	func() { defer func() { panic("again") }(); panic("first") },
}

// panicValues are values that mean something to somebody: none of them makes a panic anything but a panic.
var panicValues = []interface{}{
	context.Canceled, context.DeadlineExceeded, fmt.Errorf("wrapped: %w", context.Canceled), io.EOF, io.ErrUnexpectedEOF,
	io.ErrClosedPipe, io.ErrShortWrite, net.ErrClosed, os.ErrDeadlineExceeded, os.ErrClosed, syscall.EPIPE, syscall.ECONNRESET, http.ErrAbortHandler,
	&net.OpError{Op: "write", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "read", Err: syscall.ECONNRESET}, tempPanic{},
	qrpc.ErrStreamClosed, qrpc.ErrConnAlreadyClosed, qrpc.ErrServerClosed, qrpc.ErrWriteAfterCloseSelf, qrpc.ErrNoNewUUID, qrpc.ErrClosed, qrpc.ErrNotActiveConn, qrpc.ErrInvalidFrameSize, qrpc.ErrFrameTooLarge, qrpc.ErrNoCodec, qrpc.ErrInboundFramePerSecondExceeded, qrpc.ErrRstNonExistingStream, qrpc.ErrStreamNotExists,
	qrpc.ErrListenerAcceptReturnType, qrpc.ErrInvalidPacket,
	map[string]int{"a": 1}, []byte("bytes"), []interface{}{1, nil}, func() {}, make(chan int), struct{}{}, &struct{ a int }{}, "", 0, false, 1.5,
	error(nil), (*errPanic)(nil), strings.Repeat("long ", 20000), "%s %d %!", "\xff\x00", uintptr(7),
}

// tempPanic is a temporary timeout.
type tempPanic struct{}

func (tempPanic) Error() string   { return "temporary" }
func (tempPanic) Timeout() bool   { return true }
func (tempPanic) Temporary() bool { return true }

func init() {
	for _, v := range panicValues {
		v := v
		panicKinds = append(panicKinds, func() { panic(v) })
	}
}

// c10kinds: every panic value there is in the list, before and between writes, in both directions.
func c10kinds(c *C) {
	rev := c.K%2 == 1
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0x77 {
			answer(w, q)
			return
		}
		i := int(tagOf(q.Payload))
		if q.Cmd&1 != 0 {
			w.StartWrite(q.RequestID, 0x31, qrpc.StreamFlag)
			w.WriteBytes(q.Payload)
			if err := w.EndWrite(); err != nil {
				c.Violate("write", "%v", err)
			}
		}
		panicKinds[i]()
	})
	p := newPair(c, pairOpt{rev: rev}, h)
	for i := range panicKinds {
		for _, cmd := range []qrpc.Cmd{0, 1} {
			fl := qrpc.NBFlag
			if !rev && i%2 == 0 {
				fl = 0
			}
			what := fmt.Sprintf("%s panic %d (cmd %d)", dirName(rev), i, cmd)
			_, resp, err := p.open.Request(cmd, fl, gen(uint64(i), 8))
			if err != nil {
				c.Violate("open", "%s: refused: %v", what, err)
				return
			}
			f, err := c.getFrame("release of the caller of a panicking handler", resp)
			if cmd == 1 {
				if err != nil || f.Stream == nil || tagOf(f.Payload) != uint64(i) {
					c.Violate("lost", "%s: the frame written before it is lost: %v", what, err)
				} else if f = c.nextFrame("end of an answer broken off by a panic", f.FrameCh()); f != nil {
					c.Violate("frames", "%s: %s after the only frame", what, toWs(f))
				}
			} else if err != qrpc.ErrStreamClosed {
				c.Violate("not-closed", "%s: its caller got %s, %v, want the stream-closed error", what, toWs(f), err)
			}
			if c.Violated() {
				return
			}
			c.Eval(fmt.Sprint("kinds", rev, i, cmd, fl))
		}
		p.echo("after", fmt.Sprint("after panic ", i), 0x77, qrpc.NBFlag, gen(uint64(i), 90))
	}
	p.stop()
}

// ppos is where a handler panics.
const (
	ppHealthy  = iota
	ppStart    // before anything
	ppHeader   // after StartWrite
	ppPayload  // after some WriteBytes
	ppBetween  // after n complete stream frames
	ppBetweenP // after n complete stream frames and a part of another
	ppAnswered // after the complete answer
	ppReset    // after it reset the request itself
	ppRead     // after reading one frame of its stream
	ppN
)

type pplan struct {
	pos, n, kind int
}

func pplanOf(tag uint64) pplan {
	h := mix(tag, 991)
	p := pplan{pos: int(h % ppN), n: int((h >> 8) % 4), kind: int((h >> 16) % uint64(len(panicKinds)))}
	if h>>40&1 == 0 {
		p.pos = ppHealthy
	}
	return p
}

// frames is how many frames precede the end, and whether the answer is complete.
func (p pplan) frames() (n int, complete bool) {
	switch p.pos {
	case ppHealthy, ppAnswered:
		return 1, true
	case ppBetween, ppBetweenP:
		return p.n, false
	}
	return 0, false
}

func c10frame(tag uint64, i int) []byte {
	return gen(mix(tag, uint64(i), 3), []int{9, 200, 1100, 3000}[i%4])
}

func c10handler(c *C) qrpc.Handler {
	return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if uint32(q.Cmd) == 0x77 {
			answer(w, q)
			return
		}
		tag := tagOf(q.Payload)
		p := pplanOf(tag)
		must := func(err error) {
			if err != nil {
				c.Violate("write", "a handler with plan %+v cannot write to request %d: %v", p, q.RequestID, err)
			}
		}
		boom := panicKinds[p.kind]
		switch p.pos {
		case ppHealthy:
			for range q.FrameCh() {
			}
			answer(w, q)
			return
		case ppStart:
		case ppHeader:
			w.StartWrite(q.RequestID, 0x6666, 0)
		case ppPayload:
			w.StartWrite(q.RequestID, 0x6666, 0)
			w.WriteBytes([]byte("POISON of a panicking handler"))
		case ppBetween, ppBetweenP:
			for i := 0; i < p.n; i++ {
				w.StartWrite(q.RequestID, qrpc.Cmd(i+1), qrpc.StreamFlag)
				w.WriteBytes(c10frame(tag, i))
				must(w.EndWrite())
			}
			if p.pos == ppBetweenP {
				w.StartWrite(q.RequestID, 0x6667, qrpc.StreamFlag)
				w.WriteBytes(make([]byte, 1500))
			}
		case ppAnswered:
			must(answer(w, q))
			if p.n%2 == 1 {
				w.StartWrite(q.RequestID, 0x6668, 0)
				w.WriteBytes([]byte("POISON after the answer"))
			}
		case ppReset:
			must(w.ResetFrame(q.RequestID, 5))
		case ppRead:
			<-q.FrameCh()
		}
		boom()
	})
}

func c10mix(c *C) {
	r := c.Rng
	rev := c.K%3 == 2
	ccs, scs := r.Pick(0, 1, 4, 100), r.Pick(0, 1, 4, 100)
	_, wc := chunkPolicy(r)
	p := newPair(c, pairOpt{rev: rev, wrapC: wc, binding: qrpc.ServerBinding{WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 5)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: ccs}}, c10handler(c))
	const G = 8
	rngs := []*Rng{}
	for i := 0; i < G; i++ {
		rngs = append(rngs, r.Fork())
	}
	var panics int64
	done := parallel(G, func(g int) {
		r := rngs[g]
		for k := 0; k < 40 && !c.Violated(); k++ {
			tag := r.Uint64()
			pl := pplanOf(tag)
			payload := gen(tag, r.Pick(8, 20, 1300))
			kind := r.Intn(4)
			if rev && kind == 0 {
				kind = 1
			}
			cmd := uint32(r.Range(1, 0x76))
			var id uint64
			var resp qrpc.Response
			var sw qrpc.StreamWriter
			var err error
			switch kind {
			case 0:
				id, resp, err = p.open.Request(qrpc.Cmd(cmd), 0, payload)
			case 1:
				id, resp, err = p.open.Request(qrpc.Cmd(cmd), qrpc.NBFlag, payload)
			case 2, 3:
				fl := qrpc.FrameFlag(0)
				if kind == 3 {
					fl = qrpc.StreamEndFlag
				}
				sw, resp, err = p.open.StreamRequest(qrpc.Cmd(cmd), fl, payload)
			}
			if err != nil {
				c.Violate("open", "%s: a request is refused after %d panics: %v", dirName(rev), atomic.LoadInt64(&panics), err)
				return
			}
			if kind == 2 {
				id = sw.RequestID()
				for j := r.Intn(3); j > 0; j-- {
					sw.StartWrite(1)
					sw.WriteBytes(gen(tag, 30))
					sw.EndWrite(false) // may be refused: the handler may have panicked
				}
				sw.StartWrite(1)
				sw.EndWrite(true)
			}
			if pl.pos != ppHealthy {
				atomic.AddInt64(&panics, 1)
			}
			what := fmt.Sprintf("%s request %d kind=%d plan %+v", dirName(rev), id, kind, pl)
			f, err := c.getFrame("release of the caller of a panicking handler", resp)
			n, complete := pl.frames()
			switch {
			case n == 0:
				if err != qrpc.ErrStreamClosed {
					c.Violate("not-closed", "%s: its caller got %v, %v, want the stream-closed error", what, f, err)
				}
			case err != nil:
				c.Violate("lost", "%s: its caller got %v although %d frames were written", what, err, n)
			case complete:
				if rc, rp := respFor(cmd, payload); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("wrong", "%s: wrong answer cmd=%#x %s", what, f.Cmd, brief(f.Payload))
				}
			default:
				for i := 0; f != nil || i < n; i++ {
					if f == nil || i >= n {
						c.Violate("frames", "%s: %d frames seen, %d written (one more: %v)", what, i, n, f != nil)
						break
					}
					if uint32(f.Cmd) != uint32(i+1) || !same(f.Payload, c10frame(tag, i)) {
						c.Violate("frames", "%s: frame %d is cmd=%#x %s", what, i, f.Cmd, brief(f.Payload))
					}
					if f.Stream != nil {
						resp = nil
						first := f
						f = c.nextFrame("end of an answer broken off by a panic", first.FrameCh())
						ch := first.FrameCh()
						for j := i + 1; f != nil; j++ {
							if j >= n || uint32(f.Cmd) != uint32(j+1) || !same(f.Payload, c10frame(tag, j)) {
								c.Violate("frames", "%s: frame %d is cmd=%#x %s", what, j, f.Cmd, brief(f.Payload))
							}
							i = j
							f = c.nextFrame("end of an answer broken off by a panic", ch)
						}
						if i+1 != n {
							c.Violate("frames", "%s: %d frames seen", what, i+1)
						}
						break
					}
				}
			}
			c.Eval(fmt.Sprint("mix", rev, kind, pl, ccs, scs))
			if g == 0 && k < 2 {
				c.Sample("%s -> %v", what, err)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*5, stallTicks*4) {
		c.StallAbort("callers next to panics")
	}
	c.Count("panics", atomic.LoadInt64(&panics))
	p.echo("after", "after all panics", 0x77, qrpc.NBFlag, gen(r.Uint64(), 900))
	p.stop()
}

// c10wire: a raw peer pipelines requests; the frames of each request on the wire are exactly its plan.
func c10wire(c *C) {
	r := c.Rng
	scs := r.Pick(1, 4, 100)
	_, ws := chunkPolicy(r)
	s := startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn {
		if ws == nil {
			return nc
		}
		return ws(nc)
	}, qrpc.ServerBinding{Handler: c10handler(c), WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 1, 10)})
	for round := 0; round < 6 && !c.Violated(); round++ {
		p := dialRaw(c, s.Addrs[0])
		n := r.Range(5, 60)
		type rq struct {
			f    WFrame
			tag  uint64
			p    pplan
			more bool
		}
		var rqs []rq
		var out []byte
		for i := 0; i < n; i++ {
			tag := r.Uint64()
			q := rq{f: WFrame{ID: uint64(2*i + 1), Flags: byte(r.Pick(0, 0, int(fNB), int(fStream), int(fStream|fEnd))), Cmd: uint32(r.Range(1, 0x76)), Payload: gen(tag, r.Pick(8, 50))}, tag: tag, p: pplanOf(tag)}
			out = append(out, q.f.Bytes()...)
			if q.f.Flags == fStream {
				q.more = true
				for j := r.Intn(3); j > 0; j-- {
					out = append(out, WFrame{ID: q.f.ID, Flags: fStream, Cmd: 1, Payload: gen(1, 10)}.Bytes()...)
				}
				out = append(out, WFrame{ID: q.f.ID, Flags: fStream | fEnd, Cmd: 1}.Bytes()...)
			}
			rqs = append(rqs, q)
		}
		for len(out) > 0 {
			k := r.Range(1, len(out))
			p.nc.Write(out[:k])
			out = out[k:]
		}
		blockingOrder := []uint64{}
		for _, q := range rqs {
			var want []WFrame
			nf, complete := q.p.frames()
			if complete {
				rc, rp := respFor(q.f.Cmd, q.f.Payload)
				want = append(want, WFrame{ID: q.f.ID, Cmd: rc, Payload: rp})
			} else {
				for i := 0; i < nf; i++ {
					want = append(want, WFrame{ID: q.f.ID, Flags: fStream, Cmd: uint32(i + 1), Payload: c10frame(q.tag, i)})
				}
				cmd := uint32(0)
				if q.p.pos == ppReset {
					cmd = 5
				}
				want = append(want, WFrame{ID: q.f.ID, Flags: fRst, Cmd: cmd})
			}
			if !c.Until(func() bool { return len(p.ByID(q.f.ID)) >= len(want) || p.Closed() }) {
				c.StallAbort(fmt.Sprintf("frames of request %d with plan %+v: %v", q.f.ID, q.p, p.ByID(q.f.ID)))
			}
			got := p.ByID(q.f.ID)
			if !(len(got) == len(want) && sameFrames(c, fmt.Sprintf("request %d flags %#x plan %+v", q.f.ID, q.f.Flags, q.p), got, want)) && !c.Violated() {
				c.Violate("wire", "request %d flags %#x with plan %+v: on the wire %v, want %v (closed=%v)", q.f.ID, q.f.Flags, q.p, got, want, p.Closed())
			}
			if q.f.Flags == 0 {
				blockingOrder = append(blockingOrder, q.f.ID)
			}
			c.Eval(fmt.Sprint("wire", q.f.Flags, q.p, scs))
			if c.Violated() {
				break
			}
		}
		i := 0
		for _, f := range p.Frames() {
			for i < len(blockingOrder) && f.ID == blockingOrder[i] && (f.Flags&fStream == 0) {
				i++
			}
		}
		if i < len(blockingOrder) && !c.Violated() {
			c.Violate("order", "blocking requests were not finished in order: %v", p.Frames())
		}
		p.Close()
	}
	s.Stop()
}

// c10many: a connection survives very many panics.
func c10many(c *C) {
	r := c.Rng
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if uint32(q.Cmd) == 0x77 {
			answer(w, q)
			return
		}
		if len(q.Payload)%2 == 0 {
			w.StartWrite(q.RequestID, 1, 0)
			w.WriteBytes(q.Payload)
		}
		panicKinds[len(q.Payload)%len(panicKinds)]()
	})
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, WriteFrameChSize: r.Pick(1, 10)}, qrpc.ServerBinding{Handler: h, ReadFrameChSize: 3})
	a, b := s.dialTo(0, qrpc.ConnectionConfig{}, nil), s.dialTo(1, qrpc.ConnectionConfig{}, nil)
	for k := 0; k < 1500 && !c.Violated(); k++ {
		fl := qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag)))
		_, f, err := c.call(a, 1, fl, gen(r.Uint64(), r.Intn(40)))
		if err != qrpc.ErrStreamClosed {
			c.Violate("not-closed", "panic %d: caller got %v, %v", k, f, err)
		}
		if k%50 == 0 {
			c.probe(a, "same-conn", fmt.Sprintf("after %d panics", k))
			c.probe(b, "other-conn", fmt.Sprintf("after %d panics", k))
		}
		c.Eval(fmt.Sprint("many", fl, k%len(panicKinds)))
	}
	closeConn(c, a)
	closeConn(c, b)
	s.Stop()
}

// c10middleware: panics in middleware behave like panics in the handler.
func c10middleware(c *C) {
	r := c.Rng
	mux := qrpc.NewServeMux()
	for i := 0; i < len(panicKinds); i++ {
		i := i
		mux.HandleFunc(qrpc.Cmd(i+1), func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			c.Violate("mw", "handler ran although its middleware panicked")
		},
			func(w qrpc.FrameWriter, q *qrpc.RequestFrame) bool { return true },
			func(w qrpc.FrameWriter, q *qrpc.RequestFrame) bool { panicKinds[i](); return true })
	}
	mux.HandleFunc(0x77, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(w, q) })
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: mux})
	conn := s.dial(qrpc.ConnectionConfig{}, nil)
	for k := 0; k < 200 && !c.Violated(); k++ {
		cmd := uint32(r.Range(1, len(panicKinds)))
		fl := qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag)))
		_, f, err := c.call(conn, cmd, fl, gen(r.Uint64(), 10))
		if err != qrpc.ErrStreamClosed {
			c.Violate("not-closed", "panic in middleware: caller got %v, %v", f, err)
		}
		c.probe(conn, "after-mw", "after a panic in middleware")
		c.Eval(fmt.Sprint("mw", cmd, fl))
	}
	closeConn(c, conn)
	s.Stop()
}
