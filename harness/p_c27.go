package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
	"github.com/zhiqiangxu/qrpc/codegen"
)

func init() {
	p := &Prop{ID: "C27", MinEv: 5000,
		Rule:  "one evaluation per finished operation between heap measurements at quiescent points and per connection or server ended before a census of goroutines and sockets; distinct = (kind of operation, direction, transport, batch) and (way of ending, transport, side)",
		Notes: []string{"memory: growth counts if every one of three consecutive batches of N operations leaves more than N/8 objects or 10N bytes reachable, or N/50 goroutines, and does so again with batches eight times as long"},
	}
	for i := range c27kinds {
		k := c27kinds[i]
		p.Jobs = append(p.Jobs, JobSpec{Name: "mem-" + k.name, Quick: 1, Deep: 6, Fn: func(c *C) { c27mem(c, k) }})
	}
	p.Jobs = append(p.Jobs,
		JobSpec{Name: "ends", Quick: 8, Deep: 60, Fn: c27ends},
		JobSpec{Name: "servers", Quick: 4, Deep: 30, Fn: c27servers},
		JobSpec{Name: "registry", Quick: 4, Deep: 30, Fn: c27registry})
	register(p)
}

// c27env is a long-lived server with long-lived connections.
type c27env struct {
	c      *C
	p      *pair
	api    qrpc.API
	svc    *codegen.Client
	raw    *RawPeer
	rec    *qrpc.Connection
	dang   *qrpc.Connection // to a server that sends more than answers
	active int64
	pushes int64
}

type c27kind struct {
	name  string
	modes []string
	n     int // operations per batch
	op    func(e *c27env, r *Rng) error
}

const (
	mcEcho = iota + 1
	mcStream
	mcReturn
	mcPanic
	mcReset
	mcWait
	mcBack
	mcPipe
	mcSvc
	mcPush
	mcAbandon
	mcID
	mcBackStream
	mcClose
)

var errUnexpected = errors.New("unexpected outcome")

func c27ask(e *c27env, cmd int, flags qrpc.FrameFlag, p []byte, wantErr bool) error {
	_, resp, err := e.p.open.Request(qrpc.Cmd(cmd), flags, p)
	if err != nil {
		return err
	}
	_, err = resp.GetFrame()
	if (err != nil) != wantErr {
		return fmt.Errorf("%w: command %d: %v", errUnexpected, cmd, err)
	}
	return nil
}

func c27drain(f *qrpc.Frame) (n int) {
	if !f.Flags.IsStream() || f.Flags.IsDone() {
		return
	}
	for range f.FrameCh() {
		n++
	}
	return
}

func c27stream(e *c27env, r *Rng, cmd int, frames int, drain bool) error {
	sw, resp, err := e.p.open.StreamRequest(qrpc.Cmd(cmd), 0, gen(r.Uint64(), 30))
	if err != nil {
		return err
	}
	for i := 0; i < frames; i++ {
		sw.StartWrite(1)
		sw.WriteBytes(gen(r.Uint64(), r.Pick(0, 10, 1500)))
		if err := sw.EndWrite(i == frames-1); err != nil {
			return err
		}
	}
	f, err := resp.GetFrame()
	if err != nil {
		return err
	}
	if drain {
		c27drain(f)
	}
	return nil
}

var c27kinds = []c27kind{
	{"calls", []string{"tcp", "ws"}, 2000, func(e *c27env, r *Rng) error {
		return c27ask(e, mcEcho, qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag))), gen(r.Uint64(), pickSize(r, false)), false)
	}},
	{"streams", []string{"tcp"}, 1200, func(e *c27env, r *Rng) error { return c27stream(e, r, mcStream, r.Range(1, 4), true) }},
	{"unread-answers", []string{"tcp"}, 1200, func(e *c27env, r *Rng) error {
		// the answers arrive, nobody looks at them
		_, _, err := e.p.open.Request(mcEcho, qrpc.NBFlag, gen(r.Uint64(), 100))
		return err
	}},
	{"late-answers", []string{"tcp"}, 800, func(e *c27env, r *Rng) error {
		_, resp, err := e.p.open.Request(mcWait, qrpc.NBFlag, nil)
		if err != nil {
			return err
		}
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Microsecond)
		defer cancel()
		resp.GetFrameWithContext(ctx)
		return nil
	}},
	{"unanswered", []string{"tcp"}, 1500, func(e *c27env, r *Rng) error {
		return c27ask(e, mcReturn, qrpc.NBFlag, gen(r.Uint64(), 40), true)
	}},
	{"unanswered-streams", []string{"tcp"}, 1200, func(e *c27env, r *Rng) error {
		sw, resp, err := e.p.open.StreamRequest(mcReturn, 0, gen(r.Uint64(), 30))
		if err != nil {
			return err
		}
		sw.StartWrite(1)
		sw.EndWrite(true) // may be refused
		if _, err := resp.GetFrame(); err == nil {
			return errUnexpected
		}
		return nil
	}},
	{"panics", []string{"tcp"}, 800, func(e *c27env, r *Rng) error {
		return c27ask(e, mcPanic, qrpc.NBFlag, gen(r.Uint64(), 40), true)
	}},
	{"resets-by-handler", []string{"tcp"}, 1500, func(e *c27env, r *Rng) error {
		return c27ask(e, mcReset, qrpc.NBFlag, gen(r.Uint64(), 40), true)
	}},
	{"resets-by-opener", []string{"tcp"}, 1000, func(e *c27env, r *Rng) error {
		if r.P(1, 2) {
			sw, resp, err := e.p.open.StreamRequest(mcWait, 0, []byte("1"))
			if err != nil {
				return err
			}
			if err := sw.ResetFrame(3); err != nil {
				return err
			}
			if _, err = resp.GetFrame(); err == nil {
				return errUnexpected
			}
			return nil
		}
		id, resp, err := e.p.open.Request(mcWait, qrpc.NBFlag, []byte("1"))
		if err != nil {
			return err
		}
		e.p.reset(id, 3) // refused when the request has ended
		if _, err = resp.GetFrame(); err == nil && !e.p.rev {
			return errUnexpected
		}
		return nil
	}},
	{"abandoned-halfway", []string{"tcp"}, 1000, func(e *c27env, r *Rng) error {
		return c27stream(e, r, mcAbandon, r.Range(1, 3), true)
	}},
	{"pushes", []string{"tcp", "wss"}, 1500, func(e *c27env, r *Rng) error {
		w := e.p.ci.GetWriter()
		w.StartWrite(e.p.srv.S.GetPushID(), 1, qrpc.PushFlag)
		w.WriteBytes(gen(r.Uint64(), 50))
		return w.EndWrite()
	}},
	{"pushes-up", []string{"tcp"}, 1500, func(e *c27env, r *Rng) error {
		_, _, err := e.p.conn.Request(1, qrpc.PushFlag, gen(r.Uint64(), 50))
		return err
	}},
	{"streamed-pushes", []string{"tcp"}, 1000, func(e *c27env, r *Rng) error {
		sw, _, err := e.p.conn.StreamRequest(1, qrpc.PushFlag, gen(r.Uint64(), 50))
		if err != nil {
			return err
		}
		sw.StartWrite(1)
		sw.WriteBytes(gen(r.Uint64(), 50))
		return sw.EndWrite(true)
	}},
	{"raw-streamed-pushes", []string{"tcp"}, 1000, func(e *c27env, r *Rng) error {
		id := r.Uint64() | 1
		return e.raw.Send(WFrame{ID: id, Flags: fPush | fStream, Cmd: 1, Payload: gen(5, 40)}, WFrame{ID: id, Flags: fPush | fStream | fEnd, Cmd: 1})
	}},
	{"raw-unsolicited", []string{"tcp"}, 1000, func(e *c27env, r *Rng) error {
		// resets of what does not exist, and requests that are reset at once
		id := uint64(atomic.AddInt64(&e.pushes, 2) + 1)
		return e.raw.Send(WFrame{ID: id + 1e12, Flags: fRst, Cmd: 1}, WFrame{ID: id, Flags: fStream, Cmd: mcWait, Payload: gen(5, 40)}, WFrame{ID: id, Flags: fRst, Cmd: 1})
	}},
	{"raw-dangling", []string{"tcp"}, 1000, func(e *c27env, r *Rng) error {
		// before the answer come frames nobody waits for
		_, resp, err := e.dang.Request(mcEcho, qrpc.NBFlag, gen(r.Uint64(), 8+r.Intn(40)))
		if err != nil {
			return err
		}
		_, err = resp.GetFrame()
		return err
	}},
	{"refused-writes", []string{"tcp"}, 1500, func(e *c27env, r *Rng) error {
		w := e.p.ci.GetWriter()
		w.StartWrite(1e9+uint64(r.Intn(1e9)), 1, qrpc.StreamRstFlag)
		if w.EndWrite() == nil {
			return errUnexpected
		}
		if _, _, err := e.p.open.Request(mcEcho, qrpc.CodecFlag, gen(r.Uint64(), 40)); err == nil {
			return errUnexpected // there is no codec
		}
		if e.p.conn.ResetFrame(1e9+uint64(r.Intn(1e9)), 1) == nil {
			return errUnexpected
		}
		return nil
	}},
	{"calls-back", []string{"tcp"}, 800, func(e *c27env, r *Rng) error {
		return c27ask(e, mcBack, qrpc.NBFlag, gen(r.Uint64(), 40), false)
	}},
	{"streams-back", []string{"tcp"}, 600, func(e *c27env, r *Rng) error {
		return c27ask(e, mcBackStream, qrpc.NBFlag, gen(r.Uint64(), 40), false)
	}},
	{"api", []string{"tcp"}, 1200, func(e *c27env, r *Rng) error {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		switch r.Intn(4) {
		case 0:
			_, err := e.api.CallOne(ctx, e.p.srv.Addrs[0], mcEcho, gen(r.Uint64(), 40))
			return err
		case 1:
			short, cancel := context.WithTimeout(context.Background(), 100*time.Microsecond)
			defer cancel()
			e.api.Call(short, mcWait, nil)
			return nil
		case 2:
			for _, x := range e.api.CallAll(ctx, mcEcho, gen(r.Uint64(), 40)) {
				if x.Err != nil {
					return x.Err
				}
			}
			return nil
		}
		_, err := e.api.Call(ctx, mcEcho, gen(r.Uint64(), 40))
		return err
	}},
	{"pipes", []string{"tcp"}, 600, func(e *c27env, r *Rng) error {
		s, rv, err := channel.NewTransport(e.p.conn).Pipe()
		if err != nil {
			return err
		}
		n := r.Range(1, 4)
		ctx := context.Background()
		if r.P(1, 2) {
			var cancel func()
			ctx, cancel = context.WithCancel(ctx)
			defer cancel()
		}
		for i := 0; i < n; i++ {
			if err := s.Send(ctx, mcPipe, i, i == n-1); err != nil {
				return err
			}
		}
		for i := 0; ; i++ {
			var m int
			if err := rv.Receive(ctx, nil, &m); err != nil {
				if i != n {
					return err
				}
				return nil
			}
		}
	}},
	{"service", []string{"tcp"}, 1200, func(e *c27env, r *Rng) error {
		if r.P(1, 4) {
			ctx, cancel := context.WithTimeout(context.Background(), 100*time.Microsecond)
			defer cancel()
			e.svc.Request(ctx, "s", "wait", nil)
			return nil
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		_, err := e.svc.Request(ctx, "s", "get", gen(r.Uint64(), 40))
		return err
	}},
	{"connections", []string{"tcp"}, 250, func(e *c27env, r *Rng) error {
		conn, err := qrpc.NewConnection(e.p.srv.Addrs[0], qrpc.ConnectionConfig{}, nil)
		if err != nil {
			return err
		}
		switch r.Intn(4) {
		case 0:
			_, resp, err := conn.Request(mcID, qrpc.NBFlag, []byte(fmt.Sprint("id", r.Uint64())))
			if err == nil {
				resp.GetFrame()
			}
		case 1:
			conn.StreamRequest(mcStream, 0, []byte("left open"))
		case 2:
			conn.Request(mcWait, qrpc.NBFlag, []byte("1"))
		}
		conn.Close()
		conn.Wait()
		return nil
	}},
	{"ws-connections", []string{"ws"}, 120, func(e *c27env, r *Rng) error {
		conn, err := qrpc.NewConnection(e.p.srv.Addrs[0], clientConf("ws", qrpc.ConnectionConfig{}), nil)
		if err != nil {
			return err
		}
		if r.P(1, 2) {
			conn.StreamRequest(mcStream, 0, []byte("left open"))
		}
		conn.Close()
		conn.Wait()
		return nil
	}},
	{"same-id", []string{"tcp"}, 200, func(e *c27env, r *Rng) error {
		// takeovers: the connection that had the id is closed by the server
		conn, err := qrpc.NewConnection(e.p.srv.Addrs[0], qrpc.ConnectionConfig{}, nil)
		if err != nil {
			return err
		}
		// the next one may take the id before this one has its answer
		if _, resp, err := conn.Request(mcID, qrpc.NBFlag, []byte("the id")); err == nil {
			resp.GetFrame()
		}
		return nil
	}},
	{"api-connections", []string{"tcp"}, 160, func(e *c27env, r *Rng) error {
		// the connections of an API come and go
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		e.api.CallOne(ctx, e.p.srv.Addrs[0], mcClose, nil)
		if r.P(1, 2) {
			e.api.Call(ctx, mcEcho, gen(r.Uint64(), 40))
		} else {
			e.api.CallAll(ctx, mcEcho, gen(r.Uint64(), 40))
		}
		return ctx.Err()
	}},
	{"reconnections", []string{"tcp", "ws"}, 120, func(e *c27env, r *Rng) error {
		// the connections of a reconnecting client come and go
		if r.P(1, 2) {
			e.rec.StreamRequest(mcStream, 0, []byte("left open"))
		}
		if r.P(1, 2) {
			e.rec.Request(mcWait, qrpc.NBFlag, []byte("1"))
		}
		e.rec.Request(mcClose, qrpc.NBFlag, nil)
		for i := 0; i < 2000; i++ {
			if _, resp, err := e.rec.Request(mcEcho, qrpc.NBFlag, gen(r.Uint64(), 40)); err == nil {
				if _, err = resp.GetFrame(); err == nil {
					return nil
				}
			}
			time.Sleep(time.Duration(i) * 20 * time.Microsecond)
		}
		return errUnexpected
	}},
	{"raw-connections", []string{"tcp"}, 250, func(e *c27env, r *Rng) error {
		nc, err := netDial(e.p.srv.Addrs[0], 10*time.Second)
		if err != nil {
			return err
		}
		b := append(WFrame{ID: 1, Flags: fStream, Cmd: mcStream, Payload: gen(3, 30)}.Bytes(), WFrame{ID: 3, Flags: fNB, Cmd: 99}.Bytes()...)
		nc.Write(b[:r.Intn(len(b)+1)])
		return nc.Close()
	}},
}

func newC27env(c *C, mode string, rev bool) *c27env {
	e := &c27env{c: c}
	mk := func(server bool) *qrpc.ServeMux {
		mux := qrpc.NewServeMux()
		on := func(cmd qrpc.Cmd, f func(w qrpc.FrameWriter, q *qrpc.RequestFrame)) {
			mux.HandleFunc(cmd, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
				atomic.AddInt64(&e.active, 1)
				defer atomic.AddInt64(&e.active, -1)
				f(w, q)
			})
		}
		on(mcEcho, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(w, q) })
		stream := func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			c27drain((*qrpc.Frame)(q))
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.EndWrite()
			w.StartWrite(q.RequestID, 1, qrpc.StreamEndFlag)
			w.EndWrite()
		}
		on(mcStream, stream)
		on(mcReturn, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {})
		on(mcPanic, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { panic("planned") })
		on(mcReset, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { w.ResetFrame(q.RequestID, 1) })
		on(mcWait, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			if len(q.Payload) > 0 {
				<-q.Context().Done()
				return
			}
			time.Sleep(500 * time.Microsecond)
			answer(w, q)
		})
		on(mcBack, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			_, resp, err := q.ConnectionInfo().Request(mcEcho, qrpc.NBFlag, q.Payload)
			if err == nil {
				resp.GetFrame()
			}
			answer(w, q)
		})
		on(mcBackStream, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			sw, resp, err := q.StreamInitiator().StreamRequest(mcStream, 0, q.Payload)
			if err == nil {
				sw.StartWrite(1)
				sw.EndWrite(true)
				if f, err := resp.GetFrame(); err == nil {
					c27drain(f)
				}
			}
			answer(w, q)
		})
		mux.Handle(mcPipe, channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, t channel.Transport) {
			atomic.AddInt64(&e.active, 1)
			defer atomic.AddInt64(&e.active, -1)
			for {
				var m int
				if r.Receive(context.Background(), nil, &m) != nil {
					break
				}
				if s.Send(context.Background(), 1, m, false) != nil {
					break
				}
			}
			s.End()
		})))
		mux.Handle(mcSvc, codegen.NewServiceHandler(99, map[string]codegen.MethodCall{
			codegen.FQMethod("s", "get"):  func(_ context.Context, in []byte) ([]byte, error) { return in, nil },
			codegen.FQMethod("s", "wait"): func(ctx context.Context, in []byte) ([]byte, error) { <-ctx.Done(); return nil, nil },
		}))
		on(mcAbandon, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.EndWrite()
			if len(q.Payload)%2 == 0 {
				panic("planned")
			}
		})
		if server {
			on(mcClose, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { q.Close() })
			on(mcID, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
				q.ConnectionInfo().SetID(string(q.Payload))
				q.ConnectionInfo().SetAnything(make([]byte, 100))
				q.ConnectionInfo().NotifyWhenClose(func() {})
				answer(w, q)
			})
		}
		return mux
	}
	var h, other qrpc.Handler = mk(!rev), mk(rev)
	e.p = newPair(c, pairOpt{rev: rev, mode: mode, otherSide: other, binding: qrpc.ServerBinding{SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { go c27drain(f) },
		ReadFrameChSize: c.Rng.Pick(0, 4), WriteFrameChSize: c.Rng.Pick(0, 4), OnKickCB: func(w qrpc.FrameWriter) {}},
		conf: qrpc.ConnectionConfig{WriteFrameChSize: c.Rng.Pick(0, 4)}, sub: func(_ *qrpc.Connection, f *qrpc.Frame) { go c27drain(f) }}, h)
	return e
}

// quiesce waits until nothing is under way.
func (e *c27env) quiesce() {
	e.c.MustUntil("end of handlers of finished requests", func() bool { return atomic.LoadInt64(&e.active) == 0 })
	if e.p.open != nil {
		e.c.Do("marker request", func() { e.ask() })
	}
	n := -1
	// the number of goroutines stops changing
	e.c.Until(func() bool {
		m := runtime.NumGoroutine()
		ok := m == n
		n = m
		e.c.Settle(2)
		return ok
	})
}

func (e *c27env) ask() {
	_, resp, err := e.p.open.Request(mcEcho, qrpc.NBFlag, []byte("marker"))
	if err == nil {
		resp.GetFrame()
	}
}

type c27sample struct {
	objects, bytes, goroutines int64
}

func c27measure() c27sample {
	for i := 0; i < 4; i++ { // pools need two
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return c27sample{int64(m.HeapObjects), int64(m.HeapAlloc), int64(runtime.NumGoroutine())}
}

func c27mem(c *C, k c27kind) {
	r := c.Rng
	mode := k.modes[(c.K+int(baseSeed()))%len(k.modes)]
	rev := (c.K+int(baseSeed()))%2 == 1
	switch k.name {
	case "pushes", "pushes-up", "streamed-pushes", "calls-back", "streams-back", "api", "pipes", "service", "connections", "ws-connections", "same-id",
		"raw-connections", "raw-streamed-pushes", "raw-unsolicited", "raw-dangling", "api-connections", "reconnections":
		rev = false
	}
	e := newC27env(c, mode, rev)
	switch k.name {
	case "reconnections":
		e.rec = qrpc.NewConnectionWithReconnect([]string{e.p.srv.Addrs[0]}, clientConf(mode, qrpc.ConnectionConfig{}), nil)
	case "api", "api-connections":
		e.api = qrpc.NewAPI([]string{e.p.srv.Addrs[0]}, clientConf(mode, qrpc.ConnectionConfig{}), nil)
	case "service":
		e.svc = codegen.NewClient(mcSvc, 99, []string{e.p.srv.Addrs[0]}, clientConf(mode, qrpc.ConnectionConfig{}))
		c.MustUntil("first service call", func() bool {
			_, err := e.svc.Request(context.Background(), "s", "get", []byte("x"))
			return err == nil
		})
	case "raw-dangling":
		rs := newRawServer(c)
		conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{}, nil)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		e.dang = conn
		nc := rs.next()
		go func() {
			for id := uint64(1e9); ; id += 8 {
				f, err := readWFrame(nc)
				if err != nil {
					return
				}
				var b []byte
				for _, x := range []WFrame{{ID: id, Flags: fStream, Cmd: 1, Payload: gen(id, 30)}, {ID: id + 1, Flags: fStream | fEnd, Cmd: 1}, {ID: id + 2, Flags: fRst, Cmd: 1},
					{ID: id + 3, Cmd: 1, Payload: gen(id, 30)}, {ID: id + 4, Flags: fPush, Cmd: 1}, {ID: id + 5, Flags: fPush | fStream | fEnd, Cmd: 1}, {ID: id + 6, Flags: fStream | fNB, Cmd: 1}} {
					b = append(b, x.Bytes()...)
				}
				nc.Write(append(b, WFrame{ID: f.ID, Cmd: 2, Payload: f.Payload}.Bytes()...))
			}
		}()
	case "raw-streamed-pushes", "raw-unsolicited":
		e.raw = dialRaw(c, e.p.srv.Addrs[0])
	}
	if rev && k.name == "calls" {
		// the server's requests are always nonblocking
		k.op = func(e *c27env, r *Rng) error {
			return c27ask(e, mcEcho, qrpc.NBFlag, gen(r.Uint64(), pickSize(r, false)), false)
		}
	}
	n := k.n
	if c.Tier == "thorough" {
		n *= 3
	}
	key := fmt.Sprint(k.name, " ", mode, " ", rev)
	run := func(n int) bool {
		rngs := make([]*Rng, 4)
		for i := range rngs {
			rngs[i] = r.Fork()
		}
		var failed int64
		done := parallel(len(rngs), func(g int) {
			for i := 0; i < n/len(rngs) && atomic.LoadInt64(&failed) == 0; i++ {
				if err := k.op(e, rngs[g]); err != nil {
					atomic.AddInt64(&failed, 1)
					c.Violate("operation", "%s: %v", key, err)
				}
			}
		})
		if !c.waitAtLeast(done, 2*stallWall, 2*stallTicks) {
			c.StallAbort("operations " + k.name)
		}
		if failed > 0 {
			return false
		}
		e.quiesce()
		if e.raw != nil {
			e.raw.mu.Lock()
			e.raw.got = nil
			e.raw.mu.Unlock()
			if e.raw.Closed() {
				c.Violate("operation", "%s: the connection was closed", key)
				return false
			}
		}
		return true
	}
	// a first, short look; growth is confirmed over batches eight times as long, and small growth over batches
	// 32 times as long, which fixed-size caches, the runtime's high-water marks (goroutine structures are never
	// freed) and the harness's own bookkeeping do not keep up with
	for _, f := range []int{1, 8, 32} {
		n := n * f
		var samples []c27sample
		const batches = 5
		for b := 0; b < batches; b++ {
			if !run(n) {
				return
			}
			samples = append(samples, c27measure())
			for i := 0; i < n; i++ {
				c.Eval("")
			}
			c.Eval(fmt.Sprint(key, b))
		}
		minObj, minBytes, minG := int64(1<<60), int64(1<<60), int64(1<<60)
		for i := 2; i < batches; i++ {
			minObj = min64(minObj, samples[i].objects-samples[i-1].objects)
			minBytes = min64(minBytes, samples[i].bytes-samples[i-1].bytes)
			minG = min64(minG, samples[i].goroutines-samples[i-1].goroutines)
		}
		c.Sample("%s: heap objects/bytes/goroutines after each batch of %d: %v", key, n, samples)
		c.Count("heap_measurements", batches)
		if minObj <= int64(n/8) && minBytes <= int64(10*n) && minG <= int64(n/50) {
			return
		}
		if f == 32 || f == 8 && (minObj >= int64(n) || minG >= int64(n/4)) {
			c.Violate("grows:"+k.name, "%s: every batch of %d operations leaves at least %d objects, %d bytes and %d goroutines: %v", key, n, minObj, minBytes, minG, samples)
			return
		}
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// libGoroutines are the goroutines the library started or is in, with the harness's own left out.
func libGoroutines() (out []string) {
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "zhiqiangxu/") {
			out = append(out, g)
		}
	}
	return
}

// census checks that nothing of what was ended is left.
func census(c *C, sig, what string, baseSocks int) {
	ok := c.Until(func() bool { return len(libGoroutines()) == 0 })
	if !ok {
		gs := libGoroutines()
		sort.Strings(gs)
		if len(gs) > 6 {
			gs = gs[:6]
		}
		c.Violate("goroutines:"+sig, "%s: goroutines remain:\n%s", what, strings.Join(gs, "\n\n"))
		return
	}
	if !c.Until(func() bool { return countFDs() <= baseSocks }) {
		c.Violate("sockets:"+sig, "%s: %d sockets, %d before: %s", what, countFDs(), baseSocks, socketsOf())
	}
	c.Count("censuses", 1)
}

func socketsOf() string {
	m, _ := filepath.Glob("/proc/self/fd/*")
	var out []string
	for _, f := range m {
		if t, err := os.Readlink(f); err == nil && strings.HasPrefix(t, "socket") {
			out = append(out, filepath.Base(f)+"="+t)
		}
	}
	return strings.Join(out, " ")
}

// c27ends: connections end in every way while things are under way, then the server is shut down.
func c27ends(c *C) {
	r := c.Rng
	mode := []string{"tcp", "tls", "ws", "wss"}[(c.K+int(baseSeed()))%4]
	time.Sleep(20 * time.Millisecond)
	base := countFDs()
	for round := 0; round < 3 && !c.Violated(); round++ {
		hold := make(chan struct{})
		h := func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			switch q.Cmd {
			case mcEcho:
				answer(w, q)
			case mcStream:
				c27drain((*qrpc.Frame)(q))
			case mcWait:
				<-q.Context().Done()
			case mcPanic:
				panic("planned")
			case mcAbandon: // a stream the other side does not read
				for {
					w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
					w.WriteBytes(make([]byte, 5000))
					if w.EndWrite() != nil {
						return
					}
				}
			case mcBack:
				if _, resp, err := q.ConnectionInfo().Request(mcWait, qrpc.NBFlag, nil); err == nil {
					resp.GetFrame()
				}
			case mcBackStream:
				go func() { // outlives the handler
					sw, resp, err := q.StreamInitiator().StreamRequest(mcStream, 0, []byte("x"))
					if err == nil {
						for {
							sw.StartWrite(1)
							if sw.EndWrite(false) != nil {
								break
							}
							time.Sleep(time.Millisecond)
						}
						resp.GetFrame()
					}
				}()
			case mcID:
				q.ConnectionInfo().SetID("some id")
			case mcReset:
				q.Close()
			}
		}
		n := 0
		b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(h), SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {}, OnKickCB: func(qrpc.FrameWriter) {}}
		if r.P(1, 3) {
			b.LifecycleCallbacks.OnAccept = func(net.Conn) error {
				n++
				if n%4 == 0 {
					return errUnexpected
				}
				return nil
			}
		}
		srv := startServer(c, mode, nil, b)
		var conns []*qrpc.Connection
		var waits sync.WaitGroup
		for i := 0; i < 12; i++ {
			conf := clientConf(mode, qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 3)})
			if r.P(1, 2) {
				conf.Handler = qrpc.HandlerFunc(h)
			}
			var conn *qrpc.Connection
			if r.P(1, 3) {
				conn = qrpc.NewConnectionWithReconnect([]string{srv.Addrs[0]}, conf, nil)
			} else {
				var err error
				conn, err = qrpc.NewConnection(srv.Addrs[0], conf, nil)
				if err != nil {
					continue // rejected
				}
			}
			conns = append(conns, conn)
			for j := r.Intn(5); j >= 0; j-- {
				cmd := qrpc.Cmd(r.Pick(mcEcho, mcStream, mcWait, mcPanic, mcAbandon, mcBack, mcBackStream, mcID, mcReset))
				stream := r.P(1, 2)
				cmdKey := fmt.Sprint("pending ", cmd, stream, mode)
				fl := qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag)))
				waits.Add(1)
				go func() {
					defer waits.Done()
					var resp qrpc.Response
					var err error
					if stream {
						_, resp, err = conn.StreamRequest(cmd, 0, []byte("x"))
					} else {
						_, resp, err = conn.Request(cmd, fl, []byte("x"))
					}
					if err == nil {
						resp.GetFrame()
					}
				}()
				c.Eval(cmdKey)
			}
		}
		for i := r.Intn(6); i > 0; i-- { // strangers
			nc, err := netDial(srv.Addrs[0], 10*time.Second)
			if err != nil {
				continue
			}
			switch r.Intn(4) {
			case 0:
				nc.Write([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
			case 1:
				nc.Write(r.Bytes(200))
			case 2:
				nc.Write(WFrame{ID: 1, Flags: fStream, Cmd: mcStream, Payload: []byte("y")}.Bytes())
			}
			how := r.Intn(3)
			go func() {
				if how == 0 {
					<-hold // stays until the server is gone
				}
				nc.Close()
			}()
			c.Eval(fmt.Sprint("stranger ", mode, how))
		}
		time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
		serverFirst := r.P(1, 2)
		if serverFirst {
			srv.Stop()
		}
		for _, conn := range conns {
			conn.Close()
		}
		for _, conn := range conns {
			c.Do("Wait of a closed connection", conn.Wait)
			c.Eval(fmt.Sprint("closed ", mode, serverFirst))
		}
		if !serverFirst {
			srv.Stop()
		}
		w := make(chan struct{})
		go func() { waits.Wait(); close(w) }()
		c.Must("callers of ended connections", w)
		close(hold)
		select {
		case <-srv.Ret:
		case <-time.After(time.Minute):
			c.Violate("serve", "ServeAll did not return")
		}
		census(c, "connections", fmt.Sprintf("%s: after all connections were closed and the server was shut down (server first: %v)", mode, serverFirst), base)
	}
}

// c27servers: servers and clients that never get going.
func c27servers(c *C) {
	r := c.Rng
	base := countFDs()
	for round := 0; round < 12 && !c.Violated(); round++ {
		mode := []string{"tcp", "tls", "ws", "wss"}[r.Intn(4)]
		what := r.Intn(9)
		name := ""
		switch what {
		case 0:
			name = "a server that only listened"
			s := makeServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler}, qrpc.ServerBinding{Handler: echoHandler})
			if err := s.S.ListenAll(); err != nil {
				c.Violate("listen", "%v", err)
			}
			s.Stop()
		case 1:
			name = "a server whose second address is taken"
			taken := newListener()
			bs := []qrpc.ServerBinding{{Addr: "127.0.0.1:0", Handler: echoHandler}, {Addr: taken.Addr().String(), Handler: echoHandler}}
			for i := range bs {
				setMode(mode, &bs[i])
			}
			s := qrpc.NewServer(bs)
			if err := s.ListenAndServe(); err == nil {
				c.Violate("listen", "a taken address was listened on")
			}
			c.Do("Shutdown of a server that failed to listen", func() { s.Shutdown() })
			taken.Close()
		case 2:
			name = "dials nobody answers"
			ln := newListener()
			addr := ln.Addr().String()
			ln.Close()
			for i := 0; i < 5; i++ {
				if conn, err := qrpc.NewConnection(addr, clientConf(mode, qrpc.ConnectionConfig{DialTimeout: time.Second}), nil); err == nil {
					c.Violate("dial", "dialing %s succeeded", addr)
					conn.Close()
				}
			}
			conn := qrpc.NewConnectionWithReconnect([]string{addr}, clientConf(mode, qrpc.ConnectionConfig{DialTimeout: time.Second}), nil)
			time.Sleep(5 * time.Millisecond)
			closeConn(c, conn)
			api := qrpc.NewAPI([]string{addr}, clientConf(mode, qrpc.ConnectionConfig{DialTimeout: time.Second}), nil)
			ctx, cancel := ctxT(50 * time.Millisecond)
			api.Call(ctx, 1, nil)
			cancel()
			api.Close()
		case 3:
			name = "dials that fail after connecting"
			ln := newListener()
			go func() {
				for {
					nc, err := ln.Accept()
					if err != nil {
						return
					}
					nc.Write([]byte("220 smtp\r\n"))
					nc.Close()
				}
			}()
			for i := 0; i < 5; i++ {
				conn, err := qrpc.NewConnection(ln.Addr().String(), clientConf(mode, qrpc.ConnectionConfig{DialTimeout: time.Second}), nil)
				if err == nil { // tcp: ends by itself
					c.Do("end of a connection to another protocol", func() { <-conn.Done() })
					closeConn(c, conn)
				} else if mode == "tcp" {
					c.Violate("dial", "%v", err)
				}
			}
			ln.Close()
		case 4:
			name = "a reused socket whose handshake fails"
			ln := newListener()
			go func() {
				for {
					nc, err := ln.Accept()
					if err != nil {
						return
					}
					nc.Write([]byte("220 smtp\r\n"))
					nc.Close()
				}
			}()
			conn, err := qrpc.NewReusedConnection(ln.Addr().String(), qrpc.ConnectionConfig{DialTimeout: time.Second, TLSConf: &tls.Config{InsecureSkipVerify: true}}, nil)
			if err == nil {
				c.Violate("dial", "a handshake with something else succeeded")
				closeConn(c, conn)
			}
			ln.Close()
		case 5:
			name = "an api"
			s := startServer(c, mode, nil, qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
				if q.Cmd == 2 {
					<-q.Context().Done()
					return
				}
				answer(w, q)
			})})
			api := qrpc.NewAPI([]string{s.Addrs[0], s.Addrs[0]}, clientConf(mode, qrpc.ConnectionConfig{}), nil)
			done := parallel(6, func(i int) {
				ctx, cancel := ctxT(time.Duration(r.Range(1, 30)) * time.Millisecond)
				defer cancel()
				api.Call(ctx, qrpc.Cmd(1+i%2), []byte("x"))
				api.CallAll(ctx, qrpc.Cmd(1+i%2), []byte("x"))
			})
			if r.P(1, 2) {
				c.Must("api calls", done)
			}
			api.Close()
			c.Must("api calls", done)
			if r.P(1, 2) { // again
				api.Close()
			}
			s.Stop()
		case 6:
			name = "silent strangers"
			s := startServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler})
			var ncs []net.Conn
			for i := 0; i < 4; i++ {
				if nc, err := netDial(s.Addrs[0], 10*time.Second); err == nil {
					ncs = append(ncs, nc)
				}
			}
			time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
			s.Stop()
			for _, nc := range ncs {
				nc.Close()
			}
		case 7:
			name = "a pipe whose connection went"
			s := startServer(c, mode, nil, qrpc.ServerBinding{Handler: channel.NewQRPCHandler(channel.HandlerFunc(func(sd channel.Sender, rv channel.Receiver, _ channel.Transport) {
				var b []byte
				for rv.Receive(context.Background(), nil, &b) == nil {
				}
				sd.End()
			}))})
			conn := s.dial(qrpc.ConnectionConfig{}, nil)
			sd, rv, err := channel.NewTransport(conn).Pipe()
			if err != nil {
				c.Violate("pipe", "%v", err)
				return
			}
			sd.Send(context.Background(), 1, bytes.Repeat([]byte{1}, 20), false)
			done := parallel(1, func(int) { rv.Receive(context.Background(), nil, new([]byte)) })
			time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			if r.P(1, 2) {
				closeConn(c, conn)
				s.Stop()
			} else {
				s.Stop()
				closeConn(c, conn)
			}
			c.Must("Receive on an ended connection", done)
		case 8:
			name = "a service client whose server went"
			s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: echoHandler})
			conn := qrpc.NewConnectionWithReconnect([]string{s.Addrs[0]}, qrpc.ConnectionConfig{}, nil)
			time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			s.Stop()
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			closeConn(c, conn)
		}
		census(c, "setup", fmt.Sprintf("%s: after %s ended", mode, name), base)
		c.Eval(fmt.Sprint(what, mode))
	}
}

// c27registry: after any number of connections came and went nothing is registered.
func c27registry(c *C) {
	mode := []string{"tcp", "ws"}[c.K%2]
	var handlers int64
	srv := startServer(c, mode, nil, qrpc.ServerBinding{OnKickCB: func(qrpc.FrameWriter) {}, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt64(&handlers, 1)
		defer atomic.AddInt64(&handlers, -1)
		if q.Cmd == mcID {
			q.ConnectionInfo().SetID(string(q.Payload))
		}
		if q.Cmd == mcWait {
			<-q.Context().Done()
		}
		answer(w, q)
	})})
	var ids []string
	for i := 0; i < 30; i++ {
		ids = append(ids, fmt.Sprint("id", i))
	}
	for round := 0; round < 3 && !c.Violated(); round++ {
		done := parallel(6, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(round))))
			for k := 0; k < 15; k++ {
				conn, err := qrpc.NewConnection(srv.Addrs[0], clientConf(mode, qrpc.ConnectionConfig{}), nil)
				if err != nil {
					c.Violate("dial", "%v", err)
					return
				}
				var resp qrpc.Response
				if rr.P(2, 3) {
					_, resp, err = conn.Request(mcID, qrpc.NBFlag, []byte(ids[rr.Intn(len(ids))]))
					if err == nil && rr.P(1, 2) {
						resp.GetFrame()
					}
				}
				if rr.P(1, 3) {
					conn.Request(mcWait, qrpc.NBFlag, nil)
				}
				conn.Close()
				conn.Wait()
				c.Eval(fmt.Sprint("registered ", mode, resp != nil))
			}
		})
		if !c.waitAtLeast(done, 2*stallWall, 2*stallTicks) {
			c.StallAbort("connections that come and go")
		}
		left := func() int {
			n := 0
			srv.S.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { n++; return true })
			srv.S.WalkConnByID(0, ids, func(qrpc.FrameWriter, *qrpc.ConnectionInfo, int) { n++ })
			for _, id := range ids {
				if srv.S.GetConnectionInfoByID(0, id) != nil {
					n++
				}
			}
			return n + int(atomic.LoadInt64(&handlers))
		}
		if !c.Until(func() bool { return left() == 0 }) {
			c.Violate("registered", "%s: %d connections, ids or handlers are left of connections that were closed", mode, left())
		}
		c.Eval(fmt.Sprint("empty ", mode, round))
	}
	srv.Stop()
}
