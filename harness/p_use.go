package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

// Legal but unusual uses: callbacks that use what calls them, refused calls after which things go on, messages that
// do not fit, the exported parts used by themselves.
func init() {
	extend("C14", JobSpec{Name: "refused", Quick: 2, Deep: 12, Fn: c14refused})
	extend("C15", JobSpec{Name: "nested", Quick: 3, Deep: 24, Fn: c15nested})
	extend("C16", JobSpec{Name: "nested", Quick: 3, Deep: 24, Fn: c16nested})
	extend("C19", JobSpec{Name: "hangup", Quick: 2, Deep: 16, Fn: c19hangup})
	extend("C21", JobSpec{Name: "mismatch", Quick: 4, Deep: 24, Fn: c21mismatch})
	extend("C22", JobSpec{Name: "dialers", Quick: 3, Deep: 12, Fn: c22dialers})
	extend("C28", JobSpec{Name: "parts", Quick: 3, Deep: 12, Fn: c28parts})
}

// panics reports whether f does.
func panics(f func()) (did bool) {
	defer func() { did = recover() != nil }()
	f()
	return
}

// c14refused: binding a second or an empty id panics and changes nothing.
func c14refused(c *C) {
	r := c.Rng
	s := startServer(c, []string{"tcp", "ws"}[c.K%2], nil, qrpc.ServerBinding{Handler: echoHandler})
	info := func(conn *qrpc.Connection, known map[*qrpc.ConnectionInfo]bool) (ci *qrpc.ConnectionInfo) {
		c.MustUntil("registration of a connection", func() bool {
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
				if !known[x] {
					ci = x
				}
				return ci == nil
			})
			return ci != nil
		})
		known[ci] = true
		return
	}
	known := map[*qrpc.ConnectionInfo]bool{}
	for k := 0; k < 25 && !c.Violated(); k++ {
		conn := s.dial(qrpc.ConnectionConfig{}, nil)
		ci := info(conn, known)
		id := fmt.Sprint("id", k)
		if r.P(1, 2) {
			c.Do("SetID of an empty id", func() {
				if !panics(func() { ci.SetID("") }) {
					c.Violate("empty-id", "SetID accepted an empty id")
				}
			})
		}
		c.Do("SetID", func() { ci.SetID(id) })
		for j := r.Range(1, 3); j > 0; j-- {
			again := id
			if r.P(1, 2) {
				again = fmt.Sprint("other", k)
			}
			c.Do("SetID of a second id", func() {
				if !panics(func() { ci.SetID(again) }) {
					c.Violate("second-id", "SetID(%q) of a connection bound to %q did not panic", again, id)
				}
			})
		}
		var got string
		c.Do("GetID after refused SetIDs", func() { got = ci.GetID() })
		if got != id {
			c.Violate("id", "GetID is %q after binding %q and refused calls", got, id)
		}
		if x := s.S.GetConnectionInfoByID(0, id); x != ci {
			c.Violate("lookup", "lookup of %q after refused SetIDs: %v", id, x)
		}
		if x := s.S.GetConnectionInfoByID(0, fmt.Sprint("other", k)); x != nil {
			c.Violate("lookup", "lookup of a refused id returned a connection")
		}
		c.probe(conn, "served", "after refused SetIDs")
		if r.P(1, 2) {
			conn2 := s.dial(qrpc.ConnectionConfig{}, nil)
			ci2 := info(conn2, known)
			c.Do("takeover after refused SetIDs", func() {
				if kick, _ := ci2.SetID(id); !kick {
					c.Violate("takeover", "taking over %q kicked nobody", id)
				}
			})
			c.MustUntil("end of the connection that lost its id", conn.IsClosed)
			if x := s.S.GetConnectionInfoByID(0, id); x != ci2 {
				c.Violate("lookup", "lookup of %q after a takeover: %v", id, x)
			}
			closeConn(c, conn2)
		} else if r.P(1, 2) {
			c.Do("closing after refused SetIDs", func() { ci.Close() })
		} else {
			closeConn(c, conn)
		}
		c.MustUntil("end of the id of a closed connection", func() bool { return s.S.GetConnectionInfoByID(0, id) == nil })
		closeConn(c, conn)
		c.Eval(fmt.Sprint("refused ", k))
	}
	s.Stop()
}

// c15nested: notifications that use the connection and the server, and register further ones.
func c15nested(c *C) {
	r := c.Rng
	mode := []string{"tcp", "ws", "tls"}[c.K%3]
	var onClose int64
	var s *Srv
	b := qrpc.ServerBinding{Handler: echoHandler, LifecycleCallbacks: qrpc.ServerLifecycleCallbacks{
		OnAccept: func(net.Conn) error {
			if s != nil {
				s.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.GetID(); return true })
			}
			return nil
		},
		OnClose: func(net.Conn) {
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.GetID(); return true })
			s.S.GetPushID()
			atomic.AddInt64(&onClose, 1)
		}}}
	s = makeServer(c, mode, nil, b)
	s.start()
	type note struct {
		runs int32
		when string
		ci   *qrpc.ConnectionInfo
	}
	var mu sync.Mutex
	var notes []*note
	var add func(ci *qrpc.ConnectionInfo, when string, depth int)
	add = func(ci *qrpc.ConnectionInfo, when string, depth int) {
		n := &note{when: when, ci: ci}
		mu.Lock()
		notes = append(notes, n)
		mu.Unlock()
		ci.NotifyWhenClose(func() {
			atomic.AddInt32(&n.runs, 1)
			ci.GetID()
			if !ci.IsClosed() {
				c.Violate("notify", "a notification (%s) ran on a connection that is not closed", when)
			}
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
				if x == ci {
					c.Violate("walk", "a closed connection was visited from its notification (%s)", when)
				}
				return true
			})
			w := ci.GetWriter()
			w.StartWrite(3, 1, qrpc.PushFlag)
			if err := w.EndWrite(); err == nil {
				c.Violate("write", "a write from a notification (%s) succeeded", when)
			}
			if _, _, err := ci.Request(1, 0, nil); err == nil {
				c.Violate("write", "a request from a notification (%s) succeeded", when)
			}
			if depth > 0 {
				add(ci, when+", nested", depth-1)
				mu.Lock()
				for _, x := range notes {
					if x.ci == ci && x.when == when+", nested" && atomic.LoadInt32(&x.runs) != 1 {
						c.Violate("late", "a notification registered inside one (%s) was not run at once", when)
					}
				}
				mu.Unlock()
			}
		})
	}
	var conns []*qrpc.Connection
	for k := 0; k < 24 && !c.Violated(); k++ {
		mu.Lock()
		notes = nil // one connection at a time
		mu.Unlock()
		conn := s.dial(qrpc.ConnectionConfig{}, nil)
		var ci *qrpc.ConnectionInfo
		c.MustUntil("registration of a connection", func() bool {
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool { ci = x; return false })
			return ci != nil
		})
		n := r.Range(1, 4)
		for j := 0; j < n; j++ {
			add(ci, fmt.Sprint("before, ", j), 2)
		}
		how := k % 4
		switch how {
		case 0:
			c.Do("closing a connection whose notifications use it", func() { ci.Close() })
		case 1:
			conn.Close()
		case 2:
			id := fmt.Sprint("x", k)
			c.Do("SetID", func() { ci.SetID(id) })
			conn2 := s.dial(qrpc.ConnectionConfig{}, nil)
			conns = append(conns, conn2)
			var ci2 *qrpc.ConnectionInfo
			c.MustUntil("registration of a connection", func() bool {
				s.S.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
					if x != ci {
						ci2 = x
					}
					return true
				})
				return ci2 != nil
			})
			c.Do("taking the id of a connection whose notifications use it", func() { ci2.SetID(id) })
			conn2.Close()
			c.MustUntil("end of the other connection", func() bool { return ci2.IsClosed() })
		case 3: // two at once
			done := parallel(2, func(int) { ci.Close() })
			c.Must("closing a connection whose notifications use it, twice", done)
		}
		c.MustUntil("end of a connection", ci.IsClosed)
		c.Do("notifications of a closed connection", func() { add(ci, "after", 2) })
		c.MustUntil("the notifications", func() bool {
			mu.Lock()
			defer mu.Unlock()
			for _, x := range notes {
				if atomic.LoadInt32(&x.runs) == 0 {
					return false
				}
			}
			return true
		})
		c.Settle(1)
		mu.Lock()
		for _, x := range notes {
			if k := atomic.LoadInt32(&x.runs); k != 1 {
				c.Violate("notify", "a notification (%s) has run %d times", x.when, k)
			}
		}
		if want := 3*n + 3; len(notes) != want {
			c.Violate("notify", "%d notifications were registered, want %d", len(notes), want)
		}
		mu.Unlock()
		closeConn(c, conn)
		c.Eval(fmt.Sprint("nested ", how, n, mode))
	}
	s.Stop()
	c.Count("closed", atomic.LoadInt64(&onClose))
}

// c16nested: shutdown functions that use the server, register more of them, or shut it down.
func c16nested(c *C) {
	for round := 0; round < 6 && !c.Violated(); round++ {
		r := c.Rng
		s := startServer(c, []string{"tcp", "ws", "tls"}[c.K%3], nil, qrpc.ServerBinding{Handler: echoHandler}, qrpc.ServerBinding{Handler: echoHandler})
		var conns []*qrpc.Connection
		for k := r.Intn(4); k > 0; k-- {
			conns = append(conns, s.dialTo(k%2, qrpc.ConnectionConfig{}, nil))
		}
		var ran, want int64
		var add func(depth int)
		add = func(depth int) {
			atomic.AddInt64(&want, 1)
			kind := r.Intn(4)
			s.S.OnShutdown(func() {
				atomic.AddInt64(&ran, 1)
				s.S.SetThrottle(0)
				s.S.GetPushID()
				s.S.ClearThrottle(0)
				s.S.WalkConn(1, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.GetID(); ci.Close(); return true })
				if depth > 0 {
					before := atomic.LoadInt64(&ran)
					w0 := atomic.LoadInt64(&want)
					add(depth - 1)
					if d := atomic.LoadInt64(&want) - w0; kind != 3 && atomic.LoadInt64(&ran)-before < d {
						c.Violate("late", "a function registered by a shutdown function was not run at once")
					}
				}
			})
		}
		n := r.Range(1, 5)
		for k := 0; k < n; k++ {
			add(2)
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			s.S.Shutdown()
			if a, b := atomic.LoadInt64(&ran), int64(3*n); a != b {
				c.Violate("functions", "%d shutdown functions had run, want %d", a, b)
			}
		}()
		if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
			c.StallAbort("Shutdown with functions that use the server")
		}
		c.Do("functions registered after Shutdown", func() {
			before := atomic.LoadInt64(&ran)
			add(2)
			if d := atomic.LoadInt64(&ran) - before; d != 3 {
				c.Violate("late", "%d functions registered after Shutdown have run, want 3", d)
			}
			s.S.OnShutdown(func() {
				s.S.Shutdown()
				atomic.AddInt64(&ran, 1)
			})
			if d := atomic.LoadInt64(&ran) - before; d != 4 {
				c.Violate("late", "a function that shuts the server down again has not run")
			}
		})
		for _, conn := range conns {
			c.MustUntil("end of a connection", conn.IsClosed)
			closeConn(c, conn)
		}
		s.Stop()
		c.Eval(fmt.Sprint("nested ", n, len(conns)))
	}
}

// c19hangup: the client's own handlers hang up, or have none for the server's request; the connection comes back.
func c19hangup(c *C) {
	r := c.Rng
	s := startServer(c, []string{"tcp", "tls"}[c.K%2], nil, qrpc.ServerBinding{Handler: echoHandler})
	mux := qrpc.NewServeMux()
	mux.HandleFunc(1, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(w, q) })
	mux.HandleFunc(2, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { q.Close() })
	mux.HandleFunc(3, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(w, q); q.Close() })
	var ups, downs int64
	conf := clientConf(s.Mode, qrpc.ConnectionConfig{Handler: mux, LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{
		OnConnect:    func(*qrpc.Connection) { atomic.AddInt64(&ups, 1) },
		OnDisconnect: func(*qrpc.Connection) { atomic.AddInt64(&downs, 1) },
	}})
	conn := qrpc.NewConnectionWithReconnect(s.Addrs, conf, nil)
	used := map[*qrpc.ConnectionInfo]bool{}
	for k := 0; k < 20 && !c.Violated(); k++ {
		var ci *qrpc.ConnectionInfo
		c.MustUntil("coming back of a reconnecting client whose handler hung up", func() bool {
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
				if !used[x] {
					ci = x
				}
				return true
			})
			return ci != nil
		})
		used[ci] = true
		pl := gen(r.Uint64(), 30)
		var resp qrpc.Response
		var err error
		c.Do("request of the server", func() { _, resp, err = ci.Request(1, 0, pl) })
		if err != nil {
			c.Violate("request", "request of the server: %v", err)
			break
		}
		f, err := c.getFrame("response of the client", resp)
		if rc, rp := respFor(1, pl); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("served", "request of the server: %v %v", toWs(f), err)
		}
		cmd := qrpc.Cmd(r.Pick(2, 3, 4, 0xffff))
		c.Do("request that ends the connection", func() { _, resp, err = ci.Request(cmd, 0, pl) })
		if err == nil {
			c.getFrame("response of a client that hangs up", resp)
		}
		c.MustUntil("end of a connection the client's handler hung up", ci.IsClosed)
		if conn.IsClosed() {
			c.Violate("closed", "a reconnecting connection was closed for good by its handler for command %#x", cmd)
		}
		c.MustUntil("calls after the handler hung up", func() bool {
			var f *qrpc.Frame
			_, resp, err := conn.Request(0x41, qrpc.NBFlag, pl)
			if err == nil {
				f, err = c.getFrame("response", resp)
			}
			if err != nil {
				return false
			}
			if rc, rp := respFor(0x41, pl); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("response", "after the handler hung up: %v", toWs(f))
			}
			return true
		})
		c.Eval(fmt.Sprint("hangup ", cmd))
	}
	closeConn(c, conn)
	if u, d := atomic.LoadInt64(&ups), atomic.LoadInt64(&downs); u != d {
		c.Violate("callbacks", "%d connects and %d disconnects of a closed connection", u, d)
	}
	s.Stop()
}

// c21fussy accepts only what starts with its name.
type c21fussy struct{ b []byte }

func (f *c21fussy) Marshal() ([]byte, error) { return f.b, nil }
func (f *c21fussy) Unmarshal(b []byte) error {
	f.b = append([]byte(nil), b...)
	if !bytes.HasPrefix(b, []byte("fussy")) {
		return errors.New("not fussy")
	}
	return nil
}

// c21mismatch: receiving into what the message does not fit is an error, and takes that one message.
func c21mismatch(c *C) {
	rev := c.K%2 == 1
	const n = 30
	side := func(what string, s channel.Sender, rc channel.Receiver, up, down uint64) {
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := 0; i < n; i++ {
				var v interface{}
				switch mix(up, uint64(i)) % 3 {
				case 0:
					v = fmt.Sprint("text ", i)
				case 1:
					v = &c21fussy{append([]byte("fussy"), byte(i))}
				default:
					v = &c21fussy{[]byte{byte(i), '"'}} // no JSON either
				}
				if err := s.Send(context.Background(), qrpc.Cmd(i), v, i == n-1); err != nil {
					c.Violate("send", "%s: message %d: %v", what, i, err)
					return
				}
			}
		}()
		for i := 0; i < n; i++ {
			kind := mix(down, uint64(i)) % 3
			var cmd qrpc.Cmd = 0xffffff
			var err error
			misfit := mix(down, 77, uint64(i))%2 == 0
			ok := false
			rdone := make(chan struct{})
			go func() {
				defer close(rdone)
				switch {
				case kind == 0 && misfit:
					var x int
					err = rc.Receive(context.Background(), &cmd, &x)
				case kind == 0:
					var x string
					err = rc.Receive(context.Background(), &cmd, &x)
					ok = x == fmt.Sprint("text ", i)
				case kind == 1 && misfit, kind == 2 && misfit && i%2 == 0:
					var x map[string]int
					err = rc.Receive(context.Background(), &cmd, &x)
				case kind == 1:
					var x c21fussy
					err = rc.Receive(context.Background(), &cmd, &x)
					ok = len(x.b) == 6 && x.b[5] == byte(i)
				default: // its Unmarshal refuses
					var x c21fussy
					misfit = true
					err = rc.Receive(context.Background(), &cmd, &x)
					ok = len(x.b) == 2 && x.b[0] == byte(i)
				}
			}()
			c.Must("Receive into what does not fit", rdone)
			if int(cmd) != i && cmd != 0xffffff {
				c.Violate("cmd", "%s: message %d was received with the command of message %d", what, i, cmd)
				break
			}
			if misfit && err == nil {
				c.Violate("misfit", "%s: message %d (kind %d) was received into what it does not fit", what, i, kind)
			}
			if !misfit && (err != nil || !ok || cmd != qrpc.Cmd(i)) {
				c.Violate("after-misfit", "%s: message %d (kind %d): cmd %d, same %v: %v", what, i, kind, cmd, ok, err)
				break
			}
			c.Eval(fmt.Sprint(what, kind, misfit))
		}
		var x string
		if err := rc.Receive(context.Background(), nil, &x); err != channel.ErrStreamFinished {
			c.Violate("end", "%s: after the last message: %v", what, err)
		}
		c.Must("sends", done)
	}
	var seed uint64
	finished := make(chan struct{}, 100)
	h := channel.HandlerFunc(func(s channel.Sender, rc channel.Receiver, _ channel.Transport) {
		x := atomic.LoadUint64(&seed)
		side("acceptor", s, rc, x, x+1)
		finished <- struct{}{}
	})
	p := newPair(c, pairOpt{rev: rev, mode: []string{"tcp", "ws"}[c.K/2%2]}, channel.NewQRPCHandler(h))
	t := channel.NewTransport(p.open.(qrpc.StreamInitiator))
	for k := 0; k < 8 && !c.Violated(); k++ {
		x := c.Rng.Uint64()
		atomic.StoreUint64(&seed, x)
		s, rc, err := t.Pipe()
		if err != nil {
			c.Violate("pipe", "%v", err)
			break
		}
		if err = s.Send(context.Background(), 0, first21(x+1), false); err != nil {
			c.Violate("send", "%v", err)
			break
		}
		side("opener", skipFirst{s, new(bool)}, rc, x+1, x)
		c.MustUntil("end of the handler", func() bool { return len(finished) == k+1 || c.Violated() })
	}
	p.stop()
}

// first21 is message 0 of what side sends.
func first21(up uint64) interface{} {
	switch mix(up, 0) % 3 {
	case 0:
		return "text 0"
	case 1:
		return &c21fussy{append([]byte("fussy"), 0)}
	}
	return &c21fussy{[]byte{0, '"'}}
}

// skipFirst leaves out the first message, which opened the pipe.
type skipFirst struct {
	channel.Sender
	did *bool
}

func (s skipFirst) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{}, end bool) error {
	if !*s.did {
		*s.did = true
		return nil
	}
	return s.Sender.Send(ctx, cmd, msg, end)
}

// c22dialers: however a client is made, everything of its configuration is in use: handler, subscriber, codec,
// callbacks, read limit.
func c22dialers(c *C) {
	r := c.Rng
	mode := []string{"tcp", "tls", "ws"}[c.K%3]
	s := startServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler, Codec: &zlibCodec{}})
	for k := 0; k < 9 && !c.Violated(); k++ {
		how := []string{"plain", "reconnecting", "reused"}[k%3]
		if how == "reused" && mode == "ws" {
			continue
		}
		var ups, downs int64
		pushes := make(chan *qrpc.Frame, 10)
		sub := func(_ *qrpc.Connection, f *qrpc.Frame) { pushes <- f }
		codec := &zlibCodec{}
		quiet := how != "reconnecting" && k >= 6
		conf := qrpc.ConnectionConfig{Handler: echoHandler, Codec: codec, WriteFrameChSize: r.Pick(0, 5), DialTimeout: time.Minute,
			LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{
				OnConnect:    func(*qrpc.Connection) { atomic.AddInt64(&ups, 1) },
				OnDisconnect: func(*qrpc.Connection) { atomic.AddInt64(&downs, 1) },
			}}
		if quiet {
			conf.ReadTimeout = 2
		}
		conf = clientConf(mode, conf)
		var conn *qrpc.Connection
		var err error
		c.Do("dial", func() {
			switch how {
			case "plain":
				conn, err = qrpc.NewConnection(s.Addrs[0], conf, sub)
			case "reconnecting":
				conn = qrpc.NewConnectionWithReconnect(s.Addrs, conf, sub)
			case "reused":
				conn, err = qrpc.NewReusedConnection(s.Addrs[0], conf, sub)
			}
		})
		if err != nil {
			c.Violate("dial", "%s %s: %v", mode, how, err)
			break
		}
		pl := bytes.Repeat([]byte("compressible "), 200)
		_, f, err := c.call(conn, 0x41, qrpc.NBFlag|qrpc.CodecFlag, pl)
		if rc, rp := respFor(0x41, pl); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("call", "%s %s: %v %v", mode, how, toWs(f), err)
			break
		}
		var ci *qrpc.ConnectionInfo
		c.MustUntil("registration of a connection", func() bool {
			s.S.WalkConn(0, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
				if !x.IsClosed() {
					ci = x
				}
				return true
			})
			return ci != nil
		})
		var resp qrpc.Response
		c.Do("request of the server", func() { _, resp, err = ci.Request(0x42, qrpc.CodecFlag, pl) })
		if err == nil {
			f, err = c.getFrame("answer of the client's handler", resp)
		}
		if rc, rp := respFor(0x42, pl); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("handler", "%s %s: the server's request: %v %v", mode, how, toWs(f), err)
			break
		}
		w := ci.GetWriter()
		w.StartWrite(s.S.GetPushID(), 0x43, qrpc.PushFlag|qrpc.CodecFlag)
		w.WriteBytes(pl)
		if err = w.EndWrite(); err != nil {
			c.Violate("push", "%s %s: %v", mode, how, err)
			break
		}
		c.MustUntil("push", func() bool { return len(pushes) == 1 })
		if f := <-pushes; f.Cmd != 0x43 || !same(f.Payload, pl) {
			c.Violate("push", "%s %s: %v", mode, how, toWs(f))
		}
		if quiet {
			c.MustUntil("end of a silent connection with a read limit", conn.IsClosed)
		}
		closeConn(c, conn)
		if u, d := atomic.LoadInt64(&ups), atomic.LoadInt64(&downs); u != 1 || d != 1 {
			c.Violate("callbacks", "%s %s: %d connects and %d disconnects", mode, how, u, d)
		}
		c.MustUntil("end of a connection", ci.IsClosed)
		c.Eval(fmt.Sprint("dialer ", mode, how, quiet))
	}
	s.Stop()
}

// c28parts: the exported writer and reader by themselves, over sockets whose other end pauses.
func c28parts(c *C) {
	r := c.Rng
	both := func() (a, b net.Conn) {
		ln := newListener()
		defer ln.Close()
		done := make(chan struct{})
		go func() { defer close(done); b, _ = ln.Accept() }()
		a, err := net.Dial("tcp", ln.Addr().String())
		if err != nil {
			c.Violate("dial", "%v", err)
			c.Abort()
		}
		<-done
		return
	}
	cases := 6
	c.Must("the writer and the reader over pausing sockets", parallel(cases, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		a, b := both()
		defer a.Close()
		defer b.Close()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		timeout := rr.Pick(qrpc.WriteNoTimeout, 0, 20)
		w := qrpc.NewWriterWithTimeout(ctx, a, timeout)
		if timeout == qrpc.WriteNoTimeout {
			w = qrpc.NewWriter(ctx, a)
		}
		rd := qrpc.NewReader(nil, b)
		switch g {
		case 0, 1, 2: // all the bytes, once
			data := gen(rr.Uint64(), 20<<20)
			wdone := make(chan struct{})
			go func() {
				defer close(wdone)
				for o := 0; o < len(data); {
					k := rr.Pick(1, 1000, 100000, 9<<20)
					if k > len(data)-o {
						k = len(data) - o
					}
					n, err := w.Write(data[o : o+k])
					if n != k || err != nil {
						c.Violate("writer", "limit %d: Write of %d bytes: %d, %v", timeout, k, n, err)
						a.Close()
						return
					}
					o += k
				}
			}()
			got := make([]byte, len(data))
			half := len(got) / 3
			if err := rd.ReadBytes(got[:half]); err != nil {
				c.Violate("reader", "%v", err)
				return
			}
			time.Sleep(time.Duration(3200+rr.Intn(500)) * time.Millisecond) // beyond the slices the writer works in
			v, err := rd.ReadUint32()
			if err != nil || v != binary.BigEndian.Uint32(data[half:]) {
				c.Violate("reader", "ReadUint32: %x, %v", v, err)
				return
			}
			copy(got[half:], data[half:half+4])
			if err := rd.ReadBytesWithMaxTimeout(got[half+4:], rr.Pick(0, 3)); err != nil {
				c.Violate("reader", "%v", err)
				return
			}
			<-wdone
			if i := diffAt(got, data); i >= 0 && !same(got, data) {
				c.Violate("bytes", "limit %d: what was written and read differs at %d of %d", timeout, i, len(data))
			}
		case 3: // a write limit
			w = qrpc.NewWriterWithTimeout(ctx, a, 1)
			t := time.Now()
			_, err := w.Write(make([]byte, 40<<20))
			d := time.Since(t)
			var ne net.Error
			if err == nil || !errors.As(err, &ne) || !ne.Timeout() {
				c.Violate("write-limit", "Write to a peer that does not read, limit 1 s: %v after %v", err, d)
			}
			if d < 900*time.Millisecond {
				c.Violate("write-limit", "Write failed after %v of 1 s", d)
			}
		case 4: // read limits
			rd = qrpc.NewReaderWithTimeout(ctx, b, 1)
			t := time.Now()
			err := rd.ReadBytes(make([]byte, 3))
			if d := time.Since(t); !errors.Is(err, os.ErrDeadlineExceeded) || d < 900*time.Millisecond {
				c.Violate("read-limit", "reading from a silent peer, limit 1 s: %v after %v", err, d)
			}
			rd.SetReadTimeout(60)
			t = time.Now()
			err = rd.ReadBytesWithMaxTimeout(make([]byte, 3), 1)
			if d := time.Since(t); !errors.Is(err, os.ErrDeadlineExceeded) || d < 900*time.Millisecond {
				c.Violate("read-limit", "reading from a silent peer, at most 1 s: %v after %v", err, d)
			}
			a.Write([]byte{1, 2, 3, 4, 5})
			if v, err := rd.ReadUint32(); v != 0x01020304 || err != nil {
				c.Violate("reader", "after limits passed: %x, %v", v, err)
			}
		case 5: // its context
			fin := make(chan struct{})
			var n int
			var err error
			go func() { defer close(fin); n, err = w.Write(make([]byte, 40<<20)) }()
			time.Sleep(100 * time.Millisecond)
			cancel()
			c.Must("Write whose context has ended", fin)
			if err == nil || n <= 0 || n >= 40<<20 {
				c.Violate("write-ctx", "Write to a peer that does not read, context ended: %d, %v", n, err)
			}
		}
		c.Eval(fmt.Sprint("parts ", g, timeout))
	}))
	_ = r
}
