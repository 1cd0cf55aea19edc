package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

func init() {
	register(&Prop{ID: "C22", MinEv: 600,
		Rule: "one evaluation per observation of the same program on one transport compared with what the model says and with plain TCP, per byte stream sent through an overlay or TLS connection and compared, per failed write, and per attempt to talk to a peer without the right handshake; distinct = (job, transport, observation, sizes, configuration)",
		Jobs: []JobSpec{
			{Name: "same", Quick: 8, Deep: 60, Fn: c22same},
			{Name: "bytes", Quick: 8, Deep: 60, Fn: c22bytes},
			{Name: "rawws", Quick: 4, Deep: 30, Fn: c22rawws},
			{Name: "writefail", Quick: 4, Deep: 30, Fn: c22writefail},
			{Name: "clear", Quick: 3, Deep: 16, Fn: c22clear},
		}})
}

var allModes = []string{"tcp", "tls", "ws", "wss"}

// transcript collects what a program observed.
type transcript struct {
	mu sync.Mutex
	l  []string
}

func (t *transcript) add(f string, a ...interface{}) {
	t.mu.Lock()
	t.l = append(t.l, fmt.Sprintf(f, a...))
	t.mu.Unlock()
}

func (t *transcript) sorted() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	l := append([]string(nil), t.l...)
	sort.Strings(l)
	return l
}

// c22program runs the program of the seed over one transport.
func c22program(c *C, seed int64, mode string) []string {
	t := &transcript{}
	r := NewRng(seed)
	var handlers int64
	codec := &zlibCodec{}
	scanned := make(chan string, 1)
	binding := qrpc.ServerBinding{
		MaxFrameSize:        64 << 20,
		DefaultWriteTimeout: r.Pick(0, 0, 20),
		DefaultReadTimeout:  r.Pick(0, 0, 20),
		WriteFrameChSize:    r.Pick(0, 3),
		ReadFrameChSize:     r.Pick(0, 3),
		Codec:               codec,
		RBufSize:            r.Pick(0, 0, 1<<17, 1<<20),
		WBufSize:            r.Pick(0, 0, 1<<17, 1<<20),
	}
	mux := qrpc.NewServeMux()
	mux.Handle(1, echoHandler)
	mux.HandleFunc(2, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // stream: sum up, then stream back
		atomic.AddInt64(&handlers, 1)
		defer atomic.AddInt64(&handlers, -1)
		n, h := 1, h64(q.Payload)
		for f := range q.FrameCh() {
			n++
			h = mix(h, h64(f.Payload), uint64(f.Cmd))
		}
		for i := 0; i < 4; i++ {
			fl := qrpc.StreamFlag
			if i == 3 {
				fl = qrpc.StreamEndFlag
			}
			w.StartWrite(q.RequestID, qrpc.Cmd(n), fl)
			w.WriteBytes(gen(mix(h, uint64(i)), 8+i*900))
			w.EndWrite()
		}
	})
	mux.HandleFunc(3, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { panic("planned") })
	mux.HandleFunc(4, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // waits until its context ends
		atomic.AddInt64(&handlers, 1)
		defer atomic.AddInt64(&handlers, -1)
		<-q.Context().Done()
		t.add("handler saw the end of its context")
	})
	mux.HandleFunc(5, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // calls the client back
		_, resp, err := q.ConnectionInfo().Request(0x51, qrpc.NBFlag, q.Payload)
		if err != nil {
			t.add("server call: %v", err)
			return
		}
		f, err := resp.GetFrame()
		if err != nil {
			t.add("server call answer: %v", err)
			return
		}
		w.StartWrite(q.RequestID, f.Cmd, 0)
		w.WriteBytes(f.Payload)
		w.EndWrite()
	})
	mux.HandleFunc(6, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // pushes to everybody, then answers
		for i := 0; i < 10; i++ {
			w.StartWrite(uint64(i)*2, qrpc.Cmd(i), qrpc.PushFlag)
			w.WriteBytes(gen(mix(h64(q.Payload), uint64(i)), 8+i*400))
			w.EndWrite()
		}
		answer(w, q)
	})
	mux.HandleFunc(7, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { q.Close() })
	mux.HandleFunc(8, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // answers with the codec
		rc, rp := respFor(uint32(q.Cmd), q.Payload)
		w.StartWrite(q.RequestID, qrpc.Cmd(rc), qrpc.CodecFlag)
		w.WriteBytes(rp)
		w.EndWrite()
	})
	binding.Handler = mux
	binding.SubFunc = func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) {
		t.add("server got push cmd=%#x %x", f.Cmd, h64(f.Payload))
	}
	srv := startServer(c, mode, nil, binding)
	conf := qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 4), Codec: codec, RBufSize: binding.RBufSize, WBufSize: binding.WBufSize,
		WriteTimeout: r.Pick(0, 0, 20), DialTimeout: time.Duration(r.Pick(0, 10)) * time.Second,
		Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			rc, rp := respFor(uint32(q.Cmd), q.Payload)
			w.StartWrite(q.RequestID, qrpc.Cmd(rc), 0)
			w.WriteBytes(rp)
			w.EndWrite()
		})}
	pushes := func(_ *qrpc.Connection, f *qrpc.Frame) {
		t.add("client got push id=%d cmd=%#x %x", f.RequestID, f.Cmd, h64(f.Payload))
	}
	newConn := func() *qrpc.Connection { return srv.dial(conf, pushes) }
	conn := newConn()
	big := r.Pick(1<<20, 3<<20, 300000)
	doneAll := parallel(6, func(g int) {
		rr := NewRng(seed*31 + int64(g))
		for k := 0; k < 25; k++ {
			op := rr.Intn(9)
			n := pickSize(rr, false)
			tag := rr.Uint64()
			p := gen(tag, n+8)
			if g == 0 && k == 10 {
				op, p = 0, gen(tag, big)
			}
			fl := qrpc.FrameFlag(rr.Pick(int(qrpc.NBFlag), int(qrpc.NBFlag|qrpc.CodecFlag)))
			want, what := "", ""
			var f *qrpc.Frame
			var err error
			switch op {
			case 0, 1, 2:
				what = "echo"
				_, f, err = c.call(conn, 1, fl, p)
				rc, rp := respFor(1, p)
				want = fmt.Sprintf("cmd=%#x %x", rc, h64(rp))
			case 3:
				what = "nested"
				_, f, err = c.call(conn, 5, qrpc.NBFlag, p)
				rc, rp := respFor(0x51, p)
				want = fmt.Sprintf("cmd=%#x %x", rc, h64(rp))
			case 4:
				what = "codec answer"
				_, f, err = c.call(conn, 8, qrpc.NBFlag, p)
				rc, rp := respFor(8, p)
				want = fmt.Sprintf("cmd=%#x %x", rc, h64(rp))
			case 5:
				what = "panic"
				_, f, err = c.call(conn, 3, qrpc.NBFlag, p)
				if err == nil {
					t.add("%d/%d panic was answered", g, k)
				} else {
					t.add("%d/%d panic: no answer", g, k)
				}
				continue
			case 6:
				what = "pushes"
				_, f, err = c.call(conn, 6, qrpc.NBFlag, p)
				rc, rp := respFor(6, p)
				want = fmt.Sprintf("cmd=%#x %x", rc, h64(rp))
			case 7: // stream
				done := make(chan struct{})
				go func() {
					defer close(done)
					m := rr.Range(0, 6)
					sw, resp, err := conn.StreamRequest(2, 0, p)
					if err != nil {
						t.add("%d/%d stream: %v", g, k, err)
						return
					}
					h := h64(p)
					for i := 0; i <= m; i++ {
						q := gen(mix(tag, uint64(i)), 8+i*700)
						sw.StartWrite(qrpc.Cmd(i))
						sw.WriteBytes(q)
						if err := sw.EndWrite(i == m); err != nil {
							t.add("%d/%d stream write: %v", g, k, err)
						}
						h = mix(h, h64(q), uint64(i))
					}
					f, err := resp.GetFrame()
					first := f
					for i := 0; i < 4 && err == nil; i++ {
						if f == nil || !same(f.Payload, gen(mix(h, uint64(i)), 8+i*900)) || int(f.Cmd) != m+2 {
							c.Violate("same", "%s: stream answer %d of %d frames is wrong: %+v", mode, i, m+2, f)
							return
						}
						if i < 3 {
							f = <-first.FrameCh()
						}
					}
					t.add("%d/%d stream of %d: %v", g, k, m, err)
				}()
				c.Must("stream over "+mode, done)
				continue
			case 8: // push
				what = "push"
				_, _, err = conn.Request(0x9, qrpc.PushFlag, p)
				t.add("%d/%d push %x: %v", g, k, h64(p), err)
				continue
			}
			got := fmt.Sprint(err)
			if err == nil {
				got = fmt.Sprintf("cmd=%#x %x", f.Cmd, h64(f.Payload))
			}
			if got != want {
				c.Violate("same", "%s: %s of %s: got %s want %s", mode, what, brief(p), got, want)
			}
			t.add("%d/%d %s %s", g, k, what, got)
		}
	})
	if !c.waitAtLeast(doneAll, stallWall*2, stallTicks*2) {
		c.StallAbort("program over " + mode)
	}
	// a reset reaches the handler
	sw, _, err := conn.StreamRequest(4, 0, []byte("wait"))
	if err == nil {
		err = sw.ResetFrame(3)
	}
	t.add("reset: %v", err)
	c.MustUntil("end of handlers after a reset over "+mode, func() bool { return atomic.LoadInt64(&handlers) == 0 })
	// what is pending when the connection ends
	for i, how := range []string{"client closes", "handler closes", "unregistered"} {
		k := conn
		if i > 0 {
			k = newConn()
		}
		pend := parallel(3, func(int) {
			_, _, err := c.call(k, 4, qrpc.NBFlag, []byte("pending"))
			t.add("%s: pending call failed: %v", how, err != nil)
		})
		c.MustUntil("start of pending handlers over "+mode, func() bool { return atomic.LoadInt64(&handlers) == 3 })
		switch i {
		case 0:
			t.add("close: %v", k.Close())
		case 1:
			_, _, err := c.call(k, 7, qrpc.NBFlag, nil)
			t.add("call of a closing handler failed: %v", err != nil)
		case 2:
			_, _, err := c.call(k, 0x99, qrpc.NBFlag, nil)
			t.add("call of nothing failed: %v", err != nil)
		}
		c.Must("calls pending at the end of a connection over "+mode, pend)
		c.Do("Wait over "+mode, k.Wait)
		c.MustUntil("end of handlers of a closed connection over "+mode, func() bool { return atomic.LoadInt64(&handlers) == 0 })
		t.add("%s: closed %v, close again: %v", how, k.IsClosed(), k.Close())
	}
	_ = scanned
	srv.Stop()
	return t.sorted()
}

// c22same: one program, four transports.
func c22same(c *C) {
	seed := int64(c.Rng.Uint64() >> 2)
	var ref []string
	for _, mode := range allModes {
		l := c22program(c, seed, mode)
		for _, s := range l {
			c.Eval(mode + " " + s[strings.IndexByte(s, ' ')+1:min(len(s), 24)])
		}
		if ref == nil {
			ref = l
			continue
		}
		for i := 0; i < len(l) || i < len(ref); i++ {
			a, b := "-", "-"
			if i < len(ref) {
				a = ref[i]
			}
			if i < len(l) {
				b = l[i]
			}
			if a != b {
				c.Violate("same", "over tcp %q, over %s %q", a, mode, b)
				return
			}
		}
	}
}

// netPair makes both ends of one transport without the library's frames.
func netPair(c *C, mode string, wrap func(net.Conn) net.Conn) (a, b net.Conn, stop func()) {
	st, ct := tlsConfs()
	ln := newListener()
	var l net.Listener = &fListener{Listener: ln, wrap: func(_ int, nc net.Conn) net.Conn {
		if wrap != nil {
			return wrap(nc)
		}
		return nc
	}}
	var acc func() (net.Conn, error)
	dc := qrpc.DialConfig{DialTimeout: 10 * time.Second}
	var ov qrpc.Listener
	switch mode {
	case "tcp":
		acc = l.Accept
	case "tls":
		l = tls.NewListener(l, st.Clone())
		acc = l.Accept
	case "ws":
		ov = wsserver.OverlayNetwork(l, nil)
		acc = ov.Accept
	case "wss":
		ov = wsserver.OverlayNetwork(l, st.Clone())
		acc = ov.Accept
		dc.TLSConf = ct.Clone()
	}
	ch := make(chan net.Conn, 1)
	go func() {
		nc, err := acc()
		if err != nil {
			c.Violate("accept", "%s: Accept: %v", mode, err)
		}
		if t, ok := nc.(*tls.Conn); ok && mode == "tls" {
			t.Handshake()
		}
		ch <- nc
	}()
	var err error
	c.Do("dialing "+mode, func() {
		switch mode {
		case "tcp":
			a, err = net.Dial("tcp", ln.Addr().String())
		case "tls":
			a, err = tls.Dial("tcp", ln.Addr().String(), ct.Clone())
		default:
			a, err = wsclient.DialConn(ln.Addr().String(), dc)
		}
	})
	if err != nil {
		c.Violate("dial", "%s: %v", mode, err)
		c.Abort()
	}
	c.Do("accepting "+mode, func() { b = <-ch })
	stop = func() {
		a.Close()
		if b != nil {
			b.Close()
		}
		if ov != nil {
			ov.Close()
		}
		l.Close()
	}
	return
}

// c22bytes: any connection under the library is a faithful byte stream both ways.
func c22bytes(c *C) {
	r := c.Rng
	mode := []string{"ws", "wss"}[c.K%2]
	for round := 0; round < 5 && !c.Violated(); round++ {
		pol, wrap := chunkPolicy(r)
		if pol == "timeouts" || pol == "plain" {
			wrap = nil
		}
		a, b, stop := netPair(c, mode, wrap)
		total := r.Pick(1000, 70000, 1<<20)
		var wg sync.WaitGroup
		dir := func(name string, from, to net.Conn, tag uint64) {
			data := gen(tag, total)
			if tag%2 == 0 { // mostly zeros
				for i := range data {
					if data[i]&7 != 0 {
						data[i] = 0
					}
				}
			}
			wg.Add(2)
			rw, rd := r.Fork(), r.Fork()
			go func() {
				defer wg.Done()
				for p := data; len(p) > 0; {
					n := rw.Pick(0, 1, 2, 15, 16, 125, 126, 127, 128, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000)
					if n > len(p) {
						n = len(p)
					}
					before := h64(p[:n])
					k, err := from.Write(p[:n])
					if err != nil || k != n {
						c.Violate("write", "%s %s: Write of %d returned %d, %v", mode, name, n, k, err)
						return
					}
					if h64(p[:n]) != before {
						c.Violate("write", "%s %s: Write changed the caller's buffer", mode, name)
					}
					p = p[n:]
				}
			}()
			go func() {
				defer wg.Done()
				got := 0
				style := rd.Intn(3)
				for got < total {
					sz := rd.Pick(1, 16, 1000, 4096, 70000)
					if style == 1 {
						sz = rd.Range(1, 40)
						if total > 80000 {
							sz = rd.Range(500, 5000)
						}
					}
					buf := make([]byte, sz)
					k, err := to.Read(buf)
					if k > 0 && (got+k > total || !same(buf[:k], data[got:got+k])) {
						c.Violate("bytes", "%s %s: %d bytes read at offset %d of %d differ from what was written", mode, name, k, got, total)
						return
					}
					got += k
					if err != nil {
						c.Violate("bytes", "%s %s: Read at offset %d of %d: %v", mode, name, got, total, err)
						return
					}
				}
				c.Eval(fmt.Sprint("bytes ", mode, name, total, style, pol))
				c.Count("bytes", int64(total))
			}()
		}
		dir("client->server", a, b, r.Uint64())
		dir("server->client", b, a, r.Uint64())
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		c.Must("byte stream over "+mode, done)
		// closing one end is the end of the other
		if r.P(1, 2) {
			a, b = b, a
		}
		a.Close()
		c.Do("Read of a closed peer over "+mode, func() {
			if k, err := b.Read(make([]byte, 10)); k != 0 || err == nil {
				c.Violate("bytes", "%s: after the peer closed Read returned %d, %v", mode, k, err)
			}
		})
		stop()
	}
}

// c22rawws: a websocket peer that cuts the byte stream into messages and fragments of its own.
func c22rawws(c *C) {
	r := c.Rng
	_, ct := tlsConfs()
	mode := []string{"ws", "wss"}[c.K%2]
	rec := newRecorder()
	srv := startServer(c, mode, nil, qrpc.ServerBinding{Handler: rec.handler(), SubFunc: rec.sub(), MaxFrameSize: 1 << 24})
	for round := 0; round < 12 && !c.Violated(); round++ {
		d := websocket.Dialer{TLSClientConfig: ct.Clone()}
		url := "ws://" + srv.Addrs[0] + "/qrpc"
		if mode == "wss" {
			url = "wss://" + srv.Addrs[0] + "/qrpc"
		}
		var wc *websocket.Conn
		var err error
		c.Do("raw websocket dial", func() { wc, _, err = d.Dial(url, nil) })
		if err != nil {
			c.Violate("dial", "websocket dial: %v", err)
			return
		}
		var want []WFrame
		var raw []byte
		n := r.Range(1, 40)
		for i := 0; i < n; i++ {
			f := WFrame{ID: uint64(i)*2 + 1, Flags: byte(r.Pick(0, int(fNB), int(fPush))), Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64(), pickSize(r, false))}
			want = append(want, f)
			raw = append(raw, f.Bytes()...)
		}
		style := r.Intn(4)
		local := wc.LocalAddr().String()
		rr := r.Fork()
		go func() {
			p := raw
			for len(p) > 0 {
				k := rr.Pick(1, 3, 16, 17, 100, 1024, 5000, 100000)
				if style == 0 {
					k = len(p)
				} else if style == 1 && len(raw) < 5000 {
					k = 1
				}
				if k > len(p) {
					k = len(p)
				}
				if rr.P(1, 6) {
					n := 1
					if rr.P(1, 4) {
						n = 250
					}
					for ; n > 0; n-- {
						wc.WriteMessage(websocket.BinaryMessage, nil)
					}
				}
				if rr.P(1, 8) {
					wc.WriteControl(websocket.PingMessage, []byte("ping"), time.Now().Add(10*time.Second))
				}
				if style == 3 { // fragments: the writer's buffer is 4096, Flush comes with every full one
					w, err := wc.NextWriter(websocket.BinaryMessage)
					if err != nil {
						return
					}
					for q := p[:k]; len(q) > 0; {
						m := rr.Range(1, 5000)
						if m > len(q) {
							m = len(q)
						}
						w.Write(q[:m])
						q = q[m:]
					}
					w.Close()
				} else if wc.WriteMessage(websocket.BinaryMessage, p[:k]) != nil {
					return
				}
				p = p[k:]
			}
		}()
		// answers come back as a byte stream in binary messages
		nreq := 0
		for _, f := range want {
			if f.Flags&fPush == 0 {
				nreq++
			}
		}
		pr, pw := io.Pipe()
		go func() {
			for {
				mt, msg, err := wc.ReadMessage()
				if err != nil {
					pw.CloseWithError(err)
					return
				}
				if mt != websocket.BinaryMessage {
					c.Violate("rawws", "the server sent a message of type %d", mt)
				}
				pw.Write(msg)
			}
		}()
		byID := map[uint64]WFrame{}
		c.Do("answers to a raw websocket peer", func() {
			for i := 0; i < nreq; i++ {
				f, err := readWFrame(pr)
				if err != nil {
					c.Violate("rawws", "after %d of %d answers: %v", i, nreq, err)
					return
				}
				byID[f.ID] = f
			}
		})
		for _, f := range want {
			if f.Flags&fPush != 0 {
				continue
			}
			rc, rp := respFor(f.Cmd, f.Payload)
			g := byID[f.ID]
			if g.Cmd != rc || !same(g.Payload, rp) {
				c.Violate("rawws", "answer to %v is %v", f, g)
			}
		}
		c.MustUntil("delivery of the frames of a raw websocket peer", func() bool { return len(rec.of(local)) >= len(want) || c.Violated() })
		sameFrames(c, "raw websocket", rec.of(local), want)
		c.Eval(fmt.Sprint("rawws ", mode, style, bucket(len(raw))))
		wc.Close()
		pr.Close()
	}
	srv.Stop()
}

// c22writefail: what Write reports is what arrives.
func c22writefail(c *C) {
	r := c.Rng
	for round := 0; round < 8 && !c.Violated(); round++ {
		mode := []string{"ws", "wss"}[r.Intn(2)]
		how := r.Intn(4)
		var wrap func(nc net.Conn) net.Conn
		if how == 3 {
			cut := int64(r.Range(3000, 200000))
			wrap = func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{Rng: r.Fork(), CutW: cut, StickyErr: true}) }
		}
		a, b, stop := netPair(c, mode, wrap)
		if r.P(1, 2) && how != 3 {
			a, b = b, a
		}
		// b writes, a reads
		var got int64
		var mu sync.Mutex
		var recv []byte
		readAll := func() {
			buf := make([]byte, 30000)
			for {
				k, err := a.Read(buf)
				mu.Lock()
				recv = append(recv, buf[:k]...)
				mu.Unlock()
				atomic.AddInt64(&got, int64(k))
				if err != nil {
					return
				}
			}
		}
		var told int64
		var sent []byte
		failed := false
		fin := make(chan struct{})
		switch how {
		case 0: // the peer goes away
			go func() { time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond); a.Close() }()
		case 1: // this side is closed meanwhile
			go readAll()
			go func() { time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond); b.Close() }()
		case 2: // nobody reads, a deadline passes
			b.SetWriteDeadline(time.Now().Add(time.Duration(r.Range(20, 200)) * time.Millisecond))
		case 3:
			go readAll()
		}
		go func() {
			defer close(fin)
			for i := 0; i < 100000; i++ {
				p := gen(mix(uint64(i), uint64(round)), r.Pick(10, 3000, 70000))
				k, err := b.Write(p)
				if k < 0 || k > len(p) || err == nil && k != len(p) {
					c.Violate("write", "%s: Write of %d bytes returned %d, %v", mode, len(p), k, err)
				}
				if err != nil && k == len(p) {
					c.Violate("write", "%s (%d): a failed write (%v) of %d bytes was reported as written", mode, how, err, k)
				}
				told += int64(k)
				sent = append(sent, p[:k]...)
				c.Eval("")
				if err != nil {
					failed = true
					for j := 0; j < 3; j++ { // and so do the next ones
						if k, err := b.Write([]byte("more")); k == 4 || err == nil {
							c.Violate("write", "%s (%d): after a failed write, Write returned %d, %v", mode, how, k, err)
						}
					}
					return
				}
			}
		}()
		if !c.waitAtLeast(fin, stallWall*2, stallTicks*2) {
			c.StallAbort("failing Write over " + mode)
		}
		if !failed {
			c.Violate("write", "%s (%d): writes never failed", mode, how)
		}
		if how == 2 { // what was reported as written is still there to be read
			go readAll()
			c.MustUntil("what was reported as written", func() bool { return atomic.LoadInt64(&got) >= told })
		}
		mu.Lock()
		n := len(recv)
		if n > len(sent) {
			n = len(sent)
		}
		if d := diffAt(recv[:n], sent[:n]); d < n {
			c.Violate("bytes", "%s (%d): byte %d differs", mode, how, d)
		}
		mu.Unlock()
		c.Eval(fmt.Sprint("writefail ", mode, how, told > 0))
		stop()
	}
}

// c22clear: with TLS configured nothing goes in clear text and nobody without the handshake is talked to.
func c22clear(c *C) {
	r := c.Rng
	marker := []byte("MARKER-" + fmt.Sprintf("%016x", r.Uint64()))
	_, ct := tlsConfs()
	// 1. the wire of a TLS connection shows neither frames nor payload
	for _, mode := range []string{"tls", "wss"} {
		tap := &Tap{}
		srv := startServer(c, mode, func(_ int, nc net.Conn) net.Conn { return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, TapR: tap}) },
			qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
				w.StartWrite(q.RequestID, 1, 0)
				w.WriteBytes(append([]byte("x"), q.Payload...))
				w.EndWrite()
			})})
		for kind := 0; kind < 3; kind++ {
			conf := clientConf(mode, qrpc.ConnectionConfig{})
			var conn *qrpc.Connection
			var err error
			switch kind {
			case 0:
				conn, err = qrpc.NewConnection(srv.Addrs[0], conf, nil)
			case 1:
				conn = qrpc.NewConnectionWithReconnect([]string{srv.Addrs[0]}, conf, nil)
			case 2:
				if mode == "wss" {
					continue
				}
				conn, err = qrpc.NewReusedConnection(srv.Addrs[0], conf, nil)
			}
			if err != nil {
				c.Violate("dial", "%s: %v", mode, err)
				return
			}
			for k := 0; k < 5; k++ {
				_, f, err := c.call(conn, 1, qrpc.NBFlag, marker)
				if err != nil || !same(f.Payload[1:], marker) {
					c.Violate("same", "%s: call: %v", mode, err)
				}
			}
			closeConn(c, conn)
			b := tap.Bytes()
			if len(b) == 0 || bytes.Contains(b, marker) {
				c.Violate("clear", "%s: %d bytes on the wire contain the payload in clear: %v", mode, len(b), bytes.Contains(b, marker))
			}
			c.Eval(fmt.Sprint("wire ", mode, kind))
		}
		// a client that does not speak TLS is never served
		plain := "tcp"
		if mode == "wss" {
			plain = "ws"
		}
		pc, err := qrpc.NewConnection(srv.Addrs[0], clientConf(plain, qrpc.ConnectionConfig{}), nil)
		if err == nil {
			if _, f, err := c.call(pc, 1, qrpc.NBFlag, marker); err == nil {
				c.Violate("clear", "%s server answered a client without TLS: %s", mode, brief(f.Payload))
			}
			closeConn(c, pc)
		}
		c.Eval("plain client " + mode)
		srv.Stop()
	}
	// 2. a server that cannot complete the handshake
	other, _ := makeCert("other.example")
	bad := []struct {
		name string
		srv  *tls.Config
		cli  *tls.Config
	}{
		{"no tls", nil, ct.Clone()},
		{"untrusted", &tls.Config{Certificates: []tls.Certificate{other}}, ct.Clone()},
		{"wrong name", func() *tls.Config { s, _ := tlsConfs(); return s.Clone() }(), func() *tls.Config { k := ct.Clone(); k.ServerName = "somebody.else"; return k }()},
		{"no common version", func() *tls.Config { s, _ := tlsConfs(); s = s.Clone(); s.MinVersion = tls.VersionTLS13; return s }(), func() *tls.Config { k := ct.Clone(); k.MaxVersion = tls.VersionTLS12; return k }()},
		{"client certificate", func() *tls.Config {
			s, _ := tlsConfs()
			s = s.Clone()
			s.ClientAuth = tls.RequireAndVerifyClientCert
			s.ClientCAs = x509.NewCertPool()
			s.MaxVersion = tls.VersionTLS12
			return s
		}(), ct.Clone()},
	}
	for _, b := range bad {
		for _, over := range []string{"tls", "wss"} {
			var served, clear, conns int64
			ln := newListener()
			var frames sync.Map
			go func() {
				for {
					nc, err := ln.Accept()
					if err != nil {
						return
					}
					atomic.AddInt64(&conns, 1)
					go func() {
						defer nc.Close()
						tap := &Tap{}
						var rd net.Conn = wrapConn(nc, Policy{Rng: NewRng(1), TapR: tap})
						if b.srv != nil {
							rd = tls.Server(rd, b.srv)
						}
						nc.SetDeadline(time.Now().Add(3 * time.Second))
						buf := make([]byte, 4096)
						n, _ := rd.Read(buf)
						if b.srv != nil && n > 0 {
							atomic.AddInt64(&served, 1)
						}
						if w := tap.Bytes(); len(w) > 0 && w[0] != 0x16 {
							atomic.AddInt64(&clear, 1)
							frames.Store(string(w), true)
						}
					}()
				}
			}()
			conf := qrpc.ConnectionConfig{TLSConf: b.cli.Clone(), DialTimeout: 2 * time.Second}
			if over == "wss" {
				conf.OverlayNetwork = wsclient.OverlayNetwork
			}
			var conn *qrpc.Connection
			var err error
			c.Do("dialing a peer without the handshake", func() { conn, err = qrpc.NewConnection(ln.Addr().String(), conf, nil) })
			if err == nil {
				c.Violate("handshake", "%s: NewConnection to a peer with %s succeeded", over, b.name)
				conn.Close()
			}
			rc := qrpc.NewConnectionWithReconnect([]string{ln.Addr().String()}, conf, nil)
			c.Do("call without a handshake", func() {
				for k := 0; k < 3; k++ {
					if _, resp, err := rc.Request(1, qrpc.NBFlag, marker); err == nil {
						ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
						if f, err := resp.GetFrameWithContext(ctx); err == nil {
							c.Violate("handshake", "%s: a call to a peer with %s was answered: %v", over, b.name, f)
						}
						cancel()
					}
				}
			})
			rc.Close()
			c.Do("Wait of a connection without handshake", rc.Wait)
			if clear != 0 || served != 0 {
				frames.Range(func(k, _ interface{}) bool { c.Logf("in clear: %q", k); return true })
				c.Violate("clear", "%s: a peer with %s got %d connections: %d began in clear text, %d delivered data", over, b.name, conns, clear, served)
			}
			c.Eval(fmt.Sprint("bad ", b.name, over))
			ln.Close()
		}
	}
}
