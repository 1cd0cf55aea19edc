package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C12", MinEv: 2000,
		Rule: "one evaluation per push matched with its one delivery (id, command, payload, order of its writer), per response that came back although pushes carried its id, and per ignored push; distinct = (direction, job, writer kind, id kind, payload bucket)",
		Jobs: []JobSpec{
			{Name: "both", Quick: 8, Deep: 60, Fn: c12both},
			{Name: "nosub", Quick: 4, Deep: 24, Fn: c12nosub},
			{Name: "rawserver", Quick: 6, Deep: 40, Fn: c12rawserver},
			{Name: "rawclient", Quick: 6, Deep: 40, Fn: c12rawclient},
			{Name: "broadcast", Quick: 3, Deep: 20, Fn: c12broadcast},
		}})
}

// pushLog matches pushes with deliveries. A tag is writer<<32|number.
type pushLog struct {
	mu   sync.Mutex
	who  string
	sent map[uint64]WFrame
	kind map[uint64]string
	got  map[uint64]int
	last map[uint64]int64
	n    int64
}

func newPushLog(who string) *pushLog {
	return &pushLog{who: who, sent: map[uint64]WFrame{}, kind: map[uint64]string{}, got: map[uint64]int{}, last: map[uint64]int64{}}
}

func pushTag(writer, n int) uint64 { return uint64(writer)<<32 | uint64(n) | 1<<62 }

// frame makes push n of a writer and notes it as sent; forget takes it back.
func (l *pushLog) frame(writer, n int, id uint64, size int, kind string) WFrame {
	t := pushTag(writer, n)
	f := WFrame{ID: id, Flags: fPush, Cmd: uint32(mix(t)) & 0xffffff, Payload: gen(t, 8+size)}
	l.mu.Lock()
	l.sent[t], l.kind[t] = f, kind
	l.mu.Unlock()
	return f
}

func (l *pushLog) forget(writer, n int) {
	l.mu.Lock()
	delete(l.sent, pushTag(writer, n))
	l.mu.Unlock()
}

func (l *pushLog) recv(c *C, f *qrpc.Frame) {
	atomic.AddInt64(&l.n, 1)
	l.mu.Lock()
	defer l.mu.Unlock()
	t := tagOf(f.Payload)
	want, ok := l.sent[t]
	if !ok {
		c.Violate("push-unknown", "%s: the subscription got a frame that is no push sent to it: %v", l.who, toW(f))
		return
	}
	if f.RequestID != want.ID || uint32(f.Cmd) != want.Cmd || !f.Flags.IsPush() || !same(f.Payload, want.Payload) {
		c.Violate("push-changed", "%s: push arrived as %v, sent as %v", l.who, toW(f), want)
		return
	}
	l.got[t]++
	if l.got[t] > 1 {
		c.Violate("push-twice", "%s: push %v was delivered %d times", l.who, want, l.got[t])
	}
	w, n := t>>32, int64(t&0xffffffff)
	if last, ok := l.last[w]; ok && n <= last {
		c.Violate("push-order", "%s: push %d of a writer was delivered after its push %d", l.who, n, last)
	}
	l.last[w] = n
}

func (l *pushLog) missing() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.sent) - len(l.got)
}

func (l *pushLog) finish(c *C, job string) {
	if !c.Until(func() bool { return l.missing() <= 0 || c.Violated() }) {
		c.Violate("push-lost", "%s: %d of %d pushes were never delivered", l.who, l.missing(), len(l.sent))
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	for t, f := range l.sent {
		c.Eval(fmt.Sprint(l.who, job, l.kind[t], bucket(len(f.Payload))))
		c.Sample("%s: push %v delivered once and in order (%s)", l.who, f, l.kind[t])
	}
	c.Count("pushes_delivered", int64(len(l.got)))
}

func writePush(w qrpc.FrameWriter, f WFrame, extra byte) error {
	w.StartWrite(f.ID, qrpc.Cmd(f.Cmd), qrpc.FrameFlag(f.Flags|extra))
	w.WriteBytes(f.Payload)
	return w.EndWrite()
}

// streams of pushes: every frame carries the same tag, the frames are numbered by command
func pushStream(tag uint64, i int) (cmd uint32, p []byte) {
	return uint32(i), gen(mix(tag, uint64(i)), 1+int(mix(tag, 3, uint64(i))%2000))
}

// c12both: pushes both ways among requests both ways; many pushes carry the id of a pending request.
func c12both(c *C) {
	r := c.Rng
	toClient, toServer := newPushLog("server->client"), newPushLog("client->server")
	var hw int32 = 1000
	hr := r.Fork()
	var smu sync.Mutex
	streams := map[uint64]int{} // frames of a pushed stream seen after its first
	var swg sync.WaitGroup
	take := func(l *pushLog) func(f *qrpc.Frame) {
		return func(f *qrpc.Frame) {
			l.recv(c, f)
			if !f.Flags.IsStream() {
				return
			}
			tag := tagOf(f.Payload)
			swg.Add(1)
			go func() {
				defer swg.Done()
				i := 0
				for f := range f.FrameCh() {
					cmd, p := pushStream(tag, i)
					if uint32(f.Cmd) != cmd || !same(f.Payload, p) {
						c.Violate("push-stream", "%s: frame %d of a pushed stream is %v", l.who, i, toW(f))
					}
					i++
				}
				smu.Lock()
				streams[tag] = i
				smu.Unlock()
			}()
		}
	}
	takeC, takeS := take(toClient), take(toServer)
	h := func(client bool) qrpc.Handler {
		return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			if q.Flags.IsPush() || tagOf(q.Payload)&(1<<62) != 0 {
				c.Violate("push-dispatched", "a pushed frame was dispatched to a handler: %v", toW((*qrpc.Frame)(q)))
				return
			}
			if !client {
				me := int(atomic.AddInt32(&hw, 1))
				n := hr.Intn(3)
				for i := 0; i < n; i++ {
					id := q.RequestID
					if hr.P(1, 3) {
						id += 2
					}
					if err := writePush(w, toClient.frame(me, i, id, hr.Pick(0, 5, 2000), "handler/pending id"), 0); err != nil {
						c.Violate("push-failed", "push by a handler: %v", err)
					}
				}
			}
			answer(w, q)
		})
	}
	p := newPair(c, pairOpt{
		binding: qrpc.ServerBinding{WriteFrameChSize: r.Pick(1, 4, 100), ReadFrameChSize: r.Pick(0, 4), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { takeS(f) }},
		conf:    qrpc.ConnectionConfig{Handler: h(true), WriteFrameChSize: r.Pick(0, 4, 100)},
		sub:     func(_ *qrpc.Connection, f *qrpc.Frame) { takeC(f) },
	}, h(false))
	p.conn.Request(1, qrpc.NBFlag, gen(1, 8))
	rngs := []*Rng{}
	const G = 12
	for i := 0; i < G; i++ {
		rngs = append(rngs, r.Fork())
	}
	reqs := func(o initiator, r *Rng, name string) {
		for k := 0; k < 60 && !c.Violated(); k++ {
			cmd, pl := uint32(r.Intn(1<<24)), gen(r.Uint64()&^(1<<62), r.Pick(8, 20, 1500))
			fl := qrpc.NBFlag
			if r.P(1, 3) {
				fl = 0
			}
			var resp qrpc.Response
			var err error
			if r.P(1, 3) {
				var sw qrpc.StreamWriter
				sw, resp, err = o.StreamRequest(qrpc.Cmd(cmd), 0, pl)
				if err == nil {
					sw.StartWrite(0)
					sw.EndWrite(true)
				}
			} else {
				_, resp, err = o.Request(qrpc.Cmd(cmd), fl, pl)
			}
			if err != nil || resp == nil {
				c.Violate("request", "%s request failed: %v %v", name, resp, err)
				return
			}
			f, err := c.getFrame("response among pushes", resp)
			if err != nil {
				c.Violate("request", "%s: response failed: %v", name, err)
				return
			}
			rc, rp := respFor(cmd, pl)
			if f.Flags.IsPush() || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("mixed", "%s: a waiting request got %v, want cmd %#x %s", name, toW(f), rc, brief(rp))
				return
			}
			c.Eval(fmt.Sprint(name, "request", fl))
		}
	}
	frames := map[uint64]int{} // pushed stream -> frames written after the first
	push := func(g int, r *Rng) {
		w := p.ci.GetWriter()
		for k := 0; k < 120 && !c.Violated(); k++ {
			if r.P(1, 6) { // a pushed stream
				id := uint64(g)<<40 + uint64(2*k) + 2
				f := toClient.frame(g, k, id, r.Pick(0, 30, 1500), "stream")
				fl := byte(fStream)
				n := r.Intn(4)
				if n == 0 {
					fl |= fEnd
				}
				if err := writePush(w, f, fl); err != nil {
					c.Violate("push-failed", "%v", err)
				}
				for i := 0; i < n; i++ {
					fl := byte(fPush | fStream)
					if i == n-1 {
						fl |= fEnd
					}
					cmd, pl := pushStream(tagOf(f.Payload), i)
					if err := writePush(w, WFrame{ID: id, Flags: fl, Cmd: cmd, Payload: pl}, 0); err != nil {
						c.Violate("push-failed", "%v", err)
					}
				}
				smu.Lock()
				frames[tagOf(f.Payload)] = n
				smu.Unlock()
				continue
			}
			id := uint64(r.Intn(400)) // ids of both kinds of pending requests
			if r.P(1, 8) {
				id = r.Uint64()
			}
			if err := writePush(w, toClient.frame(g, k, id, r.Pick(0, 1, 1000, 1016, 5000), "pusher/small id"), byte(r.Pick(0, int(fNB)))); err != nil {
				c.Violate("push-failed", "%v", err)
			}
		}
	}
	cpush := func(g int, r *Rng) {
		for k := 0; k < 120 && !c.Violated(); k++ {
			f := toServer.frame(g, k, 0, r.Pick(0, 1, 1000, 1016, 5000), "client")
			if r.P(1, 6) {
				// the id of a client push is chosen by the library: it is learned from the writer
				toServer.mu.Lock()
				sw, resp, err := p.conn.StreamRequest(qrpc.Cmd(f.Cmd), qrpc.PushFlag, f.Payload)
				if err != nil || resp != nil {
					toServer.mu.Unlock()
					c.Violate("push-resp", "pushed stream: response %v, error %v", resp, err)
					return
				}
				f.ID = sw.RequestID()
				toServer.sent[tagOf(f.Payload)] = f
				toServer.kind[tagOf(f.Payload)] = "client stream"
				toServer.mu.Unlock()
				n := r.Range(1, 3)
				for i := 0; i < n; i++ {
					cmd, pl := pushStream(tagOf(f.Payload), i)
					sw.StartWrite(qrpc.Cmd(cmd))
					sw.WriteBytes(pl)
					if err := sw.EndWrite(i == n-1); err != nil {
						c.Violate("push-failed", "%v", err)
					}
				}
				smu.Lock()
				frames[tagOf(f.Payload)] = n
				smu.Unlock()
				continue
			}
			toServer.mu.Lock()
			id, resp, err := p.conn.Request(qrpc.Cmd(f.Cmd), qrpc.PushFlag|qrpc.FrameFlag(r.Pick(0, int(fNB))), f.Payload)
			if err == nil && resp == nil {
				f.ID = id
				toServer.sent[tagOf(f.Payload)] = f
			}
			toServer.mu.Unlock()
			if err != nil || resp != nil {
				c.Violate("push-resp", "pushed request: response %v, error %v", resp, err)
				return
			}
		}
	}
	spush := func(g int, r *Rng) { // server pushes by Request
		for k := 0; k < 60 && !c.Violated(); k++ {
			f := toClient.frame(g, k, 0, r.Pick(0, 700), "server Request")
			toClient.mu.Lock()
			id, resp, err := p.ci.Request(qrpc.Cmd(f.Cmd), qrpc.PushFlag, f.Payload)
			if err == nil && resp == nil {
				f.ID = id
				toClient.sent[tagOf(f.Payload)] = f
			}
			toClient.mu.Unlock()
			if err != nil || resp != nil {
				c.Violate("push-resp", "pushed server request: response %v, error %v", resp, err)
				return
			}
		}
	}
	done := parallel(G, func(g int) {
		switch {
		case g < 3:
			reqs(p.conn, rngs[g], "client->server")
		case g < 5:
			reqs(p.ci, rngs[g], "server->client")
		case g < 8:
			push(g, rngs[g])
		case g < 10:
			cpush(g, rngs[g])
		default:
			spush(g, rngs[g])
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("pushes among requests")
	}
	toClient.finish(c, "both")
	toServer.finish(c, "both")
	sdone := make(chan struct{})
	go func() { swg.Wait(); close(sdone) }()
	c.Must("end of pushed streams", sdone)
	for t, n := range frames {
		if streams[t] != n && !c.Violated() {
			c.Violate("push-stream", "a pushed stream of %d more frames delivered %d", n, streams[t])
		}
	}
	p.stop()
}

// c12nosub: nobody subscribed: pushes are ignored, whatever their id, everything else works.
func c12nosub(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	var release sync.Map
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Flags.IsPush() {
			c.Violate("push-dispatched", "a pushed frame was dispatched to a handler: %v", toW((*qrpc.Frame)(q)))
			return
		}
		if v, ok := release.Load(tagOf(q.Payload)); ok {
			<-v.(chan struct{})
		}
		answer(w, q)
	})
	o := pairOpt{}
	if rev {
		o.conf.Handler = h
	}
	p := newPair(c, o, h)
	for k := 0; k < 40 && !c.Violated(); k++ {
		cmd, pl := uint32(r.Intn(1<<24)), gen(r.Uint64(), r.Pick(8, 1200))
		ch := make(chan struct{})
		release.Store(tagOf(pl), ch)
		id, resp, err := p.conn.Request(qrpc.Cmd(cmd), qrpc.NBFlag, pl)
		if err != nil {
			c.Violate("request", "%v", err)
			break
		}
		w := p.ci.GetWriter()
		n := r.Range(1, 5)
		for i := 0; i < n; i++ {
			f := WFrame{ID: uint64(r.Pick(int(id), int(id), 2, 77)), Flags: fPush, Cmd: 5, Payload: gen(7, r.Pick(0, 9, 2000))}
			switch r.Intn(4) {
			case 0: // a stream nobody reads
				f.ID = uint64(k)*100 + uint64(i) + 1<<30
				m := r.Range(2, 6)
				for j := 0; j < m; j++ {
					f.Flags = fPush | fStream
					if j == m-1 && r.P(1, 2) {
						f.Flags |= fEnd
					}
					if writePush(w, f, 0) != nil {
						c.Violate("push-failed", "push")
					}
				}
			case 1: // to the server
				sw, resp, err := p.conn.StreamRequest(5, qrpc.PushFlag, f.Payload)
				if err != nil || resp != nil {
					c.Violate("push-resp", "response %v, error %v", resp, err)
					break
				}
				for j := r.Intn(4); j >= 0; j-- {
					sw.WriteBytes(f.Payload)
					sw.EndWrite(j == 0 && r.P(1, 2))
				}
			case 2:
				if _, resp, err := p.conn.Request(5, qrpc.PushFlag, f.Payload); err != nil || resp != nil {
					c.Violate("push-resp", "response %v, error %v", resp, err)
				}
			default:
				if writePush(w, f, 0) != nil {
					c.Violate("push-failed", "push")
				}
			}
			c.Eval(fmt.Sprint("ignored", rev, f.ID == id))
		}
		close(ch)
		f, err := c.getFrame("response after ignored pushes", resp)
		if err != nil {
			c.Violate("request", "response after ignored pushes: %v", err)
			break
		}
		rc, rp := respFor(cmd, pl)
		if f.Flags.IsPush() || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("mixed", "a waiting request got %v", toW(f))
		}
		c.Eval("nosub request")
	}
	for i := 0; i < 3; i++ {
		p.echo("probe", "after ignored pushes", 3, 0, gen(r.Uint64(), 20))
	}
	p.stop()
}

// c12rawserver: the wire order of pushes and answers is decided here; the client must sort them out by flag alone.
func c12rawserver(c *C) {
	r := c.Rng
	rs := newRawServer(c)
	lg := newPushLog("raw server->client")
	var handled int64
	cf := qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 5)}
	if r.P(1, 2) {
		cf.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			atomic.AddInt64(&handled, 1)
			if q.Flags.IsPush() {
				c.Violate("push-dispatched", "a pushed frame was dispatched to a handler: %v", toW((*qrpc.Frame)(q)))
			}
			answer(w, q)
		})
	}
	conn, err := qrpc.NewConnection(rs.addr(), cf, func(_ *qrpc.Connection, f *qrpc.Frame) {
		lg.recv(c, f)
		if f.Flags.IsStream() {
			go drain(f)
		}
	})
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	p := newRawPeer(c, rs.next())
	n := 0
	asked := int64(0)
	for round := 0; round < 40 && !c.Violated(); round++ {
		type pend struct {
			id   uint64
			resp qrpc.Response
			ans  []WFrame
		}
		var ps []pend
		m := r.Range(1, 6)
		var script []WFrame
		var lanes [][]WFrame
		for i := 0; i < m; i++ {
			id, resp, err := conn.Request(qrpc.Cmd(i), qrpc.NBFlag, gen(r.Uint64(), 8))
			if err != nil {
				c.Violate("request", "%v", err)
				return
			}
			x := pend{id: id, resp: resp}
			// an answer of one or several frames, pushes with the same id before, between and after
			k := r.Range(1, 3)
			var lane []WFrame
			for j := 0; j < k; j++ {
				f := WFrame{ID: id, Cmd: uint32(r.Intn(1 << 24)), Payload: gen(r.Uint64()&^(1<<62), r.Pick(0, 8, 900))}
				if k > 1 {
					f.Flags = fStream
				}
				if k > 1 && j == k-1 {
					f.Flags |= fEnd
				}
				x.ans = append(x.ans, f)
				lane = append(lane, f)
			}
			lanes = append(lanes, lane)
			ps = append(ps, x)
		}
		var pushes []WFrame
		for i := r.Range(1, 10); i > 0; i-- {
			id := ps[r.Intn(m)].id
			if r.P(1, 5) {
				id = uint64(r.Intn(100))
			}
			f := lg.frame(1, n, id, r.Pick(0, 20, 1500), "same id as a pending request")
			n++
			if r.P(1, 6) {
				f.Flags |= fStream | fEnd
			} else if r.P(1, 3) {
				f.Flags |= fNB
			}
			pushes = append(pushes, f)
		}
		lanes = append(lanes, pushes)
		if cf.Handler != nil { // and server requests
			var lane []WFrame
			for i := r.Intn(4); i > 0; i-- {
				asked++
				lane = append(lane, WFrame{ID: uint64(2 * asked), Flags: fNB, Cmd: 1, Payload: gen(r.Uint64()&^(1<<62), 9)})
			}
			lanes = append(lanes, lane)
		}
		for left := true; left; { // a random merge
			left = false
			for _, i := range r.Perm(len(lanes)) {
				if len(lanes[i]) > 0 {
					left = true
					script = append(script, lanes[i][0])
					lanes[i] = lanes[i][1:]
					break
				}
			}
		}
		p.Send(script...)
		<-parallel(len(ps), func(i int) {
			x := ps[i]
			f, err := c.getFrame("response among pushes with its id", x.resp)
			if err != nil {
				c.Violate("request", "response failed: %v", err)
				return
			}
			first := f
			for i, want := range x.ans {
				if f == nil {
					c.Violate("mixed", "the response ended after %d of %d frames", i, len(x.ans))
					break
				}
				if byte(f.Flags) != want.Flags || uint32(f.Cmd) != want.Cmd || !same(f.Payload, want.Payload) {
					c.Violate("mixed", "frame %d of the response is %v, sent %v", i, toW(f), want)
				}
				if i < len(x.ans)-1 {
					f = c.nextFrame("next frame of a response", first.FrameCh())
				}
			}
			c.Eval(fmt.Sprint("rawserver resp", len(x.ans), len(pushes)))
		})
	}
	lg.finish(c, "rawserver")
	c.MustUntil("server requests among pushes", func() bool { return atomic.LoadInt64(&handled) >= asked || cf.Handler == nil || c.Violated() })
	if cf.Handler != nil && atomic.LoadInt64(&handled) != asked {
		c.Violate("push-dispatched", "%d requests were sent, the handler ran %d times", asked, handled)
	}
	closeConn(c, conn)
	p.Close()
	rs.ln.Close()
}

// c12rawclient: pushes of a raw client carrying the ids of server-side callers' pending requests.
func c12rawclient(c *C) {
	r := c.Rng
	lg := newPushLog("raw client->server")
	var handled int64
	withSub := r.P(3, 4)
	b := qrpc.ServerBinding{ReadFrameChSize: r.Pick(0, 5), WriteFrameChSize: r.Pick(1, 10), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt64(&handled, 1)
		if q.Flags.IsPush() {
			c.Violate("push-dispatched", "a pushed frame was dispatched to a handler: %v", toW((*qrpc.Frame)(q)))
		}
		answer(w, q)
	})}
	if withSub {
		b.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) {
			lg.recv(c, f)
			if f.Flags.IsStream() {
				go drain(f)
			}
		}
	}
	s := startServer(c, "tcp", nil, b)
	p := dialRaw(c, s.Addrs[0])
	var ci *qrpc.ConnectionInfo
	c.MustUntil("registration", func() bool {
		s.S.WalkConn(0, func(_ qrpc.FrameWriter, i *qrpc.ConnectionInfo) bool { ci = i; return false })
		return ci != nil
	})
	n := 0
	asked := int64(0)
	for round := 0; round < 40 && !c.Violated(); round++ {
		m := r.Range(1, 5)
		var ids []uint64
		var resps []qrpc.Response
		for i := 0; i < m; i++ {
			id, resp, err := ci.Request(qrpc.Cmd(i), 0, gen(r.Uint64(), 8))
			if err != nil {
				c.Violate("request", "%v", err)
				return
			}
			ids = append(ids, id)
			resps = append(resps, resp)
		}
		var script []WFrame
		push := func() {
			id := ids[r.Intn(m)]
			if r.P(1, 5) {
				id = uint64(r.Intn(100))
			}
			var f WFrame
			if withSub {
				f = lg.frame(1, n, id, r.Pick(0, 20, 1500), "same id as a pending server request")
				n++
			} else {
				f = WFrame{ID: id, Flags: fPush, Cmd: 4, Payload: gen(r.Uint64()|1<<62, 20)}
			}
			if r.P(1, 4) {
				f.Flags |= fNB
			}
			script = append(script, f)
		}
		for _, i := range r.Perm(m) {
			for r.P(1, 2) {
				push()
			}
			if r.P(1, 3) {
				asked++
				script = append(script, WFrame{ID: uint64(2*asked + 1), Flags: byte(r.Pick(0, int(fNB))), Cmd: 3, Payload: gen(r.Uint64()&^(1<<62), 20)})
			}
			script = append(script, WFrame{ID: ids[i], Cmd: uint32(i), Payload: gen(mix(ids[i]), 30)})
			for r.P(1, 2) {
				push()
			}
		}
		p.Send(script...)
		for i, resp := range resps {
			f, err := c.getFrame("response among pushes with its id", resp)
			if err != nil {
				c.Violate("request", "server-side response failed: %v", err)
				break
			}
			if f.Flags.IsPush() || uint32(f.Cmd) != uint32(i) || !same(f.Payload, gen(mix(ids[i]), 30)) {
				c.Violate("mixed", "a server-side caller got %v", toW(f))
			}
			c.Eval(fmt.Sprint("rawclient resp", withSub))
		}
	}
	lg.finish(c, "rawclient")
	c.MustUntil("requests among pushes", func() bool { return atomic.LoadInt64(&handled) >= asked || c.Violated() })
	if h := atomic.LoadInt64(&handled); h != asked && !c.Violated() {
		c.Violate("push-dispatched", "%d requests were sent, the handler ran %d times", asked, h)
	}
	p.Close()
	s.Stop()
}

// c12broadcast: WalkConn and WalkConnByID pushes to many connections that also come and go.
func c12broadcast(c *C) {
	r := c.Rng
	const N = 8
	s := startServer(c, "tcp", nil, qrpc.ServerBinding{WriteFrameChSize: r.Pick(1, 10), Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 9 {
			q.ConnectionInfo().SetID(string(q.Payload))
			// the taker reads the answer, so it knows the id is bound
		}
		answer(w, q)
	})})
	logs := make([]*pushLog, N)
	conns := make([]*qrpc.Connection, N)
	for i := range conns {
		l := newPushLog(fmt.Sprintf("broadcast to %d", i))
		logs[i] = l
		conns[i] = s.dial(qrpc.ConnectionConfig{}, func(_ *qrpc.Connection, f *qrpc.Frame) { l.recv(c, f) })
		if _, _, err := c.call(conns[i], 9, 0, []byte(fmt.Sprint("id", i))); err != nil {
			c.Violate("call", "%v", err)
			return
		}
	}
	rngs := []*Rng{}
	for i := 0; i < 6; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(6, func(g int) {
		r := rngs[g]
		for k := 0; k < 40 && !c.Violated(); k++ {
			if g == 5 { // a connection that comes and goes
				conn := s.dial(qrpc.ConnectionConfig{}, func(*qrpc.Connection, *qrpc.Frame) {})
				c.call(conn, 9, qrpc.NBFlag, []byte("passing"))
				conn.Close()
				continue
			}
			if g%2 == 0 {
				s.S.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
					var i int
					if _, err := fmt.Sscanf(ci.GetID(), "id%d", &i); err != nil {
						writePush(w, WFrame{ID: 1, Flags: fPush, Cmd: 1}, 0)
						return true
					}
					if err := writePush(w, logs[i].frame(g, k, s.S.GetPushID(), r.Pick(0, 900), "WalkConn"), 0); err != nil {
						c.Violate("push-failed", "%v", err)
					}
					return true
				})
				continue
			}
			ids := []string{"passing", "nobody"}
			for _, i := range r.Perm(N)[:r.Range(1, N)] {
				ids = append(ids, fmt.Sprint("id", i))
			}
			found := 0
			s.S.WalkConnByID(0, ids, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo, at int) {
				var i int
				if _, err := fmt.Sscanf(ids[at], "id%d", &i); err != nil {
					writePush(w, WFrame{ID: 1, Flags: fPush, Cmd: 1}, 0)
					return
				}
				found++
				if ci.GetID() != ids[at] {
					c.Violate("walk-id", "WalkConnByID gave %q for %q", ci.GetID(), ids[at])
				}
				if err := writePush(w, logs[i].frame(g, k, s.S.GetPushID(), r.Pick(0, 900), "WalkConnByID"), 0); err != nil {
					c.Violate("push-failed", "%v", err)
				}
			})
			if found != len(ids)-2 {
				c.Violate("walk-id", "WalkConnByID visited %d of %d bound ids", found, len(ids)-2)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("broadcasts")
	}
	for _, l := range logs {
		l.finish(c, "broadcast")
	}
	s.Stop()
	for _, conn := range conns {
		closeConn(c, conn)
	}
}
