package main

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
	"github.com/zhiqiangxu/qrpc/codegen"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

// Workloads at scale: many of everything at once, so that no table, channel or counter an implementation may have
// sized for the common case is large enough. And some histories that only a specific order of events brings about.

func scale(name string, quick, deep int, fn func(c *C)) JobSpec {
	return JobSpec{Name: name, Quick: quick, Deep: deep, Timeout: 4 * time.Minute, NoRace: true, Fn: fn}
}

func init() {
	extend("C01", scale("scale", 1, 6, func(c *C) { pendingScale(c, false) }))
	extend("C01", scale("lifetime", 2, 6, c01lifetime))
	extend("C13", scale("scale", 1, 6, func(c *C) { pendingScale(c, true) }))
	extend("C04", scale("scale", 2, 8, c04scale))
	extend("C08", scale("scale", 2, 6, c08scale))
	extend("C09", scale("scale", 2, 6, c09scale))
	extend("C12", scale("scale", 2, 6, c12scale))
	extend("C14", scale("scale", 1, 4, c14scale))
	extend("C15", scale("scale", 1, 4, c15scale))
	extend("C16", JobSpec{Name: "some", Quick: 3, Deep: 15, Fn: c16some})
	extend("C17", scale("scale", 1, 4, c17scale), JobSpec{Name: "flood", Quick: 4, Deep: 20, Fn: c17flood})
	extend("C18", scale("scale", 1, 4, c18scale))
	extend("C21", scale("scale", 2, 6, c21scale), JobSpec{Name: "reuse", Quick: 2, Deep: 10, Fn: c21reuse})
	extend("C22", JobSpec{Name: "closing", Quick: 3, Deep: 15, Fn: c22closing})
	extend("C23", JobSpec{Name: "lost", Quick: 3, Deep: 15, Fn: c23lost})
	extend("C24", JobSpec{Name: "limit", Quick: 2, Deep: 10, Fn: c24limit})
	extend("C25", scale("stress", 2, 10, c25stress))
}

// pendingScale: thousands of requests pending on one connection, answered in any order, some reset.
func pendingScale(c *C, rev bool) {
	n := 12000
	if c.Tier != "quick" {
		n = []int{30000, 70000, 5000}[c.K%3]
	}
	gates := make([]chan struct{}, n)
	for i := range gates {
		gates[i] = make(chan struct{})
	}
	var started int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0x5ca1 {
			atomic.AddInt64(&started, 1)
			select {
			case <-gates[tagOf(q.Payload)]:
			case <-q.Context().Done():
			}
		}
		answer(w, q)
	})
	p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{WriteFrameChSize: c.Rng.Pick(0, 100)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: c.Rng.Pick(0, 100)}}, h)
	resps := make([]qrpc.Response, n)
	ids := make([]uint64, n)
	size := func(i int) int { return 8 + i%7*5 }
	done := parallel(16, func(g int) {
		for i := g; i < n; i += 16 {
			var err error
			ids[i], resps[i], err = p.open.Request(0x5ca1, qrpc.NBFlag, gen(uint64(i), size(i)))
			if err != nil {
				c.Violate("scale-request", "request with %d pending: %v", i, err)
				return
			}
		}
	})
	if !c.waitAtLeast(done, 3*stallWall, 2*stallTicks) {
		c.StallAbort("sending many requests")
	}
	if c.Violated() {
		return
	}
	c.MustUntil("start of many handlers", func() bool { return atomic.LoadInt64(&started) == int64(n) })
	seen := map[uint64]int{}
	for i, id := range ids {
		if j, ok := seen[id]; ok {
			c.Violate("scale-id", "requests %d and %d have the id %d", j, i, id)
		}
		seen[id] = i
	}
	p.echo("scale-other", fmt.Sprintf("with %d requests pending", n), 0x48, qrpc.NBFlag, gen(1, 30))
	reset := map[int]bool{}
	for k := 0; k < 50; k++ {
		i := c.Rng.Intn(n)
		if !reset[i] {
			reset[i] = true
			if err := p.reset(ids[i], 3); err != nil {
				c.Violate("scale-reset", "resetting one of %d pending requests: %v", n, err)
			}
		}
	}
	order := c.Rng.Perm(n)
	go func() {
		for _, i := range order {
			close(gates[i])
		}
	}()
	done = parallel(16, func(g int) {
		for i := g; i < n; i += 16 {
			f, err := resps[i].GetFrame()
			rc, rp := respFor(0x5ca1, gen(uint64(i), size(i)))
			if err != nil && reset[i] {
				continue
			}
			if err != nil || f.RequestID != ids[i] || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("scale-answer", "one of %d pending requests: %v %v", n, toWs(f), err)
				return
			}
			c.Eval(fmt.Sprint("scale ", rev, i%7))
		}
	})
	if !c.waitAtLeast(done, 3*stallWall, 2*stallTicks) {
		c.StallAbort("answers of many pending requests")
	}
	p.echo("scale-other", "after it", 0x48, 0, gen(1, 30))
	p.stop()
}

// c01lifetime: very many requests on one connection, some of which stay unanswered throughout.
func c01lifetime(c *C) {
	rev := c.K%2 == 1
	n := 400000
	if rev {
		n = 150000
	}
	if c.Tier != "quick" {
		n *= 6
	}
	hold := make(chan struct{})
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 7 {
			<-hold
		}
		w.StartWrite(q.RequestID, q.Cmd+1, 0)
		w.WriteBytes(q.Payload)
		if err := w.EndWrite(); err != nil {
			c.writeFailed("answer", err, "answer")
		}
	})
	p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{WriteFrameChSize: 100}, conf: qrpc.ConnectionConfig{WriteFrameChSize: 100}}, h)
	const G = 8
	ids := make([][]uint64, G)
	done := parallel(G, func(g int) {
		type heldReq struct {
			id   uint64
			k    int
			resp qrpc.Response
		}
		var held, open []heldReq
		take := func(x heldReq, cmd qrpc.Cmd) {
			f, err := x.resp.GetFrame()
			if err != nil || f.RequestID != x.id || f.Cmd != cmd+1 || tagOf(f.Payload) != uint64(g)<<32|uint64(x.k) {
				c.Violate("lifetime", "request %d (number %d of its writer, %d in all): %s %v", x.id, x.k, n, toWs(f), err)
			}
		}
		for k := 0; k < n/G && !c.Violated(); k++ {
			cmd := qrpc.Cmd(6 + 2*(k%3))
			if k%(n/G/5) == 1 {
				cmd = 7
			}
			id, resp, err := p.open.Request(cmd, qrpc.NBFlag, gen(uint64(g)<<32|uint64(k), 8))
			if err != nil {
				c.Violate("lifetime", "request number %d of its writer: %v", k, err)
				return
			}
			ids[g] = append(ids[g], id)
			if cmd == 7 {
				held = append(held, heldReq{id, k, resp})
			} else {
				open = append(open, heldReq{id, k, resp})
			}
			if len(open) == 20 {
				for _, x := range open {
					take(x, qrpc.Cmd(6+2*(x.k%3)))
				}
				open = open[:0]
				c.Eval(fmt.Sprint("lifetime ", rev, g))
			}
		}
		for _, x := range open {
			take(x, qrpc.Cmd(6+2*(x.k%3)))
		}
		if g == 0 {
			close(hold)
		}
		for _, x := range held {
			take(x, 7)
		}
	})
	if !c.waitAtLeast(done, 10*stallWall, 2*stallTicks) {
		c.StallAbort("a long-lived connection")
	}
	seen := make(map[uint64]bool, n)
	for g := range ids {
		for _, id := range ids[g] {
			if seen[id] || id&1 != 1 && !rev || id&1 != 0 && rev || id == 0 {
				c.Violate("lifetime-id", "one of %d requests was given the id %d (before: %v)", n, id, seen[id])
				return
			}
			seen[id] = true
		}
	}
	c.Count("lifetime_requests", int64(n))
	p.stop()
}

func toWs(f *qrpc.Frame) string {
	if f == nil {
		return "no frame"
	}
	return toW(f).String()
}

// c04scale: thousands of open streams, advanced in turns; then a very long one.
func c04scale(c *C) {
	rev := c.K%2 == 1
	n, frames, long := 3000, 4, 40000
	if c.Tier != "quick" {
		n, frames, long = 8000, 6, 300000
	}
	cmdOf := func(s, k int) uint32 { return uint32(mix(uint64(s), uint64(k)) & 0xffffff) }
	plOf := func(s, k int) []byte { return gen(uint64(s)<<20|uint64(k), 8+(s+k)%5*60) }
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd != 0x2ff {
			answer(w, q)
			return
		}
		s := int(tagOf(q.Payload))
		k := 0
		for f := range q.FrameCh() {
			if uint32(f.Cmd) != cmdOf(s, k) || !same(f.Payload, plOf(s, k)) {
				c.Violate("scale-frame", "stream %d of %d, frame %d: cmd %#x %s", s, n, k, f.Cmd, brief(f.Payload))
			}
			k++
		}
		w.StartWrite(q.RequestID, qrpc.Cmd(k), 0)
		w.WriteBytes(q.Payload)
		if err := w.EndWrite(); err != nil {
			c.writeFailed("scale-answer", err, "answer of stream %d", s)
		}
	})
	p := newPair(c, pairOpt{rev: rev}, h)
	sws := make([]qrpc.StreamWriter, n)
	resps := make([]qrpc.Response, n)
	run := func(what string, f func(i int)) {
		done := parallel(8, func(g int) {
			for i := g; i < n && !c.Violated(); i += 8 {
				f(i)
			}
		})
		if !c.waitAtLeast(done, 3*stallWall, 2*stallTicks) {
			c.StallAbort(what)
		}
	}
	run("opening many streams", func(i int) {
		var err error
		sws[i], resps[i], err = p.open.(qrpc.StreamInitiator).StreamRequest(0x2ff, qrpc.NBFlag, gen(uint64(i), 16))
		if err != nil {
			c.Violate("scale-open", "opening stream %d: %v", i, err)
		}
	})
	if c.Violated() {
		return
	}
	write := func(s, k int, end bool) {
		sws[s].StartWrite(qrpc.Cmd(cmdOf(s, k)))
		sws[s].WriteBytes(plOf(s, k))
		if err := sws[s].EndWrite(end); err != nil {
			c.Violate("scale-write", "stream %d frame %d: %v", s, k, err)
		}
	}
	for k := 0; k < frames && !c.Violated(); k++ {
		run("writing to many streams", func(i int) { write(i, k, k == frames-1 && i%2 == 0) })
	}
	p.echo("scale-other", fmt.Sprintf("with %d streams open", n), 0x48, qrpc.NBFlag, gen(1, 30))
	run("ending many streams", func(i int) {
		want := frames
		if i%2 == 1 {
			write(i, frames, true)
			want++
		}
		f, err := resps[i].GetFrame()
		if err != nil || int(f.Cmd) != want || !same(f.Payload, gen(uint64(i), 16)) {
			c.Violate("scale-answer", "stream %d of %d, with %d frames: %s %v", i, n, want, toWs(f), err)
		}
		c.Eval(fmt.Sprint("scale ", rev, i%2))
	})
	if !c.Violated() {
		var resp qrpc.Response
		var err error
		sws[0], resp, err = p.open.(qrpc.StreamInitiator).StreamRequest(0x2ff, qrpc.NBFlag, gen(0, 16))
		if err != nil {
			c.Violate("scale-open", "%v", err)
			return
		}
		done := parallel(1, func(int) {
			for k := 0; k < long && !c.Violated(); k++ {
				write(0, k, k == long-1)
			}
			f, err := resp.GetFrame()
			if err != nil || int(f.Cmd) != long {
				c.Violate("scale-answer", "a stream of %d frames: %s %v", long, toWs(f), err)
			}
			c.Eval(fmt.Sprint("long stream ", rev))
		})
		if !c.waitAtLeast(done, 5*stallWall, 2*stallTicks) {
			c.StallAbort("a long stream")
		}
	}
	p.stop()
}

// c08scale: among thousands of pending requests, half are reset, in any order.
func c08scale(c *C) {
	rev := c.K%2 == 1
	n := 4000
	if c.Tier != "quick" {
		n = 15000
	}
	var mu sync.Mutex
	ctxs := make([]context.Context, n)
	gate := make(chan struct{})
	var started int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0x5ca1 {
			mu.Lock()
			ctxs[tagOf(q.Payload)] = q.Context()
			mu.Unlock()
			atomic.AddInt64(&started, 1)
			<-gate
		}
		answer(w, q)
	})
	p := newPair(c, pairOpt{rev: rev}, h)
	ids := make([]uint64, n)
	resps := make([]qrpc.Response, n)
	done := parallel(8, func(g int) {
		for i := g; i < n; i += 8 {
			var err error
			ids[i], resps[i], err = p.open.Request(0x5ca1, qrpc.NBFlag, gen(uint64(i), 9))
			if err != nil {
				c.Violate("scale-request", "%v", err)
				return
			}
		}
	})
	c.Must("sending many requests", done)
	c.MustUntil("start of many handlers", func() bool { return atomic.LoadInt64(&started) == int64(n) })
	victims := c.Rng.Perm(n)[:n/2]
	isV := make([]bool, n)
	for _, v := range victims {
		isV[v] = true
	}
	done = parallel(8, func(g int) {
		for k := g; k < len(victims); k += 8 {
			if err := p.reset(ids[victims[k]], 1); err != nil {
				c.Violate("scale-reset", "resetting one of %d pending requests: %v", n, err)
				return
			}
		}
	})
	c.Must("many resets", done)
	done = parallel(1, func(int) {
		for _, v := range victims {
			<-ctxs[v].Done()
		}
	})
	c.Must("cancellation of many requests", done)
	c.Settle(10)
	for i := range ctxs {
		if !isV[i] && ctxs[i].Err() != nil {
			c.Violate("scale-cancelled", "request %d of %d was cancelled, others were reset", i, n)
			break
		}
	}
	close(gate)
	done = parallel(8, func(g int) {
		for i := g; i < n; i += 8 {
			if !isV[i] {
				f, err := resps[i].GetFrame()
				rc, rp := respFor(0x5ca1, gen(uint64(i), 9))
				if err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("scale-answer", "request %d of %d, not reset: %s %v", i, n, toWs(f), err)
					return
				}
			}
			c.Eval(fmt.Sprint("scale ", rev, isV[i]))
		}
	})
	c.Must("answers of many requests", done)
	p.stop()
}

// c09scale: thousands of requests and streams wait when their connection ends.
func c09scale(c *C) {
	rev := c.K%2 == 1
	n := 6000
	if c.Tier != "quick" {
		n = 30000
	}
	var started, released int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt64(&started, 1)
		<-q.Context().Done()
		for range q.FrameCh() {
		}
		atomic.AddInt64(&released, 1)
	})
	p := newPair(c, pairOpt{rev: rev}, h)
	calls := parallel(n, func(i int) {
		var resp qrpc.Response
		var err error
		if i%3 == 0 {
			_, resp, err = p.open.(qrpc.StreamInitiator).StreamRequest(1, qrpc.NBFlag, nil)
		} else {
			_, resp, err = p.open.Request(1, qrpc.NBFlag, nil)
		}
		if err != nil {
			c.Violate("scale-request", "%v", err)
			return
		}
		if f, err := resp.GetFrame(); err == nil {
			c.Violate("scale-answer", "a request nobody answered got %s", toWs(f))
		}
		c.Eval(fmt.Sprint("scale ", rev, i%3 == 0))
	})
	c.MustUntil("start of many handlers", func() bool { return atomic.LoadInt64(&started) == int64(n) })
	switch c.Rng.Intn(3) {
	case 0:
		p.conn.Close()
	case 1:
		p.ci.Close()
	case 2:
		go p.srv.S.Shutdown()
	}
	c.Must("many calls pending on a closed connection", calls)
	c.MustUntil("many handlers of a closed connection", func() bool { return atomic.LoadInt64(&released) == int64(n) })
	p.stop()
}

// c12scale: a storm of pushes from several writers, and to many connections.
func c12scale(c *C) {
	toServer := c.K%2 == 1
	n := 30000
	if c.Tier != "quick" {
		n = 200000
	}
	const writers = 4
	var mu sync.Mutex
	next := [writers]int{}
	recv := func(f *qrpc.Frame) {
		t := tagOf(f.Payload)
		wr, k := int(t>>32), int(t&0xffffffff)
		mu.Lock()
		defer mu.Unlock()
		if wr >= writers || k != next[wr] || int(f.Cmd) != k&0xffffff || !same(f.Payload, gen(t, 8+k%40)) {
			c.Violate("scale-push", "push %d of writer %d (cmd %#x) was delivered where %v is due", k, wr, f.Cmd, next)
			return
		}
		next[wr]++
	}
	o := pairOpt{}
	o.sub = func(_ *qrpc.Connection, f *qrpc.Frame) { recv(f) }
	o.binding.SubFunc = func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { recv(f) }
	p := newPair(c, o, echoHandler)
	done := parallel(writers, func(g int) {
		for k := 0; k < n/writers && !c.Violated(); k++ {
			t := uint64(g)<<32 | uint64(k)
			var err error
			fl := qrpc.NBFlag | qrpc.PushFlag
			if toServer {
				_, _, err = p.conn.Request(qrpc.Cmd(k&0xffffff), fl, gen(t, 8+k%40))
			} else {
				w := p.ci.GetWriter()
				w.StartWrite(p.srv.S.GetPushID(), qrpc.Cmd(k&0xffffff), qrpc.PushFlag)
				w.WriteBytes(gen(t, 8+k%40))
				err = w.EndWrite()
			}
			if err != nil {
				c.Violate("scale-push", "push %d: %v", k, err)
			}
			c.Eval(fmt.Sprint("scale ", toServer, g))
		}
	})
	if !c.waitAtLeast(done, 4*stallWall, 2*stallTicks) {
		c.StallAbort("many pushes")
	}
	c.MustUntil("delivery of many pushes", func() bool {
		mu.Lock()
		defer mu.Unlock()
		s := 0
		for _, k := range next {
			s += k
		}
		return s == n/writers*writers || c.Violated()
	})
	p.echo("scale-other", "after many pushes", 0x48, 0, gen(1, 30))
	p.stop()
}

// manyConns opens n raw connections to a binding and has each do one request.
func manyConns(c *C, addr string, n int) []*RawPeer {
	peers := make([]*RawPeer, n)
	done := parallel(16, func(g int) {
		for i := g; i < n; i += 16 {
			peers[i] = dialRaw(c, addr)
			peers[i].Send(WFrame{ID: 1, Flags: fNB, Cmd: 0x51, Payload: gen(uint64(i), 9)})
		}
	})
	c.Must("opening many connections", done)
	c.MustUntil("answers on many connections", func() bool {
		for _, p := range peers {
			if p.N() == 0 && !p.Closed() {
				return false
			}
		}
		return true
	})
	return peers
}

// c14scale: thousands of ids, each found at its owner; all taken over at once.
func c14scale(c *C) {
	n := 1500
	if c.Tier != "quick" {
		n = 4000
	}
	var kicks int64
	b := qrpc.ServerBinding{OnKickCB: func(qrpc.FrameWriter) { atomic.AddInt64(&kicks, 1) }}
	var mu sync.Mutex
	byAddr := map[string]*qrpc.ConnectionInfo{}
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == 0x52 {
			q.ConnectionInfo().SetID(string(q.Payload))
		}
		mu.Lock()
		byAddr[q.ConnectionInfo().RemoteAddr()] = q.ConnectionInfo()
		mu.Unlock()
		answer(w, q)
	})
	srv := startServer(c, "tcp", nil, b)
	id := func(i int) string { return fmt.Sprintf("id-%d", i) }
	owners := manyConns(c, srv.Addrs[0], n)
	bind := func(ps []*RawPeer) {
		for i, p := range ps {
			p.Send(WFrame{ID: 3, Cmd: 0x52, Payload: []byte(id(i))})
		}
		c.MustUntil("binding many ids", func() bool {
			for _, p := range ps {
				if len(p.ByID(3)) == 0 && !p.Closed() {
					return false
				}
			}
			return true
		})
	}
	check := func(when string, ps []*RawPeer) {
		ids := make([]string, n)
		for i, p := range ps {
			mu.Lock()
			ci := byAddr[p.nc.LocalAddr().String()]
			mu.Unlock()
			if got := srv.S.GetConnectionInfoByID(0, id(i)); got != ci {
				c.Violate("scale-owner", "%s: id %d of %d is not found at its owner (nobody: %v)", when, i, n, got == nil)
				return
			}
			ids[i] = id(i)
			c.Eval("scale " + when)
		}
		visited := 0
		srv.S.WalkConnByID(0, ids, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
			visited++
			if ci.RemoteAddr() != ps[i].nc.LocalAddr().String() {
				c.Violate("scale-walk", "%s: walking %d ids gives another connection for id %d", when, n, i)
			}
		})
		if visited != n {
			c.Violate("scale-walk", "%s: walking %d ids visits %d", when, n, visited)
		}
	}
	bind(owners)
	check("bound", owners)
	heirs := manyConns(c, srv.Addrs[0], n)
	bind(heirs)
	c.MustUntil("end of those that lost their ids", func() bool {
		for _, p := range owners {
			if !p.Closed() {
				return false
			}
		}
		return true
	})
	check("taken over", heirs)
	if atomic.LoadInt64(&kicks) != int64(n) {
		c.Violate("scale-kicks", "%d takeovers made %d kick callbacks", n, kicks)
	}
	for _, p := range append(owners, heirs...) {
		p.Close()
	}
	srv.Stop()
}

// c15scale: thousands of connections, walked, and closed by either side.
func c15scale(c *C) {
	n := 2500
	if c.Tier != "quick" {
		n = 6000
	}
	var mu sync.Mutex
	acc, cls, notes := map[string]int{}, map[string]int{}, map[string]int{}
	b := qrpc.ServerBinding{Handler: echoHandler}
	b.LifecycleCallbacks.OnAccept = func(nc net.Conn) error {
		mu.Lock()
		acc[nc.RemoteAddr().String()]++
		mu.Unlock()
		return nil
	}
	b.LifecycleCallbacks.OnClose = func(nc net.Conn) { mu.Lock(); cls[nc.RemoteAddr().String()]++; mu.Unlock() }
	srv := startServer(c, "tcp", nil, b)
	peers := manyConns(c, srv.Addrs[0], n)
	want := map[string]bool{}
	for _, p := range peers {
		want[p.nc.LocalAddr().String()] = true
	}
	walk := func(when string, want map[string]bool) map[string]*qrpc.ConnectionInfo {
		got := map[string]*qrpc.ConnectionInfo{}
		srv.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			a := ci.RemoteAddr()
			if got[a] != nil {
				c.Violate("scale-walk", "%s: a connection was visited twice", when)
			}
			got[a] = ci
			return true
		})
		for a := range want {
			if got[a] == nil {
				c.Violate("scale-walk", "%s: one of %d open connections is not visited", when, len(want))
				break
			}
			c.Eval("scale " + when)
		}
		if len(got) != len(want) {
			c.Violate("scale-walk", "%s: %d connections visited, %d are open", when, len(got), len(want))
		}
		return got
	}
	cis := walk("all open", want)
	for a, ci := range cis {
		a := a
		ci.NotifyWhenClose(func() { mu.Lock(); notes[a]++; mu.Unlock() })
	}
	stop := 0
	srv.S.WalkConn(0, func(qrpc.FrameWriter, *qrpc.ConnectionInfo) bool { stop++; return stop < n/2 })
	if stop != n/2 {
		c.Violate("scale-walk", "a walk that was to stop at %d visited %d", n/2, stop)
	}
	gone := 0
	for i, p := range peers {
		a := p.nc.LocalAddr().String()
		switch i % 3 {
		case 0:
			p.Close()
		case 1:
			cis[a].Close()
		default:
			continue
		}
		gone++
		delete(want, a)
	}
	c.MustUntil("close callbacks of many connections", func() bool {
		mu.Lock()
		defer mu.Unlock()
		s := 0
		for _, k := range cls {
			s += k
		}
		return s >= gone
	})
	walk("two thirds closed", want)
	srv.Stop()
	mu.Lock()
	for _, p := range peers {
		a := p.nc.LocalAddr().String()
		if acc[a] != 1 || cls[a] != 1 || notes[a] != 1 {
			c.Violate("scale-callbacks", "accept callback %d times, close callback %d times, close notification %d times", acc[a], cls[a], notes[a])
			break
		}
	}
	mu.Unlock()
	for _, p := range peers {
		p.Close()
	}
}

// c16some: the caller listens itself and serves some of the bindings only, in any order.
func c16some(c *C) {
	for round := 0; round < 6 && !c.Violated(); round++ {
		r := c.Rng
		n := r.Range(2, 5)
		var bs []qrpc.ServerBinding
		for i := 0; i < n; i++ {
			bs = append(bs, qrpc.ServerBinding{Handler: echoHandler})
		}
		srv := qrpc.NewServer(bs)
		perm := r.Perm(n)
		k := r.Range(1, n)
		if round == 0 {
			perm, k = []int{n - 1}, 1
		}
		perm = perm[:k]
		type one struct {
			idx  int
			ln   net.Listener
			ret  chan error
			peer *RawPeer
		}
		var ones []*one
		for _, idx := range perm {
			o := &one{idx: idx, ln: newListener(), ret: make(chan error, 1)}
			ones = append(ones, o)
			go func() {
				var ln qrpc.Listener = &qrpc.TCPKeepAliveListener{Listener: o.ln}
				o.ret <- srv.Serve(ln, o.idx)
			}()
			o.peer = dialRaw(c, o.ln.Addr().String())
			o.peer.Send(WFrame{ID: 1, Cmd: 5, Payload: gen(3, 10)})
			c.MustUntil("answer over one of several bindings", func() bool { return o.peer.N() == 1 || o.peer.Closed() })
		}
		var fns int64
		srv.OnShutdown(func() { atomic.AddInt64(&fns, 1) })
		var err error
		c.Do("Shutdown", func() { err = srv.Shutdown() })
		key := fmt.Sprint("some ", n, " ", perm)
		if err != nil {
			c.Violate("shutdown", "%s: Shutdown: %v", key, err)
		}
		if fns != 1 {
			c.Violate("functions", "%s: the shutdown function ran %d times", key, fns)
		}
		for _, o := range ones {
			select {
			case e := <-o.ret:
				if e != qrpc.ErrServerClosed {
					c.Violate("serve", "%s: serving binding %d returned %v", key, o.idx, e)
				}
			case <-time.After(10 * time.Second):
				c.Violate("serve", "%s: serving binding %d did not return after Shutdown", key, o.idx)
			}
			if accepts(o.ln.Addr().String()) {
				c.Violate("accepts", "%s: binding %d accepts after Shutdown", key, o.idx)
			}
			if !c.Until(o.peer.Closed) {
				c.Violate("open", "%s: a connection of binding %d is open after Shutdown", key, o.idx)
			}
			o.peer.Close()
			o.ln.Close()
			c.Eval(fmt.Sprint(key, o.idx))
		}
		c.Do("Shutdown again", func() { srv.Shutdown() })
	}
}

// c17scale: large limits, and no limit, hold as well.
func c17scale(c *C) {
	N := int32(5000)
	w := newLimWorld(c, "tcp", qrpc.ServerBinding{MaxInboundInflightStreamPerConn: N}, qrpc.ServerBinding{})
	done := parallel(2, func(g int) {
		p := dialRaw(c, w.s.Addrs[g])
		a := p.nc.LocalAddr().String()
		for round := 0; round < 2; round++ {
			var fs []WFrame
			for k := int32(0); k < N; k++ {
				fs = append(fs, WFrame{ID: uint64(k)*2 + 1 + uint64(round)*1000001*2, Flags: fNB, Cmd: lHold, Payload: gen(uint64(k), 8)})
			}
			p.Send(fs...)
			c.MustUntil("start of thousands of handlers", func() bool { return atomic.LoadInt32(&w.of(a).active) == N || p.Closed() })
			if p.Closed() {
				c.Violate("closed", "limit %d (binding %d): that many requests at once closed the connection", N, g)
				return
			}
			if round == 1 {
				break
			}
			w.free(a)
			c.MustUntil("end of thousands of handlers", func() bool { return atomic.LoadInt32(&w.of(a).active) == 0 })
			c.MustUntil("answers of thousands of handlers", func() bool { return p.N() == int(N) })
			c.Settle(60)
			c.Eval(fmt.Sprint("scale ", g))
		}
		p.Send(WFrame{ID: 77777777777, Flags: fNB, Cmd: lQuick})
		if g == 0 {
			c.MustUntil("end of the connection over its limit", p.Closed)
		} else {
			c.MustUntil("answer without limits", func() bool { return len(p.ByID(77777777777)) == 1 || p.Closed() })
			if p.Closed() {
				c.Violate("nolimit", "without limits a connection with %d requests at once was closed", N)
			}
		}
		w.free(a)
		c.Eval(fmt.Sprint("scale over ", g))
		p.Close()
	})
	if !c.waitAtLeast(done, 3*stallWall, 2*stallTicks) {
		c.StallAbort("large limits")
	}
	w.s.Stop()
}

// c17flood: floods of one kind of request, and of mixtures, against the rate limit.
func c17flood(c *C) {
	r := c.Rng
	R := r.Pick(3, 10, 40, 100)
	var pushes int64
	w := newLimWorld(c, "tcp", qrpc.ServerBinding{MaxInboundFramePerSecond: R, ReadFrameChSize: r.Pick(0, 4)})
	_ = pushes
	done := parallel(6, func(kind int) {
		p := dialRaw(c, w.s.Addrs[0])
		defer p.Close()
		x := w.of(p.nc.LocalAddr().String())
		B := 12*R + 30
		var buf []WFrame
		for k := 0; k < B; k++ {
			f := WFrame{ID: uint64(2*k + 1), Cmd: lQuick, Payload: gen(uint64(k), 8)}
			switch kind {
			case 0: // blocking
			case 1:
				f.Flags = fNB
			case 2: // every other
				if k%2 == 0 {
					f.Flags = fNB
				}
			case 3: // few nonblocking ones
				if k%5 == 0 {
					f.Flags = fNB
				}
			case 4: // streams of one frame
				f.Flags, f.Cmd = fStream|fEnd, lStream
			case 5: // few blocking ones
				if k%5 != 0 {
					f.Flags = fNB
				}
			}
			buf = append(buf, f)
		}
		t0 := time.Now().Unix()
		go p.Send(buf...)
		c.MustUntil("end of a flood", func() bool { return p.Closed() || atomic.LoadInt64(&x.started) >= int64(B) })
		secs := time.Now().Unix() - t0 + 1
		c.MustUntil("handlers of a flood", func() bool { return atomic.LoadInt64(&x.started) == atomic.LoadInt64(&x.ended) })
		got := atomic.LoadInt64(&x.started)
		if got > secs*int64(R) {
			c.Violate("too-fast", "flood of kind %d: %d requests were dispatched in %d clock seconds, %d per second are allowed", kind, got, secs, R)
		}
		if int64(B) > secs*int64(R) && !p.Closed() {
			c.Violate("not-closed", "flood of kind %d: %d requests within %d clock seconds did not close the connection, %d per second are allowed", kind, B, secs, R)
		}
		c.Eval(fmt.Sprint("flood ", R, " ", kind))
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("floods")
	}
	w.s.Stop()
}

// c18scale: a throttled binding with hundreds of connections.
func c18scale(c *C) {
	r := c.Rng
	w := newThrWorld(c, "tcp", 2)
	n := 400
	var xs []*thrConn
	for i := 0; i < n; i++ {
		x := w.open(i % 2)
		x.send(r, 1)
		xs = append(xs, x)
	}
	for _, x := range xs {
		x.settled(c, "before the throttle", "scale before")
	}
	for round := 0; round < 3 && !c.Violated(); round++ {
		w.s.S.SetThrottle(0)
		before := map[*thrConn]int{}
		for _, x := range xs {
			before[x] = w.dispatched(x.addr)
			x.send(r, 10)
		}
		for _, x := range xs {
			if x.b == 1 {
				x.settled(c, "other binding", "scale other")
			}
		}
		c.Settle(40)
		for _, x := range xs {
			if d := w.dispatched(x.addr) - before[x]; x.b == 0 && d > 1 {
				c.Violate("dispatched", "%d requests of one of %d connections were dispatched while throttled", d, n)
				break
			}
		}
		w.s.S.ClearThrottle(0)
		for _, x := range xs {
			x.settled(c, "after the throttle", "scale after")
		}
	}
	for _, x := range xs {
		x.peer.Close()
	}
	w.s.Stop()
}

// c21scale: many open pipes and long ones.
func c21scale(c *C) {
	rev := c.K%2 == 1
	n, long := 600, 8000
	if c.Tier != "quick" {
		n, long = 3000, 60000
	}
	// messages come back as they are; the end is followed by the end
	h := channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, rc channel.Receiver, _ channel.Transport) {
		for {
			var cmd qrpc.Cmd
			var v string
			if err := rc.Receive(context.Background(), &cmd, &v); err != nil {
				s.End()
				return
			}
			if err := s.Send(context.Background(), cmd, v, false); err != nil {
				c.writeFailed("scale-send", err, "echo")
				return
			}
		}
	}))
	p := newPair(c, pairOpt{rev: rev}, h)
	t := channel.NewTransport(p.open.(qrpc.StreamInitiator))
	ss := make([]channel.Sender, n)
	rs := make([]channel.Receiver, n)
	msg := func(i, k int) string { return fmt.Sprint("pipe ", i, " message ", k) }
	run := func(what string, f func(i int)) {
		done := parallel(8, func(g int) {
			for i := g; i < n && !c.Violated(); i += 8 {
				f(i)
			}
		})
		if !c.waitAtLeast(done, 3*stallWall, 2*stallTicks) {
			c.StallAbort(what)
		}
	}
	run("opening many pipes", func(i int) {
		var err error
		if ss[i], rs[i], err = t.Pipe(); err != nil {
			c.Violate("scale-pipe", "Pipe: %v", err)
		}
	})
	if c.Violated() {
		return
	}
	// a message that is not received holds up those of other pipes: all are received at the same time
	over := parallel(n, func(i int) {
		for k := 0; k < 3; k++ {
			if err := ss[i].Send(context.Background(), qrpc.Cmd(k+1), msg(i, k), false); err != nil {
				c.Violate("scale-send", "pipe %d of %d: %v", i, n, err)
				return
			}
			var v string
			var cmd qrpc.Cmd
			if err := rs[i].Receive(context.Background(), &cmd, &v); err != nil || v != msg(i, k) || cmd != qrpc.Cmd(k+1) {
				c.Violate("scale-receive", "pipe %d of %d, message %d: %#x %q %v", i, n, k, cmd, v, err)
				return
			}
			c.Eval(fmt.Sprint("scale ", rev, k))
		}
	})
	if !c.waitAtLeast(over, 3*stallWall, 2*stallTicks) {
		c.StallAbort("messages over many pipes")
	}
	run("ending many pipes", func(i int) {
		if i == 0 {
			return
		}
		if err := ss[i].End(); err != nil {
			c.Violate("scale-end", "End: %v", err)
		}
		var v string
		if err := rs[i].Receive(context.Background(), nil, &v); err != channel.ErrStreamFinished {
			c.Violate("scale-end", "pipe %d of %d, after the end: %v", i, n, err)
		}
	})
	done := parallel(2, func(g int) {
		for k := 3; k < long && !c.Violated(); k++ {
			if g == 0 {
				if err := ss[0].Send(context.Background(), qrpc.Cmd(k+1)&0xffffff, msg(0, k), false); err != nil {
					c.Violate("scale-send", "long pipe, message %d: %v", k, err)
				}
				continue
			}
			var v string
			var cmd qrpc.Cmd
			if err := rs[0].Receive(context.Background(), &cmd, &v); err != nil || v != msg(0, k) {
				c.Violate("scale-receive", "long pipe, message %d: %q %v", k, v, err)
			}
			c.Eval("scale long")
		}
	})
	if !c.waitAtLeast(done, 4*stallWall, 2*stallTicks) {
		c.StallAbort("a long pipe")
	}
	p.stop()
}

// c21reuse: the receiver uses one variable for all messages, some of which encode to nothing.
func c21reuse(c *C) {
	rev := c.K%2 == 1
	r := c.Rng
	n := 200
	vals := make([]c21bin, n)
	for i := range vals {
		switch r.Intn(3) {
		case 0: // encodes to nothing
		case 1:
			vals[i].A = r.Uint64() | 1
		default:
			vals[i] = c21bin{A: r.Uint64() | 1, B: gen(r.Uint64(), 1+r.Intn(60))}
		}
	}
	recvAll := func(rc channel.Receiver, side string) {
		var v c21bin
		var i64 int64
		for k := 0; k < n; k++ {
			var err error
			c.Do("Receive", func() { err = rc.Receive(context.Background(), nil, &v) })
			if err != nil || !c21same(vals[k], &v) {
				c.Violate("reuse", "%s: message %d %+v received into the variable of the one before as %+v: %v", side, k, vals[k], v, err)
				return
			}
			c.Do("Receive", func() { err = rc.Receive(context.Background(), nil, &i64) })
			if err != nil || i64 != int64(k)-50 {
				c.Violate("reuse", "%s: number %d was received as %d: %v", side, k-50, i64, err)
				return
			}
			c.Eval(fmt.Sprint("reuse ", rev, side, vals[k].A == 0, len(vals[k].B) == 0))
		}
	}
	sendAll := func(s channel.Sender, side string) {
		for k := 0; k < n; k++ {
			if err := s.Send(context.Background(), qrpc.Cmd(k), &vals[k], false); err != nil {
				c.writeFailed("send", err, "%s: message %d", side, k)
				return
			}
			if err := s.Send(context.Background(), qrpc.Cmd(k), int64(k)-50, k == n-1); err != nil {
				c.writeFailed("send", err, "%s: message %d", side, k)
				return
			}
		}
	}
	over := make(chan struct{})
	p := newPair(c, pairOpt{rev: rev}, channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, rc channel.Receiver, _ channel.Transport) {
		defer close(over)
		d := parallel(1, func(int) { sendAll(s, "down") })
		recvAll(rc, "up")
		<-d
	})))
	s, rc, err := channel.NewTransport(p.open.(qrpc.StreamInitiator)).Pipe()
	if err != nil {
		c.Violate("pipe", "%v", err)
		return
	}
	sent := make(chan struct{})
	first := make(chan struct{})
	go func() {
		defer close(sent)
		// the pipe has a receiver once something was sent
		if err := s.Send(context.Background(), 0, &vals[0], false); err != nil {
			c.writeFailed("send", err, "first")
		}
		close(first)
		s.Send(context.Background(), 0, int64(-50), false)
		for k := 1; k < n; k++ {
			s.Send(context.Background(), qrpc.Cmd(k), &vals[k], false)
			if err := s.Send(context.Background(), qrpc.Cmd(k), int64(k)-50, k == n-1); err != nil {
				c.writeFailed("send", err, "up: message %d", k)
				return
			}
		}
	}()
	c.Must("the first Send", first)
	recvAll(rc, "down")
	c.Must("Send", sent)
	c.Must("the other side of the pipe", over)
	p.stop()
}

// wsPair connects the library's side of a WebSocket connection (server or client) to a gorilla one.
func wsPair(c *C, mode string, server bool) (side net.Conn, peer *websocket.Conn, stop func()) {
	st, ct := tlsConfs()
	if mode == "ws" {
		st, ct = nil, nil
	}
	ln := newListener()
	var err error
	if server {
		ov := wsserver.OverlayNetwork(ln, st)
		ch := make(chan net.Conn, 1)
		go func() {
			nc, err := ov.Accept()
			if err != nil {
				c.Violate("accept", "%s: Accept: %v", mode, err)
			}
			ch <- nc
		}()
		d := websocket.Dialer{TLSClientConfig: ct}
		c.Do("dialing a WebSocket", func() { peer, _, err = d.Dial(mode+"://"+ln.Addr().String()+"/qrpc", nil) })
		if err != nil {
			c.Violate("dial", "%s: %v", mode, err)
			c.Abort()
		}
		c.Do("accepting a WebSocket", func() { side = <-ch })
		return side, peer, func() { peer.Close(); side.Close(); ov.Close(); ln.Close() }
	}
	ch := make(chan *websocket.Conn, 1)
	hs := &http.Server{TLSConfig: st, Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		wc, _ := up.Upgrade(w, r, nil)
		ch <- wc
	})}
	go func() {
		if st != nil {
			hs.ServeTLS(ln, "", "")
		} else {
			hs.Serve(ln)
		}
	}()
	c.Do("dialing a WebSocket", func() {
		side, err = wsclient.DialConn(ln.Addr().String(), qrpc.DialConfig{DialTimeout: 10 * time.Second, TLSConf: ct})
	})
	if err != nil {
		c.Violate("dial", "%s: %v", mode, err)
		c.Abort()
	}
	c.Do("accepting a WebSocket", func() { peer = <-ch })
	return side, peer, func() { peer.Close(); side.Close(); hs.Close() }
}

// c22closing: the peer has announced its end with a close message while this side still reads and writes.
func c22closing(c *C) {
	for round := 0; round < 8 && !c.Violated(); round++ {
		mode := []string{"ws", "wss"}[round/2%2]
		b, peer, stop := wsPair(c, mode, round%2 == 0)
		key := fmt.Sprint("closing ", mode, " ", round%2 == 0)
		hello := gen(c.Rng.Uint64(), c.Rng.Pick(1, 100, 5000))
		peer.WriteMessage(websocket.BinaryMessage, hello)
		kind := c.Rng.Intn(3)
		switch kind {
		case 0:
			peer.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
		case 1:
			peer.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, "bye"), time.Now().Add(time.Second))
		case 2:
			peer.WriteControl(websocket.PingMessage, []byte("ping"), time.Now().Add(time.Second))
			peer.WriteControl(websocket.CloseMessage, nil, time.Now().Add(time.Second))
		}
		// everything sent before the close message arrives, then the end
		var got []byte
		buf := make([]byte, 700)
		var n int
		var err error
		c.Do("Read up to the peer's close message", func() {
			for err == nil && len(got) <= len(hello) {
				n, err = b.Read(buf)
				got = append(got, buf[:n]...)
			}
		})
		if err == nil || !same(got, hello) {
			c.Violate("read", "%s: %s and a close message (%d) were read as %s, %v", key, brief(hello), kind, brief(got), err)
		}
		// the close message has been answered: nothing can be sent any more
		for k := 0; k < 3; k++ {
			n, err = b.Write([]byte("after the close message"))
			if err == nil || n == 23 {
				c.Violate("write", "%s: Write after the close message (%d) was answered returned %d, %v, but nothing was sent", key, kind, n, err)
			}
			c.Eval(fmt.Sprint(key, kind, k))
		}
		b.Close()
		n, err = b.Write([]byte("after Close"))
		if err == nil || n != 0 {
			c.Violate("write", "%s: Write after Close returned %d, %v", key, n, err)
		}
		c.Do("Read after Close", func() { n, err = b.Read(buf) })
		if err == nil {
			c.Violate("read", "%s: Read after Close returned %d bytes", key, n)
		}
		stop()
	}
}

// c23lost: a method whose server goes away, or that fails, has run once; the caller gets an error.
func c23lost(c *C) {
	r := c.Rng
	n := r.Range(2, 4)
	var mu sync.Mutex
	runs := map[string]int{}
	var srvs []*Srv
	var addrs []string
	var live int64
	for i := 0; i < n; i++ {
		i := i
		run := func(in []byte) {
			mu.Lock()
			runs[string(in)]++
			mu.Unlock()
			atomic.AddInt64(&live, 1)
		}
		h := codegen.NewServiceHandler(svcErr, map[string]codegen.MethodCall{
			codegen.FQMethod("lost", "panic"): func(ctx context.Context, in []byte) ([]byte, error) { run(in); panic("lost") },
			codegen.FQMethod("lost", "error"): func(ctx context.Context, in []byte) ([]byte, error) { run(in); return nil, fmt.Errorf("failed") },
			codegen.FQMethod("lost", "wait"):  func(ctx context.Context, in []byte) ([]byte, error) { run(in); <-ctx.Done(); return nil, ctx.Err() },
			codegen.FQMethod("lost", "ok"):    func(ctx context.Context, in []byte) ([]byte, error) { run(in); return in, nil },
		})
		mux := qrpc.NewServeMux()
		mux.HandleFunc(svcCmd, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			h.ServeQRPC(w, q)
		}, func(_ qrpc.FrameWriter, q *qrpc.RequestFrame) bool {
			if len(q.Payload) > 0 && contains(q.Payload, "CUT") {
				run(q.Payload)
				q.ConnectionInfo().Close()
				return false
			}
			return true
		})
		s := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: mux})
		_ = i
		srvs, addrs = append(srvs, s), append(addrs, s.Addrs[0])
	}
	cl := codegen.NewClient(svcCmd, svcErr, addrs, qrpc.ConnectionConfig{})
	one := func(m string, k int, expectErr bool) {
		in := append(gen(mix(uint64(c.Seed), uint64(k)), 24), m...)
		name := m
		if m == "CUT" {
			name = "ok"
		}
		var out []byte
		var err error
		var drop func()
		if m == "wait" {
			before := atomic.LoadInt64(&live)
			drop = func() {
				c.MustUntil("start of the method", func() bool { return atomic.LoadInt64(&live) > before })
				for i := range srvs {
					srvs[i].S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.Close(); return true })
				}
			}
		}
		done := parallel(1, func(int) { out, err = cl.Request(context.Background(), "lost", name, in) })
		if drop != nil {
			drop()
		}
		c.Must("a call that fails", done)
		if expectErr && err == nil {
			c.Violate("result", "a call whose method %s returned %s", m, brief(out))
		}
		c.Settle(1)
		mu.Lock()
		total := 0
		for p, k := range runs {
			if contains([]byte(p), string(in)) || p == string(in) {
				total += k
			}
		}
		mu.Unlock()
		if total > 1 {
			c.Violate("twice", "one call of %s with %d addresses was run %d times (err %v)", m, n, total, err)
		}
		if total == 0 && err == nil {
			c.Violate("result", "a call of %s that was never run returned %s", m, brief(out))
		}
		if m == "ok" && err == nil && !same(out, in) {
			c.Violate("result", "wrong result %s", brief(out))
		}
		if total == 1 {
			c.Count("calls_run_once", 1)
		}
		c.Eval(fmt.Sprint("lost ", n, m, total))
	}
	up := func() {
		row := 0
		c.MustUntil("working addresses", func() bool {
			_, err := svcCall(c, context.Background(), cl, "lost", "ok", gen(r.Uint64(), 30))
			if err != nil {
				row = 0
				return false
			}
			row++
			return row >= 3*n
		})
	}
	for k := 0; k < 24 && !c.Violated(); k++ {
		up()
		one([]string{"panic", "error", "wait", "CUT", "panic", "CUT"}[k%6], k, true)
	}
	for _, s := range srvs {
		s.Stop()
	}
}

func contains(b []byte, s string) bool {
	for i := 0; i+len(s) <= len(b); i++ {
		if string(b[i:i+len(s)]) == s {
			return true
		}
	}
	return false
}

// c24limit: the limit on the size of a frame is about what is sent, not about what it decodes to.
func c24limit(c *C) {
	r := c.Rng
	// runs of equal bytes are encoded as (count, byte)
	rle := &rawCodec{name: "rle",
		enc: func(b []byte) ([]byte, error) {
			var out []byte
			for i := 0; i < len(b); {
				j := i
				for j < len(b) && b[j] == b[i] && j-i < 255 {
					j++
				}
				out = append(out, byte(j-i), b[i])
				i = j
			}
			return out, nil
		},
		dec: func(b []byte) ([]byte, error) {
			var out []byte
			for i := 0; i+1 < len(b); i += 2 {
				for k := 0; k < int(b[i]); k++ {
					out = append(out, b[i+1])
				}
			}
			return out, nil
		}}
	for _, max := range []int{100, 5000, 100000} {
		var got [][]byte
		var mu sync.Mutex
		h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			mu.Lock()
			got = append(got, q.Payload)
			for f := range q.FrameCh() {
				got = append(got, f.Payload)
			}
			mu.Unlock()
			w.StartWrite(q.RequestID, 9, qrpc.CodecFlag)
			w.WriteBytes(q.Payload)
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "answer")
			}
		})
		p := newPair(c, pairOpt{binding: qrpc.ServerBinding{Codec: rle, MaxFrameSize: max}, conf: qrpc.ConnectionConfig{Codec: rle}}, h)
		for k := 0; k < 12; k++ {
			size := []int{max - 13, max - 12, max - 11, max, max + 1, 2 * max, 10 * max, 60 * max}[k%8]
			pl := make([]byte, size)
			for i := range pl {
				pl[i] = byte(k + i*3/len(pl))
			}
			var f *qrpc.Frame
			var err error
			fl := qrpc.NBFlag | qrpc.CodecFlag
			want := [][]byte{pl}
			c.Do("a call whose payload shrinks", func() {
				var resp qrpc.Response
				if k%3 == 2 {
					var sw qrpc.StreamWriter
					sw, resp, err = p.open.(qrpc.StreamInitiator).StreamRequest(3, fl, pl)
					if err == nil {
						sw.StartWrite(1)
						sw.WriteBytes(pl)
						err = sw.EndWrite(true)
						want = append(want, pl)
					}
				} else {
					_, resp, err = p.open.Request(3, fl, pl)
				}
				if err == nil {
					f, err = resp.GetFrame()
				}
			})
			if err != nil || !same(f.Payload, pl) {
				c.Violate("limit", "a payload of %d bytes that is sent as a few, with frames limited to %d: %v", size, max, err)
				break
			}
			mu.Lock()
			ok := len(got) == len(want)
			for i := range got {
				ok = ok && same(got[i], want[i])
			}
			if !ok {
				c.Violate("limit", "a payload of %d bytes that is sent as a few, with frames limited to %d, was delivered as %d frames", size, max, len(got))
			}
			got = nil
			mu.Unlock()
			c.Eval(fmt.Sprint("limit ", max, k%8, k%3))
		}
		_ = r
		p.stop()
	}
}

// nullWriter takes answers for c25stress.
type nullWriter struct{}

func (nullWriter) StartWrite(uint64, qrpc.Cmd, qrpc.FrameFlag) {}
func (nullWriter) WriteBytes([]byte)                           {}
func (nullWriter) EndWrite() error                             { return nil }
func (nullWriter) EndWriteCompressed() error                   { return nil }
func (nullWriter) ResetFrame(uint64, qrpc.Cmd) error           { return nil }

// c25stress: many goroutines dispatch through one mux as fast as they can.
func c25stress(c *C) {
	mux := qrpc.NewServeMux()
	const n = 64
	var before [n]int64
	for i := 0; i < n; i++ {
		i := i
		mux.HandleFunc(qrpc.Cmd(i*900+5), func(_ qrpc.FrameWriter, q *qrpc.RequestFrame) {
			if int(q.Cmd&0xffff) != i*900+5 || q.RequestID>>32 != uint64(i) {
				c.Violate("stress", "a request of command %#x reached the handler of %#x", q.Cmd, i*900+5)
			}
		}, func(_ qrpc.FrameWriter, q *qrpc.RequestFrame) bool {
			if q.RequestID>>32 != uint64(i) {
				c.Violate("stress", "a request of command %#x reached the middleware of %#x", q.Cmd, i*900+5)
			}
			atomic.AddInt64(&before[i], 1)
			return q.RequestID&7 != 3
		})
	}
	per := 150000
	if c.Tier != "quick" {
		per = 1500000
	}
	var sent [n]int64
	done := parallel(8, func(g int) {
		x := mix(uint64(c.Seed), uint64(g))
		var q qrpc.RequestFrame
		for k := 0; k < per; k++ {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			i := int(x>>20) % n
			if g%2 == 0 {
				i = i % 2 // two that are always in turns
			}
			q.RequestID = uint64(i)<<32 | uint64(k)
			q.Cmd = qrpc.Cmd(i*900+5) | qrpc.Cmd(x>>48&0xff)<<16
			mux.ServeQRPC(nullWriter{}, &q)
			atomic.AddInt64(&sent[i], 1)
			if k%64 == 0 {
				c.Eval(fmt.Sprint("stress ", i, g%2))
				if c.Violated() {
					return
				}
			}
		}
	})
	if !c.waitAtLeast(done, 4*stallWall, 2*stallTicks) {
		c.StallAbort("dispatching")
	}
	for i := range sent {
		if sent[i] != before[i] && !c.Violated() {
			c.Violate("stress", "%d requests of command %d ran its middleware %d times", sent[i], i, before[i])
		}
	}
	c.Count("dispatches", int64(8*per))
}
