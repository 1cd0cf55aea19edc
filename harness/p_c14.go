package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C14", MinEv: 2000,
		Rule: "one evaluation per lookup or walk by id compared with the model (sequential histories) or with the interval rule over recorded binds and closes (concurrent ones), and per takeover whose kick callback, close and notification were counted; distinct = (job, operation, state of the id, outcome)",
		Jobs: []JobSpec{
			{Name: "history", Quick: 6, Deep: 50, Fn: c14history},
			{Name: "race", Quick: 10, Deep: 80, Fn: c14race},
			{Name: "contend", Quick: 6, Deep: 40, Fn: c14contend},
			{Name: "closing", Quick: 8, Deep: 60, Fn: c14closing},
			{Name: "stuck", Quick: 3, Deep: 12, Fn: c14stuck},
		}})
}

const kickCmd = 0x4b1c

// idConn is one connection of the id tests.
type idConn struct {
	n      int
	b      int // binding
	peer   *RawPeer
	ci     *qrpc.ConnectionInfo
	tap    *Tap
	id     string
	closes int32 // close notifications that ran
	onEnd  chan struct{}
	kickAt int32 // kick frames seen when the notification ran
	alive  bool
	kicked bool
}

func (x *idConn) kicks() (n int) {
	fs, _, _ := parseWire(x.tap.Bytes())
	for _, f := range fs {
		if f.Cmd == kickCmd && f.Flags&fPush != 0 {
			n++
			if string(f.Payload) != fmt.Sprint("bye", x.b) { // of another binding's callback
				n += 1000
			}
		}
	}
	return
}

type idWorld struct {
	c     *C
	s     *Srv
	mu    sync.Mutex
	taps  map[string]*Tap
	cis   map[string]*qrpc.ConnectionInfo
	kicks int64
	n     int
	delay *Rng

	order int64 // the greatest order a SetID of any connection has returned
}

func newIDWorld(c *C, bindings int, cb bool, wt int) *idWorld {
	w := &idWorld{c: c, taps: map[string]*Tap{}, cis: map[string]*qrpc.ConnectionInfo{}, delay: c.Rng.Fork()}
	var bs []qrpc.ServerBinding
	for i := 0; i < bindings; i++ {
		b := qrpc.ServerBinding{WriteFrameChSize: c.Rng.Pick(1, 5), DefaultWriteTimeout: wt, Handler: qrpc.HandlerFunc(func(fw qrpc.FrameWriter, q *qrpc.RequestFrame) {
			w.mu.Lock()
			w.cis[q.ConnectionInfo().RemoteAddr()] = q.ConnectionInfo()
			w.mu.Unlock()
			answer(fw, q)
		})}
		if cb {
			bye := []byte(fmt.Sprint("bye", i))
			b.OnKickCB = func(fw qrpc.FrameWriter) {
				atomic.AddInt64(&w.kicks, 1)
				if w.delay.P(1, 4) {
					time.Sleep(time.Duration(w.delay.Range(1, 800)) * time.Microsecond)
				}
				fw.StartWrite(1, kickCmd, qrpc.PushFlag)
				fw.WriteBytes(bye)
				fw.EndWrite()
			}
		}
		bs = append(bs, b)
	}
	w.s = startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn {
		t := &Tap{}
		w.mu.Lock()
		w.taps[nc.RemoteAddr().String()] = t
		w.mu.Unlock()
		return wrapConn(nc, Policy{Rng: w.delay.Fork(), TapW: t, YieldP: 16})
	}, bs...)
	return w
}

func (w *idWorld) open(b int) *idConn {
	x := &idConn{b: b, alive: true, onEnd: make(chan struct{})}
	w.mu.Lock()
	w.n++
	x.n = w.n
	w.mu.Unlock()
	x.peer = dialRaw(w.c, w.s.Addrs[b])
	a := x.peer.nc.LocalAddr().String()
	x.peer.Send(WFrame{ID: 1, Flags: fNB, Cmd: 1})
	w.c.MustUntil("hello of a connection", func() bool { return x.peer.N() > 0 || x.peer.Closed() })
	w.mu.Lock()
	x.ci, x.tap = w.cis[a], w.taps[a]
	w.mu.Unlock()
	x.ci.NotifyWhenClose(func() {
		atomic.StoreInt32(&x.kickAt, int32(x.kicks()))
		if atomic.AddInt32(&x.closes, 1) == 1 {
			close(x.onEnd)
		}
	})
	return x
}

func (w *idWorld) setID(x *idConn, id string) (kick bool) {
	before := atomic.LoadInt64(&w.order)
	var ko uint64
	w.c.Do("SetID", func() { kick, ko = x.ci.SetID(id) })
	// the order of takeovers: later than whatever had been returned before this one began
	if int64(ko) < before || kick && int64(ko) == before {
		w.c.Violate("order", "SetID (took over: %v) returned order %d, order %d had been returned before it began", kick, ko, before)
	}
	for {
		now := atomic.LoadInt64(&w.order)
		if int64(ko) <= now || atomic.CompareAndSwapInt64(&w.order, now, int64(ko)) {
			break
		}
	}
	w.c.Eval(fmt.Sprint("order ", kick))
	return
}

// lookup asks both ways.
func (w *idWorld) lookup(b int, id string) *qrpc.ConnectionInfo {
	if w.delay.P(1, 2) {
		return w.s.S.GetConnectionInfoByID(b, id)
	}
	var got *qrpc.ConnectionInfo
	n := 0
	w.s.S.WalkConnByID(b, []string{"nobody has this", id}, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
		n++
		got = ci
		if i != 1 {
			w.c.Violate("walk-index", "WalkConnByID gave index %d for the second id", i)
		}
	})
	if n > 1 {
		w.c.Violate("walk-twice", "WalkConnByID called back %d times for one id", n)
	}
	return got
}

// c14history: one operation at a time; everything is known exactly.
func c14history(c *C) {
	r := c.Rng
	cb := c.K%3 != 2
	w := newIDWorld(c, 2, cb, 0)
	ids := []string{"a", "b", "c"}
	owner := [2]map[string]*idConn{{}, {}}
	var live []*idConn
	var all []*idConn
	drop := func(x *idConn) {
		for i, y := range live {
			if y == x {
				live = append(live[:i], live[i+1:]...)
				break
			}
		}
		x.alive = false
	}
	ended := func(x *idConn, how string, kicks int) {
		c.Must("close notification after "+how, x.onEnd)
		if !x.ci.IsClosed() {
			c.Violate("alive", "after %s the connection is not closed", how)
		}
		c.MustUntil("end of the socket after "+how, x.peer.Closed)
		if cb && x.kicks() != kicks {
			c.Violate("kick-count", "after %s the connection had %d kick callbacks, want %d", how, x.kicks(), kicks)
		}
		if cb && int(atomic.LoadInt32(&x.kickAt)) != kicks {
			c.Violate("kick-order", "after %s: %d kick callbacks had run when the connection was closed, want %d", how, x.kickAt, kicks)
		}
		if n := atomic.LoadInt32(&x.closes); n != 1 {
			c.Violate("notify", "after %s the close notification ran %d times", how, n)
		}
	}
	for step := 0; step < 120 && !c.Violated(); step++ {
		switch v := r.Intn(10); {
		case v < 3 || len(live) == 0:
			x := w.open(r.Intn(2))
			live = append(live, x)
			all = append(all, x)
		case v < 7:
			x := live[r.Intn(len(live))]
			if x.id != "" {
				continue
			}
			id := ids[r.Intn(len(ids))]
			old := owner[x.b][id]
			x.id = id
			kick := w.setID(x, id)
			if kick != (old != nil) {
				c.Violate("kick-result", "SetID returned kick=%v, the id was owned=%v", kick, old != nil)
			}
			owner[x.b][id] = x
			st := "free"
			if old != nil {
				st = "owned"
				if !old.ci.IsClosed() {
					c.Violate("takeover", "SetID returned, the previous owner is not closed")
				}
				old.kicked = true
				drop(old)
				ended(old, "takeover", 1)
			}
			c.Eval(fmt.Sprint("bind ", st, cb))
		case v < 8:
			x := live[r.Intn(len(live))]
			if owner[x.b][x.id] == x {
				delete(owner[x.b], x.id)
			}
			drop(x)
			if r.P(1, 2) {
				x.peer.Close()
				ended(x, "the client closed it", 0)
				c.Eval("client close")
			} else {
				c.Do("Close", func() { x.ci.Close() })
				ended(x, "the server closed it", 0)
				c.Eval("server close")
			}
			if x.id == "" && r.P(1, 2) { // a closed connection binds
				id := ids[r.Intn(len(ids))]
				x.id = id
				old := owner[x.b][id]
				// the callback of a living owner of this id would run
				if old == nil {
					w.setID(x, id)
					c.Eval("closed connection binds a free id")
				}
			}
		}
		for b := 0; b < 2; b++ {
			for _, id := range ids {
				got := w.lookup(b, id)
				var want *qrpc.ConnectionInfo
				if o := owner[b][id]; o != nil {
					want = o.ci
				}
				if got != want {
					c.Violate("lookup", "step %d: lookup of %q at binding %d returns %v, the model says %v", step, id, b, name(all, got), name(all, want))
				}
				if got != nil && got.GetID() != id {
					c.Violate("lookup", "the connection found by %q says its id is %q", id, got.GetID())
				}
				c.Eval(fmt.Sprint("lookup", b, id, want != nil))
			}
		}
	}
	kicked := 0
	for _, x := range all {
		if x.kicked {
			kicked++
		}
	}
	if cb && int(atomic.LoadInt64(&w.kicks)) != kicked {
		c.Violate("kick-count", "%d kick callbacks ran, %d takeovers happened", w.kicks, kicked)
	}
	for _, x := range live {
		if x.ci.IsClosed() {
			c.Violate("alive", "connection %d (id %q) was closed, nobody closed it or took its id", x.n, x.id)
		}
		x.peer.Send(WFrame{ID: 3, Flags: fNB, Cmd: 2})
		c.MustUntil("answer on a connection that kept its id", func() bool { return x.peer.N() >= 2 || x.peer.Closed() })
	}
	c.Count("takeovers", int64(kicked))
	w.s.Stop()
}

func name(all []*idConn, ci *qrpc.ConnectionInfo) string {
	if ci == nil {
		return "nobody"
	}
	for _, x := range all {
		if x.ci == ci {
			return fmt.Sprintf("connection %d (id %q, open %v, closed %v)", x.n, x.id, x.alive, ci.IsClosed())
		}
	}
	return "a connection nobody knows"
}

type idEvent struct {
	kind string // bind close lookup
	x    *idConn
	id   string
	s, e int64
}

// c14race: binds, closes and lookups at once; judged by what must have happened before what.
func c14race(c *C) {
	r := c.Rng
	w := newIDWorld(c, 1, true, 0)
	ids := []string{"a", "b"}[:r.Range(1, 2)]
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	var mu sync.Mutex
	var evs []idEvent
	var all []*idConn
	byCI := map[*qrpc.ConnectionInfo]*idConn{}
	note := func(e idEvent) { mu.Lock(); evs = append(evs, e); mu.Unlock() }
	rngs := []*Rng{}
	const G = 8
	for i := 0; i < G; i++ {
		rngs = append(rngs, r.Fork())
	}
	stop := make(chan struct{})
	var lwg sync.WaitGroup
	for i := 0; i < 2; i++ {
		lwg.Add(1)
		rr := r.Fork()
		go func() {
			defer lwg.Done()
			for !closedCh(stop) {
				id := ids[rr.Intn(len(ids))]
				s := tick()
				ci := w.lookup(0, id)
				e := tick()
				mu.Lock()
				x := byCI[ci]
				if len(evs) < 60000 {
					evs = append(evs, idEvent{"lookup", x, id, s, e})
				}
				mu.Unlock()
				if ci != nil && x == nil {
					c.Violate("lookup", "a lookup returned a connection nobody bound")
				}
				time.Sleep(time.Duration(rr.Intn(100)) * time.Microsecond)
			}
		}()
	}
	done := parallel(G, func(g int) {
		r := rngs[g]
		for k := 0; k < 12 && !c.Violated(); k++ {
			x := w.open(0)
			x.id = ids[r.Intn(len(ids))]
			mu.Lock()
			all = append(all, x)
			byCI[x.ci] = x
			mu.Unlock()
			var wg sync.WaitGroup
			mode := r.Intn(4)
			if mode == 1 || mode == 2 { // the connection closes about now
				wg.Add(1)
				go func() {
					defer wg.Done()
					if r.P(1, 2) {
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					}
					s := tick()
					if mode == 1 {
						c.Do("Close during SetID", func() { x.ci.Close() })
					} else {
						x.peer.Close()
						c.Must("close notification", x.onEnd)
					}
					note(idEvent{"close", x, x.id, s, tick()})
				}()
			}
			s := tick()
			w.setID(x, x.id)
			note(idEvent{"bind", x, x.id, s, tick()})
			wg.Wait()
			if mode == 3 {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("concurrent binds")
	}
	close(stop)
	lwg.Wait()
	// interval rule
	var binds, closes, looks []idEvent
	for _, e := range evs {
		switch e.kind {
		case "bind":
			binds = append(binds, e)
		case "close":
			closes = append(closes, e)
		default:
			looks = append(looks, e)
		}
	}
	bindOf := map[*idConn]idEvent{}
	closeOf := map[*idConn]idEvent{}
	for _, b := range binds {
		bindOf[b.x] = b
	}
	for _, b := range closes {
		closeOf[b.x] = b
	}
	for _, l := range looks {
		if l.x != nil {
			if l.x.id != l.id {
				c.Violate("lookup", "lookup of %q returned a connection that bound %q", l.id, l.x.id)
			}
			b := bindOf[l.x]
			if b.s > l.e {
				c.Violate("lookup", "a lookup returned a connection before it bound the id")
			}
			if cl, ok := closeOf[l.x]; ok && cl.e < l.s && b.e < l.s {
				c.Violate("closed-kept", "a lookup that began after connection %d was closed and its SetID had returned returned it", l.x.n)
			}
			for _, y := range binds {
				if y.x != l.x && y.id == l.id && y.s > b.e && y.e < l.s {
					c.Violate("stale", "a lookup returned connection %d after connection %d, which bound the same id later, had its SetID returned", l.x.n, y.x.n)
				}
			}
			c.Eval(fmt.Sprint("race lookup found", len(ids)))
			continue
		}
		for _, b := range binds {
			if b.id != l.id || b.e > l.s {
				continue
			}
			if cl, ok := closeOf[b.x]; ok && cl.s < l.e {
				continue
			}
			over := false
			for _, y := range binds {
				if y.x != b.x && y.id == b.id && y.s < l.e && y.e > b.s {
					over = true
				}
			}
			if !over {
				c.Violate("lost", "lookup of %q found nobody, connection %d had bound it and neither closed nor was taken over", l.id, b.x.n)
			}
		}
		c.Eval(fmt.Sprint("race lookup nobody", len(ids)))
	}
	// who is left
	ownerN := map[string]int{}
	for _, x := range all {
		_, closed := closeOf[x]
		k := x.kicks()
		if k > 1 {
			c.Violate("kick-count", "the kick callback ran %d times for one connection", k)
		}
		if x.ci.IsClosed() {
			c.Must("close notification", x.onEnd)
			if atomic.LoadInt32(&x.closes) != 1 {
				c.Violate("notify", "close notification ran %d times", x.closes)
			}
			if !closed && k != 1 {
				c.Violate("kick-count", "connection %d lost its id to another one, its kick callback ran %d times", x.n, k)
			}
			if !closed && atomic.LoadInt32(&x.kickAt) != 1 {
				c.Violate("kick-order", "connection %d was closed before its kick callback", x.n)
			}
			c.Eval(fmt.Sprint("race ended", closed, k))
			continue
		}
		if k != 0 {
			c.Violate("kick-count", "the kick callback ran for connection %d, which is open", x.n)
		}
		if closed {
			c.Violate("alive", "connection %d was closed and is open", x.n)
		}
		ownerN[x.id]++
		if got := w.lookup(0, x.id); got != x.ci {
			c.Violate("lost", "connection %d is open and bound %q, lookup returns %s", x.n, x.id, name(all, got))
		}
		c.Eval("race survivor")
	}
	for id, n := range ownerN {
		if n > 1 {
			c.Violate("two-owners", "%d open connections own %q", n, id)
		}
	}
	for _, id := range ids {
		if ci := w.lookup(0, id); ci != nil && ci.IsClosed() {
			c.Violate("closed-kept", "a closed connection (%s) is bound to %q when all is quiet", name(all, ci), id)
		}
	}
	c.Count("binds", int64(len(binds)))
	c.Count("lookups", int64(len(looks)))
	w.s.Stop()
}

// c14contend: many connections bind one id at the same moment; one is left.
func c14contend(c *C) {
	r := c.Rng
	cb := r.P(2, 3)
	w := newIDWorld(c, 1, cb, 0)
	for round := 0; round < 10 && !c.Violated(); round++ {
		n := r.Range(2, 10)
		id := fmt.Sprint("id", round)
		var xs []*idConn
		for i := 0; i < n; i++ {
			xs = append(xs, w.open(0))
		}
		before := atomic.LoadInt64(&w.kicks)
		go1 := make(chan struct{})
		var kicks int64
		done := parallel(n, func(i int) {
			<-go1
			if w.setID(xs[i], id) {
				atomic.AddInt64(&kicks, 1)
			}
		})
		close(go1)
		c.Must("binding of one id by many", done)
		open := 0
		for _, x := range xs {
			if !x.ci.IsClosed() {
				open++
				if got := w.lookup(0, id); got != x.ci {
					c.Violate("lost", "the one open connection is not the one found by id")
				}
				continue
			}
			c.Must("close notification of a kicked connection", x.onEnd)
			if cb && x.kicks() != 1 {
				c.Violate("kick-count", "a kicked connection had %d kick callbacks", x.kicks())
			}
			if cb && atomic.LoadInt32(&x.kickAt) != 1 {
				c.Violate("kick-order", "a kicked connection was closed before its callback")
			}
		}
		if open != 1 {
			c.Violate("two-owners", "%d connections bound one id, %d are left", n, open)
		}
		if d := atomic.LoadInt64(&w.kicks) - before; cb && d != int64(n-1) {
			c.Violate("kick-count", "%d connections bound one id: %d kick callbacks", n, d)
		}
		c.Eval(fmt.Sprint("contend", n, cb))
		for _, x := range xs {
			x.peer.Close()
		}
		c.MustUntil("the id to be free", func() bool { return w.lookup(0, id) == nil })
	}
	w.s.Stop()
}

// c14closing: owner and taker close while the id changes hands, over and over with the same id.
func c14closing(c *C) {
	r := c.Rng
	w := newIDWorld(c, 1, r.P(2, 3), 0)
	id := "same"
	for round := 0; round < 40 && !c.Violated(); round++ {
		a, b := w.open(0), w.open(0)
		w.setID(a, id)
		closeIt := func(x *idConn, how int) {
			switch how {
			case 0:
				x.ci.Close()
			case 1:
				x.peer.Close()
			case 2:
				x.peer.Send(WFrame{ID: 9, Flags: fNB, Cmd: 1}, WFrame{ID: 5})
				x.peer.nc.Write([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}) // malformed
			}
		}
		ha, hb := r.Range(-1, 2), r.Range(-1, 2)
		da, db, ds := r.Intn(200), r.Intn(200), r.Intn(200)
		done := parallel(3, func(i int) {
			switch i {
			case 0:
				time.Sleep(time.Duration(da) * time.Microsecond)
				closeIt(a, ha)
			case 1:
				time.Sleep(time.Duration(db) * time.Microsecond)
				closeIt(b, hb)
			case 2:
				time.Sleep(time.Duration(ds) * time.Microsecond)
				w.setID(b, id)
			}
		})
		c.Must("takeover while the owner or the taker closes", done)
		if !a.ci.IsClosed() {
			c.Violate("alive", "the previous owner is open after SetID of another connection returned")
		}
		if hb >= 0 {
			c.Must("close notification of the taker", b.onEnd)
		}
		c.Must("close notification of the owner", a.onEnd)
		got := w.lookup(0, id)
		switch {
		case hb < 0 && got != b.ci:
			c.Violate("lost", "the taker is open and lookup returns %s", name([]*idConn{a, b}, got))
		case hb >= 0 && got != nil:
			c.Violate("closed-kept", "owner and taker are closed and lookup returns %s", name([]*idConn{a, b}, got))
		}
		for _, x := range []*idConn{a, b} {
			if x.kicks() > 1 || atomic.LoadInt32(&x.closes) != 1 && x.ci.IsClosed() {
				c.Violate("kick-count", "kick callbacks %d, close notifications %d", x.kicks(), x.closes)
			}
		}
		c.Eval(fmt.Sprint("closing", ha, hb))
		// the id is usable at once
		d := w.open(0)
		w.setID(d, id)
		if got := w.lookup(0, id); got != d.ci {
			c.Violate("lost", "after the races a new owner is not found, but %s", name([]*idConn{a, b, d}, got))
		}
		for _, x := range []*idConn{a, b, d} {
			x.peer.Close()
		}
		c.Must("close notification", d.onEnd)
	}
	w.s.Stop()
}

// c14stuck: the previous owner's peer does not read and its writers are blocked; the takeover still completes.
func c14stuck(c *C) {
	r := c.Rng
	for round := 0; round < 3 && !c.Violated(); round++ {
		cb := round == 1
		wt := 0
		if cb {
			wt = 1 // the callback's own write ends by the write limit
		}
		w := newIDWorld(c, 1, cb, wt)
		a := &idConn{alive: true, onEnd: make(chan struct{})}
		nc, err := netDial(w.s.Addrs[0], 10*time.Second)
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		nc.Write(WFrame{ID: 1, Flags: fNB, Cmd: 1}.Bytes())
		readWFrame(nc)
		w.mu.Lock()
		a.ci, a.tap = w.cis[nc.LocalAddr().String()], w.taps[nc.LocalAddr().String()]
		w.mu.Unlock()
		a.ci.NotifyWhenClose(func() { close(a.onEnd) })
		w.setID(a, "s")
		var failed int64
		var stuckWriters sync.WaitGroup
		for i := 0; i < 4; i++ {
			stuckWriters.Add(1)
			go func() {
				defer stuckWriters.Done()
				fw := a.ci.GetWriter()
				for {
					fw.StartWrite(5, 1, qrpc.PushFlag)
					fw.WriteBytes(make([]byte, 200000))
					if fw.EndWrite() != nil {
						atomic.AddInt64(&failed, 1)
						return
					}
				}
			}()
		}
		last := -1
		if !cb {
			c.MustUntil("writers to be blocked", func() bool { n := a.tap.Len(); s := n == last; last = n; time.Sleep(30 * time.Millisecond); return s })
		}
		if round == 2 {
			go func() { time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond); a.ci.Close() }()
		}
		b := w.open(0)
		w.setID(b, "s")
		if w.lookup(0, "s") != b.ci {
			c.Violate("lost", "after the takeover from a stuck owner the id is not the taker's")
		}
		c.Must("close of a stuck owner", a.onEnd)
		rel := make(chan struct{})
		go func() { stuckWriters.Wait(); close(rel) }()
		c.Must("blocked writers of a connection that was taken over", rel)
		c.Eval(fmt.Sprint("stuck", round))
		nc.Close()
		w.s.Stop()
	}
}
