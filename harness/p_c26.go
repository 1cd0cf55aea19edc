package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

func init() {
	register(&Prop{ID: "C26", MinEv: 5000, Race: true,
		Rule: "one evaluation per operation of the whole-API workload and per case of the other properties' workloads that ran under the race detector; distinct = (operation, transport, outcome) and the distinct cases of those workloads",
		Notes: []string{"the race detector sees conflicting accesses that are unordered in the executions produced, with a bounded history per memory location",
			"a report counts when at least one of the two accesses is made by library code"},
		Jobs: []JobSpec{
			{Name: "all", Quick: 6, Deep: 40, Timeout: 120 * time.Second, Fn: c26all},
			{Name: "reuse", Quick: 2, Deep: 10, Fn: c26reuse},
		}})
}

// expandRace adds the workloads of the other properties to C26: the race detector watches, what those
// properties say is not judged here.
func expandRace() {
	p := props["C26"]
	var ids []string
	for id := range props {
		if id != "C26" && id != "C27" && id < "C30" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		for _, j := range props[id].Jobs {
			j := j
			if j.NoRace {
				continue
			}
			off := int(hash64(id, j.Name) % uint64(j.Quick))
			p.Jobs = append(p.Jobs, JobSpec{Name: id + "." + j.Name, Quick: 1, Deep: j.Deep/4 + 1, Timeout: 100 * time.Second, Fn: func(c *C) {
				c.raceOnly = true
				c.K = (c.K + off + int(baseSeed())) % j.Quick
				j.Fn(c)
			}})
		}
	}
}

// c26tally counts without locks: locks of the harness would order the accesses of the library.
type c26tally map[string]int64

func (t c26tally) hit(op string, err error) {
	k := op
	if err != nil {
		k += " failed"
	}
	t[k]++
}

func c26payload(r *rand.Rand) []byte {
	n := smallSizes[r.Intn(len(smallSizes))]
	return gen(r.Uint64(), n)
}

// c26all uses the whole API on shared connections and a shared server from many goroutines that
// have nothing in common but the library.
func c26all(c *C) {
	c.raceOnly = true
	modes := []string{"tcp", "ws", "tls", "tcp", "wss", "tcp"}
	mode := modes[c.K%len(modes)]
	mux := qrpc.NewServeMux()
	serve := func(mux *qrpc.ServeMux) {
		mux.HandleFunc(1, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(w, q) })
		mux.HandleFunc(2, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // streams
			n := 0
			for f := range q.FrameCh() {
				n += len(f.Payload)
			}
			for i := 0; i < 3; i++ {
				w.StartWrite(q.RequestID, qrpc.Cmd(n)&0xffffff, qrpc.StreamFlag)
				w.WriteBytes(q.Payload)
				if w.EndWrite() != nil {
					return
				}
			}
			w.StartWrite(q.RequestID, 0, qrpc.StreamEndFlag)
			w.EndWrite()
		})
		mux.HandleFunc(3, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // waits to be cancelled
			select {
			case <-q.Context().Done():
			case <-time.After(20 * time.Millisecond):
			}
		})
		mux.HandleFunc(4, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // asks back
			if si := q.StreamInitiator(); si != nil && !si.IsClosed() {
				sw, resp, err := si.StreamRequest(1, 0, q.Payload)
				if err == nil {
					sw.StartWrite(1)
					sw.EndWrite(true)
					ctx, cancel := context.WithTimeout(q.Context(), 50*time.Millisecond)
					resp.GetFrameWithContext(ctx)
					cancel()
				}
			}
			answer(w, q)
		}, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) bool { q.SetStash(q.RequestID); return true })
		mux.HandleFunc(5, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { panic("as asked") })
		mux.HandleFunc(6, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { q.Close() })
		mux.HandleFunc(7, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { w.ResetFrame(q.RequestID, 9) })
		mux.Handle(8, channel.NewQRPCHandler(channel.HandlerFunc(func(s channel.Sender, r channel.Receiver, t channel.Transport) {
			for i := 0; ; i++ {
				var cmd qrpc.Cmd
				var m string
				if r.Receive(context.Background(), &cmd, &m) != nil {
					break
				}
				if s.Send(context.Background(), cmd, m, false) != nil {
					return
				}
			}
			s.End()
		})))
	}
	serve(mux)
	mux.HandleFunc(20, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { // ids
		ci := q.ConnectionInfo()
		func() {
			defer func() { recover() }()
			ci.SetID(string(q.Payload))
		}()
		ci.NotifyWhenClose(func() {})
		ci.GetID()
		answer(w, q)
	})
	cmux := qrpc.NewServeMux()
	serve(cmux)
	srv := startServer(c, mode, nil,
		qrpc.ServerBinding{Handler: mux, SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { c26drain(f) }, ReadFrameChSize: c.K % 3, WriteFrameChSize: c.K % 4,
			OnKickCB: func(w qrpc.FrameWriter) { w.StartWrite(0, 1, qrpc.PushFlag); w.EndWrite() }, DefaultReadTimeout: 60, DefaultWriteTimeout: c.K % 2 * 30,
			MaxInboundInflightStreamPerConn: 400, Codec: &zlibCodec{}},
		qrpc.ServerBinding{Handler: mux, SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { c26drain(f) }})
	conf := clientConf(mode, qrpc.ConnectionConfig{Handler: cmux, WriteFrameChSize: c.K % 3, DialTimeout: 5 * time.Second,
		LifecycleCallbacks: qrpc.ClientLifecycleCallbacks{OnConnect: func(*qrpc.Connection) {}, OnDisconnect: func(*qrpc.Connection) {}}})
	conf0 := conf
	conf0.Codec = &zlibCodec{}
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) { c26drain(f) }
	rc := qrpc.NewConnectionWithReconnect([]string{srv.Addrs[0], srv.Addrs[0]}, conf0, sub)
	var plainMu sync.Mutex
	plainConn := srv.dialTo(1, qrpc.ConnectionConfig{Handler: cmux}, sub)
	getPlain := func() *qrpc.Connection { // shared; replaced when somebody closed it
		plainMu.Lock()
		defer plainMu.Unlock()
		if plainConn.IsClosed() {
			if conn, err := qrpc.NewConnection(srv.Addrs[1], conf, sub); err == nil {
				plainConn = conn
			}
		}
		return plainConn
	}
	apiConf := conf
	api := qrpc.NewAPI([]string{srv.Addrs[1], srv.Addrs[1]}, apiConf, nil)
	end := time.Now().Add(2500 * time.Millisecond)
	if c.Tier == "thorough" {
		end = time.Now().Add(8 * time.Second)
	}
	rng := func(i int) *rand.Rand { return rand.New(rand.NewSource(c.Seed + int64(i))) }
	type worker func(r *rand.Rand, t c26tally)
	flagsOf := func(r *rand.Rand, codec bool) qrpc.FrameFlag {
		f := qrpc.FrameFlag([]qrpc.FrameFlag{0, qrpc.NBFlag}[r.Intn(2)])
		if codec && r.Intn(2) == 0 {
			f |= qrpc.CodecFlag
		}
		return f
	}
	short := func() (context.Context, context.CancelFunc) {
		return context.WithTimeout(context.Background(), 150*time.Millisecond)
	}
	open := func(o initiator, who string, codec bool, kill int, r *rand.Rand, t c26tally) {
		ctx, cancel := short()
		defer cancel()
		cmd := qrpc.Cmd([]int{1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 4, 4, 5, 7}[r.Intn(14)])
		if kill > 0 && r.Intn(kill) == 0 {
			cmd = 6
		}
		switch r.Intn(3) {
		case 0:
			_, resp, err := o.Request(cmd, flagsOf(r, codec), c26payload(r))
			if err == nil {
				_, err = resp.GetFrameWithContext(ctx)
			}
			t.hit(who+" request", err)
		case 1:
			sw, resp, err := o.StreamRequest(2, flagsOf(r, codec)&qrpc.CodecFlag, c26payload(r))
			if err == nil {
				n := r.Intn(4)
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i <= n; i++ {
						sw.StartWrite(1)
						sw.WriteBytes([]byte("more"))
						if sw.EndWrite(i == n) != nil {
							return
						}
					}
				}()
				var f *qrpc.Frame
				f, err = resp.GetFrameWithContext(ctx)
				if err == nil {
					c26drain(f)
				}
				wg.Wait()
			}
			t.hit(who+" stream", err)
		case 2:
			sw, resp, err := o.StreamRequest(3, 0, nil)
			if err == nil {
				if r.Intn(2) == 0 {
					err = sw.ResetFrame(1)
				} else {
					sw.StartWrite(1)
					err = sw.EndWrite(true)
				}
				_, err = resp.GetFrameWithContext(ctx)
			}
			t.hit(who+" cancelled stream", err)
		}
	}
	pick := func(b int, n int, r *rand.Rand) (ci *qrpc.ConnectionInfo) {
		skip := r.Intn(n)
		srv.S.WalkConn(b, func(_ qrpc.FrameWriter, x *qrpc.ConnectionInfo) bool {
			ci = x
			skip--
			return skip >= 0
		})
		return
	}
	pipe := func(si qrpc.StreamInitiator, who string, r *rand.Rand, t c26tally) {
		ctx, cancel := short()
		defer cancel()
		s, rv, err := channel.NewTransport(si).Pipe()
		if err != nil {
			t.hit(who+" pipe", err)
			return
		}
		n := 1 + r.Intn(4)
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if s.Send(ctx, 8, strings.Repeat("x", i*100), i == n-1) != nil {
					return
				}
			}
		}()
		go func() {
			defer wg.Done()
			time.Sleep(time.Millisecond)
			for {
				var cmd qrpc.Cmd
				var m string
				if e := rv.Receive(ctx, &cmd, &m); e != nil {
					return
				}
			}
		}()
		wg.Wait()
		t.hit(who+" pipe", nil)
	}
	var workers []worker
	add := func(n int, w worker) {
		for i := 0; i < n; i++ {
			workers = append(workers, w)
		}
	}
	add(2, func(r *rand.Rand, t c26tally) { open(rc, "reconnecting", true, 150, r, t) })
	add(2, func(r *rand.Rand, t c26tally) { open(getPlain(), "plain", false, 0, r, t) })
	add(1, func(r *rand.Rand, t c26tally) { pipe(getPlain(), "client", r, t); pipe(rc, "reconnecting", r, t) })
	add(1, func(r *rand.Rand, t c26tally) {
		if ci := pick(r.Intn(2), 4, r); ci != nil {
			pipe(ci, "server", r, t)
		}
	})
	add(2, func(r *rand.Rand, t c26tally) {
		if ci := pick(1, 3, r); ci != nil {
			open(ci, "server", false, 0, r, t)
		}
	})
	add(1, func(r *rand.Rand, t c26tally) {
		if ci := pick(0, 6, r); ci != nil {
			open(ci, "server", true, 200, r, t)
		}
	})
	add(2, func(r *rand.Rand, t c26tally) { // connections that come and go
		b := r.Intn(2)
		cf := conf
		if b == 0 {
			cf = conf0
		}
		if r.Intn(2) == 0 {
			cf.Handler = nil
		}
		conn, err := qrpc.NewConnection(srv.Addrs[b], cf, sub)
		t.hit("dial", err)
		if err != nil {
			return
		}
		for i := r.Intn(3); i > 0; i-- {
			go conn.Request(20, qrpc.NBFlag, []byte(fmt.Sprint("id", r.Intn(6))))
			open(conn, "short-lived", false, 0, r, t)
		}
		if r.Intn(3) > 0 {
			go conn.Close()
		}
		conn.IsClosed()
		conn.Close()
		conn.Wait()
		<-conn.Done()
	})
	add(2, func(r *rand.Rand, t c26tally) { // pushes
		b := r.Intn(2)
		srv.S.WalkConn(b, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			w.StartWrite(srv.S.GetPushID(), 1, qrpc.PushFlag)
			w.WriteBytes([]byte("push"))
			t.hit("push", w.EndWrite())
			return r.Intn(4) > 0
		})
		ids := []string{"id0", "id1", "id2", "id3"}
		srv.S.WalkConnByID(b, ids, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo, i int) {
			w.StartWrite(srv.S.GetPushID(), 1, qrpc.PushFlag)
			t.hit("push by id", w.EndWrite())
		})
		if _, _, err := getPlain().Request(1, qrpc.PushFlag, []byte("up")); err == nil {
			t.hit("push up", nil)
		}
		time.Sleep(100 * time.Microsecond)
	})
	add(1, func(r *rand.Rand, t c26tally) { // what a server knows about its connections
		b := r.Intn(2)
		ci := srv.S.GetConnectionInfoByID(b, fmt.Sprint("id", r.Intn(6)))
		if ci == nil || r.Intn(2) == 0 {
			ci = pick(b, 5, r)
		}
		if ci == nil {
			return
		}
		ci.GetID()
		ci.IsClosed()
		ci.RemoteAddr()
		ci.Server()
		ci.ReaderConfig().SetReadTimeout(30 + r.Intn(30))
		ci.NotifyWhenClose(func() {})
		srv.S.BindingConfig(b)
		t.hit("info", nil)
		if r.Intn(400) == 0 {
			ci.Close()
			t.hit("server closes", nil)
		}
		if r.Intn(10) == 0 {
			func() {
				defer func() { recover() }()
				ci.SetID(fmt.Sprint("id", r.Intn(6)))
				t.hit("id from outside", nil)
			}()
		}
		time.Sleep(100 * time.Microsecond)
	})
	add(1, func(r *rand.Rand, t c26tally) { // throttle
		b := r.Intn(2)
		srv.S.SetThrottle(b)
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		srv.S.ClearThrottle(b)
		srv.S.OnShutdown(func() {})
		t.hit("throttle", nil)
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	})
	add(2, func(r *rand.Rand, t c26tally) { // api
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+r.Intn(200))*time.Millisecond)
		defer cancel()
		switch r.Intn(3) {
		case 0:
			_, err := api.Call(ctx, qrpc.Cmd(1+r.Intn(2)*2), c26payload(r))
			t.hit("api call", err)
		case 1:
			_, err := api.CallOne(ctx, srv.Addrs[1], 1, c26payload(r))
			t.hit("api call one", err)
		case 2:
			for _, x := range api.CallAll(ctx, 1, c26payload(r)) {
				t.hit("api call all", x.Err)
			}
		}
	})
	add(1, func(r *rand.Rand, t c26tally) { // registers while serving
		n := qrpc.Cmd(1000 + r.Intn(60000))
		func() {
			defer func() { recover() }()
			mux.HandleFunc(n, func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(w, q) })
		}()
		t.hit("register", nil)
		time.Sleep(time.Millisecond)
	})
	add(1, func(r *rand.Rand, t c26tally) { // resets of anything
		getPlain().ResetFrame(uint64(1+2*r.Intn(3000)), 1)
		if ci := pick(1, 3, r); ci != nil {
			ci.GetWriter().ResetFrame(uint64(2+2*r.Intn(3000)), 1)
			t.hit("reset", nil)
		}
		time.Sleep(200 * time.Microsecond)
	})
	if mode == "tcp" {
		add(1, func(r *rand.Rand, t c26tally) { // peers that vanish
			nc, err := netDial(srv.Addrs[r.Intn(2)], 10*time.Second)
			if err == nil {
				b := WFrame{ID: 1, Flags: fNB, Cmd: 3, Payload: gen(5, 40)}.Bytes()
				nc.Write(append(append(b, WFrame{ID: 3, Flags: fStream, Cmd: 2}.Bytes()...), b[:r.Intn(len(b))]...))
				time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
				nc.Close()
			}
			t.hit("vanishing peer", err)
		})
	}
	tallies := make([]c26tally, len(workers))
	last := time.Duration(c.K%3) * 150 * time.Millisecond // the end overlaps the use, or does not
	done := parallel(len(workers), func(i int) {
		r, t := rng(i), c26tally{}
		for time.Now().Before(end.Add(last)) {
			workers[i](r, t)
		}
		tallies[i] = t
	})
	time.Sleep(time.Until(end))
	ended := parallel(4, func(i int) {
		switch i {
		case 0:
			srv.S.Shutdown()
		case 1:
			api.Close()
		case 2:
			rc.Close()
			rc.Wait()
		case 3:
			p := getPlain()
			p.Close()
			p.Wait()
		}
	})
	if !c.waitAtLeast(done, 3*stallWall, stallTicks) || !c.waitAtLeast(ended, 3*stallWall, stallTicks) {
		c.Count("workloads_that_did_not_end", 1)
		c.Logf("%s", dumpQrpc())
		return
	}
	for _, t := range tallies {
		for k, n := range t {
			c.Count("op: "+k, n)
			c.Count("evaluations", n)
			c.Eval(mode + " " + k)
		}
	}
}

func c26drain(f *qrpc.Frame) {
	if f != nil && f.Flags.IsStream() && !f.Flags.IsDone() && f.Stream != nil {
		for range f.FrameCh() {
		}
	}
}

// c26reuse: connections over reusable sockets.
func c26reuse(c *C) {
	c.raceOnly = true
	srv := startServer(c, []string{"tcp", "tls"}[c.K%2], nil, qrpc.ServerBinding{Handler: echoHandler})
	for round := 0; round < 40; round++ {
		conn, err := qrpc.NewReusedConnection(srv.Addrs[0], clientConf(srv.Mode, qrpc.ConnectionConfig{DialTimeout: 5 * time.Second}), nil)
		if err != nil {
			c.Count("reuse_dial_failed", 1)
			continue
		}
		done := parallel(4, func(i int) {
			for k := 0; k < 5; k++ {
				switch i {
				case 0, 1:
					_, resp, err := conn.Request(1, qrpc.NBFlag, gen(uint64(k), 100))
					if err == nil {
						resp.GetFrame()
					}
				case 2:
					if nc := conn.GetReusedCon(); nc != nil {
						nc.LocalAddr()
					}
				case 3:
					conn.IsClosed()
				}
			}
			if i == 3 && round%2 == 0 {
				conn.Close()
			}
		})
		c.Must("calls over a reusable socket", done)
		closeConn(c, conn)
		c.Eval(fmt.Sprint("reused ", srv.Mode, round%2))
	}
	srv.Stop()
}
