package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C20", MinEv: 3000,
		Rule: "one evaluation per call through the API whose answer (which endpoint computed it, from which payload) was judged, per weight distribution, per recovery of an endpoint and per Close; distinct = (job, kind of call, number of endpoints, weights, state of the endpoints, outcome)",
		Jobs: []JobSpec{
			{Name: "mix", Quick: 6, Deep: 50, Fn: c20mix},
			{Name: "weight", Quick: 9, Deep: 45, Fn: c20weight},
			{Name: "outage", Quick: 6, Deep: 50, Fn: c20outage},
			{Name: "close", Quick: 6, Deep: 50, Fn: c20close},
			{Name: "ctx", Quick: 6, Deep: 40, Fn: c20ctx},
		}})
}

// apiWorld is an API over endpoints whose answers name them.
type apiWorld struct {
	c       *C
	r       *Rng
	eps     []*recServer
	names   []string
	weights []int
	runs    sync.Map // hash of payload -> *[n]int64 executions per endpoint
	d       *dialLog
	api     qrpc.API
	key     string
}

func c20answer(i int, p []byte) (uint32, []byte) {
	return 0xb000 + uint32(i), gen(mix(h64(p), uint64(i)), 8+int(h64(p)%1200))
}

// scribbled is what no generated payload looks like.
func scribbled(n int) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = 0xee ^ byte(i*i*37)
	}
	return p
}

func newAPIWorld(c *C, n int, weights []int) *apiWorld {
	w := &apiWorld{c: c, r: c.Rng, weights: weights, d: &dialLog{}}
	var serial int64
	seen := &sync.Map{}
	for i := 0; i < n; i++ {
		i := i
		s := newRecServer(c, &serial, seen)
		s.seen = &sync.Map{}
		s.ans = func(f WFrame, _ int64) WFrame {
			if len(f.Payload) >= 4 && bytes.Equal(f.Payload, scribbled(len(f.Payload))) {
				// c20ctx fills what it passed to calls that have ended
				c.Violate("payload", "endpoint %d got a request of %d bytes its caller wrote after the call had ended", i, len(f.Payload))
			}
			v, _ := w.runs.LoadOrStore(h64(f.Payload), &[8]int64{})
			atomic.AddInt64(&v.(*[8]int64)[i], 1)
			cmd, p := c20answer(i, f.Payload)
			return WFrame{ID: f.ID, Cmd: cmd, Payload: p}
		}
		w.eps = append(w.eps, s)
		w.names = append(w.names, s.addr)
	}
	w.key = fmt.Sprint(n, weights)
	return w
}

func (w *apiWorld) open() {
	conf := qrpc.ConnectionConfig{WriteFrameChSize: w.r.Pick(0, 1, 8), OverlayNetwork: w.d.dial}
	names := append([]string(nil), w.names...)
	weights := append([]int(nil), w.weights...)
	w.c.Do("NewAPI", func() { w.api = qrpc.NewAPI(names, conf, weights) })
	names[0] = "changed by the caller"
	for i := range weights {
		weights[i] = -1 - i
	}
}

func (w *apiWorld) end() {
	w.c.Do("Close of the API", func() { w.api.Close() })
	for _, s := range w.eps {
		s.down()
	}
	w.c.MustUntil("end of the sockets of a closed API", func() bool {
		for _, s := range w.eps {
			if s.open() != 0 {
				return false
			}
		}
		return true
	})
}

// from tells which endpoint computed the frame, -1 if none did.
func (w *apiWorld) from(f *qrpc.Frame, p []byte) int {
	for i := range w.eps {
		cmd, q := c20answer(i, p)
		if uint32(f.Cmd) == cmd {
			if same(f.Payload, q) {
				return i
			}
			return -1
		}
	}
	return -1
}

func (w *apiWorld) payload(r *Rng) []byte { return gen(r.Uint64(), 8+r.Pick(0, 5, 100, 1100, 5000)) }

// call makes one call of the kind and judges its results; it returns the number of answers.
func (w *apiWorld) call(ctx context.Context, r *Rng, kind, ep int, state string) (ok int, err error) {
	c := w.c
	p := w.payload(r)
	done := make(chan struct{})
	var f *qrpc.Frame
	var all map[string]*qrpc.APIResult
	orig := append([]byte(nil), p...)
	go func() {
		defer close(done)
		switch kind {
		case 0:
			f, err = w.api.Call(ctx, 0xc1, p)
		case 1:
			f, err = w.api.CallOne(ctx, w.names[ep], 0xc1, p)
		case 2:
			all = w.api.CallAll(ctx, 0xc1, p)
		}
	}()
	c.Must("call through the API", done)
	if kind == 2 {
		if len(all) != len(w.names) {
			c.Violate("all", "calling all %d endpoints returned %d results", len(w.names), len(all))
		}
		for i, n := range w.names {
			res := all[n]
			if res == nil || (res.Frame == nil) == (res.Err == nil) {
				c.Violate("all", "calling all endpoints returned %+v for %s", res, n)
				continue
			}
			if res.Err != nil {
				err = res.Err
				continue
			}
			ok++
			if got := w.from(res.Frame, orig); got != i {
				c.Violate("endpoint", "the result listed for endpoint %d was computed by %d", i, got)
			}
		}
	} else if err == nil {
		ok = 1
		if f == nil {
			c.Violate("result", "a call returned neither a frame nor an error")
			return
		}
		got := w.from(f, orig)
		if got < 0 || kind == 1 && got != ep {
			c.Violate("endpoint", "call (kind %d) of endpoint %d was answered by %d: cmd %#x %s", kind, ep, got, f.Cmd, brief(f.Payload))
		}
	} else if f != nil {
		c.Violate("result", "a call returned a frame and the error %v", err)
	}
	steady := state == "up" || state == "quiet" || strings.HasPrefix(state, "one live")
	if ok > 0 || err == nil {
		if v, found := w.runs.Load(h64(orig)); found {
			total := 0
			for i := range w.eps {
				n := atomic.LoadInt64(&v.(*[8]int64)[i])
				// a call whose connection is lost meanwhile is repeated on another one
				if n > 1 && (kind != 0 || state == "up") && steady {
					c.Violate("once", "one call (kind %d) was executed %d times by endpoint %d", kind, n, i)
				}
				if n > 0 && kind == 1 && i != ep {
					c.Violate("endpoint", "a call of endpoint %d was executed by endpoint %d", ep, i)
				}
				total += int(n)
			}
			if state == "up" && kind == 0 && total != 1 {
				c.Violate("once", "one call was executed %d times with every endpoint alive", total)
			}
		}
	}
	c.Eval(fmt.Sprint(w.key, " kind ", kind, " ", state, " ", ok))
	return
}

// c20mix: everything is alive, all kinds of calls at once.
func c20mix(c *C) {
	n := c.Rng.Range(1, 5)
	var weights []int
	if c.Rng.P(2, 3) {
		for i := 0; i < n; i++ {
			weights = append(weights, c.Rng.Pick(0, 1, 1, 3, 100))
		}
		weights[c.Rng.Intn(n)] = 2
	}
	w := newAPIWorld(c, n, weights)
	late := c.Rng.P(1, 3) // some endpoints come up after the API
	for i, s := range w.eps {
		if !late || i%2 == 1 {
			s.up()
		}
	}
	w.open()
	for i, s := range w.eps {
		if late && i%2 == 0 {
			s.up()
		}
	}
	done := parallel(8, func(g int) {
		r := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 60 && !c.Violated(); k++ {
			kind := r.Pick(0, 0, 1, 1, 2)
			ctx, cancel := context.Background(), func() {}
			if r.P(1, 2) {
				ctx, cancel = context.WithCancel(ctx)
			}
			ok, err := w.call(ctx, r, kind, r.Intn(n), "up")
			cancel()
			want := 1
			if kind == 2 {
				want = n
			}
			if ok != want {
				c.Violate("alive", "every endpoint is alive, a call (kind %d) had %d answers: %v", kind, ok, err)
			}
			if r.P(1, 10) {
				for _, name := range []string{"", "127.0.0.1:1", w.names[0] + "0", w.names[0][:len(w.names[0])-1]} {
					if f, err := w.api.CallOne(ctx, name, 0xc1, nil); err != qrpc.ErrEndPointNotExists || f != nil {
						c.Violate("unknown", "calling the unknown endpoint %q returned %v %v", name, f, err)
					}
					c.Eval("unknown")
				}
			}
		}
	})
	c.Must("calls through the API", done)
	for i, s := range w.eps {
		if atomic.LoadInt64(&s.accs) > 1 {
			c.Violate("connections", "endpoint %d never failed and got %d connections", i, s.accs)
		}
	}
	w.end()
}

// c20weight: who is chosen how often.
func c20weight(c *C) {
	sets := [][]int{{1, 3}, {0, 1}, {1, 0}, {0, 2, 0, 1}, {5, 1, 1}, {1, 1, 1, 1}, {2, 0, 7}, nil, {0, 0, 0}}
	weights := sets[c.K%len(sets)]
	n := len(weights)
	if n == 0 {
		n = 3
	}
	w := newAPIWorld(c, n, weights)
	for _, s := range w.eps {
		s.up()
	}
	w.open()
	const N = 2000
	done := parallel(8, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < N/8; k++ {
			if ok, err := w.call(context.Background(), rr, 0, 0, "up"); ok != 1 {
				c.Violate("alive", "every endpoint is alive, a call failed: %v", err)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*3, stallTicks*3) {
		c.StallAbort("calls through the API")
	}
	total := 0
	for i := 0; i < n; i++ {
		if weights == nil {
			total++
		} else {
			total += weights[i]
		}
	}
	for i, s := range w.eps {
		wt := 1
		if weights != nil {
			wt = weights[i]
		}
		got := float64(atomic.LoadInt64(&s.frames)) / N
		if total == 0 { // none is preferred
			c.Eval(fmt.Sprint("weight ", weights, i))
			continue
		}
		want := float64(wt) / float64(total)
		if wt == 0 && got != 0 || got < want-0.07 || got > want+0.07 { // more than six standard deviations
			c.Violate("weight", "weights %v: endpoint %d got %.3f of the calls, want %.3f", weights, i, got, want)
		}
		c.Eval(fmt.Sprint("weight ", weights, i))
	}
	w.end()
}

// c20outage: endpoints die and come back.
func c20outage(c *C) {
	r := c.Rng
	n := r.Range(2, 5)
	var weights []int
	if r.P(1, 2) {
		for i := 0; i < n; i++ {
			weights = append(weights, r.Range(1, 4))
		}
		if n > 2 && r.P(1, 2) {
			weights[n-1] = 0
		}
	}
	w := newAPIWorld(c, n, weights)
	for _, s := range w.eps {
		s.up()
	}
	w.open()
	for cycle := 0; cycle < 3 && !c.Violated(); cycle++ {
		live := r.Intn(n)
		stop := make(chan struct{})
		callers := 4
		if r.P(1, 2) {
			callers = 0 // nobody has noticed before the first call
		}
		done := parallel(callers, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(cycle))))
			for !closedCh(stop) {
				w.call(context.Background(), rr, rr.Pick(0, 0, 1, 2), rr.Intn(n), "changing")
			}
		})
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		soft := r.P(1, 4) // only the connections are lost
		for i, s := range w.eps {
			if i != live {
				if soft {
					s.drop()
				} else {
					s.down()
				}
			}
		}
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		close(stop)
		c.Must("calls while endpoints die", done)
		if !soft {
			// the live one is connected: every call to any endpoint has to succeed
			for k := 0; k < 40; k++ {
				ok, err := w.call(context.Background(), r, 0, 0, "one live")
				if ok != 1 {
					c.Violate("alive", "endpoint %d is connected and alive, a call to any endpoint failed: %v", live, err)
				}
			}
			for i := range w.eps {
				ok, err := w.call(context.Background(), r, 1, i, fmt.Sprint("one live ", i == live))
				if (ok == 1) != (i == live) {
					c.Violate("alive", "only endpoint %d is alive, a call to %d: %d answers, %v", live, i, ok, err)
				}
			}
			if ok, err := w.call(context.Background(), r, 2, 0, "one live"); ok != 1 {
				c.Violate("alive", "only endpoint %d is alive, a call to all had %d answers, %v", live, ok, err)
			}
			for i, s := range w.eps {
				if i != live {
					s.up()
				}
			}
		}
		// they are back: named calls reach them, and calls to any endpoint use them
		for i := range w.eps {
			i := i
			c.MustUntil("use of an endpoint that came back", func() bool {
				ok, _ := w.call(context.Background(), r, 1, i, "back")
				return ok == 1 || c.Violated()
			})
			for k := 0; k < 5; k++ {
				if ok, err := w.call(context.Background(), r, 1, i, "up"); ok != 1 {
					c.Violate("back", "endpoint %d is back and worked, the next call failed: %v", i, err)
				}
			}
		}
		before := make([]int64, n)
		for i, s := range w.eps {
			before[i] = atomic.LoadInt64(&s.frames)
		}
		for k := 0; k < 150; k++ {
			if ok, err := w.call(context.Background(), r, 0, 0, "up"); ok != 1 {
				c.Violate("back", "every endpoint is back, a call to any failed: %v", err)
			}
		}
		for i, s := range w.eps {
			used := atomic.LoadInt64(&s.frames) > before[i]
			zero := weights != nil && weights[i] == 0
			if used == zero {
				c.Violate("back", "weights %v: endpoint %d used: %v, after all came back", weights, i, used)
			}
			c.Eval(fmt.Sprint(w.key, " back ", soft))
		}
	}
	w.end()
}

// c20close: Close at any moment.
func c20close(c *C) {
	r := c.Rng
	for round := 0; round < 12 && !c.Violated(); round++ {
		n := r.Range(1, 3)
		w := newAPIWorld(c, n, nil)
		moment := r.Intn(4)
		for i, s := range w.eps {
			if moment != 1 || i > 0 {
				s.up()
			}
		}
		w.open()
		switch moment {
		case 1:
			w.eps[0].up()
		case 2:
			for _, s := range w.eps {
				s.drop()
			}
		case 3:
			for _, s := range w.eps {
				atomic.StoreInt32(&s.mute, 1)
			}
		}
		var closed int32
		stop := make(chan struct{})
		done := parallel(4, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(round))))
			for !closedCh(stop) {
				after := atomic.LoadInt32(&closed) != 0
				ok, err := w.call(context.Background(), rr, rr.Intn(3), rr.Intn(n), "closing")
				if after && (ok > 0 || err == nil) {
					c.Violate("after-close", "a call issued after Close had %d answers", ok)
				}
			}
		})
		time.Sleep(time.Duration(r.Intn(2500)) * time.Microsecond)
		var won int64
		cl := parallel(r.Range(1, 3), func(int) {
			switch err := w.api.Close(); err {
			case nil:
				atomic.AddInt64(&won, 1)
				atomic.StoreInt32(&closed, 1)
			case qrpc.ErrClosed:
			default:
				c.Violate("close-result", "Close: %v", err)
			}
		})
		c.Must("Close of the API", cl)
		begun := atomic.LoadInt64(&w.d.begun)
		if won != 1 {
			c.Violate("close-result", "%d of several concurrent Close calls succeeded", won)
		}
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		close(stop)
		c.Must("calls outstanding at Close of the API", done)
		for k := 0; k < 3; k++ {
			if ok, err := w.call(context.Background(), r, k, r.Intn(n), "closed"); ok > 0 || err == nil {
				c.Violate("after-close", "a call (kind %d) issued after Close had %d answers", k, ok)
			}
		}
		c.Settle(1)
		if now := atomic.LoadInt64(&w.d.begun); now != begun {
			c.Violate("dials", "%d connections were opened after Close", now-begun)
		}
		c.MustUntil("end of the connections of a closed API", func() bool {
			for _, s := range w.eps {
				if s.open() != 0 {
					return false
				}
			}
			return true
		})
		c.Eval(fmt.Sprint("closed ", n, moment))
		for _, s := range w.eps {
			s.down()
		}
	}
}

// c20ctx: calls end with their context, whatever the endpoint does.
func c20ctx(c *C) {
	r := c.Rng
	for round := 0; round < 6 && !c.Violated(); round++ {
		w := newAPIWorld(c, 2, nil)
		how := r.Intn(3)
		gate := make(chan struct{})
		var hold net.Listener
		switch how {
		case 0: // never answers
			atomic.StoreInt32(&w.eps[0].mute, 1)
			w.eps[0].up()
		case 1: // is dialed for ever
		case 2: // never reads
			var err error
			hold, err = net.Listen("tcp", w.eps[0].addr)
			if err != nil {
				panic(err)
			}
		}
		w.eps[1].up()
		w.open()
		if how == 1 {
			w.d.mu.Lock()
			w.d.gate = gate
			w.d.mu.Unlock()
			w.eps[0].up()
		}
		var ends [3]int64
		done := parallel(6, func(g int) {
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(round))))
			for k := 0; k < 8; k++ {
				d := time.Duration(rr.Intn(8000)) * time.Microsecond
				ctx, cancel := context.WithTimeout(context.Background(), d)
				want := context.DeadlineExceeded
				if rr.P(1, 2) {
					cancel()
					ctx, cancel = context.WithCancel(context.Background())
					time.AfterFunc(d, cancel)
					want = context.Canceled
				}
				kind := rr.Intn(3)
				p := w.payload(rr)
				if how == 2 {
					p = gen(rr.Uint64(), 3<<20)
				}
				fin := make(chan struct{})
				var err error
				var all map[string]*qrpc.APIResult
				go func() {
					defer close(fin)
					switch kind {
					case 0:
						_, err = w.api.Call(ctx, 0xc1, p)
					case 1:
						_, err = w.api.CallOne(ctx, w.names[0], 0xc1, p)
					case 2:
						all = w.api.CallAll(ctx, 0xc1, p)
						if len(all) != 2 {
							c.Violate("all", "calling all 2 endpoints returned %d results", len(all))
						} else {
							err = all[w.names[0]].Err
						}
					}
				}()
				c.Must(fmt.Sprintf("api call (kind %d) whose context has ended, endpoint state %d", kind, how), fin)
				copy(p, scribbled(len(p))) // the payload is the caller's again
				if kind != 0 && !errors.Is(err, want) {
					c.Violate("ctx", "a call (kind %d, endpoint state %d) whose context ended returned %v", kind, how, err)
				}
				atomic.AddInt64(&ends[kind], 1)
				c.Eval(fmt.Sprint("ctx ", how, kind, want))
				cancel()
				// the other endpoint is not held up
				if rr.P(1, 3) {
					cctx, ccancel := context.WithTimeout(context.Background(), time.Hour)
					ok, err := w.call(cctx, rr, 1, 1, "other stuck")
					ccancel()
					if ok != 1 {
						c.Violate("other", "endpoint 0 is stuck (%d), a call to endpoint 1 failed: %v", how, err)
					}
				}
			}
		})
		c.Must("calls with contexts", done)
		if how == 1 {
			w.d.mu.Lock()
			w.d.gate = nil
			w.d.mu.Unlock()
		}
		close(gate)
		if how == 1 {
			c.MustUntil("use of an endpoint whose dialing took long", func() bool {
				ok, _ := w.call(context.Background(), r, 1, 0, "dialed")
				return ok == 1 || c.Violated()
			})
			c.Settle(2)
		}
		if how == 0 {
			atomic.StoreInt32(&w.eps[0].mute, 0)
			if ok, err := w.call(context.Background(), r, 1, 0, "up"); ok != 1 {
				c.Violate("back", "endpoint 0 answers again, a call failed: %v", err)
			}
		}
		if hold != nil {
			hold.Close()
		}
		// what was sent for calls that ended must still be whole frames of theirs
		w.end()
	}
}
