package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/channel"
)

func init() {
	register(&Prop{ID: "C21", MinEv: 4000,
		Rule: "one evaluation per message received on a pipe (position, command and value judged), per end of a pipe, per refused Send and per Receive ended by its context; distinct = (job, who opened, who sent, kind of message, way of ending, position first/middle/last, whether the command was asked for)",
		Jobs: []JobSpec{
			{Name: "pipes", Quick: 10, Deep: 80, Fn: func(c *C) { c21run(c, false) }},
			{Name: "ctx", Quick: 6, Deep: 40, Fn: func(c *C) { c21run(c, true) }},
			{Name: "loss", Quick: 4, Deep: 30, Fn: c21loss},
		}})
}

// c21bin marshals itself, not in JSON.
type c21bin struct {
	A uint64
	B []byte
}

func (m *c21bin) Marshal() ([]byte, error) {
	if m.A == 0 {
		return nil, nil
	}
	b := make([]byte, 8, 8+len(m.B))
	binary.BigEndian.PutUint64(b, m.A)
	return append(b, m.B...), nil
}

func (m *c21bin) Unmarshal(b []byte) error {
	*m = c21bin{}
	if len(b) == 0 {
		return nil
	}
	if len(b) < 8 {
		return errors.New("short")
	}
	m.A = binary.BigEndian.Uint64(b)
	if len(b) > 8 {
		m.B = append([]byte(nil), b[8:]...)
	}
	return nil
}

type c21inner struct {
	S string            `json:"s"`
	M map[string]int64  `json:"m,omitempty"`
	P *c21inner         `json:"p,omitempty"`
	F []float64         `json:"f"`
	R json.RawMessage   `json:"r,omitempty"`
	E map[string]string `json:"e"`
}

// c21fail cannot be marshalled.
type c21fail struct{}

func (c21fail) Marshal() ([]byte, error) { return nil, errors.New("does not marshal") }

// c21script is the first message of every pipe: both sides derive the rest from it.
type c21script struct {
	Seed  uint64
	Up    int // messages from the opener after the script
	Down  int
	UpEnd int // 0: with the last message, 1: End
	DnEnd int
	Ack   bool // strictly alternating
}

// c21msg is message i of a direction: its command, value and a fresh target to receive into.
func c21msg(seed uint64, down bool, i int) (cmd qrpc.Cmd, v, into interface{}, kind int) {
	d := uint64(0)
	if down {
		d = 7
	}
	h := mix(seed, d, uint64(i))
	cmd = qrpc.Cmd(h>>8) & 0xffffff
	if !down && i == 0 {
		panic("the script is separate")
	}
	kind = int(h % 8)
	switch kind {
	case 0:
		s := fmt.Sprintf("%x é世\u0000\u2028<&> %d", h, i)
		return cmd, s, new(string), kind
	case 1:
		return cmd, int64(h), new(int64), kind
	case 2:
		return cmd, gen(h, int(h>>20%3000)+1), new([]byte), kind
	case 3:
		v := c21inner{S: fmt.Sprint(h), M: map[string]int64{"a": int64(h), "b": -1}, F: []float64{float64(h), 0.1, -3e300},
			P: &c21inner{S: "inner", E: map[string]string{"": "x"}}, R: json.RawMessage(`[1,2]`)}
		return cmd, v, new(c21inner), kind
	case 4:
		return cmd, &c21bin{A: h | 1, B: gen(h, smallSizes[int(h>>30)%len(smallSizes)])}, new(c21bin), kind
	case 5:
		return cmd, &c21bin{}, new(c21bin), kind
	case 6:
		return cmd, []int{int(h & 0xffff), i}, new([]int), kind
	default:
		return cmd, h&1 == 0, new(bool), kind
	}
}

// c21same compares what was sent with the target received into.
func c21same(v, into interface{}) bool {
	got := reflect.ValueOf(into).Elem().Interface()
	want := v
	if reflect.TypeOf(v).Kind() == reflect.Ptr {
		want = reflect.ValueOf(v).Elem().Interface()
	}
	if w, ok := want.(c21bin); ok && len(w.B) == 0 {
		w.B = nil
		want = w
	}
	return reflect.DeepEqual(want, got)
}

type c21world struct {
	c    *C
	rev  bool
	ctxs bool
	key  string
	lost int32 // the connection may be gone
	act  int64
}

// send sends messages from..n of a direction and ends it; it returns false on failure.
func (w *c21world) send(s channel.Sender, sc c21script, down bool, r *Rng, step, stepDone chan struct{}) bool {
	n, how := sc.Up, sc.UpEnd
	if down {
		n, how = sc.Down, sc.DnEnd
	}
	c := w.c
	fail := func(what string, err error) bool {
		if atomic.LoadInt32(&w.lost) == 0 {
			c.Violate("send", "%s (%s, down %v): %v", what, w.key, down, err)
		}
		return false
	}
	for i := 1; i <= n; i++ {
		if step != nil {
			<-step
		}
		cmd, v, _, _ := c21msg(sc.Seed, down, i)
		if r.P(1, 8) { // what cannot be marshalled is refused and leaves nothing
			if err := s.Send(context.Background(), cmd, c21fail{}, r.P(1, 2)); err == nil {
				c.Violate("send", "a message that does not marshal was sent")
			}
			if err := s.Send(context.Background(), cmd, make(chan int), false); err == nil {
				c.Violate("send", "a message that has no JSON was sent")
			}
		}
		if err := s.Send(context.Background(), cmd, v, how == 0 && i == n); err != nil {
			return fail(fmt.Sprintf("Send %d of %d", i, n), err)
		}
		if stepDone != nil {
			stepDone <- struct{}{}
		}
		if r.P(1, 10) {
			time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
		}
	}
	if how == 1 || n == 0 {
		if err := s.End(); err != nil {
			return fail("End", err)
		}
	}
	// it is over
	for k := 0; k < 2; k++ {
		if err := s.Send(context.Background(), 0x55, "too late", k == 1); err == nil {
			c.Violate("send-after-end", "Send after the end (%s, down %v, way %d) succeeded", w.key, down, how)
		}
		c.Eval(fmt.Sprint(w.key, " refused ", down, how))
	}
	return true
}

// recvOne receives one message, retrying when a context ended.
func (w *c21world) recvOne(r channel.Receiver, rng *Rng, cmd *qrpc.Cmd, into interface{}) error {
	for {
		ctx, cancel := context.Background(), func() {}
		want := error(nil)
		if w.ctxs && rng.P(2, 3) {
			d := time.Duration(rng.Intn(600)) * time.Microsecond
			if rng.P(1, 2) {
				ctx, cancel = context.WithTimeout(ctx, d)
				want = context.DeadlineExceeded
			} else {
				ctx, cancel = context.WithCancel(ctx)
				time.AfterFunc(d, cancel)
				want = context.Canceled
			}
		}
		var err error
		done := make(chan struct{})
		go func() { defer close(done); err = r.Receive(ctx, cmd, into) }()
		w.c.Must(fmt.Sprintf("Receive (context ended: %v, %s)", ctx.Err(), w.key), done)
		cancel()
		if want != nil && err == want {
			w.c.Eval(w.key + " ctx")
			continue
		}
		return err
	}
}

// recv receives one direction up to its end.
func (w *c21world) recv(r channel.Receiver, sc c21script, down bool, rng *Rng, each func(i int)) bool {
	c := w.c
	n, how := sc.Up, sc.UpEnd
	if down {
		n, how = sc.Down, sc.DnEnd
	}
	for i := 1; i <= n; i++ {
		wantCmd, v, into, kind := c21msg(sc.Seed, down, i)
		var cmd qrpc.Cmd
		pc := &cmd
		if mix(sc.Seed, 99, uint64(i))%3 == 0 {
			pc = nil
		}
		err := w.recvOne(r, rng, pc, into)
		if err != nil {
			if atomic.LoadInt32(&w.lost) == 0 {
				c.Violate("receive", "message %d of %d (%s, down %v, kind %d): %v", i, n, w.key, down, kind, err)
			}
			return false
		}
		if pc != nil && cmd != wantCmd {
			c.Violate("cmd", "message %d of %d (%s, down %v) has cmd %#x want %#x", i, n, w.key, down, cmd, wantCmd)
		}
		if !c21same(v, into) {
			c.Violate("value", "message %d of %d (%s, down %v, kind %d): sent %+v received %+v", i, n, w.key, down, kind, v, reflect.ValueOf(into).Elem().Interface())
			return false
		}
		pos := "middle"
		if i == 1 {
			pos = "first"
		} else if i == n {
			pos = "last"
		}
		c.Eval(fmt.Sprint(w.key, down, kind, how, pos, pc != nil))
		if each != nil {
			each(i)
		}
	}
	for k := 0; k < 2; k++ {
		var x json.RawMessage
		err := w.recvOne(r, rng, nil, &x)
		if err != channel.ErrStreamFinished {
			if atomic.LoadInt32(&w.lost) == 0 {
				c.Violate("end", "after the last of %d messages (%s, down %v, way %d) Receive returned %v, %s", n, w.key, down, how, err, x)
			}
			return false
		}
		c.Eval(fmt.Sprint(w.key, " finished ", down, how))
	}
	return true
}

var c21served int64

// serve is the accepting side of a pipe.
func (w *c21world) serve(s channel.Sender, r channel.Receiver, _ channel.Transport) {
	c := w.c
	atomic.AddInt64(&w.act, 1)
	defer atomic.AddInt64(&w.act, -1)
	var sc c21script
	var cmd qrpc.Cmd
	n := atomic.AddInt64(&c21served, 1)
	for k := n % 4; k >= 0; k-- { // a Receive whose context has ended takes a message or leaves it
		ctx, cancel := context.WithCancel(context.Background())
		if k > 0 {
			cancel()
		}
		err := r.Receive(ctx, &cmd, &sc)
		cancel()
		if err == nil {
			break
		}
		if k == 0 || err != context.Canceled {
			c.Violate("receive", "the first message (%d ended contexts before): %v", n%4-k, err)
			return
		}
	}
	if cmd != qrpc.Cmd(0xc2) {
		c.Violate("cmd", "the first message has cmd %#x", cmd)
	}
	rng := NewRng(int64(sc.Seed >> 1))
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); w.send(s, sc, true, rng.Fork(), nil, nil) }()
	w.recv(r, sc, false, rng.Fork(), nil)
	wg.Wait()
}

// pipe is the opening side.
func (w *c21world) pipe(t channel.Transport, rng *Rng) bool {
	c := w.c
	s, r, err := t.Pipe()
	if err != nil {
		if atomic.LoadInt32(&w.lost) == 0 {
			c.Violate("pipe", "Pipe: %v", err)
		}
		return false
	}
	var x string
	if err := r.Receive(context.Background(), nil, &x); err == nil {
		c.Violate("receive", "Receive on a pipe that nobody sent on: %q", x)
	}
	sc := c21script{Seed: rng.Uint64(), Up: rng.Pick(0, 1, 2, 5, 40), Down: rng.Pick(1, 2, 5, 40), UpEnd: rng.Intn(2), DnEnd: rng.Intn(2)}
	if sc.Up == 0 && sc.UpEnd == 0 { // the script is the last message
		err = s.Send(context.Background(), 0xc2, sc, true)
	} else {
		err = s.Send(context.Background(), 0xc2, sc, false)
	}
	if err != nil {
		if atomic.LoadInt32(&w.lost) == 0 {
			c.Violate("send", "the first Send: %v", err)
		}
		return false
	}
	var wg sync.WaitGroup
	okS := true
	wg.Add(1)
	rs := rng.Fork()
	go func() {
		defer wg.Done()
		if sc.Up == 0 && sc.UpEnd == 0 {
			if err := s.Send(context.Background(), 0x55, "too late", false); err == nil {
				c.Violate("send-after-end", "Send after the end (%s, first message) succeeded", w.key)
			}
			return
		}
		okS = w.send(s, sc, false, rs, nil, nil)
	}()
	okR := w.recv(r, sc, true, rng.Fork(), nil)
	wg.Wait()
	return okS && okR
}

func c21run(c *C, ctxs bool) {
	rev := c.K%2 == 1
	mode := []string{"tcp", "ws", "tls", "wss"}[c.K/2%4]
	w := &c21world{c: c, rev: rev, ctxs: ctxs, key: fmt.Sprint("rev ", rev, " ", mode)}
	p := newPair(c, pairOpt{rev: rev, mode: mode, conf: qrpc.ConnectionConfig{WriteFrameChSize: c.Rng.Pick(0, 1, 6)}},
		channel.NewQRPCHandler(channel.HandlerFunc(w.serve)))
	t := channel.NewTransport(p.open.(qrpc.StreamInitiator))
	done := parallel(8, func(g int) {
		r := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 10 && !c.Violated(); k++ {
			w.pipe(t, r)
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("concurrent pipes")
	}
	c.MustUntil("end of the handlers of finished pipes", func() bool { return atomic.LoadInt64(&w.act) == 0 })
	p.stop()
	if _, _, err := t.Pipe(); err == nil && !rev {
		c.Violate("pipe", "Pipe over a closed connection succeeded")
	}
}

// c21loss: the connection ends under the pipes.
func c21loss(c *C) {
	rev := c.K%2 == 1
	for round := 0; round < 6 && !c.Violated(); round++ {
		w := &c21world{c: c, rev: rev, key: fmt.Sprint("loss ", rev)}
		var mu sync.Mutex
		var socks []net.Conn
		wrap := func(_ int, nc net.Conn) net.Conn {
			mu.Lock()
			socks = append(socks, nc)
			mu.Unlock()
			return nc
		}
		p := newPair(c, pairOpt{rev: rev, wrapS: wrap, conf: qrpc.ConnectionConfig{WriteFrameChSize: c.Rng.Pick(0, 1, 6)}},
			channel.NewQRPCHandler(channel.HandlerFunc(w.serve)))
		t := channel.NewTransport(p.open.(qrpc.StreamInitiator))
		var full int64
		done := parallel(5, func(g int) {
			r := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(round))))
			for k := 0; k < 6; k++ {
				if w.pipe(t, r) {
					atomic.AddInt64(&full, 1)
				}
			}
		})
		time.Sleep(time.Duration(c.Rng.Intn(6000)) * time.Microsecond)
		atomic.StoreInt32(&w.lost, 1)
		if c.Rng.P(1, 2) {
			p.conn.Close()
		} else {
			mu.Lock()
			for _, nc := range socks {
				nc.Close()
			}
			mu.Unlock()
		}
		c.Must("pipes of a lost connection", done)
		c.MustUntil("end of the handlers of a lost connection", func() bool { return atomic.LoadInt64(&w.act) == 0 })
		c.Eval(fmt.Sprint("loss ", rev, full > 0))
		p.stop()
	}
}
