package main

import (
	"errors"
	"fmt"
	"net"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-kit/kit/metrics"
	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C29", MinEv: 1500,
		Rule: "one evaluation per request that reached a handler, per connection ended and per takeover, each compared with what the metrics received; distinct = (transport, metrics configured, outcome of the handler, kind of request, way the connection ended)",
		Notes: []string{"every request has a command of its own, so that each count and each latency is tied to one request",
			"latencies are compared with the time spent inside the handler (at least) and since the request was issued (at most)"},
		Jobs: []JobSpec{
			{Name: "requests", Quick: 12, Deep: 100, Fn: c29requests},
			{Name: "connections", Quick: 6, Deep: 60, Fn: c29conns},
			{Name: "takeovers", Quick: 4, Deep: 40, Fn: c29takeovers},
		}})
}

// recMetric records what a counter or a histogram is told.
type recMetric struct {
	mu   *sync.Mutex
	obs  map[string][]recObs // by method
	bad  *[]string
	lvs  []string
	slow *Rng
}

type recObs struct {
	err string
	v   float64
	at  time.Time
}

func newRecMetric(slow *Rng) *recMetric {
	return &recMetric{mu: &sync.Mutex{}, obs: map[string][]recObs{}, bad: &[]string{}, slow: slow}
}

func (m *recMetric) with(lvs []string) *recMetric {
	n := *m
	n.lvs = append(append([]string(nil), m.lvs...), lvs...)
	return &n
}

func (m *recMetric) add(v float64) {
	if m.slow != nil && m.slow.P(1, 8) {
		time.Sleep(time.Duration(m.slow.Intn(2000)) * time.Microsecond)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	l := map[string]string{}
	for i := 0; i+1 < len(m.lvs); i += 2 {
		l[m.lvs[i]] = m.lvs[i+1]
	}
	if len(m.lvs) != 4 || len(l) != 2 || l["method"] == "" || l["error"] == "" {
		*m.bad = append(*m.bad, fmt.Sprint(m.lvs))
		return
	}
	m.obs[l["method"]] = append(m.obs[l["method"]], recObs{l["error"], v, time.Now()})
}

func (m *recMetric) get(method string) []recObs {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]recObs(nil), m.obs[method]...)
}

func (m *recMetric) methods() (out []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k := range m.obs {
		out = append(out, k)
	}
	return
}

type recCounter struct{ *recMetric }

func (c recCounter) With(lvs ...string) metrics.Counter { return recCounter{c.with(lvs)} }
func (c recCounter) Add(v float64)                      { c.add(v) }

type recHist struct{ *recMetric }

func (h recHist) With(lvs ...string) metrics.Histogram { return recHist{h.with(lvs)} }
func (h recHist) Observe(v float64)                    { h.add(v) }

// what became of one request at the handler
type ran struct {
	label  string
	inside time.Duration
	issued time.Time
}

type book29 struct {
	mu   sync.Mutex
	ran  map[string][]ran
	sent map[uint32]time.Time
}

type oddValue struct{ A, B int }

type panicky struct{}

func (panicky) Error() string { panic("no text") }

var c29panics = []struct {
	v     interface{}
	label string
}{
	{"a string", "a string"}, {errors.New("an error"), "an error"}, {42, "42"}, {oddValue{1, 2}, "{1 2}"}, {[]byte("ab"), "[97 98]"},
	{true, "true"}, {"", ""}, {"<nil>", "<nil>"}, {"%d %s", "%d %s"}, {panicky{}, "%!v(PANIC=Error method: no text)"},
}

// c29handler does what the first payload byte says and writes down what it did.
func c29handler(c *C, b *book29, r *Rng) qrpc.HandlerFunc {
	return func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		begin := time.Now()
		label := "<nil>"
		method := strconv.Itoa(int(q.Cmd))
		cmd := uint32(q.Cmd)
		defer func() {
			b.mu.Lock()
			b.ran[method] = append(b.ran[method], ran{label, time.Since(begin), b.sent[cmd]})
			b.mu.Unlock()
		}()
		if len(q.Payload) == 0 {
			answer(w, q)
			return
		}
		switch k := q.Payload[0] % 12; k {
		case 0:
			time.Sleep(time.Duration(q.Payload[0]) * 100 * time.Microsecond)
			answer(w, q)
		case 1: // nothing
		case 2:
			p := c29panics[int(q.Payload[0])%len(c29panics)]
			if p.label != "" {
				label = p.label
				panic(p.v)
			}
			answer(w, q)
		case 3:
			p := c29panics[int(q.Payload[0])%len(c29panics)]
			answer(w, q)
			if p.label != "" {
				label = p.label
				panic(p.v)
			}
		case 4:
			c27drain((*qrpc.Frame)(q))
			answer(w, q)
		case 5:
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.EndWrite()
			label = "halfway"
			panic("halfway")
		case 6:
			w.ResetFrame(q.RequestID, 1)
		case 7:
			// a stream that is not read holds up the answer
			if q.Flags.IsNonBlock() && !q.Flags.IsStream() {
				_, resp, err := q.ConnectionInfo().Request(1, qrpc.NBFlag, nil)
				if err == nil {
					resp.GetFrame()
				}
			}
			answer(w, q)
		case 8:
			if q.Payload[0] > 200 {
				q.Close()
				return
			}
			answer(w, q)
		case 9:
			if q.Flags.IsNonBlock() {
				// the goroutine of the handler ends, nothing else
				runtime.Goexit()
			}
		default:
			answer(w, q)
		}
	}
}

// c29check compares what the handlers did with what the metrics were told.
func c29check(c *C, key string, b *book29, cnt, lat *recMetric, final bool) {
	b.mu.Lock()
	want := map[string][]ran{}
	for k, v := range b.ran {
		want[k] = append([]ran(nil), v...)
	}
	b.mu.Unlock()
	for i, m := range []*recMetric{cnt, lat} {
		if m == nil {
			continue
		}
		what := []string{"count", "latency"}[i]
		for k, rs := range want {
			if !c.Until(func() bool { return len(m.get(k)) >= len(rs) }) {
				c.Violate("missing-"+what, "%s: command %s was handled %d times, %d %ss", key, k, len(rs), len(m.get(k)), what)
				return
			}
		}
		if final {
			c.Settle(3)
		}
		for _, k := range m.methods() {
			if _, err := strconv.Atoi(k); err != nil {
				continue
			}
			os := m.get(k)
			rs := want[k]
			if len(os) != len(rs) {
				if !final {
					continue // handled after the copy was made
				}
				c.Violate("extra-"+what, "%s: command %s was handled %d times, %d %ss", key, k, len(rs), len(os), what)
				return
			}
			for j, o := range os {
				if len(os) == 1 {
					if o.err != rs[j].label {
						c.Violate("label-"+what, "%s: the handler of command %s ended with %q, the %s is labelled %q", key, k, rs[j].label, what, o.err)
						return
					}
					if what == "latency" && (o.v < rs[j].inside.Seconds() || o.v > o.at.Sub(rs[j].issued).Seconds()) {
						c.Violate("latency-value", "%s: command %s spent %v in the handler, and %v passed since it was issued, observed %v", key, k, rs[j].inside, o.at.Sub(rs[j].issued), o.v)
						return
					}
				}
				if what == "count" && o.v != 1 {
					c.Violate("count-value", "%s: %v was added for command %s", key, o.v, k)
				}
			}
		}
		m.mu.Lock()
		if len(*m.bad) > 0 {
			c.Violate("labels", "%s: unexpected labels %v", key, *m.bad)
		}
		m.mu.Unlock()
	}
}

func c29requests(c *C) {
	r := c.Rng
	mode := c28modes[c.K%4]
	conf := []string{"both", "counter", "latency"}[(c.K/4+int(baseSeed()))%3]
	type bind struct {
		b        *book29
		cnt, lat *recMetric
	}
	var binds []*bind
	var bs []qrpc.ServerBinding
	for i := 0; i < 2; i++ {
		x := &bind{b: &book29{ran: map[string][]ran{}, sent: map[uint32]time.Time{}}}
		b := qrpc.ServerBinding{Handler: c29handler(c, x.b, r), ReadFrameChSize: r.Pick(0, 3), MaxInboundInflightStreamPerConn: int32(r.Pick(0, 1000))}
		var slow *Rng
		if r.P(1, 2) {
			slow = r.Fork()
		}
		if conf != "latency" {
			x.cnt = newRecMetric(slow)
			b.CounterMetric = recCounter{x.cnt}
		}
		if conf != "counter" {
			x.lat = newRecMetric(slow)
			b.LatencyMetric = recHist{x.lat}
		}
		binds, bs = append(binds, x), append(bs, b)
	}
	srv := startServer(c, mode, nil, bs...)
	var cmd uint32 = uint32(r.Intn(1000000))
	for round := 0; round < 3 && !c.Violated(); round++ {
		rngs := make([]*Rng, 6)
		for i := range rngs {
			rngs[i] = r.Fork()
		}
		done := parallel(len(rngs), func(g int) {
			rr := rngs[g]
			bi := g % 2
			x := binds[bi]
			newConn := func() *qrpc.Connection {
				return srv.dialTo(bi, qrpc.ConnectionConfig{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) { answer(w, q) })}, nil)
			}
			conn := newConn()
			for i := 0; i < 45 && !c.Violated(); i++ {
				n := atomic.AddUint32(&cmd, 1) | uint32(rr.Pick(0, 0, 0x100000, 0x200000, 0x400000, 0x800000, 0xf00000))
				pl := gen(rr.Uint64(), rr.Pick(0, 1, 1, 1, 30, 2000))
				kind := "other"
				if len(pl) > 0 {
					kind = fmt.Sprint(pl[0] % 12)
				} else {
					kind = "empty"
				}
				x.b.mu.Lock()
				x.b.sent[n] = time.Now()
				x.b.mu.Unlock()
				flags := qrpc.FrameFlag(rr.Pick(0, int(qrpc.NBFlag)))
				var resp qrpc.Response
				var err error
				streamed := rr.P(1, 4)
				if streamed {
					var sw qrpc.StreamWriter
					sw, resp, err = conn.StreamRequest(qrpc.Cmd(n), flags, pl)
					if err == nil {
						sw.StartWrite(2)
						sw.EndWrite(true)
					}
				} else {
					_, resp, err = conn.Request(qrpc.Cmd(n), flags, pl)
				}
				c.Eval(fmt.Sprint(mode, conf, " ", kind, flags, streamed))
				if err != nil || rr.P(1, 25) {
					conn.Close()
					conn = newConn()
					continue
				}
				if rr.P(1, 3) {
					continue // do not wait for the answer
				}
				f, err := resp.GetFrame()
				if err == nil && kind != "5" {
					rc, rp := respFor(n, pl)
					if uint32(f.Cmd) != rc || !same(f.Payload, rp) {
						c.Violate("answer", "%s: wrong answer to command %d", mode, n)
					}
				}
				if err == nil {
					go c27drain(f)
				}
			}
			conn.Close()
		})
		if !c.waitAtLeast(done, 2*stallWall, 2*stallTicks) {
			c.StallAbort("requests")
		}
		for i, x := range binds {
			c29check(c, fmt.Sprintf("%s %s binding %d", mode, conf, i), x.b, x.cnt, x.lat, false)
		}
	}
	srv.Stop()
	total := int64(0)
	for i, x := range binds {
		c29check(c, fmt.Sprintf("%s %s binding %d at the end", mode, conf, i), x.b, x.cnt, x.lat, true)
		x.b.mu.Lock()
		for _, v := range x.b.ran {
			total += int64(len(v))
		}
		x.b.mu.Unlock()
	}
	c.Count("handlers_compared_with_metrics", total)
	if total < 300 {
		c.Violate("coverage", "only %d requests reached a handler", total)
	}
}

// c29conns: connections that end in every way are counted once each.
func c29conns(c *C) {
	r := c.Rng
	mode := []string{"tcp", "tls", "ws", "wss"}[c.K%4]
	for round := 0; round < 2 && !c.Violated(); round++ {
		m := newRecMetric(nil)
		var accepted int64
		srv := startServer(c, mode, nil, qrpc.ServerBinding{CounterMetric: recCounter{m}, MaxFrameSize: 5000, MaxInboundFramePerSecond: r.Pick(0, 0, 40), ReadFrameChSize: r.Pick(0, 2),
			Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
				switch q.Cmd {
				case tcClose:
					q.Close()
				case tcSet:
					q.ConnectionInfo().ReaderConfig().SetReadTimeout(1)
					answer(w, q)
				case tcSilent:
					<-q.Context().Done()
				default:
					answer(w, q)
				}
			})})
		var ways []string
		n := 14
		var conns []*qrpc.Connection
		for i := 0; i < n; i++ {
			way := []string{"client", "oversize", "handler", "limit", "shutdown", "silent-nb", "silent-b", "burst", "raw-cut", "raw-rst", "raw-bad"}[r.Intn(11)]
			if mode != "tcp" && len(way) > 3 && way[:3] == "raw" {
				way = "client"
			}
			if len(way) > 3 && way[:3] == "raw" {
				p := dialRaw(c, srv.Addrs[0])
				b := WFrame{ID: 1, Flags: fNB, Cmd: tcEcho, Payload: gen(1, 50)}.Bytes()
				switch way {
				case "raw-cut":
					p.nc.Write(b[:r.Intn(len(b))])
				case "raw-rst":
					p.nc.Write(b)
					p.nc.(*net.TCPConn).SetLinger(0)
				case "raw-bad":
					p.nc.Write([]byte{0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1})
				}
				// the server has accepted it
				accepted++
				c.MustUntil("acceptance", func() bool { return atomic.LoadInt64(&srv.Lns[0].accepted) >= accepted })
				p.Close()
				ways = append(ways, way)
				continue
			}
			conn := srv.dial(qrpc.ConnectionConfig{}, nil)
			accepted++
			conns = append(conns, conn)
			c.call(conn, tcEcho, qrpc.NBFlag, gen(3, 10))
			switch way {
			case "client":
				conn.Close()
			case "oversize":
				conn.Request(tcEcho, qrpc.NBFlag, make([]byte, 6000))
			case "handler":
				conn.Request(tcClose, qrpc.FrameFlag(r.Pick(0, int(qrpc.NBFlag))), nil)
			case "limit":
				conn.Request(tcSet, 0, nil)
			case "silent-nb":
				conn.Request(tcSilent, qrpc.NBFlag, nil)
				conn.Close()
			case "silent-b":
				conn.Request(tcSilent, 0, nil) // until the shutdown
			case "burst":
				for k := 0; k < 60; k++ {
					conn.Request(tcEcho, qrpc.NBFlag, nil)
				}
				conn.Close()
			}
			ways = append(ways, way)
			c.Eval(fmt.Sprint(mode, " ", way))
		}
		time.Sleep(time.Duration(r.Intn(1200)) * time.Millisecond)
		srv.Stop()
		if !c.Until(func() bool { return len(m.get("readFrames")) >= int(accepted) }) {
			c.Violate("ends-missing", "%s: %d connections ended, %d ends were counted (%v)", mode, accepted, len(m.get("readFrames")), ways)
			return
		}
		c.Settle(5)
		ends := m.get("readFrames")
		if len(ends) != int(accepted) {
			c.Violate("ends-extra", "%s: %d connections ended, %d ends were counted (%v)", mode, accepted, len(ends), ways)
		}
		for _, o := range ends {
			if o.v != 1 || o.err == "" {
				c.Violate("ends-value", "%s: the end of a connection was counted as %v with error %q", mode, o.v, o.err)
			}
			c.Eval("end")
		}
		if k := m.get("kickoff"); len(k) > 0 {
			c.Violate("takeovers-extra", "%s: %d takeovers counted, there was none", mode, len(k))
		}
		for _, conn := range conns {
			conn.Close()
		}
		c.Count("ends_counted", int64(len(ends)))
	}
}

// c29takeovers: every connection that lost its id is counted once.
func c29takeovers(c *C) {
	r := c.Rng
	mode := []string{"tcp", "ws"}[c.K%2]
	m := newRecMetric(nil)
	var sets int64
	b := qrpc.ServerBinding{CounterMetric: recCounter{m}, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Cmd == tcSet {
			q.ConnectionInfo().SetID(string(q.Payload))
			atomic.AddInt64(&sets, 1)
		}
		answer(w, q)
	})}
	if r.P(1, 2) {
		b.OnKickCB = func(w qrpc.FrameWriter) {
			w.StartWrite(2, 1, qrpc.PushFlag)
			w.EndWrite()
		}
	}
	srv := startServer(c, mode, nil, b)
	want := 0
	for round := 0; round < 4 && !c.Violated(); round++ {
		n := r.Range(2, 9)
		id := fmt.Sprint("id", round)
		var conns []*qrpc.Connection
		for i := 0; i < n; i++ {
			conns = append(conns, srv.dial(qrpc.ConnectionConfig{}, func(*qrpc.Connection, *qrpc.Frame) {}))
		}
		before := atomic.LoadInt64(&sets)
		if round%2 == 0 {
			for i, conn := range conns {
				conn.Request(tcSet, 0, []byte(id))
				c.MustUntil("SetID", func() bool { return atomic.LoadInt64(&sets) == before+int64(i)+1 })
				if i == 0 {
					if k := len(m.get("kickoff")); k != want {
						c.Violate("takeovers-extra", "%s: %d takeovers counted, there were %d", mode, k, want)
					}
				}
			}
		} else {
			c.Must("SetID", parallel(n, func(i int) { conns[i].Request(tcSet, qrpc.FrameFlag(int(qrpc.NBFlag)*(i%2)), []byte(id)) }))
			c.MustUntil("SetID", func() bool { return atomic.LoadInt64(&sets) == before+int64(n) })
		}
		want += n - 1
		if !c.Until(func() bool { return len(m.get("kickoff")) >= want }) {
			c.Violate("takeovers-missing", "%s: %d takeovers, %d were counted", mode, want, len(m.get("kickoff")))
			return
		}
		c.Settle(2)
		if k := m.get("kickoff"); len(k) != want {
			c.Violate("takeovers-extra", "%s: %d takeovers, %d were counted", mode, want, len(k))
		}
		for i := 0; i < n; i++ {
			c.Eval(fmt.Sprint("takeover ", mode, round%2, b.OnKickCB != nil))
		}
		// one is left
		left := 0
		c.Until(func() bool {
			left = 0
			for _, conn := range conns {
				if !conn.IsClosed() {
					left++
				}
			}
			return left == 1
		})
		if left != 1 {
			c.Violate("takeovers-left", "%s: %d of %d connections with the same id are left", mode, left, n)
		}
		for _, conn := range conns {
			conn.Close()
		}
		c.MustUntil("the id is free", func() bool { return srv.S.GetConnectionInfoByID(0, id) == nil })
	}
	if got := len(m.get("readFrames")); got > 0 {
		c.Count("ends_seen", int64(got))
	}
	srv.Stop()
	c.Count("takeovers", int64(want))
}
