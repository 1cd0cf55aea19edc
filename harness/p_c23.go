package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	"github.com/zhiqiangxu/qrpc/codegen"
	"github.com/zhiqiangxu/qrpc/codegen/pb"
)

func init() {
	register(&Prop{ID: "C23", MinEv: 5000,
		Rule: "one evaluation per service call whose result was compared with what the named method makes of the input, per failing, unknown or malformed call, per call ended by its context and per envelope encoded and decoded by two implementations; distinct = (job, kind of method, kind of name, input bucket, number and state of the addresses, outcome)",
		Jobs: []JobSpec{
			{Name: "calls", Quick: 6, Deep: 50, Fn: c23calls},
			{Name: "failing", Quick: 5, Deep: 40, Fn: c23failing},
			{Name: "failover", Quick: 5, Deep: 40, Fn: c23failover},
			{Name: "ctx", Quick: 6, Deep: 40, Fn: c23ctx},
			{Name: "raw", Quick: 4, Deep: 30, Fn: c23raw},
			{Name: "envelope", Quick: 4, Deep: 40, Fn: c23envelope},
		}})
}

const (
	svcCmd = qrpc.Cmd(0x21)
	svcErr = qrpc.Cmd(0xfe21)
)

// names that are easily confused
var (
	svcNS      = []string{"Svc", "svc", "Svc2", "", "Svc ", "S", "a.b", "\xff\xfe", "Svc\x00", strings.Repeat("n", 300)}
	svcMethods = []string{"Get", "get", "GetX", "", "Set", "世界", "G", "\x80", strings.Repeat("m", 200)}
)

func svcResult(ns, method string, server int, in []byte) []byte {
	h := hash64(ns, method, string(in), fmt.Sprint(server))
	return gen(h|1, smallSizes[(h>>33)%uint64(len(smallSizes))])
}

// svcServer is a server with every combination of the names registered.
type svcServer struct {
	c        *C
	idx      int
	mu       sync.Mutex
	runs     map[string]int // hash of input -> executions
	served   int64
	canceled int64
	waiting  int64
	srv      *Srv
}

func svcHandler(s *svcServer) qrpc.Handler {
	cbs := map[string]codegen.MethodCall{}
	for _, ns := range svcNS {
		for _, m := range svcMethods {
			ns, m := ns, m
			cbs[codegen.FQMethod(ns, m)] = func(ctx context.Context, in []byte) ([]byte, error) {
				atomic.AddInt64(&s.served, 1)
				s.mu.Lock()
				s.runs[ns+"\x01"+m+"\x01"+fmt.Sprint(h64(in))]++
				s.mu.Unlock()
				return svcResult(ns, m, s.idx, in), nil
			}
		}
	}
	cbs[codegen.FQMethod("fail", "error")] = func(_ context.Context, in []byte) ([]byte, error) {
		return []byte("never a result"), fmt.Errorf("failed with %x", h64(in))
	}
	cbs[codegen.FQMethod("fail", "empty")] = func(context.Context, []byte) ([]byte, error) {
		return []byte("never a result"), errors.New("")
	}
	cbs[codegen.FQMethod("fail", "panic")] = func(context.Context, []byte) ([]byte, error) { panic("planned") }
	cbs[codegen.FQMethod("slow", "wait")] = func(ctx context.Context, _ []byte) ([]byte, error) {
		atomic.AddInt64(&s.waiting, 1)
		<-ctx.Done()
		atomic.AddInt64(&s.canceled, 1)
		return []byte("never a result"), nil
	}
	mux := qrpc.NewServeMux()
	mux.Handle(svcCmd, codegen.NewServiceHandler(svcErr, cbs))
	return mux
}

func newSvc(c *C, idx int, mode string) *svcServer {
	s := &svcServer{c: c, idx: idx, runs: map[string]int{}}
	pol, wrap := chunkPolicy(c.Rng)
	if pol == "timeouts" && mode != "tcp" {
		wrap = nil // a timeout is final there
	}
	var sw func(int, net.Conn) net.Conn
	if wrap != nil && c.Rng.P(1, 2) {
		sw = func(_ int, nc net.Conn) net.Conn { return wrap(nc) }
	}
	s.srv = startServer(c, mode, sw, qrpc.ServerBinding{Handler: svcHandler(s), WriteFrameChSize: c.Rng.Pick(0, 2), ReadFrameChSize: c.Rng.Pick(0, 2)})
	return s
}

// svcCall makes one call under the stall rule.
func svcCall(c *C, ctx context.Context, cl *codegen.Client, ns, m string, in []byte) (out []byte, err error) {
	done := make(chan struct{})
	go func() { defer close(done); out, err = cl.Request(ctx, ns, m, in) }()
	c.Must("service call", done)
	return
}

// svcJudge tells which server computed the result, -1 if none.
func svcJudge(servers []*svcServer, ns, m string, in, out []byte) int {
	for _, s := range servers {
		if same(out, svcResult(ns, m, s.idx, in)) {
			return s.idx
		}
	}
	return -1
}

func c23calls(c *C) {
	r := c.Rng
	mode := []string{"tcp", "tcp", "ws", "tls"}[c.K%4]
	n := r.Range(1, 3)
	var servers []*svcServer
	var addrs []string
	for i := 0; i < n; i++ {
		s := newSvc(c, i, mode)
		servers = append(servers, s)
		addrs = append(addrs, s.srv.Addrs[0])
	}
	cl := codegen.NewClient(svcCmd, svcErr, addrs, clientConf(mode, qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1, 8)}))
	c.MustUntil("first service call", func() bool {
		_, err := svcCall(c, context.Background(), cl, "Svc", "Get", nil)
		return err == nil
	})
	var answers int64
	done := parallel(8, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 60 && !c.Violated(); k++ {
			ns, m := svcNS[rr.Intn(len(svcNS))], svcMethods[rr.Intn(len(svcMethods))]
			in := gen(rr.Uint64(), pickSize(rr, false))
			if len(in) > 0 && len(in) < 8 {
				in = gen(rr.Uint64(), 8)
			}
			orig := append([]byte(nil), in...)
			ctx, cancel := context.Background(), func() {}
			if rr.P(1, 2) {
				ctx, cancel = context.WithCancel(ctx)
			}
			out, err := svcCall(c, ctx, cl, ns, m, in)
			cancel()
			if err != nil {
				c.Violate("call", "call of %q %q with %s failed with every address connected: %v", ns, m, brief(in), err)
				continue
			}
			if svcJudge(servers, ns, m, orig, out) < 0 {
				c.Violate("result", "call of %q %q with %s returned %s, which no server makes of it", ns, m, brief(orig), brief(out))
			}
			atomic.AddInt64(&answers, 1)
			c.Eval(fmt.Sprint("calls ", mode, n, hash64(ns), hash64(m), bucket(len(in))))
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("service calls")
	}
	for _, s := range servers {
		s.mu.Lock()
		for k, v := range s.runs {
			if v > 1 && !strings.HasSuffix(k, fmt.Sprint(h64(nil))) {
				c.Violate("once", "one call was executed %d times: %q", v, k)
			}
		}
		s.mu.Unlock()
		if float64(s.served) < float64(answers)/float64(n)/3 {
			c.Violate("spread", "%d calls over %d connected addresses: address %d got %d", answers, n, s.idx, s.served)
		}
		c.Eval("spread")
	}
	for _, s := range servers {
		s.srv.Stop()
	}
}

// c23failing: methods fail, and are unknown, while others are called.
func c23failing(c *C) {
	r := c.Rng
	n := r.Range(1, 2)
	var servers []*svcServer
	var addrs []string
	for i := 0; i < n; i++ {
		s := newSvc(c, i, "tcp")
		servers = append(servers, s)
		addrs = append(addrs, s.srv.Addrs[0])
	}
	cl := codegen.NewClient(svcCmd, svcErr, addrs, qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 4)})
	var okBad int64
	workers := r.Pick(1, 4)
	done := parallel(workers, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 80 && !c.Violated(); k++ {
			in := gen(rr.Uint64(), rr.Pick(8, 100, 3000))
			if workers == 1 {
				c.MustUntil("connection after a failing call", func() bool {
					_, err := svcCall(c, context.Background(), cl, "Svc", "Get", nil)
					return err == nil
				})
			}
			switch op := rr.Intn(6); op {
			case 0, 1:
				m := []string{"error", "empty"}[op]
				out, err := svcCall(c, context.Background(), cl, "fail", m, in)
				if err == nil {
					c.Violate("failing", "a failing method returned %s", brief(out))
				}
				if err != nil && err.Error() == fmt.Sprintf("failed with %x", h64(in)) {
					atomic.AddInt64(&okBad, 1)
				}
				if want := fmt.Sprintf("failed with %x", h64(in)); workers == 1 && n == 1 && err != nil && (m == "error" && err.Error() != want || m == "empty" && err.Error() != "") {
					c.Violate("failing", "the only call on a connection failed with %q, not with what its method (%s) returned", err, m)
				}
				c.Eval("failing " + m)
			case 2:
				out, err := svcCall(c, context.Background(), cl, "fail", "panic", in)
				if err == nil {
					c.Violate("failing", "a panicking method returned %s", brief(out))
				}
				c.Eval("failing panic")
			case 3:
				for _, v := range [][2]string{{"Svc", "Gett"}, {"Sv", "Get"}, {"SvcGet", ""}, {"", "SvcGet"}, {"Get", "Svc"}, {"fail", ""}, {"svc2", "Get"}} {
					if v[0] == "" && v[1] == "" {
						continue
					}
					out, err := svcCall(c, context.Background(), cl, v[0], v[1], in)
					if err == nil {
						c.Violate("unknown", "calling the unknown %q %q returned %s", v[0], v[1], brief(out))
					}
					c.Eval("unknown")
				}
			default:
				ns, m := svcNS[rr.Intn(len(svcNS))], svcMethods[rr.Intn(len(svcMethods))]
				out, err := svcCall(c, context.Background(), cl, ns, m, in)
				if err == nil && svcJudge(servers, ns, m, in, out) < 0 {
					c.Violate("result", "call of %q %q returned %s, which no server makes of it", ns, m, brief(out))
				}
				c.Eval(fmt.Sprint("beside failing ", err == nil))
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("service calls beside failing ones")
	}
	// and it goes on afterwards
	ok := 0
	c.MustUntil("service call after failing ones", func() bool {
		out, err := svcCall(c, context.Background(), cl, "Svc", "Get", []byte("again"))
		if err != nil {
			ok = 0
			return false
		}
		if svcJudge(servers, "Svc", "Get", []byte("again"), out) < 0 {
			c.Violate("result", "wrong result %s", brief(out))
		}
		ok++
		return ok >= 10
	})
	if workers == 1 && okBad == 0 {
		c.Violate("failing", "no failing call ever got the error of its method")
	}
	c.Count("errors_passed_on", okBad)
	for _, s := range servers {
		s.srv.Stop()
	}
}

// c23failover: addresses are down, or go down.
func c23failover(c *C) {
	r := c.Rng
	n := r.Range(2, 4)
	var serial int64
	seen := &sync.Map{}
	var eps []*recServer
	var addrs []string
	for i := 0; i < n; i++ {
		i := i
		s := newRecServer(c, &serial, seen)
		s.seen = &sync.Map{}
		s.ans = func(f WFrame, _ int64) WFrame {
			var q pb.RpcRequest
			if err := q.Unmarshal(f.Payload); err != nil {
				return WFrame{ID: f.ID, Cmd: uint32(svcErr), Payload: []byte(err.Error())}
			}
			return WFrame{ID: f.ID, Cmd: uint32(svcCmd), Payload: svcResult(q.NS, q.Method, i, q.Params)}
		}
		eps = append(eps, s)
		addrs = append(addrs, s.addr)
	}
	up := make([]bool, n)
	for i, s := range eps {
		up[i] = i == 0 || r.P(1, 2)
		if up[i] {
			s.up()
		}
	}
	cl := codegen.NewClient(svcCmd, svcErr, addrs, qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 4)})
	one := func(what string) (int, error) {
		ns, m := svcNS[r.Intn(len(svcNS))], svcMethods[r.Intn(len(svcMethods))]
		in := gen(r.Uint64(), r.Pick(8, 1000))
		out, err := svcCall(c, context.Background(), cl, ns, m, in)
		if err != nil {
			c.Eval(what + " failed")
			return -1, err
		}
		c.Eval(what + " answered")
		for _, s := range eps {
			for i := range eps {
				if s == eps[i] && same(out, svcResult(ns, m, i, in)) {
					return i, nil
				}
			}
		}
		c.Violate("result", "call of %q %q returned %s, which no server makes of it", ns, m, brief(out))
		return -1, nil
	}
	for cycle := 0; cycle < 3 && !c.Violated(); cycle++ {
		// every connected address is used, none that is down
		c.MustUntil("use of every connected address", func() bool {
			got := make([]bool, n)
			for k := 0; k < 4*n; k++ {
				i, err := one("warm")
				if err != nil {
					return false
				}
				got[i] = true
			}
			for i := range eps {
				if up[i] && !got[i] {
					return false
				}
			}
			return true
		})
		for k := 0; k < 10*n; k++ {
			i, err := one("steady")
			if err != nil {
				c.Violate("failover", "up %v: a call failed: %v", up, err)
			} else if !up[i] {
				c.Violate("failover", "up %v: a call was answered by %d", up, i)
			}
		}
		// some go down, others come up; one stays
		stay := -1
		for i := range eps {
			if up[i] && (stay < 0 || r.P(1, 2)) {
				stay = i
			}
		}
		for i, s := range eps {
			if i == stay {
				continue
			}
			if up[i] && r.P(2, 3) {
				s.down()
				up[i] = false
			} else if !up[i] && r.P(1, 2) {
				s.up()
				up[i] = true
			}
		}
		// what is lost is noticed, after which the rest takes over without a failing call
		row := 0
		c.MustUntil("failover", func() bool {
			if _, err := one("after a change"); err != nil {
				row = 0
				return false
			}
			row++
			return row > 3*n
		})
	}
	// nobody left
	for i, s := range eps {
		if up[i] {
			s.down()
		}
	}
	for k := 0; k < 5; k++ {
		if i, err := one("none left"); err == nil {
			c.Violate("failover", "a call was answered by %d with no server up", i)
		}
	}
	none := codegen.NewClient(svcCmd, svcErr, nil, qrpc.ConnectionConfig{})
	if _, err := svcCall(c, context.Background(), none, "Svc", "Get", nil); err == nil {
		c.Violate("failover", "a call without addresses succeeded")
	}
}

// c23ctx: a call ends with its context, whatever the server does.
func c23ctx(c *C) {
	r := c.Rng
	how := c.K % 4
	var cl *codegen.Client
	var servers []*svcServer
	var hold net.Listener
	gate := make(chan struct{})
	conf := qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 2)}
	switch how {
	case 0, 3: // a method that waits
		var addrs []string
		for i := r.Range(1, 3); i > 0; i-- {
			s := newSvc(c, len(servers), "tcp")
			servers = append(servers, s)
			addrs = append(addrs, s.srv.Addrs[0])
		}
		cl = codegen.NewClient(svcCmd, svcErr, addrs, conf)
		c.MustUntil("first service calls", func() bool {
			for range servers {
				if _, err := svcCall(c, context.Background(), cl, "Svc", "Get", nil); err != nil {
					return false
				}
			}
			return true
		})
	case 1: // is dialed for ever
		var dials int64
		conf.OverlayNetwork = func(string, qrpc.DialConfig) (net.Conn, error) {
			if atomic.AddInt64(&dials, 1) > 1 {
				<-gate
			}
			return nil, errors.New("planned")
		}
		cl = codegen.NewClient(svcCmd, svcErr, []string{ownAddr()}, conf)
	case 2: // never reads
		hold = newListener()
		cl = codegen.NewClient(svcCmd, svcErr, []string{hold.Addr().String()}, conf)
		time.Sleep(20 * time.Millisecond)
	}
	var calls int64
	done := parallel(5, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 25 && !c.Violated(); k++ {
			d := time.Duration(rr.Intn(4000)) * time.Microsecond
			ctx, cancel := context.WithTimeout(context.Background(), d)
			want := context.DeadlineExceeded
			if rr.P(1, 2) {
				cancel()
				ctx, cancel = context.WithCancel(context.Background())
				time.AfterFunc(d, cancel)
				want = context.Canceled
			}
			in := gen(rr.Uint64(), rr.Pick(0, 100, 5000))
			if how == 2 {
				in = gen(rr.Uint64(), 2<<20)
			}
			var out []byte
			var err error
			fin := make(chan struct{})
			go func() { defer close(fin); out, err = cl.Request(ctx, "slow", "wait", in) }()
			c.Must(fmt.Sprintf("service call whose context has ended (%d)", how), fin)
			for i := range in { // is the caller's again
				in[i] = 0xee
			}
			if err == nil {
				c.Violate("ctx", "a call of a method that never answers returned %s", brief(out))
			} else if err != want && (how == 0 || how == 3) {
				c.Violate("ctx", "a call whose context ended returned %v, want %v", err, want)
			}
			cancel()
			atomic.AddInt64(&calls, 1)
			c.Eval(fmt.Sprint("ctx ", how, want))
			if servers != nil && rr.P(1, 4) {
				in := gen(rr.Uint64(), 50)
				out, err := svcCall(c, context.Background(), cl, "Svc", "Get", in)
				if err != nil || svcJudge(servers, "Svc", "Get", in, out) < 0 {
					c.Violate("ctx", "beside calls whose contexts ended, another one: %v %s", err, brief(out))
				}
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("service calls with contexts")
	}
	for _, s := range servers { // the methods learn of it
		s := s
		c.MustUntil("end of the contexts of abandoned methods", func() bool {
			return atomic.LoadInt64(&s.canceled) == atomic.LoadInt64(&s.waiting)
		})
		s.srv.Stop()
	}
	if hold != nil {
		hold.Close()
	}
	close(gate)
}

// refEnvelope is an independent decoder of the envelope.
func refEnvelope(b []byte) (ns, m string, p []byte, ok bool) {
	for len(b) > 0 {
		key, n := binary.Uvarint(b)
		if n <= 0 {
			return
		}
		b = b[n:]
		switch key & 7 {
		case 0:
			_, n := binary.Uvarint(b)
			if n <= 0 {
				return
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return
			}
			b = b[4:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return
			}
			v := b[n : n+int(l)]
			b = b[n+int(l):]
			switch key >> 3 {
			case 1:
				ns = string(v)
			case 2:
				m = string(v)
			case 3:
				p = append([]byte(nil), v...)
			}
		default:
			return
		}
		if key>>3 == 0 {
			return
		}
	}
	return ns, m, p, true
}

func refEncode(r *Rng, ns, m string, p []byte, extra bool) []byte {
	var out []byte
	field := func(num int, v []byte) {
		out = binary.AppendUvarint(out, uint64(num)<<3|2)
		out = binary.AppendUvarint(out, uint64(len(v)))
		out = append(out, v...)
	}
	junk := func() {
		for extra && r.P(1, 2) {
			num := uint64(r.Range(4, 5000))
			switch r.Intn(4) {
			case 0:
				out = binary.AppendUvarint(out, num<<3)
				out = binary.AppendUvarint(out, r.Uint64())
			case 1:
				out = binary.AppendUvarint(out, num<<3|1)
				out = append(out, r.Bytes(8)...)
			case 2:
				field(int(num), r.Bytes(r.Intn(40)))
			case 3:
				out = binary.AppendUvarint(out, num<<3|5)
				out = append(out, r.Bytes(4)...)
			}
		}
	}
	vals := [][]byte{[]byte(ns), []byte(m), p}
	for _, i := range r.Perm(3) {
		junk()
		if extra && r.P(1, 4) {
			field(i+1, r.Bytes(r.Intn(10))) // the last one counts
		}
		field(i+1, vals[i])
	}
	junk()
	return out
}

// c23envelope: two implementations of the envelope.
func c23envelope(c *C) {
	r := c.Rng
	str := func() string {
		switch r.Intn(4) {
		case 0:
			return svcNS[r.Intn(len(svcNS))]
		case 1:
			return string(r.Bytes(r.Intn(20)))
		case 2:
			return string(r.Bytes(r.Pick(127, 128, 129, 16383, 16384)))
		}
		return ""
	}
	for k := 0; k < 4000 && !c.Violated(); k++ {
		ns, m, p := str(), str(), r.Bytes(r.Pick(0, 1, 10, 127, 128, 300, 16384))
		q := pb.RpcRequest{NS: ns, Method: m, Params: p}
		b, err := q.Marshal()
		if err != nil {
			c.Violate("envelope", "Marshal(%q,%q,%s): %v", ns, m, brief(p), err)
			continue
		}
		if q.Size() != len(b) {
			c.Violate("envelope", "Size %d, encoded length %d", q.Size(), len(b))
		}
		rn, rm, rp, ok := refEnvelope(b)
		if !ok || rn != ns || rm != m || !same(rp, p) {
			c.Violate("envelope", "Marshal(%q,%q,%s) encodes (%v,%q,%q,%s)", ns, m, brief(p), ok, rn, rm, brief(rp))
		}
		var back pb.RpcRequest
		if err := back.Unmarshal(b); err != nil || back.NS != ns || back.Method != m || !same(back.Params, p) {
			c.Violate("envelope", "round trip of (%q,%q,%s) gives %v (%q,%q,%s)", ns, m, brief(p), err, back.NS, back.Method, brief(back.Params))
		}
		enc := refEncode(r, ns, m, p, r.P(2, 3))
		var other pb.RpcRequest
		if err := other.Unmarshal(enc); err != nil || other.NS != ns || other.Method != m || !same(other.Params, p) {
			c.Violate("envelope", "Unmarshal(%x) gives %v (%q,%q,%s) want (%q,%q,%s)", enc, err, other.NS, other.Method, brief(other.Params), ns, m, brief(p))
		}
		c.Eval(fmt.Sprint("envelope ", bucket(len(ns)), bucket(len(m)), bucket(len(p))))
		// garbage: no crash; what is accepted is what the other decoder sees
		for i := 0; i < 4; i++ {
			g := append([]byte(nil), enc...)
			switch r.Intn(4) {
			case 0:
				g = g[:r.Intn(len(g)+1)]
			case 1:
				g[r.Intn(len(g))] ^= byte(1 << r.Intn(8))
			case 2:
				at := r.Intn(len(g))
				g = append(append(append([]byte(nil), g[:at]...), r.Bytes(r.Range(1, 12))...), g[at:]...)
			case 3:
				g = r.Bytes(r.Intn(60))
			}
			if len(g) > 2000 {
				g = g[:2000]
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						c.Violate("envelope", "Unmarshal(%x) panics: %v", g, e)
					}
				}()
				var x pb.RpcRequest
				if x.Unmarshal(g) == nil {
					n, m, p, ok := refEnvelope(g)
					if ok && (x.NS != n || x.Method != m || !same(x.Params, p)) {
						c.Violate("envelope", "Unmarshal(%x) gives (%q,%q,%s), the reference (%q,%q,%s)", g, x.NS, x.Method, brief(x.Params), n, m, brief(p))
					}
					c.Eval("garbage accepted")
				} else {
					c.Eval("garbage refused")
				}
			}()
		}
	}
}

// c23raw: peers that send what no client sends.
func c23raw(c *C) {
	r := c.Rng
	s := newSvc(c, 0, "tcp")
	good := dialRaw(c, s.srv.Addrs[0])
	for round := 0; round < 60 && !c.Violated(); round++ {
		p := dialRaw(c, s.srv.Addrs[0])
		ns, m := svcNS[r.Intn(len(svcNS))], svcMethods[r.Intn(len(svcMethods))]
		in := gen(r.Uint64(), 8+r.Intn(100))
		enc := refEncode(r, ns, m, in, true)
		kind := r.Intn(3)
		switch kind {
		case 1:
			enc = enc[:r.Intn(len(enc))]
		case 2:
			for i := 0; i < r.Range(1, 4); i++ {
				enc[r.Intn(len(enc))] ^= byte(1 << r.Intn(8))
			}
		}
		fn, fm, fp, ok := refEnvelope(enc)
		if !ok { // groups and such: what the decoder makes of it, which the envelope job judges
			var x pb.RpcRequest
			if x.Unmarshal(enc) == nil {
				fn, fm, fp, ok = x.NS, x.Method, x.Params, true
			}
		}
		want := ok
		if ok {
			want = false
			for _, a := range svcNS {
				for _, b := range svcMethods {
					if codegen.FQMethod(a, b) == codegen.FQMethod(fn, fm) {
						want = true
						fn, fm = a, b
					}
				}
			}
		}
		p.Send(WFrame{ID: 1, Flags: fNB, Cmd: uint32(svcCmd), Payload: enc})
		c.MustUntil("outcome of a raw service request", func() bool { return len(p.ByID(1)) > 0 || p.Closed() })
		fs := p.ByID(1)
		switch {
		case want && kind == 0:
			if len(fs) != 1 || fs[0].Cmd != uint32(svcCmd) || !same(fs[0].Payload, svcResult(fn, fm, 0, fp)) {
				c.Violate("result", "raw call of %q %q: %v", fn, fm, fs)
			}
		case len(fs) > 0 && fs[0].Cmd == uint32(svcCmd):
			if !want || !same(fs[0].Payload, svcResult(fn, fm, 0, fp)) {
				c.Violate("result", "the request %x, which names %q %q (valid %v), got the result %v", enc, fn, fm, want, fs[0])
			}
		case len(fs) > 0 && fs[0].Cmd != uint32(svcErr) && fs[0].Flags&fRst == 0:
			c.Violate("result", "the request %x was answered with %v", enc, fs[0])
		}
		p.Close()
		c.Eval(fmt.Sprint("raw ", kind, want, len(fs)))
		// nobody else is disturbed
		id := uint64(round)*2 + 1
		gin := gen(r.Uint64(), 30)
		q := pb.RpcRequest{NS: "Svc", Method: "Get", Params: gin}
		b, _ := q.Marshal()
		good.Send(WFrame{ID: id, Flags: fNB, Cmd: uint32(svcCmd), Payload: b})
		c.MustUntil("answer beside malformed service requests", func() bool { return len(good.ByID(id)) > 0 || good.Closed() })
		gs := good.ByID(id)
		if len(gs) != 1 || !bytes.Equal(gs[0].Payload, svcResult("Svc", "Get", 0, gin)) {
			c.Violate("others", "beside a malformed request another connection's call got %v", gs)
		}
	}
	good.Close()
	s.srv.Stop()
}
