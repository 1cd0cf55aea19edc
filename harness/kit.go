package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
	wsclient "github.com/zhiqiangxu/qrpc/ws/client"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// ---------------------------------------------------------------- log hook: delays at the library's log points

var delayOn int32
var logHits int64

type delayCore struct{ rng *Rng }

func (d *delayCore) Enabled(zapcore.Level) bool        { return true }
func (d *delayCore) With([]zapcore.Field) zapcore.Core { return d }
func (d *delayCore) Sync() error                       { return nil }
func (d *delayCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, d)
}
func (d *delayCore) Write(e zapcore.Entry, _ []zapcore.Field) error {
	if raceBuild {
		// nothing here may synchronize the goroutines of the library
		switch v := uint32(time.Now().UnixNano()) * 2654435761 >> 24; {
		case v < 2:
			time.Sleep(300 * time.Microsecond)
		case v < 30:
			runtime.Gosched()
		}
		return nil
	}
	atomic.AddInt64(&logHits, 1)
	if atomic.LoadInt32(&delayOn) == 0 {
		return nil
	}
	switch v := d.rng.Intn(256); {
	case v < 3:
		time.Sleep(time.Duration(d.rng.Range(50, 1500)) * time.Microsecond)
	case v < 40:
		runtime.Gosched()
	}
	return nil
}

// installLogger is called once before anything of the library runs.
func installLogger(c *C) {
	rng := NewRng(c.Seed ^ 0x5eed)
	qrpc.SetLogger(zap.New(&delayCore{rng: rng}))
	if c.K%3 != 0 {
		atomic.StoreInt32(&delayOn, 1)
	}
	procs := []int{8, 2, 4, 1, 3}
	runtime.GOMAXPROCS(procs[c.K%len(procs)])
}

// ---------------------------------------------------------------- payloads

func h64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// gen is the payload of n bytes that belongs to tag.
func gen(tag uint64, n int) []byte {
	if n == 0 {
		return nil
	}
	b := make([]byte, n)
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], tag)
	k := copy(b, t[:])
	if k < n {
		x := tag*0x9E3779B97F4A7C15 + 1
		i := k
		for ; i+8 <= n; i += 8 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			binary.LittleEndian.PutUint64(b[i:], x)
		}
		for ; i < n; i++ {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b[i] = byte(x)
		}
	}
	return b
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

func brief(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("len=%d %x", len(b), b)
	}
	return fmt.Sprintf("len=%d %x... h=%x", len(b), b[:24], h64(b))
}

// diffAt tells where two byte strings differ.
func diffAt(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// boundary sizes: buffers are 1024 (write: with 16 of header, read: 1024), 4096 and the socket buffers
var smallSizes = []int{0, 1, 2, 3, 7, 8, 12, 16, 100, 255, 256, 1000, 1007, 1008, 1009, 1023, 1024, 1025, 2032, 2048, 4080, 4096, 4097}

func pickSize(r *Rng, big bool) int {
	switch v := r.Intn(100); {
	case v < 70:
		return smallSizes[r.Intn(len(smallSizes))]
	case v < 90:
		return r.Range(0, 3000)
	case v < 97 || !big:
		return r.Range(3000, 70000)
	default:
		return r.Pick(65535, 65536, 131072, 300000, 1<<20, 1<<20+1)
	}
}

// respFor is the answer our handlers give: command and payload are functions of the request.
func respFor(cmd uint32, p []byte) (uint32, []byte) {
	h := h64(p) ^ uint64(cmd)*0x100000001b3
	rc := uint32(h>>16) & 0xffffff
	return rc, gen(h|1, smallSizes[(h>>40)%uint64(len(smallSizes))])
}

// ---------------------------------------------------------------- server kit

type serverOpt struct {
	Mode  string // tcp tls ws wss
	Wrap  func(i int, nc net.Conn) net.Conn
	Serve bool
}

// Srv is a running server.
type Srv struct {
	c     *C
	S     *qrpc.Server
	Addrs []string
	Lns   []*fListener
	Mode  string
	Ret   chan error
	down  sync.Once
}

func newListener() net.Listener {
	for i := 0; ; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			return ln
		}
		if i > 50 {
			panic(err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// makeServer builds a server on loopback listeners; it does not serve yet.
func makeServer(c *C, mode string, wrap func(i int, nc net.Conn) net.Conn, bindings ...qrpc.ServerBinding) *Srv {
	s := &Srv{c: c, Mode: mode, Ret: make(chan error, 1)}
	for i := range bindings {
		ln := &fListener{Listener: newListener(), wrap: wrap}
		s.Addrs = append(s.Addrs, ln.Addr().String())
		s.Lns = append(s.Lns, ln)
		bindings[i].Addr = ln.Addr().String()
		bindings[i].ListenFunc = func(network, address string) (net.Listener, error) { return ln, nil }
		setMode(mode, &bindings[i])
	}
	s.S = qrpc.NewServer(bindings)
	return s
}

func setMode(mode string, b *qrpc.ServerBinding) {
	st, _ := tlsConfs()
	switch mode {
	case "tls":
		b.TLSConf = st.Clone()
	case "ws":
		b.OverlayNetwork = wsserver.OverlayNetwork
	case "wss":
		b.OverlayNetwork = wsserver.OverlayNetwork
		b.TLSConf = st.Clone()
	}
}

func (s *Srv) start() *Srv {
	if err := s.S.ListenAll(); err != nil {
		s.c.Violate("listen", "ListenAll: %v", err)
		s.c.Abort()
	}
	go func() { s.Ret <- s.S.ServeAll() }()
	return s
}

// startServer starts a server with the bindings in the given mode.
func startServer(c *C, mode string, wrap func(i int, nc net.Conn) net.Conn, bindings ...qrpc.ServerBinding) *Srv {
	return makeServer(c, mode, wrap, bindings...).start()
}

// Stop shuts the server down under the stall rule.
func (s *Srv) Stop() {
	s.down.Do(func() {
		atomic.AddInt32(&s.c.closing, 1)
		s.c.Do("Shutdown of the server", func() { s.S.Shutdown() })
	})
}

// conf fills in what the transport needs.
func clientConf(mode string, conf qrpc.ConnectionConfig) qrpc.ConnectionConfig {
	_, ct := tlsConfs()
	switch mode {
	case "tls":
		conf.TLSConf = ct.Clone()
	case "ws":
		conf.OverlayNetwork = wsclient.OverlayNetwork
	case "wss":
		conf.OverlayNetwork = wsclient.OverlayNetwork
		conf.TLSConf = ct.Clone()
	}
	return conf
}

// dial opens a client connection; failing to is a violation.
func (s *Srv) dial(conf qrpc.ConnectionConfig, f qrpc.SubFunc) *qrpc.Connection {
	return s.dialTo(0, conf, f)
}

func (s *Srv) dialTo(i int, conf qrpc.ConnectionConfig, f qrpc.SubFunc) *qrpc.Connection {
	var conn *qrpc.Connection
	var err error
	s.c.Do("dialing the server", func() { conn, err = qrpc.NewConnection(s.Addrs[i], clientConf(s.Mode, conf), f) })
	if err != nil {
		s.c.Violate("dial", "NewConnection: %v", err)
		s.c.Abort()
	}
	return conn
}

// overlayWith dials TCP and wraps the connection.
func overlayWith(wrap func(nc net.Conn) net.Conn) func(string, qrpc.DialConfig) (net.Conn, error) {
	return func(addr string, _ qrpc.DialConfig) (net.Conn, error) {
		nc, err := netDial(addr, 10*time.Second)
		if err != nil {
			return nil, err
		}
		return wrap(nc), nil
	}
}

// closeConn closes a client connection and waits for it.
func closeConn(c *C, conn *qrpc.Connection) {
	atomic.AddInt32(&c.closing, 1)
	conn.Close()
	c.Do("Wait of a closed connection", conn.Wait)
}

// getFrame waits for a response under the stall rule.
func (c *C) getFrame(what string, resp qrpc.Response) (f *qrpc.Frame, err error) {
	done := make(chan struct{})
	go func() { defer close(done); f, err = resp.GetFrame() }()
	c.Must(what, done)
	return
}

// nextFrame waits for the next frame of a stream under the stall rule; nil means the end.
func (c *C) nextFrame(what string, ch <-chan *qrpc.Frame) (f *qrpc.Frame) {
	done := make(chan struct{})
	go func() { defer close(done); f = <-ch }()
	c.Must(what, done)
	return
}

// call is one request and its answer.
func (c *C) call(conn *qrpc.Connection, cmd uint32, flags qrpc.FrameFlag, p []byte) (id uint64, f *qrpc.Frame, err error) {
	var resp qrpc.Response
	done := make(chan struct{})
	go func() {
		defer close(done)
		id, resp, err = conn.Request(qrpc.Cmd(cmd), flags, p)
		if err == nil {
			f, err = resp.GetFrame()
		}
	}()
	c.Must("call on an open connection", done)
	return
}

// probe checks that a connection still works, with our echo handler at the other end.
func (c *C) probe(conn *qrpc.Connection, sig, why string) {
	tag := c.Rng.Uint64()
	p := gen(tag, c.Rng.Pick(8, 20, 1500))
	_, f, err := c.call(conn, 0x77, qrpc.NBFlag, p)
	if err != nil {
		c.Violate(sig, "%s: a request on this connection fails: %v", why, err)
		return
	}
	rc, rp := respFor(0x77, p)
	if uint32(f.Cmd) != rc || !same(f.Payload, rp) {
		c.Violate(sig, "%s: wrong answer: cmd %#x want %#x, %s want %s", why, f.Cmd, rc, brief(f.Payload), brief(rp))
	}
	c.Count("liveness_probes", 1)
}

// answer writes the answer of our echo protocol.
func answer(w qrpc.FrameWriter, r *qrpc.RequestFrame) error {
	rc, rp := respFor(uint32(r.Cmd), r.Payload)
	w.StartWrite(r.RequestID, qrpc.Cmd(rc), 0)
	w.WriteBytes(rp)
	return w.EndWrite()
}

var echoHandler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) { answer(w, r) })

func parallel(n int, f func(i int)) <-chan struct{} {
	done := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); f(i) }(i)
	}
	go func() { wg.Wait(); close(done) }()
	return done
}

func closedCh(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func ctxT(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

func mix(a ...uint64) uint64 {
	x := uint64(0x1234567)
	for _, v := range a {
		x ^= v
		x *= 0x9E3779B97F4A7C15
		x ^= x >> 29
	}
	return x
}

var _ = rand.Int

// writeFailed records a write that should have succeeded. The frame of a write that fails because its
// connection is being closed by the job itself may have arrived already: that is no violation.
func (c *C) writeFailed(sig string, err error, format string, args ...interface{}) {
	if atomic.LoadInt32(&c.closing) > 0 {
		c.Count("writes_returning_while_closing", 1)
		return
	}
	c.Violate(sig, format+": %v", append(args, err)...)
}
