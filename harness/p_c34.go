package main

import (
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

func init() {
	register(&Prop{ID: "C34", MinEv: 100,
		Rule: "one evaluation per connection made and served after or amid failing accepts, hostile connections or exhausted descriptors, per hostile connection that was ended, and per Shutdown amid failures; distinct = (transport, kinds of failures, position)",
		Jobs: []JobSpec{
			{Name: "errors", Quick: 8, Deep: 60, Fn: c34errors},
			{Name: "storm", Quick: 4, Deep: 24, Fn: c34storm},
			{Name: "hostile", Quick: 4, Deep: 24, Fn: c34hostile},
			{Name: "descriptors", Quick: 4, Deep: 16, Fn: c34fds},
		}})
}

// badListener fails as told.
type badListener struct {
	net.Listener
	next   func(i int) string
	i      int64
	faults int64
	closed int32
}

type tempErr struct{ msg string }

func (e tempErr) Error() string   { return e.msg }
func (e tempErr) Timeout() bool   { return false }
func (e tempErr) Temporary() bool { return true }

// plainConn is a net.Conn that cannot be tuned.
type plainConn struct{ net.Conn }

func (l *badListener) Accept() (net.Conn, error) {
	kind := l.next(int(atomic.AddInt64(&l.i, 1)) - 1)
	if atomic.LoadInt32(&l.closed) == 1 {
		return nil, net.ErrClosed
	}
	if kind != "" {
		atomic.AddInt64(&l.faults, 1)
	}
	switch kind {
	case "temporary":
		return nil, tempErr{"injected"}
	case "emfile":
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	case "fatal":
		return nil, errors.New("injected")
	case "eof":
		return nil, io.EOF
	case "operr":
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EPERM)}
	}
	nc, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	switch kind {
	case "aborted": // the peer is gone before it is accepted
		nc.Close()
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.ECONNABORTED)}
	case "plain":
		return plainConn{nc}, nil
	case "dead":
		nc.(*net.TCPConn).SetLinger(0)
		nc.Close()
	}
	return nc, nil
}

func (l *badListener) Close() error {
	atomic.StoreInt32(&l.closed, 1)
	return l.Listener.Close()
}

// badServer is a server one of whose bindings has a failing listener.
func badServer(c *C, mode string, next func(i int) string, bindings ...qrpc.ServerBinding) (*Srv, *badListener) {
	s := &Srv{c: c, Mode: mode, Ret: make(chan error, 1)}
	var bad *badListener
	for i := range bindings {
		ln := newListener()
		s.Addrs = append(s.Addrs, ln.Addr().String())
		if i == 0 {
			bad = &badListener{Listener: ln, next: next}
			ln = bad
		}
		bindings[i].Addr = s.Addrs[i]
		bindings[i].ListenFunc = func(network, address string) (net.Listener, error) { return ln, nil }
		setMode(mode, &bindings[i])
	}
	s.S = qrpc.NewServer(bindings)
	return s.start(), bad
}

func c34mode(c *C) string { return []string{"ws", "tcp", "wss", "tls"}[c.K%4] }

// c34errors: an accept that fails, whatever the error, costs that connection only: the ones that follow are served.
func c34errors(c *C) {
	mode := c34mode(c)
	costly := []string{"fatal", "eof", "operr"}
	cheap := []string{"temporary", "emfile", "dead", "plain", "aborted"}
	plan := []string{""}
	if c.K%8 < 4 {
		plan = append(plan, costly[c.Rng.Intn(3)], "")
	}
	for len(plan) < 14 {
		k := cheap[c.Rng.Intn(len(cheap))]
		for j := c.Rng.Range(1, 3); j > 0; j-- {
			plan = append(plan, k)
		}
		if c.Rng.P(1, 2) {
			plan = append(plan, "")
		}
	}
	if c.K%8 >= 4 {
		plan = append(plan, costly[c.Rng.Intn(3)])
	}
	srv, bad := badServer(c, mode, func(i int) string {
		if i < len(plan) {
			return plan[i]
		}
		return ""
	}, qrpc.ServerBinding{Handler: echoHandler})
	ended, served := 0, 0
	for k := 0; (int(atomic.LoadInt64(&bad.i)) <= len(plan) || served < 6) && !c.Violated(); k++ {
		if k > 200 {
			c.Violate("accept", "%s: 200 connections and only %d accepts", mode, atomic.LoadInt64(&bad.i))
			return
		}
		at := int(atomic.LoadInt64(&bad.i))
		var conn *qrpc.Connection
		var err error
		c.Do("dialing a server whose listener failed", func() {
			conn, err = qrpc.NewConnection(srv.Addrs[0], clientConf(mode, qrpc.ConnectionConfig{DialTimeout: 60 * time.Second}), nil)
		})
		ok := err == nil
		if ok {
			p := gen(c.Rng.Uint64(), 50)
			_, f, cerr := c.call(conn, 0x41, qrpc.NBFlag, p) // answered, or the connection is closed: not left hanging
			if cerr == nil {
				if rc, rp := respFor(0x41, p); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("echo", "%s: %s", mode, toWs(f))
				}
			}
			ok, err = cerr == nil, cerr
			conn.Close()
		}
		if ok {
			served++
			c.Eval(fmt.Sprint("served ", mode, at))
		} else {
			ended++
			left := false // only accepts that took a connection and failed may have ended this one
			for _, k := range plan {
				left = left || k == "aborted" || k == "plain" || k == "dead"
			}
			if !left || ended > len(plan) {
				c.Violate("accept", "%s: accepts %v: a connection of a serving server fails: %v", mode, plan, err)
			}
			c.Eval(fmt.Sprint("ended ", mode, at))
		}
	}
	c.Count("failing_accepts", atomic.LoadInt64(&bad.faults))
	for k := 0; k < 3 && !c.Violated(); k++ { // all is well again
		conn := srv.dial(qrpc.ConnectionConfig{}, nil)
		c.probe(conn, "after", fmt.Sprintf("%s: after accepts %v", mode, plan))
		closeConn(c, conn)
		c.Eval("after " + mode)
	}
	srv.Stop()
	c34returned(c, srv, mode)
}

func c34returned(c *C, srv *Srv, mode string) {
	done := make(chan struct{})
	var err error
	go func() { defer close(done); err = <-srv.Ret }()
	c.Must("ServeAll after Shutdown", done)
	if err != qrpc.ErrServerClosed {
		c.Violate("return", "%s: ServeAll returns %v", mode, err)
	}
	c.Eval("return " + mode)
}

// c34storm: while every accept of a binding fails, the other bindings and the living connections are served, and
// Shutdown comes to an end.
func c34storm(c *C) {
	mode := c34mode(c)
	kind := []string{"fatal", "emfile", "plain", "temporary", "aborted"}[(c.K/4+int(c.Seed)+c.K)%5]
	var on int32
	srv, bad := badServer(c, mode, func(int) string {
		if atomic.LoadInt32(&on) == 1 {
			return kind
		}
		return ""
	}, qrpc.ServerBinding{Handler: echoHandler}, qrpc.ServerBinding{Handler: echoHandler})
	old := srv.dial(qrpc.ConnectionConfig{}, nil)
	c.probe(old, "before", "before the storm")
	atomic.StoreInt32(&on, 1)
	var tries []net.Conn
	for k := 0; k < 8 && !c.Violated(); k++ {
		nc, err := netDial(srv.Addrs[0], 10*time.Second)
		if err == nil {
			tries = append(tries, nc)
		}
		c.probe(old, "living", fmt.Sprintf("%s: a living connection while accepts fail (%s)", mode, kind))
		conn := srv.dialTo(1, qrpc.ConnectionConfig{}, nil)
		c.probe(conn, "other", fmt.Sprintf("%s: another binding while accepts fail (%s)", mode, kind))
		closeConn(c, conn)
		c.Eval(fmt.Sprint("storm ", mode, kind))
		time.Sleep(40 * time.Millisecond)
	}
	c.MustUntil("failing accepts", func() bool { return atomic.LoadInt64(&bad.faults) >= 1 })
	if kind == "plain" || kind == "aborted" { // those were accepted and cannot be served: they are not left hanging
		for _, nc := range tries[1:3] { // the first may have been awaited before
			nc := nc
			c.Do("end of a connection that cannot be served", func() { io.Copy(io.Discard, nc) })
			c.Eval(fmt.Sprint("ended ", mode, kind))
		}
	}
	if c.K%2 == 0 { // over: served again
		atomic.StoreInt32(&on, 0)
		conn := srv.dial(qrpc.ConnectionConfig{DialTimeout: time.Minute}, nil)
		c.probe(conn, "after", fmt.Sprintf("%s: after a storm of failing accepts (%s)", mode, kind))
		c.Eval(fmt.Sprint("after storm ", mode, kind))
		atomic.StoreInt32(&on, 1)
	}
	srv.Stop()
	c34returned(c, srv, mode)
	for _, nc := range tries {
		nc.Close()
	}
	c.Count("failing_accepts", atomic.LoadInt64(&bad.faults))
	old.Close()
}

// c34hostile: connections that say nothing, garbage or half of a handshake, or are reset, do not keep others from
// being served, nor Shutdown from coming to an end.
func c34hostile(c *C) {
	mode := c34mode(c)
	r := c.Rng
	srv := startServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler})
	var mu sync.Mutex
	var held []net.Conn
	_, ct := tlsConfs()
	attack := func(kind int) {
		nc, err := netDial(srv.Addrs[0], 10*time.Second)
		if err != nil {
			c.Violate("dial", "%s: %v", mode, err)
			return
		}
		mu.Lock()
		held = append(held, nc)
		mu.Unlock()
		var w io.Writer = nc
		if kind >= 6 && (mode == "tls" || mode == "wss") { // within a good session
			tc := tls.Client(nc, ct.Clone())
			tc.SetDeadline(time.Now().Add(20 * time.Second))
			if tc.Handshake() == nil {
				w = tc
			}
		}
		switch kind % 6 {
		case 0: // silence
		case 1:
			w.Write([]byte{0x16, 3, 1, 2}) // the start of a client hello
		case 2:
			w.Write(gen(r.Uint64(), r.Range(1, 5000)))
		case 3:
			nc.(*net.TCPConn).SetLinger(0)
			nc.Close()
		case 4:
			w.Write([]byte("GET /qrpc HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\n"))
		case 5:
			w.Write([]byte(strings.Repeat("GET /other HTTP/1.1\r\nHost: x\r\n\r\n", r.Range(1, 4))))
		}
	}
	for round := 0; round < 6 && !c.Violated(); round++ {
		var wg sync.WaitGroup
		n := 24
		for i := 0; i < n; i++ {
			kind := (i + round) % 12
			wg.Add(1)
			go func() { defer wg.Done(); attack(kind) }()
		}
		good := parallel(3, func(i int) {
			conn := srv.dial(qrpc.ConnectionConfig{DialTimeout: time.Minute}, nil)
			c.probe(conn, "good", fmt.Sprintf("%s: amid hostile connections", mode))
			conn.Close()
			c.Eval(fmt.Sprint("amid ", mode, round))
		})
		c.Must("good connections amid hostile ones", good)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		c.Must("attacks", done)
		c.Count("hostile_connections", int64(n))
	}
	srv.Stop()
	c34returned(c, srv, mode)
	for _, nc := range held { // ended by the server
		nc := nc
		c.Do("end of a hostile connection after Shutdown", func() {
			nc.SetReadDeadline(time.Now().Add(stallWall))
			if _, err := io.Copy(io.Discard, nc); err != nil {
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					c.Violate("leak", "%s: a hostile connection is still open %v after Shutdown", mode, stallWall)
				}
			}
		})
		nc.Close()
		c.Eval("ended " + mode)
	}
}

// c34fds: when the process has no descriptors left the server waits for some, and then serves those who came meanwhile.
func c34fds(c *C) {
	mode := c34mode(c)
	srv := startServer(c, mode, nil, qrpc.ServerBinding{Handler: echoHandler})
	old := srv.dial(qrpc.ConnectionConfig{}, nil)
	c.probe(old, "before", "before")
	for round := 0; round < 2 && !c.Violated(); round++ {
		n := c.Rng.Range(1, 12)
		ta, _ := net.ResolveTCPAddr("tcp", srv.Addrs[0])
		var fds []int
		for i := 0; i < n; i++ {
			fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
			if err != nil {
				panic(err)
			}
			fds = append(fds, fd)
		}
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
		top := 0
		es, _ := os.ReadDir("/proc/self/fd")
		for _, e := range es {
			var x int
			fmt.Sscan(e.Name(), &x)
			if x >= top {
				top = x + 1
			}
		}
		low := lim
		low.Cur = uint64(top + 8)
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low)
		var fill []int
		for {
			fd, err := syscall.Dup(2)
			if err != nil {
				break
			}
			fill = append(fill, fd)
		}
		for _, fd := range fds {
			sa := &syscall.SockaddrInet4{Port: ta.Port}
			copy(sa.Addr[:], ta.IP.To4())
			if err := syscall.Connect(fd, sa); err != nil {
				c.Violate("connect", "%v", err)
			}
		}
		c.Settle(int64(c.Rng.Range(30, 200)))
		_, f, err := c.call(old, 0x41, qrpc.NBFlag, []byte("x"))
		if err != nil {
			c.Violate("living", "%s: without descriptors a living connection fails: %s %v", mode, toWs(f), err)
		}
		c.Eval("living " + mode)
		for _, fd := range fill {
			syscall.Close(fd)
		}
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
		_, ct := tlsConfs()
		done := parallel(n, func(i int) {
			file := os.NewFile(uintptr(fds[i]), "")
			nc, err := net.FileConn(file)
			file.Close()
			if err != nil {
				panic(err)
			}
			conf := qrpc.ConnectionConfig{OverlayNetwork: func(string, qrpc.DialConfig) (net.Conn, error) {
				switch mode {
				case "tls":
					return tls.Client(nc, ct.Clone()), nil
				case "ws", "wss":
					d := &websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return nc, nil }}
					u := "ws://"
					if mode == "wss" {
						u, d.TLSClientConfig = "wss://", ct.Clone()
					}
					wc, _, err := d.Dial(u+srv.Addrs[0]+"/qrpc", http.Header{})
					if err != nil {
						return nil, err
					}
					return wsserver.NewConn(wc), nil
				}
				return nc, nil
			}}
			conn, err := qrpc.NewConnection(srv.Addrs[0], conf, nil)
			if err != nil {
				c.Violate("descriptors", "%s: a connection made while there were no descriptors left is not served: %v", mode, err)
				return
			}
			c.probe(conn, "descriptors", fmt.Sprintf("%s: made while there were no descriptors left", mode))
			conn.Close()
			c.Eval(fmt.Sprint("descriptors ", mode, n))
		})
		c.Must("connections made while there were no descriptors left", done)
	}
	old.Close()
	srv.Stop()
	c34returned(c, srv, mode)
}
