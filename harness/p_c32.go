package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C32", MinEv: 100,
		Rule: "one evaluation per socket whose options were read from the kernel and compared, or per address compared; distinct = (transport, side, way of connecting, configured sizes)",
		Jobs: []JobSpec{
			{Name: "sizes", Quick: 6, Deep: 40, Fn: c32sizes},
			{Name: "accept", Quick: 4, Deep: 16, Fn: c32accept},
		}})
}

// sock is a TCP socket of this process as the kernel sees it.
type sock struct {
	fd          int
	local, peer string
}

func (s sock) opt(level, name int) int {
	v, err := syscall.GetsockoptInt(s.fd, level, name)
	if err != nil {
		return -1
	}
	return v
}

func (s sock) snd() int { return s.opt(syscall.SOL_SOCKET, syscall.SO_SNDBUF) }
func (s sock) rcv() int { return s.opt(syscall.SOL_SOCKET, syscall.SO_RCVBUF) }

// sockets lists the connected sockets of this process.
func sockets() (ss []sock) {
	es, _ := os.ReadDir("/proc/self/fd")
	str := func(sa syscall.Sockaddr) string {
		switch a := sa.(type) {
		case *syscall.SockaddrInet4:
			return net.JoinHostPort(net.IP(a.Addr[:]).String(), strconv.Itoa(a.Port))
		case *syscall.SockaddrInet6:
			return net.JoinHostPort(net.IP(a.Addr[:]).String(), strconv.Itoa(a.Port))
		}
		return ""
	}
	for _, e := range es {
		fd, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err != nil || !strings.HasPrefix(l, "socket:") {
			continue
		}
		la, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		pa, err := syscall.Getpeername(fd)
		if err != nil {
			continue
		}
		ss = append(ss, sock{fd, str(la), str(pa)})
	}
	return
}

// ends finds both ends of the connections to a server's address, by the address of the client.
func ends(addr string) (server, client map[string]sock) {
	server, client = map[string]sock{}, map[string]sock{}
	for _, s := range sockets() {
		if s.local == addr {
			server[s.peer] = s
		}
		if s.peer == addr {
			client[s.local] = s
		}
	}
	return
}

// refSizes is what the kernel makes of sizes asked for.
func refSizes(c *C, accepted bool, wsz, rsz int) (snd, rcv int) {
	ln := newListener()
	defer ln.Close()
	a, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		panic(err)
	}
	b, err := ln.Accept()
	if err != nil {
		panic(err)
	}
	defer a.Close()
	defer b.Close()
	x := a.(*net.TCPConn)
	if accepted {
		x = b.(*net.TCPConn)
	}
	if wsz > 0 {
		x.SetWriteBuffer(wsz)
	}
	if rsz > 0 {
		x.SetReadBuffer(rsz)
	}
	rc, _ := x.SyscallConn()
	rc.Control(func(fd uintptr) { s := sock{fd: int(fd)}; snd, rcv = s.snd(), s.rcv() })
	return
}

func c32check(c *C, key string, accepted bool, s sock, wsz, rsz int) {
	snd, rcv := refSizes(c, accepted, wsz, rsz)
	side := "client"
	if accepted {
		side = "server"
	}
	if got := s.snd(); wsz > 0 && got != snd {
		c.Violate("write-buffer", "%s: the %s's socket has a send buffer of %d, not of %d as configuring %d makes it", key, side, got, snd, wsz)
	}
	if got := s.rcv(); rsz > 0 && got != rcv {
		c.Violate("read-buffer", "%s: the %s's socket has a receive buffer of %d, not of %d as configuring %d makes it", key, side, got, rcv, rsz)
	}
	if accepted {
		if on, idle := s.opt(syscall.SOL_SOCKET, syscall.SO_KEEPALIVE), s.opt(syscall.IPPROTO_TCP, syscall.TCP_KEEPIDLE); on != 1 || idle != int(qrpc.DefaultKeepAliveDuration/time.Second) {
			c.Violate("keepalive", "%s: keep-alive of an accepted connection: on=%d, after %d s, want %v", key, on, idle, qrpc.DefaultKeepAliveDuration)
		}
	}
	c.Eval(fmt.Sprint(key, side, wsz, rsz))
}

// c32sizes: whatever the transport and the way of connecting, both ends' sockets are tuned as configured, and what is
// sent over them arrives.
func c32sizes(c *C) {
	r := c.Rng
	sizes := []int{0, 3000, 9000, 40000, 100001, 180000}
	for round := 0; round < 4 && !c.Violated(); round++ {
		mode := []string{"tcp", "tls", "ws", "wss"}[(c.K+round)%4]
		sw, sr, cw, cr := r.Pick(sizes...), r.Pick(sizes...), r.Pick(sizes...), r.Pick(sizes...)
		if round == 0 {
			sw, sr, cw, cr = 9000, 40000, 100001, 3000
		}
		srv := startBeside(c, mode, qrpc.ServerBinding{Handler: echoHandler, WBufSize: r.Pick(0, 20000, 70000), RBufSize: r.Pick(0, 20000, 70000)},
			qrpc.ServerBinding{Handler: echoHandler, WBufSize: sw, RBufSize: sr})
		conf := clientConf(mode, qrpc.ConnectionConfig{WBufSize: cw, RBufSize: cr, DialTimeout: 10 * time.Second})
		seen := map[string]bool{}
		look := func(how string) {
			key := mode + " " + how + " "
			var server, client map[string]sock
			fresh := ""
			c.MustUntil("both ends of a connection", func() bool {
				server, client = ends(srv.Addrs[0])
				for a := range client {
					if _, ok := server[a]; ok && !seen[a] {
						fresh = a
						return true
					}
				}
				return false
			})
			seen[fresh] = true
			c32check(c, key, true, server[fresh], sw, sr)
			c32check(c, key, false, client[fresh], cw, cr)
		}
		echo := func(how string, conn *qrpc.Connection) {
			n := r.Pick(10, 60000, 400000)
			if sr > 0 && sr < 10000 || cr > 0 && cr < 10000 { // a receiver that small takes seconds for more
				n = r.Pick(10, 5000, 20000)
			}
			p := gen(r.Uint64(), n)
			_, f, err := c.call(conn, 0x41, qrpc.NBFlag, p)
			if rc, rp := respFor(0x41, p); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("echo", "%s %s sizes %d %d %d %d: %d bytes: %s %v", mode, how, sw, sr, cw, cr, len(p), toWs(f), err)
			}
		}
		var conn *qrpc.Connection
		var err error
		c.Do("dial", func() { conn, err = qrpc.NewConnection(srv.Addrs[0], conf, nil) })
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		echo("plain", conn)
		look("plain")
		closeConn(c, conn)
		if mode == "tcp" || mode == "tls" {
			c.Do("dial", func() { conn, err = qrpc.NewReusedConnection(srv.Addrs[0], conf, nil) })
			if err != nil {
				c.Violate("dial", "%v", err)
				return
			}
			echo("reused", conn)
			look("reused")
			closeConn(c, conn)
		}
		conn = qrpc.NewConnectionWithReconnect(srv.Addrs[:1], conf, nil)
		for k := 0; k < 2; k++ {
			c.MustUntil("reconnecting", func() bool {
				_, resp, err := conn.Request(0x41, qrpc.NBFlag, nil)
				if err == nil {
					_, err = resp.GetFrame()
				}
				return err == nil
			})
			look(fmt.Sprint("reconnecting ", k))
			srv.S.WalkConn(1, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { ci.Close(); return true })
		}
		closeConn(c, conn)
		api := qrpc.NewAPI(srv.Addrs[:1], conf, nil)
		var f *qrpc.Frame
		c.Do("api call", func() { f, err = api.Call(context.Background(), 0x41, []byte("x")) })
		if err != nil || f == nil {
			c.Violate("api", "%v", err)
		}
		look("api")
		api.Close()
		srv.Stop()
	}
}

// c32accept: the connection given to OnAccept tells its addresses and, where it can be tuned, is.
func c32accept(c *C) {
	mode := []string{"tcp", "tls", "ws", "wss"}[c.K%4]
	wsz, rsz, period := c.Rng.Range(3000, 90000), c.Rng.Range(3000, 90000), c.Rng.Range(5, 300)
	var mu sync.Mutex
	tuned := map[string]bool{}
	var accepted int64
	b := qrpc.ServerBinding{Handler: echoHandler, WBufSize: 30000, RBufSize: 30000}
	var addr string
	b.LifecycleCallbacks.OnAccept = func(nc net.Conn) (err error) {
		atomic.AddInt64(&accepted, 1)
		defer func() {
			if e := recover(); e != nil {
				c.Violate("accept-panic", "%s: tuning an accepted connection panics: %v", mode, e)
				err = io.EOF
			}
		}()
		if nc.LocalAddr().String() != addr || nc.LocalAddr().Network() != "tcp" {
			c.Violate("accept-addr", "%s: an accepted connection says its address is %v", mode, nc.LocalAddr())
		}
		tc, ok := nc.(qrpc.TCPConn)
		if ok {
			e := []error{tc.SetKeepAlive(true), tc.SetKeepAlivePeriod(time.Duration(period) * time.Second), tc.SetWriteBuffer(wsz), tc.SetReadBuffer(rsz)}
			for _, err := range e {
				if err != nil {
					c.Violate("accept-tune", "%s: tuning an accepted connection: %v", mode, e)
				}
			}
		} else if mode != "tls" {
			c.Violate("accept-tune", "%s: an accepted connection is not a TCPConn", mode)
		}
		mu.Lock()
		tuned[nc.RemoteAddr().String()] = ok
		mu.Unlock()
		if err := nc.SetDeadline(time.Now().Add(time.Hour)); err != nil {
			c.Violate("accept-tune", "%s: SetDeadline: %v", mode, err)
		}
		nc.SetDeadline(time.Time{})
		return nil
	}
	srv := makeServer(c, mode, nil, b)
	addr = srv.Addrs[0]
	srv.start()
	for k := 0; k < 5 && !c.Violated(); k++ {
		conn := srv.dial(qrpc.ConnectionConfig{}, nil)
		p := gen(c.Rng.Uint64(), 100000)
		_, f, err := c.call(conn, 0x41, qrpc.NBFlag, p)
		if rc, rp := respFor(0x41, p); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
			c.Violate("echo", "%s: %s %v", mode, toWs(f), err)
			return
		}
		server, _ := ends(addr)
		mu.Lock()
		for a, s := range server {
			ok, known := tuned[a]
			if !known {
				c.Violate("accept-addr", "%s: no accepted connection said its peer is %s", mode, a)
			}
			if !ok {
				continue
			}
			snd, rcv := refSizes(c, true, wsz, rsz)
			if s.snd() != snd || s.rcv() != rcv || s.opt(syscall.IPPROTO_TCP, syscall.TCP_KEEPIDLE) != period {
				c.Violate("accept-tune", "%s: after setting buffers of %d and %d and a period of %d s the socket has %d, %d and %d s", mode, wsz, rsz, period, s.snd(), s.rcv(), s.opt(syscall.IPPROTO_TCP, syscall.TCP_KEEPIDLE))
			}
			c.Eval(fmt.Sprint("accept ", mode, ok))
		}
		mu.Unlock()
		c.Eval(fmt.Sprint("accept addr ", mode))
		closeConn(c, conn)
		c.MustUntil("the end of the connection", func() bool { s, _ := ends(addr); return len(s) == 0 })
	}
	srv.Stop()
}
