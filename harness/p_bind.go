package main

import (
	"crypto/tls"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/zhiqiangxu/qrpc"
)

// Bindings of one server that are configured differently: each follows its own configuration.

func init() {
	extend("C12", JobSpec{Name: "bindings", Quick: 2, Deep: 12, Fn: c12bindings})
	extend("C25", JobSpec{Name: "bindings", Quick: 2, Deep: 8, Fn: c22mixed})
	extend("C22", JobSpec{Name: "mixed", Quick: 2, Deep: 12, Fn: c22mixed})
}

// startBeside starts a server whose second binding is b, next to one that is configured otherwise. The
// addresses of the result begin with that of b.
func startBeside(c *C, mode string, other, b qrpc.ServerBinding) *Srv {
	s := startServer(c, mode, nil, other, b)
	s.Addrs = []string{s.Addrs[1], s.Addrs[0]}
	return s
}

// c12bindings: every binding has a subscription of its own, or none.
func c12bindings(c *C) {
	r := c.Rng
	mode := []string{"tcp", "tls", "ws", "wss"}[(c.K+int(c.Seed))&3]
	const B = 3
	none := r.Intn(B + 1)
	var got [B]int64
	var bs []qrpc.ServerBinding
	for i := 0; i < B; i++ {
		i := i
		b := qrpc.ServerBinding{Handler: echoHandler}
		if i != none {
			b.SubFunc = func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) {
				if tagOf(f.Payload) != uint64(i) || f.Cmd != qrpc.Cmd(0x90+i) {
					c.Violate("push-elsewhere", "the subscription of binding %d got a push sent to binding %d: %v", i, tagOf(f.Payload), toWs(f))
				}
				atomic.AddInt64(&got[i], 1)
			}
		}
		bs = append(bs, b)
	}
	srv := startServer(c, mode, nil, bs...)
	const N = 40
	var wg sync.WaitGroup
	for i := 0; i < B; i++ {
		i := i
		conn := srv.dialTo(i, qrpc.ConnectionConfig{}, nil)
		wg.Add(1)
		rr := r.Fork()
		go func() {
			defer wg.Done()
			for n := 0; n < N; n++ {
				if _, _, err := conn.Request(qrpc.Cmd(0x90+i), qrpc.PushFlag, gen(uint64(i), 8+rr.Intn(300))); err != nil {
					c.Violate("push-write", "push to binding %d: %v", i, err)
				}
				if rr.P(1, 4) {
					c.probe(conn, "probe", "next to pushes")
				}
			}
			c.probe(conn, "probe", "after the pushes")
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	c.Must("pushes to several bindings", done)
	c.Until(func() bool {
		for i := range got {
			if i != none && atomic.LoadInt64(&got[i]) < N {
				return false
			}
		}
		return true
	})
	for i := range got {
		want := int64(N)
		if i == none {
			want = 0
		}
		if n := atomic.LoadInt64(&got[i]); n != want {
			c.Violate("push-lost", "binding %d (without a subscription: %d) was sent %d pushes, its subscription got %d", i, none, N, n)
		}
		c.Eval(fmt.Sprint("binding ", mode, " ", i == none))
	}
	srv.Stop()
}

// c22mixed: bindings of all transports in one server, two of them with certificates of their own.
func c22mixed(c *C) {
	r := c.Rng
	modes := []string{"tcp", "tls", "ws", "wss", "tls", "wss"}
	for i := len(modes) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		modes[i], modes[j] = modes[j], modes[i]
	}
	var bs []qrpc.ServerBinding
	confs := make([]qrpc.ConnectionConfig, len(modes))
	for i, mode := range modes {
		i := i
		b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			w.StartWrite(q.RequestID, qrpc.Cmd(i), 0)
			w.WriteBytes(q.Payload)
			w.EndWrite()
		})}
		setMode(mode, &b)
		confs[i] = clientConf(mode, qrpc.ConnectionConfig{})
		if mode == "tls" || mode == "wss" {
			cert, pool := makeCert("localhost")
			b.TLSConf = &tls.Config{Certificates: []tls.Certificate{cert}}
			confs[i].TLSConf = &tls.Config{RootCAs: pool, ServerName: "127.0.0.1"}
		}
		bs = append(bs, b)
	}
	srv := startServer(c, "tcp", nil, bs...)
	done := parallel(len(modes), func(i int) {
		key := fmt.Sprintf("binding %d of %v", i, modes)
		for round := 0; round < 3 && !c.Violated(); round++ {
			var conn *qrpc.Connection
			var err error
			c.Do("dial", func() {
				if round == 1 {
					conn = qrpc.NewConnectionWithReconnect([]string{srv.Addrs[i]}, confs[i], nil)
				} else {
					conn, err = qrpc.NewConnection(srv.Addrs[i], confs[i], nil)
				}
			})
			if err != nil {
				c.Violate("mixed-dial", "%s: %v", key, err)
				return
			}
			for k := 0; k < 6; k++ {
				p := gen(mix(uint64(i), uint64(k), uint64(round)), 8+k*700)
				id, f, err := c.call(conn, 0x55, qrpc.FrameFlag([]int{0, int(qrpc.NBFlag)}[k&1]), p)
				if err != nil || f.RequestID != id || f.Cmd != qrpc.Cmd(i) || !same(f.Payload, p) {
					c.Violate("mixed", "%s: request %d was answered %v %v", key, id, toWs(f), err)
					break
				}
				c.Eval(fmt.Sprint("mixed ", modes[i], " ", i == 0, " ", round))
			}
			closeConn(c, conn)
		}
	})
	c.Must("calls on mixed bindings", done)
	srv.Stop()
}
