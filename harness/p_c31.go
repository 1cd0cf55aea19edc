package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zhiqiangxu/qrpc"
	wsserver "github.com/zhiqiangxu/qrpc/ws/server"
)

func init() {
	register(&Prop{ID: "C31", MinEv: 500,
		Rule: "one evaluation per run of a tool whose output, exit and bytes on the wire were compared with an independent encoding; distinct = (tool, kind of arguments, transport, what the server did)",
		Notes: []string{"the tools are built from the working tree and run as processes; what they send is read by a raw socket or WebSocket peer",
			"qrpcurl sends single frames: the two stream bits of -f are not sent"},
		Jobs: []JobSpec{
			{Name: "packet", Quick: 4, Deep: 40, Fn: c31packet},
			{Name: "qrpcurl", Quick: 6, Deep: 60, Fn: c31curl},
			{Name: "refused", Quick: 2, Deep: 10, Fn: c31refused},
		}})
}

// tool runs one of the tools.
func tool(c *C, name string, args ...string) (stdout, all string, code int) {
	cmd := exec.Command(filepath.Join(os.Getenv("QV_TOOLS"), name), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "running a tool:", err)
		c.Abort()
	}
	done := make(chan struct{})
	var err error
	go func() { err = cmd.Wait(); close(done) }()
	if !c.Wait(done) {
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		c.Violate("stall:tool", "%s %q did not end: %s", name, args, o.String()+e.String())
		c.Abort()
	}
	if err != nil {
		code = -1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
	}
	return o.String(), o.String() + e.String(), code
}

func crashed(out string, code int) bool {
	return strings.Contains(out, "panic:") || strings.Contains(out, "goroutine ") || code < 0
}

// argText is a payload that can be an argument.
func argText(r *Rng) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return []string{"a", " ", "-", "--", "-p", "%d%s%n", "\n\n", "[response]", "flag: 3", "\xff\xfe", "ünï©ode", "'\"\\$(true)`", "0", "{}"}[r.Intn(14)]
	}
	b := gen(r.Uint64(), r.Pick(1, 2, 3, 10, 100, 1000, 5000, 60000))
	for i := range b {
		if b[i] == 0 {
			b[i] = 1
		}
	}
	if r.P(1, 2) {
		for i := range b {
			b[i] = ' ' + b[i]%95
		}
	}
	return string(b)
}

func pickInt(r *Rng, max uint64) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return max - uint64(r.Intn(3))
	case 2: // one bit
		v := uint64(1) << uint(r.Intn(64))
		if v <= max {
			return v
		}
	}
	v := r.Uint64()
	if max != ^uint64(0) {
		v %= max + 1
	}
	return v
}

// number writes v in one of the ways the flag package accepts.
func number(r *Rng, v uint64) string {
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("0x%x", v)
	case 1:
		return fmt.Sprintf("0%o", v)
	}
	return fmt.Sprint(v)
}

func c31packet(c *C) {
	n := 250
	rngs := []*Rng{c.Rng.Fork(), c.Rng.Fork(), c.Rng.Fork()}
	done := parallel(len(rngs), func(g int) {
		r := rngs[g]
		for i := 0; i < n/len(rngs) && !c.Violated(); i++ {
			cmd, flg, id, pl := pickInt(r, 0xffffff), pickInt(r, 0xff), pickInt(r, ^uint64(0)), argText(r)
			args := []string{}
			add := func(n, v string) {
				if r.P(1, 2) && !strings.HasPrefix(v, "-") {
					args = append(args, "-"+n, v)
				} else {
					args = append(args, "--"+n+"="+v)
				}
			}
			var opts []func()
			if cmd == 0 && r.P(1, 2) {
			} else {
				opts = append(opts, func() { add("c", number(r, cmd)) })
			}
			opts = append(opts, func() { add("f", number(r, flg)) }, func() { add("r", number(r, id)) })
			if pl != "" || r.P(1, 2) {
				opts = append(opts, func() { add("p", pl) })
			}
			for _, k := range r.Perm(len(opts)) {
				opts[k]()
			}
			bad := ""
			if r.P(1, 4) {
				bad = []string{"-c=-1", "-c=16777216", "-f=256", "-f=-1", "-c=4294967296", "-c=4294967297", "-f=4294967296", "-r=18446744073709551616", "-r=-1", "-c=x", "-f=", "-r=1.5",
					"-c=" + fmt.Sprint(pickInt(r, 1<<62)+1<<24), "-f=" + fmt.Sprint(pickInt(r, 1<<62)+256), "-c=-9223372036854775808", "-f=-" + fmt.Sprint(1+pickInt(r, 1<<62))}[r.Intn(16)]
				args = append(args, bad)
			}
			out, all, code := tool(c, "packet", args...)
			if bad != "" {
				if crashed(all, code) || code == 0 || strings.Contains(out, "packet is") {
					c.Violate("packet-accepts", "packet %q: exit %d: %s", args, code, brief([]byte(all)))
				}
				c.Eval("packet refused " + strings.SplitN(bad, "=", 2)[0])
				continue
			}
			w := make([]byte, 16+len(pl))
			binary.BigEndian.PutUint32(w, uint32(12+len(pl)))
			for k := 0; k < 8; k++ {
				w[4+k] = byte(id >> uint(56-8*k))
			}
			w[12], w[13], w[14], w[15] = byte(flg), byte(cmd>>16), byte(cmd>>8), byte(cmd)
			copy(w[16:], pl)
			want := map[string]string{"packet is": hex.EncodeToString(w), "length": hex.EncodeToString(w[:4]), "requestID": hex.EncodeToString(w[4:12]),
				"flag": hex.EncodeToString(w[12:13]), "cmd": hex.EncodeToString(w[13:16]), "payload": hex.EncodeToString(w[16:])}
			seen := 0
			for _, l := range strings.Split(out, "\n") {
				kv := strings.SplitN(l, ":", 2)
				if len(kv) == 2 {
					if v, ok := want[kv[0]]; ok {
						seen++
						if strings.TrimSpace(kv[1]) != v {
							c.Violate("packet-encoding", "packet %q: %s is %s, want %s", args, kv[0], brief([]byte(kv[1])), brief([]byte(v)))
						}
					}
				}
			}
			if code != 0 || seen != len(want) {
				c.Violate("packet-output", "packet %q: exit %d: %s", args, code, brief([]byte(all)))
			}
			c.Eval(fmt.Sprint("packet ", len(opts), len(pl) == 0, cmd > 0xffff, id>>63))
		}
	})
	if !c.waitAtLeast(done, 5*stallWall, 5*stallTicks) {
		c.StallAbort("packet")
	}
}

// curlServer takes connections over TCP or WebSocket.
type curlServer struct {
	addr string
	acc  chan net.Conn
	mu   sync.Mutex
	n    int
	stop func()
}

func newCurlServer(c *C, web bool) *curlServer {
	s := &curlServer{acc: make(chan net.Conn, 100)}
	ln := newListener()
	s.addr = ln.Addr().String()
	took := func(nc net.Conn) {
		s.mu.Lock()
		s.n++
		s.mu.Unlock()
		s.acc <- nc
	}
	if web {
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			wc, err := up.Upgrade(w, q, nil)
			if err == nil {
				took(wsserver.NewConn(wc))
			}
		})}
		go hs.Serve(ln)
		s.stop = func() { hs.Close() }
		return s
	}
	s.stop = func() { ln.Close() }
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			took(nc)
		}
	}()
	return s
}

func (s *curlServer) accepted() int { s.mu.Lock(); defer s.mu.Unlock(); return s.n }

func c31curl(c *C) {
	r := c.Rng
	web := c.K%2 == 1
	s := newCurlServer(c, web)
	defer s.stop()
	stale := 0
	for i := 0; i < 60 && !c.Violated(); i++ {
		cmd, pl := uint32(pickInt(r, 0xffffff)), argText(r)
		flg := r.Pick(0, 0, 0, int(qrpc.NBFlag), int(qrpc.NBFlag), 1, 2, 3, int(qrpc.PushFlag), 64, 128, 192, 9, 24, 4, 32, 255, 256, -1, 100000)
		var args []string
		nf := r.Pick(0, 1, 2)
		if flg != 0 || nf == 1 {
			args = append(args, []string{"-f", "--flag", "-flag"}[nf], fmt.Sprint(flg))
			if r.P(1, 2) || flg < 0 {
				args = []string{args[0] + "=" + args[1]}
			}
		}
		if web {
			args = append(args, []string{"-w", "--web"}[r.Intn(2)])
			if r.P(1, 3) {
				args[0], args[len(args)-1] = args[len(args)-1], args[0]
				if len(args) == 3 {
					args[1], args[2] = args[2], args[1]
				}
			}
		}
		args = append(args, fmt.Sprintf("%s/%d", s.addr, cmd), pl)
		// what the server does
		act := r.Pick(0, 0, 0, 0, 1, 2, 3, 4)
		rcmd, rpl, rflg := uint32(pickInt(r, 0xffffff)), gen(r.Uint64(), r.Pick(0, 1, 20, 3000, 100000)), byte(r.Pick(0, 0, int(fStream), int(fStream|fEnd), int(fNB), 64, 128))
		if r.P(1, 2) {
			for k := range rpl {
				rpl[k] = ' ' + rpl[k]%95
			}
		}
		type res struct {
			out, all string
			code     int
		}
		ch := make(chan res, 1)
		go func() {
			o, a, code := tool(c, "qrpcurl", args...)
			ch <- res{o, a, code}
		}()
		refused := flg < 0 || flg > 255 || flg&int(fRst) != 0 || flg&int(qrpc.CodecFlag) != 0 && pl != ""
		key := fmt.Sprint("qrpcurl web ", web, " flag ", flg, " act ", act)
		head := fmt.Sprintf("[request]\nflag: %d\ncmd: %d\npayload:\n%s\n\n", flg, cmd, pl)
		// a connection may be made, but nothing is sent
		if refused {
			o := <-ch
			sent := 0
			for stale++; len(s.acc) > 0; stale-- {
				nc := <-s.acc
				nc.SetReadDeadline(time.Now().Add(20 * time.Second))
				b := make([]byte, 100)
				n, _ := nc.Read(b)
				sent += n
				nc.Close()
			}
			if sent > 0 || crashed(o.all, o.code) || strings.Contains(o.out, "[response]") {
				c.Violate("curl-accepts", "qrpcurl %q: %d bytes sent, exit %d: %s", args, sent, o.code, brief([]byte(o.all)))
			}
			c.Eval(key + " refused")
			continue
		}
		var nc net.Conn
		c.Do("connection of qrpcurl", func() { nc = <-s.acc })
		nc.SetReadDeadline(time.Now().Add(60 * time.Second))
		f, err := readWFrame(nc)
		// connections of refused runs may turn up late
		for ; err != nil && stale > 0; stale-- {
			nc.Close()
			c.Do("connection of qrpcurl", func() { nc = <-s.acc })
			nc.SetReadDeadline(time.Now().Add(60 * time.Second))
			f, err = readWFrame(nc)
		}
		if err != nil {
			o := <-ch
			c.Violate("curl-request", "qrpcurl %q: no frame arrived: %v: %s", args, err, brief([]byte(o.all)))
			return
		}
		// the tool does not ask for streams
		wflg := byte(flg) &^ 3
		if pl == "" {
			wflg &^= byte(qrpc.CodecFlag)
		}
		if f.Cmd != cmd || string(f.Payload) != pl || f.Flags != wflg || f.ID%2 != 1 {
			c.Violate("curl-request", "qrpcurl %q sent %v %s", args, f, brief(f.Payload))
		}
		want := head
		if flg&int(qrpc.PushFlag) == 0 {
			other := WFrame{ID: f.ID + 2, Cmd: 99, Payload: []byte("not for you")}
			switch act {
			case 1: // the connection ends instead
				nc.Close()
			case 2: // a reset instead
				nc.Write(WFrame{ID: f.ID, Cmd: 1, Flags: fRst}.Bytes())
			case 3: // a push and something else before
				nc.Write(append(WFrame{ID: 2, Cmd: 98, Flags: fPush, Payload: []byte("push")}.Bytes(), other.Bytes()...))
				fallthrough
			default:
				b := WFrame{ID: f.ID, Cmd: rcmd, Flags: rflg, Payload: rpl}.Bytes()
				k := 0
				if !web {
					k = r.Intn(len(b))
				}
				nc.Write(b[:k])
				if r.P(1, 3) {
					time.Sleep(10 * time.Millisecond)
				}
				nc.Write(b[k:])
				want += fmt.Sprintf("[response]\nflag: %d\ncmd: %d\npayload:\n%s\n", rflg, rcmd, rpl)
			}
		}
		o := <-ch
		if crashed(o.all, o.code) {
			c.Violate("curl-crash", "qrpcurl %q: exit %d: %s", args, o.code, brief([]byte(o.all)))
		}
		failed := act == 1 || act == 2
		if flg&int(qrpc.PushFlag) != 0 {
			failed = false
		}
		if failed && (strings.Contains(strings.TrimPrefix(o.out, head), "[response]") || o.all == "") || !failed && (o.out != want || o.code != 0) {
			c.Violate("curl-output", "qrpcurl %q (server %d): exit %d, printed %s, want %s (differ at %d)", args, act, o.code, brief([]byte(o.all)), brief([]byte(want)), diffAt([]byte(o.out), []byte(want)))
		}
		// nothing else was sent
		nc.SetReadDeadline(time.Now().Add(20 * time.Second))
		if f, err := readWFrame(nc); err == nil {
			c.Violate("curl-request", "qrpcurl %q sent another frame %v", args, f)
		}
		nc.Close()
		c.Eval(key)
	}
	c.Count("connections", int64(s.accepted()))
}

// c31refused: malformed targets are refused without connecting.
func c31refused(c *C) {
	r := c.Rng
	for _, web := range []bool{false, true} {
		s := newCurlServer(c, web)
		host, port, _ := net.SplitHostPort(s.addr)
		for _, t := range [][]string{
			{s.addr, "x"}, {s.addr + "/", "x"}, {s.addr + "/a", "x"}, {s.addr + "/-1", "x"}, {s.addr + "/16777216", "x"}, {s.addr + "/1/2", "x"}, {s.addr + "//1", "x"},
			{s.addr + "/1.5", "x"}, {s.addr + "/4294967297", "x"}, {s.addr + "/99999999999999999999", "x"}, {s.addr + "/1 ", "x"}, {s.addr + "/0x10", "x"},
			{host + "/1", "x"}, {s.addr + ":1/1", "x"}, {"http://" + s.addr + "/1", "x"}, {"/1", "x"}, {"/", "x"}, {"", "x"},
			{s.addr + "/1"}, {s.addr + "/1", "x", "y"}, {}, {s.addr + "/" + fmt.Sprint(1<<24+r.Intn(1<<30)), "x"}, {s.addr + "/-" + fmt.Sprint(1+r.Intn(1<<30)), "x"},
			{port + "/1", "x"}, {s.addr + "/" + strconv.Itoa(1<<24), ""},
		} {
			args := append([]string(nil), t...)
			if web {
				args = append([]string{"-w"}, args...)
			}
			before := s.accepted()
			o, all, code := tool(c, "qrpcurl", args...)
			c.Settle(1)
			if s.accepted() != before {
				c.Violate("curl-connects", "qrpcurl %q connected", args)
			}
			if crashed(all, code) || strings.Contains(o, "[request]") || all == "" {
				c.Violate("curl-refuses", "qrpcurl %q: exit %d: %s", args, code, brief([]byte(all)))
			}
			c.Eval(fmt.Sprint("refused ", web, len(t), strings.Replace(strings.Join(t, " "), s.addr, "addr", -1)))
		}
		// nothing listens there
		s.stop()
		args := []string{s.addr + "/1", "x"}
		if web {
			args = append([]string{"-w"}, args...)
		}
		o, all, code := tool(c, "qrpcurl", args...)
		if crashed(all, code) || strings.Contains(o, "[request]") || all == "" {
			c.Violate("curl-refuses", "qrpcurl %q: exit %d: %s", args, code, brief([]byte(all)))
		}
		c.Eval(fmt.Sprint("nobody listens ", web))
	}
	_ = r
}
