package main

import (
	"net"

	"github.com/zhiqiangxu/qrpc"
)

// initiator is the side that opens requests.
type initiator interface {
	Request(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (uint64, qrpc.Response, error)
	StreamRequest(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (qrpc.StreamWriter, qrpc.Response, error)
	IsClosed() bool
}

// pair is one connection whose requests are opened by one side and served by a handler at the other.
type pair struct {
	c     *C
	rev   bool // requests are opened by the server
	open  initiator
	conn  *qrpc.Connection
	ci    *qrpc.ConnectionInfo
	srv   *Srv
	reset func(id uint64, reason qrpc.Cmd) error
}

type pairOpt struct {
	rev        bool
	mode       string
	binding    qrpc.ServerBinding
	conf       qrpc.ConnectionConfig
	wrapS      func(i int, nc net.Conn) net.Conn
	wrapC      func(nc net.Conn) net.Conn
	sub        qrpc.SubFunc
	otherSide  qrpc.Handler // the handler at the opening side, default echo
	noInfoWait bool
}

func newPair(c *C, o pairOpt, h qrpc.Handler) *pair {
	p := &pair{c: c, rev: o.rev}
	if o.mode == "" {
		o.mode = "tcp"
	}
	other := o.otherSide
	if other == nil {
		other = echoHandler
	}
	if o.rev {
		o.conf.Handler = h
		o.binding.Handler = other
	} else {
		o.binding.Handler = h
		if o.otherSide != nil {
			o.conf.Handler = other
		}
	}
	p.srv = startServer(c, o.mode, o.wrapS, o.binding)
	if o.wrapC != nil {
		o.conf.OverlayNetwork = overlayWith(o.wrapC)
	}
	p.conn = p.srv.dial(o.conf, o.sub)
	c.MustUntil("registration of the connection", func() bool {
		p.srv.S.WalkConn(0, func(_ qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool { p.ci = ci; return false })
		return p.ci != nil
	})
	if o.rev {
		p.open = p.ci
		p.reset = func(id uint64, reason qrpc.Cmd) error { return p.ci.GetWriter().ResetFrame(id, reason) }
	} else {
		p.open = p.conn
		p.reset = p.conn.ResetFrame
	}
	return p
}

// call is one request by the opening side.
func (p *pair) call(cmd uint32, flags qrpc.FrameFlag, pl []byte) (f *qrpc.Frame, err error) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		var resp qrpc.Response
		_, resp, err = p.open.Request(qrpc.Cmd(cmd), flags, pl)
		if err == nil {
			f, err = resp.GetFrame()
		}
	}()
	p.c.Must("call on an open connection", done)
	return
}

// echo checks one healthy request.
func (p *pair) echo(sig, why string, cmd uint32, flags qrpc.FrameFlag, pl []byte) bool {
	f, err := p.call(cmd, flags, pl)
	if err != nil {
		p.c.Violate(sig, "%s: request cmd=%#x flags=%#x failed: %v", why, cmd, flags, err)
		return false
	}
	rc, rp := respFor(cmd, pl)
	if uint32(f.Cmd) != rc || !same(f.Payload, rp) {
		p.c.Violate(sig, "%s: wrong answer cmd=%#x %s, want cmd=%#x %s", why, f.Cmd, brief(f.Payload), rc, brief(rp))
		return false
	}
	return true
}

func (p *pair) stop() {
	closeConn(p.c, p.conn)
	p.srv.Stop()
}

func dirName(rev bool) string {
	if rev {
		return "server->client"
	}
	return "client->server"
}
