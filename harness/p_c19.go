package main

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C19", MinEv: 800,
		Rule: "one evaluation per call on a reconnecting connection (its answer must come from the connection that carried it, or it fails), per recovery after a series of losses or an outage, per connection opened (its dial configuration and moment are judged) and per Close followed to the return of Wait; distinct = (job, way of losing, addresses, channel size, moment of the close, kind of call)",
		Jobs: []JobSpec{
			{Name: "loss", Quick: 10, Deep: 80, Fn: c19loss},
			{Name: "outage", Quick: 6, Deep: 40, Fn: c19outage},
			{Name: "close", Quick: 8, Deep: 60, Fn: c19close},
			{Name: "tls", Quick: 4, Deep: 20, Fn: c19tls},
			{Name: "conf", Quick: 2, Deep: 10, Fn: c19conf},
		}})
}

// recServer is a server under full control: what it accepts, answers and breaks.
type recServer struct {
	c      *C
	addr   string
	tls    *tls.Config
	mu     sync.Mutex
	ln     net.Listener
	socks  map[net.Conn]int
	first  []byte // first byte of each connection
	serial *int64
	seen   *sync.Map // request id -> serial of the connection that carried it
	rng    *Rng
	lossP  int   // 1 in n frames kills the connection
	stale  int32 // answers on a new connection the ids of earlier ones
	how    int   // way of losing
	losses int64
	accs   int64
	frames int64
	mute   int32 // does not answer
	ids    []uint64
	ans    func(f WFrame, n int64) WFrame // what to answer
}

func newRecServer(c *C, serial *int64, seen *sync.Map) *recServer {
	return &recServer{c: c, addr: ownAddr(), socks: map[net.Conn]int{}, serial: serial, seen: seen, rng: c.Rng.Fork()}
}

func (s *recServer) up() {
	ln, err := net.Listen("tcp", s.addr)
	for i := 0; err != nil && i < 100; i++ {
		time.Sleep(20 * time.Millisecond)
		ln, err = net.Listen("tcp", s.addr)
	}
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	s.ln = ln
	s.mu.Unlock()
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			// accepted while going down
			s.mu.Lock()
			gone := s.ln != ln
			if !gone {
				s.socks[nc] = 0
			}
			s.mu.Unlock()
			if gone {
				nc.Close()
				continue
			}
			atomic.AddInt64(&s.accs, 1)
			go s.serve(nc)
		}
	}()
}

// down stops accepting and drops everything.
func (s *recServer) down() {
	s.mu.Lock()
	if s.ln != nil {
		s.ln.Close()
		s.ln = nil
	}
	s.mu.Unlock()
	s.drop()
}

func (s *recServer) drop() {
	s.mu.Lock()
	for nc := range s.socks {
		nc.Close()
	}
	s.mu.Unlock()
}

func (s *recServer) open() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.socks) }

func (s *recServer) serve(raw net.Conn) {
	nc := raw
	if s.tls != nil {
		nc = tls.Server(raw, s.tls)
	}
	n := atomic.AddInt64(s.serial, 1)
	s.mu.Lock()
	s.socks[raw] = int(n)
	old := append([]uint64(nil), s.ids...)
	s.mu.Unlock()
	defer func() {
		raw.Close()
		s.mu.Lock()
		delete(s.socks, raw)
		s.mu.Unlock()
	}()
	if atomic.LoadInt32(&s.stale) != 0 {
		// answers to what was asked on connections that are gone
		if len(old) > 40 {
			old = old[len(old)-40:]
		}
		for _, id := range old {
			nc.Write(WFrame{ID: id, Cmd: 0xbad, Payload: []byte("stale")}.Bytes())
		}
	}
	var wmu sync.Mutex
	var torn bool // nothing follows half an answer
	for {
		f, err := readWFrame(nc)
		if err != nil {
			return
		}
		atomic.AddInt64(&s.frames, 1)
		if f.Flags&fPush != 0 || f.ID%2 == 0 || f.Flags&fRst != 0 {
			continue
		}
		if prev, dup := s.seen.LoadOrStore(f.ID, n); dup && s.ans == nil && f.Flags&(fStream|fEnd) == 0 {
			s.c.Violate("resent", "request %d was sent on connection %d and again on connection %d", f.ID, prev, n)
		}
		if f.Flags&fEnd == 0 && f.Flags&fStream != 0 {
			continue // the answer comes with the end
		}
		s.mu.Lock()
		s.ids = append(s.ids, f.ID)
		s.mu.Unlock()
		var lossAt bool
		if s.lossP > 0 {
			lossAt = s.rng.P(1, s.lossP)
		}
		p := make([]byte, 8, 8+16)
		binary.BigEndian.PutUint64(p, uint64(n))
		p = append(p, gen(h64(f.Payload), 16)...)
		out := WFrame{ID: f.ID, Cmd: 0xa5, Payload: p}.Bytes()
		if s.ans != nil {
			out = s.ans(f, n).Bytes()
		}
		if lossAt {
			atomic.AddInt64(&s.losses, 1)
			switch s.how {
			case 0:
			case 1:
				if tc, ok := raw.(*net.TCPConn); ok {
					tc.SetLinger(0)
				}
			case 2: // in the middle of the answer
				wmu.Lock()
				torn = true
				nc.Write(out[:s.rng.Intn(len(out))])
				wmu.Unlock()
			case 3: // after garbage
				wmu.Lock()
				torn = true
				nc.Write([]byte{0, 0, 0, 1, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9})
				wmu.Unlock()
				time.Sleep(time.Duration(s.rng.Intn(500)) * time.Microsecond)
			}
			return
		}
		if atomic.LoadInt32(&s.mute) != 0 {
			continue
		}
		if s.rng.P(1, 6) { // late, so that losses find something pending
			go func() {
				time.Sleep(time.Duration(s.rng.Intn(1500)) * time.Microsecond)
				wmu.Lock()
				if !torn {
					nc.Write(out)
				}
				wmu.Unlock()
			}()
			continue
		}
		wmu.Lock()
		nc.Write(out)
		wmu.Unlock()
	}
}

// recCall makes one call and judges the answer.
func recCall(c *C, conn *qrpc.Connection, r *Rng, seen *sync.Map, key string) bool {
	p := gen(r.Uint64(), r.Pick(8, 30, 2000))
	var id uint64
	var resp qrpc.Response
	var err error
	kind := r.Intn(3)
	done := make(chan struct{})
	var f *qrpc.Frame
	go func() {
		defer close(done)
		switch kind {
		case 2:
			var sw qrpc.StreamWriter
			sw, resp, err = conn.StreamRequest(0xa1, 0, p)
			if err == nil {
				id = sw.RequestID()
				sw.StartWrite(0xa1)
				sw.WriteBytes(p)
				err = sw.EndWrite(true)
			}
		default:
			fl := qrpc.FrameFlag(0)
			if kind == 1 {
				fl = qrpc.NBFlag
			}
			id, resp, err = conn.Request(0xa1, fl, p)
		}
		if err == nil {
			f, err = resp.GetFrame()
		}
	}()
	c.Must("call on a reconnecting connection", done)
	if err != nil {
		c.Eval(fmt.Sprint(key, " failed ", kind))
		return false
	}
	if len(f.Payload) != 24 || f.Cmd != 0xa5 {
		c.Violate("answer", "request %d was completed with cmd %#x %s", id, f.Cmd, brief(f.Payload))
		return false
	}
	from := int64(binary.BigEndian.Uint64(f.Payload))
	on, ok := seen.Load(id)
	if !ok || on.(int64) != from {
		c.Violate("later-answer", "request %d went out on connection %v, its answer came from connection %d", id, on, from)
	}
	if !same(f.Payload[8:], gen(h64(p), 16)) {
		c.Violate("answer", "request %d got the answer of another one", id)
	}
	c.Eval(fmt.Sprint(key, " answered ", kind))
	return true
}

// c19loss: connection after connection is lost under load; the addresses stay up.
func c19loss(c *C) {
	r := c.Rng
	var serial int64
	seen := &sync.Map{}
	var servers []*recServer
	var addrs []string
	how := c.K % 5
	handler := r.P(1, 2)
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		s := newRecServer(c, &serial, seen)
		s.how = how % 4
		s.lossP = r.Pick(6, 20, 60)
		if !handler && r.P(2, 3) { // a client that serves requests itself hangs up on these
			s.stale = 1
		}
		s.up()
		servers = append(servers, s)
		addrs = append(addrs, s.addr)
	}
	conf := qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1, 8), DialTimeout: 10 * time.Second}
	if handler {
		conf.Handler = echoHandler
	}
	if how == 4 { // the client's side breaks
		rr := r.Fork()
		conf.OverlayNetwork = overlayWith(func(nc net.Conn) net.Conn {
			p := Policy{Rng: rr.Fork(), WChunk: 100}
			if rr.P(1, 2) {
				p.CutW = int64(rr.Range(1, 6000))
			} else {
				p.CutR = int64(rr.Range(1, 3000))
			}
			return wrapConn(nc, p)
		})
	}
	key := fmt.Sprint("loss ", how, len(addrs), conf.WriteFrameChSize)
	conn := qrpc.NewConnectionWithReconnect(addrs, conf, nil)
	var ok int64
	done := parallel(6, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 60 && !c.Violated(); k++ {
			if recCall(c, conn, rr, seen, key) {
				atomic.AddInt64(&ok, 1)
			} else {
				time.Sleep(time.Duration(rr.Intn(1000)) * time.Microsecond)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*3, stallTicks*3) {
		c.StallAbort("calls on a reconnecting connection")
	}
	for _, s := range servers {
		s.lossP = 0
		c.Count("losses", atomic.LoadInt64(&s.losses))
	}
	if how != 4 {
		c19recovers(c, conn, r, seen, key)
	}
	c.Count("connections", atomic.LoadInt64(&serial))
	c.Count("answered", ok)
	closeConn(c, conn)
	for _, s := range servers {
		s := s
		c.MustUntil("end of the sockets after Close", func() bool { return s.open() == 0 })
		s.down()
	}
}

// c19recovers: after the last loss calls succeed again, and stay so.
func c19recovers(c *C, conn *qrpc.Connection, r *Rng, seen *sync.Map, key string) {
	c.MustUntil("recovery after losses", func() bool { return recCall(c, conn, r, seen, key) || c.Violated() })
	// a connection that was lost last may still be noticed; from the first success in a row of these on, none fails
	for i := 0; i < 3; i++ {
		row := 0
		for ; row < 10; row++ {
			if !recCall(c, conn, r, seen, key) {
				break
			}
		}
		if row == 10 {
			c.Eval(key + " recovered")
			return
		}
	}
	if !c.Violated() {
		c.Violate("recovery", "after the last loss calls keep failing")
	}
}

// c19outage: for a while no address accepts; or only one does.
func c19outage(c *C) {
	r := c.Rng
	var serial int64
	seen := &sync.Map{}
	n := r.Range(1, 3)
	var servers []*recServer
	var addrs []string
	for i := 0; i < n; i++ {
		s := newRecServer(c, &serial, seen)
		servers = append(servers, s)
		addrs = append(addrs, s.addr)
	}
	startDown := r.P(1, 3)
	if !startDown {
		for _, s := range servers {
			s.up()
		}
	}
	key := fmt.Sprint("outage ", n, startDown)
	conn := qrpc.NewConnectionWithReconnect(addrs, qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 2), DialTimeout: 10 * time.Second}, nil)
	for cycle := 0; cycle < 2 && !c.Violated(); cycle++ {
		if !startDown || cycle > 0 {
			c19recovers(c, conn, r, seen, key)
			// pending ones at the moment of the loss
			pend := parallel(4, func(g int) {
				rr := NewRng(int64(mix(uint64(c.Seed), uint64(g), uint64(cycle))))
				for k := 0; k < 10; k++ {
					recCall(c, conn, rr, seen, key+" during")
				}
			})
			for _, s := range servers {
				s.down()
			}
			c.Must("calls pending when everything went down", pend)
		}
		for k := 0; k < 5; k++ { // nobody accepts: calls return with an error
			if recCall(c, conn, r, seen, key+" down") {
				c.Violate("answer", "a call was answered while no server was up")
			}
		}
		if r.P(1, 2) {
			servers[r.Intn(n)].up()
		} else {
			for _, s := range servers {
				s.up()
			}
		}
		for _, s := range servers { // those that are down still
			s.mu.Lock()
			if s.ln == nil && r.P(1, 2) {
				s.mu.Unlock()
				continue
			}
			s.mu.Unlock()
		}
		c19recovers(c, conn, r, seen, key)
		for _, s := range servers {
			s.mu.Lock()
			down := s.ln == nil
			s.mu.Unlock()
			if down {
				s.up()
			}
		}
	}
	c.Count("connections", atomic.LoadInt64(&serial))
	closeConn(c, conn)
	for _, s := range servers {
		s.down()
	}
}

// dialLog watches every dial of a connection.
type dialLog struct {
	begun, ended int64
	mu           sync.Mutex
	confs        []qrpc.DialConfig
	socks        []*closeWatch
	gate         chan struct{} // non nil: dials wait for it
	inDial       int32
}

type closeWatch struct {
	net.Conn
	closed int32
}

func (w *closeWatch) Close() error { atomic.StoreInt32(&w.closed, 1); return w.Conn.Close() }

func (d *dialLog) dial(addr string, dc qrpc.DialConfig) (net.Conn, error) {
	atomic.AddInt64(&d.begun, 1)
	atomic.AddInt32(&d.inDial, 1)
	defer atomic.AddInt32(&d.inDial, -1)
	defer atomic.AddInt64(&d.ended, 1)
	d.mu.Lock()
	d.confs = append(d.confs, dc)
	gate := d.gate
	d.mu.Unlock()
	nc, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if gate != nil {
		<-gate
	}
	if err != nil {
		return nil, err
	}
	w := &closeWatch{Conn: nc}
	d.mu.Lock()
	d.socks = append(d.socks, w)
	d.mu.Unlock()
	return w, nil
}

// c19close: Close at any moment ends everything, for good.
func c19close(c *C) {
	r := c.Rng
	for round := 0; round < 14 && !c.Violated(); round++ {
		var serial int64
		seen := &sync.Map{}
		s := newRecServer(c, &serial, seen)
		moment := r.Intn(6)
		addrs := []string{s.addr}
		dead := ownAddr()
		if r.P(1, 3) {
			addrs = append(addrs, dead)
		}
		if moment != 0 {
			s.up()
		}
		d := &dialLog{}
		gate := make(chan struct{})
		conf := qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 1, 6), OverlayNetwork: d.dial}
		if r.P(1, 2) {
			conf.Handler = echoHandler
		}
		conn := qrpc.NewConnectionWithReconnect(addrs, conf, func(*qrpc.Connection, *qrpc.Frame) {})
		stop := make(chan struct{})
		var closedAt int32
		var wg sync.WaitGroup
		call := func(g int) {
			defer wg.Done()
			rr := NewRng(int64(mix(uint64(c.Seed), uint64(round), uint64(g))))
			for {
				after := atomic.LoadInt32(&closedAt) != 0
				ok := recCall(c, conn, rr, seen, fmt.Sprint("close ", moment))
				if after && ok {
					c.Violate("after-close", "a call issued after Close was answered")
				}
				select {
				case <-stop:
					return
				default:
					time.Sleep(time.Duration(rr.Intn(300)) * time.Microsecond)
				}
			}
		}
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go call(g)
		}
		switch moment {
		case 0: // nobody ever accepted
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		case 1: // right away
		case 2: // calls pending
			atomic.StoreInt32(&s.mute, 1)
			c.MustUntil("pending calls", func() bool { return atomic.LoadInt64(&s.frames) > 0 })
		case 3: // while dialing again
			d.mu.Lock()
			d.gate = gate
			d.mu.Unlock()
			n := atomic.LoadInt64(&d.begun)
			c.MustUntil("dial", func() bool {
				s.drop()
				return atomic.LoadInt64(&d.begun) > n && atomic.LoadInt32(&d.inDial) > 0
			})
		case 4: // about a loss
			go s.drop()
			time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
		case 5: // during an outage
			s.down()
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
		var closers int64
		done := parallel(r.Range(1, 3), func(int) {
			if conn.Close() == nil {
				atomic.AddInt64(&closers, 1)
			}
		})
		c.Must("Close", done)
		atomic.StoreInt32(&closedAt, 1)
		begun := atomic.LoadInt64(&d.begun)
		if closers != 1 {
			c.Violate("close-result", "%d of several concurrent Close calls succeeded", closers)
		}
		if !conn.IsClosed() || !closedCh(conn.Done()) {
			c.Violate("close-result", "after Close: IsClosed %v, Done closed %v", conn.IsClosed(), closedCh(conn.Done()))
		}
		if r.P(1, 2) && moment == 3 {
			c.Settle(1)
		}
		close(gate)
		s.mu.Lock()
		down := s.ln == nil
		s.mu.Unlock()
		if down && r.P(1, 2) {
			s.up() // an address that accepts again must not be used
		}
		c.Do("Wait after Close", conn.Wait)
		close(stop)
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		c.Must("calls outstanding at Close", fin)
		end := atomic.LoadInt64(&d.begun)
		if end > begun+1 {
			c.Violate("dials", "%d dials began after Close had returned", end-begun)
		}
		c.Settle(2)
		if n := atomic.LoadInt64(&d.begun); n != end {
			c.Violate("dials", "%d dials began after Wait had returned", n-end)
		}
		d.mu.Lock()
		for _, w := range d.socks {
			if atomic.LoadInt32(&w.closed) == 0 {
				c.Violate("open", "Wait returned, a connection it opened is not closed (moment %d)", moment)
			}
		}
		d.mu.Unlock()
		if recCall(c, conn, r, seen, "close after") {
			c.Violate("after-close", "a call issued after Close was answered")
		}
		if err := conn.Close(); err != qrpc.ErrConnAlreadyClosed {
			c.Violate("close-result", "Close again returned %v", err)
		}
		c.Eval(fmt.Sprint("closed ", moment, len(addrs), conf.WriteFrameChSize, end > begun))
		s.down()
	}
}

// c19tls: every connection, also those made again, is TLS with the given configuration.
func c19tls(c *C) {
	r := c.Rng
	st, ct := tlsConfs()
	var serial int64
	seen := &sync.Map{}
	s := newRecServer(c, &serial, seen)
	s.tls = st.Clone()
	s.lossP = 8
	s.how = r.Pick(0, 1)
	s.up()
	conf := qrpc.ConnectionConfig{TLSConf: ct.Clone(), WriteFrameChSize: r.Pick(0, 2), DialTimeout: 10 * time.Second}
	conn := qrpc.NewConnectionWithReconnect([]string{s.addr}, conf, nil)
	done := parallel(3, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 25 && !c.Violated(); k++ {
			if !recCall(c, conn, rr, seen, "tls") {
				time.Sleep(time.Millisecond)
			}
		}
	})
	c.Must("calls over tls", done)
	s.lossP = 0
	c19recovers(c, conn, r, seen, "tls")
	closeConn(c, conn)
	s.down()
	// against a listener that only looks at the first byte and never lets the handshake succeed
	ln, err := net.Listen("tcp", ownAddr())
	if err != nil {
		panic(err)
	}
	var looked, clear int64
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer nc.Close()
				b := make([]byte, 1)
				nc.SetReadDeadline(time.Now().Add(5 * time.Second))
				if n, _ := nc.Read(b); n == 1 {
					atomic.AddInt64(&looked, 1)
					if b[0] != 0x16 {
						atomic.AddInt64(&clear, 1)
					}
				}
			}()
		}
	}()
	conn = qrpc.NewConnectionWithReconnect([]string{ln.Addr().String()}, conf, nil)
	c.MustUntil("handshakes", func() bool { return atomic.LoadInt64(&looked) >= 2 })
	for k := 0; k < 5; k++ {
		if recCall(c, conn, r, seen, "tls refused") {
			c.Violate("answer", "a call was answered by a peer that never completed the handshake")
		}
	}
	if clear != 0 {
		c.Violate("cleartext", "%d connections with TLS configured began in clear text", clear)
	}
	c.Eval("tls first byte")
	closeConn(c, conn)
	ln.Close()
	// a server certificate nobody vouches for
	cert, _ := makeCert("evil")
	s2 := newRecServer(c, &serial, seen)
	s2.tls = &tls.Config{Certificates: []tls.Certificate{cert}}
	s2.up()
	conn = qrpc.NewConnectionWithReconnect([]string{s2.addr}, conf, nil)
	for k := 0; k < 5; k++ {
		if recCall(c, conn, r, seen, "tls untrusted") {
			c.Violate("untrusted", "a call was answered by a peer whose certificate is not trusted")
		}
	}
	if n := atomic.LoadInt64(&s2.frames); n != 0 {
		c.Violate("untrusted", "%d frames were sent to a peer whose certificate is not trusted", n)
	}
	closeConn(c, conn)
	s2.down()
}

// c19conf: what the overlay is given at every dial.
func c19conf(c *C) {
	r := c.Rng
	_, ct := tlsConfs()
	var serial int64
	seen := &sync.Map{}
	s := newRecServer(c, &serial, seen)
	s.lossP = 4
	s.up()
	d := &dialLog{}
	tc := ct.Clone()
	conf := qrpc.ConnectionConfig{DialTimeout: time.Duration(r.Range(1, 9)) * time.Second, WBufSize: r.Range(1000, 9000), RBufSize: r.Range(1000, 9000), TLSConf: tc, OverlayNetwork: d.dial}
	conn := qrpc.NewConnectionWithReconnect([]string{s.addr}, conf, nil)
	for k := 0; k < 60 && !c.Violated(); k++ {
		if !recCall(c, conn, r, seen, "conf") {
			time.Sleep(time.Millisecond)
		}
	}
	closeConn(c, conn)
	d.mu.Lock()
	for i, dc := range d.confs {
		if dc.DialTimeout != conf.DialTimeout || dc.WBufSize != conf.WBufSize || dc.RBufSize != conf.RBufSize || dc.TLSConf != tc {
			c.Violate("dial-conf", "dial %d was given %+v, configured %v %d %d", i, dc, conf.DialTimeout, conf.WBufSize, conf.RBufSize)
		}
		c.Eval(fmt.Sprint("conf dial ", i == 0))
	}
	d.mu.Unlock()
	// the same for a single connection
	d2 := &dialLog{}
	conf.OverlayNetwork = d2.dial
	one, err := qrpc.NewConnection(s.addr, conf, nil)
	if err == nil {
		closeConn(c, one)
		if dc := d2.confs[0]; dc.DialTimeout != conf.DialTimeout || dc.WBufSize != conf.WBufSize || dc.RBufSize != conf.RBufSize || dc.TLSConf != tc {
			c.Violate("dial-conf", "NewConnection dialed with %+v", dc)
		}
		c.Eval("conf single")
	}
	s.down()
}

var _ = context.Background
