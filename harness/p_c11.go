package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C11", MinEv: 500,
		Rule: "one evaluation per frame on the wire matched byte for byte with the write that produced it while poisoned frames are abandoned, refused or fail around it, or per retained payload that was compared again later; distinct = (side, frame kind, size class, how the poison was disposed of, channel size)",
		Jobs: []JobSpec{
			{Name: "poison", Quick: 8, Deep: 60, Fn: c11poison},
			{Name: "retain", Quick: 3, Deep: 20, Fn: c11retain},
			{Name: "churn", Quick: 6, Deep: 40, Fn: c11churn},
			{Name: "churn-client", Quick: 6, Deep: 40, Fn: c11churnClient},
		}})
}

var poisonMark = []byte("POISONpoisonPOISON")

func poison(n int) []byte {
	b := bytes.Repeat(poisonMark, n/len(poisonMark)+1)
	return b[:n+4]
}

// failCodec refuses to encode poison.
type failCodec struct{ failed int64 }

func (f *failCodec) Encode(b []byte) ([]byte, error) {
	if bytes.HasPrefix(b, []byte("PO")) {
		atomic.AddInt64(&f.failed, 1)
		return nil, errors.New("refused by the codec")
	}
	return append([]byte{}, b...), nil
}
func (f *failCodec) Decode(b []byte) ([]byte, error) { return b, nil }

// put writes one frame and scribbles over the slices it was made from.
func put(w qrpc.FrameWriter, f WFrame, pieces int) error {
	w.StartWrite(f.ID, qrpc.Cmd(f.Cmd), qrpc.FrameFlag(f.Flags))
	var bufs [][]byte
	p := f.Payload
	for i := 0; i < pieces; i++ {
		n := len(p) / (pieces - i)
		b := append([]byte(nil), p[:n]...)
		p = p[n:]
		w.WriteBytes(b)
		for j := range b {
			b[j] = "POISON"[j%6]
		}
		bufs = append(bufs, b)
	}
	err := w.EndWrite()
	for _, b := range bufs {
		for j := range b {
			b[j] = 0xEE
		}
	}
	return err
}

// spoil uses the writer for a frame that does not go out.
func spoil(c *C, w qrpc.FrameWriter, id uint64, how int, size int) string {
	switch how {
	case 0: // nobody has this id
		w.StartWrite(id+1000000, 9, 0)
		w.WriteBytes(poison(size))
		if w.EndWrite() == nil {
			c.Violate("accepted", "a write to a request that does not exist was accepted")
		}
		return "refused"
	case 1: // the codec fails, or there is none
		w.StartWrite(id, 9, qrpc.CodecFlag)
		w.WriteBytes(poison(size))
		if w.EndWrite() == nil {
			c.Violate("accepted", "a write the codec refused was accepted")
		}
		return "codec"
	case 2: // payload, then a reset of something that does not exist
		w.StartWrite(id, 9, 0)
		w.WriteBytes(poison(size))
		if w.ResetFrame(id+1000000, 1) == nil {
			c.Violate("accepted", "a reset of nothing was accepted")
		}
		return "reset-nothing"
	}
	return "none"
}

func c11poison(c *C) {
	r := c.Rng
	rev := c.K%3 == 2
	lg := newWlog()
	tap, ctap := &Tap{}, &Tap{}
	clg := newWlog()
	hr := r.Fork()
	var codec qrpc.CompressorCodec
	if r.P(1, 2) {
		codec = &failCodec{}
	}
	var left int64
	var wid int32
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		defer atomic.AddInt64(&left, -1)
		me := int(atomic.AddInt32(&wid, 1))
		go func() {
			for range q.FrameCh() {
			}
		}()
		how := ""
		n := hr.Intn(3)
		for i := 0; i < n; i++ {
			how = spoil(c, w, q.RequestID, hr.Intn(4), hr.Pick(1, 50, 1100, 5000))
			f := WFrame{ID: q.RequestID, Flags: fStream, Cmd: uint32(hr.Intn(1 << 24)), Payload: gen(hr.Uint64(), hr.Pick(0, 10, 1000, 2000))}
			if err := put(w, f, hr.Range(1, 4)); err != nil {
				c.Violate("refused", "frame %d: %v", i, err)
			} else {
				lg.ok(me, f)
			}
		}
		how = spoil(c, w, q.RequestID, hr.Intn(4), hr.Pick(1, 50, 1100, 5000))
		rst := func() { lg.ok(me, WFrame{ID: q.RequestID, Flags: fRst}) }
		switch v := hr.Intn(6); v {
		case 0, 1:
			f := WFrame{ID: q.RequestID, Flags: fStream | fEnd, Cmd: uint32(hr.Intn(1 << 24)), Payload: gen(hr.Uint64(), hr.Pick(0, 10, 1000, 2000))}
			if err := put(w, f, hr.Range(1, 4)); err != nil {
				c.Violate("refused", "last frame: %v", err)
			} else {
				lg.ok(me, f)
			}
			if hr.P(1, 2) { // after the end: refused, or abandoned
				w.StartWrite(q.RequestID, 1, 0)
				w.WriteBytes(poison(200))
				if hr.P(1, 2) && w.EndWrite() == nil {
					c.Violate("accepted", "write after the end accepted")
				}
				how += "+after"
			}
		case 2:
			w.StartWrite(q.RequestID, 1, 0)
			w.WriteBytes(poison(hr.Pick(1, 300, 3000)))
			how += "+abandoned"
			rst()
		case 3:
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes(poison(hr.Pick(1, 300, 3000)))
			how += "+panicked"
			rst()
			panic("abandoning a frame")
		case 4:
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes(poison(hr.Pick(1, 300, 3000)))
			reason := uint32(hr.Intn(1 << 24))
			if err := w.ResetFrame(q.RequestID, qrpc.Cmd(reason)); err != nil {
				c.Violate("refused", "reset: %v", err)
			} else {
				lg.ok(me, WFrame{ID: q.RequestID, Flags: fRst, Cmd: reason})
			}
			how += "+reset"
		case 5:
			how += "+returned"
			rst()
		}
		c.Eval(fmt.Sprint("handler", rev, how, n, codec != nil))
	})
	scs, ccs := r.Pick(1, 3, 100), r.Pick(0, 3, 100)
	o := pairOpt{rev: rev, binding: qrpc.ServerBinding{WriteFrameChSize: scs, Codec: codec, SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {}}, conf: qrpc.ConnectionConfig{WriteFrameChSize: ccs, Codec: codec},
		sub: func(*qrpc.Connection, *qrpc.Frame) {}}
	mine, theirs := tap, ctap
	if rev {
		mine, theirs = ctap, tap
	}
	o.wrapS = func(_ int, nc net.Conn) net.Conn { return wrapConn(nc, Policy{TapW: mine}) }
	o.wrapC = func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{TapW: theirs}) }
	p := newPair(c, o, h)
	const G = 6
	rngs := []*Rng{}
	for i := 0; i < G+1; i++ {
		rngs = append(rngs, r.Fork())
	}
	atomic.StoreInt64(&left, G*20)
	done := parallel(G+1, func(g int) {
		r := rngs[g]
		if g == G { // pushes from the serving side, half of them abandoned
			for k := 0; k < 60 && !c.Violated(); k++ {
				var w qrpc.FrameWriter
				if rev {
					return // a client pushes by requests only
				}
				w = p.ci.GetWriter()
				if r.P(1, 2) {
					w.StartWrite(uint64(k), 1, qrpc.PushFlag)
					w.WriteBytes(poison(100))
					continue
				}
				spoil(c, w, 5, r.Pick(1, 2), 50)
				f := WFrame{ID: uint64(k) + 50000, Flags: fPush, Cmd: uint32(k), Payload: gen(r.Uint64(), r.Pick(8, 1000))}
				if err := put(w, f, 2); err != nil {
					c.Violate("refused", "push: %v", err)
				} else {
					lg.ok(1000000+k, f)
				}
			}
			return
		}
		for k := 0; k < 20 && !c.Violated(); k++ {
			if _, _, err := p.open.Request(1, qrpc.NBFlag|qrpc.CodecFlag, poison(r.Pick(1, 500))); err == nil {
				c.Violate("accepted", "a request the codec refused was accepted")
			}
			pl := gen(r.Uint64(), r.Pick(8, 100, 1500))
			b := append([]byte(nil), pl...)
			if r.P(1, 2) {
				fl := byte(r.Pick(0, int(fNB)))
				if rev {
					fl = fNB
				}
				id, resp, err := p.open.Request(2, qrpc.FrameFlag(fl), b)
				for i := range b {
					b[i] = "POISON"[i%6]
				}
				if err != nil {
					c.Violate("refused", "request: %v", err)
					return
				}
				clg.ok(g, WFrame{ID: id, Flags: fl, Cmd: 2, Payload: pl})
				go func() {
					if f, err := resp.GetFrame(); err == nil {
						drain(f)
					}
				}()
				continue
			}
			sw, resp, err := p.open.StreamRequest(2, 0, b)
			for i := range b {
				b[i] = "POISON"[i%6]
			}
			if err != nil {
				c.Violate("refused", "stream: %v", err)
				return
			}
			id := sw.RequestID()
			clg.ok(g, WFrame{ID: id, Flags: fStream, Cmd: 2, Payload: pl})
			go func() {
				if f, err := resp.GetFrame(); err == nil {
					drain(f)
				}
			}()
			for j := r.Intn(3); j > 0; j-- {
				sw.StartWrite(3)
				pl := gen(r.Uint64(), r.Pick(8, 30, 1200))
				b := append([]byte(nil), pl...)
				sw.WriteBytes(b)
				for i := range b {
					b[i] = "POISON"[i%6]
				}
				if sw.EndWrite(false) == nil { // refused if the handler's reset came first
					clg.ok(g, WFrame{ID: id, Flags: fStream, Cmd: 3, Payload: pl})
				}
			}
			switch r.Intn(3) {
			case 0:
				sw.StartWrite(4)
				if sw.EndWrite(true) == nil {
					clg.ok(g, WFrame{ID: id, Flags: fStream | fEnd, Cmd: 4})
				}
				sw.StartWrite(4)
				sw.WriteBytes(poison(100))
				if sw.EndWrite(true) == nil {
					c.Violate("accepted", "write after the end accepted")
				}
			case 1:
				sw.StartWrite(4)
				sw.WriteBytes(poison(100))
				sw.ResetFrame(5) // goes out unless the stream is already over
			case 2:
				sw.StartWrite(4)
				sw.WriteBytes(poison(100)) // abandoned, the stream stays open until reset
				p.reset(id, 5)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("writers next to abandoned frames")
	}
	c.MustUntil("all handlers", func() bool { return atomic.LoadInt64(&left) == 0 || c.Violated() })
	// a last echo through each writer path, so that late poison would show
	c.Settle(5)
	n := 0
	c.Until(func() bool { fs, _, _ := parseWire(tap.Bytes()); n = len(fs); return n >= lg.total() })
	if !c.Violated() {
		lg.match(c, dirName(rev)+" serving side", "poison", scs, tap.Bytes())
		// the opening side: resets may or may not have gone out
		fs, rest, err := parseWire(ctap.Bytes())
		if err != nil || len(rest) > 0 {
			c.Violate("wire-format", "opening side: err=%v rest=%s", err, brief(rest))
		}
		var b []byte
		for _, f := range fs {
			if f.Flags&fRst != 0 {
				if len(f.Payload) > 0 {
					c.Violate("wire-extra", "a reset carries payload: %v %s", f, brief(f.Payload))
				}
				continue
			}
			b = append(b, f.Bytes()...)
		}
		clg.match(c, dirName(rev)+" opening side", "poison", ccs, b)
	}
	for i, t := range []*Tap{tap, ctap} {
		if bytes.Contains(t.Bytes(), []byte("POISON")) {
			c.Violate("poison", "bytes of an abandoned, refused or changed buffer are on the wire (side %d, rev=%v)", i, rev)
		}
	}
	p.stop()
}

// c11retain: received payloads stay what they are; scribbling over one changes no other.
func c11retain(c *C) {
	r := c.Rng
	type kept struct {
		p []byte
		h uint64
	}
	var mu sync.Mutex
	var all []kept
	keep := func(p []byte, scribble bool) {
		mu.Lock()
		defer mu.Unlock()
		if scribble {
			for i := range p {
				p[i] = 0xEE
			}
			if cap(p) > len(p) { // what append would reach
				q := p[:cap(p)]
				for i := len(p); i < len(q); i++ {
					q[i] = 0xEE
				}
			}
		}
		all = append(all, kept{p, h64(p)})
	}
	var cnt int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		n := atomic.AddInt64(&cnt, 1)
		answer(w, q)
		keep(q.Payload, n%3 == 0)
		for f := range q.FrameCh() {
			keep(f.Payload, n%3 == 0)
		}
	})
	var codec qrpc.CompressorCodec
	if r.P(1, 2) {
		codec = &zlibCodec{}
	}
	p := newPair(c, pairOpt{binding: qrpc.ServerBinding{Codec: codec, ReadFrameChSize: r.Pick(0, 3), SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { keep(f.Payload, false) }},
		conf: qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: r.Pick(0, 5)}}, h)
	rngs := []*Rng{}
	for i := 0; i < 6; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(6, func(g int) {
		r := rngs[g]
		for k := 0; k < 60 && !c.Violated(); k++ {
			pl := gen(r.Uint64(), pickSize(r, false))
			fl := qrpc.NBFlag
			if codec != nil && r.P(1, 2) {
				fl |= qrpc.CodecFlag
			}
			switch r.Intn(3) {
			case 0:
				p.open.Request(3, qrpc.PushFlag|fl, pl)
			case 1:
				sw, resp, err := p.open.StreamRequest(5, fl&^qrpc.NBFlag, pl)
				if err != nil {
					c.Violate("open", "%v", err)
					return
				}
				sw.StartWrite(1)
				sw.WriteBytes(gen(r.Uint64(), pickSize(r, false)))
				sw.EndWrite(true)
				if f, err := c.getFrame("answer", resp); err == nil {
					keep(f.Payload, r.P(1, 3))
				}
			case 2:
				f, err := p.call(9, fl, pl)
				if err != nil {
					c.Violate("call", "%v", err)
					return
				}
				if rc, rp := respFor(9, pl); uint32(f.Cmd) != rc || !same(f.Payload, rp) {
					c.Violate("changed", "answer is %s want %s", brief(f.Payload), brief(rp))
				}
				keep(f.Payload, r.P(1, 3))
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*4, stallTicks*3) {
		c.StallAbort("retaining receivers")
	}
	p.stop()
	mu.Lock()
	for i, k := range all {
		if h64(k.p) != k.h {
			c.Violate("changed-later", "payload %d of %d bytes received earlier was changed by later traffic", i, len(k.p))
			break
		}
		c.Eval(fmt.Sprint("retain", bucket(len(k.p)), codec != nil))
	}
	c.Count("retained", int64(len(all)))
	mu.Unlock()
}

// c11churn: connections die while their handlers write; others on the same process must see only their own bytes.
func c11churn(c *C) {
	r := c.Rng
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		nonce := tagOf(q.Payload)
		n := int(q.Cmd)
		for i := 0; i < n; i++ {
			w.StartWrite(q.RequestID, qrpc.Cmd(i), qrpc.StreamFlag)
			w.WriteBytes(gen(mix(nonce, q.RequestID, uint64(i)), 8+int(mix(nonce, uint64(i))%3000)))
			if w.EndWrite() != nil {
				// the writer is used on, as a handler that ignores errors does
				w.StartWrite(q.RequestID, 0xdead, qrpc.StreamFlag)
				w.WriteBytes(poison(100))
				w.EndWrite()
				w.StartWrite(q.RequestID, 0xdead, qrpc.StreamFlag)
				w.WriteBytes(poison(3000))
				return
			}
		}
		w.StartWrite(q.RequestID, 0, qrpc.StreamFlag|qrpc.StreamEndFlag)
		w.EndWrite()
	})
	var mu sync.Mutex
	taps := map[string]*Tap{}
	wr := r.Fork()
	s := startServer(c, "tcp", func(_ int, nc net.Conn) net.Conn {
		t := &Tap{}
		mu.Lock()
		taps[nc.RemoteAddr().String()] = t
		mu.Unlock()
		p := Policy{Rng: wr.Fork(), TapW: t}
		if wr.P(1, 2) {
			p.WChunk, p.YieldP = wr.Pick(500, 3000), 4
		}
		if wr.P(1, 3) {
			p.CutW = int64(wr.Range(1, 60000))
		}
		return wrapConn(nc, p)
	}, qrpc.ServerBinding{Handler: h, WriteFrameChSize: r.Pick(1, 4, 50)})
	rngs := []*Rng{}
	const G = 10
	for i := 0; i < G; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(G, func(g int) {
		r := rngs[g]
		for k := 0; k < 8 && !c.Violated(); k++ {
			nonce := r.Uint64()
			nc, err := netDial(s.Addrs[0], 10*time.Second)
			if err != nil {
				c.Violate("dial", "%v", err)
				return
			}
			nreq := r.Range(1, 8)
			n := r.Range(1, 25)
			for i := 0; i < nreq; i++ {
				nc.Write(WFrame{ID: uint64(2*i + 1), Flags: fNB, Cmd: uint32(n), Payload: gen(nonce, 8)}.Bytes())
			}
			next := map[uint64]int{}
			full := 0
			stop := r.Intn(4)
			limit := r.Range(1, n*nreq)
			seen := 0
			nc.SetReadDeadline(time.Now().Add(100 * time.Second))
			for full < nreq {
				f, err := readWFrame(nc)
				if err == errBadFrame {
					c.Violate("wire-format", "a connection received bytes that are not a frame")
				}
				if err != nil {
					break
				}
				seen++
				i := next[f.ID]
				next[f.ID]++
				if f.Flags&fEnd != 0 {
					full++
					continue
				}
				if f.Flags&fRst != 0 || uint32(i) != f.Cmd || !same(f.Payload, gen(mix(nonce, f.ID, uint64(i)), 8+int(mix(nonce, uint64(i))%3000))) {
					if f.Flags&fRst == 0 {
						c.Violate("foreign", "a connection received frame %v, not the one its handler wrote (%d of %d)", f, i, n)
					}
					break
				}
				c.Eval(fmt.Sprint("churn", bucket(len(f.Payload)), stop))
				if stop == 1 && seen >= limit {
					break
				}
				if stop == 2 && seen >= limit {
					nc.(*net.TCPConn).CloseWrite()
					stop = 9
				}
			}
			addr := nc.LocalAddr().String()
			nc.Close()
			mu.Lock()
			t := taps[addr]
			mu.Unlock()
			if t != nil {
				fs, _, err := parseWire(t.Bytes())
				if err != nil {
					c.Violate("wire-format", "the server wrote something that is not a frame")
				}
				cnt := map[uint64]int{}
				for _, f := range fs {
					i := cnt[f.ID]
					cnt[f.ID]++
					if f.Flags&(fEnd|fRst) == 0 && !same(f.Payload, gen(mix(nonce, f.ID, uint64(i)), 8+int(mix(nonce, uint64(i))%3000))) {
						c.Violate("foreign", "the server wrote %v to a connection whose handlers wrote no such frame", f)
						break
					}
				}
				if bytes.Contains(t.Bytes(), []byte("POISON")) {
					c.Violate("poison", "bytes of a frame that failed are on the wire")
				}
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*5, stallTicks*4) {
		c.StallAbort("connections that die and their neighbours")
	}
	s.Stop()
}

// c11churnClient: client connections lose their peers while many goroutines write.
func c11churnClient(c *C) {
	r := c.Rng
	rs := newRawServer(c)
	for round := 0; round < 12 && !c.Violated(); round++ {
		const conns = 3
		var cs []*qrpc.Connection
		var taps []*Tap
		var peers []net.Conn
		for i := 0; i < conns; i++ {
			t := &Tap{}
			p := Policy{Rng: r.Fork(), TapW: t}
			if r.P(1, 2) {
				p.WChunk, p.YieldP = r.Pick(500, 3000), 4
			}
			if i > 0 && r.P(1, 2) {
				p.CutW = int64(r.Range(1, 100000))
			}
			conn, err := qrpc.NewConnection(rs.addr(), qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 2, 30), OverlayNetwork: overlayWith(func(nc net.Conn) net.Conn { return wrapConn(nc, p) })}, nil)
			if err != nil {
				c.Violate("dial", "%v", err)
				return
			}
			nc := rs.next()
			go func() {
				b := make([]byte, 65536)
				for {
					if _, err := nc.Read(b); err != nil {
						return
					}
				}
			}()
			cs, taps, peers = append(cs, conn), append(taps, t), append(peers, nc)
		}
		salt := make([]uint64, conns)
		for i := range salt {
			salt[i] = r.Uint64()
		}
		rngs := []*Rng{}
		for i := 0; i < 12; i++ {
			rngs = append(rngs, r.Fork())
		}
		var oks [conns]int64
		killer := make(chan struct{})
		delay := r.Intn(3000)
		how := r.Intn(3)
		go func() {
			defer close(killer)
			time.Sleep(time.Duration(delay) * time.Microsecond)
			for i := 1; i < conns; i++ {
				switch how {
				case 0:
					peers[i].(*net.TCPConn).CloseWrite()
				case 1:
					cs[i].Close()
				case 2:
					peers[i].Close()
				}
			}
		}()
		done := parallel(12, func(g int) {
			r := rngs[g]
			i := g % conns
			for k := 0; k < 80; k++ {
				// tag: salt of the connection in the upper bits, so that a frame of another one is recognised
				tag := salt[i]&^0xffff | uint64(g)<<8 | uint64(k)
				n := r.Pick(8, 100, 2000, 9000)
				if r.P(1, 3) {
					sw, _, err := cs[i].StreamRequest(7, 0, gen(tag, n))
					if err == nil {
						atomic.AddInt64(&oks[i], 1)
						sw.StartWrite(8)
						sw.WriteBytes(gen(tag, n+1))
						sw.EndWrite(false)
						sw.StartWrite(8)
						sw.WriteBytes(gen(tag, n+2))
						sw.EndWrite(true)
						if r.P(1, 2) {
							cs[i].ResetFrame(sw.RequestID(), 1)
						}
					}
				} else if _, _, err := cs[i].Request(7, qrpc.NBFlag, gen(tag, n)); err == nil {
					atomic.AddInt64(&oks[i], 1)
				}
			}
		})
		if !c.waitAtLeast(done, stallWall*3, stallTicks*3) {
			c.StallAbort("writers of connections that die")
		}
		c.Must("killer", killer)
		for i := range cs {
			closeConn(c, cs[i])
			peers[i].Close()
			fs, rest, err := parseWire(taps[i].Bytes())
			if err != nil {
				c.Violate("wire-format", "connection %d: %v", i, err)
			}
			if len(rest) > 0 && i == 0 {
				c.Count("partial_tail", 1)
			}
			for _, f := range fs {
				if f.Flags&fRst != 0 {
					continue
				}
				t := tagOf(f.Payload)
				if t&^0xffff != salt[i]&^0xffff || !same(f.Payload, gen(t, len(f.Payload))) {
					c.Violate("foreign", "connection %d carries frame %v, no write on it had that payload", i, f)
					break
				}
				c.Eval(fmt.Sprint("churn-client", how, i > 0, bucket(len(f.Payload)), f.Flags))
			}
		}
	}
}
