package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C24", MinEv: 4000,
		Rule: "one evaluation per payload delivered and compared, per frame on the wire whose flag and bytes were judged against what was written, per call of the codec judged, and per refused write or decode; distinct = (job, direction, codec, how it was written, payload bucket, compressible or not, went out encoded or not)",
		Jobs: []JobSpec{
			{Name: "traffic", Quick: 10, Deep: 80, Fn: c24traffic},
			{Name: "bindings", Quick: 3, Deep: 24, Fn: c24bindings},
			{Name: "refuse", Quick: 5, Deep: 40, Fn: c24refuse},
			{Name: "undecodable", Quick: 4, Deep: 30, Fn: c24undecodable},
		}})
}

// the codecs: none changes its input
type rawCodec struct {
	name string
	enc  func(b []byte) ([]byte, error)
	dec  func(b []byte) ([]byte, error)
}

func (k *rawCodec) Encode(b []byte) ([]byte, error) { return k.enc(b) }
func (k *rawCodec) Decode(b []byte) ([]byte, error) { return k.dec(b) }

func xorAll(b []byte, k byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[i] = b[i] ^ k ^ byte(i)
	}
	return out
}

func c24codec(kind int) *rawCodec {
	switch kind {
	case 0:
		z := &zlibCodec{}
		return &rawCodec{"flate", z.Encode, z.Decode}
	case 1: // the same bytes, in the same place
		f := func(b []byte) ([]byte, error) { return b, nil }
		return &rawCodec{"identity", f, f}
	case 2: // same length, everything differs
		f := func(b []byte) ([]byte, error) { return xorAll(b, 0x5a), nil }
		return &rawCodec{"xor", f, f}
	case 3: // always longer
		return &rawCodec{"longer",
			func(b []byte) ([]byte, error) { return append(xorAll(b, 0x11), 1, 2, 3, 4), nil },
			func(b []byte) ([]byte, error) {
				if len(b) < 4 {
					return nil, errors.New("short")
				}
				return xorAll(b[:len(b)-4], 0x11), nil
			}}
	case 4: // shorter by one or longer by one, depending on the content
		return &rawCodec{"varying",
			func(b []byte) ([]byte, error) {
				if len(b) > 2 && b[len(b)-1] == 0x77 && b[len(b)-2] == 0x66 {
					return append([]byte{1}, xorAll(b[:len(b)-2], 3)...)[: len(b)-1 : len(b)-1], nil
				}
				return append([]byte{0}, xorAll(b, 3)...), nil
			},
			func(b []byte) ([]byte, error) {
				if b[0] == 1 {
					return append(xorAll(b[1:], 3), 0x66, 0x77), nil
				}
				return xorAll(b[1:], 3), nil
			}}
	default: // a part of the input itself
		return &rawCodec{"alias",
			func(b []byte) ([]byte, error) {
				if len(b) > 1 && b[0] == 'M' {
					return b[1:], nil
				}
				return append([]byte("x"), b...), nil
			},
			func(b []byte) ([]byte, error) { return append([]byte("M"), b...), nil }}
	}
}

// recCodec judges every call of a codec.
type recCodec struct {
	*rawCodec
	c          *C
	reg        *codecReg
	mu         sync.Mutex
	encoded    map[uint64]int // what Encode was given
	outs       map[uint64]int // what Encode returned, if it went out
	nEnc, nDec int64
}

func newRecCodec(c *C, kind int, reg *codecReg) *recCodec {
	return &recCodec{rawCodec: c24codec(kind), c: c, reg: reg, encoded: map[uint64]int{}, outs: map[uint64]int{}}
}

func (k *recCodec) Encode(b []byte) ([]byte, error) {
	atomic.AddInt64(&k.nEnc, 1)
	if len(b) == 0 {
		k.c.Violate("calls", "Encode was called without payload")
	}
	e := k.reg.find(b)
	if e == nil {
		k.c.Violate("calls", "Encode was called with what nobody wrote: %s", brief(b))
	} else if e.want == 0 || e.want == 3 {
		k.c.Violate("calls", "Encode was called for a payload written without the codec flag (%d)", e.want)
	}
	h := h64(b)
	k.mu.Lock()
	k.encoded[h]++
	if k.encoded[h] > 1 {
		k.c.Violate("calls", "Encode was called %d times for one frame", k.encoded[h])
	}
	k.mu.Unlock()
	out, err := k.enc(b)
	if err == nil {
		k.mu.Lock()
		k.outs[h64(out)]++
		k.mu.Unlock()
	}
	return out, err
}

func (k *recCodec) Decode(b []byte) ([]byte, error) {
	atomic.AddInt64(&k.nDec, 1)
	if len(b) == 0 {
		k.c.Violate("calls", "Decode was called without payload")
	}
	h := h64(b)
	k.mu.Lock()
	k.outs[h]--
	if k.outs[h] < 0 {
		k.c.Violate("calls", "Decode was called with %s, which is not (or was already) an encoded payload", brief(b))
	}
	k.mu.Unlock()
	return k.dec(b)
}

type codecEntry struct {
	orig []byte
	want int // 0 without, 1 with the flag, 2 whichever, 3 written encoded already
	wire int64
	got  int64
}

// codecReg knows every payload that was written; payloads are unique.
type codecReg struct {
	mu sync.Mutex
	m  map[uint64]*codecEntry
}

func newCodecReg() *codecReg { return &codecReg{m: map[uint64]*codecEntry{}} }

func (r *codecReg) find(b []byte) *codecEntry { r.mu.Lock(); defer r.mu.Unlock(); return r.m[h64(b)] }
func (r *codecReg) put(b []byte, want int) []byte {
	if len(b) > 0 {
		r.mu.Lock()
		r.m[h64(b)] = &codecEntry{orig: append([]byte(nil), b...), want: want}
		r.mu.Unlock()
	}
	return b
}

// payload makes a unique payload, compressible or not.
func c24payload(r *Rng) ([]byte, string) {
	n := pickSize(r, false)
	if n == 0 && r.P(1, 2) {
		return nil, "empty"
	}
	if n < 10 {
		n = 10
	}
	b := gen(r.Uint64(), n)
	what := "random"
	if r.P(1, 2) { // compressible
		what = "repeating"
		for i := 9; i < len(b); i++ {
			b[i] = byte(i / 400)
		}
	}
	b[0] = "MN"[r.Intn(2)]
	if r.P(1, 2) && n > 20 {
		b[n-2], b[n-1] = 0x66, 0x77
	}
	return b, what
}

// received judges a delivered payload.
func (r *codecReg) received(c *C, f *qrpc.Frame, key string) {
	if len(f.Payload) == 0 {
		return
	}
	e := r.find(f.Payload)
	if e == nil {
		c.Violate("corrupt", "%s: a payload nobody wrote was delivered: cmd %#x flags %#x %s", key, f.Cmd, f.Flags, brief(f.Payload))
		return
	}
	if atomic.AddInt64(&e.got, 1) > 1 {
		c.Violate("corrupt", "%s: a payload was delivered twice", key)
	}
}

// wire judges every frame that passed.
func (r *codecReg) onWire(c *C, dir string, b []byte, k *recCodec, key string) (frames, coded int) {
	fs, rest, err := parseWire(b)
	if err != nil || len(rest) != 0 {
		c.Violate("wire", "%s %s: the bytes are not whole frames: %v, %d left", key, dir, err, len(rest))
		return
	}
	for _, f := range fs {
		frames++
		flagged := f.Flags&byte(qrpc.CodecFlag) != 0
		if len(f.Payload) == 0 {
			if flagged {
				c.Violate("wire", "%s %s: a frame without payload carries the codec flag: %v", key, dir, f)
			}
			continue
		}
		orig := f.Payload
		if flagged {
			coded++
			var err error
			if orig, err = k.dec(append([]byte(nil), f.Payload...)); err != nil {
				c.Violate("wire", "%s %s: flagged payload does not decode: %v", key, dir, f)
				continue
			}
		}
		e := r.find(orig)
		if e == nil {
			c.Violate("wire", "%s %s: frame %v (codec flag %v) carries what nobody wrote", key, dir, f, flagged)
			continue
		}
		if atomic.AddInt64(&e.wire, 1) > 1 {
			c.Violate("wire", "%s %s: %v went out twice", key, dir, f)
		}
		if e.want == 3 {
			if !flagged {
				c.Violate("wire", "%s %s: a payload written as encoded went out without the flag: %v", key, dir, f)
			}
			continue
		}
		if flagged && e.want == 0 {
			c.Violate("wire", "%s %s: a payload written without the flag went out encoded: %v", key, dir, f)
		}
		if flagged && len(f.Payload) > len(orig) {
			c.Violate("wire", "%s %s: the encoded form of %d bytes has %d", key, dir, len(orig), len(f.Payload))
		}
		enc, err := k.enc(orig)
		if e.want == 1 && err == nil && flagged != (len(enc) <= len(orig)) {
			c.Violate("wire", "%s %s: %d bytes encode to %d, codec flag on the wire: %v", key, dir, len(orig), len(enc), flagged)
		}
		c.Eval(fmt.Sprint("wire ", key, dir, bucket(len(orig)), e.want, flagged))
	}
	return
}

// c24traffic: every kind of frame in both directions, with the flag and without.
func c24traffic(c *C) {
	r := c.Rng
	reg := newCodecReg()
	kind := c.K % 6
	rev := c.K/6%2 == 1
	if c.K >= 6 {
		rev = c.K%2 == 1
	}
	codec := newRecCodec(c, kind, reg)
	key := fmt.Sprint(codec.name, " ", rev)
	up, down := &Tap{}, &Tap{}
	onPush := func(f *qrpc.Frame) { reg.received(c, f, key+" push") }
	var pushes, pushed, active int64
	mkFlags := func(rr *Rng) (qrpc.FrameFlag, int) {
		if rr.P(2, 3) {
			return qrpc.CodecFlag, 1
		}
		return 0, 0
	}
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		atomic.AddInt64(&active, 1)
		defer atomic.AddInt64(&active, -1)
		reg.received(c, (*qrpc.Frame)(q), key+" request")
		rr := NewRng(int64(mix(uint64(c.Seed), q.RequestID, uint64(len(q.Payload)))))
		if q.Flags.IsStream() {
			for f := range q.FrameCh() {
				reg.received(c, f, key+" stream")
			}
		}
		for i := rr.Intn(3); i > 0; i-- { // pushes
			fl, want := mkFlags(rr)
			p, _ := c24payload(rr)
			w.StartWrite(0, 5, fl|qrpc.PushFlag)
			w.WriteBytes(reg.put(p, want))
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "push")
			}
			atomic.AddInt64(&pushes, 1)
		}
		n := 1
		if q.Flags.IsStream() {
			n = rr.Range(1, 5)
		}
		for i := 0; i < n; i++ {
			fl, want := mkFlags(rr)
			if q.Flags.IsStream() {
				fl |= qrpc.StreamFlag
				if i == n-1 {
					fl |= qrpc.StreamEndFlag
				}
			}
			p, what := c24payload(rr)
			w.StartWrite(q.RequestID, qrpc.Cmd(n), fl)
			var err error
			if rr.P(1, 5) && len(p) > 0 && (kind == 2 || kind == 0) { // encoded by the caller
				reg.put(p, 3)
				enc, _ := codec.enc(p)
				codec.mu.Lock()
				codec.outs[h64(enc)]++
				codec.mu.Unlock()
				w.WriteBytes(enc)
				err = w.EndWriteCompressed()
			} else {
				reg.put(p, want)
				for len(p) > 0 { // in pieces
					k := rr.Range(1, len(p))
					w.WriteBytes(p[:k])
					p = p[k:]
				}
				err = w.EndWrite()
			}
			if err != nil {
				c.writeFailed("write", err, "answer %d of %d", i, n)
			}
			c.Eval(fmt.Sprint("answer ", key, what, want))
		}
	})
	sub := func(_ *qrpc.Connection, f *qrpc.Frame) { onPush(f); atomic.AddInt64(&pushed, 1) }
	ssub := func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) { onPush(f); atomic.AddInt64(&pushed, 1) }
	p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{Codec: codec, SubFunc: ssub, MaxFrameSize: 1 << 26, WriteFrameChSize: r.Pick(0, 5), ReadFrameChSize: r.Pick(0, 3)},
		conf: qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: r.Pick(0, 5)}, sub: sub,
		wrapC: func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), TapW: up, TapR: down, RChunk: 5000, YieldP: 200})
		}}, h)
	done := parallel(6, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 40 && !c.Violated(); k++ {
			fl, want := mkFlags(rr)
			pl, what := c24payload(rr)
			reg.put(pl, want)
			fin := make(chan struct{})
			go func() {
				defer close(fin)
				var resp qrpc.Response
				var err error
				if rr.P(1, 3) {
					var sw qrpc.StreamWriter
					sw, resp, err = p.open.StreamRequest(3, fl, pl)
					m := rr.Range(1, 5)
					for i := 0; i < m && err == nil; i++ {
						q, _ := c24payload(rr)
						reg.put(q, 2*want)
						sw.StartWrite(qrpc.Cmd(i))
						sw.WriteBytes(q)
						err = sw.EndWrite(i == m-1)
					}
				} else {
					_, resp, err = p.open.Request(3, fl|qrpc.FrameFlag(rr.Pick(0, int(qrpc.NBFlag))), pl)
				}
				if err != nil {
					c.Violate("write", "%s: request with %s: %v", key, brief(pl), err)
					return
				}
				f, err := resp.GetFrame()
				if err != nil {
					c.Violate("answer", "%s: %v", key, err)
					return
				}
				reg.received(c, f, key+" answer")
				if f.Flags.IsStream() {
					for g := range f.FrameCh() {
						reg.received(c, g, key+" answer stream")
					}
				}
			}()
			c.Must("call with the codec "+key, fin)
			c.Eval(fmt.Sprint("call ", key, what, want, bucket(len(pl))))
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("calls with a codec")
	}
	c.MustUntil("pushes with a codec", func() bool { return atomic.LoadInt64(&pushed) == atomic.LoadInt64(&pushes) || c.Violated() })
	// a write whose frame has arrived may still be about to return
	c.MustUntil("handlers with a codec", func() bool { return atomic.LoadInt64(&active) == 0 })
	p.stop()
	f1, c1 := reg.onWire(c, "up", up.Bytes(), codec, key)
	f2, c2 := reg.onWire(c, "down", down.Bytes(), codec, key)
	reg.mu.Lock()
	for _, e := range reg.m {
		if (e.wire != 1 || e.got != 1) && !c.Violated() {
			c.Violate("lost", "%s: a payload (%s, flag %d) was %d times on the wire and delivered %d times", key, brief(e.orig), e.want, e.wire, e.got)
		}
	}
	reg.mu.Unlock()
	c.Count("wire_frames", int64(f1+f2))
	c.Count("wire_encoded", int64(c1+c2))
	c.Count("encode_calls", codec.nEnc)
	c.Count("decode_calls", codec.nDec)
}

// c24bindings: each binding has its own codec, or none.
func c24bindings(c *C) {
	r := c.Rng
	kinds := []int{2, 0, -1, 3}
	var bs []qrpc.ServerBinding
	var regs []*codecReg
	var codecs []*recCodec
	for i, k := range kinds {
		reg := newCodecReg()
		regs = append(regs, reg)
		b := qrpc.ServerBinding{MaxFrameSize: 1 << 26}
		var codec *recCodec
		if k >= 0 {
			codec = newRecCodec(c, k, reg)
			b.Codec = codec
		}
		codecs = append(codecs, codec)
		i := i
		b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
			reg.received(c, (*qrpc.Frame)(q), fmt.Sprint("binding ", i))
			rr := NewRng(int64(mix(uint64(c.Seed), h64(q.Payload), uint64(i), q.RequestID)))
			p, _ := c24payload(rr)
			fl, want := qrpc.FrameFlag(0), 0
			if kinds[i] >= 0 {
				fl, want = qrpc.CodecFlag, 1
			}
			w.StartWrite(q.RequestID, 1, fl)
			w.WriteBytes(reg.put(p, want))
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "binding %d", i)
			}
		})
		bs = append(bs, b)
	}
	srv := startServer(c, "tcp", nil, bs...)
	done := parallel(len(kinds), func(i int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(i))))
		tap := &Tap{}
		down := &Tap{}
		conf := qrpc.ConnectionConfig{OverlayNetwork: overlayWith(func(nc net.Conn) net.Conn {
			return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, TapR: down})
		})}
		if codecs[i] != nil {
			conf.Codec = codecs[i]
		}
		conn := srv.dialTo(i, conf, nil)
		for k := 0; k < 60 && !c.Violated(); k++ {
			p, what := c24payload(rr)
			fl, want := qrpc.NBFlag, 0
			if kinds[i] >= 0 && rr.P(2, 3) {
				fl, want = fl|qrpc.CodecFlag, 1
			}
			regs[i].put(p, want)
			_, f, err := c.call(conn, 1, fl, p)
			if err != nil {
				c.Violate("answer", "binding %d: %v", i, err)
				return
			}
			regs[i].received(c, f, fmt.Sprint("binding ", i))
			c.Eval(fmt.Sprint("binding ", i, what, want))
		}
		closeConn(c, conn)
		if codecs[i] != nil {
			regs[i].onWire(c, "up", tap.Bytes(), codecs[i], fmt.Sprint("binding ", i))
			regs[i].onWire(c, "down", down.Bytes(), codecs[i], fmt.Sprint("binding ", i))
		}
	})
	if !c.waitAtLeast(done, stallWall*2, stallTicks*2) {
		c.StallAbort("calls to bindings with codecs")
	}
	srv.Stop()
}

// c24refuse: no codec, or one that fails: the write fails and nothing goes out.
func c24refuse(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	tap, down := &Tap{}, &Tap{}
	var codec qrpc.CompressorCodec
	how := "no codec"
	if c.K%3 != 0 {
		how = "failing codec"
		codec = &failCodec{}
	}
	poisonous := func(rr *Rng) []byte { return append([]byte("PO"), gen(rr.Uint64(), rr.Pick(1, 10, 1500, 9000))...) }
	bad := func(err error, what string) {
		if err == nil {
			c.Violate("accepted", "%s: %s with the codec flag was accepted", how, what)
		}
		c.Eval(fmt.Sprint("refused ", how, rev, what))
	}
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		rr := NewRng(int64(h64(q.Payload) >> 1))
		for i := 0; i < 3; i++ {
			w.StartWrite(q.RequestID, 1, qrpc.CodecFlag)
			w.WriteBytes(poisonous(rr))
			bad(w.EndWrite(), "an answer")
			w.StartWrite(q.RequestID, 1, qrpc.CodecFlag|qrpc.PushFlag)
			w.WriteBytes(poisonous(rr))
			bad(w.EndWrite(), "a push")
		}
		if rr.P(1, 2) { // an empty payload needs no codec
			w.StartWrite(0, 1, qrpc.CodecFlag|qrpc.PushFlag)
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "%s: a push with the flag and no payload", how)
			}
		}
		answer(w, q)
	})
	p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{Codec: codec, SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {}},
		conf: qrpc.ConnectionConfig{Codec: codec, WriteFrameChSize: r.Pick(0, 3)}, sub: func(*qrpc.Connection, *qrpc.Frame) {},
		wrapC: func(nc net.Conn) net.Conn { return wrapConn(nc, Policy{Rng: r.Fork(), TapW: tap, TapR: down}) }}, h)
	done := parallel(4, func(g int) {
		rr := NewRng(int64(mix(uint64(c.Seed), uint64(g))))
		for k := 0; k < 25 && !c.Violated(); k++ {
			switch rr.Intn(3) {
			case 0:
				_, _, err := p.open.Request(1, qrpc.CodecFlag|qrpc.NBFlag, poisonous(rr))
				bad(err, "a request")
			case 1:
				_, _, err := p.open.StreamRequest(1, qrpc.CodecFlag, poisonous(rr))
				bad(err, "a stream request")
			case 2:
				pl := gen(rr.Uint64(), rr.Pick(0, 8, 2000))
				p.echo("after-refusal", how, 3, qrpc.NBFlag, pl)
				c.Eval("beside refused")
			}
		}
	})
	c.Must("calls beside refused ones", done)
	p.echo("after-refusal", how, 3, qrpc.NBFlag, gen(r.Uint64(), 100))
	p.stop()
	for _, t := range []*Tap{tap, down} {
		b := t.Bytes()
		fs, rest, err := parseWire(b)
		if err != nil || len(rest) > 0 {
			c.Violate("wire", "%s: not whole frames: %v", how, err)
		}
		for _, f := range fs {
			if bytes.Contains(f.Payload, []byte("PO")) && bytes.HasPrefix(f.Payload, []byte("PO")) {
				c.Violate("leak", "%s: a refused payload went out: %v", how, f)
			}
			if f.Flags&byte(qrpc.CodecFlag) != 0 {
				c.Violate("wire", "%s: the flag is on the wire: %v", how, f)
			}
		}
	}
}

// c24undecodable: only the connection that sent it is closed.
func c24undecodable(c *C) {
	r := c.Rng
	codec := qrpc.CompressorCodec(&zlibCodec{})
	how := "undecodable"
	if c.K%2 == 1 {
		codec, how = nil, "no codec"
	}
	var handled int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if q.Flags.IsCodec() && len(q.Payload) > 0 {
			atomic.AddInt64(&handled, 1)
		}
		answer(w, q)
	})
	srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: h, Codec: codec, SubFunc: func(_ *qrpc.ConnectionInfo, f *qrpc.Frame) {
		if f.Flags.IsCodec() && len(f.Payload) > 0 {
			atomic.AddInt64(&handled, 1)
		}
	}})
	good := srv.dial(qrpc.ConnectionConfig{}, nil)
	for round := 0; round < 30 && !c.Violated(); round++ {
		p := dialRaw(c, srv.Addrs[0])
		p.Send(WFrame{ID: 1, Flags: fNB, Cmd: 1, Payload: []byte("first")})
		c.MustUntil("first answer", func() bool { return len(p.ByID(1)) > 0 })
		junk := append([]byte{0xff, 0xff}, r.Bytes(r.Pick(1, 50, 3000))...)
		p.Send(WFrame{ID: 3, Flags: byte(qrpc.CodecFlag) | byte(r.Pick(0, int(fNB), int(fPush))), Cmd: 1, Payload: junk},
			WFrame{ID: 5, Flags: fNB, Cmd: 1, Payload: []byte("after")})
		c.MustUntil("end of a connection with an undecodable payload", p.Closed)
		if n := atomic.LoadInt64(&handled); n != 0 {
			c.Violate("corrupt", "%s: a payload that cannot be decoded was delivered", how)
		}
		if fs := p.ByID(5); len(fs) > 0 {
			c.Violate("corrupt", "%s: the connection went on: %v", how, fs)
		}
		p.Close()
		c.probe(good, "others", how+" on another connection")
		c.Eval(fmt.Sprint(how, bucket(len(junk))))
	}
	closeConn(c, good)
	srv.Stop()
	// the same at the client
	var bad int64
	rs := newRawServer(c)
	for round := 0; round < 20 && !c.Violated(); round++ {
		conf := qrpc.ConnectionConfig{Codec: codec}
		conn, err := qrpc.NewConnection(rs.addr(), conf, func(_ *qrpc.Connection, f *qrpc.Frame) {
			if f.Flags.IsCodec() && len(f.Payload) > 0 {
				atomic.AddInt64(&bad, 1)
			}
		})
		if err != nil {
			c.Violate("dial", "%v", err)
			return
		}
		p := newRawPeer(c, rs.next())
		id, resp, err := conn.Request(1, qrpc.NBFlag, []byte("ask"))
		if err != nil {
			c.Violate("write", "%v", err)
			return
		}
		c.MustUntil("request at the raw server", func() bool { return len(p.ByID(id)) > 0 })
		p.Send(WFrame{ID: id, Flags: byte(qrpc.CodecFlag) | byte(r.Pick(0, int(fPush))), Cmd: 1, Payload: append([]byte{0xff, 0xff}, r.Bytes(40)...)})
		f, err := c.getFrame("answer that cannot be decoded", resp)
		if err == nil {
			c.Violate("corrupt", "%s: the client got %v", how, f)
		}
		c.Do("end of a client with an undecodable answer", func() { <-conn.Done() })
		if bad != 0 {
			c.Violate("corrupt", "%s: an undecodable push was delivered", how)
		}
		p.Close()
		c.Eval("client " + how)
	}
}
