package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/zhiqiangxu/qrpc"
)

func init() {
	register(&Prop{ID: "C08", MinEv: 300,
		Rule: "one evaluation per request whose fate after resets by either side was compared with what its own history implies (context cancelled or not, frames seen before the end, answer or stream-closed); distinct = (direction, kind of request, how it ended, frames before and after, concurrent requests, channel size)",
		Jobs: []JobSpec{
			{Name: "target", Quick: 6, Deep: 50, Fn: c08target},
			{Name: "server-ends", Quick: 6, Deep: 50, Fn: c08ends},
			{Name: "raw", Quick: 4, Deep: 30, Fn: c08raw},
			{Name: "rawserver", Quick: 4, Deep: 30, Fn: c08rawserver},
			{Name: "race", Quick: 4, Deep: 30, Fn: c08race},
		}})
}

// held is a request whose handler waits until it is told to go on.
type held struct {
	tag     uint64
	in      chan struct{} // handler entered
	ended   chan struct{} // the handler saw the end of its frame channel
	ctx     context.Context
	seen    []uint64 // tags of the frames the handler read after the first
	goOn    chan struct{}
	out     chan struct{}
	werr    error
	early   int32 // context was already cancelled when nobody had reset it
	blockCh int32
}

type heldSet struct {
	mu sync.Mutex
	m  map[uint64]*held
}

func (s *heldSet) get(tag uint64) *held {
	s.mu.Lock()
	defer s.mu.Unlock()
	h := s.m[tag]
	if h == nil {
		h = &held{tag: tag, in: make(chan struct{}), ended: make(chan struct{}), goOn: make(chan struct{}), out: make(chan struct{})}
		s.m[tag] = h
	}
	return h
}

func newHeldSet() *heldSet { return &heldSet{m: map[uint64]*held{}} }

// handler holds every request; it reads the frames of its stream all the time.
func (s *heldSet) handler() qrpc.Handler {
	return qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if uint32(q.Cmd) == 0x77 {
			answer(w, q)
			return
		}
		h := s.get(tagOf(q.Payload))
		h.ctx = q.Context()
		close(h.in)
		go func() {
			for f := range q.FrameCh() {
				s.mu.Lock()
				h.seen = append(h.seen, tagOf(f.Payload))
				s.mu.Unlock()
			}
			close(h.ended)
		}()
		<-h.goOn
		h.werr = answer(w, q)
		close(h.out)
	})
}

// c08target: some of many concurrent requests are reset by the side that opened them.
func c08target(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	hs := newHeldSet()
	ccs, scs := r.Pick(0, 1, 4, 100), r.Pick(0, 1, 4, 100)
	_, wc := chunkPolicy(r)
	p := newPair(c, pairOpt{rev: rev, wrapC: wc, binding: qrpc.ServerBinding{WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 2)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: ccs}}, hs.handler())
	for round := 0; round < 4 && !c.Violated(); round++ {
		type req struct {
			h      *held
			id     uint64
			kind   int // 0 request 1 stream left open 2 stream finished
			sw     qrpc.StreamWriter
			resp   qrpc.Response
			sent   []uint64
			target bool
			f      *qrpc.Frame
			err    error
		}
		n := r.Pick(2, 5, 12, 30)
		reqs := make([]*req, n)
		rngs := make([]*Rng, n)
		for i := range rngs {
			rngs[i] = r.Fork()
			reqs[i] = &req{}
		}
		all := parallel(n, func(i int) {
			r, q := rngs[i], reqs[i]
			tag := r.Uint64()
			q.h = hs.get(tag)
			q.kind = r.Intn(3)
			var err error
			if q.kind == 0 {
				q.id, q.resp, err = p.open.Request(qrpc.Cmd(r.Range(1, 0x76)), qrpc.NBFlag, gen(tag, r.Pick(8, 30, 1200)))
			} else {
				q.sw, q.resp, err = p.open.StreamRequest(qrpc.Cmd(r.Range(1, 0x76)), 0, gen(tag, r.Pick(8, 30, 1200)))
				if err == nil {
					q.id = q.sw.RequestID()
				}
				for j := r.Intn(5); j > 0 && err == nil; j-- {
					t := r.Uint64()
					q.sent = append(q.sent, t)
					q.sw.StartWrite(9)
					q.sw.WriteBytes(gen(t, r.Pick(8, 90, 1100)))
					err = q.sw.EndWrite(q.kind == 2 && j == 1)
				}
				if err == nil && q.kind == 2 && len(q.sent) == 0 {
					q.kind = 1
				}
			}
			if err != nil {
				c.Violate("open", "%s: opening a request or writing to it failed: %v", dirName(rev), err)
			}
		})
		c.Must("opening requests", all)
		if c.Violated() {
			break
		}
		for _, q := range reqs {
			c.Must("dispatch of a request", q.h.in)
		}
		// reset some, from several goroutines
		for _, i := range r.Perm(n)[:r.Range(0, n-1)] {
			reqs[i].target = true
		}
		all = parallel(n, func(i int) {
			q := reqs[i]
			if !q.target {
				return
			}
			var err error
			if q.sw != nil && rngs[i].P(1, 2) {
				err = q.sw.ResetFrame(qrpc.Cmd(rngs[i].Intn(1 << 24)))
			} else {
				err = p.reset(q.id, qrpc.Cmd(rngs[i].Intn(1<<24)))
			}
			if err != nil {
				c.Violate("reset-failed", "%s: resetting the open request %d failed: %v", dirName(rev), q.id, err)
			}
		})
		c.Must("resetting requests", all)
		if c.Violated() {
			break
		}
		for _, q := range reqs {
			if q.target {
				c.Must("cancellation of the context of a reset request", q.h.ctx.Done())
				c.Must("end of the frame channel of a reset request", q.h.ended)
			} else if q.kind != 1 {
				c.Must("end of a finished frame channel", q.h.ended)
			}
		}
		p.echo("other", "after resets", 0x77, qrpc.NBFlag, gen(r.Uint64(), 40))
		c.Settle(3)
		for _, q := range reqs {
			if q.target {
				continue
			}
			if q.h.ctx.Err() != nil {
				c.Violate("cancelled-other", "%s: context of request %d (kind %d) is cancelled although it was not reset and is not answered; %d others were", dirName(rev), q.id, q.kind, n)
			}
			if q.kind == 1 && closedCh(q.h.ended) {
				c.Violate("ended-other", "%s: frame channel of the open stream %d ended although neither side ended it", dirName(rev), q.id)
			}
		}
		// open streams that were not reset still carry frames
		for _, q := range reqs {
			if q.kind == 1 && !q.target {
				t := r.Uint64()
				q.sent = append(q.sent, t)
				q.sw.StartWrite(8)
				q.sw.WriteBytes(gen(t, 60))
				if err := q.sw.EndWrite(true); err != nil {
					c.Violate("other-write", "%s: writing to stream %d, which was not reset, fails: %v", dirName(rev), q.id, err)
				} else {
					c.Must("end of a stream that was not reset", q.h.ended)
				}
			}
		}
		for _, q := range reqs {
			close(q.h.goOn)
		}
		for _, q := range reqs {
			c.Must("end of a handler", q.h.out)
			if q.h.werr != nil {
				c.Violate("answer-refused", "%s: the handler of request %d (reset=%v) cannot answer: %v", dirName(rev), q.id, q.target, q.h.werr)
			}
			f, err := c.getFrame("answer", q.resp)
			if err != nil {
				c.Violate("answer-lost", "%s: request %d (reset by its opener: %v) was answered but its caller got %v", dirName(rev), q.id, q.target, err)
			} else if f.RequestID != q.id {
				c.Violate("answer-wrong", "request %d got the answer of %d", q.id, f.RequestID)
			}
			hs.mu.Lock()
			seen := append([]uint64(nil), q.h.seen...)
			hs.mu.Unlock()
			if fmt.Sprint(seen) != fmt.Sprint(q.sent) && !q.target {
				c.Violate("frames", "%s: the handler of stream %d read %x, sent were %x", dirName(rev), q.id, seen, q.sent)
			}
			if q.target && (len(seen) > len(q.sent) || fmt.Sprint(seen) != fmt.Sprint(q.sent[:len(seen)])) {
				c.Violate("frames", "%s: the handler of the reset stream %d read %x, sent were %x", dirName(rev), q.id, seen, q.sent)
			}
			c.Eval(fmt.Sprint("target", rev, q.kind, q.target, len(q.sent), bucket(n), ccs, scs))
		}
		c.Sample("%s: %d concurrent requests, reset: %v", dirName(rev), n, func() (ids []uint64) {
			for _, q := range reqs {
				if q.target {
					ids = append(ids, q.id)
				}
			}
			return
		}())
	}
	p.stop()
}

// c08ends: the serving side ends requests without completing an answer.
func c08ends(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	ccs, scs := r.Pick(0, 1, 4, 100), r.Pick(0, 1, 4, 100)
	// the first 8 bytes are the tag; how the handler behaves is a function of it
	plan := func(tag uint64) (frames int, how int) { h := mix(tag, 5); return int(h % 4), int((h >> 8) % 5) }
	// how: 0 return, 1 w.ResetFrame, 2 reset by another writer of the connection, 3 finish properly, 4 return with an unfinished frame
	var otherReset func(q *qrpc.RequestFrame, reason qrpc.Cmd) error
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		tag := tagOf(q.Payload)
		n, how := plan(tag)
		for i := 0; i < n; i++ {
			w.StartWrite(q.RequestID, qrpc.Cmd(i+1), qrpc.StreamFlag)
			w.WriteBytes(gen(mix(tag, uint64(i)), 20+i*600))
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "frame %d of request %d", i, q.RequestID)
			}
		}
		switch how {
		case 0:
		case 1:
			if err := w.ResetFrame(q.RequestID, 77); err != nil {
				c.Violate("reset-failed", "a handler resetting its open request %d: %v", q.RequestID, err)
			}
		case 2:
			if err := otherReset(q, 78); err != nil {
				c.Violate("reset-failed", "resetting the open request %d from its serving side: %v", q.RequestID, err)
			}
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes([]byte("never"))
			if w.EndWrite() == nil {
				c.Violate("write-after-reset", "the serving side reset request %d, a later answer was accepted", q.RequestID)
			}
		case 3:
			w.StartWrite(q.RequestID, 99, qrpc.StreamFlag|qrpc.StreamEndFlag)
			if err := w.EndWrite(); err != nil {
				c.writeFailed("write", err, "end of request %d", q.RequestID)
			}
		case 4:
			w.StartWrite(q.RequestID, 1, qrpc.StreamFlag)
			w.WriteBytes([]byte("unfinished"))
		}
		if q.Flags.IsStream() {
			for range q.FrameCh() {
			}
		}
	})
	otherReset = func(q *qrpc.RequestFrame, reason qrpc.Cmd) error {
		if rev {
			return q.ClientConnectionInfo().CC.ResetFrame(q.RequestID, reason)
		}
		return q.ConnectionInfo().GetWriter().ResetFrame(q.RequestID, reason)
	}
	_, wc := chunkPolicy(r)
	p := newPair(c, pairOpt{rev: rev, wrapC: wc, binding: qrpc.ServerBinding{WriteFrameChSize: scs, ReadFrameChSize: r.Pick(0, 3)}, conf: qrpc.ConnectionConfig{WriteFrameChSize: ccs}}, h)
	rngs := []*Rng{}
	const G = 8
	for i := 0; i < G; i++ {
		rngs = append(rngs, r.Fork())
	}
	done := parallel(G, func(g int) {
		r := rngs[g]
		for k := 0; k < 25 && !c.Violated(); k++ {
			tag := r.Uint64()
			n, how := plan(tag)
			var resp qrpc.Response
			var sw qrpc.StreamWriter
			var err error
			var id uint64
			kind := r.Intn(4) // 0 blocking, 1 NB, 2 stream, 3 one-shot stream
			if rev && kind == 0 {
				kind = 1
			}
			switch kind {
			case 0:
				id, resp, err = p.open.Request(3, 0, gen(tag, 20))
			case 1:
				id, resp, err = p.open.Request(3, qrpc.NBFlag, gen(tag, 20))
			case 2:
				sw, resp, err = p.open.StreamRequest(3, 0, gen(tag, 20))
			case 3:
				sw, resp, err = p.open.StreamRequest(3, qrpc.StreamEndFlag, gen(tag, 20))
			}
			if err != nil {
				c.Violate("open", "request refused: %v", err)
				return
			}
			if kind == 2 {
				id = sw.RequestID()
				if r.P(1, 2) {
					sw.StartWrite(4)
					sw.WriteBytes([]byte("more"))
					sw.EndWrite(false) // may fail: the other side may have ended it
				}
				sw.StartWrite(4)
				sw.EndWrite(true)
			}
			what := fmt.Sprintf("%s request %d kind=%d answered with %d stream frames then %d", dirName(rev), id, kind, n, how)
			f, err := c.getFrame("release of a caller whose request was ended by the serving side", resp)
			want := n
			if how == 3 {
				want++
			}
			if want == 0 {
				if err != qrpc.ErrStreamClosed {
					c.Violate("not-closed", "%s: the caller got %v, %v instead of the stream-closed error", what, f, err)
				}
			} else if err != nil {
				c.Violate("first-lost", "%s: %v", what, err)
			} else {
				got := []*qrpc.Frame{f}
				for {
					g := c.nextFrame("end of an answer stream", f.FrameCh())
					if g == nil {
						break
					}
					got = append(got, g)
				}
				if len(got) != want {
					c.Violate("frames", "%s: the caller saw %d frames, want %d", what, len(got), want)
				}
				for i := 0; i < n && i < len(got); i++ {
					if uint32(got[i].Cmd) != uint32(i+1) || !same(got[i].Payload, gen(mix(tag, uint64(i)), 20+i*600)) {
						c.Violate("frames", "%s: frame %d is cmd=%d %s", what, i, got[i].Cmd, brief(got[i].Payload))
					}
				}
			}
			c.Eval(fmt.Sprint("ends", rev, kind, n, how, ccs, scs))
			if k == 0 && g == 0 {
				c.Sample("%s -> err=%v", what, err)
			}
		}
	})
	if !c.waitAtLeast(done, stallWall*5, stallTicks*4) {
		c.StallAbort("callers of ended requests")
	}
	p.stop()
}

// c08raw: a raw client resets precisely; contexts of the server's handlers are watched.
func c08raw(c *C) {
	r := c.Rng
	hs := newHeldSet()
	srv := startServer(c, "tcp", nil, qrpc.ServerBinding{Handler: hs.handler(), ReadFrameChSize: r.Pick(0, 4), SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) {}})
	for round := 0; round < 6 && !c.Violated(); round++ {
		p := dialRaw(c, srv.Addrs[0])
		n := r.Range(3, 12)
		var out []byte
		hh := make([]*held, n)
		fl := make([]byte, n)
		fate := make([]int, n) // 0 nothing, 1 reset, 2 a push reset of the same id, 3 reset of unknown ids around
		extra := make([][]uint64, n)
		var tail [][]byte
		unknown := 0
		for i := 0; i < n; i++ {
			tag := r.Uint64()
			hh[i] = hs.get(tag)
			fl[i] = byte(r.Pick(int(fNB), int(fStream), int(fStream|fNB)))
			fate[i] = r.Intn(4)
			id := uint64(2*i + 1)
			if r.P(1, 4) { // resetting an id before it is used means nothing
				out = append(out, WFrame{ID: id, Flags: fRst | byte(r.Pick(0, int(fStream), int(fNB), int(fPush))), Cmd: 3, Payload: gen(1, r.Pick(0, 10))}.Bytes()...)
				unknown++
			}
			out = append(out, WFrame{ID: id, Flags: fl[i], Cmd: uint32(r.Range(1, 0x70)), Payload: gen(tag, 16)}.Bytes()...)
			var t []byte
			if fl[i]&fStream != 0 {
				for j := r.Intn(3); j > 0; j-- {
					e := r.Uint64()
					extra[i] = append(extra[i], e)
					t = append(t, WFrame{ID: id, Flags: fl[i], Cmd: 2, Payload: gen(e, 24)}.Bytes()...)
				}
			}
			switch fate[i] {
			case 1:
				t = append(t, WFrame{ID: id, Flags: fRst | byte(r.Pick(0, int(fStream), int(fNB), int(fStream|fEnd))), Cmd: uint32(r.Intn(1 << 24)), Payload: gen(2, r.Pick(0, 0, 30))}.Bytes()...)
			case 2:
				t = append(t, WFrame{ID: id, Flags: fRst | fPush, Cmd: 1}.Bytes()...)
			case 3:
				t = append(t, WFrame{ID: id + 2000, Flags: fRst, Cmd: 1}.Bytes()...)
				t = append(t, WFrame{ID: id + 1, Flags: fRst, Cmd: 1}.Bytes()...)
				unknown += 2
			}
			tail = append(tail, t)
		}
		for _, i := range r.Perm(n) {
			out = append(out, tail[i]...)
		}
		probeID := uint64(100001)
		out = append(out, WFrame{ID: probeID, Flags: fNB, Cmd: 0x77, Payload: gen(5, 20)}.Bytes()...)
		for len(out) > 0 {
			k := r.Range(1, len(out))
			p.nc.Write(out[:k])
			out = out[k:]
		}
		for _, h := range hh {
			c.Must("dispatch of a raw request", h.in)
		}
		c.MustUntil("answer to the request after the resets", func() bool { return len(p.ByID(probeID)) > 0 })
		for i, h := range hh {
			id := uint64(2*i + 1)
			what := fmt.Sprintf("request %d flags %#x fate %d", id, fl[i], fate[i])
			if fate[i] == 1 {
				c.Must("context of a request reset by a raw peer", h.ctx.Done())
				c.Must("frame channel of a request reset by a raw peer", h.ended)
			} else {
				if h.ctx.Err() != nil {
					c.Violate("cancelled-other", "raw: context of %s is cancelled, it was not reset", what)
				}
				if fl[i]&fStream != 0 && closedCh(h.ended) {
					c.Violate("ended-other", "raw: frame channel of %s ended, it was not reset", what)
				}
			}
			hs.mu.Lock()
			seen := fmt.Sprint(h.seen)
			hs.mu.Unlock()
			if fate[i] == 1 {
				continue
			}
			if !c.Until(func() bool { hs.mu.Lock(); defer hs.mu.Unlock(); return len(h.seen) >= len(extra[i]) }) {
				c.Violate("frames", "raw: frames of %s not delivered: %v of %v", what, seen, extra[i])
			}
		}
		for i, h := range hh {
			close(h.goOn)
			c.Must("end of a raw handler", h.out)
			id := uint64(2*i + 1)
			if h.werr != nil {
				c.Violate("answer-refused", "raw: handler of request %d (fate %d) cannot answer: %v", id, fate[i], h.werr)
				continue
			}
			c.MustUntil("answer on the wire", func() bool { return len(p.ByID(id)) > 0 })
			if fs := p.ByID(id); len(fs) != 1 || fs[0].Flags&fRst != 0 {
				c.Violate("wire", "raw: request %d (fate %d) got %v", id, fate[i], fs)
			}
			c.Eval(fmt.Sprint("raw", fl[i], fate[i], len(extra[i]), bucket(n)))
		}
		for _, f := range p.Frames() {
			if f.ID >= 2000 && f.ID != probeID {
				c.Violate("wire", "raw: a reset of unknown request was answered: %v", f)
			}
		}
		c.Count("unknown_resets", int64(unknown))
		p.Close()
	}
	srv.Stop()
}

// c08rawserver: a raw server answers, resets, and resets things that do not exist.
func c08rawserver(c *C) {
	r := c.Rng
	rs := newRawServer(c)
	hs := newHeldSet()
	conf := qrpc.ConnectionConfig{WriteFrameChSize: r.Pick(0, 3, 50)}
	withHandler := r.P(1, 2)
	if withHandler {
		conf.Handler = hs.handler()
	}
	conn, err := qrpc.NewConnection(rs.addr(), conf, func(_ *qrpc.Connection, f *qrpc.Frame) { go drain(f) })
	if err != nil {
		c.Violate("dial", "%v", err)
		return
	}
	p := newRawPeer(c, rs.next())
	for round := 0; round < 8 && !c.Violated(); round++ {
		n := r.Range(2, 14)
		type rq struct {
			id   uint64
			resp qrpc.Response
			how  int // 0 answer, 1 reset, 2 stream then reset, 3 stream then end, 4 reset twice, 5 reset with a push flag then answer
			tag  uint64
		}
		var rqs []*rq
		for i := 0; i < n; i++ {
			q := &rq{how: r.Intn(6), tag: r.Uint64()}
			var err error
			if r.P(1, 3) {
				var sw qrpc.StreamWriter
				sw, q.resp, err = conn.StreamRequest(1, 0, nil)
				if err == nil {
					q.id = sw.RequestID()
				}
			} else {
				q.id, q.resp, err = conn.Request(1, qrpc.NBFlag, nil)
			}
			if err != nil {
				c.Violate("open", "%v", err)
				return
			}
			rqs = append(rqs, q)
		}
		var out []byte
		for _, i := range r.Perm(n) {
			q := rqs[i]
			if r.P(1, 4) {
				out = append(out, WFrame{ID: q.id + 100000, Flags: fRst | byte(r.Pick(0, int(fPush), int(fStream)))}.Bytes()...)
			}
			if r.P(1, 4) { // an even id nobody opened
				out = append(out, WFrame{ID: uint64(2 * r.Range(500, 900)), Flags: fRst}.Bytes()...)
			}
			switch q.how {
			case 0:
				out = append(out, WFrame{ID: q.id, Cmd: 5, Payload: gen(q.tag, 30)}.Bytes()...)
			case 1, 4:
				for j := 0; j <= q.how/4; j++ {
					out = append(out, WFrame{ID: q.id, Flags: fRst | byte(r.Pick(0, int(fStream), int(fEnd))), Payload: gen(1, r.Pick(0, 5))}.Bytes()...)
				}
			case 2, 3:
				for j := 0; j < 3; j++ {
					out = append(out, WFrame{ID: q.id, Flags: fStream, Cmd: 5, Payload: gen(mix(q.tag, uint64(j)), 30)}.Bytes()...)
				}
				if q.how == 2 {
					out = append(out, WFrame{ID: q.id, Flags: fRst}.Bytes()...)
				} else {
					out = append(out, WFrame{ID: q.id, Flags: fStream | fEnd}.Bytes()...)
				}
			case 5:
				out = append(out, WFrame{ID: q.id, Flags: fRst | fPush}.Bytes()...)
				out = append(out, WFrame{ID: q.id, Cmd: 5, Payload: gen(q.tag, 30)}.Bytes()...)
			}
		}
		for len(out) > 0 {
			k := r.Range(1, len(out))
			p.nc.Write(out[:k])
			out = out[k:]
		}
		done := parallel(n, func(i int) {
			q := rqs[i]
			f, err := q.resp.GetFrame()
			switch q.how {
			case 0, 5:
				if err != nil || !same(f.Payload, gen(q.tag, 30)) {
					c.Violate("answer", "raw server: request %d (how %d): %v", q.id, q.how, err)
				}
			case 1, 4:
				if err != qrpc.ErrStreamClosed {
					c.Violate("not-closed", "raw server: request %d was reset, its caller got %v, %v", q.id, f, err)
				}
			case 2, 3:
				if err != nil {
					c.Violate("answer", "raw server: request %d (how %d): %v", q.id, q.how, err)
					return
				}
				k, want := 1, 3+q.how-2
				for g := range f.FrameCh() {
					if k < 3 && !same(g.Payload, gen(mix(q.tag, uint64(k)), 30)) {
						c.Violate("frames", "raw server: request %d frame %d differs", q.id, k)
					}
					k++
				}
				if k != want {
					c.Violate("frames", "raw server: request %d (how %d): %d frames, want %d", q.id, q.how, k, want)
				}
			}
			c.Eval(fmt.Sprint("rawserver", q.how, bucket(n), withHandler))
		})
		if !c.Wait(done) {
			c.StallAbort("callers answered or reset by a raw server")
		}
		if conn.IsClosed() || p.Closed() {
			c.Violate("closed", "the connection was closed by resets")
		}
	}
	closeConn(c, conn)
	p.Close()
}

// c08race: resets race with answers, ends and further frames; each request keeps a consistent fate and
// nothing else is touched.
func c08race(c *C) {
	r := c.Rng
	rev := c.K%2 == 1
	var cancelled, finished int64
	h := qrpc.HandlerFunc(func(w qrpc.FrameWriter, q *qrpc.RequestFrame) {
		if uint32(q.Cmd) == 0x77 {
			answer(w, q)
			return
		}
		mode := uint32(q.Cmd) & 3
		if mode == 3 { // healthy: must never be cancelled before it answered
			for range q.FrameCh() {
			}
			if q.Context().Err() != nil {
				c.Violate("cancelled-other", "context of request %d, which nobody resets, is cancelled before its answer", q.RequestID)
			}
		} else {
			go func() {
				for range q.FrameCh() {
				}
			}()
		}
		if mode == 1 { // waits for the cancellation
			<-q.Context().Done()
			atomic.AddInt64(&cancelled, 1)
		}
		answer(w, q)
		atomic.AddInt64(&finished, 1)
	})
	ccs, scs := r.Pick(0, 1, 4, 100), r.Pick(0, 1, 4, 100)
	p := newPair(c, pairOpt{rev: rev, binding: qrpc.ServerBinding{WriteFrameChSize: scs}, conf: qrpc.ConnectionConfig{WriteFrameChSize: ccs}}, h)
	rngs := []*Rng{}
	for i := 0; i < 10; i++ {
		rngs = append(rngs, r.Fork())
	}
	var total int64
	done := parallel(10, func(g int) {
		r := rngs[g]
		for k := 0; k < 60 && !c.Violated(); k++ {
			mode := uint32(r.Intn(4))
			cmd := mode | 0x100
			pl := gen(r.Uint64(), r.Pick(8, 40))
			if mode == 3 || r.P(1, 2) {
				if mode == 3 && r.P(1, 2) {
					sw, resp, err := p.open.StreamRequest(qrpc.Cmd(cmd), 0, pl)
					if err != nil {
						c.Violate("open", "%v", err)
						return
					}
					for j := r.Intn(3); j > 0; j-- {
						sw.StartWrite(1)
						sw.WriteBytes(pl)
						if err := sw.EndWrite(false); err != nil {
							c.Violate("other-write", "%s: stream %d which nobody resets: %v", dirName(rev), sw.RequestID(), err)
						}
					}
					sw.StartWrite(1)
					if err := sw.EndWrite(true); err != nil {
						c.Violate("other-write", "%s: stream %d which nobody resets: %v", dirName(rev), sw.RequestID(), err)
					}
					f, err := c.getFrame("answer of a stream nobody resets", resp)
					if rc, rp := respFor(cmd, pl); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
						c.Violate("answer", "%s: stream nobody resets: %v", dirName(rev), err)
					}
				} else {
					p.echo("answer", "request nobody resets", 3|0x100, qrpc.NBFlag, pl)
				}
				c.Eval(fmt.Sprint("race-healthy", rev, ccs, scs))
				continue
			}
			atomic.AddInt64(&total, 1)
			sw, resp, err := p.open.StreamRequest(qrpc.Cmd(cmd), 0, pl)
			if err != nil {
				c.Violate("open", "%v", err)
				return
			}
			for j := r.Intn(3); j > 0; j-- {
				sw.StartWrite(1)
				sw.WriteBytes(pl)
				sw.EndWrite(false)
			}
			p.reset(sw.RequestID(), 1)
			f, err := c.getFrame("answer of a reset request", resp)
			if rc, rp := respFor(cmd, pl); err != nil || uint32(f.Cmd) != rc || !same(f.Payload, rp) {
				c.Violate("answer", "%s: reset request %d (mode %d), whose handler answers: %v", dirName(rev), sw.RequestID(), mode, err)
			}
			c.Eval(fmt.Sprint("race", rev, mode, ccs, scs))
		}
	})
	if !c.waitAtLeast(done, stallWall*5, stallTicks*4) {
		c.StallAbort("requests racing with resets")
	}
	c.Count("cancelled_handlers", atomic.LoadInt64(&cancelled))
	p.stop()
}
