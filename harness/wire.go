package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// An encoder and decoder of the documented frame format that shares nothing with the code under test.

const (
	fStream byte = 1
	fEnd    byte = 2
	fRst    byte = 4
	fNB     byte = 8
	fPush   byte = 16
	fCodec  byte = 32
)

// WFrame is one frame on the wire.
type WFrame struct {
	ID      uint64
	Flags   byte
	Cmd     uint32
	Payload []byte
}

func (f WFrame) String() string {
	return fmt.Sprintf("{id=%d flags=%#x cmd=%#x len=%d h=%x}", f.ID, f.Flags, f.Cmd, len(f.Payload), h64(f.Payload))
}

// Bytes encodes the frame.
func (f WFrame) Bytes() []byte {
	b := make([]byte, 16+len(f.Payload))
	binary.BigEndian.PutUint32(b, uint32(12+len(f.Payload)))
	binary.BigEndian.PutUint64(b[4:], f.ID)
	b[12] = f.Flags
	b[13], b[14], b[15] = byte(f.Cmd>>16), byte(f.Cmd>>8), byte(f.Cmd)
	copy(b[16:], f.Payload)
	return b
}

var errBadFrame = errors.New("malformed frame on the wire")

// readWFrame decodes one frame; any declared size outside [12, 1<<28] is malformed.
func readWFrame(r io.Reader) (f WFrame, err error) {
	var h [16]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	n := binary.BigEndian.Uint32(h[:])
	if n < 12 || n > 1<<28 {
		return f, errBadFrame
	}
	f.ID = binary.BigEndian.Uint64(h[4:])
	f.Flags = h[12]
	f.Cmd = uint32(h[13])<<16 | uint32(h[14])<<8 | uint32(h[15])
	if n > 12 {
		f.Payload = make([]byte, n-12)
		_, err = io.ReadFull(r, f.Payload)
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
	}
	return
}

// parseWire decodes a whole byte string; rest is an incomplete tail.
func parseWire(b []byte) (fs []WFrame, rest []byte, err error) {
	for len(b) >= 16 {
		n := int(binary.BigEndian.Uint32(b))
		if n < 12 || n > 1<<28 {
			return fs, b, errBadFrame
		}
		if len(b) < 4+n {
			break
		}
		f := WFrame{ID: binary.BigEndian.Uint64(b[4:]), Flags: b[12], Cmd: uint32(b[13])<<16 | uint32(b[14])<<8 | uint32(b[15])}
		if n > 12 {
			f.Payload = append([]byte(nil), b[16:4+n]...)
		}
		fs = append(fs, f)
		b = b[4+n:]
	}
	return fs, b, nil
}

// RawPeer speaks the wire format over a plain socket.
type RawPeer struct {
	c    *C
	nc   net.Conn
	mu   sync.Mutex
	got  []WFrame
	err  error // why reading ended
	over chan struct{}
	hold chan struct{} // non nil: not reading yet
}

var dialed uint32

// netDial connects from a loopback address of its own, so that no two connections of a run have the same remote
// address: a port alone is used again soon, even at the same time when the other end differs.
func netDial(addr string, timeout time.Duration) (net.Conn, error) {
	n := atomic.AddUint32(&dialed, 1)
	d := net.Dialer{Timeout: timeout, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, byte(1+n>>16%250), byte(n>>8), byte(n))}}
	if nc, err := d.Dial("tcp", addr); err == nil {
		return nc, nil
	}
	return net.DialTimeout("tcp", addr, timeout)
}

func dialRaw(c *C, addr string) *RawPeer {
	nc, err := netDial(addr, 10*time.Second)
	if err != nil {
		c.Violate("raw-dial", "cannot connect to the server: %v", err)
		c.Abort()
	}
	return newRawPeer(c, nc)
}

func newRawPeer(c *C, nc net.Conn) *RawPeer {
	p := &RawPeer{c: c, nc: nc, over: make(chan struct{})}
	go p.loop()
	return p
}

// newRawPeerHeld does not read until release is called.
func newRawPeerHeld(c *C, nc net.Conn) *RawPeer {
	p := &RawPeer{c: c, nc: nc, over: make(chan struct{}), hold: make(chan struct{})}
	go func() { <-p.hold; p.loop() }()
	return p
}

func (p *RawPeer) release() { close(p.hold) }

func (p *RawPeer) loop() {
	defer close(p.over)
	for {
		f, err := readWFrame(p.nc)
		p.mu.Lock()
		if err != nil {
			p.err = err
			p.mu.Unlock()
			return
		}
		p.got = append(p.got, f)
		p.mu.Unlock()
	}
}

// Send writes frames.
func (p *RawPeer) Send(fs ...WFrame) error {
	var b []byte
	for _, f := range fs {
		b = append(b, f.Bytes()...)
	}
	_, err := p.nc.Write(b)
	return err
}

// Frames is a snapshot of what was received.
func (p *RawPeer) Frames() []WFrame {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]WFrame(nil), p.got...)
}

// N is how many frames were received.
func (p *RawPeer) N() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.got) }

// ByID returns the received frames of one id.
func (p *RawPeer) ByID(id uint64) (fs []WFrame) {
	for _, f := range p.Frames() {
		if f.ID == id {
			fs = append(fs, f)
		}
	}
	return
}

// Err is why reading ended.
func (p *RawPeer) Err() error { p.mu.Lock(); defer p.mu.Unlock(); return p.err }

// Closed tells whether the other side ended the connection.
func (p *RawPeer) Closed() bool {
	select {
	case <-p.over:
		return true
	default:
		return false
	}
}

// Close closes the socket.
func (p *RawPeer) Close() { p.nc.Close() }
