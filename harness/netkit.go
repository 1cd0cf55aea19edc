package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"math/big"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// Policy says how a wrapped connection treats the bytes.
type Policy struct {
	Rng        *Rng
	WChunk     int   // >0: accept at most this many bytes per underlying write, in random pieces
	WTimeoutP  int   // 1 in n writes stops part-way with a timeout error (0: never)
	RChunk     int   // >0: deliver at most this many bytes per read
	YieldP     int   // 1 in n operations sleeps a little
	CutW       int64 // >0: the connection breaks when this many bytes were written
	CutR       int64 // >0: ... or read
	StickyErr  bool  // the break is seen by writes as a non timeout error
	TapW, TapR *Tap
	OnWrite    func()
	OnPiece    func()
}

// Tap records bytes.
type Tap struct {
	mu sync.Mutex
	b  []byte
}

func (t *Tap) add(b []byte) {
	if t == nil || len(b) == 0 {
		return
	}
	t.mu.Lock()
	t.b = append(t.b, b...)
	t.mu.Unlock()
}

// Bytes is a copy of what was recorded.
func (t *Tap) Bytes() []byte { t.mu.Lock(); defer t.mu.Unlock(); return append([]byte(nil), t.b...) }

// Len is how much was recorded.
func (t *Tap) Len() int { t.mu.Lock(); defer t.mu.Unlock(); return len(t.b) }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// fconn is a TCP connection as the library sees it, with the policy applied. It does not embed
// *net.TCPConn, as that would let writev go around it.
type fconn struct {
	c      *net.TCPConn
	p      Policy
	w, r   int64
	writes int64
	closed int32
	onDone func()
}

func wrapConn(nc net.Conn, p Policy) *fconn {
	if p.Rng == nil {
		p.Rng = NewRng(1)
	}
	return &fconn{c: nc.(*net.TCPConn), p: p}
}

var errCut = errors.New("connection cut")

func (f *fconn) yield() {
	if f.p.YieldP > 0 && f.p.Rng.P(1, f.p.YieldP) {
		time.Sleep(time.Duration(f.p.Rng.Range(1, 300)) * time.Microsecond)
	}
}

func (f *fconn) Read(b []byte) (int, error) {
	f.yield()
	if f.p.RChunk > 0 && len(b) > 1 {
		n := f.p.Rng.Range(1, f.p.RChunk)
		if n < len(b) {
			b = b[:n]
		}
	}
	if f.p.CutR > 0 {
		left := f.p.CutR - atomic.LoadInt64(&f.r)
		if left <= 0 {
			f.c.Close()
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: errCut}
		}
		if int64(len(b)) > left {
			b = b[:left]
		}
	}
	n, err := f.c.Read(b)
	atomic.AddInt64(&f.r, int64(n))
	f.p.TapR.add(b[:n])
	return n, err
}

func (f *fconn) Write(b []byte) (int, error) {
	total := 0
	atomic.AddInt64(&f.writes, 1)
	if f.p.OnWrite != nil {
		f.p.OnWrite()
	}
	for {
		f.yield()
		if f.p.OnPiece != nil {
			f.p.OnPiece()
		}
		part := b[total:]
		if f.p.WChunk > 0 && len(part) > 1 {
			n := f.p.Rng.Range(1, f.p.WChunk)
			if n < len(part) {
				part = part[:n]
			}
		}
		if f.p.WTimeoutP > 0 && f.p.Rng.P(1, f.p.WTimeoutP) {
			return total, &net.OpError{Op: "write", Net: "tcp", Err: timeoutErr{}}
		}
		if f.p.CutW > 0 {
			left := f.p.CutW - atomic.LoadInt64(&f.w)
			if left <= 0 {
				f.c.Close()
				return total, &net.OpError{Op: "write", Net: "tcp", Err: errCut}
			}
			if int64(len(part)) > left {
				part = part[:left]
			}
		}
		n, err := f.c.Write(part)
		atomic.AddInt64(&f.w, int64(n))
		f.p.TapW.add(part[:n])
		total += n
		if err != nil || total >= len(b) {
			return total, err
		}
	}
}

func (f *fconn) Close() error {
	atomic.StoreInt32(&f.closed, 1)
	return f.c.Close()
}
func (f *fconn) LocalAddr() net.Addr                      { return f.c.LocalAddr() }
func (f *fconn) RemoteAddr() net.Addr                     { return f.c.RemoteAddr() }
func (f *fconn) SetDeadline(t time.Time) error            { return f.c.SetDeadline(t) }
func (f *fconn) SetReadDeadline(t time.Time) error        { return f.c.SetReadDeadline(t) }
func (f *fconn) SetWriteDeadline(t time.Time) error       { return f.c.SetWriteDeadline(t) }
func (f *fconn) SetKeepAlive(k bool) error                { return f.c.SetKeepAlive(k) }
func (f *fconn) SetKeepAlivePeriod(d time.Duration) error { return f.c.SetKeepAlivePeriod(d) }
func (f *fconn) SetWriteBuffer(n int) error               { return f.c.SetWriteBuffer(n) }
func (f *fconn) SetReadBuffer(n int) error                { return f.c.SetReadBuffer(n) }

// fListener wraps what it accepts.
type fListener struct {
	net.Listener
	wrap     func(i int, nc net.Conn) net.Conn
	accepted int64
	closed   int32
}

func (l *fListener) Accept() (net.Conn, error) {
	nc, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	i := int(atomic.AddInt64(&l.accepted, 1)) - 1
	if l.wrap != nil {
		return l.wrap(i, nc), nil
	}
	return nc, nil
}

func (l *fListener) Close() error {
	atomic.StoreInt32(&l.closed, 1)
	return l.Listener.Close()
}

// ---------------------------------------------------------------- TLS

var (
	tlsOnce   sync.Once
	tlsServer *tls.Config
	tlsClient *tls.Config
)

func makeCert(host string) (tls.Certificate, *x509.CertPool) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: host},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{host}, IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pool
}

func tlsConfs() (srv, cli *tls.Config) {
	tlsOnce.Do(func() {
		cert, pool := makeCert("localhost")
		tlsServer = &tls.Config{Certificates: []tls.Certificate{cert}}
		tlsClient = &tls.Config{RootCAs: pool, ServerName: "127.0.0.1"}
	})
	return tlsServer, tlsClient
}

func countFDs() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && len(t) > 7 && t[:7] == "socket:" {
			n++
		}
	}
	return n
}
