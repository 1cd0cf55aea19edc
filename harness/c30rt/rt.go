// Package c30rt is what generated services, types and test programs of the code generator's check share.
package c30rt

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/zhiqiangxu/qrpc"
)

// Picky is a value some of which refuse to be encoded (-7) or decoded (-8).
type Picky int

var (
	errEnc = errors.New("picky refuses to be encoded")
	errDec = errors.New("picky refuses to be decoded")
)

// MarshalJSON refuses -7 and spoils -8.
func (p Picky) MarshalJSON() ([]byte, error) {
	switch p {
	case -7:
		return nil, errEnc
	case -8:
		return []byte(`"spoiled"`), nil
	}
	return json.Marshal(int(p))
}

// UnmarshalJSON refuses what -8 becomes.
func (p *Picky) UnmarshalJSON(b []byte) error {
	if b[0] == '"' {
		return errDec
	}
	return json.Unmarshal(b, (*int)(p))
}

type packed struct {
	P int
	B []byte
	S string
	E string
}

// Pack is what self-marshalling types become.
func Pack(p Picky, b []byte, s, e string) ([]byte, error) {
	if p == -7 {
		return nil, errEnc
	}
	if p == -8 {
		return []byte("spoiled"), nil
	}
	// not JSON, and nil and empty bytes differ
	var w bytes.Buffer
	w.WriteByte(1)
	if b == nil {
		w.WriteByte(0)
	} else {
		w.WriteByte(1)
	}
	if err := gob.NewEncoder(&w).Encode(packed{int(p), b, s, e}); err != nil {
		return nil, err
	}
	return w.Bytes(), nil
}

// Unpack undoes Pack.
func Unpack(in []byte, p *Picky, b *[]byte, s, e *string) error {
	if len(in) < 2 || in[0] != 1 {
		return errDec
	}
	var v packed
	if err := gob.NewDecoder(bytes.NewReader(in[2:])).Decode(&v); err != nil {
		return err
	}
	*p, *s, *e = Picky(v.P), v.S, v.E
	*b = nil
	if in[1] == 1 {
		*b = append([]byte{}, v.B...)
	}
	return nil
}

func addressable(v reflect.Value) reflect.Value {
	if !v.CanSet() && v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

var words = []string{"", "a", "hello", "<b>&amp;</b>", "世界", "\u2028", "\"quoted\\", "line\nbreak", "\x00\x01", "null", "{}", "0"}

// Fill gives v a random value.
func Fill(v reflect.Value, r *rand.Rand, depth int) {
	v = addressable(v)
	if v.Type() == reflect.TypeOf(Picky(0)) {
		v.SetInt(int64(r.Intn(1000)))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64:
		v.SetInt([]int64{0, 1, -1, r.Int63(), -r.Int63(), 1 << 62, -1 << 63}[r.Intn(7)])
	case reflect.Int8, reflect.Int16, reflect.Int32:
		v.SetInt(int64(r.Intn(256) - 128))
	case reflect.Uint, reflect.Uint64:
		v.SetUint([]uint64{0, 1, r.Uint64(), 1<<64 - 1}[r.Intn(4)])
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		v.SetUint(uint64(r.Intn(256)))
	case reflect.Float32:
		v.SetFloat(float64(float32(r.NormFloat64())))
	case reflect.Float64:
		v.SetFloat([]float64{0, 1, r.NormFloat64(), 1e300, 5e-324, -1.5}[r.Intn(6)])
	case reflect.String:
		s := words[r.Intn(len(words))]
		if r.Intn(6) == 0 {
			s += strings.Repeat("x", r.Intn(5000))
		}
		v.SetString(s + fmt.Sprint(r.Intn(1000)))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			Fill(v.Field(i), r, depth+1)
		}
	case reflect.Slice:
		if n := r.Intn(5); n == 0 || depth > 6 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.Set(reflect.MakeSlice(v.Type(), n-1, n-1))
			for i := 0; i < n-1; i++ {
				Fill(v.Index(i), r, depth+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			Fill(v.Index(i), r, depth+1)
		}
	case reflect.Map:
		if n := r.Intn(4); n == 0 || depth > 6 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.Set(reflect.MakeMap(v.Type()))
			for i := 0; i < n-1; i++ {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				Fill(k, r, depth+1)
				Fill(e, r, depth+1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Ptr:
		if r.Intn(3) == 0 || depth > 6 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.Set(reflect.New(v.Type().Elem()))
			Fill(v.Elem(), r, depth+1)
		}
	case reflect.Interface:
		switch r.Intn(4) {
		case 0:
			v.Set(reflect.Zero(v.Type()))
		case 1:
			v.Set(reflect.ValueOf(words[r.Intn(len(words))]))
		case 2:
			v.Set(reflect.ValueOf(float64(r.Intn(100))))
		case 3:
			v.Set(reflect.ValueOf([]interface{}{true, "x", nil}))
		}
	default:
		panic(v.Type().String())
	}
}

// Dump is the same for equal values.
func Dump(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + Dump(v.Elem())
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, Dump(v.Field(i)))
		}
		return "{" + strings.Join(s, ",") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, Dump(v.Index(i)))
		}
		return "[" + strings.Join(s, ",") + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, Dump(k)+":"+Dump(v.MapIndex(k)))
		}
		sort.Strings(s)
		return "map{" + strings.Join(s, ",") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	}
	return fmt.Sprint(v.Uint())
}

// picky finds the field that can be made to refuse.
func picky(v reflect.Value) (reflect.Value, bool) {
	v = addressable(v)
	if v.Type() == reflect.TypeOf(Picky(0)) {
		return v, true
	}
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			if f, ok := picky(v.Field(i)); ok {
				return f, true
			}
		}
	}
	return v, false
}

type call struct{ svc, ns, name, in string }

var (
	mu    sync.Mutex
	calls []call
	mode  int32
	ended = make(chan struct{}, 1000)
)

func taken() []call {
	mu.Lock()
	defer mu.Unlock()
	c := calls
	calls = nil
	return c
}

// Called is what every method of a service does.
func Called(svc, ns, name string, ctx context.Context, in, out interface{}) {
	mu.Lock()
	calls = append(calls, call{svc, ns, name, Dump(reflect.ValueOf(in))})
	mu.Unlock()
	Expect(svc, ns, name, in, out)
	switch m := atomic.LoadInt32(&mode); m {
	case -7, -8:
		if f, ok := picky(reflect.ValueOf(out).Elem()); ok {
			f.SetInt(int64(m))
		}
	case 1:
		<-ctx.Done()
		ended <- struct{}{}
	}
}

// Expect puts the output of a method into out.
func Expect(svc, ns, name string, in, out interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, svc, "/", ns, "/", name, "/", Dump(reflect.ValueOf(in)))
	Fill(reflect.ValueOf(out).Elem(), rand.New(rand.NewSource(int64(h.Sum64()))), 0)
}

// Method is a method of a generated client.
type Method struct {
	Svc, NS, Name string
	In, Out       interface{} // zero values
	Call          func(client interface{}, ctx context.Context, in interface{}) interface{}
}

// Service is a generated service.
type Service struct {
	Name       string
	RPCCmd     uint32
	Mux        func() *qrpc.ServeMux // with everything registered
	Bare       func() *qrpc.ServeMux // with nothing registered
	Client     func(addrs []string, conf qrpc.ConnectionConfig) interface{}
	Methods    []Method
	NewService func() interface{}
}

func violate(kind, format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(s) > 3000 {
		s = s[:3000]
	}
	b, _ := json.Marshal(map[string]string{"kind": kind, "text": s})
	os.Stdout.Write(append(append([]byte("VIOLATE "), b...), '\n'))
}

func eval(key string) { os.Stdout.WriteString("EVAL " + key + "\n") }

type cmdCheck struct {
	h    qrpc.Handler
	want uint32
}

func (c *cmdCheck) ServeQRPC(w qrpc.FrameWriter, f *qrpc.RequestFrame) {
	if uint32(f.Cmd) != c.want {
		violate("command", "the client used command %d, not %d", f.Cmd, c.want)
	}
	c.h.ServeQRPC(w, f)
}

func serve(s *Service, mux *qrpc.ServeMux) string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr := ln.Addr().String()
	srv := qrpc.NewServer([]qrpc.ServerBinding{{Addr: addr, Handler: &cmdCheck{mux, s.RPCCmd}, ListenFunc: func(string, string) (net.Listener, error) { return ln, nil }}})
	go srv.ListenAndServe()
	return addr
}

func errText(out interface{}) string {
	v := reflect.New(reflect.TypeOf(out))
	v.Elem().Set(reflect.ValueOf(out))
	return v.Interface().(interface{ ErrText() string }).ErrText()
}

func short(v interface{}) string {
	s := Dump(reflect.ValueOf(v))
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// within fails the program with all stacks when f takes too long.
func within(what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		b := make([]byte, 1<<20)
		violate("stall", "%s did not end: %s", what, b[:runtime.Stack(b, true)])
		os.Exit(0)
	}
}

// Run checks the services.
func Run(seed int64, services []Service) {
	r := rand.New(rand.NewSource(seed))
	for i := range services {
		s := &services[i]
		addr := serve(s, s.Mux())
		bare := serve(s, s.Bare())
		conf := qrpc.ConnectionConfig{}
		cl := s.Client([]string{addr}, conf)
		for _, m := range s.Methods {
			what := fmt.Sprintf("%s %q.%s(%T) %T", m.Svc, m.NS, m.Name, m.In, m.Out)
			kind := fmt.Sprintf("%s %s sub=%v", kindOf(m.In), kindOf(m.Out), m.NS != "")
			newIn := func() reflect.Value {
				in := reflect.New(reflect.TypeOf(m.In)).Elem()
				Fill(in, r, 0)
				return in
			}
			// one call of it
			one := func(cl interface{}, ctx context.Context, in reflect.Value, ncalls int) (out interface{}, ok bool) {
				taken()
				want := Dump(in)
				within(what, func() { out = m.Call(cl, ctx, in.Interface()) })
				c := taken()
				if len(c) != ncalls && ncalls >= 0 {
					violate("calls", "%s: %d calls of service methods instead of %d", what, len(c), ncalls)
					return out, false
				}
				for _, c := range c {
					if c != (call{m.Svc, m.NS, m.Name, want}) {
						violate("call", "%s with %s: the service was asked for %s %q.%s with %s", what, short(in.Interface()), c.svc, c.ns, c.name, c.in)
						return out, false
					}
				}
				return out, true
			}
			for k := 0; k < 6; k++ {
				in := newIn()
				exp := reflect.New(reflect.TypeOf(m.Out))
				Expect(m.Svc, m.NS, m.Name, in.Interface(), exp.Interface())
				out, ok := one(cl, context.Background(), in, 1)
				if ok && !reflect.DeepEqual(out, exp.Elem().Interface()) {
					violate("output", "%s with %s returned %s instead of %s", what, short(in.Interface()), short(out), short(exp.Elem().Interface()))
				}
				eval("call " + kind)
				if k == 0 && ok {
					os.Stdout.WriteString("SAMPLE " + what + " with " + strings.ReplaceAll(short(in.Interface()), "\n", " ") + " returned what the method did\n")
				}
			}
			fails := func(key string, cl interface{}, ctx context.Context, in reflect.Value, ncalls int, text string) {
				out, ok := one(cl, ctx, in, ncalls)
				if e := errText(out); ok && (e == "" || !strings.Contains(e, text)) {
					violate("error", "%s, %s: the error is %q, not %q", what, key, e, text)
				}
				eval(key + " " + kind)
			}
			fresh := func() interface{} { return s.Client([]string{addr}, conf) }
			for _, bad := range []int64{-7, -8} {
				text := []string{errDec.Error(), errEnc.Error()}[bad+8]
				in := newIn()
				if f, ok := picky(in); ok {
					f.SetInt(bad)
					fails(fmt.Sprint("input refuses ", bad), fresh(), context.Background(), in, 0, text)
				}
				if _, ok := picky(reflect.New(reflect.TypeOf(m.Out)).Elem()); ok {
					atomic.StoreInt32(&mode, int32(bad))
					fails(fmt.Sprint("output refuses ", bad), fresh(), context.Background(), newIn(), 1, text)
					atomic.StoreInt32(&mode, 0)
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			if r.Intn(3) == 0 {
				atomic.StoreInt32(&mode, 1)
				go func() {
					for begin := time.Now(); time.Since(begin) < time.Minute; time.Sleep(time.Millisecond) {
						mu.Lock()
						n := len(calls)
						mu.Unlock()
						if n > 0 {
							break
						}
					}
					cancel()
				}()
				fails("canceled", cl, ctx, newIn(), -1, context.Canceled.Error())
				within(what+" after its context was canceled", func() { <-ended })
				atomic.StoreInt32(&mode, 0)
				taken()
			} else {
				cancel()
			}
			fails("not registered", s.Client([]string{bare}, conf), context.Background(), newIn(), 0, "no such service")
			if r.Intn(3) == 0 {
				ln, _ := net.Listen("tcp", "127.0.0.1:0")
				ln.Close()
				fails("nobody listens", s.Client([]string{ln.Addr().String()}, conf), context.Background(), newIn(), 0, "")
			}
		}
		// all methods at once
		taken()
		var (
			wg   sync.WaitGroup
			wmu  sync.Mutex
			want = map[call]int{}
		)
		for g := 0; g < 8; g++ {
			rr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 15; k++ {
					m := s.Methods[rr.Intn(len(s.Methods))]
					in, exp := reflect.New(reflect.TypeOf(m.In)).Elem(), reflect.New(reflect.TypeOf(m.Out))
					Fill(in, rr, 0)
					Expect(m.Svc, m.NS, m.Name, in.Interface(), exp.Interface())
					wmu.Lock()
					want[call{m.Svc, m.NS, m.Name, Dump(in)}]++
					wmu.Unlock()
					out := m.Call(cl, context.Background(), in.Interface())
					if !reflect.DeepEqual(out, exp.Elem().Interface()) {
						violate("output", "concurrent %s %q.%s with %s returned %s instead of %s", m.Svc, m.NS, m.Name, short(in.Interface()), short(out), short(exp.Elem().Interface()))
					}
				}
			}()
		}
		within("concurrent calls of "+s.Name, wg.Wait)
		for _, c := range taken() {
			want[c]--
		}
		for c, n := range want {
			if n != 0 {
				violate("calls", "concurrent calls of %s %q.%s with %s: %d missing", c.svc, c.ns, c.name, c.in, n)
				break
			}
		}
		eval(fmt.Sprint("concurrent ", len(s.Methods)))
	}
	os.Stdout.WriteString("DONE\n")
}

var kinds = map[string]string{}

// Kind names the kind of a generated type.
func Kind(v interface{}, kind string) { kinds[fmt.Sprintf("%T", v)+reflect.TypeOf(v).PkgPath()] = kind }

func kindOf(v interface{}) string {
	if k := kinds[fmt.Sprintf("%T", v)+reflect.TypeOf(v).PkgPath()]; k != "" {
		return k
	}
	return fmt.Sprintf("%T", v)
}
