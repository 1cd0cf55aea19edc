package main

import (
	"bytes"
	"compress/flate"
	"io"
	"sync/atomic"
)

// zlibCodec really compresses; it does not touch its input.
type zlibCodec struct {
	enc, dec int64
}

func (z *zlibCodec) Encode(b []byte) ([]byte, error) {
	atomic.AddInt64(&z.enc, 1)
	var buf bytes.Buffer
	w, _ := flate.NewWriter(&buf, 1)
	w.Write(b)
	w.Close()
	return buf.Bytes(), nil
}

func (z *zlibCodec) Decode(b []byte) ([]byte, error) {
	atomic.AddInt64(&z.dec, 1)
	r := flate.NewReader(bytes.NewReader(b))
	out, err := io.ReadAll(io.LimitReader(r, 64<<20))
	if err != nil {
		return nil, err
	}
	return out, nil
}
