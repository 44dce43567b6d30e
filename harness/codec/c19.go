package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"

	"github.com/cespare/xxhash/v2"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/arena"
	"github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/x"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/grpc/encoding"
	"google.golang.org/protobuf/proto"
)

func blob(r *rand.Rand) []byte {
	n := []int{0, 1, r.Intn(64), r.Intn(4096), 1 << 16, 1<<17 + r.Intn(3) - 1, r.Intn(400000)}[r.Intn(7)]
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(i / 97)
		}
	case 2:
		for i := 0; i < n; i += 1 + r.Intn(200) {
			b[i] = byte(r.Intn(4))
		}
	}
	return b
}

// big is many megabytes, as a telemetry batch or an hour of samples may be.
func big(r *rand.Rand) []byte {
	k := 20 + r.Intn(8)
	kind := r.Intn(3)
	if kind == 0 {
		k = min(k, 24)
	}
	b := make([]byte, 1<<k+r.Intn(1<<19)-r.Intn(3))
	switch kind {
	case 0:
		r.Read(b)
	case 1: // one block over and over
		r.Read(b[:1<<12+r.Intn(1<<16)])
		for i := 1 << 12; i < len(b); i *= 2 {
			copy(b[i:], b[:i])
		}
	case 2: // the same far away
		for i := 0; i < 1<<10; i++ {
			b[r.Intn(len(b))] = byte(i)
		}
		r.Read(b[len(b)-3000:])
		copy(b[:3000], b[len(b)-3000:])
	}
	return b
}

// drain reads a compressed stream in one of the ways readers do.
func drain(r *rand.Rand, rd io.Reader) ([]byte, error) {
	switch r.Intn(4) {
	case 0:
		return io.ReadAll(rd)
	case 1:
		var b bytes.Buffer
		_, err := io.Copy(&b, rd) // WriteTo when there is one
		return b.Bytes(), err
	case 2:
		var o []byte
		buf := make([]byte, 1+r.Intn(9000))
		for {
			n, err := rd.Read(buf)
			o = append(o, buf[:n]...)
			if err != nil {
				if errors.Is(err, io.EOF) {
					// what follows the end is the end again
					if n, err := rd.Read(buf); n != 0 || !errors.Is(err, io.EOF) {
						return o, fmt.Errorf("after the end: %d bytes, %v", n, err)
					}
					return o, nil
				}
				return o, err
			}
		}
	default:
		var b bytes.Buffer
		_, err := b.ReadFrom(rd)
		if err == nil {
			// bytes.Buffer stops at io.EOF; a second copy finds nothing
			if n, err := io.Copy(&b, rd); n != 0 || err != nil {
				return b.Bytes(), fmt.Errorf("after the end: %d bytes, %v", n, err)
			}
		}
		return b.Bytes(), err
	}
}

type trickleReader struct {
	r io.Reader
	n int
}

func (t trickleReader) Read(p []byte) (int, error) {
	if len(p) > t.n {
		p = p[:t.n]
	}
	return t.r.Read(p)
}

func roundtrip(t *zv.T, r *rand.Rand, data []byte, damage bool) {
	c := encoding.GetCompressor("zstd")
	if c == nil {
		t.Fatal("unregistered", "no zstd compressor is registered with gRPC")
	}
	var packed []byte
	var err error
	switch r.Intn(3) {
	case 0:
		packed, err = compress.Compress(data)
	case 1:
		var b bytes.Buffer
		err = compress.To(&b, data)
		packed = b.Bytes()
	case 2:
		var b bytes.Buffer
		w, e := c.Compress(&b)
		if e != nil {
			t.Fatal("compress", "%v", e)
		}
		for i := 0; i < len(data); {
			n := min(len(data)-i, 1+r.Intn(100000))
			if k, e := w.Write(data[i : i+n]); e != nil || k != n {
				t.Fatal("compress", "write: %d of %d, %v", k, n, e)
			}
			i += n
		}
		err = w.Close()
		packed = b.Bytes()
	}
	if err != nil {
		t.Fatal("compress", "%v", err)
	}
	bad := ""
	in := bytes.Clone(packed)
	if damage && len(in) > 0 {
		switch r.Intn(3) {
		case 0:
			n := r.Intn(len(in))
			in = in[:n]
			bad = fmt.Sprintf("cut after %d of %d bytes", n, len(packed))
			if n == 0 {
				bad = ""
				data = nil
			}
		case 1:
			i := r.Intn(len(in))
			in[i] ^= 1 << uint(r.Intn(8))
			bad = fmt.Sprintf("bit flipped in byte %d of %d", i, len(in))
		case 2:
			r.Read(in)
			bad = "random bytes"
		}
	}
	var got []byte
	if r.Intn(2) == 0 {
		got, err = compress.Decompress(in)
	} else {
		var src io.Reader = bytes.NewReader(in)
		if r.Intn(2) == 0 {
			src = trickleReader{src, 1 + r.Intn(700) + len(in)/4000}
		}
		rd, e := c.Decompress(src)
		if e != nil {
			t.Fatal("decompress", "%v", e)
		}
		got, err = drain(r, rd)
	}
	t.Eval(1)
	switch {
	case bad == "" && err != nil:
		t.Fatal("decompress", "%d bytes: %v", len(data), err)
	case err == nil && !bytes.Equal(got, data):
		t.Fatal("changed", "%d bytes come back as %d bytes, without an error (%s)", len(data), len(got), bad)
	}
	if bad != "" {
		t.Count("damaged_streams", 1)
		if err != nil {
			t.Count("damage_reported", 1)
		}
	}
	if len(data) > 8 {
		t.Distinct(xxhash.Sum64(data), bad)
		t.Sample(map[string]any{"bytes": len(data), "compressed": len(packed), "damage": bad, "error": err != nil})
	}
}

func messages(t *zv.T, r *rand.Rand) {
	a := arena.New()
	defer a.Release()
	type piece struct {
		b []byte
		m proto.Message
		z bool
	}
	var ps []piece
	for n := 1 + r.Intn(5); n > 0; n-- {
		o := shape(r, true)
		if r.Intn(400) == 0 {
			o = o.Large(r, 3000)
		}
		m := gen.New(r, o).Data(r.Intn(3))
		z := r.Intn(2) == 0
		var b []byte
		var err error
		if z {
			b, err = a.Compress(m)
		} else {
			b, err = a.Marshal(m)
		}
		if err != nil {
			t.Fatal("arena", "%v", err)
		}
		// what was handed out must stay valid while more is written
		ps = append(ps, piece{b, kit.Clone(m), z})
	}
	for i, p := range ps {
		var m v1.Data
		var err error
		if p.z {
			err = x.Decompress(&m)(p.b)
		} else {
			err = proto.Unmarshal(p.b, &m)
		}
		t.Eval(1)
		if err != nil || !proto.Equal(&m, p.m) {
			t.Fatal("arena-changed", "piece %d of %d (compressed: %v) does not give its message: %v", i, len(ps), p.z, err)
		}
		t.Distinct(xxhash.Sum64(p.b))
	}
}

// held keeps everything handed out, and several streams open at once, while
// more is compressed and decompressed.
func held(t *zv.T, r *rand.Rand) {
	c := encoding.GetCompressor("zstd")
	type out struct {
		data, packed, back []byte
		buf                *bytes.Buffer
		w                  io.WriteCloser
		rd                 io.Reader
		at                 int
		sum                uint64
	}
	var os []*out
	for n := 2 + r.Intn(6); n > 0; n-- {
		data := blob(r)
		if len(data) > 1<<16 {
			data = data[:1<<16]
		}
		o := &out{data: data}
		var err error
		switch r.Intn(3) {
		case 0:
			o.packed, err = compress.Compress(o.data)
		case 1:
			var b bytes.Buffer
			err = compress.To(&b, o.data)
			o.packed = b.Bytes()
		case 2:
			o.buf = new(bytes.Buffer)
			o.w, err = c.Compress(o.buf)
		}
		if err != nil {
			t.Fatal("compress", "%v", err)
		}
		os = append(os, o)
	}
	// the open writers take turns
	for open := true; open; {
		open = false
		for _, o := range os {
			if o.w == nil {
				continue
			}
			n := min(len(o.data)-o.at, 1+r.Intn(30000))
			if k, err := o.w.Write(o.data[o.at : o.at+n]); err != nil || k != n {
				t.Fatal("compress", "write: %d of %d, %v", k, n, err)
			}
			o.at += n
			if o.at < len(o.data) {
				open = true
				continue
			}
			if err := o.w.Close(); err != nil {
				t.Fatal("compress", "%v", err)
			}
			o.w, o.packed = nil, o.buf.Bytes()
		}
	}
	for _, o := range os {
		o.sum = xxhash.Sum64(o.packed)
	}
	for i, o := range os {
		var err error
		if r.Intn(2) == 0 {
			if o.back, err = compress.Decompress(o.packed); err != nil {
				t.Fatal("held-changed", "piece %d of %d handed out before others does not decompress: %v", i, len(os), err)
			}
			continue
		}
		if o.rd, err = c.Decompress(bytes.NewReader(o.packed)); err != nil {
			t.Fatal("decompress", "%v", err)
		}
		o.at = 0
	}
	// the open readers take turns
	for open := true; open; {
		open = false
		for i, o := range os {
			if o.rd == nil {
				continue
			}
			buf := make([]byte, 1+r.Intn(20000))
			n, err := o.rd.Read(buf)
			o.back = append(o.back, buf[:n]...)
			switch {
			case errors.Is(err, io.EOF):
				o.rd = nil
			case err != nil:
				t.Fatal("held-changed", "piece %d of %d handed out before others does not decompress: %v", i, len(os), err)
			default:
				open = true
			}
		}
	}
	for i, o := range os {
		t.Eval(1)
		if !bytes.Equal(o.back, o.data) {
			t.Fatal("held-changed", "piece %d of %d: %d bytes come back as %d other bytes after others were handled", i, len(os), len(o.data), len(o.back))
		}
		if xxhash.Sum64(o.packed) != o.sum {
			t.Fatal("held-changed", "the compressed bytes of piece %d of %d changed while others were decompressed", i, len(os))
		}
		if len(o.data) > 8 {
			t.Distinct(o.sum, "held")
		}
	}
}

func propC19() *zv.Prop {
	par := func(f func(t *zv.T, r *rand.Rand)) func(t *zv.T) {
		return func(t *zv.T) {
			var wg sync.WaitGroup
			for w := 0; w < 8; w++ {
				r := rand.New(rand.NewSource(t.Rand.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil && !t.Failed() {
							t.Fail("panic", "in parallel: %v", e)
						}
					}()
					for i := 0; i < 12; i++ {
						f(t, r)
					}
				}()
			}
			wg.Wait()
		}
	}
	seq := func(n int, f func(t *zv.T, r *rand.Rand)) func(t *zv.T) {
		return func(t *zv.T) {
			for i := 0; i < n; i++ {
				f(t, t.Rand)
			}
		}
	}
	return &zv.Prop{
		ID:   "C19",
		Rule: "an execution compresses generated byte strings (up to 400 kB, some up to 128 MB, by the direct functions, the gRPC compressor in pieces, and arenas of messages) and decompresses them in all the ways readers read, several results and streams held open at once, undamaged or cut, flipped or random, alone and from eight goroutines; strings over 8 bytes are counted as distinct. The oracle is equality, or an error when damaged",
		Families: []zv.Family{
			{Name: "roundtrip", Quick: 800, Thorough: 20000, Run: seq(20, func(t *zv.T, r *rand.Rand) { roundtrip(t, r, blob(r), false) })},
			{Name: "damaged", Quick: 800, Thorough: 20000, Run: seq(20, func(t *zv.T, r *rand.Rand) { roundtrip(t, r, blob(r), r.Intn(4) > 0) })},
			{Name: "huge", Quick: 24, Thorough: 600, Run: func(t *zv.T) { roundtrip(t, t.Rand, big(t.Rand), false) }},
			{Name: "messages", Quick: 800, Thorough: 20000, Run: seq(40, messages)},
			{Name: "held", Quick: 400, Thorough: 8000, Run: seq(10, held)},
			{Name: "parallel", Quick: 320, Thorough: 8000, Run: par(func(t *zv.T, r *rand.Rand) {
				roundtrip(t, r, blob(r), r.Intn(3) == 0)
				messages(t, r)
				held(t, r)
			})},
		},
	}
}
