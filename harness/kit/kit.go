// Package kit opens the real storage stack for the monitors.
package kit

import (
	"context"
	"fmt"
	"path/filepath"
	"strconv"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/store"
	"github.com/gernest/requiemdb/internal/translate"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

// DB opens the key-value store: on disk as the server does, or in memory.
func DB(dir string, mem bool) (*badger.DB, error) {
	var o badger.Options
	if mem {
		o = badger.DefaultOptions("").WithInMemory(true)
	} else {
		o = badger.DefaultOptions(filepath.Join(dir, "db")).WithCompression(options.ZSTD)
	}
	o = o.WithLogger(nil).WithNumGoroutines(1).WithNumCompactors(2).WithBlockCacheSize(16 << 20).WithIndexCacheSize(0)
	return badger.Open(o)
}

func TranslatePrefix() []byte {
	return []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10))
}

// Stack is the storage stack of a server, in the order the server builds it.
type Stack struct {
	DB  *badger.DB
	Tr  *translate.Translate
	Idx *shards.Shards
	Seq *seq.Seq
	St  *store.Storage
	Now func() time.Time
}

func Open(dir string, mem bool) (*Stack, error) {
	s := &Stack{Now: func() time.Time { return time.Now().UTC() }}
	var err error
	if s.DB, err = DB(dir, mem); err != nil {
		return nil, fmt.Errorf("open db: %w", err)
	}
	if s.Tr, err = translate.New(s.DB, TranslatePrefix()); err != nil {
		return nil, fmt.Errorf("open translate: %w", err)
	}
	s.Idx = shards.New(filepath.Join(dir, "index"), nil)
	if s.Seq, err = seq.New(s.DB); err != nil {
		return nil, fmt.Errorf("open seq: %w", err)
	}
	if s.St, err = store.NewStore(s.DB, s.Idx, s.Tr, s.Seq, s.Now); err != nil {
		return nil, fmt.Errorf("open store: %w", err)
	}
	return s, nil
}

// Wide reopens the translation and the store after abandoning n leases of label
// ids: labels seen from now on get ids about n*4096 higher, as they would on a
// server which knows that many labels.
func (s *Stack) Wide(n int) error {
	for i := 0; i < n; i++ {
		t, err := translate.New(s.DB, TranslatePrefix())
		if err != nil {
			return err
		}
		if _, err = t.TranslateKey([]byte(fmt.Sprintf("filler-%d-%d", time.Now().UnixNano(), i))); err != nil {
			return err
		}
	}
	var err error
	if s.Tr, err = translate.New(s.DB, TranslatePrefix()); err != nil {
		return err
	}
	s.St.Close()
	s.St, err = store.NewStore(s.DB, s.Idx, s.Tr, s.Seq, s.Now)
	return err
}

// Close shuts down in the server's order and reports every error.
func (s *Stack) Close() error {
	var errs []error
	add := func(what string, err error) {
		if err != nil {
			errs = append(errs, fmt.Errorf("%s: %w", what, err))
		}
	}
	add("store", s.St.Close())
	add("sequence", s.Seq.Release())
	add("index", s.Idx.Close())
	add("translate", s.Tr.Close())
	add("db", s.DB.Close())
	if len(errs) > 0 {
		return fmt.Errorf("close: %v", errs)
	}
	return nil
}

// Save stores the samples.
func (s *Stack) Save(ls ...*v1.Sample) error {
	l := samples.Get()
	l.Items = append(l.Items, ls...)
	defer l.Release()
	return s.St.SaveSamples(context.Background(), l)
}

// Clone copies samples so that the stored data cannot alias the reference.
func Clone[T proto.Message](m T) T { return proto.Clone(m).(T) }

// Diff shows where two messages part.
func Diff(want, got proto.Message) string {
	x, y := prototext.Format(want), prototext.Format(got)
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := max(0, i-160)
	return fmt.Sprintf("WANT …%s…\nGOT …%s…", x[lo:min(len(x), i+200)], y[lo:min(len(y), i+200)])
}
