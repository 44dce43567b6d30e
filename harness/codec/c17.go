package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/apache/arrow/go/v17/arrow"
	"github.com/apache/arrow/go/v17/arrow/memory"
	"github.com/cespare/xxhash/v2"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/arrow3"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

var ctx = context.Background()

func shape(r *rand.Rand, wild bool) gen.Opt {
	o := gen.Opt{Vocab: 1 + r.Intn(5), Wild: wild, Max: 1 + r.Intn(3), AtLeastOne: r.Intn(4) > 0, TimeLo: 1, TimeHi: 1 << 60, ZeroTime: r.Intn(3)}
	return o
}

// columnsOf are the parquet columns of a signal.
func columnsOf[T proto.Message](s *arrow3.Schema[T], prefix string) (o []int) {
	p := s.Parquet()
	for i := 0; i < p.NumColumns(); i++ {
		if strings.HasPrefix(p.Column(i).Path(), prefix) {
			o = append(o, i)
		}
	}
	return
}

// table writes messages and reads them again in the ways the store does.
func table[T proto.Message](t *zv.T, s *arrow3.Schema[T], r *rand.Rand, make func() T, empty T) {
	var want []T
	file := []byte(nil)
	parts := 1 + r.Intn(4)
	for p := 0; p < parts; p++ {
		n := r.Intn(5)
		if p == 0 && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if r.Intn(6) == 0 {
				for k := r.Intn(20); k > 0; k-- {
					want = append(want, empty)
					s.Append(empty)
				}
			}
			m := make()
			want = append(want, kit.Clone(m))
			s.Append(m)
		}
		var b bytes.Buffer
		var err error
		if file == nil {
			err = s.WriteParquet(&b)
		} else {
			var old arrow.Record
			old, err = s.Read(ctx, bytes.NewReader(file), nil)
			if err != nil {
				t.Fatal("read", "reading %d rows: %v", len(want), err)
			}
			add := s.NewRecord()
			err = s.WriteParquetRecords(&b, old, add)
			add.Release()
			old.Release()
		}
		if err != nil {
			t.Fatal("write", "writing %d rows: %v", len(want), err)
		}
		file = b.Bytes()
	}
	check := func(what string, cols []int, keep func(T) bool) {
		rec, err := s.Read(ctx, bytes.NewReader(file), cols)
		if err != nil {
			t.Fatal("read", "%s: %v", what, err)
		}
		defer rec.Release()
		if int(rec.NumRows()) != len(want) {
			t.Fatal("rows", "%s: %d rows, %d were written", what, rec.NumRows(), len(want))
		}
		// all rows, then some in any order, repeatedly
		var rows []int
		all := r.Intn(2) == 0
		if !all {
			// no row at all is a choice too
			rows = []int{}
			for n := r.Intn(7); n > 0; n-- {
				rows = append(rows, r.Intn(len(want)))
			}
		}
		got := s.Proto(rec, rows)
		if all {
			for i := range want {
				rows = append(rows, i)
			}
		}
		if len(got) != len(rows) {
			t.Fatal("rows", "%s: asked for %d rows, got %d", what, len(rows), len(got))
		}
		for i, row := range rows {
			t.Eval(1)
			if !keep(want[row]) {
				continue
			}
			if !proto.Equal(want[row], got[i]) {
				t.Fatal("row-changed", "%s: row %d of %d (in %d parts): %s", what, row, len(want), parts, kit.Diff(want[row], got[i]))
			}
			if proto.Size(want[row]) > 20 {
				t.Distinct(xxhash.Sum64(gen.Bytes(got[i])))
			}
		}
	}
	check("all columns", nil, func(T) bool { return true })
	if d, ok := any(empty).(*v1.Data); ok {
		_ = d
		for i, p := range []string{"metrics.", "logs.", "traces."} {
			check(p, columnsOf(s, p), func(m T) bool {
				return sigOf(any(m).(*v1.Data)) == i
			})
		}
	}
	t.Count("rows_written", len(want))
	t.Max("parts", parts)
	t.Sample(map[string]any{"rows": len(want), "parts": parts, "bytes": len(file), "type": fmt.Sprintf("%T", empty)})
}

func sigOf(d *v1.Data) int {
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return 0
	case *v1.Data_Logs:
		return 1
	case *v1.Data_Traces:
		return 2
	}
	return -1
}

func schemaOf[T proto.Message](t *zv.T) *arrow3.Schema[T] {
	s, err := arrow3.New[T](memory.DefaultAllocator)
	t.Must(err)
	return s
}

func propC17() *zv.Prop {
	data := func(t *zv.T, r *rand.Rand, n int, wild bool) {
		s := schemaOf[*v1.Data](t)
		defer s.Release()
		for i := 0; i < n; i++ {
			g := gen.New(r, shape(r, wild))
			table(t, s, r, func() *v1.Data { return g.Data(r.Intn(3)) }, &v1.Data{})
		}
	}
	return &zv.Prop{
		ID:   "C17",
		Rule: "an execution writes generated messages as columnar files in one to four parts (each part appended to what was written before, empty rows in between) and reads them back, all columns or those of one signal, all rows or some in any order, reusing one schema for several files; distinct messages over 20 bytes are counted. The oracle is message equality",
		Families: []zv.Family{
			{Name: "data", Quick: 60, Thorough: 2500, Run: func(t *zv.T) { data(t, t.Rand, 3, false) }},
			{Name: "wild", Quick: 60, Thorough: 2500, Run: func(t *zv.T) { data(t, t.Rand, 3, true) }},
			{Name: "large", Quick: 20, Thorough: 500, Run: func(t *zv.T) {
				s := schemaOf[*v1.Data](t)
				defer s.Release()
				o := shape(t.Rand, t.Rand.Intn(3) == 0).Large(t.Rand, 1500)
				table(t, s, t.Rand, func() *v1.Data { return gen.New(t.Rand, o).Data(t.Rand.Intn(3)) }, &v1.Data{})
			}},
			{Name: "signals", Quick: 30, Thorough: 900, Run: func(t *zv.T) {
				r := t.Rand
				g := gen.New(r, shape(r, r.Intn(2) == 0))
				ms, ls, ts := schemaOf[*metricsv1.MetricsData](t), schemaOf[*logsv1.LogsData](t), schemaOf[*tracev1.TracesData](t)
				defer ms.Release()
				defer ls.Release()
				defer ts.Release()
				table(t, ms, r, func() *metricsv1.MetricsData { return g.Metrics().GetMetrics() }, &metricsv1.MetricsData{})
				table(t, ls, r, func() *logsv1.LogsData { return g.Logs().GetLogs() }, &logsv1.LogsData{})
				table(t, ts, r, func() *tracev1.TracesData { return g.Traces().GetTraces() }, &tracev1.TracesData{})
			}},
			{Name: "parallel", Quick: 12, Thorough: 400, Run: func(t *zv.T) {
				var wg sync.WaitGroup
				for w := 0; w < 4; w++ {
					r := rand.New(rand.NewSource(t.Rand.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil && !t.Failed() {
								t.Fail("panic", "in parallel: %v", e)
							}
						}()
						data(t, r, 1, true)
					}()
				}
				wg.Wait()
			}},
		},
	}
}
