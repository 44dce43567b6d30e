package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"github.com/dop251/goja"
	"github.com/gernest/rbf"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/render"
	"github.com/gernest/requiemdb/internal/retry"
	"github.com/gernest/requiemdb/internal/self"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/visit"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/rqproc"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/trace"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// together runs f n times at once, each with its own randomness.
func together(t *zv.T, n int, f func(i int, r *rand.Rand)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(t.Rand.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i, r)
		}()
	}
	wg.Wait()
	t.Eval(n)
}

// randScan draws a scan with time range, filters, limit and order.
func randScan(r *rand.Rand) *v1.Scan {
	s := periodScan(r.Intn(3))
	if r.Intn(2) == 0 {
		a := epoch.Add(time.Duration(r.Int63n(int64(period))))
		s.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(a), End: timestamppb.New(a.Add(time.Hour))}
	}
	for k := r.Intn(3); k > 0; k-- {
		if r.Intn(2) == 0 {
			s.Filters = append(s.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp(r.Intn(6)), Value: fmt.Sprint("v", r.Intn(3))}}})
		} else {
			s.Filters = append(s.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_AttributeProp(r.Intn(3)), Key: fmt.Sprint("k", r.Intn(3)), Value: fmt.Sprint("v", r.Intn(3))}}})
		}
	}
	if r.Intn(3) == 0 {
		s.Limit, s.Reverse = uint64(1+r.Intn(5)), r.Intn(2) == 0
	}
	return s
}

const raceScript = `
import { Metrics, Logs, Trace, println, print } from "@requiemdb/rq";
const a = new Metrics().latest("30m").name("m").query();
Metrics.render(a);
Metrics.renderJSON(a);
new Logs().today().attr("k", "v").limit(2).query();
new Trace().ago("1h").offset("1s").query();
println(new Date().getTime() > 0);
print("x");
`

// raceService is the whole server with its own telemetry, until after it stopped.
func raceService(t *zv.T) {
	os.Setenv("OTEL_BSP_SCHEDULE_DELAY", "20")
	os.Setenv("OTEL_METRIC_EXPORT_INTERVAL", "40")
	s := serve(t, t.Dir, true)
	sd, err := self.Setup(ctx, s.svc.Metrics(), s.svc.Trace())
	t.Must(err)
	l := newLedger()
	dial := func() *grpc.ClientConn { return s.dial(t) }
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); clients(t, l, dial, 3, 6, nil, true) }()
	together(t, 3, func(i int, r *rand.Rand) {
		cc := dial()
		defer cc.Close()
		for j := 0; j < 8; j++ {
			if _, err := v1.NewRQClient(cc).ScanSamples(ctx, randScan(r), grpc.MaxCallRecvMsgSize(1<<30)); err != nil {
				t.Fail("scan-error", "%v", err)
				return
			}
			v1.NewRQClient(cc).GetVersion(ctx, &v1.GetVersionRequest{})
			_, sp := otel.Tracer("race").Start(ctx, "span", trace.WithTimestamp(epoch))
			sp.End()
			t.Count("scans", 1)
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
	})
	if t.Rand.Intn(3) > 0 {
		wg.Wait()
	}
	if t.Rand.Intn(2) == 0 { // its own telemetry goes on while the server stops
		var x sync.WaitGroup
		x.Add(1)
		d := time.Duration(t.Rand.Intn(30)) * time.Millisecond
		go func() { defer x.Done(); time.Sleep(d); sd.Shutdown(ctx) }()
		s.close(t.Rand.Intn(2) == 0)
		x.Wait()
	} else {
		sd.Shutdown(ctx)
		s.close(t.Rand.Intn(2) == 0)
	}
	wg.Wait()
	t.Distinct("service", t.Case.Index)
	t.Sample(map[string]any{"part": "service", "execution": t.Case.Index})
	t.Count("exports_acknowledged", len(l.acked))
}

// raceFlush closes a service whose periodic flush has a lot to save, and which
// goes on accepting telemetry for a while.
func raceFlush(t *zv.T) {
	var early, late []*v1.Data
	lo := uint64(epoch.UnixNano())
	g := gen.New(t.Rand, gen.Opt{Vocab: 3, Max: 2, AtLeastOne: true, TimeLo: lo, TimeHi: lo + uint64(time.Hour) - 1})
	for i := 0; i < 40; i++ {
		d := g.Data(t.Rand.Intn(3))
		if i%4 > 0 {
			early = append(early, d)
		} else {
			late = append(late, d)
		}
	}
	s := serve(t, t.Dir, true)
	save := func(ls []*v1.Data, gap time.Duration) {
		for _, d := range ls {
			if err := s.svc.Save(d); err != nil {
				t.Fail("save", "%v", err)
			}
			time.Sleep(gap)
		}
	}
	save(early, 0)
	time.Sleep(time.Duration(t.Rand.Intn(90)) * time.Millisecond) // flushes start every 30 ms
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); save(late[1:], time.Millisecond) }()
	save(late[:1], 0)
	time.Sleep(time.Duration(t.Rand.Intn(8)) * time.Millisecond)
	s.cancel()
	s.svc.Close()
	wg.Wait()
	s.close(true)
	t.Eval(1)
	t.Count("services_closed_while_flushing", 1)
	t.Distinct("flush", t.Case.Index)
}

// raceProcess is the real rq, stopped while it is used.
func raceProcess(t *zv.T) {
	dir := filepath.Join(t.Dir, "data")
	t.Must(os.MkdirAll(dir, 0o755))
	p := rqproc.Start(t, dir)
	l := newLedger()
	ca, cb := p.Dial(t), p.Dial(t)
	defer ca.Close()
	defer cb.Close()
	var wg sync.WaitGroup
	wg.Add(2)
	stop := make(chan struct{})
	r := rand.New(rand.NewSource(t.Case.Seed))
	go func() {
		defer wg.Done()
		for {
			if _, err := v1.NewRQClient(cb).ScanSamples(ctx, randScan(r), grpc.MaxCallRecvMsgSize(1<<30)); err != nil {
				return
			}
			t.Count("scans", 1)
		}
	}()
	go func() {
		defer wg.Done()
		clients(t, l, func() *grpc.ClientConn { return p.Dial(t) }, 3, 300, stop, false)
	}()
	time.Sleep(time.Duration(1500+t.Rand.Intn(1500)) * time.Millisecond)
	p.Stop(t, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[t.Rand.Intn(2)])
	close(stop)
	wg.Wait()
	t.Eval(1)
	t.Distinct("process", t.Case.Index)
	t.Sample(map[string]any{"part": "process", "execution": t.Case.Index})
	t.Count("exports_acknowledged", len(l.acked))
}

// raceStore saves, scans and extends the series of ids of one storage.
func raceStore(t *zv.T) {
	s, err := kit.Open(t.Dir, t.Rand.Intn(2) == 0)
	t.Must(err)
	var mu sync.Mutex
	together(t, 4, func(i int, r *rand.Rand) {
		for j := 0; j < 2; j++ {
			if i == 0 { // saving is for one at a time, scanning for anyone
				var ls []*v1.Sample
				mu.Lock()
				for k := 0; k < 4; k++ {
					id := s.Seq.SampleID()
					ls = append(ls, &v1.Sample{Id: id, Data: payload(r, int(id))})
				}
				mu.Unlock()
				if err := s.Save(ls...); err != nil {
					t.Fail("save", "%v", err)
				}
				t.Count("saves", 1)
				continue
			}
			for k := 0; k < 6; k++ {
				if _, err := s.St.Scan(ctx, randScan(r)); err != nil {
					t.Fail("scan-error", "%v", err)
				}
				t.Count("scans", 1)
			}
		}
	})
	if err := s.Close(); err != nil {
		t.Fail("close", "%v", err)
	}
	t.Distinct("store", t.Case.Index)
	t.Sample(map[string]any{"part": "store", "execution": t.Case.Index})
}

// raceIndex opens, writes and reads the shards of one index at once.
func raceIndex(t *zv.T) {
	dir := filepath.Join(t.Dir, "index")
	for round := 0; round < 2; round++ {
		idx := shards.New(dir, nil)
		together(t, 6, func(i int, r *rand.Rand) {
			for j := 0; j < 4; j++ {
				shard := uint64(r.Intn(3))
				var err error
				switch r.Intn(5) {
				case 0, 1:
					err = idx.Update(shard, func(tx *rbf.Tx) error {
						if _, err := tx.Add(fmt.Sprintf("std_20240403%02d", 14+r.Intn(3)), shard<<20|uint64(r.Intn(1<<20))); err != nil {
							return err
						}
						return nil
					})
				case 2:
					err = idx.View(shard, func(tx *rbf.Tx) error { _, err := tx.Count("std_2024040314"); return err })
				case 3:
					b := bitmaps.New()
					b.Add(uint64(r.Intn(100)))
					var x *bitmaps.Bitmap
					if x, err = idx.Rows(epoch, epoch.Add(period), b); x != nil {
						x.Release()
					}
					b.Release()
				default:
					_, err = idx.Row(fmt.Sprintf("std_20240403%02d", 14+r.Intn(3)), uint64(r.Intn(9)))
				}
				if err != nil && !errors.Is(err, rbf.ErrBitmapNotFound) {
					t.Fail("index", "%v", err)
				}
				t.Count("index_operations", 1)
			}
		})
		if err := idx.Close(); err != nil {
			t.Fail("close", "%v", err)
		}
	}
	t.Distinct("index", t.Case.Index)
	t.Sample(map[string]any{"part": "index", "execution": t.Case.Index})
}

// raceKeys translates, finds, and takes ids from one series.
func raceKeys(t *zv.T) {
	db, err := kit.DB("", true)
	t.Must(err)
	defer db.Close()
	tr, err := translate.New(db, kit.TranslatePrefix())
	t.Must(err)
	sq, err := seq.New(db)
	t.Must(err)
	together(t, 6, func(i int, r *rand.Rand) {
		for j := 0; j < 60; j++ {
			k := []byte(fmt.Sprint("key", r.Intn(40)))
			switch r.Intn(5) {
			case 0:
				tr.Find(k)
			case 1:
				sq.SampleID()
			case 2:
				tr.TranslateID(uint64(r.Intn(40)))
			default:
				if _, err := tr.TranslateKey(k); err != nil {
					t.Fail("translate", "%v", err)
				}
			}
			t.Count("keys", 1)
		}
	})
	if err := errors.Join(tr.Close(), sq.Release()); err != nil {
		t.Fail("close", "%v", err)
	}
	t.Distinct("keys", t.Case.Index)
	t.Sample(map[string]any{"part": "keys", "execution": t.Case.Index})
}

var program = sync.OnceValues(func() (*goja.Program, error) {
	b, err := compile.Compile([]byte(raceScript))
	if err != nil {
		return nil, err
	}
	return goja.Compile("x.js", string(b), true)
})

// raceClient runs everything a client does with documents, some of them shared.
func raceClient(t *zv.T) {
	p, err := program()
	t.Must(err)
	var docs []*v1.Data
	for i := 0; i < 6; i++ {
		docs = append(docs, payload(t.Rand, i))
	}
	met := payload(t.Rand, 9)
	for met.GetMetrics() == nil {
		met = payload(t.Rand, 9)
	}
	together(t, 6, func(i int, r *rand.Rand) {
		for j := 0; j < 4; j++ {
			t.Count("client_operations", 1)
			switch r.Intn(7) {
			case 0:
				vm := js.New().WithScan(func(*v1.Scan) (*v1.Data, error) { return met, nil }).WithNow(time.Now).WithOutput(io.Discard)
				if err := vm.Run(p); err != nil {
					t.Fail("script", "%v", err)
				}
				vm.Release()
			case 1:
				render.MetricsData(met.GetMetrics(), render.MetricsFormatOption{})
			case 2:
				render.MetricsDataJSON(met.GetMetrics(), render.JSONOptions{})
			case 3:
				v := visit.New()
				v.Compile(randScan(r).Filters...)
				for _, d := range docs {
					v.Visit(kit.Clone(d))
				}
				v.Release()
			case 4:
				sig := docs[r.Intn(len(docs))]
				data.Collapse([]*v1.Data{kit.Clone(sig), kit.Clone(sig), kit.Clone(sig)})
			case 5:
				b, err := compress.Compress(gen.Bytes(docs[r.Intn(len(docs))]))
				if err == nil {
					_, err = compress.Decompress(b)
				}
				if err == nil {
					err = compress.To(&bytes.Buffer{}, b)
				}
				if err != nil {
					t.Fail("compress", "%v", err)
				}
			default:
				c := transform.NewContext(func(k []byte) uint64 { return uint64(len(k)) })
				if _, err := c.ProcessSamples(&v1.Sample{Id: uint64(r.Intn(1 << 21)), Data: docs[r.Intn(len(docs))]}); err != nil {
					t.Fail("transform", "%v", err)
				}
				retry.Do(func() error { return nil })
			}
		}
	})
	t.Distinct("client", t.Case.Index)
	t.Sample(map[string]any{"part": "client", "execution": t.Case.Index})
}

func propC30() *zv.Prop {
	return &zv.Prop{
		ID:   "C30",
		Race: true, Workers: 3, StallSec: 300,
		Rule:   "an execution uses one part of the real code from several goroutines in a race-detector build: the whole service with its own telemetry and its shutdown, the real rq process stopped while used, one storage, one index, one key translation and id series, and client code over shared documents; oracle: the race detector reports nothing in the repository's code, and no operation fails. Executions count as distinct by family and randomness",
		Assume: []string{"races inside dependencies on memory the repository's code never touches are not counted"},
		Families: []zv.Family{
			{Name: "service", Quick: 3, Thorough: 120, Run: raceService},
			{Name: "flush", Quick: 3, Thorough: 150, Run: raceFlush},
			{Name: "process", Quick: 1, Thorough: 30, Run: raceProcess},
			{Name: "store", Quick: 2, Thorough: 100, Run: raceStore},
			{Name: "index", Quick: 12, Thorough: 600, Run: raceIndex},
			{Name: "keys", Quick: 40, Thorough: 2000, Run: raceKeys},
			{Name: "client", Quick: 30, Thorough: 2000, Run: raceClient},
		},
	}
}
