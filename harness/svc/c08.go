package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// seen is a scan as its client saw it.
type seen struct {
	sig      int
	instant  bool
	filter   string
	before   int // samples acknowledged before the call
	begun    int // samples whose saving had begun when the answer came
	got      *v1.Data
	err      error
	client   int
	ordinal  int
	overlaps bool
}

func colour(d *v1.Data) string {
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		return r.SchemaUrl
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		return r.SchemaUrl
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		return r.SchemaUrl
	}
	return ""
}

func paint(d *v1.Data, c string) {
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		r.SchemaUrl = c
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		r.SchemaUrl = c
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		r.SchemaUrl = c
	}
}

func sigOf(d *v1.Data) int {
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return 0
	case *v1.Data_Logs:
		return 1
	default:
		return 2
	}
}

// one saver, several scanners, on the store itself.
func saveWhileScanning(t *zv.T) {
	st, err := kit.Open(t.Dir, t.Rand.Intn(2) == 0)
	t.Must(err)
	t.Cleanup(func() { st.Close() })
	// what will be saved, in id order
	var plan []*v1.Sample
	var batches [][]*v1.Sample
	for b := 4 + t.Rand.Intn(3); b > 0; b-- {
		var ls []*v1.Sample
		for k := 1 + t.Rand.Intn(3); k > 0; k-- {
			d := payload(t.Rand, len(plan))
			paint(d, fmt.Sprint("colour", t.Rand.Intn(2)))
			plan = append(plan, &v1.Sample{Id: uint64(len(plan)), Data: kit.Clone(d)})
			ls = append(ls, &v1.Sample{Id: uint64(len(plan) - 1), Data: d})
		}
		batches = append(batches, ls)
	}
	var acked, begun atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	var hist []*seen
	saved := func(b []*v1.Sample) {
		begun.Add(int64(len(b)))
		if err := st.Save(b...); err != nil {
			t.Fail("save-error", "%v", err)
		}
		acked.Add(int64(len(b)))
	}
	if t.Rand.Intn(2) == 0 {
		// labels seen after the first batch lie in another index shard
		saved(batches[0])
		batches = batches[1:]
		t.Must(st.Wide(260))
		t.Count("spread_labels", 1)
	}
	var wg sync.WaitGroup
	for c := 0; c < 3; c++ {
		r := rand.New(rand.NewSource(t.Rand.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; !stop.Load() && n < 400; n++ {
				time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
				s := &seen{sig: r.Intn(3), instant: r.Intn(4) == 0, client: c, ordinal: n}
				q := periodScan(s.sig)
				if s.instant {
					q.TimeRange = nil
					// the window of the last 15 minutes touches both hours
					q.Now = timestamppb.New(epoch.Add(time.Hour + 5*time.Minute))
				}
				if r.Intn(2) == 0 {
					s.filter = fmt.Sprint("colour", r.Intn(2))
					q.Filters = append(q.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_RESOURCE_SCHEMA, Value: s.filter}}})
				}
				s.before = int(acked.Load())
				s.got, s.err = st.St.Scan(ctx, q)
				s.begun = int(begun.Load())
				s.overlaps = s.before < s.begun
				mu.Lock()
				hist = append(hist, s)
				mu.Unlock()
			}
		}()
	}
	for _, b := range batches {
		saved(b)
		// the saver finds what it saved, by any of its labels
		for k := 0; k < 3 && !t.Failed(); k++ {
			i := int(acked.Load()) - 1 - t.Rand.Intn(len(b))
			q := periodScan(sigOf(plan[i].Data))
			ls := labelsOf(plan[i].Data)
			for n := 1 + t.Rand.Intn(4); n > 0; n-- {
				q.Filters = append(q.Filters, ls[t.Rand.Intn(len(ls))].Filter())
			}
			got, err := st.St.Scan(ctx, q)
			if err != nil {
				t.Fail("scan-error", "%v", err)
			} else if x := gen.DiffMultiset(gen.Multiset(plan[i].Data), gen.ByTag(got)[fmt.Sprint("sample-", i)]); x != "" {
				t.Fail("own-write", "sample %d right after its save was acknowledged, by %v: %s", i, q.Filters, x)
			}
			t.Eval(1)
			t.Count("own_writes_scanned", 1)
		}
		time.Sleep(time.Duration(t.Rand.Intn(3)) * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	stop.Store(true)
	wg.Wait()
	high := map[string]int{} // per client and signal: latest sample seen (answers never go back)
	for _, s := range hist {
		t.Eval(1)
		if s.err != nil {
			t.Fatal("scan-error", "%v", s.err)
		}
		if s.overlaps {
			t.Count("scans_overlapping_a_save", 1)
		}
		var must, may []int
		for i, p := range plan {
			if sigOf(p.Data) != s.sig || s.filter != "" && colour(p.Data) != s.filter {
				continue
			}
			if i < s.before {
				must = append(must, i)
			} else if i < s.begun {
				may = append(may, i)
			}
		}
		have := gen.ByTag(s.got)
		what := fmt.Sprintf("client %d scan %d (signal %d instant %v filter %q, %d acknowledged before, %d begun after)", s.client, s.ordinal, s.sig, s.instant, s.filter, s.before, s.begun)
		if s.instant {
			if len(have) == 0 && len(must) == 0 {
				continue
			}
			lo := -1
			if len(must) > 0 {
				lo = must[len(must)-1]
			}
			ok := -1
			for _, i := range append(append([]int{}, must...), may...) {
				h := have[fmt.Sprint("sample-", i)]
				if h != nil && len(have) == 1 && i >= lo && gen.DiffMultiset(gen.Multiset(plan[i].Data), h) == "" {
					ok = i
				}
			}
			if ok < 0 {
				t.Fatal("instant-stale", "%s returned samples %v, must be one sample from %d on", what, keysOf(have), lo)
			}
			k := fmt.Sprint(s.client, s.sig, s.filter)
			if ok < high[k] {
				t.Fatal("went-back", "%s returned sample %d after sample %d was seen", what, ok, high[k])
			}
			high[k] = ok
			t.Distinct("instant", t.Case.Seed, s.before, s.begun, ok)
			continue
		}
		for _, i := range must {
			tag := fmt.Sprint("sample-", i)
			if have[tag] == nil {
				t.Fatal("not-visible", "%s misses acknowledged sample %d, returned %v", what, i, keysOf(have))
			}
		}
		n := 0
		for _, i := range append(must, may...) {
			tag := fmt.Sprint("sample-", i)
			h := have[tag]
			delete(have, tag)
			if h == nil {
				continue
			}
			n++
			if x := gen.DiffMultiset(gen.Multiset(plan[i].Data), h); x != "" {
				t.Fatal("torn", "%s: sample %d: %s", what, i, x)
			}
		}
		for k := range have {
			t.Fatal("phantom", "%s: unexpected %s", what, k)
		}
		t.Distinct("range", t.Case.Seed, s.before, s.begun, s.sig, s.filter, n)
	}
	t.Sample(map[string]any{"batches": len(batches), "samples": len(plan), "scans": len(hist)})
	t.Count("scans", len(hist))
	t.Count("samples", len(plan))
}

func labelsOf(d *v1.Data) (o []gen.Label) {
	for l := range gen.LabelsOf(d) {
		o = append(o, l)
	}
	sort.Slice(o, func(i, j int) bool { return fmt.Sprint(o[i]) < fmt.Sprint(o[j]) })
	return
}

func keysOf(m map[string]map[string]int) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	return
}

// the whole server under concurrent exports, scans, flushes and shutdown.
func serveStress(t *zv.T) {
	l := newLedger()
	s := serve(t, t.Dir, true)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad string
	for c := 0; c < 2; c++ {
		r := rand.New(rand.NewSource(t.Rand.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			cc := s.dial(t)
			defer cc.Close()
			rq := v1.NewRQClient(cc)
			visible := map[string]map[string]bool{}
			for {
				select {
				case <-stop:
					return
				default:
				}
				sig := r.Intn(3)
				q := periodScan(sig)
				var opt []grpc.CallOption
				if r.Intn(2) == 0 {
					opt = append(opt, grpc.UseCompressor("zstd"))
				}
				d, err := rq.ScanSamples(ctx, q, opt...)
				if err != nil {
					mu.Lock()
					bad = fmt.Sprint("scan failed: ", err)
					mu.Unlock()
					return
				}
				have := gen.ByTag(d)
				// what was visible to this client stays visible, whole
				k := fmt.Sprint(sig)
				for tag := range visible[k] {
					if have[tag] == nil {
						mu.Lock()
						bad = fmt.Sprintf("export %s was visible to a client and is not any more", tag)
						mu.Unlock()
					}
				}
				if visible[k] == nil {
					visible[k] = map[string]bool{}
				}
				for tag, h := range have {
					l.mu.Lock()
					want := l.acked[tag]
					if want == nil {
						want = l.maybe[tag]
					}
					l.mu.Unlock()
					if want == nil || gen.DiffMultiset(gen.Multiset(want), h) != "" {
						mu.Lock()
						bad = fmt.Sprintf("export %s came back different: %s", tag, gen.DiffMultiset(gen.Multiset(want), h))
						mu.Unlock()
					}
					visible[k][tag] = true
				}
				t.Count("scans_during_ingest", 1)
				t.Eval(1)
				time.Sleep(time.Millisecond)
			}
		}()
	}
	clients(t, l, func() *grpc.ClientConn { return s.dial(t) }, 4, 8+t.Rand.Intn(8), stop, t.Rand.Intn(2) == 0)
	if t.Rand.Intn(2) == 0 {
		flushed(t, s, l)
	}
	close(stop)
	wg.Wait()
	if bad != "" {
		t.Fail("client-view", "%s", bad)
	}
	s.close(true)
	reopened(t, t.Dir, l, "after concurrent exports and scans")
}

func propC08() *zv.Prop {
	return &zv.Prop{
		ID: "C08", Workers: 3,
		Rule: "Either one saver and three scanners on the store (ranges, instants, filters; scans record how many samples were acknowledged before and begun after), or the gRPC server with 4 exporting and 2 scanning clients and a 30 ms flusher. A scan has every sample acknowledged before it began, complete, none twice and none not yet begun; an instant scan is never older than the latest acknowledged match and never goes back; what a client saw stays visible. Distinct: by visible window and answer",
		Families: []zv.Family{
			{Name: "store", Quick: 16, Thorough: 400, Run: saveWhileScanning},
			{Name: "server", Quick: 9, Thorough: 200, Run: serveStress},
		},
	}
}
