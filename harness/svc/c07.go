package main

import (
	"context"
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/rqproc"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	"google.golang.org/grpc"
)

// ledger is what the clients know: acknowledged and unknown exports by tag.
type ledger struct {
	mu    sync.Mutex
	acked map[string]*v1.Data
	maybe map[string]*v1.Data
	n     int
	err   error // of the last export that failed
}

func newLedger() *ledger { return &ledger{acked: map[string]*v1.Data{}, maybe: map[string]*v1.Data{}} }

func (l *ledger) next() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n++
	return l.n
}

func (l *ledger) open(d *v1.Data, k string) {
	l.mu.Lock()
	l.maybe[k] = kit.Clone(d)
	l.mu.Unlock()
}

func (l *ledger) ack(k string) {
	l.mu.Lock()
	l.acked[k] = l.maybe[k]
	delete(l.maybe, k)
	l.mu.Unlock()
}

func payload(r *rand.Rand, n int) *v1.Data {
	lo := uint64(epoch.UnixNano())
	o := gen.Opt{Vocab: 3, Max: 2, AtLeastOne: true, TimeLo: lo, TimeHi: lo + uint64(period)}
	if r.Intn(60) == 0 {
		o.Big = 200 + r.Intn(4000)
	}
	g := gen.New(r, o)
	for {
		d := g.Data(r.Intn(3))
		gen.Tag(d, n)
		if len(gen.Leaves(d)) > 0 {
			return d
		}
	}
}

// clients export concurrently until stop is closed or n exports each.
func clients(t *zv.T, l *ledger, dial func() *grpc.ClientConn, k, n int, stop <-chan struct{}, cancelSome bool) {
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		r := rand.New(rand.NewSource(t.Rand.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			cc := dial()
			defer cc.Close()
			for j := 0; j < n; j++ {
				select {
				case <-stop:
					return
				default:
				}
				num := l.next()
				d := payload(r, num)
				key := fmt.Sprint("sample-", num)
				l.open(d, key)
				c, cancel := context.WithTimeout(ctx, time.Minute)
				if cancelSome && r.Intn(6) == 0 {
					cancel()
					c, cancel = context.WithTimeout(ctx, time.Duration(r.Intn(1500))*time.Microsecond)
				}
				var opt []grpc.CallOption
				switch r.Intn(3) {
				case 0:
					opt = append(opt, grpc.UseCompressor("zstd"))
				case 1:
					opt = append(opt, grpc.UseCompressor("gzip"))
				}
				err := export(c, cc, d, opt...)
				cancel()
				if err == nil {
					l.ack(key)
				} else {
					l.mu.Lock()
					l.err = err
					l.mu.Unlock()
				}
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
				}
			}
		}()
	}
	wg.Wait()
}

// settle compares what is stored with what clients know.
func (l *ledger) settle(t *zv.T, where string, scan func(*v1.Scan) (*v1.Data, error)) {
	var all []*v1.Data
	for sig := 0; sig < 3; sig++ {
		d, err := scan(periodScan(sig))
		if err != nil {
			t.Fatal("scan-error", "%s: %v", where, err)
		}
		all = append(all, d)
	}
	have := gen.ByTag(all...)
	delete(have, "") // the server's own telemetry
	kept := 0
	for k, d := range l.acked {
		t.Eval(1)
		h, ok := have[k]
		delete(have, k)
		if !ok {
			t.Fail("lost", "%s: export %s was acknowledged but is not stored", where, k)
			continue
		}
		if x := gen.DiffMultiset(gen.Multiset(d), h); x != "" {
			t.Fail("not-exactly-once", "%s: acknowledged export %s: %s", where, k, x)
		}
	}
	for k, d := range l.maybe {
		t.Eval(1)
		h, ok := have[k]
		delete(have, k)
		if !ok {
			continue
		}
		kept++
		if x := gen.DiffMultiset(gen.Multiset(d), h); x != "" {
			t.Fail("not-exactly-once", "%s: unanswered export %s: %s", where, k, x)
		}
	}
	for k := range have {
		t.Fail("phantom", "%s: %q is stored but was never sent", where, k)
	}
	t.Count("acknowledged_exports", len(l.acked))
	t.Count("unanswered_exports", len(l.maybe))
	t.Count("unanswered_exports_stored", kept)
	t.Distinct(where, len(l.acked), len(l.maybe), kept, t.Case.Seed)
}

func reopened(t *zv.T, dir string, l *ledger, where string) {
	st, err := kit.Open(dir, false)
	if err != nil {
		t.Fatal("reopen", "%s: %v", where, err)
	}
	defer st.Close()
	l.settle(t, where, func(s *v1.Scan) (*v1.Data, error) { return st.St.Scan(ctx, s) })
}

func propC07() *zv.Prop {
	inproc := func(t *zv.T, flusher bool) {
		l := newLedger()
		inc := 1 + t.Rand.Intn(2)
		for i := 0; i < inc; i++ {
			s := serve(t, t.Dir, flusher)
			k := 1 + t.Rand.Intn(6)
			stop := make(chan struct{})
			graceful := t.Rand.Intn(2) == 0
			midway := t.Rand.Intn(2) == 0
			done := make(chan struct{})
			go func() {
				clients(t, l, func() *grpc.ClientConn { return s.dial(t) }, k, 4+t.Rand.Intn(10), stop, t.Rand.Intn(2) == 0)
				close(done)
			}()
			if midway {
				time.Sleep(time.Duration(t.Rand.Intn(40)) * time.Millisecond)
				if graceful {
					close(stop)
					<-done
				}
				s.close(graceful)
				if !graceful {
					close(stop)
					<-done
				}
			} else {
				<-done
				if flusher && t.Rand.Intn(2) == 0 {
					flushed(t, s, l)
				}
				s.close(true)
			}
			if i == inc-1 {
				break
			}
		}
		reopened(t, t.Dir, l, "after graceful shutdown")
		t.Sample(map[string]any{"flusher": flusher, "incarnations": inc, "acked": len(l.acked), "unanswered": len(l.maybe)})
	}
	// many callers racing for the buffer, without the pace of a connection
	hammer := func(t *zv.T, n int) {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(6))
		l := newLedger()
		s := serve(t, t.Dir, t.Rand.Intn(2) == 0)
		k := 6 + t.Rand.Intn(12)
		lo := uint64(epoch.UnixNano())
		type call struct {
			key string
			d   *v1.Data
		}
		calls := make([][]call, k)
		for i := range calls {
			g := gen.New(rand.New(rand.NewSource(t.Rand.Int63())), gen.Opt{Vocab: 3, Max: 1, AtLeastOne: true, TimeLo: lo, TimeHi: lo + uint64(period)})
			for len(calls[i]) < n {
				d := g.Data(t.Rand.Intn(3))
				num := l.next()
				gen.Tag(d, num)
				if len(gen.Leaves(d)) == 0 {
					continue
				}
				c := call{fmt.Sprint("sample-", num), d}
				l.open(d, c.key)
				calls[i] = append(calls[i], c)
			}
		}
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for i := range calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for j, c := range calls[i] {
					var err error
					switch e := c.d.Data.(type) {
					case *v1.Data_Metrics:
						_, err = s.svc.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: e.Metrics.ResourceMetrics})
					case *v1.Data_Logs:
						_, err = s.svc.Logs().Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: e.Logs.ResourceLogs})
					case *v1.Data_Traces:
						_, err = s.svc.Trace().Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: e.Traces.ResourceSpans})
					}
					if err == nil {
						l.ack(c.key)
					}
					if j%4 == i%4 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(begin)
		wg.Wait()
		s.close(true)
		reopened(t, t.Dir, l, "after racing callers")
		t.Count("racing_exports", k*n)
	}
	return &zv.Prop{
		ID:   "C07",
		Rule: "an execution runs 1-6 concurrent clients exporting unique generated payloads of three signals (plain, gzip, zstd; some calls cancelled or timed out) against the real service behind gRPC, by 6-17 racing callers without a connection between, or against the real rq binary stopped by SIGINT/SIGTERM, with the flusher on a 30 ms interval or only the final flush; after shutdown the store is reopened. Oracle: every acknowledged export is stored exactly once and unchanged, an unanswered one at most once, nothing else. Executions count as distinct by seed and outcome",
		Assume: []string{
			"acknowledged samples still buffered in memory when the process is killed without a shutdown are lost by design (flush interval)",
			"the hook shortens the flush interval from one minute to VERIF_FLUSH_INTERVAL",
		},
		Families: []zv.Family{
			{Name: "flusher", Quick: 20, Thorough: 500, Run: func(t *zv.T) { inproc(t, true) }},
			{Name: "final-flush", Quick: 12, Thorough: 300, Run: func(t *zv.T) { inproc(t, false) }},
			{Name: "racing-callers", Quick: 18, Thorough: 500, Run: func(t *zv.T) { hammer(t, 15+t.Rand.Intn(15)) }},
			{Name: "flood", Quick: 2, Thorough: 40, Run: func(t *zv.T) { hammer(t, 500+t.Rand.Intn(300)) }},
			{Name: "broad", Quick: 12, Thorough: 240, Run: broad},
			{Name: "binary", Quick: 10, Thorough: 200, Run: binary},
			{Name: "busy-binary", Quick: 6, Thorough: 120, Run: busy},
		},
	}
}

// flushed: with the server up, acknowledged samples become visible after a
// bounded number of flush intervals.
func flushed(t *zv.T, s *server, l *ledger) {
	cc := s.dial(t)
	defer cc.Close()
	rq := v1.NewRQClient(cc)
	missing := ""
	for i := 0; i < 1500; i++ {
		missing = ""
		have := map[string]map[string]int{}
		for sig := 0; sig < 3; sig++ {
			d, err := rq.ScanSamples(ctx, periodScan(sig), grpc.UseCompressor("zstd"))
			if err != nil {
				t.Fatal("scan-error", "%v", err)
			}
			for k, v := range gen.ByTag(d) {
				have[k] = v
			}
		}
		for k := range l.acked {
			if have[k] == nil {
				missing = k
			}
		}
		if missing == "" {
			t.Count("flush_observed", 1)
			t.Eval(1)
			return
		}
		time.Sleep(30 * time.Millisecond)
	}
	t.Fatal("never-flushed", "export %s was acknowledged but is not visible after 1500 flush intervals", missing)
}

func binary(t *zv.T) {
	l := newLedger()
	inc := 1 + t.Rand.Intn(2)
	var how []string
	for i := 0; i < inc; i++ {
		s := rqproc.Start(t, t.Dir)
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			clients(t, l, func() *grpc.ClientConn { return s.Dial(t) }, 1+t.Rand.Intn(5), 6+t.Rand.Intn(20), stop, t.Rand.Intn(2) == 0)
			close(done)
		}()
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[t.Rand.Intn(2)]
		if t.Rand.Intn(3) > 0 {
			time.Sleep(time.Duration(t.Rand.Intn(400)) * time.Millisecond)
			how = append(how, "mid-stream "+sig.String())
		} else {
			<-done
			how = append(how, "idle "+sig.String())
		}
		s.Stop(t, sig)
		close(stop)
		<-done
		t.Count("processes_stopped_by_signal", 1)
	}
	reopened(t, filepath.Join(t.Dir, "data"), l, "after "+strings.Join(how, ", "))
	t.Sample(map[string]any{"stopped": how, "acked": len(l.acked), "unanswered": len(l.maybe)})
}

// broad exports documents with thousands of elements on one level.
func broad(t *zv.T) {
	l := newLedger()
	s := serve(t, t.Dir, t.Rand.Intn(2) == 0)
	cc := s.dial(t)
	lo := uint64(epoch.UnixNano())
	g := gen.New(t.Rand, gen.Opt{TimeLo: lo, TimeHi: lo + uint64(period)})
	most := 0
	for level := 0; level < 4; level++ {
		n := []int{100, 1000, 2000, 9000}[(level+t.Case.Index/3)%4]
		n += t.Rand.Intn(n)
		num := l.next()
		d := g.Broad(t.Case.Index%3, level, n)
		gen.Tag(d, num)
		key := fmt.Sprint("sample-", num)
		l.open(d, key)
		var opt []grpc.CallOption
		if t.Rand.Intn(2) == 0 {
			opt = append(opt, grpc.UseCompressor("zstd"))
		}
		c, cancel := context.WithTimeout(ctx, time.Minute)
		err := export(c, cc, d, opt...)
		cancel()
		if err != nil {
			t.Count("broad_exports_refused", 1)
			continue
		}
		l.ack(key)
		most = max(most, n)
	}
	cc.Close()
	s.close(true)
	reopened(t, t.Dir, l, "after broad exports")
	t.Max("elements_of_one_export", most)
}

// busy stops the real rq while clients send small exports as fast as they can:
// whatever was acknowledged until the connection went away must be there.
func busy(t *zv.T) {
	l := newLedger()
	s := rqproc.Start(t, t.Dir)
	var wg sync.WaitGroup
	const k = 6
	for i := 0; i < k; i++ {
		cc := s.Dial(t)
		defer cc.Close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				num := l.next()
				d := &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{ScopeLogs: []*logsv1.ScopeLogs{{
					LogRecords: []*logsv1.LogRecord{{TimeUnixNano: uint64(epoch.UnixNano()) + uint64(num), SeverityText: "INFO"}}}}}}}}}
				gen.Tag(d, num)
				key := fmt.Sprint("sample-", num)
				l.open(d, key)
				c, cancel := context.WithTimeout(ctx, time.Minute)
				err := export(c, cc, d)
				cancel()
				if err != nil {
					return
				}
				l.ack(key)
			}
		}()
	}
	for up := 0; up < 3*k; { // all are connected
		time.Sleep(2 * time.Millisecond)
		l.mu.Lock()
		up = len(l.acked)
		l.mu.Unlock()
	}
	time.Sleep(time.Duration(t.Rand.Intn(500)) * time.Millisecond)
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[t.Rand.Intn(2)]
	s.Stop(t, sig)
	wg.Wait()
	t.Count("processes_stopped_while_busy", 1)
	t.Max("acknowledged_by_a_busy_process", len(l.acked))
	reopened(t, filepath.Join(t.Dir, "data"), l, "busy until "+sig.String())
}
