package main

import (
	"context"
	"net"
	"os"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	_ "github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/service"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	_ "google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/dgraph-io/badger/v4"
	"path/filepath"
)

var ctx = context.Background()

var epoch = time.Date(2024, 4, 3, 14, 0, 0, 0, time.UTC)

const period = 2 * time.Hour

func init() {
	if os.Getenv("VERIF_FLUSH_INTERVAL") == "" {
		panic("VERIF_FLUSH_INTERVAL is not set")
	}
}

// server is the service behind a real gRPC server, wired as rq wires it.
type server struct {
	db     *badger.DB
	tr     *translate.Translate
	seq    *seq.Seq
	idx    *shards.Shards
	svc    *service.Service
	gs     *grpc.Server
	lis    *bufconn.Listener
	cancel func()
	addr   string
}

func serve(t *zv.T, dir string, start bool) *server {
	s := &server{}
	var err error
	s.db, err = kit.DB(dir, false)
	t.Must(err)
	s.tr, err = translate.New(s.db, kit.TranslatePrefix())
	t.Must(err)
	s.seq, err = seq.New(s.db)
	t.Must(err)
	s.idx = shards.New(filepath.Join(dir, "index"), nil)
	c, cancel := context.WithCancel(ctx)
	s.cancel = cancel
	s.svc, err = service.NewService(c, s.db, s.tr, s.seq, s.idx, func() time.Time { return epoch.Add(time.Hour) }, "", time.Hour)
	t.Must(err)
	s.gs = grpc.NewServer()
	v1.RegisterRQServer(s.gs, s.svc)
	collector_metrics.RegisterMetricsServiceServer(s.gs, s.svc.Metrics())
	collector_logs.RegisterLogsServiceServer(s.gs, s.svc.Logs())
	collector_trace.RegisterTraceServiceServer(s.gs, s.svc.Trace())
	s.lis = bufconn.Listen(1 << 20)
	go s.gs.Serve(s.lis)
	if start {
		s.svc.Start(c)
	}
	return s
}

func (s *server) dial(t *zv.T) *grpc.ClientConn {
	c, err := grpc.Dial("passthrough:///buf", grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return s.lis.Dial() }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
	t.Must(err)
	return c
}

// close shuts down gracefully, in the order of rq.
func (s *server) close(graceful bool) {
	s.cancel()
	if graceful {
		s.gs.GracefulStop()
	} else {
		s.gs.Stop()
	}
	s.svc.Close()
	s.seq.Release()
	s.idx.Close()
	s.tr.Close()
	s.db.Close()
}

// export sends a document; nil means the server acknowledged it.
func export(c context.Context, cc *grpc.ClientConn, d *v1.Data, opt ...grpc.CallOption) (err error) {
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		_, err = collector_metrics.NewMetricsServiceClient(cc).Export(c, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: e.Metrics.ResourceMetrics}, opt...)
	case *v1.Data_Logs:
		_, err = collector_logs.NewLogsServiceClient(cc).Export(c, &collector_logs.ExportLogsServiceRequest{ResourceLogs: e.Logs.ResourceLogs}, opt...)
	case *v1.Data_Traces:
		_, err = collector_trace.NewTraceServiceClient(cc).Export(c, &collector_trace.ExportTraceServiceRequest{ResourceSpans: e.Traces.ResourceSpans}, opt...)
	}
	return
}

func periodScan(sig int) *v1.Scan {
	return &v1.Scan{Scope: gen.ScopeOf(sig), TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(epoch), End: timestamppb.New(epoch.Add(period))}}
}
