package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// instant draws the time a script runs at: anywhere, or at the edge of periods.
func evalTime(t *zv.T) time.Time {
	r := t.Rand
	loc := time.UTC
	if r.Intn(2) == 0 {
		loc = time.FixedZone("z", (r.Intn(27)-12)*3600+[]int{0, 1800, 2700}[r.Intn(3)])
	}
	ts := time.Date(1990+r.Intn(60), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), loc)
	switch r.Intn(4) {
	case 0:
		ts = day(ts)
	case 1:
		ts = day(ts).Add(-1)
	case 2:
		ts = time.Date(ts.Year(), ts.Month(), 1, 0, 0, 0, 0, loc)
	}
	return ts
}

func propC20() *zv.Prop {
	scans := func(t *zv.T, native bool) {
		r := t.Rand
		at := evalTime(t)
		imports := `import { Metrics, Logs, Trace, Config, RESOURCE, print, println } from "@requiemdb/rq";` + "\n"
		var src strings.Builder
		src.WriteString(imports)
		n := 2 + r.Intn(14)
		if r.Intn(300) == 0 {
			n = 50 + r.Intn(200)
		}
		var bs []*built
		var order []int
		open := map[int]bool{}
		for i := 0; i < n; i++ {
			b := &built{v: fmt.Sprint("q", i), want: &v1.Scan{}, at: at, loc: at.Location()}
			sig := r.Intn(3)
			b.want.Scope = []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES}[sig]
			switch r.Intn(3) {
			case 0:
				fmt.Fprintf(&src, "const %s: any = new Config(RESOURCE.%s);\n", b.v, []string{"METRICS", "LOGS", "TRACES"}[sig])
			default:
				arg := ""
				if sig == 0 && r.Intn(2) == 0 {
					arg = lit("named " + b.v)
					b.base(v1.Scan_NAME, "named "+b.v)
				}
				fmt.Fprintf(&src, "const %s: any = new %s(%s);\n", b.v, []string{"Metrics", "Logs", "Trace"}[sig], arg)
			}
			bs = append(bs, b)
			open[i] = true
			// Build several at a time, in any order.
			for k := r.Intn(6); k > 0; k-- {
				j := r.Intn(len(bs))
				if !open[j] {
					continue
				}
				src.WriteString(bs[j].v)
				m := 1 + r.Intn(3)
				if r.Intn(1500) == 0 {
					m = 30 + r.Intn(1000)
				}
				for ; m > 0; m-- {
					if native && r.Intn(8) == 0 {
						a, c := r.Int63n(4e12), r.Int63n(4e12)
						src.WriteString(fmt.Sprintf(";\n%s.ptr.TimeRange(%d,%d);\n%s", bs[j].v, a, c, bs[j].v))
						bs[j].rel = func(time.Time) (time.Time, time.Time) { return time.UnixMilli(a), time.UnixMilli(c) }
						continue
					}
					src.WriteString(bs[j].step(r))
				}
				src.WriteString(";\n")
			}
			for j := range bs {
				if open[j] && r.Intn(4) == 0 {
					open[j] = false
					order = append(order, j)
					fmt.Fprintf(&src, "println(%d, typeof %s.scan());\n", j, bs[j].v)
				}
			}
		}
		for j := range bs {
			if open[j] {
				order = append(order, j)
				fmt.Fprintf(&src, "println(%d, typeof %s.scan());\n", j, bs[j].v)
			}
		}
		var want []*v1.Scan
		var out strings.Builder
		for _, j := range order {
			want = append(want, bs[j].finish())
			fmt.Fprintf(&out, "%d object\n", j)
		}
		var got []*v1.Scan
		var buf bytes.Buffer
		vm := js.New().WithNow(func() time.Time { return at }).WithOutput(&buf)
		// documents of the kind asked for
		vm.WithScan(func(s *v1.Scan) (*v1.Data, error) {
			got = append(got, kit.Clone(s))
			switch s.Scope {
			case v1.Scan_LOGS:
				return &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{}}}, nil
			case v1.Scan_TRACES:
				return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{}}}, nil
			}
			return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{}}}, nil
		})
		p := program(t, src.String())
		if err := vm.Run(p); err != nil {
			t.Fatal("script-error", "a valid script fails: %v\n%s", err, clip(src.String()))
		}
		vm.Release()
		t.Eval(len(want) + 1)
		if len(got) != len(want) {
			t.Fatal("scan-count", "%d scans ran, the script has %d\n%s", len(got), len(want), clip(src.String()))
		}
		for i := range want {
			if !proto.Equal(want[i], got[i]) {
				t.Fatal("request", "at %s scan %s asked for something else: %s\n%s", at, bs[order[i]].v, kit.Diff(want[i], got[i]), clip(src.String()))
			}
			t.Distinct(want[i].String())
		}
		if buf.String() != out.String() {
			t.Fatal("output", "want %q got %q", clip(out.String()), clip(buf.String()))
		}
		t.Count("scans", len(want))
		t.Sample(map[string]any{"script": clip(src.String())[len(imports):], "evaluated_at": at, "first_request": want[0].String()})
	}
	bad := func(t *zv.T) {
		// What can't be a request must fail, not ask for something else.
		r := t.Rand
		for _, c := range []string{`.ago("yesterday")`, `.offset("1 hour")`, `.ago("")`, `.offset("15")`, `.nosuch("x")`} {
			kind := []string{"Metrics", "Logs", "Trace"}[r.Intn(3)]
			asked := 0
			vm := js.New().WithScan(func(s *v1.Scan) (*v1.Data, error) { asked++; return nil, fmt.Errorf("unreachable") })
			err := vm.Run(program(t, fmt.Sprintf(`import { %s } from "@requiemdb/rq";`+"\n(new %s() as any)%s.scan();", kind, kind, c)))
			t.Eval(1)
			if err == nil || asked > 0 {
				t.Fatal("bad-accepted", "%s%s ran without an error (%d scans)", kind, c, asked)
			}
			t.Distinct(kind, c)
		}
		// An error of the scan reaches the script, and an uncaught one the caller.
		msg := fmt.Sprint("down-", r.Intn(1000))
		for _, caught := range []bool{true, false} {
			var buf bytes.Buffer
			vm := js.New().WithOutput(&buf).WithScan(func(s *v1.Scan) (*v1.Data, error) { return nil, fmt.Errorf("%s", msg) })
			src := `import { Metrics, print } from "@requiemdb/rq";` + "\n"
			if caught {
				src += "try { new Metrics().query(); print('no error') } catch (e) { print(String(e)) }"
			} else {
				src += "new Metrics().query(); print('no error')"
			}
			err := vm.Run(program(t, src))
			t.Eval(1)
			switch {
			case caught && (err != nil || !strings.Contains(buf.String(), msg)):
				t.Fatal("scan-error-lost", "caught: %v, printed %q", err, buf.String())
			case !caught && (err == nil || !strings.Contains(err.Error(), msg) || buf.Len() > 0):
				t.Fatal("scan-error-lost", "uncaught: %v, printed %q", err, buf.String())
			}
		}
	}
	return &zv.Prop{
		ID:   "C20",
		Rule: "an execution compiles and runs a generated script which builds 2-15 scans at once with random interleaved builder calls (hostile texts, durations, evaluation times at the edges of days, weeks, months and years in several zones); each request sent counts as distinct by content. The oracle is the request computed from the calls independently",
		Families: []zv.Family{
			{Name: "builder", Quick: 12000, Thorough: 120000, Run: func(t *zv.T) { scans(t, false) }},
			{Name: "native", Quick: 4000, Thorough: 40000, Run: func(t *zv.T) { scans(t, true) }},
			{Name: "bad", Quick: 240, Thorough: 300, Run: bad},
		},
	}
}
