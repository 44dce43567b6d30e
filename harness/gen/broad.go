package gen

import (
	"fmt"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// Broad makes a document with n elements on one level and few on the others:
// resources (0), scopes (1), entries (2) or data points (3).
func (g *G) Broad(signal, level, n int) *v1.Data {
	if signal != 0 {
		level %= 3
	}
	at := func(l int) int {
		if l == level {
			return n
		}
		return 1 + g.R.Intn(2)
	}
	word := func(i int) string {
		if g.R.Intn(3) == 0 {
			return ""
		}
		return fmt.Sprint("u", i%7)
	}
	switch signal {
	case 0:
		d := &metricsv1.MetricsData{}
		for i := at(0); i > 0; i-- {
			r := &metricsv1.ResourceMetrics{SchemaUrl: word(i)}
			for j := at(1); j > 0; j-- {
				s := &metricsv1.ScopeMetrics{SchemaUrl: word(j)}
				for k := at(2); k > 0; k-- {
					var ps []*metricsv1.NumberDataPoint
					for l := at(3); l > 0; l-- {
						ps = append(ps, &metricsv1.NumberDataPoint{TimeUnixNano: g.Time(), Value: &metricsv1.NumberDataPoint_AsDouble{AsDouble: g.uniq()}})
					}
					s.Metrics = append(s.Metrics, &metricsv1.Metric{Name: word(k), Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: ps}}})
				}
				r.ScopeMetrics = append(r.ScopeMetrics, s)
			}
			d.ResourceMetrics = append(d.ResourceMetrics, r)
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: d}}
	case 1:
		d := &logsv1.LogsData{}
		for i := at(0); i > 0; i-- {
			r := &logsv1.ResourceLogs{SchemaUrl: word(i)}
			for j := at(1); j > 0; j-- {
				s := &logsv1.ScopeLogs{SchemaUrl: word(j)}
				for k := at(2); k > 0; k-- {
					s.LogRecords = append(s.LogRecords, &logsv1.LogRecord{TimeUnixNano: g.Time(), SeverityText: word(k)})
				}
				r.ScopeLogs = append(r.ScopeLogs, s)
			}
			d.ResourceLogs = append(d.ResourceLogs, r)
		}
		return &v1.Data{Data: &v1.Data_Logs{Logs: d}}
	}
	d := &tracev1.TracesData{}
	for i := at(0); i > 0; i-- {
		r := &tracev1.ResourceSpans{SchemaUrl: word(i)}
		for j := at(1); j > 0; j-- {
			s := &tracev1.ScopeSpans{SchemaUrl: word(j)}
			for k := at(2); k > 0; k-- {
				s.Spans = append(s.Spans, &tracev1.Span{StartTimeUnixNano: g.Time(), Name: word(k)})
			}
			r.ScopeSpans = append(r.ScopeSpans, s)
		}
		d.ResourceSpans = append(d.ResourceSpans, r)
	}
	return &v1.Data{Data: &v1.Data_Traces{Traces: d}}
}
