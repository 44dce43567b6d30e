package gen

import (
	"fmt"

	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// MarkM, MarkL and MarkT are entries that make a document unique.
func MarkM(n uint64) *metricsv1.ResourceMetrics {
	return &metricsv1.ResourceMetrics{SchemaUrl: fmt.Sprint("mark", n)}
}

func MarkL(n uint64) *logsv1.ResourceLogs {
	return &logsv1.ResourceLogs{SchemaUrl: fmt.Sprint("mark", n)}
}

func MarkT(n uint64) *tracev1.ResourceSpans {
	return &tracev1.ResourceSpans{SchemaUrl: fmt.Sprint("mark", n)}
}
