package gen

import (
	"fmt"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

// Heads are the resources, scopes and metrics of documents, with
// what is not part of their identity: descriptions, metadata, what was dropped.
type Heads map[string]map[string]bool

// heads walks all of d, also what has no entries.
func heads(d *v1.Data, f func(kind, key, val string)) {
	res := func(schema string, r *resourcev1.Resource) string {
		k := ResKey(schema, r)
		f("resource", k, short(string(Bytes(r))))
		return k
	}
	scope := func(rk, schema string, s *commonv1.InstrumentationScope) string {
		k := rk + "|" + ScopeKey(schema, s)
		f("scope", k, short(string(Bytes(s))))
		return k
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		rk := res(r.SchemaUrl, r.Resource)
		for _, s := range r.ScopeMetrics {
			sk := scope(rk, s.SchemaUrl, s.Scope)
			for _, m := range s.Metrics {
				f("metric", sk+"|"+MetricKey(m), short(string(Bytes(&metricsv1.Metric{Description: m.Description, Metadata: m.Metadata}))))
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		rk := res(r.SchemaUrl, r.Resource)
		for _, s := range r.ScopeLogs {
			scope(rk, s.SchemaUrl, s.Scope)
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		rk := res(r.SchemaUrl, r.Resource)
		for _, s := range r.ScopeSpans {
			scope(rk, s.SchemaUrl, s.Scope)
		}
	}
}

// HeadsOf collects those of documents.
func HeadsOf(ds ...*v1.Data) Heads {
	h := Heads{}
	for _, d := range ds {
		heads(d, func(kind, key, val string) {
			k := kind + key
			if h[k] == nil {
				h[k] = map[string]bool{}
			}
			h[k][val] = true
		})
	}
	return h
}

// Foreign tells what is in d and in none of the documents.
func (h Heads) Foreign(d *v1.Data) (bad string) {
	heads(d, func(kind, key, val string) {
		if is := h[kind+key]; bad == "" && is != nil && !is[val] {
			bad = fmt.Sprintf("the %s %q of an entry is not as it was in any document: %q", kind, key, val)
		}
	})
	return
}
