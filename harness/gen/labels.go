package gen

import (
	"encoding/hex"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
)

// Label is one thing a sample can be selected by.
type Label struct {
	Prop int32 // numeric Scan_BaseProp / Scan_AttributeProp
	Attr bool
	Key  string
	Val  string
}

func attrLabels(o map[Label]bool, p v1.Scan_AttributeProp, kv []*commonv1.KeyValue) {
	for _, a := range kv {
		if s, ok := a.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok && s.StringValue != "" {
			o[Label{Prop: int32(p), Attr: true, Key: a.Key, Val: s.StringValue}] = true
		}
	}
}

// LabelsOf is the specification of what a sample can be selected by.
func LabelsOf(d *v1.Data) map[Label]bool {
	o := map[Label]bool{}
	base := func(p v1.Scan_BaseProp, v string) {
		if v != "" {
			o[Label{Prop: int32(p), Key: v}] = true
		}
	}
	res := func(schema string, kv []*commonv1.KeyValue) {
		base(v1.Scan_RESOURCE_SCHEMA, schema)
		attrLabels(o, v1.Scan_RESOURCE_ATTRIBUTES, kv)
	}
	scope := func(schema string, s *commonv1.InstrumentationScope) {
		base(v1.Scan_SCOPE_SCHEMA, schema)
		base(v1.Scan_SCOPE_NAME, s.GetName())
		base(v1.Scan_SCOPE_VERSION, s.GetVersion())
		attrLabels(o, v1.Scan_SCOPE_ATTRIBUTES, s.GetAttributes())
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		res(r.SchemaUrl, r.GetResource().GetAttributes())
		for _, s := range r.ScopeMetrics {
			scope(s.SchemaUrl, s.Scope)
			for _, m := range s.Metrics {
				base(v1.Scan_NAME, m.Name)
				for _, p := range Points(m) {
					attrLabels(o, v1.Scan_ATTRIBUTES, p.GetAttributes())
				}
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		res(r.SchemaUrl, r.GetResource().GetAttributes())
		for _, s := range r.ScopeLogs {
			scope(s.SchemaUrl, s.Scope)
			for _, l := range s.LogRecords {
				base(v1.Scan_LOGS_LEVEL, l.SeverityText)
				base(v1.Scan_TRACE_ID, hex.EncodeToString(l.TraceId))
				base(v1.Scan_SPAN_ID, hex.EncodeToString(l.SpanId))
				attrLabels(o, v1.Scan_ATTRIBUTES, l.Attributes)
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		res(r.SchemaUrl, r.GetResource().GetAttributes())
		for _, s := range r.ScopeSpans {
			scope(s.SchemaUrl, s.Scope)
			for _, p := range s.Spans {
				base(v1.Scan_NAME, p.Name)
				base(v1.Scan_TRACE_ID, hex.EncodeToString(p.TraceId))
				base(v1.Scan_SPAN_ID, hex.EncodeToString(p.SpanId))
				base(v1.Scan_PARENT_SPAN_ID, hex.EncodeToString(p.ParentSpanId))
				attrLabels(o, v1.Scan_ATTRIBUTES, p.Attributes)
			}
		}
	}
	return o
}

// Filter asks for the label.
func (f Label) Filter() *v1.Scan_Filter {
	if f.Attr {
		return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_AttributeProp(f.Prop), Key: f.Key, Value: f.Val}}}
	}
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp(f.Prop), Value: f.Key}}}
}
