package gen

import (
	"encoding/hex"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
)

// Pair is a key and a value.
type Pair struct{ K, V string }

// Want is a filter in the reference's terms.
type Want struct {
	Base       map[v1.Scan_BaseProp]map[string]bool
	Attr       map[v1.Scan_AttributeProp]map[Pair]bool
	Start, End uint64
}

func carries(need map[Pair]bool, have []*commonv1.KeyValue) bool {
	for n := range need {
		ok := false
		for _, a := range have {
			if s, is := a.GetValue().GetValue().(*commonv1.AnyValue_StringValue); is && a.Key == n.K && s.StringValue == n.V {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (w *Want) any(p v1.Scan_BaseProp, v string) bool {
	return len(w.Base[p]) == 0 || w.Base[p][v]
}

// Accept decides about one entry by itself.
func (w *Want) Accept(l *Leaf) bool {
	ok := w.any(v1.Scan_RESOURCE_SCHEMA, l.ResSchema) && w.any(v1.Scan_SCOPE_SCHEMA, l.ScopeSchema) &&
		w.any(v1.Scan_SCOPE_NAME, l.ScopeMsg.GetName()) && w.any(v1.Scan_SCOPE_VERSION, l.ScopeMsg.GetVersion()) &&
		carries(w.Attr[v1.Scan_RESOURCE_ATTRIBUTES], l.ResourceMsg.GetAttributes()) &&
		carries(w.Attr[v1.Scan_SCOPE_ATTRIBUTES], l.ScopeMsg.GetAttributes()) &&
		carries(w.Attr[v1.Scan_ATTRIBUTES], l.Attrs) &&
		l.Time >= w.Start && l.Time < w.End
	if !ok {
		return false
	}
	switch {
	case l.LogMsg != nil:
		return w.any(v1.Scan_LOGS_LEVEL, l.LogMsg.SeverityText) &&
			w.any(v1.Scan_TRACE_ID, hex.EncodeToString(l.LogMsg.TraceId)) &&
			w.any(v1.Scan_SPAN_ID, hex.EncodeToString(l.LogMsg.SpanId))
	case l.SpanMsg != nil:
		return w.any(v1.Scan_NAME, l.Name) &&
			w.any(v1.Scan_TRACE_ID, hex.EncodeToString(l.SpanMsg.TraceId)) &&
			w.any(v1.Scan_SPAN_ID, hex.EncodeToString(l.SpanMsg.SpanId)) &&
			w.any(v1.Scan_PARENT_SPAN_ID, hex.EncodeToString(l.SpanMsg.ParentSpanId))
	default:
		return w.any(v1.Scan_NAME, l.Name)
	}
}
