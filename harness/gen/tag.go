package gen

import (
	"fmt"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

// Tag marks every resource of d as that of sample n.
func Tag(d *v1.Data, n int) {
	set := func(r **resourcev1.Resource) {
		*r = &resourcev1.Resource{Attributes: []*commonv1.KeyValue{KV("sample", fmt.Sprint("sample-", n))}}
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		set(&r.Resource)
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		set(&r.Resource)
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		set(&r.Resource)
	}
}

// TagsOf lists the samples d was made of, in order.
func TagsOf(d *v1.Data) []string {
	o := []string{}
	add := func(r *resourcev1.Resource) {
		for _, a := range r.GetAttributes() {
			if a.Key == "sample" {
				v := a.Value.GetStringValue()
				if len(o) == 0 || o[len(o)-1] != v {
					o = append(o, v)
				}
			}
		}
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		add(r.Resource)
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		add(r.Resource)
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		add(r.Resource)
	}
	return o
}

func TagOf(d *v1.Data) (n int) {
	fmt.Sscanf(TagsOf(d)[0], "sample-%d", &n)
	return
}

// ResTag is the sample a resource belongs to.
func ResTag(r *resourcev1.Resource) string {
	for _, a := range r.GetAttributes() {
		if a.Key == "sample" {
			return a.Value.GetStringValue()
		}
	}
	return ""
}

// ByTag groups the leaves of documents by the sample their resource belongs to.
func ByTag(ds ...*v1.Data) map[string]map[string]int {
	o := map[string]map[string]int{}
	for _, d := range ds {
		for _, l := range Leaves(d) {
			k := ResTag(l.ResourceMsg)
			if o[k] == nil {
				o[k] = map[string]int{}
			}
			o[k][l.Key()]++
		}
	}
	return o
}
