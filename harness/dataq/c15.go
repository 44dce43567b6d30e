package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/cespare/xxhash/v2"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
)

// groups lists the leaves of each (resource, scope, metric) in document order.
func groups(ds ...*v1.Data) (map[string][]string, []string) {
	o := map[string][]string{}
	var res []string
	seen := map[string]bool{}
	for _, d := range ds {
		for _, l := range gen.Leaves(d) {
			k := strings.Join([]string{l.Resource, l.Scope, fmt.Sprint(l.ScopeMsg != nil), l.Metric}, "\x1f")
			o[k] = append(o[k], l.Point)
		}
		add := func(schema string, r *resourcev1.Resource) {
			k := gen.ResKey(schema, r)
			if !seen[k] {
				seen[k] = true
				res = append(res, k)
			}
		}
		for _, r := range d.GetMetrics().GetResourceMetrics() {
			add(r.SchemaUrl, r.Resource)
		}
		for _, r := range d.GetLogs().GetResourceLogs() {
			add(r.SchemaUrl, r.Resource)
		}
		for _, r := range d.GetTraces().GetResourceSpans() {
			add(r.SchemaUrl, r.Resource)
		}
	}
	return o, res
}

// judge compares an answer with the documents it merges.
func judgeCollapse(t *zv.T, docs []*v1.Data, got *v1.Data, signal int, strict bool) {
	t.Eval(1)
	if got == nil {
		t.Fatal("nil", "merging %d documents gave nothing", len(docs))
	}
	if sigOf(got) != signal {
		t.Fatal("kind", "merging documents of signal %d gave %T", signal, got.Data)
	}
	if d := gen.DiffMultiset(gen.Multiset(docs...), gen.Multiset(got)); d != "" {
		t.Fatal("not-conserved", "merging %d documents: %s", len(docs), d)
	}
	if x := gen.HeadsOf(docs...).Foreign(got); x != "" {
		t.Fatal("head", "%s", x)
	}
	want, wr := groups(docs...)
	have, hr := groups(got)
	for k, ls := range want {
		if strings.Join(ls, "\x00") != strings.Join(have[k], "\x00") {
			t.Fatal("order", "the %d entries of one group changed their order", len(ls))
		}
	}
	if strings.Join(wr, "\x00") != strings.Join(hr, "\x00") {
		t.Fatal("resource-order", "resources are not in order of first appearance")
	}
	if len(docs) < 2 || !strict {
		return
	}
	dup := func(k string, seen map[string]bool) {
		if seen[k] {
			t.Fatal("not-grouped", "the same %s appears twice in the merged answer", strings.SplitN(k, "|", 2)[0])
		}
		seen[k] = true
	}
	seen := map[string]bool{}
	for _, r := range got.GetMetrics().GetResourceMetrics() {
		rk := "resource|" + gen.ResKey(r.SchemaUrl, r.Resource)
		dup(rk, seen)
		for _, s := range r.ScopeMetrics {
			sk := "scope|" + rk + gen.ScopeKey(s.SchemaUrl, s.Scope)
			dup(sk, seen)
			for _, m := range s.Metrics {
				dup("metric|"+sk+gen.MetricKey(m), seen)
			}
		}
	}
	for _, r := range got.GetLogs().GetResourceLogs() {
		rk := "resource|" + gen.ResKey(r.SchemaUrl, r.Resource)
		dup(rk, seen)
		for _, s := range r.ScopeLogs {
			dup("scope|"+rk+gen.ScopeKey(s.SchemaUrl, s.Scope), seen)
		}
	}
	for _, r := range got.GetTraces().GetResourceSpans() {
		rk := "resource|" + gen.ResKey(r.SchemaUrl, r.Resource)
		dup(rk, seen)
		for _, s := range r.ScopeSpans {
			dup("scope|"+rk+gen.ScopeKey(s.SchemaUrl, s.Scope), seen)
		}
	}
}

func sigOf(d *v1.Data) int {
	switch d.Data.(type) {
	case *v1.Data_Metrics:
		return 0
	case *v1.Data_Logs:
		return 1
	case *v1.Data_Traces:
		return 2
	}
	return -1
}

// distinct drops repeated resources, scopes and metrics within one document, and
// absent scopes: what is left must be grouped in the answer.
func distinct(d *v1.Data) {
	seen := map[string]bool{}
	ok := func(k string) bool { x := !seen[k]; seen[k] = true; return x }
	if m := d.GetMetrics(); m != nil {
		rs := m.ResourceMetrics
		m.ResourceMetrics = nil
		for _, r := range rs {
			rk := gen.ResKey(r.SchemaUrl, r.Resource)
			if !ok(rk) {
				continue
			}
			m.ResourceMetrics = append(m.ResourceMetrics, r)
			ss := r.ScopeMetrics
			r.ScopeMetrics = nil
			for _, s := range ss {
				if s.Scope == nil || !ok(rk+gen.ScopeKey(s.SchemaUrl, s.Scope)) {
					continue
				}
				r.ScopeMetrics = append(r.ScopeMetrics, s)
				var ms []*metricsv1.Metric
				for _, x := range s.Metrics {
					if ok(rk + gen.ScopeKey(s.SchemaUrl, s.Scope) + gen.MetricKey(x)) {
						ms = append(ms, x)
					}
				}
				s.Metrics = ms
			}
		}
	}
	if m := d.GetLogs(); m != nil {
		rs := m.ResourceLogs
		m.ResourceLogs = nil
		for _, r := range rs {
			rk := gen.ResKey(r.SchemaUrl, r.Resource)
			if !ok(rk) {
				continue
			}
			m.ResourceLogs = append(m.ResourceLogs, r)
			ss := r.ScopeLogs
			r.ScopeLogs = nil
			for _, s := range ss {
				if s.Scope != nil && ok(rk+gen.ScopeKey(s.SchemaUrl, s.Scope)) {
					r.ScopeLogs = append(r.ScopeLogs, s)
				}
			}
		}
	}
	if m := d.GetTraces(); m != nil {
		rs := m.ResourceSpans
		m.ResourceSpans = nil
		for _, r := range rs {
			rk := gen.ResKey(r.SchemaUrl, r.Resource)
			if !ok(rk) {
				continue
			}
			m.ResourceSpans = append(m.ResourceSpans, r)
			ss := r.ScopeSpans
			r.ScopeSpans = nil
			for _, s := range ss {
				if s.Scope != nil && ok(rk+gen.ScopeKey(s.SchemaUrl, s.Scope)) {
					r.ScopeSpans = append(r.ScopeSpans, s)
				}
			}
		}
	}
}

func docs(r *rand.Rand, sig, n int, o gen.Opt) (ls []*v1.Data) {
	g := gen.New(r, o)
	for ; n > 0; n-- {
		ls = append(ls, g.Data(sig))
	}
	return
}

func clones(ls []*v1.Data) []*v1.Data {
	o := make([]*v1.Data, len(ls))
	for i := range ls {
		o[i] = kit.Clone(ls[i])
	}
	return o
}

func propC15() *zv.Prop {
	shape := func(r *rand.Rand, wild bool) gen.Opt {
		return gen.Opt{Vocab: 1 + r.Intn(4), Wild: wild, Max: 1 + r.Intn(3), AtLeastOne: r.Intn(3) > 0, TimeLo: 1, TimeHi: 1 << 40}
	}
	merge := func(wild, strict bool) func(t *zv.T) {
		return func(t *zv.T) {
			for i := 0; i < 40; i++ {
				sig := t.Rand.Intn(3)
				ls := docs(t.Rand, sig, 1+t.Rand.Intn(7), shape(t.Rand, wild))
				if strict {
					for _, d := range ls {
						distinct(d)
					}
				}
				in := clones(ls)
				got := data.Collapse(in)
				judgeCollapse(t, ls, got, sig, strict)
				if n := len(gen.Leaves(got)); n > 1 && len(ls) > 1 {
					t.Count("leaves_merged", n)
					h := xxhash.Sum64(gen.Bytes(got))
					t.Distinct(h)
					t.Sample(map[string]any{"signal": sig, "documents": len(ls), "leaves": n})
				}
				if len(ls) == 1 && !proto.Equal(ls[0], got) {
					t.Fatal("single", "a single document changed: %s", kit.Diff(ls[0], got))
				}
			}
		}
	}
	return &zv.Prop{
		ID:   "C15",
		Rule: "an execution merges 40 generated lists of documents of one signal (small vocabularies, so that resources, scopes and metrics repeat within and across documents); distinct merged answers with at least two documents and two leaves are counted. The oracle conserves the multiset of leaves, the order inside each group and of the resources, and requires that equal resources, scopes and metrics of different documents are one entry",
		Assume: []string{
			"two resources are the same when schema and attributes are equal; scopes by schema, name, version and attributes; metrics by name, unit, kind, temporality and monotonicity",
		},
		Families: []zv.Family{
			{Name: "merge", Quick: 180 * 4, Thorough: 4000, Run: merge(false, false)},
			{Name: "wild", Quick: 180 * 4, Thorough: 4000, Run: merge(true, false)},
			{Name: "grouped", Quick: 180 * 4, Thorough: 4000, Run: merge(false, true)},
			{Name: "grouped-wild", Quick: 90 * 4, Thorough: 2000, Run: merge(true, true)},
			{Name: "large", Quick: 100, Thorough: 1500, Run: func(t *zv.T) {
				r := t.Rand
				sig := r.Intn(3)
				var ls []*v1.Data
				if o := shape(r, r.Intn(3) == 0); r.Intn(2) == 0 {
					ls = docs(r, sig, 2+r.Intn(3), o.Large(r, 1500))
				} else { // many
					o.Vocab = 1 + r.Intn(60)
					ls = docs(r, sig, 100+r.Intn(1200), o)
				}
				if r.Intn(2) == 0 {
					for _, d := range ls {
						distinct(d)
					}
					judgeCollapse(t, ls, data.Collapse(clones(ls)), sig, true)
				} else {
					judgeCollapse(t, ls, data.Collapse(clones(ls)), sig, false)
				}
				t.Max("documents", len(ls))
				t.Distinct(len(ls), sig, r.Int())
			}},
			{Name: "fields", Quick: 120 * 4, Thorough: 2000, Run: boundaries},
			{Name: "collide", Quick: 60 * 4, Thorough: 400, Run: collideCollapse},
			{Name: "parallel", Quick: 72 * 4, Thorough: 1000, Run: func(t *zv.T) {
				var wg sync.WaitGroup
				for w := 0; w < 6; w++ {
					r := rand.New(rand.NewSource(t.Rand.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil && !t.Failed() {
								t.Fail("panic", "merging in parallel: %v", e)
							}
						}()
						for i := 0; i < 60; i++ {
							sig := r.Intn(3)
							ls := docs(r, sig, 2+r.Intn(5), shape(r, i%2 == 0))
							got := data.Collapse(clones(ls))
							judgeCollapse(t, ls, got, sig, false)
							t.Distinct(xxhash.Sum64(gen.Bytes(got)))
						}
					}()
				}
				wg.Wait()
			}},
		},
	}
}

// boundaries merges documents whose identities differ only in where one text
// ends and the next begins, or in which of two places a text stands.
func boundaries(t *zv.T) {
	for i := 0; i < 40; i++ {
		sig := t.Rand.Intn(3)
		var ls []*v1.Data
		for k := 0; k < 6; k++ {
			g := gen.New(t.Rand, gen.Opt{Vocab: 1, Max: 1, AtLeastOne: true, TimeLo: 1, TimeHi: 1 << 40})
			d := g.Data(sig)
			cut := func() (string, string) { s := "aabab"; n := t.Rand.Intn(len(s) + 1); return s[:n], s[n:] }
			for _, r := range d.GetMetrics().GetResourceMetrics() {
				for _, s := range r.ScopeMetrics {
					sc := gen.New(t.Rand, g.O).Scope()
					if sc == nil {
						continue
					}
					s.Scope = sc
					if t.Rand.Intn(2) == 0 {
						s.SchemaUrl, sc.Name = cut()
					} else {
						sc.Name, sc.Version = cut()
					}
					for _, m := range s.Metrics {
						m.Name, m.Unit = cut()
					}
				}
				if r.Resource != nil {
					a, b := cut()
					r.Resource.Attributes = append(r.Resource.Attributes[:0:0], gen.KV(a, b))
				}
			}
			for _, r := range d.GetLogs().GetResourceLogs() {
				for _, s := range r.ScopeLogs {
					if s.Scope != nil {
						s.SchemaUrl, s.Scope.Name = cut()
					}
				}
				if r.Resource != nil {
					a, b := cut()
					r.SchemaUrl = a
					r.Resource.Attributes = append(r.Resource.Attributes[:0:0], gen.KV(b, a), gen.KV("x", b))
				}
			}
			for _, r := range d.GetTraces().GetResourceSpans() {
				for _, s := range r.ScopeSpans {
					if s.Scope != nil {
						s.Scope.Version, s.Scope.Name = cut()
					}
				}
				if r.Resource != nil {
					a, b := cut()
					r.Resource.Attributes = append(r.Resource.Attributes[:0:0], gen.KV(a, b), gen.KV(b, a))
				}
			}
			ls = append(ls, d)
		}
		got := data.Collapse(clones(ls))
		judgeCollapse(t, ls, got, sig, false)
		t.Distinct(xxhash.Sum64(gen.Bytes(got)))
	}
}

// collideCollapse merges documents whose resources have the same 64-bit xxhash.
func collideCollapse(t *zv.T) {
	sig := t.Rand.Intn(3)
	tail := t.Rand.Intn(20)
	var p [8]byte
	binary.BigEndian.PutUint64(p[:], uint64(24+64+tail))
	prefix := []string{string(p[:]), ""}[t.Rand.Intn(2)]
	if prefix == "" {
		tail = 0
	}
	a, b := gen.Colliding(t.Rand, prefix, tail)
	if xxhash.Sum64String(prefix+a) != xxhash.Sum64String(prefix+b) {
		t.Broken("no collision")
	}
	t.Count("colliding_pairs", 1)
	var ls []*v1.Data
	for _, s := range []string{a, b, a, b} {
		d := gen.New(t.Rand, gen.Opt{Vocab: 1, Max: 1, AtLeastOne: true, TimeLo: 1, TimeHi: 1 << 40}).Data(sig)
		for _, r := range d.GetMetrics().GetResourceMetrics() {
			r.SchemaUrl, r.Resource = s, nil
		}
		for _, r := range d.GetLogs().GetResourceLogs() {
			r.SchemaUrl, r.Resource = s, nil
		}
		for _, r := range d.GetTraces().GetResourceSpans() {
			r.SchemaUrl, r.Resource = s, nil
		}
		ls = append(ls, d)
	}
	judgeCollapse(t, ls, data.Collapse(clones(ls)), sig, false)
	t.Distinct(fmt.Sprint(a, b))
}
