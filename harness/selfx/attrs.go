package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"go.opentelemetry.io/otel/attribute"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
)

type g struct {
	r     *rand.Rand
	plain bool
	// sdk: no more attributes than the sdk keeps of a span (128).
	sdk bool
}

// nonan draws no NaN, which makes a resource unequal to itself.
func (x g) nonan() g { x.plain = true; return x }

// few is how many elements a list has: less than n, rarely hundreds.
func (g g) few(n int) int {
	if g.r.Intn(3000) == 0 {
		if g.sdk {
			return 50 + g.r.Intn(79)
		}
		return 50 + g.r.Intn(600)
	}
	return g.r.Intn(n)
}

func (g g) word(p string) string {
	if g.r.Intn(3000) == 0 {
		s := strings.Repeat("long ", 20<<g.r.Intn(10))
		if g.r.Intn(2) == 0 {
			return p + s + fmt.Sprint(g.r.Intn(5))
		}
		return fmt.Sprint(p, g.r.Intn(5), s)
	}
	if g.r.Intn(8) == 0 {
		return []string{"", "日本", "a=b", "x\x00y", "%d", "new\nline"}[g.r.Intn(6)]
	}
	return fmt.Sprintf("%s%d", p, g.r.Intn(5))
}

func (g g) num() int64 {
	switch g.r.Intn(6) {
	case 0:
		return math.MaxInt64
	case 1:
		return math.MinInt64
	case 2:
		return 0
	}
	return g.r.Int63n(1000) - 500
}

func (g g) float() float64 {
	switch g.r.Intn(8) {
	case 0:
		return math.Inf(1)
	case 1:
		if !g.plain {
			return math.NaN()
		}
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return math.MaxFloat64
	}
	return math.Round(g.r.NormFloat64()*1e6) / 1e3
}

func str(s string) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
}

// value draws an attribute value and what it is in OTLP.
func (g g) value() (attribute.Value, *commonv1.AnyValue) {
	ls := func(n int, f func(i int) *commonv1.AnyValue) *commonv1.AnyValue {
		a := &commonv1.ArrayValue{}
		for i := 0; i < n; i++ {
			a.Values = append(a.Values, f(i))
		}
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: a}}
	}
	n := g.few(4)
	switch g.r.Intn(8) {
	case 0:
		b := g.r.Intn(2) == 0
		return attribute.BoolValue(b), &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: b}}
	case 1:
		v := g.num()
		return attribute.Int64Value(v), &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: v}}
	case 2:
		v := g.float()
		return attribute.Float64Value(v), &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: v}}
	case 3:
		v := make([]bool, n)
		for i := range v {
			v[i] = g.r.Intn(2) == 0
		}
		return attribute.BoolSliceValue(v), ls(n, func(i int) *commonv1.AnyValue {
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: v[i]}}
		})
	case 4:
		v := make([]int64, n)
		for i := range v {
			v[i] = g.num()
		}
		return attribute.Int64SliceValue(v), ls(n, func(i int) *commonv1.AnyValue {
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: v[i]}}
		})
	case 5:
		v := make([]float64, n)
		for i := range v {
			v[i] = g.float()
		}
		return attribute.Float64SliceValue(v), ls(n, func(i int) *commonv1.AnyValue {
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: v[i]}}
		})
	case 6:
		v := make([]string, n)
		for i := range v {
			v[i] = g.word("v")
		}
		return attribute.StringSliceValue(v), ls(n, func(i int) *commonv1.AnyValue { return str(v[i]) })
	}
	s := g.word("v")
	return attribute.StringValue(s), str(s)
}

// kvs draws attributes with different keys.
func (g g) kvs() ([]attribute.KeyValue, []*commonv1.KeyValue) {
	var a []attribute.KeyValue
	var b []*commonv1.KeyValue
	for i := g.few(4); i > 0; i-- {
		k := fmt.Sprint("k", i, g.word("-"))
		v, p := g.value()
		a = append(a, attribute.KeyValue{Key: attribute.Key(k), Value: v})
		b = append(b, &commonv1.KeyValue{Key: k, Value: p})
	}
	return a, b
}

// set draws a set of attributes, which is ordered by key.
func (g g) set() (attribute.Set, []*commonv1.KeyValue) {
	a, b := g.kvs()
	sort.Slice(b, func(i, j int) bool { return b[i].Key < b[j].Key })
	return attribute.NewSet(a...), b
}
