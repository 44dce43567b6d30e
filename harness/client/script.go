package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

var ctx = context.Background()

// lit is a javascript literal of s.
func lit(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimSpace(b.String())
}

var texts = []string{"a", "k1", "v1", "service.name", "x=y", "=", ":", "1:2:3", "", " lead", "trail ", "tab\there", "new\nline", "quo\"te", "single'quote",
	"back\\slash", "`tick` ${x}", "é", "日本語", "🎉", "\u2028", "\x00nul", "</script>", "//comment", "/*", "0af7651916cd43dd8448eb211c80319c", "INFO", "very " + strings.Repeat("long ", 200)}

func text(r *rand.Rand) string {
	if r.Intn(2000) == 0 {
		s := strings.Repeat("long ", 20<<r.Intn(10))
		if r.Intn(2) == 0 {
			return s + fmt.Sprint("w", r.Intn(1000))
		}
		return fmt.Sprint("w", r.Intn(1000), s)
	}
	if r.Intn(3) == 0 {
		return fmt.Sprint("w", r.Intn(1000))
	}
	return texts[r.Intn(len(texts))]
}

var durations = []string{"15m", "1h", "0s", "1h30m", "1.5h", "90s", "1ns", "250ms", "720h", "-5m", "1us", "8760h", "1h0m0.000000001s"}

// built is a scan under construction: the script's text and what it must ask for.
type built struct {
	v    string // variable
	want *v1.Scan
	loc  *time.Location
	at   time.Time                           // evaluation time unless the script sets it
	rel  func(ts time.Time) (s, e time.Time) // relative range
	set  bool
	nows time.Time
}

func (b *built) base(p v1.Scan_BaseProp, v string) {
	b.want.Filters = append(b.want.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}})
}

func (b *built) attr(p v1.Scan_AttributeProp, k, v string) {
	b.want.Filters = append(b.want.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}})
}

// finish is the request expected from the finished builder.
func (b *built) finish() *v1.Scan {
	if b.rel != nil {
		ts := b.at
		if b.set {
			ts = b.nows.In(b.loc)
		}
		s, e := b.rel(ts)
		b.want.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(s), End: timestamppb.New(e)}
	}
	return b.want
}

func day(t time.Time) time.Time {
	y, m, d := t.Date()
	return time.Date(y, m, d, 0, 0, 0, 0, t.Location())
}

// step adds a random call to the builder and returns it as script text.
func (b *built) step(r *rand.Rand) string {
	x := text(r)
	switch r.Intn(21) {
	case 0:
		n := []int64{0, 1, 2, 1000, 1 << 40}[r.Intn(5)]
		b.want.Limit = uint64(n)
		return fmt.Sprintf(".limit(%d)", n)
	case 1:
		d := durations[r.Intn(len(durations))]
		x, _ := time.ParseDuration(d)
		b.want.Offset = durationpb.New(x)
		return fmt.Sprintf(".offset(%q)", d)
	case 2:
		ms := r.Int63n(4102444800000)
		switch r.Intn(3) {
		case 0: // the edge of a day
			ms -= ms % 86400000
		case 1:
			ms -= ms%86400000 + 1
		}
		if ms < 0 {
			ms = 0
		}
		b.set, b.nows = true, time.UnixMilli(ms).UTC()
		b.want.Now = timestamppb.New(b.nows)
		return fmt.Sprintf(".now(new Date(%d))", ms)
	case 3:
		b.want.Reverse = true
		return ".reverse()"
	case 4:
		b.base(v1.Scan_RESOURCE_SCHEMA, x)
		return ".resourceSchema(" + lit(x) + ")"
	case 5:
		b.base(v1.Scan_SCOPE_SCHEMA, x)
		return ".scopeSchema(" + lit(x) + ")"
	case 6:
		b.base(v1.Scan_SCOPE_NAME, x)
		return ".scopeName(" + lit(x) + ")"
	case 7:
		b.base(v1.Scan_SCOPE_VERSION, x)
		return ".scopeVersion(" + lit(x) + ")"
	case 8:
		b.base(v1.Scan_NAME, x)
		return ".name(" + lit(x) + ")"
	case 9:
		b.base(v1.Scan_TRACE_ID, x)
		return ".traceId(" + lit(x) + ")"
	case 10:
		b.base(v1.Scan_SPAN_ID, x)
		return ".spanId(" + lit(x) + ")"
	case 11:
		b.base(v1.Scan_PARENT_SPAN_ID, x)
		return ".parentSpanId(" + lit(x) + ")"
	case 12:
		b.base(v1.Scan_LOGS_LEVEL, x)
		return ".logLevel(" + lit(x) + ")"
	case 13:
		y := text(r)
		b.attr(v1.Scan_RESOURCE_ATTRIBUTES, x, y)
		return ".resourceAttr(" + lit(x) + "," + lit(y) + ")"
	case 14:
		y := text(r)
		b.attr(v1.Scan_SCOPE_ATTRIBUTES, x, y)
		return ".scopeAttr(" + lit(x) + "," + lit(y) + ")"
	case 15:
		y := text(r)
		b.attr(v1.Scan_ATTRIBUTES, x, y)
		return ".attr(" + lit(x) + "," + lit(y) + ")"
	case 16:
		if r.Intn(2) == 0 {
			b.rel = func(t time.Time) (time.Time, time.Time) { return t.Add(-15 * time.Minute), t }
			return ".latest()"
		}
		d := durations[r.Intn(len(durations))]
		x, _ := time.ParseDuration(d)
		b.rel = func(t time.Time) (time.Time, time.Time) { return t.Add(-x), t }
		return fmt.Sprintf(".ago(%q)", d)
	case 17:
		b.rel = func(t time.Time) (time.Time, time.Time) { return day(t), t }
		return ".today()"
	case 18:
		b.rel = func(t time.Time) (time.Time, time.Time) {
			d := day(t)
			for d.Weekday() != time.Sunday {
				d = day(d.Add(-time.Hour))
			}
			return d, t
		}
		return ".thisWeek()"
	case 19:
		b.rel = func(t time.Time) (time.Time, time.Time) {
			return time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, t.Location()), t
		}
		return ".thisMonth()"
	default:
		b.rel = func(t time.Time) (time.Time, time.Time) {
			return time.Date(t.Year(), 1, 1, 0, 0, 0, 0, t.Location()), t
		}
		return ".thisYear()"
	}
}

// program compiles a script as rq query does.
func program(t *zv.T, src string) *goja.Program {
	b, err := compile.Compile([]byte(src))
	if err != nil {
		t.Fatal("compile", "a valid script does not compile: %v\n%s", err, clip(src))
	}
	p, err := goja.Compile("scan.js", string(b), true)
	if err != nil {
		t.Fatal("compile", "a valid script compiles to something invalid: %v\n%s", err, clip(src))
	}
	return p
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}
