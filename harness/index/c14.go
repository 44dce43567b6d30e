package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

type tuple struct {
	r    v1.RESOURCE
	p    v1.PREFIX
	k, v string
}

var pieces = []string{"a", "b", "=", "\\", ":", "1", "0", "\\=", "==", "\x00", "é", "", "%", " "}

func text(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(20000) == 0 {
		b.WriteString(strings.Repeat("long", 20<<r.Intn(11)))
	}
	for n := r.Intn(5); n > 0; n-- {
		b.WriteString(pieces[r.Intn(len(pieces))])
	}
	return b.String()
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:100] + "…" + s[len(s)-100:]
	}
	return s
}

func randTuple(r *rand.Rand) tuple {
	t := tuple{v1.RESOURCE(r.Intn(12)), v1.PREFIX(r.Intn(14)), text(r), text(r)}
	if r.Intn(3) > 0 { // few kinds: collisions would need text
		t.r, t.p = 1, 4
	}
	return t
}

func encodeLabel(x tuple, l *labels.Label) string {
	return string(l.WithResource(x.r).WithPrefix(x.p).WithKey(x.k).WithValue(x.v).Encode())
}

func propC14() *zv.Prop {
	return &zv.Prop{
		ID:   "C14",
		Rule: "an execution encodes thousands of labels built from separators, escapes, digits and letters (so that key/value boundaries are the only difference), freshly, on reused and on pooled objects; distinct encodings are counted. The oracle is injectivity: one encoding has one label and one label one encoding",
		Families: []zv.Family{
			{Name: "tuples", Quick: 300 * 8, Thorough: 3000, Run: func(t *zv.T) {
				by := map[string]tuple{}
				of := map[tuple]string{}
				shared := labels.NewLabel()
				for i := 0; i < 4000; i++ {
					x := randTuple(t.Rand)
					var s string
					switch t.Rand.Intn(3) {
					case 0:
						s = encodeLabel(x, new(labels.Label))
					case 1:
						s = encodeLabel(x, shared)
						if t.Rand.Intn(2) == 0 {
							shared.Reset()
						}
					case 2:
						l := labels.NewLabel()
						if l.Key != "" || l.Value != "" || l.Resource != 0 || l.Prefix != 0 {
							t.Fatal("dirty", "a pooled label still holds %v", l)
						}
						s = encodeLabel(x, l)
						if l.String() != s {
							t.Fatal("unstable", "encoding twice gives %q and %q", s, l.String())
						}
						l.Release()
					}
					t.Eval(1)
					if y, ok := by[s]; ok && y != x {
						t.Fatal("collision", "labels %q and %q have the same encoding %q", clip(fmt.Sprint(x)), clip(fmt.Sprint(y)), clip(s))
					}
					if e, ok := of[x]; ok && e != s {
						t.Fatal("unstable", "label %q is encoded as %q and as %q", clip(fmt.Sprint(x)), clip(e), clip(s))
					}
					by[s], of[x] = x, s
				}
				for s := range by {
					if len(s) > 6 {
						t.Distinct(s)
					}
				}
				for s, x := range by {
					t.Sample(map[string]any{"label": fmt.Sprint(x), "encoding": s})
					break
				}
			}},
			{Name: "parallel", Quick: 100 * 8, Thorough: 400, Run: func(t *zv.T) {
				var wg sync.WaitGroup
				var mu sync.Mutex
				by := map[string]tuple{}
				for w := 0; w < 6; w++ {
					r := rand.New(rand.NewSource(t.Rand.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 2000; i++ {
							x := randTuple(r)
							l := labels.NewLabel()
							s := encodeLabel(x, l)
							l.Release()
							mu.Lock()
							if y, ok := by[s]; ok && y != x {
								t.Fail("collision", "labels %q and %q have the same encoding %q", clip(fmt.Sprint(x)), clip(fmt.Sprint(y)), clip(s))
							}
							by[s] = x
							mu.Unlock()
							t.Eval(1)
						}
					}()
				}
				wg.Wait()
				for s := range by {
					t.Distinct(s)
				}
			}},
		},
	}
}
