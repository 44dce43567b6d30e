package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/cespare/xxhash/v2"
	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
)

// What a script can do to its runtime.
var mischief = []string{
	`g.leak = (g.leak || 0) + 1`,
	`g.SCAN = { Create() { throw new Error("stolen") } }`,
	`g.RQ = { Print() {}, PrintLn() {}, Scan() { return null } }`,
	`delete g.SCAN`,
	`delete g.RQ`,
	`g.RQ.Print = function () {}`,
	`g.RQ.Output = null`,
	`g.RQ.ScanFn = null`,
	`g.RQ.Now = null`,
	`g.RQ.ScanRequest = null`,
	`g.RQ.Runtime = null`,
	`g.RQ.Reset()`,
	`g.RQ.Release()`,
	`g.SCAN.Create("logs").Limit(7)`,
	`g.SCAN.scan = null`,
	`Object.prototype.resource_metrics = "stolen"`,
	`Object.prototype.toString = function () { return "stolen" }`,
	`Array.prototype.map = function () { return ["stolen"] }`,
	`Array.prototype.push = function () { return 0 }`,
	`String.prototype.trim = function () { return "stolen" }`,
	`JSON.stringify = function () { return "stolen" }`,
	`Math.max = function () { return -1 }`,
	`g.Date = class { getTime() { return 0 } }`,
	`Date.prototype.getTime = function () { return 1 }`,
	`Function.prototype.call = function () { throw new Error("stolen") }`,
	`Object.freeze(Object.prototype)`,
	`Object.defineProperty(g, "probe", { value: 1, writable: false })`,
	`Object.getPrototypeOf(g.SCAN).Create = function () { throw new Error("stolen") }`,
	`Object.setPrototypeOf(g, null)`,
	`g.console = { log() {} }`,
	`throw new Error("half way")`,
	`null.f`,
	`g.module = { exports: {} }`,
}

const probe = `import { Metrics, Logs, println, print } from "@requiemdb/rq";
const g: any = globalThis;
const q: any = new Metrics("probe").limit(LIMIT).attr("a", "TAG").now(new Date(86400000 * DAY)).today();
const d: any = q.query();
new Metrics("later").ago("DAYh").query();
println(d.resource_metrics.length, d.resource_metrics[0].schema_url);
println([typeof g.leak, typeof g.SCAN, typeof g.RQ, typeof g.probe, typeof g.module, typeof g.console].join());
println([1, 2, 3].map((x) => x * 2).join(), " x ".trim(), JSON.stringify({ a: [1] }), Math.max(1, 2), String({}));
println(new Date(5).getTime(), Object.isFrozen(Object.prototype), Object.keys({}).length);
println(Object.getOwnPropertyNames(g).sort().join());
const a: any[] = []; a.push("TAG"); println(a[0]); Metrics.renderJSON(d); print("end TAG");
g.probe = "TAG"; println(g.probe);
`

type ran struct {
	out  string
	err  string
	reqs []string
}

// client is a fresh client, as rq query makes one for a script.
type client struct {
	vm  *js.JS
	buf bytes.Buffer
	o   ran
	// during runs while the client's scan is being answered.
	during func()
}

// newClient makes the client of a script, each with documents and a clock of its own.
func newClient(tag string) *client {
	c := &client{}
	now := time.Unix(1e9+int64(xxhash.Sum64String(tag)%1e8), 0).UTC()
	c.vm = js.New().
		WithScan(func(s *v1.Scan) (*v1.Data, error) {
			c.o.reqs = append(c.o.reqs, s.String())
			if c.during != nil {
				c.during()
			}
			s.TimeRange, s.Filters = nil, nil // the whole document
			return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{SchemaUrl: "doc " + tag}}}}}, nil
		}).
		WithNow(func() time.Time { return now }).
		WithOutput(&c.buf)
	return c
}

// run runs the client's script and ends the client.
func (c *client) run(p *goja.Program) ran {
	if err := c.vm.Run(p); err != nil {
		c.o.err = err.Error()
	}
	c.vm.Release()
	c.o.out = strings.ReplaceAll(strings.ReplaceAll(c.buf.String(), ", ", ","), ": ", ":") // JSON spacing varies
	return c.o
}

// execJS runs a script in a fresh client.
func execJS(p *goja.Program, tag string) ran { return newClient(tag).run(p) }

func (o ran) String() string { return fmt.Sprintf("out=%q err=%q asked=%v", o.out, o.err, o.reqs) }

type scriptCase struct {
	tag  string
	p    *goja.Program
	want string
}

func propC21() *zv.Prop {
	make_ := func(t *zv.T, r *rand.Rand, n int) (o []scriptCase) {
		for i := 0; i < n; i++ {
			tag := fmt.Sprintf("t%d-%d", i, r.Intn(1000))
			limit, dayN := 1+r.Intn(9), 1+r.Intn(20000)
			src := strings.NewReplacer("TAG", tag, "LIMIT", fmt.Sprint(limit), "DAY", fmt.Sprint(dayN)).Replace(probe)
			d0 := time.Unix(int64(dayN)*86400, 0).UTC()
			p := program(t, src)
			got := execJS(p, tag)
			// What the probe must see of an untouched runtime, by itself.
			ls := strings.Split(got.out, "\n")
			t.Eval(1)
			if got.err != "" || len(ls) < 6 || ls[0] != "1 doc "+tag || ls[1] != "undefined,object,object,undefined,undefined,undefined" ||
				ls[2] != `2,4,6 x {"a":[1]} 2 [object Object]` || ls[3] != "5 false 0" || ls[5] != tag ||
				!strings.HasSuffix(got.out, "end "+tag+tag+"\n") || len(got.reqs) != 2 {
				t.Fatal("alone", "the probe sees a runtime that is not fresh: %s", got)
			}
			_ = d0
			o = append(o, scriptCase{tag, p, got.String()})
		}
		return
	}
	bad := func(t *zv.T, r *rand.Rand) *goja.Program {
		src := `import { Metrics, println } from "@requiemdb/rq";` + "\nconst g: any = globalThis;\n"
		for k := 1 + r.Intn(6); k > 0; k-- {
			src += "try { " + mischief[r.Intn(len(mischief))] + " } catch (e) {}\n"
		}
		if r.Intn(2) == 0 {
			src += "try { new Metrics('mine').limit(3).query(); println('mine') } catch (e) {}\n"
		}
		if r.Intn(3) == 0 {
			src += "throw new Error('mine')\n"
		}
		return program(t, src)
	}
	return &zv.Prop{
		ID:   "C21",
		Rule: "an execution runs generated scripts that damage their runtime in random ways (globals, prototypes, native objects, errors) before and beside probe scripts that print what they see, sequentially, nested in one another's scans and on parallel goroutines, each client with its own clock and documents; every probe's output and requests must equal those of the probe run alone in a fresh process state. Sequences count as distinct by scripts",
		Families: []zv.Family{
			{Name: "sequence", Quick: 800, Thorough: 15000, Run: func(t *zv.T) {
				ps := make_(t, t.Rand, 2)
				for k := 0; k < 8; k++ {
					execJS(bad(t, t.Rand), "bad")
					c := ps[t.Rand.Intn(len(ps))]
					got := execJS(c.p, c.tag).String()
					t.Eval(1)
					t.Distinct(t.Case.Seed, k)
					if got != c.want {
						t.Fatal("not-isolated", "after another script: %s\nalone: %s", got, c.want)
					}
				}
				t.Count("probes", 8)
				t.Sample(map[string]any{"probe_alone": clip(ps[0].want)})
			}},
			{Name: "held", Quick: 240, Thorough: 5000, Run: func(t *zv.T) {
				// clients that exist at the same time, whose scripts run in any
				// order, some of them while another's scan is being answered
				ps := make_(t, t.Rand, 3)
				type held struct {
					*client
					c *scriptCase
				}
				var hs []held
				for i := 0; i < 6; i++ {
					if t.Rand.Intn(3) == 0 {
						hs = append(hs, held{newClient("bad"), nil})
						continue
					}
					c := &ps[t.Rand.Intn(len(ps))]
					hs = append(hs, held{newClient(c.tag), c})
				}
				t.Rand.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
				depth := 0
				var next func()
				next = func() {
					if len(hs) == 0 {
						return
					}
					h := hs[0]
					hs = hs[1:]
					h.during = func() {
						if t.Rand.Intn(2) == 0 {
							t.Count("scripts_inside_another", 1)
							next()
						}
					}
					depth++
					t.Max("depth", depth)
					defer func() { depth-- }()
					if h.c == nil {
						h.run(bad(t, t.Rand))
						return
					}
					got := h.run(h.c.p).String()
					t.Eval(1)
					t.Distinct(t.Case.Seed, len(hs), depth)
					if got != h.c.want {
						t.Fatal("not-isolated", "among held clients: %s\nalone: %s", got, h.c.want)
					}
				}
				for len(hs) > 0 {
					next()
				}
			}},
			{Name: "parallel", Quick: 300, Thorough: 6000, Run: func(t *zv.T) {
				ps := make_(t, t.Rand, 3)
				var bads []*goja.Program
				for i := 0; i < 4; i++ {
					bads = append(bads, bad(t, t.Rand))
				}
				var wg sync.WaitGroup
				for g := 0; g < 6; g++ {
					r := rand.New(rand.NewSource(t.Rand.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								t.Fail("panic", "running scripts in parallel: %v", e)
							}
						}()
						for k := 0; k < 12; k++ {
							if r.Intn(2) == 0 {
								execJS(bads[r.Intn(len(bads))], "bad")
								continue
							}
							c := ps[r.Intn(len(ps))]
							got := execJS(c.p, c.tag).String()
							t.Eval(1)
							t.Count("probes", 1)
							if got != c.want {
								t.Fail("not-isolated", "beside other scripts: %s\nalone: %s", got, c.want)
								return
							}
						}
					}()
				}
				wg.Wait()
				t.Distinct(t.Case.Seed)
			}},
		},
	}
}
