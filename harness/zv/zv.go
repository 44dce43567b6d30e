// Package zv is the runtime of the monitors: it plans cases, runs them in
// worker processes, collects what the monitors observed and turns oracle
// verdicts into VIOLATION / KNOWN-FINDING lines and an evidence file.
//
// The package lives in /verif and is compiled into gernest/requiemdb's module
// through `go build -overlay`.
package zv

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/coverage"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Family is a group of generated cases decided by one oracle. Count gives the
// number of cases per tier; everything a case does derives from its seed.
type Family struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(t *T)
}

// Prop is one property and the families of executions that decide it.
type Prop struct {
	ID       string
	Level    string // exploration when empty
	Rule     string
	Assume   []string
	Families []Family
	// Workers bounds the parallel worker processes (default 6).
	Workers int
	// StallSec is how long a single case may run without finishing before the
	// watchdog stops it (default 150 s); it is retried alone before it counts.
	StallSec int
	// Race marks a property decided in a race-detector build.
	Race bool
}

// CaseRef identifies one execution.
type CaseRef struct {
	Family string `json:"family"`
	Index  int    `json:"index"`
	Seed   int64  `json:"seed"`
}

// T is handed to a case.
type T struct {
	Case CaseRef
	Tier string
	Rand *rand.Rand
	Dir  string // scratch directory, removed afterwards

	mu       sync.Mutex
	evals    int64
	counters map[string]int64
	distinct map[uint64]struct{}
	sample   any
	viol     []Violation
	cleanup  []func()
	verbose  bool
}

// Violation is one oracle verdict against the property.
type Violation struct {
	Sig    string  `json:"sig"`
	Msg    string  `json:"msg"`
	Case   CaseRef `json:"case"`
	Detail string  `json:"detail,omitempty"`
}

type abort struct{}

// Fail records a violation and goes on. sig names the kind of failure.
func (t *T) Fail(sig, format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.viol) < 8 {
		t.viol = append(t.viol, Violation{Sig: sig, Msg: clip(fmt.Sprintf(format, args...), 4000), Case: t.Case})
	}
}

// Fatal records a violation and ends the case.
func (t *T) Fatal(sig, format string, args ...any) {
	t.Fail(sig, format, args...)
	panic(abort{})
}

// Broken ends the case because of the harness or the environment (not a verdict).
func (t *T) Broken(format string, args ...any) {
	panic(fmt.Errorf("HARNESS: "+format, args...))
}

// Must is Broken on error, for harness plumbing only.
func (t *T) Must(err error) {
	if err != nil {
		t.Broken("%v", err)
	}
}

// Failed tells if a violation was recorded.
func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.viol) > 0
}

// Eval counts oracle evaluations.
func (t *T) Eval(n int) { atomic.AddInt64(&t.evals, int64(n)) }

// Count adds to a named counter of observed events.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.counters[name] += int64(n)
	t.mu.Unlock()
}

// Max keeps the maximum of a named observation.
func (t *T) Max(name string, n int) {
	t.mu.Lock()
	if t.counters["max:"+name] < int64(n) {
		t.counters["max:"+name] = int64(n)
	}
	t.mu.Unlock()
}

// Distinct records that a non-trivial state, input or interleaving with this
// identity was observed.
func (t *T) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	t.mu.Lock()
	t.distinct[h.Sum64()] = struct{}{}
	t.mu.Unlock()
}

// Sample offers a written-out case for the evidence file.
func (t *T) Sample(v any) {
	t.mu.Lock()
	if t.sample == nil {
		t.sample = v
	}
	t.mu.Unlock()
}

// Cleanup runs f at the end of the case, last registered first.
func (t *T) Cleanup(f func()) { t.cleanup = append(t.cleanup, f) }

// Logf prints in replay mode.
func (t *T) Logf(format string, args ...any) {
	if t.verbose {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type result struct {
	Case     CaseRef          `json:"case"`
	Start    bool             `json:"start,omitempty"`
	Evals    int64            `json:"evals,omitempty"`
	Counters map[string]int64 `json:"counters,omitempty"`
	Distinct []uint64         `json:"distinct,omitempty"`
	Sample   json.RawMessage  `json:"sample,omitempty"`
	Viol     []Violation      `json:"viol,omitempty"`
	Broken   string           `json:"broken,omitempty"`
}

func caseSeed(base int64, prop, family string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", base, prop, family, i)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// plan lists the cases of a tier in a fixed, interleaved order.
func plan(p *Prop, tier string, base int64) []CaseRef {
	var ls []CaseRef
	max := 0
	count := func(f *Family) int {
		if tier == "thorough" {
			return f.Thorough
		}
		return f.Quick
	}
	for i := range p.Families {
		if n := count(&p.Families[i]); n > max {
			max = n
		}
	}
	for i := 0; i < max; i++ {
		for j := range p.Families {
			f := &p.Families[j]
			if i < count(f) {
				ls = append(ls, CaseRef{Family: f.Name, Index: i, Seed: caseSeed(base, p.ID, f.Name, i)})
			}
		}
	}
	return ls
}

func runCase(p *Prop, c CaseRef, tier string, verbose bool) (res result) {
	res.Case = c
	var fam *Family
	for i := range p.Families {
		if p.Families[i].Name == c.Family {
			fam = &p.Families[i]
		}
	}
	if fam == nil {
		res.Broken = "unknown family " + c.Family
		return
	}
	dir, err := os.MkdirTemp("", "zv-"+p.ID+"-")
	if err != nil {
		res.Broken = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	t := &T{
		Case: c, Tier: tier, Dir: dir, verbose: verbose,
		Rand:     rand.New(rand.NewSource(c.Seed)),
		counters: map[string]int64{}, distinct: map[uint64]struct{}{},
	}
	if !p.Race {
		zone(c.Seed)
	}
	func() {
		defer func() {
			for i := len(t.cleanup) - 1; i >= 0; i-- {
				func() {
					defer func() { recover() }()
					t.cleanup[i]()
				}()
			}
		}()
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abort); ok {
					return
				}
				if err, ok := e.(error); ok && strings.HasPrefix(err.Error(), "HARNESS: ") {
					res.Broken = err.Error() + "\n" + string(debug.Stack())
					return
				}
				t.Fail("panic", "panic in the code under test: %v\n%s", e, shortStack())
			}
		}()
		fam.Run(t)
	}()
	t.mu.Lock()
	defer t.mu.Unlock()
	res.Evals = t.evals
	res.Counters = t.counters
	for d := range t.distinct {
		res.Distinct = append(res.Distinct, d)
	}
	if t.sample != nil {
		if b, err := json.Marshal(t.sample); err == nil && len(b) < 6000 {
			res.Sample = b
		}
	}
	res.Viol = t.viol
	return
}

var zones = []string{"UTC", "Asia/Kolkata", "America/St_Johns", "Pacific/Kiritimati", "UTC", "America/Los_Angeles", "Asia/Kathmandu", "Pacific/Marquesas"}

// zone lets the process, and those it starts, run where clocks are not on UTC:
// no property depends on the place where the database runs.
func zone(seed int64) {
	name := zones[uint64(seed)>>7%uint64(len(zones))]
	if l, err := time.LoadLocation(name); err == nil {
		time.Local = l
		os.Setenv("TZ", name)
	}
}

func shortStack() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	var o []string
	for i := 0; i < len(ls); i++ {
		if strings.Contains(ls[i], "requiemdb/") && !strings.Contains(ls[i], "/zverif/zv") {
			o = append(o, ls[i])
		}
	}
	if len(o) > 14 {
		o = o[:14]
	}
	return strings.Join(o, "\n")
}

// Known is one entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	Family   string `json:"family,omitempty"`
	What     string `json:"what"`
}

func loadKnown(path, prop string) []Known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var o []Known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop {
			o = append(o, k)
		}
	}
	return o
}

// Children are the programs a harness binary can run as a child process of a
// case (to be killed, for example).
var Children = map[string]func(args []string){}

// Child prepares a child process running Children[name].
func (t *T) Child(name string, args ...string) *exec.Cmd {
	exe, err := os.Executable()
	t.Must(err)
	cmd := exec.Command(exe, append([]string{"-child", name}, args...)...)
	cmd.Dir = t.Dir
	return cmd
}

// Main is the entry point of a harness binary.
func Main(props ...*Prop) {
	id := flag.String("prop", "", "property")
	worker := flag.String("worker", "", "internal: i/n[/skip]")
	replay := flag.String("replay", "", "replay file to run again")
	one := flag.String("case", "", "internal: run a single case (json)")
	verif := flag.String("verif", "/verif", "directory of the framework")
	fam := flag.String("family", "", "restrict to a family (development)")
	child := flag.String("child", "", "internal: run a child program")
	flag.Parse()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if *child != "" {
		Children[*child](flag.Args())
		os.Exit(0)
	}
	var p *Prop
	for _, x := range props {
		if x.ID == *id {
			p = x
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	if *fam != "" {
		var fs []Family
		for _, f := range p.Families {
			if f.Name == *fam {
				fs = append(fs, f)
			}
		}
		p.Families = fs
	}
	switch {
	case *replay != "":
		os.Exit(doReplay(p, *replay, tier))
	case *one != "":
		var c CaseRef
		if json.Unmarshal([]byte(*one), &c) != nil {
			os.Exit(2)
		}
		doWorker(p, []CaseRef{c}, tier)
	case *worker != "":
		var i, n, skip int
		fmt.Sscanf(*worker, "%d/%d/%d", &i, &n, &skip)
		all := plan(p, tier, seed)
		var mine []CaseRef
		for j, c := range all {
			if j%n == i {
				mine = append(mine, c)
			}
		}
		if skip > len(mine) {
			skip = len(mine)
		}
		doWorker(p, mine[skip:], tier)
	default:
		os.Exit(parent(p, tier, seed, *verif))
	}
}

func doReplay(p *Prop, path, tier string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := runCase(p, v.Case, tier, true)
	if r.Broken != "" {
		fmt.Fprintln(os.Stderr, r.Broken)
		return 2
	}
	for _, v := range r.Viol {
		fmt.Printf("%s: %s\n", v.Sig, v.Msg)
	}
	if len(r.Viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Println("replayed: no violation")
	return 0
}

func doWorker(p *Prop, cases []CaseRef, tier string) {
	// processes this worker starts must not hold the parent's pipe open
	syscall.CloseOnExec(3)
	out := os.NewFile(3, "events")
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	for _, c := range cases {
		enc.Encode(result{Case: c, Start: true})
		w.Flush()
		r := runCase(p, c, tier, false)
		enc.Encode(r)
		w.Flush()
	}
	if d := os.Getenv("ZV_COVER"); d != "" { // in a binary built with -cover
		coverage.WriteMetaDir(d)
		coverage.WriteCountersDir(d)
	}
	os.Exit(0)
}

type agg struct {
	mu       sync.Mutex
	cases    int
	evals    int64
	counters map[string]int64
	distinct map[uint64]struct{}
	families map[string]int
	samples  []json.RawMessage
	sampFam  map[string]int
	viol     []Violation
	broken   []string
	raceRpt  map[string]string
	known    []Known
	begin    time.Time
}

func (a *agg) isKnown(v *Violation) *Known {
	for i, k := range a.known {
		if k.Sig == v.Sig && (k.Family == "" || k.Family == v.Case.Family) {
			return &a.known[i]
		}
	}
	return nil
}

// over tells that there is a verdict and it took long enough: what violates a
// property often waits for something that never comes.
func (a *agg) over() bool {
	if time.Since(a.begin) < 4*time.Minute {
		return false
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	for i := range a.viol {
		if a.isKnown(&a.viol[i]) == nil {
			return true
		}
	}
	return false
}

func (a *agg) add(r *result) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.cases++
	a.evals += r.Evals
	a.families[r.Case.Family]++
	for k, v := range r.Counters {
		if strings.HasPrefix(k, "max:") {
			if a.counters[k] < v {
				a.counters[k] = v
			}
			continue
		}
		a.counters[k] += v
	}
	for _, d := range r.Distinct {
		a.distinct[d] = struct{}{}
	}
	if r.Sample != nil && a.sampFam[r.Case.Family] < 1 && len(a.samples) < 8 {
		a.sampFam[r.Case.Family]++
		a.samples = append(a.samples, r.Sample)
	}
	a.viol = append(a.viol, r.Viol...)
	if r.Broken != "" {
		a.broken = append(a.broken, r.Broken)
	}
}

func (a *agg) violate(v Violation) {
	a.mu.Lock()
	a.viol = append(a.viol, v)
	a.mu.Unlock()
}

// runProc runs a worker process; it returns the number of finished cases, the
// case it died or stalled in (if any) and why.
func runProc(p *Prop, a *agg, args []string, stall time.Duration, raceLog string) (done int, died *CaseRef, why string) {
	exe, _ := os.Executable()
	pr, pw, err := os.Pipe()
	if err != nil {
		return 0, nil, err.Error()
	}
	cmd := exec.Command(exe, args...)
	cmd.ExtraFiles = []*os.File{pw}
	errf, _ := os.CreateTemp("", "zv-err-")
	defer func() { errf.Close(); os.Remove(errf.Name()) }()
	cmd.Stdout = errf
	cmd.Stderr = errf
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+raceLog)
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return 0, nil, err.Error()
	}
	pw.Close()
	var last atomic.Int64
	last.Store(time.Now().UnixNano())
	var stalled, over atomic.Bool
	quit := make(chan struct{})
	go func() {
		tk := time.NewTicker(time.Second)
		defer tk.Stop()
		for {
			select {
			case <-quit:
				return
			case <-tk.C:
				if a.over() {
					over.Store(true)
					cmd.Process.Kill()
					return
				}
				if time.Since(time.Unix(0, last.Load())) > stall {
					stalled.Store(true)
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	var cur *CaseRef
	dec := json.NewDecoder(bufio.NewReaderSize(pr, 1<<16))
	for {
		var r result
		if err := dec.Decode(&r); err != nil {
			break
		}
		last.Store(time.Now().UnixNano())
		if r.Start {
			c := r.Case
			cur = &c
			continue
		}
		cur = nil
		done++
		a.add(&r)
	}
	werr := cmd.Wait()
	close(quit)
	pr.Close()
	if over.Load() || cur == nil && werr == nil {
		return done, nil, ""
	}
	tail := readTail(errf.Name(), 6000)
	switch {
	case stalled.Load():
		why = "stalled"
	case werr != nil:
		why = "process died: " + werr.Error() + "\n" + tail
	default:
		why = "process ended early\n" + tail
	}
	if cur == nil {
		cur = &CaseRef{Family: "(between cases)"}
	}
	return done, cur, why
}

func readTail(path string, n int64) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	head := make([]byte, n/2)
	k, _ := f.ReadAt(head, 0)
	head = head[:k]
	st, _ := f.Stat()
	if st.Size() <= n {
		b, _ := io.ReadAll(f)
		return string(b)
	}
	tail := make([]byte, n/2)
	f.ReadAt(tail, st.Size()-n/2)
	return string(head) + "\n...\n" + string(tail)
}

func parent(p *Prop, tier string, seed int64, verif string) int {
	start := time.Now()
	all := plan(p, tier, seed)
	a := &agg{counters: map[string]int64{}, distinct: map[uint64]struct{}{}, families: map[string]int{}, sampFam: map[string]int{},
		known: loadKnown(filepath.Join(verif, "known_findings.jsonl"), p.ID), begin: start}
	n := p.Workers
	if n == 0 {
		n = 6
	}
	if n > len(all) {
		n = len(all)
	}
	stall := time.Duration(p.StallSec) * time.Second
	if stall == 0 {
		stall = 150 * time.Second
	}
	scratch, err := os.MkdirTemp("", "zv-parent-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	// Processes that outlive their worker (a killed worker cannot clean up)
	// become children of this process and are ended with it.
	const prSetChildSubreaper = 36
	syscall.RawSyscall(syscall.SYS_PRCTL, prSetChildSubreaper, 1, 0)
	defer os.RemoveAll(scratch)
	defer endChildren()
	os.Setenv("TMPDIR", scratch)
	raceLog := filepath.Join(scratch, "race")
	fam := ""
	for i, x := range os.Args {
		if x == "-family" {
			fam = os.Args[i+1]
		}
	}
	const killed = "process died: signal: killed"
	var alone sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			skip, deaths := 0, 0
			for {
				args := []string{"-prop", p.ID, "-worker", fmt.Sprintf("%d/%d/%d", i, n, skip)}
				if fam != "" {
					args = append(args, "-family", fam)
				}
				done, died, why := runProc(p, a, args, stall, raceLog)
				if died == nil {
					if why != "" {
						a.mu.Lock()
						a.broken = append(a.broken, why)
						a.mu.Unlock()
					}
					return
				}
				skip += done + 1
				if why == "stalled" {
					// Confirm alone, away from the load of the other workers.
					b, _ := json.Marshal(died)
					d2, died2, why2 := runProc(p, a, []string{"-prop", p.ID, "-case", string(b)}, 2*stall, raceLog)
					if d2 == 0 && died2 != nil && why2 == "stalled" {
						a.violate(Violation{Sig: "hang", Case: *died, Msg: fmt.Sprintf("the execution did not finish within %v, twice (it normally takes well under a second)", 2*stall)})
					} else if died2 != nil {
						a.violate(Violation{Sig: "crash", Case: *died2, Msg: why2})
					}
				} else if strings.HasPrefix(why, killed) {
					// Someone else's doing, such as memory running out because of
					// everything that runs here, unless it happens again alone.
					alone.Lock()
					b, _ := json.Marshal(died)
					_, died2, why2 := runProc(p, a, []string{"-prop", p.ID, "-case", string(b)}, 2*stall, raceLog)
					alone.Unlock()
					if died2 != nil {
						a.violate(Violation{Sig: "crash", Case: *died2, Msg: why2})
					}
					continue
				} else {
					a.violate(Violation{Sig: "crash", Case: *died, Msg: why})
				}
				deaths++
				if deaths >= 3 {
					return
				}
			}
		}(i)
	}
	wg.Wait()
	races := collectRaces(raceLog)
	for _, r := range races {
		a.violate(Violation{Sig: "race:" + r.sig, Msg: r.text})
	}
	return a.report(p, tier, seed, verif, len(all), time.Since(start))
}

// endChildren ends every process whose parent is this one.
func endChildren() {
	self := strconv.Itoa(os.Getpid())
	for round := 0; round < 5; round++ {
		n := 0
		stats, _ := filepath.Glob("/proc/[0-9]*/stat")
		for _, f := range stats {
			b, _ := os.ReadFile(f)
			i := strings.LastIndexByte(string(b), ')')
			if i < 0 {
				continue
			}
			w := strings.Fields(string(b[i+1:]))
			if len(w) < 2 || w[1] != self {
				continue
			}
			if pid, err := strconv.Atoi(filepath.Base(filepath.Dir(f))); err == nil {
				syscall.Kill(pid, syscall.SIGKILL)
				var ws syscall.WaitStatus
				syscall.Wait4(pid, &ws, 0, nil)
				n++
			}
		}
		if n == 0 {
			return
		}
	}
}

type race struct{ sig, text string }

// collectRaces reads the race detector's reports and deduplicates them by the
// first repository frame of each side.
func collectRaces(prefix string) (o []race) {
	files, _ := filepath.Glob(prefix + ".*")
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			var fr []string
			take := false
			for _, l := range strings.Split(blk, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
					take = true
					continue
				}
				if strings.HasPrefix(l, "Goroutine") {
					break
				}
				if take && strings.HasPrefix(l, "github.com/gernest/") && !strings.Contains(l, "/zverif/") {
					fr = append(fr, strings.TrimSuffix(l, "()"))
					take = false
				}
			}
			sort.Strings(fr)
			sig := strings.Join(fr, "|")
			if seen[sig] || sig == "" { // no side is in the repository's code
				continue
			}
			seen[sig] = true
			o = append(o, race{sig, clip(strings.TrimSpace(blk), 5000)})
		}
	}
	return
}

func (a *agg) report(p *Prop, tier string, seed int64, verif string, planned int, wall time.Duration) int {
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, p.ID+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	sort.SliceStable(a.viol, func(i, j int) bool {
		if a.viol[i].Sig != a.viol[j].Sig {
			return a.viol[i].Sig < a.viol[j].Sig
		}
		return a.viol[i].Case.Index < a.viol[j].Case.Index
	})
	unknown := 0
	hitKnown := map[string]string{}
	printed := map[string]bool{}
	for _, v := range a.viol {
		if k := a.isKnown(&v); k != nil {
			hitKnown[k.Sig+k.Family] = k.What
			continue
		}
		unknown++
		key := v.Sig + "/" + v.Case.Family
		if printed[key] || len(printed) >= 6 {
			continue
		}
		printed[key] = true
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, len(printed)))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("-- %s family=%s case=%d seed=%d: %s\n", v.Sig, v.Case.Family, v.Case.Index, v.Case.Seed, clip(v.Msg, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	for _, k := range a.known {
		// A listed finding is reported as such whether or not this run's cases reached it again.
		if _, ok := hitKnown[k.Sig+k.Family]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	obs := map[string]any{}
	for k, v := range a.counters {
		obs[k] = v
	}
	samples := []any{}
	for _, s := range a.samples {
		samples = append(samples, s)
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations":         a.evals,
			"distinct_nontrivial": len(a.distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"executions":          a.cases,
			"executions_planned":  planned,
			"by_family":           a.families,
			"observed":            obs,
			"race_detector":       p.Race,
		},
		"wall_s":     wall.Seconds(),
		"violations": unknown,
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d/%d executions, %d oracle evaluations, %d distinct non-trivial, %d violation(s), %.1fs\n",
		p.ID, tier, a.cases, planned, a.evals, len(a.distinct), unknown, wall.Seconds())
	if unknown > 0 {
		return 1
	}
	if len(a.broken) > 0 {
		fmt.Fprintf(os.Stderr, "%d executions broken in the harness, first:\n%s\n", len(a.broken), a.broken[0])
		return 2
	}
	if a.cases < planned || a.evals == 0 || len(a.distinct) < 2 {
		fmt.Fprintln(os.Stderr, "the run observed too little to say anything")
		return 2
	}
	return 0
}
