package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"log/slog"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/gernest/requiemdb/internal/version"
	"github.com/gernest/requiemdb/internal/zverif/rqproc"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// told is what one server is told, and where it must be and keep its data then.
type told struct {
	home, cwd string // its home and working directory
	dir       string // its argument
	at        string // where its data must be
	addr      string
	level     string
	least     slog.Level
	marker    string

	args, env []string
	out, errs *os.File
	cmd       *exec.Cmd
	done      chan error
}

// bare is the environment without anything rq looks at.
func bare(home string, more ...string) (o []string) {
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "RQ_") && !strings.HasPrefix(e, "OTEL_") && !strings.HasPrefix(e, "HOME=") {
			o = append(o, e)
		}
	}
	return append(append(o, "HOME="+home), more...)
}

// both tells a value by flag, by the environment, or by a flag that wins over the environment.
func both(r *rand.Rand, flag, env, value, other string) (args, vars []string) {
	switch r.Intn(4) {
	case 0:
		return nil, []string{env + "=" + value}
	case 1:
		return []string{flag, value}, []string{env + "=" + other}
	case 2:
		return []string{flag + "=" + value}, nil
	default:
		return []string{flag, value}, nil
	}
}

var levels = []struct {
	name  string
	least slog.Level
}{{"debug", slog.LevelDebug}, {"info", slog.LevelInfo}, {"warn", slog.LevelWarn}, {"error", slog.LevelError},
	{"DEBUG", slog.LevelDebug}, {"Warn", slog.LevelWarn}, {"ERROR", slog.LevelError}, {"info+1", slog.LevelInfo + 1}, {"", slog.LevelInfo}}

func (x *told) tell(r *rand.Rand) {
	x.args, x.env = nil, nil
	if x.addr != "" {
		a, e := both(r, "--otlpListen", "RQ_OTLP_LISTEN", x.addr, rqproc.FreeAddr())
		x.args, x.env = append(x.args, a...), append(x.env, e...)
	}
	if x.level != "" {
		a, e := both(r, "--logLevel", "RQ_LOG_LEVEL", x.level, levels[r.Intn(4)].name)
		x.args, x.env = append(x.args, a...), append(x.env, e...)
	}
	if r.Intn(3) == 0 {
		a, e := both(r, "--retentionPeriod", "RQ_DATA_RETENTION_PERIOD", "48h", "24h")
		x.args, x.env = append(x.args, a...), append(x.env, e...)
	}
	if x.dir != "" {
		x.args = append(x.args, x.dir)
	}
}

func (x *told) start(t *zv.T, more ...string) {
	var err error
	x.out, err = os.CreateTemp(t.Dir, "out-*.log")
	t.Must(err)
	x.errs, err = os.CreateTemp(t.Dir, "errs-*.log")
	t.Must(err)
	x.cmd = exec.Command(os.Getenv("ZV_RQ"), x.args...)
	x.cmd.Dir, x.cmd.Env = x.cwd, bare(x.home, append(more, x.env...)...)
	x.cmd.Stdout, x.cmd.Stderr = x.out, x.errs
	x.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	t.Must(x.cmd.Start())
	pid := x.cmd.Process.Pid
	t.Cleanup(func() { syscall.Kill(-pid, syscall.SIGKILL) })
	done := make(chan error, 1)
	cmd := x.cmd
	go func() { done <- cmd.Wait() }()
	x.done = done
}

func (x *told) said() string {
	b, _ := os.ReadFile(x.out.Name())
	c, _ := os.ReadFile(x.errs.Name())
	b = append(b, c...)
	if len(b) > 2000 {
		b = b[len(b)-2000:]
	}
	return string(b)
}

func (x *told) how() string { return fmt.Sprintf("%q with %q in %s", x.args, x.env, x.cwd) }

// up waits until the server listens on the address.
func (x *told) up(t *zv.T, addr string) {
	for i := 0; i < 1200; i++ {
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
			return
		}
		select {
		case err := <-x.done:
			x.done <- err
			t.Fatal("start", "rq %s ended with %v: %s", x.how(), err, x.said())
		case <-time.After(50 * time.Millisecond):
		}
	}
	t.Fatal("address", "rq %s does not listen on %s: %s", x.how(), addr, x.said())
}

func (x *told) export(t *zv.T, addr string) {
	cc, err := grpc.NewClient(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	t.Must(err)
	defer cc.Close()
	_, err = collector_logs.NewLogsServiceClient(cc).Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: []*logsv1.ResourceLogs{{
		ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TimeUnixNano: uint64(time.Now().UnixNano()),
			Body: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: x.marker}}}}}}}}})
	if err != nil {
		t.Fatal("export", "a server told %s does not take a record: %v", x.how(), err)
	}
}

// ask runs a command against the server at addr, told in any way, or against the
// one on the address by default.
func ask(t *zv.T, r *rand.Rand, home, cwd, addr, command string, rest ...string) (string, string, error) {
	args, env := []string{command}, []string(nil)
	if addr != "" {
		a, e := both(r, "--remoteAddress", "RQ_REMOTE_ADDRESS", addr, rqproc.FreeAddr())
		args, env = append(args, a...), e
	}
	c := exec.CommandContext(ctx, os.Getenv("ZV_RQ"), append(args, rest...)...)
	c.Dir, c.Env = cwd, bare(home, env...)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	t.Must(c.Start())
	k := time.AfterFunc(2*time.Minute, func() { c.Process.Kill() })
	defer k.Stop()
	err := c.Wait()
	return o.String(), e.String(), err
}

// stop ends the server and judges its exit and what it wrote.
func (x *told) stop(t *zv.T, sig syscall.Signal) {
	x.cmd.Process.Signal(sig)
	select {
	case err := <-x.done:
		if err != nil {
			t.Fatal("exit", "rq %s ended with %v after %v: %s", x.how(), err, sig, x.said())
		}
	case <-time.After(100 * time.Second):
		t.Fatal("exit", "rq %s does not end after %v: %s", x.how(), sig, x.said())
	}
	f, err := os.Open(x.out.Name())
	t.Must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	n := 0
	for sc.Scan() {
		var l struct {
			Time  time.Time  `json:"time"`
			Level slog.Level `json:"level"`
			Msg   string     `json:"msg"`
		}
		n++
		t.Eval(1)
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil || l.Time.IsZero() || l.Msg == "" {
			t.Fatal("log", "rq %s writes %q to its log", x.how(), sc.Text())
		}
		if l.Level < x.least {
			t.Fatal("log-level", "rq %s logs %q", x.how(), sc.Text())
		}
	}
	t.Must(sc.Err())
	if n == 0 && x.least <= slog.LevelInfo {
		t.Fatal("log-level", "rq %s logs nothing at all", x.how())
	}
	t.Count("log_lines", n)
}

// elsewhere looks for files below the scratch directory which are in none of the places.
func elsewhere(t *zv.T, allowed []string, places ...string) {
	found := map[string]bool{}
	err := filepath.WalkDir(t.Dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		t.Eval(1)
		for _, x := range places {
			if p == x || strings.HasPrefix(p, x+"/") {
				found[x] = true
				return nil
			}
		}
		for _, x := range allowed {
			if strings.HasPrefix(p, x+"/") {
				return nil
			}
		}
		if d := filepath.Dir(p); d == t.Dir { // of the check
			return nil
		}
		t.Fail("elsewhere", "%s was written, data belongs into %q", p, places)
		return nil
	})
	t.Must(err)
	for _, p := range places {
		if !found[p] {
			t.Fail("elsewhere", "nothing was written to %s", p)
		}
	}
}

const ask35 = `import { Logs, println } from '@requiemdb/rq';
const d: any = new Logs().ago('1h').query();
const o: string[] = [];
const each = (x: any, f: (y: any) => void) => { for (let i = 0; x && i < x.length; i++) f(x[i]); };
each(d && d.resource_logs, r => each(r.scope_logs, s => each(s.log_records, l => o.push(l.body.GetStringValue()))));
println(JSON.stringify(o.sort()));
`

func configured(t *zv.T) {
	r := t.Rand
	script := filepath.Join(t.Dir, "ask.ts")
	t.Must(os.WriteFile(script, []byte(ask35), 0600))
	var all []*told
	var places []string
	n := 2 + r.Intn(2)
	shared := filepath.Join(t.Dir, "h0", "home")
	for i := 0; i < n; i++ {
		base := filepath.Join(t.Dir, fmt.Sprint("h", i))
		x := &told{home: shared, cwd: filepath.Join(base, "work"), marker: fmt.Sprintf("marker %d of %d", i, r.Int63())}
		if r.Intn(2) == 0 {
			x.home = filepath.Join(base, "home")
		}
		t.Must(os.MkdirAll(x.home, 0755))
		t.Must(os.MkdirAll(x.cwd, 0755))
		switch k := r.Intn(8); {
		case k == 0 && (i == 0 || x.home != shared): // one server by default in one home
			x.at = filepath.Join(x.home, ".rq")
		case k == 1:
			x.dir, x.at = "data", filepath.Join(x.cwd, "data")
		case k == 2:
			x.dir, x.at = "./a/b c/", filepath.Join(x.cwd, "a", "b c")
		case k == 3:
			x.dir, x.at = "../up", filepath.Join(base, "up")
		case k == 4:
			x.dir, x.at = filepath.Join(base, "dätä \n*"), filepath.Join(base, "dätä \n*")
		case k == 5:
			x.at = filepath.Join(base, "there", "already")
			t.Must(os.MkdirAll(x.at, 0700))
			x.dir = x.at + "/"
		case k == 6:
			x.dir, x.at = ".", x.cwd
		default:
			x.at = filepath.Join(base, "not", "there", "yet")
			x.dir = x.at
		}
		x.addr = rqproc.FreeAddr()
		l := levels[r.Intn(len(levels))]
		x.level, x.least = l.name, l.least
		all, places = append(all, x), append(places, x.at)
	}
	dial := func(x *told) string { return x.addr }
	lives := 1 + r.Intn(2)
	for life := 0; life < lives; life++ {
		for _, x := range all {
			x.tell(r)
			x.start(t)
		}
		for _, x := range all {
			x.up(t, dial(x))
			// it listens there only
			_, port, _ := net.SplitHostPort(x.addr)
			if c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, time.Second); err == nil {
				c.Close()
				t.Fatal("address", "a server told %s listens on port %s of every address", x.how(), port)
			}
			if life == 0 {
				x.export(t, dial(x))
			}
		}
		for _, x := range all {
			want := fmt.Sprintf("[%q]\n", x.marker)
			o, e, err := ask(t, r, x.home, x.cwd, dial(x), "version")
			t.Eval(1)
			if err != nil || strings.TrimSpace(o) != version.VERSION {
				t.Fatal("version", "rq version prints %q, fails with %v: %s", o, err, e)
			}
			for i := 0; ; i++ {
				o, e, err = ask(t, r, x.home, x.cwd, dial(x), "query", script)
				t.Eval(1)
				if err == nil && o == "[]\n" && life == 0 && i < 300 { // not saved yet
					time.Sleep(100 * time.Millisecond)
					continue
				}
				if err != nil || o != want {
					t.Fatal("answer", "a query of the server told %s prints %q instead of %q, fails with %v: %s", x.how(), o, want, err, e)
				}
				break
			}
			t.Count("queries", 1)
		}
		for _, x := range all {
			x.stop(t, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)])
		}
		caches := []string{}
		for _, x := range all { // compiled scripts
			caches = append(caches, filepath.Join(x.home, ".rq", "cache"))
		}
		elsewhere(t, caches, places...)
		// the same directory by another name
		for _, x := range all {
			if r.Intn(2) == 0 && x.dir != "" {
				x.dir = x.at
			}
			l := levels[r.Intn(len(levels))]
			x.level, x.least = l.name, l.least
		}
	}
	for _, x := range all {
		t.Distinct(x.args, x.env, x.dir)
	}
	t.Sample(map[string]any{"servers": n, "args": all[0].args, "env": all[0].env})
}

// refused starts servers which are told what can not be.
func refused(t *zv.T) {
	r := t.Rand
	x := &told{home: filepath.Join(t.Dir, "home"), cwd: filepath.Join(t.Dir, "work")}
	t.Must(os.MkdirAll(x.home, 0755))
	t.Must(os.MkdirAll(x.cwd, 0755))
	dir := filepath.Join(t.Dir, "dir")
	file := filepath.Join(t.Dir, "file")
	t.Must(os.WriteFile(file, []byte("mine"), 0600))
	addr := rqproc.FreeAddr()
	kind := r.Intn(8)
	switch kind {
	case 0:
		x.args = []string{"--otlpListen", addr, file}
	case 1:
		x.args = []string{"--otlpListen", addr, filepath.Join(file, "below")}
	case 2:
		x.args = []string{"--otlpListen", []string{"nonsense", "127.0.0.1:99999", "127.0.0.1:-4", "::1:4", "127.0.0.1:nonsense"}[r.Intn(5)], dir}
	case 3:
		x.env, x.args = []string{"RQ_OTLP_LISTEN=127.0.0.1:77777"}, []string{dir}
	case 4:
		x.args = []string{"--otlpListen", addr, "--retentionPeriod", "soon", dir}
	case 5:
		x.args = []string{"--otlpListen", addr, "--nothing", dir}
	case 6: // an index where there is a file
		t.Must(os.MkdirAll(filepath.Join(dir, "data"), 0755))
		t.Must(os.WriteFile(filepath.Join(dir, "data", "db"), []byte("mine"), 0600))
		x.args = []string{"--otlpListen", addr, dir}
	case 7: // a query of a server that is not there, or of no script
		x.args = []string{"query"}
		if r.Intn(2) == 0 {
			x.args = append(x.args, filepath.Join(t.Dir, "missing.ts"))
		}
		if r.Intn(3) == 0 {
			x.args = []string{"version", "--remoteAddress", addr}
		}
	}
	x.start(t)
	select {
	case err := <-x.done:
		if err == nil {
			t.Fail("refused", "rq %s ends as if all was well: %s", x.how(), x.said())
		}
		if x.said() == "" {
			t.Fail("refused", "rq %s ends with %v and does not say why", x.how(), err)
		}
		if b := x.said(); strings.Contains(b, "goroutine ") && strings.Contains(b, "panic") {
			t.Fail("refused", "rq %s panics: %s", x.how(), b)
		}
	case <-time.After(60 * time.Second):
		c, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			c.Close()
		}
		t.Fail("refused", "rq %s keeps running, listening on its address: %v", x.how(), err == nil)
	}
	if b, err := os.ReadFile(file); err != nil || string(b) != "mine" {
		t.Fail("refused", "a file at the place of the data is gone: %q %v", b, err)
	}
	t.Eval(1)
	t.Distinct(kind, fmt.Sprint(x.args[:1]))
}

// byDefault does what the README says, nothing is told.
func byDefault(t *zv.T) {
	lock, err := os.OpenFile(filepath.Join(os.TempDir(), "zv-4317.lock"), os.O_CREATE|os.O_RDWR, 0666)
	t.Must(err)
	defer lock.Close()
	t.Must(syscall.Flock(int(lock.Fd()), syscall.LOCK_EX))
	if c, err := net.DialTimeout("tcp", "127.0.0.1:4317", time.Second); err == nil {
		c.Close()
		t.Count("default_port_taken", 1)
		return
	}
	r := t.Rand
	x := &told{home: filepath.Join(t.Dir, "h", "home"), cwd: filepath.Join(t.Dir, "h", "work"), least: slog.LevelInfo, marker: fmt.Sprint("marker ", r.Int63())}
	x.at = filepath.Join(x.home, ".rq")
	t.Must(os.MkdirAll(x.home, 0755))
	t.Must(os.MkdirAll(x.cwd, 0755))
	x.start(t, "OTEL_METRIC_EXPORT_INTERVAL=300")
	x.up(t, "127.0.0.1:4317")
	x.export(t, "127.0.0.1:4317")
	cpu, script := filepath.Join(t.Dir, "cpu.ts"), filepath.Join(t.Dir, "ask.ts")
	t.Must(os.WriteFile(cpu, []byte("import { Metrics } from \"@requiemdb/rq\";\nMetrics.render(\n    (new Metrics()).\n        name(\"system.cpu.time\").\n        query()\n)\n"), 0600))
	t.Must(os.WriteFile(script, []byte(ask35), 0600))
	for i := 0; ; i++ {
		o, e, err := ask(t, r, x.home, x.cwd, "", "query", cpu)
		t.Eval(1)
		if err == nil && strings.Contains(o, "system.cpu.time\n") && strings.Contains(o, `state = "idle"`) && strings.Contains(o, `state = "user"`) {
			break
		}
		if err != nil || i > 300 {
			t.Fatal("readme", "the script of the README prints %q, fails with %v: %s", o, err, e)
		}
		time.Sleep(200 * time.Millisecond)
	}
	o, e, err := ask(t, r, x.home, x.cwd, "", "version")
	if err != nil || strings.TrimSpace(o) != version.VERSION {
		t.Fatal("version", "rq version prints %q, fails with %v: %s", o, err, e)
	}
	for i := 0; ; i++ {
		o, e, err = ask(t, r, x.home, x.cwd, "", "query", script)
		if err == nil && o == "[]\n" && i < 300 {
			time.Sleep(100 * time.Millisecond)
			continue
		}
		if err != nil || o != fmt.Sprintf("[%q]\n", x.marker) {
			t.Fatal("answer", "a query by default prints %q instead of %q, fails with %v: %s", o, x.marker, err, e)
		}
		break
	}
	x.stop(t, syscall.SIGTERM)
	elsewhere(t, nil, x.at)
	t.Count("by_default", 1)
	t.Distinct("default", t.Case.Seed)
}

func propC35() *zv.Prop {
	return &zv.Prop{
		ID:   "C35",
		Rule: "an execution runs two or three real servers told their directory, address and log level by flag, environment, both or neither, in homes and working directories of their own or shared, restarts them told otherwise, and asks each by rq version and rq query; or a server told what can not be; or the steps of the README. Executions count as distinct by what was told",
		Families: []zv.Family{
			{Name: "configured", Quick: 40, Thorough: 600, Run: configured},
			{Name: "refused", Quick: 48, Thorough: 600, Run: refused},
			{Name: "default", Quick: 3, Thorough: 20, Run: byDefault},
		},
	}
}
