package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

// query runs `rq query` on a file; killed ones are stopped after the delay.
func query(t *zv.T, home, file, addr string, kill time.Duration) (out, errs string, ok, died bool) {
	return queryUnder(t, nil, home, file, addr, kill)
}

// queryUnder runs the query by another command, such as a tracer.
func queryUnder(t *zv.T, under []string, home, file, addr string, kill time.Duration) (out, errs string, ok, died bool) {
	bin := os.Getenv("ZV_RQ")
	if bin == "" {
		t.Broken("ZV_RQ is not set")
	}
	c, cancel := context.WithTimeout(ctx, 2*time.Minute)
	defer cancel()
	args, env := []string{"query"}, []string(nil)
	if addr != "" {
		if t.Case.Seed&1 == 0 {
			args = append(args, "--remoteAddress", addr)
		} else {
			env = append(env, "RQ_REMOTE_ADDRESS="+addr)
		}
	}
	var global []string
	if pick := uint64(t.Case.Seed) >> 1 % 8; pick < 4 { // how much it logs is no matter
		level := []string{"debug", "info", "warn", "error"}[pick]
		if t.Case.Seed>>4&1 == 0 {
			global = []string{"--logLevel", level}
		} else {
			env = append(env, "RQ_LOG_LEVEL="+level)
		}
	}
	dir := ""
	if t.Case.Seed>>5&1 == 0 { // as it is typed
		dir, file = filepath.Split(file)
	}
	line := append(append(append([]string{}, under...), bin), append(append(global, args...), file)...)
	cmd := exec.CommandContext(c, line[0], line[1:]...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	tmp := filepath.Join(home, "tmp")
	os.MkdirAll(tmp, 0o755)
	cmd.Env = append(append(os.Environ(), env...), "HOME="+home, "TMPDIR="+tmp)
	if err := cmd.Start(); err != nil {
		t.Broken("start rq query: %v", err)
	}
	if kill > 0 {
		go func() { time.Sleep(kill); cmd.Process.Signal(syscall.SIGKILL) }()
	}
	err := cmd.Wait()
	if c.Err() != nil {
		t.Fatal("query-hang", "rq query %s does not end: %s", file, clip(e.String()))
	}
	if st, is := cmd.ProcessState.Sys().(syscall.WaitStatus); is && st.Signaled() {
		died = true
	}
	return o.String(), e.String(), err == nil, died
}

type printing struct {
	src, want string
	bad       bool
}

// printed is a script that needs no server, and what it prints.
func printed(t *zv.T, r *rand.Rand, n int) printing {
	pad := strings.Repeat("x", r.Intn(40))
	switch r.Intn(10) {
	case 7, 8, 9:
		src, want := language(t, r)
		return printing{src: src, want: want}
	case 6: // long output
		k, w := 1+r.Intn(30000), strings.Repeat("y", r.Intn(80))
		o := strings.Repeat(w+"\n", k)
		return printing{src: fmt.Sprintf("import { println } from '@requiemdb/rq';\nfor (let i = 0; i < %d; i++) println('%s');\nprintln(%d);", k, w, n), want: o + fmt.Sprintf("%d\n", n)}
	case 0:
		return printing{src: fmt.Sprintf("import { println } from \"@requiemdb/rq\";\nprintln(\"%d %s\");\n", n, pad), want: fmt.Sprintf("%d %s\n", n, pad)}
	case 1:
		return printing{src: fmt.Sprintf("import { print } from '@requiemdb/rq'; interface A { x: number }\nconst a: A = { x: %d }; print(a.x + 1, '%s');", n, pad), want: fmt.Sprintf("%d%s", n+1, pad)}
	case 2: // large
		k := 500 + r.Intn(3000)
		return printing{src: fmt.Sprintf("import { println } from '@requiemdb/rq';\nconst xs: string[] = [];\n%sprintln(xs.length, %d);", strings.Repeat("xs.push('abcdefgh');\n", k), n), want: fmt.Sprintf("%d %d\n", k, n)}
	case 3: // does not compile
		return printing{src: fmt.Sprintf("import { println } from '@requiemdb/rq';\nprintln('%d'); const = ;", n), bad: true}
	case 4: // no such package
		return printing{src: fmt.Sprintf("import { println } from '@requiemdb/rq'; import x from 'fs-%d';\nprintln(x);", n), bad: true}
	default: // fails half way
		return printing{src: fmt.Sprintf("import { println } from '@requiemdb/rq';\nprintln('before %d'); throw new Error('e%d');", n, n), want: fmt.Sprintf("before %d\n", n), bad: true}
	}
}

func (p printing) judge(t *zv.T, where, out, errs string, ok bool) {
	t.Eval(1)
	switch {
	case out != p.want:
		t.Fatal("wrong-output", "%s: want %q got %q (stderr %s)\n%s", where, clip(p.want), clip(out), clip(errs), clip(p.src))
	case ok == p.bad:
		t.Fatal("wrong-exit", "%s: success=%v of a script that is bad=%v (stderr %s)\n%s", where, ok, p.bad, clip(errs), clip(p.src))
	case p.bad && errs == "":
		t.Fatal("silent", "%s: failed without a word\n%s", where, clip(p.src))
	}
}

// tidy: nothing but the cache stays behind.
func tidy(t *zv.T, home string, killed bool) {
	t.Eval(1)
	if ls, _ := os.ReadDir(filepath.Join(home, "tmp")); len(ls) > 0 && !killed {
		t.Fatal("left-behind", "%d temporary files stay, such as %s", len(ls), ls[0].Name())
	}
}

func propC28() *zv.Prop {
	write := func(t *zv.T, dir string, i int, src string) string {
		f := filepath.Join(dir, fmt.Sprintf("s%d.%s", i, "ts"))
		t.Must(os.WriteFile(f, []byte(src), 0o644))
		return f
	}
	history := func(t *zv.T) {
		r := t.Rand
		home := t.Dir
		var ps []printing
		for i := 0; i < 5; i++ {
			ps = append(ps, printed(t, r, r.Intn(1000)*10+i))
		}
		killed := false
		for k := 0; k < 14; k++ {
			i := r.Intn(len(ps))
			file := write(t, home, 0, ps[i].src) // the same file, with other content
			if r.Intn(3) == 0 {
				file = write(t, home, i+1, ps[i].src)
			}
			if r.Intn(4) == 0 {
				_, _, _, died := query(t, home, file, "", time.Duration(1+r.Intn(40000))*time.Microsecond)
				if died {
					killed = true
					t.Count("killed_runs", 1)
				}
				continue
			}
			out, errs, ok, _ := query(t, home, file, "", 0)
			ps[i].judge(t, fmt.Sprintf("run %d", k), out, errs, ok)
			t.Count("runs", 1)
		}
		tidy(t, home, killed)
		t.Distinct(t.Case.Seed)
		t.Sample(map[string]any{"script": clip(ps[0].src), "prints": clip(ps[0].want)})
	}
	parallel := func(t *zv.T) {
		home := t.Dir
		var ps []printing
		var files []string
		for i := 0; i < 3; i++ {
			ps = append(ps, printed(t, t.Rand, t.Rand.Intn(1000)*10+i))
			files = append(files, write(t, home, i, ps[i].src))
		}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			r := rand.New(rand.NewSource(t.Rand.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil && !t.Failed() {
						t.Fail("panic", "%v", e)
					}
				}()
				for k := 0; k < 3; k++ {
					i := r.Intn(len(ps))
					out, errs, ok, _ := query(t, home, files[i], "", 0)
					ps[i].judge(t, "beside other processes", out, errs, ok)
					t.Count("runs", 1)
				}
			}()
		}
		wg.Wait()
		tidy(t, home, false)
		t.Distinct(t.Case.Seed)
	}
	// die on entering the n-th system call of a kind, then go on as if nothing happened
	killed := func(t *zv.T) {
		r := t.Rand
		p := printed(t, r, r.Intn(1000)*10)
		for p.bad && r.Intn(4) > 0 {
			p = printed(t, r, r.Intn(1000)*10)
		}
		file := write(t, t.Dir, 0, p.src)
		for round := 1 + r.Intn(2); round > 0; round-- {
			call := []string{"write,pwrite64,writev", "write,pwrite64,writev", "close", "renameat,rename,renameat2,unlinkat,unlink,linkat", "openat", "fsync,fchmod,fchmodat"}[r.Intn(6)]
			n := 1 + r.Intn(map[string]int{"close": 40, "openat": 60}[call]+12)
			_, _, ok, died := queryUnder(t, []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call,
				"-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, n)}, t.Dir, file, "", 0)
			if died || !ok {
				t.Count("runs_killed_at_a_system_call", 1)
				t.Distinct(call, n)
			}
		}
		for k := 0; k < 2; k++ {
			out, errs, ok, _ := query(t, t.Dir, file, "", 0)
			p.judge(t, "after a killed run", out, errs, ok)
		}
	}
	collide := func(t *zv.T) {
		pre := `import { println } from "@requiemdb/rq"; println("`
		a, b := gen.Colliding(t.Rand, pre, t.Rand.Intn(9))
		for strings.ContainsAny(a+b, "\"\\") {
			a, b = gen.Colliding(t.Rand, pre, t.Rand.Intn(9))
		}
		for i, x := range []string{a, b, a} {
			p := printing{src: pre + x + "\")\n", want: x + "\n"}
			out, errs, ok, _ := query(t, t.Dir, write(t, t.Dir, i, p.src), "", 0)
			p.judge(t, "script with an equal hash", out, errs, ok)
		}
		t.Count("colliding_pairs", 1)
		t.Distinct(a, b)
	}
	return &zv.Prop{
		ID:   "C28",
		Rule: "an execution runs generated scripts (printing, large, not compiling, failing half way, with colliding hashes) through the real rq query binary with one home directory, repeatedly, from a file whose content changes, from parallel processes, and after runs killed at random moments; executions count as distinct by seed. The oracle knows the exact output and outcome of each script",
		Families: []zv.Family{
			{Name: "compiled", Quick: 400, Thorough: 20000, Run: compiled},
			{Name: "history", Quick: 200, Thorough: 6000, Run: history},
			{Name: "parallel", Quick: 80, Thorough: 2400, Run: parallel},
			{Name: "killed", Quick: 160, Thorough: 6000, Run: killed},
			{Name: "collide", Quick: 40, Thorough: 800, Run: collide},
		},
	}
}
