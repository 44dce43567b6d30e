package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/gen"
	"github.com/gernest/requiemdb/internal/zverif/kit"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

const crashHours = 3

// crashPlan is what one incarnation of the server saves; parent and child both
// derive it from the seed. Every sample is a resource of its own.
func crashPlan(seed int64, round int, first uint64) (batches [][]*v1.Sample) {
	r := rand.New(rand.NewSource(seed + int64(round)*7919))
	id := first
	for b := 3 + r.Intn(4); b > 0; b-- {
		var ls []*v1.Sample
		for n := 1 + r.Intn(3); n > 0; n-- {
			lo := uint64(epoch.Add(time.Duration(r.Intn(crashHours)) * time.Hour).UnixNano())
			g := gen.New(r, gen.Opt{Vocab: 3, Max: 2, AtLeastOne: true, TimeLo: lo, TimeHi: lo + uint64(50*time.Minute)})
			d := g.Data(r.Intn(3))
			gen.Tag(d, int(id))
			ls = append(ls, &v1.Sample{Id: id, Data: d})
			id++
		}
		batches = append(batches, ls)
	}
	return
}

func init() {
	// crash DIR SEED ROUND FIRST [SAVE M N AFTER]
	zv.Children["crash"] = func(a []string) {
		seed, _ := strconv.ParseInt(a[1], 10, 64)
		round, _ := strconv.Atoi(a[2])
		first, _ := strconv.ParseUint(a[3], 10, 64)
		say := func(f string, v ...any) { syscall.Write(1, []byte(fmt.Sprintf(f+"\n", v...))) }
		st, err := kit.Open(a[0], false)
		if err != nil {
			say("fail open %v", err)
			return
		}
		say("open")
		at := -1
		var arm func()
		if len(a) > 4 {
			var m, n int
			at, _ = strconv.Atoi(a[4])
			m, _ = strconv.Atoi(a[5])
			n, _ = strconv.Atoi(a[6])
			arm = killAtCommit(m, n, a[7] == "true")
		}
		for i, b := range crashPlan(seed, round, first) {
			say("begin %d", i)
			if i == at {
				arm()
			}
			if err := st.Save(b...); err != nil {
				say("fail save %v", err)
				return
			}
			say("ack %d", i)
		}
		say("closing")
		if err := st.Close(); err != nil {
			say("fail close %v", err)
			return
		}
		say("closed")
	}
}

// crashRun runs an incarnation until it is killed; it returns what it said.
func crashRun(t *zv.T, cmd *exec.Cmd, killAfter string, delay time.Duration) (said []string) {
	out, err := cmd.StdoutPipe()
	t.Must(err)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	t.Must(cmd.Start())
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	watch := time.AfterFunc(100*time.Second, kill)
	defer watch.Stop()
	if killAfter == "start" {
		time.AfterFunc(delay, kill)
	}
	sc := bufio.NewScanner(out)
	for sc.Scan() {
		l := sc.Text()
		said = append(said, l)
		if l == killAfter {
			time.Sleep(delay)
			kill()
		}
	}
	cmd.Wait()
	kill()
	if strings.Contains(errb.String(), "panic:") || strings.Contains(errb.String(), "fatal error:") {
		t.Fatal("recovery-crash", "the server crashed by itself: %s", errb.String())
	}
	return
}

// openSig keeps apart the ways the key-value store is known not to recover: a
// memtable or value log file that was created but not given its size yet.
func openSig(msg string) string {
	if strings.Contains(msg, "while opening memtables") && strings.Contains(msg, "Create a new file") {
		return "recovery-open:memtable-created-not-sized"
	}
	if strings.Contains(msg, "db.vlog.open error: Open existing file") && strings.Contains(msg, "Create a new file") {
		return "recovery-open:vlog-created-not-sized"
	}
	return "recovery-open"
}

func propC06() *zv.Prop {
	// The state a crash between creating and sizing a memtable leaves.
	created := func(t *zv.T) {
		st, err := kit.Open(t.Dir, false)
		t.Must(err)
		b := crashPlan(t.Case.Seed, 0, 0)[0]
		save(t, st, b)
		t.Must(st.Close())
		kind, width := "mem", 5
		if t.Case.Index%2 == 1 {
			kind, width = "vlog", 6
		}
		ms, _ := filepath.Glob(filepath.Join(t.Dir, "db", "*."+kind))
		next := 1
		for _, m := range ms {
			var n int
			fmt.Sscanf(filepath.Base(m), "%d."+kind, &n)
			next = max(next, n+1)
		}
		t.Must(os.WriteFile(filepath.Join(t.Dir, "db", fmt.Sprintf("%0*d.%s", width, next, kind)), nil, 0o666))
		t.Eval(1)
		t.Distinct("created", kind, next)
		st, err = kit.Open(t.Dir, false)
		if err != nil {
			t.Fatal(openSig(err.Error()), "the store does not open when the last crash came between creating and sizing %s file %d: %v", kind, next, err)
		}
		acked := map[uint64]*v1.Sample{}
		for _, s := range b {
			acked[s.Id] = s
		}
		verifyCrash(t, st, acked, nil, nil)
		st.Close()
	}
	run := func(t *zv.T, how string) {
		rounds := 1 + t.Rand.Intn(3)
		first := uint64(t.Rand.Intn(3))
		acked := map[uint64]*v1.Sample{}
		maybe := map[uint64]*v1.Sample{}
		var hist []string
		for round := 0; round < rounds; round++ {
			plan := crashPlan(t.Case.Seed, round, first)
			cmd := t.Child("crash", t.Dir, fmt.Sprint(t.Case.Seed), fmt.Sprint(round), fmt.Sprint(first))
			var said []string
			where := ""
			switch how {
			case "commit":
				save := t.Rand.Intn(2)
				m, n := t.Rand.Intn(13), 1+t.Rand.Intn(2)
				if t.Rand.Intn(4) == 0 {
					m, n = 0, 1+t.Rand.Intn(40)
				}
				after := t.Rand.Intn(2) == 0
				where = fmt.Sprintf("save %d commit %d+%d %v", save, m, n, after)
				cmd = t.Child("crash", t.Dir, fmt.Sprint(t.Case.Seed), fmt.Sprint(round), fmt.Sprint(first), fmt.Sprint(save), fmt.Sprint(m), fmt.Sprint(n), fmt.Sprint(after))
				said = crashRun(t, cmd, "closed", 0)
			case "syscall":
				// die on entering the n-th write-like system call of some thread
				n := 1 + t.Rand.Intn([]int{5, 20, 60}[t.Rand.Intn(3)])
				call := []string{"pwrite64,write,writev", "fsync,fdatasync,msync", "ftruncate,fallocate", "renameat,rename,unlinkat,unlink,openat", "mmap,munmap,mremap"}[t.Rand.Intn(5)]
				where = fmt.Sprintf("%s#%d", call, n)
				args := append([]string{"-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", call, n)}, cmd.Args...)
				cmd = exec.Command("strace", args...)
				cmd.Dir = t.Dir
				said = crashRun(t, cmd, "closed", 0)
			default:
				where = []string{"start", "open", "begin 0", "ack 0", "begin 1", "begin 2", "begin 3", "ack 2", "closing", "closed"}[t.Rand.Intn(10)]
				d := time.Duration(t.Rand.Intn(60)) * time.Millisecond
				if strings.HasPrefix(where, "begin") {
					d = time.Duration(t.Rand.Intn(500)) * time.Millisecond
				}
				if where == "start" {
					d = time.Duration(t.Rand.Intn(1500)) * time.Millisecond
				}
				said = crashRun(t, cmd, where, d)
			}
			open := -1
			opened, closed := false, false
			for _, l := range said {
				var i int
				switch {
				case l == "open":
					opened = true
				case l == "closed":
					closed = true
				case strings.HasPrefix(l, "begin "):
					fmt.Sscanf(l, "begin %d", &i)
					open = i
				case strings.HasPrefix(l, "ack "):
					fmt.Sscanf(l, "ack %d", &i)
					for _, s := range plan[i] {
						acked[s.Id] = s
					}
					open = -1
				case strings.HasPrefix(l, "fail open"):
					t.Fatal(openSig(l), "after %v: %s", hist, l)
				case strings.HasPrefix(l, "fail"):
					t.Fatal("recovery-save", "after %v: %s", hist, l)
				}
			}
			phase := "before-open"
			switch {
			case closed:
				phase = "clean-or-after-close"
			case open >= 0:
				phase = "while-saving"
			case opened:
				phase = "between-saves-or-closing"
			}
			t.Count("killed_"+phase, 1)
			if how == "commit" && open >= 0 {
				t.Count("killed_at_a_commit_of_a_save", 1)
			}
			hist = append(hist, fmt.Sprintf("%s(%s: %s)", phase, where, strings.Join(said, ",")))
			if open >= 0 {
				for _, s := range plan[open] {
					maybe[s.Id] = s
				}
			}
			for _, b := range plan {
				for _, s := range b {
					first = max(first, s.Id+1)
				}
			}
			first += uint64(t.Rand.Intn(5))
		}
		// recover, verify, go on, restart cleanly, verify again
		for pass := 0; pass < 2; pass++ {
			st, err := kit.Open(t.Dir, false)
			if err != nil {
				t.Fatal(openSig(err.Error()), "the store does not open after %v: %v", hist, err)
			}
			verifyCrash(t, st, acked, maybe, hist)
			if pass == 0 && !t.Failed() {
				b := crashPlan(t.Case.Seed, 99, first)[0]
				save(t, st, b)
				for _, s := range b {
					acked[s.Id] = s
				}
				verifyCrash(t, st, acked, maybe, hist)
			}
			if err := st.Close(); err != nil {
				t.Fatal("recovery-close", "%v", err)
			}
		}
		t.Distinct(fmt.Sprint(hist), len(acked), len(maybe))
		t.Count("crashes", rounds)
		t.Count("acknowledged_samples", len(acked))
		t.Count("samples_in_flight_at_a_crash", len(maybe))
		t.Sample(map[string]any{"history": hist, "acked": len(acked), "in_flight": len(maybe)})
	}
	return &zv.Prop{
		ID: "C06", Level: "fault_enumeration",
		Rule: "an execution runs 1-3 incarnations of the on-disk store in child processes that report begin/acknowledge of every save and are killed (SIGKILL after a protocol event plus a random delay, or on entering the n-th write/sync/truncate/rename/mmap system call, or right before or after a chosen commit of the key-value store), then recovers, scans, saves more, restarts cleanly and scans again; every acknowledged sample must be returned complete under every label and the whole period, a sample in flight at the crash complete or not at all, nothing else. Histories count as distinct by kill points and events",
		Assume: []string{
			"process crashes: what was handed to the operating system survives (no power loss)",
			"sample ids given to a crashed incarnation are not used again, as the id sequence guarantees",
		},
		Families: []zv.Family{
			{Name: "timed-kill", Quick: 21, Thorough: 700, Run: func(t *zv.T) { run(t, "") }},
			{Name: "syscall-kill", Quick: 28, Thorough: 700, Run: func(t *zv.T) { run(t, "syscall") }},
			{Name: "commit-kill", Quick: 35, Thorough: 1400, Run: func(t *zv.T) { run(t, "commit") }},
			{Name: "created-not-sized", Quick: 2, Thorough: 2, Run: created},
		},
		Workers: 7,
	}
}

func verifyCrash(t *zv.T, st *kit.Stack, acked, maybe map[uint64]*v1.Sample, hist []string) {
	period := func(sig int) *v1.Scan {
		return (&query{signal: sig, rng: true, start: epoch, end: epoch.Add(crashHours * time.Hour)}).scan()
	}
	for sig := 0; sig < 3; sig++ {
		check := func(s *v1.Scan, want func(*v1.Sample) bool) {
			got, err := st.St.Scan(ctx, s)
			t.Eval(1)
			if err != nil {
				t.Fatal("recovery-scan", "scan failed after %v: %v", hist, err)
			}
			if bad := wrongShape(got, sig); bad != "" {
				t.Fatal("recovery-shape", "%s", bad)
			}
			have := map[string]map[string]int{}
			for _, l := range gen.Leaves(got) {
				k := gen.ResTag(l.ResourceMsg)
				if have[k] == nil {
					have[k] = map[string]int{}
				}
				have[k][l.Key()]++
			}
			judge := func(s *v1.Sample, must bool) {
				ls := gen.Leaves(s.Data)
				if len(ls) == 0 || !sameSignal(s.Data, sig) || !want(s) {
					return
				}
				h, ok := have[gen.ResTag(ls[0].ResourceMsg)]
				delete(have, gen.ResTag(ls[0].ResourceMsg))
				if !ok {
					if must {
						t.Fail("lost", "acknowledged sample %d is gone after %v", s.Id, hist)
					}
					return
				}
				if !must {
					t.Count("in_flight_samples_kept", 1)
				}
				if d := gen.DiffMultiset(gen.Multiset(s.Data), h); d != "" {
					t.Fail("torn", "sample %d came back changed after %v: %s", s.Id, hist, d)
				}
			}
			for _, s := range acked {
				judge(s, true)
			}
			for _, s := range maybe {
				judge(s, false)
			}
			for r := range have {
				t.Fail("phantom", "the answer has telemetry of a resource nobody saved or that does not match: %q after %v", r, hist)
			}
		}
		check(period(sig), func(*v1.Sample) bool { return true })
		// by labels of acknowledged samples
		n := 0
		for _, a := range acked {
			if !sameSignal(a.Data, sig) || n > 2 {
				continue
			}
			n++
			ls := sortedLabels(gen.LabelsOf(a.Data))
			if len(ls) == 0 {
				continue
			}
			l := ls[t.Rand.Intn(len(ls))]
			s := period(sig)
			s.Filters = append(s.Filters, l.Filter())
			check(s, func(x *v1.Sample) bool { return gen.LabelsOf(x.Data)[l] })
		}
	}
}

func sameSignal(d *v1.Data, sig int) bool { return wrongShape(d, sig) == "" }
