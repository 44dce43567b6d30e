package main

import (
	"bytes"
	"context"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zverif/rqproc"
	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// intruder starts one more rq which has no right to its directory or address,
// and reports how it ended.
func intruder(t *zv.T, what, dir, addr string, ownAddr bool) {
	cmd := exec.Command(os.Getenv("ZV_RQ"), "--otlpListen", addr, "--logLevel", "info", dir)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), "HOME="+t.Dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		t.Broken("start rq: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	defer kill()
	end := time.After(40 * time.Second)
	for {
		select {
		case err := <-done:
			t.Eval(1)
			t.Count("refused_"+what, 1)
			if err == nil {
				t.Fail("silent", "a server on %s ended as if nothing was wrong: %s", what, tailOf(out.Bytes()))
			}
			return
		case <-end:
			kill()
			<-done
			t.Fail("not-refused", "a server on %s is still up after 40 seconds: %s", what, tailOf(out.Bytes()))
			return
		case <-time.After(20 * time.Millisecond):
		}
		if !ownAddr {
			continue
		}
		// it must never serve anyone
		if cc, err := grpc.NewClient(addr, grpc.WithTransportCredentials(insecure.NewCredentials())); err == nil {
			c, cancel := context.WithTimeout(ctx, 200*time.Millisecond)
			_, err = v1.NewRQClient(cc).GetVersion(c, &v1.GetVersionRequest{})
			cancel()
			cc.Close()
			if err == nil {
				kill()
				<-done
				t.Fail("served", "a second server answers on %s", what)
				return
			}
		}
	}
}

func tailOf(b []byte) string { return string(b[max(0, len(b)-1500):]) }

// paced exports a little all the time until stopped.
func paced(t *zv.T, l *ledger, dial func() *grpc.ClientConn, stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(10 * time.Millisecond):
			clients(t, l, dial, 2, 2, nil, false)
		}
	}
}

// propC32: a data directory and an address have one server.
func propC32() *zv.Prop {
	run := func(t *zv.T) {
		home := filepath.Join(t.Dir, "a")
		other := filepath.Join(t.Dir, "b")
		t.Must(os.MkdirAll(home, 0o755))
		t.Must(os.MkdirAll(other, 0o755))
		l, lo := newLedger(), newLedger()
		l.n, lo.n = 0, 1<<20
		had := t.Rand.Intn(2) == 0 // the other directory has data already
		if had {
			p := rqproc.Start(t, other)
			clients(t, lo, func() *grpc.ClientConn { return p.Dial(t) }, 2, 3, nil, false)
			p.Stop(t, syscall.SIGTERM)
		}
		first := rqproc.Start(t, home)
		dial := func() *grpc.ClientConn { return first.Dial(t) }
		if t.Rand.Intn(2) == 0 { // it has data when the others come
			clients(t, l, dial, 2, 4, nil, false)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); paced(t, l, dial, stop) }()
		for k := 1 + t.Rand.Intn(3); k > 0; k-- {
			var x sync.WaitGroup
			for n := 1 + t.Rand.Intn(2); n > 0; n-- {
				how := t.Rand.Intn(3)
				r := rand.New(rand.NewSource(t.Rand.Int63()))
				x.Add(1)
				go func() {
					defer x.Done()
					time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
					switch how {
					case 0:
						intruder(t, "a directory in use", home, rqproc.FreeAddr(), true)
					case 1:
						intruder(t, "a directory and an address in use", home, first.Addr, false)
					default:
						intruder(t, "an address in use", other, first.Addr, false)
					}
				}()
			}
			x.Wait()
			if t.Failed() {
				close(stop)
				wg.Wait()
				return
			}
		}
		close(stop)
		wg.Wait()
		n := len(l.maybe)
		if n > 0 {
			t.Fail("disturbed", "%d exports to the first server failed while others were started: %v", n, l.err)
		}
		// the first one still answers, and what it acknowledged is there afterwards
		cc := dial()
		if _, err := v1.NewRQClient(cc).ScanSamples(ctx, periodScan(t.Rand.Intn(3)), grpc.MaxCallRecvMsgSize(1<<30)); err != nil {
			t.Fail("disturbed", "the first server does not answer: %v", err)
		}
		cc.Close()
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[t.Rand.Intn(2)]
		first.Stop(t, sig)
		again := rqproc.Start(t, home)
		again.Stop(t, sig)
		reopened(t, filepath.Join(home, "data"), l, "beside other servers")
		// a server that failed on its address left its own data in order
		p := rqproc.Start(t, other)
		clients(t, lo, func() *grpc.ClientConn { return p.Dial(t) }, 2, 3, nil, false)
		p.Stop(t, sig)
		reopened(t, filepath.Join(other, "data"), lo, "after a failed start")
		t.Distinct(t.Case.Seed)
		t.Sample(map[string]any{"exports_beside": len(l.acked), "other_had_data": had})
		t.Count("exports_acknowledged_beside_others", len(l.acked))
	}
	return &zv.Prop{
		ID:       "C32",
		Rule:     "an execution runs the real rq with exporting clients, starts one to six further rq processes on its directory, its address or both, one after another and at the same moment, then stops and starts the first again and uses the other directory; oracle: every further process ends with an error and never serves a call, no call to the first fails, both directories hold exactly what was acknowledged. Executions count as distinct by seed",
		Families: []zv.Family{{Name: "intruders", Quick: 24, Thorough: 200, Run: run}},
	}
}
