// Package rqproc runs the real rq binary.
package rqproc

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gernest/requiemdb/internal/zverif/zv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// RQ is the real server process.
type RQ struct {
	Cmd  *exec.Cmd
	Addr string
	Log  *os.File
	done chan error
}

var nextPort atomic.Int64

// FreeAddr is an address no one else uses: a loopback address of this process
// and a port below those given to outgoing connections.
func FreeAddr() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+pid>>16&0x7f, pid>>8&0xff, pid&0xff, 20000+nextPort.Add(1)%10000)
}

// Start starts rq with its data under dir and waits until it listens. Where it
// can be told things in two ways, and how much it logs, differ by case.
func Start(t *zv.T, dir string, env ...string) *RQ { return start(t, dir, dir, env...) }

// StartHome starts rq without a directory, its data is under home/.rq.
func StartHome(t *zv.T, home string, env ...string) *RQ { return start(t, home, "", env...) }

func start(t *zv.T, dir, arg string, more ...string) *RQ {
	bin := os.Getenv("ZV_RQ")
	if bin == "" {
		t.Broken("ZV_RQ is not set")
	}
	for try := 0; ; try++ {
		addr := FreeAddr()
		log, err := os.CreateTemp(dir, "rq-*.log")
		t.Must(err)
		r := &RQ{Addr: addr, Log: log, done: make(chan error, 1)}
		pick := uint64(t.Case.Seed)
		level := []string{"info", "debug", "warn", "error"}[pick%4]
		args, env := []string{"--otlpListen", addr}, append(append(os.Environ(), more...), "HOME="+dir)
		if pick/4%2 == 0 {
			args, env = nil, append(env, "RQ_OTLP_LISTEN="+addr)
		}
		if pick/8%2 == 0 {
			args = append(args, "--logLevel", level)
		} else {
			env = append(env, "RQ_LOG_LEVEL="+level)
		}
		if arg != "" {
			args = append(args, arg)
		}
		r.Cmd = exec.Command(bin, args...)
		r.Cmd.Stdout, r.Cmd.Stderr = log, log
		r.Cmd.Env = env
		r.Cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		t.Must(r.Cmd.Start())
		t.Cleanup(func() { syscall.Kill(-r.Cmd.Process.Pid, syscall.SIGKILL); log.Close() })
		go func() { r.done <- r.Cmd.Wait() }()
		for i := 0; i < 1200; i++ {
			c, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				c.Close()
				return r
			}
			select {
			case e := <-r.done:
				r.done <- e
				i = 1 << 20
			case <-time.After(50 * time.Millisecond):
			}
		}
		b, _ := os.ReadFile(log.Name())
		if try < 2 && bytes.Contains(b, []byte("address already in use")) {
			continue
		}
		t.Fatal("server-start", "rq does not listen on its address: %s", tail(b))
	}
}

func tail(b []byte) string {
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

// Stop signals the process and waits until it is gone.
func (r *RQ) Stop(t *zv.T, sig syscall.Signal) {
	r.Cmd.Process.Signal(sig)
	select {
	case err := <-r.done:
		b, _ := os.ReadFile(r.Log.Name())
		if err != nil {
			t.Fatal("server-exit", "rq ended with %v after %v: %s", err, sig, tail(b))
		}
	case <-time.After(100 * time.Second):
		r.Cmd.Process.Signal(syscall.SIGQUIT) // say where it hangs
		select {
		case <-r.done:
		case <-time.After(10 * time.Second):
		}
		b, _ := os.ReadFile(r.Log.Name())

		t.Fatal("server-exit", "rq does not end after %v: %s", sig, b[:min(len(b), 20000)])
	}
}

func (r *RQ) Dial(t *zv.T) *grpc.ClientConn {
	c, err := grpc.Dial(r.Addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	t.Must(err)
	return c
}
