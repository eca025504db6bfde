// Package proc runs the real programs and records how they end.
package proc

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"vharness/lib/redisx"
)

type Result struct {
	Code     int // exit code, -1 if killed by a signal
	Signal   syscall.Signal
	TimedOut bool
	Stderr   string
	Wall     time.Duration
}

func (r Result) Crashed() bool {
	return strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:")
}
func (r Result) String() string {
	return fmt.Sprintf("code=%d signal=%v timedout=%v", r.Code, r.Signal, r.TimedOut)
}

type Proc struct {
	Cmd  *exec.Cmd
	buf  *LockedBuf
	done chan struct{}
	t0   time.Time
	mu   sync.Mutex
	to   bool
}

type LockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *LockedBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b.Write(p)
	return len(p), nil
}
func (t *LockedBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.b.String()
}

// BaseEnv is an environment without any of the programs' own settings.
func BaseEnv(home string) []string {
	env := []string{"HOME=" + home, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + os.TempDir(), "GOMAXPROCS=4"}
	if g := os.Getenv("GORACE"); g != "" { // race-instrumented programs
		env = append(env, "GORACE="+g)
	}
	return env
}

func Start(bin string, args, env []string, dir string) (*Proc, error) {
	cmd := exec.Command(bin, args...)
	cmd.Env = env
	cmd.Dir = dir
	p := &Proc{Cmd: cmd, buf: &LockedBuf{}, done: make(chan struct{}), t0: time.Now()}
	cmd.Stdout = p.buf
	cmd.Stderr = p.buf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 5 * time.Second
	if err := redisx.StartCmd(cmd); err != nil {
		return nil, err
	}
	if f := os.Getenv("VH_RUNLOG"); f != "" { // tell whoever counts
		if fd, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintln(fd, filepath.Base(bin))
			fd.Close()
		}
	}
	go func() { cmd.Wait(); close(p.done) }()
	return p, nil
}

func (p *Proc) Kill(sig syscall.Signal) { syscall.Kill(-p.Cmd.Process.Pid, sig) }
func (p *Proc) Done() <-chan struct{}   { return p.done }
func (p *Proc) Output() string          { return p.buf.String() }

func (p *Proc) Wait(timeout time.Duration) Result {
	to := false
	select {
	case <-p.done:
	case <-time.After(timeout):
		to = true
		p.Kill(syscall.SIGQUIT)
		select {
		case <-p.done:
		case <-time.After(3 * time.Second):
			p.Kill(syscall.SIGKILL)
			<-p.done
		}
	}
	r := Result{TimedOut: to, Stderr: p.buf.String(), Wall: time.Since(p.t0)}
	ws, _ := p.Cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		r.Code = -1
		r.Signal = ws.Signal()
	} else {
		r.Code = ws.ExitStatus()
	}
	return r
}

func Run(bin string, args, env []string, dir string, timeout time.Duration) Result {
	p, err := Start(bin, args, env, dir)
	if err != nil {
		return Result{Code: -2, Stderr: err.Error()}
	}
	return p.Wait(timeout)
}
