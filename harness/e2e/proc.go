package e2e

import (
	"bufio"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/proc"
)

// Proc is a process of the code under test that answers calls (package proc).
type Proc struct {
	Dir    string
	cmd    *exec.Cmd
	in     io.WriteCloser
	wmu    sync.Mutex
	mu     sync.Mutex
	wait   map[int64]chan json.RawMessage
	id     int64
	exited chan struct{}
	stop   atomic.Bool
}

// ErrDead is the answer of a process that ended.
var ErrDead = errors.New("the process ended")

// ErrSlow is the answer of a process that does not answer in time.
var ErrSlow = errors.New("no answer in time")

// ScratchDir makes a directory for a process.
func ScratchDir(name string) string { return scratch(name) }

// StartProc starts a program in a directory.
func StartProc(bin, dir string, env ...string) (*Proc, error) {
	return startProc(bin, nil, dir, env...)
}

func startProc(bin string, args []string, dir string, env ...string) (*Proc, error) {
	cr, cw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p := &Proc{Dir: dir, wait: map[int64]chan json.RawMessage{}, exited: make(chan struct{}), in: cw}
	cmd := exec.Command(Bin(bin), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.ExtraFiles = []*os.File{cr, rw}
	lf, err := os.Create(filepath.Join(dir, "output.log"))
	if err != nil {
		return nil, err
	}
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err = cmd.Start(); err != nil {
		return nil, err
	}
	_, _, _ = lf.Close(), cr.Close(), rw.Close()
	p.cmd = cmd
	go func() {
		_ = cmd.Wait()
		close(p.exited)
	}()
	go func() {
		sc := bufio.NewScanner(rr)
		sc.Buffer(make([]byte, 1<<20), 256<<20)
		for sc.Scan() {
			var r proc.Rsp
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			p.mu.Lock()
			c := p.wait[r.Id]
			delete(p.wait, r.Id)
			p.mu.Unlock()
			if c != nil {
				c <- r.R
			}
		}
	}()
	return p, nil
}

// Go starts a call; the answer comes over the channel.
func (p *Proc) Go(op string, args any) chan json.RawMessage {
	b, _ := json.Marshal(args)
	c := make(chan json.RawMessage, 1)
	p.mu.Lock()
	p.id++
	r := proc.Req{Id: p.id, Op: op, Args: b}
	p.wait[r.Id] = c
	p.mu.Unlock()
	b, _ = json.Marshal(r)
	p.wmu.Lock()
	_, _ = p.in.Write(append(b, '\n'))
	p.wmu.Unlock()
	return c
}

// Call makes a call and waits for the answer.
func (p *Proc) Call(op string, args, res any) error {
	return p.Await(p.Go(op, args), res, Watchdog())
}

// Await waits for the answer of a call.
func (p *Proc) Await(c chan json.RawMessage, res any, d time.Duration) error {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case b := <-c:
		if res == nil {
			return nil
		}
		return json.Unmarshal(b, res)
	case <-p.exited:
		return ErrDead
	case <-t.C:
		Stalled(d)
		return ErrSlow
	}
}

// Exited is closed when the process ended.
func (p *Proc) Exited() <-chan struct{} { return p.exited }

// Dead tells whether the process ended by itself.
func (p *Proc) Dead() bool {
	if p.stop.Load() {
		return false
	}
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

// Code is the exit code of a process that ended.
func (p *Proc) Code() int { return p.cmd.ProcessState.ExitCode() }

// Tail is the end of the process' output, from the panic on if there is one.
func (p *Proc) Tail(n int) string { return tail(p.Dir, n) }

// Signal sends the process a signal.
func (p *Proc) Signal(s os.Signal) { _ = p.cmd.Process.Signal(s) }

// Stop ends the process.
func (p *Proc) Stop() {
	p.stop.Store(true)
	_ = p.in.Close()
	select {
	case <-p.exited:
	case <-time.After(5 * time.Second):
		_ = p.cmd.Process.Kill()
		<-p.exited
	}
}

// Status tells how the process ended.
func (p *Proc) Status() string {
	select {
	case <-p.exited:
		return p.cmd.ProcessState.String()
	default:
		return "running"
	}
}

// Panicked tells whether the output has a crash.
func (p *Proc) Panicked() bool { return crashed(p.Dir) }

// Kill ends the process at once.
func (p *Proc) Kill() {
	p.stop.Store(true)
	_ = p.cmd.Process.Kill()
	<-p.exited
	_ = p.in.Close()
}
