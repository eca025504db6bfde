// Package redisx runs private redis servers and a fault-injecting proxy that
// understands enough RESP to act at the n-th command.
package redisx

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-redis/redis"
)

type Server struct {
	Addr string
	C    *redis.Client
	cmd  *exec.Cmd
	dir  string
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Start runs a private redis-server on the loopback interface.
func Start(dir string) (*Server, error) {
	d, err := os.MkdirTemp(dir, "redis")
	if err != nil {
		return nil, err
	}
	for try := 0; try < 20; try++ {
		port := freePort()
		cmd := exec.Command("redis-server", "--bind", "127.0.0.1", "--port", strconv.Itoa(port), "--save", "",
			"--appendonly", "no", "--maxmemory-policy", "noeviction", "--dir", d, "--daemonize", "no", "--hz", "100")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := startLocked(cmd); err != nil {
			return nil, err
		}
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		c := redis.NewClient(&redis.Options{Addr: addr, ReadTimeout: 30 * time.Second, WriteTimeout: 30 * time.Second, PoolSize: 4, MaxRetries: 3})
		for i := 0; i < 200; i++ {
			if r, err := c.Info("server").Result(); err == nil && strings.Contains(r, fmt.Sprintf("process_id:%d", cmd.Process.Pid)) {
				return &Server{addr, c, cmd, d}, nil
			}
			time.Sleep(10 * time.Millisecond)
		}
		c.Close()
		cmd.Process.Kill()
		cmd.Wait()
	}
	return nil, fmt.Errorf("redis-server did not start")
}

// Pdeathsig follows the starting thread, so children are started from one
// goroutine locked to a thread that never exits.
var starter = make(chan func())
var starterOnce sync.Once

func startLocked(cmd *exec.Cmd) error {
	starterOnce.Do(func() {
		go func() {
			lockThread()
			for f := range starter {
				f()
			}
		}()
	})
	errc := make(chan error)
	starter <- func() { errc <- cmd.Start() }
	return <-errc
}

// StartCmd starts a command so that it dies with this process.
func StartCmd(cmd *exec.Cmd) error {
	if cmd.SysProcAttr == nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Pdeathsig = syscall.SIGKILL
	return startLocked(cmd)
}

func (s *Server) Stop() {
	s.C.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	os.RemoveAll(s.dir)
}

func (s *Server) Flush() error { return s.C.FlushAll().Err() }

// Dump returns every key with its value, for comparing cache contents.
func (s *Server) Dump() (map[string]string, error) {
	keys, err := s.C.Keys("*").Result()
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, k := range keys {
		t, err := s.C.Type(k).Result()
		if err != nil {
			return nil, err
		}
		switch t {
		case "string":
			v, err := s.C.Get(k).Result()
			if err != nil {
				return nil, err
			}
			out[k] = v
		case "set":
			v, err := s.C.Sort(k, &redis.Sort{Alpha: true}).Result()
			if err != nil {
				return nil, err
			}
			out[k] = strings.Join(v, "\x00")
		}
	}
	return out, nil
}

type Kind int

const (
	Forward    Kind = iota
	ErrorReply      // do not execute, answer with Text
	ExecError       // execute, answer with Text
	Drop            // close the connection without executing
	ExecDrop        // execute, close the connection without answering
	Hang            // do not execute, do not answer (until the proxy closes)
)

type Action struct {
	Kind  Kind
	Text  string
	Delay time.Duration // before forwarding
	After time.Duration // after execution, before the reply is passed on
	Pre   func()        // called before forwarding
	Post  func()        // called after execution, before the reply is passed on
	// Rewrite replaces the reply (nil keeps it).
	Rewrite func(reply []byte) []byte
}

// Proxy forwards RESP traffic to a redis server. Decide is called with each
// command, in order per connection and under no lock.
type Proxy struct {
	Addr   string
	target string
	l      net.Listener
	mu     sync.Mutex
	decide func(conn int, args []string) Action
	conns  map[net.Conn]bool
	n      int
	closed chan struct{}
}

func NewProxy(target string, decide func(conn int, args []string) Action) (*Proxy, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	p := &Proxy{Addr: l.Addr().String(), target: target, l: l, decide: decide, conns: map[net.Conn]bool{}, closed: make(chan struct{})}
	go p.serve()
	return p, nil
}

func (p *Proxy) SetDecide(f func(conn int, args []string) Action) {
	p.mu.Lock()
	p.decide = f
	p.mu.Unlock()
}

func (p *Proxy) Close() {
	p.l.Close()
	close(p.closed)
	p.mu.Lock()
	for c := range p.conns {
		c.Close()
	}
	p.mu.Unlock()
}

func (p *Proxy) serve() {
	for {
		c, err := p.l.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		p.n++
		id := p.n
		p.conns[c] = true
		p.mu.Unlock()
		go p.handle(id, c)
	}
}

func (p *Proxy) handle(id int, c net.Conn) {
	defer func() {
		c.Close()
		p.mu.Lock()
		delete(p.conns, c)
		p.mu.Unlock()
	}()
	s, err := net.Dial("tcp", p.target)
	if err != nil {
		return
	}
	defer s.Close()
	cr := bufio.NewReaderSize(c, 1<<16)
	sr := bufio.NewReaderSize(s, 1<<16)
	for {
		raw, args, err := readCommand(cr)
		if err != nil {
			return
		}
		p.mu.Lock()
		d := p.decide
		p.mu.Unlock()
		var a Action
		if d != nil {
			a = d(id, args)
		}
		if a.Pre != nil {
			a.Pre()
		}
		if a.Delay > 0 {
			select {
			case <-time.After(a.Delay):
			case <-p.closed:
				return
			}
		}
		switch a.Kind {
		case ErrorReply:
			if _, err := fmt.Fprintf(c, "-%s\r\n", a.Text); err != nil {
				return
			}
			continue
		case Drop:
			return
		case Hang:
			<-p.closed
			return
		}
		if _, err := s.Write(raw); err != nil {
			return
		}
		var rep bytes.Buffer
		if err := readReply(sr, &rep); err != nil {
			return
		}
		if a.Post != nil {
			a.Post()
		}
		if a.After > 0 {
			select {
			case <-time.After(a.After):
			case <-p.closed:
				return
			}
		}
		switch a.Kind {
		case ExecDrop:
			return
		case ExecError:
			if _, err := fmt.Fprintf(c, "-%s\r\n", a.Text); err != nil {
				return
			}
			continue
		}
		out := rep.Bytes()
		if a.Rewrite != nil {
			if x := a.Rewrite(out); x != nil {
				out = x
			}
		}
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func readLine(r *bufio.Reader) ([]byte, error) {
	return r.ReadBytes('\n')
}

func readCommand(r *bufio.Reader) ([]byte, []string, error) {
	var raw bytes.Buffer
	line, err := readLine(r)
	if err != nil {
		return nil, nil, err
	}
	raw.Write(line)
	if line[0] != '*' {
		return raw.Bytes(), strings.Fields(string(line)), nil
	}
	n, _ := strconv.Atoi(strings.TrimSpace(string(line[1:])))
	args := make([]string, 0, n)
	for i := 0; i < n; i++ {
		line, err := readLine(r)
		if err != nil {
			return nil, nil, err
		}
		raw.Write(line)
		l, _ := strconv.Atoi(strings.TrimSpace(string(line[1:])))
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, nil, err
		}
		raw.Write(b)
		args = append(args, string(b[:l]))
	}
	return raw.Bytes(), args, nil
}

func readReply(r *bufio.Reader, out *bytes.Buffer) error {
	line, err := readLine(r)
	if err != nil {
		return err
	}
	out.Write(line)
	switch line[0] {
	case '$':
		l, _ := strconv.Atoi(strings.TrimSpace(string(line[1:])))
		if l >= 0 {
			b := make([]byte, l+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return err
			}
			out.Write(b)
		}
	case '*':
		n, _ := strconv.Atoi(strings.TrimSpace(string(line[1:])))
		for i := 0; i < n; i++ {
			if err := readReply(r, out); err != nil {
				return err
			}
		}
	}
	return nil
}

// ParseScan decodes a reply to SCAN or SSCAN.
func ParseScan(reply []byte) (cursor string, items []string, ok bool) {
	r := bufio.NewReader(bytes.NewReader(reply))
	bulk := func() (string, bool) {
		l, err := readLine(r)
		if err != nil || l[0] != '$' {
			return "", false
		}
		n, _ := strconv.Atoi(strings.TrimSpace(string(l[1:])))
		b := make([]byte, n+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return "", false
		}
		return string(b[:n]), true
	}
	l, err := readLine(r)
	if err != nil || string(l) != "*2\r\n" {
		return
	}
	if cursor, ok = bulk(); !ok {
		return
	}
	l, err = readLine(r)
	if err != nil || l[0] != '*' {
		return "", nil, false
	}
	n, _ := strconv.Atoi(strings.TrimSpace(string(l[1:])))
	for i := 0; i < n; i++ {
		s, ok := bulk()
		if !ok {
			return "", nil, false
		}
		items = append(items, s)
	}
	return cursor, items, true
}

// MakeScan encodes a reply to SCAN or SSCAN.
func MakeScan(cursor string, items []string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "*2\r\n$%d\r\n%s\r\n*%d\r\n", len(cursor), cursor, len(items))
	for _, s := range items {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(s), s)
	}
	return b.Bytes()
}
