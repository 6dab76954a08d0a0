package e2e

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"syscall"
	"time"

	"verif/gen"
	"verif/refc"
)

// Msg is a message to send.
type Msg struct {
	Phones []string `json:"phones"`
	Text   string   `json:"text"`
}

// Batch is a number of messages to send from several goroutines.
type Batch struct {
	Msgs    []Msg `json:"msgs"`
	Workers int   `json:"workers"`
	GapUs   int   `json:"gap"`
}

// Sent is what a send call did; times are nanoseconds since the start of the process.
type Sent struct {
	Id         int64
	Start, End int64
	Wall       int64 // wall clock at the end
	Panic      string
}

// Result is what a query shows of one part.
type Result struct {
	QueryId      int64     `json:"QueryId"`
	Phone        string    `json:"phone"`
	SequenceId   uint64    `json:"sequenceId"`
	Result       uint32    `json:"result"`
	MsgId        string    `json:"msgId"`
	Report       string    `json:"report"`
	SendTime     time.Time `json:"sendTime"`
	ResponseTime time.Time `json:"responseTime"`
	ReportTime   time.Time `json:"reportTime"`
}

// Shown is the answer of a query.
type Shown struct {
	Start, End int64
	Results    []Result
}

// Watched is what a watcher of queries found.
type Watched struct {
	N, Mid int64
	Bad    []string
}

// Expired is a call of the result handler.
type Expired struct {
	At, Wall int64
	Results  []Result
}

// Mem is what a client process holds after a collection.
type Mem struct {
	Objects, Octets, Handled int64
	Goroutines               int
}

// GwConn is a client's connection to a gateway played by the harness.
type GwConn struct {
	*Conn
	G       *FakeGW
	N       int // number of the connection at its gateway
	In      bool
	mu      sync.Mutex
	Started time.Time
}

// LoggedIn tells whether the client's login was accepted.
func (c *GwConn) LoggedIn() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.In }

// FakeGW plays a gateway.
type FakeGW struct {
	PV       gen.PV
	A        Account
	Port     int
	MaxConns int
	Window   int
	Tput     int
	Segment  string
	Tick     string

	// OnAccept may take a connection over (true).
	OnAccept func(nc *net.TCPConn, n int) bool
	// OnLogin may answer a login itself (true).
	OnLogin func(c *GwConn, e Ev) bool
	// OnEv sees every other packet.
	OnEv func(c *GwConn, e Ev)
	// Rcvbuf limits how much the system takes for a gateway that does not read (0: as usual).
	Rcvbuf int

	mu    sync.Mutex
	ln    net.Listener
	conns []*GwConn
	n     int
	bad   []string
}

// Listen opens the gateway's port.
func (g *FakeGW) Listen() error {
	lc := net.ListenConfig{Control: func(_, _ string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) {
			if g.Rcvbuf > 0 {
				_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, g.Rcvbuf)
			}
		})
	}}
	var err error
	for try := 0; try < 50; try++ {
		if g.Port == 0 {
			l := freePorts(1)
			if len(l) == 0 {
				return fmt.Errorf("no free port")
			}
			g.Port = l[0]
			defer func() {
				if err != nil {
					g.Port = 0
				}
			}()
		}
		var ln net.Listener
		ln, err = lc.Listen(context.Background(), "tcp", fmt.Sprintf("127.0.0.1:%d", g.Port))
		if err == nil {
			g.mu.Lock()
			g.ln = ln
			g.mu.Unlock()
			go g.accept(ln)
			return nil
		}
		time.Sleep(100 * time.Millisecond)
	}
	return err
}

// Vanish closes the port and breaks off all connections.
func (g *FakeGW) Vanish() {
	g.mu.Lock()
	if g.ln != nil {
		_ = g.ln.Close()
		g.ln = nil
	}
	g.mu.Unlock()
	for _, c := range g.Conns() {
		c.Reset()
	}
}

// Stop closes everything.
func (g *FakeGW) Stop() { g.Vanish() }

func (g *FakeGW) accept(ln net.Listener) {
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		g.mu.Lock()
		n := g.n
		g.n++
		g.mu.Unlock()
		tc := nc.(*net.TCPConn)
		if g.OnAccept != nil && g.OnAccept(tc, n) {
			continue
		}
		gc := &GwConn{G: g, N: n, Started: time.Now()}
		ready := make(chan struct{})
		gc.Conn = NewConn(tc, g.PV.Proto, g.PV.Ver, func(c *Conn, e Ev) { <-ready; g.handle(gc, e) })
		close(ready)
		g.mu.Lock()
		g.conns = append(g.conns, gc)
		g.mu.Unlock()
	}
}

func (g *FakeGW) fail(f string, a ...any) {
	g.mu.Lock()
	if len(g.bad) < 20 {
		g.bad = append(g.bad, fmt.Sprintf(f, a...))
	}
	g.mu.Unlock()
}

// Bad lists what clients did wrong.
func (g *FakeGW) Bad() []string {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([]string(nil), g.bad...)
}

// Accept answers a login with success.
func (g *FakeGW) Accept(c *GwConn, e Ev) {
	k := LoginKind(g.PV.Proto)
	m := refc.M{"status": 0, "result": 0, "ver": g.A.Ver, "auth": gen.Proof(g.PV, e.M.B("auth"), g.A.Secret)}
	c.mu.Lock()
	c.In = true
	c.mu.Unlock()
	_ = c.Write(refc.Frame(g.PV.Proto, g.PV.Ver, k+"_resp", m, e.Seq...))
}

// Refuse answers a login with an error.
func (g *FakeGW) Refuse(c *GwConn, e Ev, code int) {
	k := LoginKind(g.PV.Proto)
	_ = c.Write(refc.Frame(g.PV.Proto, g.PV.Ver, k+"_resp", refc.M{"status": code, "result": code, "ver": g.A.Ver}, e.Seq...))
}

func (g *FakeGW) handle(c *GwConn, e Ev) {
	if e.Err != nil {
		g.fail("%s connection %d: %v: %x", g.PV, c.N, e.Err, e.Raw)
		return
	}
	if e.Kind == LoginKind(g.PV.Proto) {
		ok := true
		switch g.PV.Proto {
		case refc.SGIP:
			ok = e.M.S("name") == g.A.Id && e.M.S("password") == g.A.Secret
		default:
			id := e.M.S("src") + e.M.S("client")
			ok = id == g.A.Id && string(e.M.B("auth")) == string(gen.Auth(g.PV.Proto, g.A.Id, g.A.Secret, uint32(e.M.U("ts")))) && byte(e.M.U("ver")) == g.A.Ver
		}
		if !ok {
			g.fail("%s: login without the account's credentials: %v", g.PV, e.M)
		}
		if g.OnLogin != nil && g.OnLogin(c, e) {
			return
		}
		g.Accept(c, e)
		return
	}
	if !c.LoggedIn() {
		g.fail("%s connection %d: %s before a successful login", g.PV, c.N, e.Kind)
	}
	if g.OnEv != nil {
		g.OnEv(c, e)
	}
}

// Conns are all connections so far.
func (g *FakeGW) Conns() []*GwConn {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([]*GwConn(nil), g.conns...)
}

// Live are the connections that have not ended, and those of them with a login.
func (g *FakeGW) Live() (live, in []*GwConn) {
	for _, c := range g.Conns() {
		if eof, _ := c.EOF(); !eof {
			live = append(live, c)
			if c.LoggedIn() {
				in = append(in, c)
			}
		}
	}
	return
}

// ClientConfig are the settings of a client process.
type ClientConfig struct {
	GW            []*FakeGW
	Expire, Check string
	Bin           string
	Env           []string
	LogLevel      int
	Extra         string // more settings
	Logs, Numbers string // as those of Config
	Debug         bool
}

// LaunchClient starts a client program as it is, with arguments, in a directory of its own.
func LaunchClient(c ClientConfig, args ...string) (*Proc, error) {
	dir := scratch("cli")
	_ = os.MkdirAll(filepath.Join(dir, "config", "yml_store"), 0755)
	if c.Expire == "" {
		c.Expire = "1h"
	}
	if c.Check == "" {
		c.Check = "100ms"
	}
	if c.Bin == "" {
		c.Bin = "cli"
	}
	cfg := fmt.Sprintf("AppDebug: %v\nPoolSize: 100\nCache:\n  expire-time: %s\n  expire-check-duration: %s\n", c.Debug, c.Expire, c.Check)
	cfg += c.Extra
	cfg += "AuthClient:\n  StoreType: \"yml\"\n  ReloadTicker: 1h\n  YamlFilePath: \"config/yml_store\"\n"
	for _, g := range c.GW {
		tick := g.Tick
		if tick == "" {
			tick = "100ms"
		}
		cfg += fmt.Sprintf("%s:\n  client-id: %s\n  address: \"127.0.0.1:%d\"\n  segment: %s\n  max-conns: %d\n  mt-window-size: %d\n  throughput: %d\n  tick-duration: %s\n",
			g.PV.Proto, strconv.Quote(g.A.Id), g.Port, strconv.Quote(g.Segment), g.MaxConns, g.Window, g.Tput, tick)
		WriteFile(filepath.Join(dir, "config", "yml_store"), g.A.File(), g.A.YAML())
	}
	if c.Numbers != "" {
		cfg += c.Numbers
	} else {
	cfg += "Snowflake:\n  B64:\n    DC: 2\n    Worker: 9\n  B32:\n    DC: 1\n    Worker: 2\n  BCD: \"010203\"\n  SGIP: 3037196688\n"
	}
	if c.Logs != "" {
		cfg += c.Logs
	} else {
	cfg += fmt.Sprintf("Logs:\n  Default:\n    LogName: \"logs/sms.log\"\n    Level: %d\n    TextFormat: \"json\"\n    TimePrecision: \"millisecond\"\n    MaxSize: 50\n    MaxBackups: 3\n    MaxAge: 30\n    Compress: false\n", c.LogLevel)
	cfg += fmt.Sprintf("  Error:\n    LogName: \"logs/error.log\"\n    Level: %d\n    TextFormat: \"console\"\n    TimePrecision: \"millisecond\"\n    MaxSize: 50\n    MaxBackups: 2\n    MaxAge: 30\n    Compress: false\n", c.LogLevel)
	}
	if err := os.WriteFile(filepath.Join(dir, "config", "config.yaml"), []byte(cfg), 0644); err != nil {
		return nil, err
	}
	return startProc(c.Bin, args, dir, c.Env...)
}

// StartClient starts a client process in a directory of its own and makes it ready.
func StartClient(c ClientConfig) (*Proc, error) {
	p, err := LaunchClient(c)
	if err != nil {
		return nil, err
	}
	var one int
	if err = p.Call("init", nil, &one); err != nil {
		return p, fmt.Errorf("client start: %v: %s", err, p.Tail(1500))
	}
	return p, nil
}
