// Package e2e runs the gateway and the client library of the repository as processes of their own and
// talks to them over TCP with the independent codec of package refc.
package e2e

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var stalls atomic.Int32

// Watchdog is how long the harness waits for something that must happen. Once several waits ended without what they
// were for, the remaining ones are shorter, so that a broken system is reported and not waited for.
func Watchdog() time.Duration {
	if stalls.Load() >= 4 {
		return 10 * time.Second
	}
	return 60 * time.Second
}

// Stalled notes that a wait of length d ended without what it was for.
func Stalled(d time.Duration) {
	if d >= 10*time.Second {
		stalls.Add(1)
	}
}

// Stalls is the number of waits that ended without what they were for.
func Stalls() int { return int(stalls.Load()) }

// Account is the configuration of a client account.
type Account struct {
	Isp, Id, Login, Secret                                   string
	Ver                                                      byte
	NeedReport, Level, FeeUser, FeeTermType                  byte
	Display, Service, FeeTerm, FeeType, FeeCode, Fixed, Link string
	Valid                                                    string
	MaxConns, Window, Tput                                   int
}

// Name is what a login gives as its account.
func (a Account) Name() string {
	if a.Isp == "sgip" {
		return a.Login
	}
	return a.Id
}

// YAML is the account's file.
func (a Account) YAML() string {
	q := strconv.Quote
	s := fmt.Sprintf("client-id: %s\nlogin-name: %s\nshared-secret: %s\nversion: %d\nneed-report: %d\nsms-display-no: %s\nservice-id: %s\ndefault-msg-level: %d\n",
		q(a.Id), q(a.Login), q(a.Secret), a.Ver, a.NeedReport, q(a.Display), q(a.Service), a.Level)
	s += fmt.Sprintf("fee-user-type: %d\nfee-terminal-type: %d\nfee-terminal-id: %s\nfee-type: %s\nfee-code: %s\nfixed-fee: %s\nlink-id: %s\n",
		a.FeeUser, a.FeeTermType, q(a.FeeTerm), q(a.FeeType), q(a.FeeCode), q(a.Fixed), q(a.Link))
	v := a.Valid
	if v == "" {
		v = "2h"
	}
	return s + fmt.Sprintf("mt-valid-duration: %s\nmax-conns: %d\nmt-window-size: %d\nthroughput: %d\n", v, a.MaxConns, a.Window, a.Tput)
}

// Styled is the account's file as somebody else could have written it: attributes without a value left out, another
// order, comments, other quotes and line ends.
func (a Account) Styled(r *rand.Rand) string {
	sparse, single := r.Intn(2) == 0, r.Intn(3) == 0
	var l []string
	for _, s := range strings.Split(strings.TrimSuffix(a.YAML(), "\n"), "\n") {
		kv := strings.SplitN(s, ": ", 2)
		if sparse && (kv[1] == `""` || kv[1] == "0" || kv[1] == "0s") && r.Intn(2) == 0 {
			continue
		}
		if v, err := strconv.Unquote(kv[1]); err == nil && kv[1][0] == '"' && single && !strings.ContainsAny(v, "'\t\n") && r.Intn(2) == 0 {
			s = kv[0] + ": '" + v + "'"
		}
		if r.Intn(8) == 0 && !strings.Contains(s, "#") {
			s += " # as agreed"
		}
		l = append(l, s)
	}
	if r.Intn(3) == 0 {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	if r.Intn(4) == 0 {
		l = append([]string{"# account", "---"}, l...)
	}
	if r.Intn(4) == 0 {
		l = append(l, "", "# end", "remark: \"not an attribute\"")
	}
	end := "\n"
	if r.Intn(6) == 0 {
		end = "\r\n"
	}
	return strings.Join(l, end) + end
}

// Sparse gives some attributes no value.
func (a Account) Sparse(r *rand.Rand) Account {
	for _, f := range []*string{&a.Login, &a.Secret, &a.Display, &a.Service, &a.FeeTerm, &a.FeeType, &a.FeeCode, &a.Fixed, &a.Link} {
		if r.Intn(3) == 0 {
			*f = ""
		}
	}
	for _, f := range []*byte{&a.Ver, &a.NeedReport, &a.Level, &a.FeeUser, &a.FeeTermType} {
		if r.Intn(3) == 0 {
			*f = 0
		}
	}
	for _, f := range []*int{&a.MaxConns, &a.Window, &a.Tput} {
		if r.Intn(3) == 0 {
			*f = 0
		}
	}
	if r.Intn(3) == 0 {
		a.Valid = "0s"
	}
	return a
}

// File is the name of the account's file.
func (a Account) File() string { return a.Isp + "_" + a.Id + ".yaml" }

// Config are the settings of a gateway process.
type Config struct {
	Tick, ForceClose       string
	Success                float64
	MinMs, MaxMs, ReportMs int
	Deliver                bool
	DeliverRate            float64
	Contents               []string
	MaxSessions            int
	Reload                 string
	Store                  string // the store's settings; default: files
	LogLevel               int
	Multicore              bool
	Accounts               []Account
	Bin                    string // default gw
	Env                    []string
	Debug                  bool
	Files                  map[string]string    // more files in the directory
	Before                 func(*Gateway) error // called before the process is started
	Ports                  map[string]int       // default: free ones
	Logs, Numbers          string               // the sections of logs and number generators; default: those of most checks
}

// Gateway is a running gateway process.
type Gateway struct {
	Dir    string
	Port   map[string]int
	Config Config
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	mu     sync.Mutex
	exited chan struct{}
	exit   error
	shift  time.Duration
	stop   atomic.Bool
}

var dirSeq int64

func scratch(name string) string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = "/tmp/verif.local"
	}
	d = filepath.Join(d, fmt.Sprintf("%s%d.%d", name, os.Getpid(), atomic.AddInt64(&dirSeq, 1)))
	_ = os.MkdirAll(d, 0755)
	return d
}

// Bin is the path of a built program.
func Bin(name string) string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return filepath.Join(d, name)
	}
	return "/tmp/w/" + name
}

var portSeq int64

// freePorts picks ports below the range the system takes the ports of outgoing connections from.
func freePorts(n int) (l []int) {
	for try := 0; try < 2000 && len(l) < n; try++ {
		p := 10000 + (os.Getpid()*131+int(atomic.AddInt64(&portSeq, 1)))%22000
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		_ = ln.Close()
		l = append(l, p)
	}
	return
}

// WriteFile replaces a file atomically.
func WriteFile(dir, name, content string) {
	tmp := filepath.Join(filepath.Dir(dir), ".tmp"+strconv.FormatInt(atomic.AddInt64(&dirSeq, 1), 10))
	if err := os.WriteFile(tmp, []byte(content), 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, filepath.Join(dir, name)); err != nil {
		panic(err)
	}
}

// StartGateway starts a gateway process.
func StartGateway(c Config) (*Gateway, error) {
	var err error
	for try := 0; try < 5; try++ {
		var g *Gateway
		if g, err = startGateway(c); err == nil {
			return g, nil
		}
	}
	return nil, err
}

func startGateway(c Config) (*Gateway, error) {
	g, err := launch(c)
	if err != nil {
		return nil, err
	}
	if err = g.listening(); err != nil {
		return nil, err
	}
	return g, nil
}

// LaunchTaken starts a gateway one of whose ports is taken until release is called.
func LaunchTaken(c Config, which string) (g *Gateway, release func(), err error) {
	var ln net.Listener
	c.Before = func(g *Gateway) (err error) {
		ln, err = net.Listen("tcp", fmt.Sprintf(":%d", g.Port[which]))
		return
	}
	for try := 0; try < 5; try++ {
		if g, err = launch(c); err == nil {
			return g, func() { _ = ln.Close() }, nil
		}
	}
	return
}

func launch(c Config) (*Gateway, error) {
	if c.Tick == "" {
		c.Tick = "10s"
	}
	if c.ForceClose == "" {
		c.ForceClose = "1h"
	}
	if c.MaxSessions == 0 {
		c.MaxSessions = 1000
	}
	if c.Reload == "" {
		c.Reload = "1h"
	}
	if c.Bin == "" {
		c.Bin = "gw"
	}
	g := &Gateway{Dir: scratch("gw"), Port: map[string]int{}, Config: c, exited: make(chan struct{})}
	if c.Ports != nil {
		g.Port = c.Ports
	} else {
		p := freePorts(3)
		if len(p) < 3 {
			return nil, fmt.Errorf("no free ports")
		}
		g.Port["cmpp"], g.Port["sgip"], g.Port["smgp"] = p[0], p[1], p[2]
	}
	_ = os.MkdirAll(filepath.Join(g.Dir, "config", "yml_store"), 0755)
	cfg := fmt.Sprintf("AppDebug: %v\nServer:\n  TickDuration: %s\n  ForceCloseConnTime: %s\n", c.Debug, c.Tick, c.ForceClose)
	for _, n := range []string{"CMPP", "SGIP", "SMGP"} {
		cfg += fmt.Sprintf("  %s:\n    Port: %d\n    Multicore: %v\n    MaxSessions: %d\n", n, g.Port[strings.ToLower(n)], c.Multicore, c.MaxSessions)
	}
	cfg += fmt.Sprintf("  Mock:\n    SuccessRate: %g\n    MinSubmitRespMs: %d\n    MaxSubmitRespMs: %d\n    FixReportRespMs: %d\n    Delivery:\n      Enable: %v\n      Rate: %g\n      Contents:\n",
		c.Success, c.MinMs, c.MaxMs, c.ReportMs, c.Deliver, c.DeliverRate)
	for _, s := range c.Contents {
		cfg += "        - " + strconv.Quote(s) + "\n"
	}
	if c.Store != "" {
		cfg += c.Store
	} else {
		cfg += "AuthClient:\n  StoreType: \"yml\"\n  ReloadTicker: " + c.Reload + "\n  YamlFilePath: \"config/yml_store\"\n"
	}
	if c.Numbers != "" {
		cfg += c.Numbers
	} else {
		cfg += "Snowflake:\n  B64:\n    DC: 1\n    Worker: 5\n  B32:\n    DC: 0\n    Worker: 3\n  BCD: \"010203\"\n  SGIP: 3037196688\n"
	}
	if c.Logs != "" {
		cfg += c.Logs
	} else {
	cfg += fmt.Sprintf("Logs:\n  Default:\n    LogName: \"logs/gosms.log\"\n    Level: %d\n    TextFormat: \"json\"\n    TimePrecision: \"millisecond\"\n    MaxSize: 50\n    MaxBackups: 3\n    MaxAge: 30\n    Compress: false\n", c.LogLevel)
	cfg += "  Error:\n    LogName: \"logs/error.log\"\n    Level: 2\n    TextFormat: \"console\"\n    TimePrecision: \"millisecond\"\n    MaxSize: 50\n    MaxBackups: 2\n    MaxAge: 30\n    Compress: false\n"
	cfg += "  CounterDB:\n    LogName: \"logs/counter/db.json\"\n    Level: -1\n    TextFormat: \"json\"\n    TimePrecision: \"millisecond\"\n    MaxSize: 500\n    MaxBackups: 2\n    MaxAge: 30\n    Compress: false\n"
	}
	if err := os.WriteFile(filepath.Join(g.Dir, "config", "config.yaml"), []byte(cfg), 0644); err != nil {
		return nil, err
	}
	for _, a := range c.Accounts {
		g.Put(a)
	}
	if len(c.Accounts) == 0 {
		g.Put(Account{Isp: "cmpp", Id: "000000", Ver: 48, Secret: "none", MaxConns: 1, Window: 1})
	}
	for f, b := range c.Files {
		if err := os.WriteFile(filepath.Join(g.Dir, f), []byte(b), 0600); err != nil {
			return nil, err
		}
	}
	if c.Before != nil {
		if err := c.Before(g); err != nil {
			return nil, err
		}
	}
	cr, cw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(Bin(c.Bin))
	cmd.Dir = g.Dir
	cmd.Env = append(os.Environ(), c.Env...)
	cmd.ExtraFiles = []*os.File{cr, rw}
	lf, err := os.Create(filepath.Join(g.Dir, "output.log"))
	if err != nil {
		return nil, err
	}
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	_ = lf.Close()
	_ = cr.Close()
	_ = rw.Close()
	g.cmd, g.in, g.out = cmd, cw, bufio.NewReader(rr)
	go func() {
		g.exit = cmd.Wait()
		close(g.exited)
	}()
	return g, nil
}

// listening waits until all ports take connections.
func (g *Gateway) listening() error {
	dl := time.Now().Add(Watchdog())
	for _, n := range []string{"cmpp", "sgip", "smgp"} {
		for {
			select {
			case <-g.exited:
				return fmt.Errorf("gateway did not start: %s", g.Tail(2000))
			default:
			}
			conn, err := net.Dial("tcp", g.Addr(n))
			if err == nil {
				_ = conn.Close()
				break
			}
			if time.Now().After(dl) {
				g.Stop()
				return fmt.Errorf("gateway does not listen: %s", g.Tail(2000))
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	return nil
}

// Addr is the address of a protocol.
func (g *Gateway) Addr(proto string) string { return fmt.Sprintf("127.0.0.1:%d", g.Port[proto]) }

// Store is the directory of the account files.
func (g *Gateway) Store() string { return filepath.Join(g.Dir, "config", "yml_store") }

// Put writes an account file.
func (g *Gateway) Put(a Account) { WriteFile(g.Store(), a.File(), a.YAML()) }

// Remove removes an account file.
func (g *Gateway) Remove(a Account) { _ = os.Remove(filepath.Join(g.Store(), a.File())) }

func (g *Gateway) ctl(cmd string) string {
	g.mu.Lock()
	defer g.mu.Unlock()
	if _, err := fmt.Fprintln(g.in, cmd); err != nil {
		return ""
	}
	s, _ := g.out.ReadString('\n')
	return strings.TrimSpace(s)
}

// Shift moves the gateway's clock.
func (g *Gateway) Shift(d time.Duration) { g.ctl("shift " + d.String()); g.shift += d }

// Goroutines counts the gateway's goroutines.
func (g *Gateway) Goroutines() int { n, _ := strconv.Atoi(g.ctl("goroutines")); return n }

// Heap is the gateway's live heap in octets.
func (g *Gateway) Heap() int { n, _ := strconv.Atoi(g.ctl("heap")); return n }

// Race makes the gateway process race deliberately.
func (g *Gateway) Race() { g.ctl("race") }

// Stacks is a profile of the gateway's goroutines.
func (g *Gateway) Stacks() string {
	g.ctl("stacks")
	b, _ := os.ReadFile(filepath.Join(g.Dir, "stacks.txt"))
	return string(b)
}

// Dead tells whether the process ended by itself.
func (g *Gateway) Dead() bool {
	if g.stop.Load() {
		return false
	}
	select {
	case <-g.exited:
		return true
	default:
		return false
	}
}

// Tail is the end of the process' output, from the panic on if there is one.
func (g *Gateway) Tail(n int) string { return tail(g.Dir, n) }

func tail(dir string, n int) string {
	b, _ := os.ReadFile(filepath.Join(dir, "output.log"))
	for _, k := range []string{"panic:", "fatal error:", "SIGSEGV"} {
		if i := bytes.LastIndex(b, []byte(k)); i >= 0 {
			b = b[i:]
			if len(b) > n {
				b = b[:n]
			}
			return string(b)
		}
	}
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

// Pid is the number of the process.
func (g *Gateway) Pid() int { return g.cmd.Process.Pid }

// Signal sends the process a signal; false if it ended.
func (g *Gateway) Signal(s os.Signal) bool { return g.cmd.Process.Signal(s) == nil }

// Ended waits for the end of the process.
func (g *Gateway) Ended(d time.Duration) bool {
	select {
	case <-g.exited:
		return true
	case <-time.After(d):
		return false
	}
}

// Status tells how the process ended.
func (g *Gateway) Status() string { return g.cmd.ProcessState.String() }

// Panicked tells whether the output has a crash.
func (g *Gateway) Panicked() bool { return crashed(g.Dir) }

func crashed(dir string) bool {
	b, _ := os.ReadFile(filepath.Join(dir, "output.log"))
	for _, k := range []string{"panic:", "fatal error:", "goroutine 1 ["} {
		if bytes.Contains(b, []byte(k)) {
			return true
		}
	}
	return false
}

// Kill ends the process at once.
func (g *Gateway) Kill() {
	g.stop.Store(true)
	_ = g.cmd.Process.Kill()
	<-g.exited
	_ = g.in.Close()
}

// Stop ends the process.
func (g *Gateway) Stop() {
	g.stop.Store(true)
	_ = g.in.Close()
	select {
	case <-g.exited:
	case <-time.After(5 * time.Second):
		_ = g.cmd.Process.Kill()
		<-g.exited
	}
}

// Counter is a record of the statistics of an ended connection.
type Counter struct {
	Server string `json:"server"`
	Auth   string `json:"auth"`
	Sid    uint64 `json:"sid"`
	Remote string `json:"remote"`
	Mt     uint64 `json:"s_mt_num"`
	Dlv    uint64 `json:"s_dlv_num"`
	Rpt    uint64 `json:"s_rpt_num"`
	Raw    string `json:"-"`
}

// Counters reads the statistics written so far.
func (g *Gateway) Counters() (l []Counter) {
	b, _ := os.ReadFile(filepath.Join(g.Dir, "logs", "counter", "db.json"))
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(line)) == 0 {
			continue
		}
		var c Counter
		if json.Unmarshal(line, &c) != nil {
			continue
		}
		c.Raw = string(line)
		l = append(l, c)
	}
	return
}
