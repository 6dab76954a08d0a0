package e2e

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verif/gen"
	"verif/refc"
)

// Ev is a packet received, in order.
type Ev struct {
	*refc.Packet
	At  time.Time
	Err error // what is wrong with its layout
}

// Conn is a connection to a gateway, or of a client to a gateway played by the harness.
type Conn struct {
	Proto string
	Ver   byte
	C     *net.TCPConn
	Local string

	mu     sync.Mutex
	wmu    sync.Mutex
	evs    []Ev
	eof    bool
	eofErr error
	eofAt  time.Time
	tail   []byte // octets after the last whole packet
	wake   chan struct{}
	seq    uint32
	pause  atomic.Bool
	// Auto answers packets as they come (may be nil).
	Auto func(c *Conn, e Ev)
}

// Dial connects to a gateway.
func Dial(g *Gateway, proto string, ver byte, auto func(*Conn, Ev)) (*Conn, error) {
	var nc net.Conn
	var err error
	for i := 0; i < 5; i++ {
		if nc, err = net.DialTimeout("tcp", g.Addr(proto), 20*time.Second); err == nil {
			return NewConn(nc, proto, ver, auto), nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil, err
}

// NewConn starts reading a connection.
func NewConn(nc net.Conn, proto string, ver byte, auto func(*Conn, Ev)) *Conn {
	c := &Conn{Proto: proto, Ver: ver, C: nc.(*net.TCPConn), Local: nc.LocalAddr().String(), wake: make(chan struct{}), Auto: auto}
	c.seq = uint32(rand.Int31())
	go c.read()
	return c
}

func (c *Conn) read() {
	var buf []byte
	b := make([]byte, 64<<10)
	for {
		n, err := c.C.Read(b)
		at := time.Now()
		buf = append(buf, b[:n]...)
		for len(buf) >= 12 {
			l := int(binary.BigEndian.Uint32(buf))
			if l < 12 || l > 1<<20 {
				c.add(Ev{Packet: &refc.Packet{Raw: append([]byte(nil), buf...)}, At: at, Err: fmt.Errorf("length %d", l)})
				_ = c.C.Close()
				err = errors.New("garbled stream")
				break
			}
			if len(buf) < l {
				break
			}
			raw := append([]byte(nil), buf[:l]...)
			buf = buf[l:]
			p, perr := refc.ParseFrame(c.Proto, c.Ver, raw)
			if p == nil {
				p = &refc.Packet{Raw: raw}
			}
			e := Ev{Packet: p, At: at, Err: perr}
			c.add(e)
			if c.Auto != nil {
				c.Auto(c, e)
			}
		}
		if err != nil {
			c.mu.Lock()
			c.eof, c.eofErr, c.eofAt = true, err, at
			c.tail = buf
			close(c.wake)
			c.wake = make(chan struct{})
			c.mu.Unlock()
			return
		}
	}
}

func (c *Conn) add(e Ev) {
	c.mu.Lock()
	c.evs = append(c.evs, e)
	close(c.wake)
	c.wake = make(chan struct{})
	c.mu.Unlock()
}

// Evs is what was received so far.
func (c *Conn) Evs() []Ev {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Ev(nil), c.evs...)
}

// EOF tells whether the peer ended the connection, and whether in an orderly way.
func (c *Conn) EOF() (bool, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.eof, c.eofErr
}

// Tail is what was left over at the end of the stream.
func (c *Conn) Tail() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.tail
}

// Until waits until the condition over the packets received (and the end of the stream) holds.
func (c *Conn) Until(d time.Duration, f func(evs []Ev, eof bool) bool) bool {
	dl := time.NewTimer(d)
	defer dl.Stop()
	for {
		c.mu.Lock()
		evs, eof, w := c.evs, c.eof, c.wake
		c.mu.Unlock()
		if f(evs, eof) {
			return true
		}
		if eof {
			return false
		}
		select {
		case <-w:
		case <-dl.C:
			Stalled(d)
			return false
		}
	}
}

// WaitEOF waits for the end of the stream.
func (c *Conn) WaitEOF(d time.Duration) bool {
	return c.Until(d, func(_ []Ev, eof bool) bool { return eof })
}

// Next waits for the first packet from index i on that satisfies f; nil at the end of the stream or the watchdog.
func (c *Conn) Next(i int, d time.Duration, f func(Ev) bool) *Ev {
	var r *Ev
	c.Until(d, func(evs []Ev, _ bool) bool {
		for ; i < len(evs); i++ {
			if f(evs[i]) {
				e := evs[i]
				r = &e
				return true
			}
		}
		return false
	})
	return r
}

// Resp waits for the response with a sequence number.
func (c *Conn) Resp(kind string, seq []uint32, d time.Duration) *Ev {
	k := fmt.Sprint(seq)
	return c.Next(0, d, func(e Ev) bool { return e.Kind == kind+"_resp" && e.SeqKey() == k })
}

// NewSeq is a fresh sequence number.
func (c *Conn) NewSeq() []uint32 {
	s := atomic.AddUint32(&c.seq, 1)
	if c.Proto == refc.SGIP {
		return []uint32{3037196688, 1118213000, s}
	}
	return []uint32{s}
}

// Write sends octets.
func (c *Conn) Write(b []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	return c.write(b)
}

func (c *Conn) write(b []byte) error {
	_ = c.C.SetWriteDeadline(time.Now().Add(Watchdog()))
	_, err := c.C.Write(b)
	return err
}

// WriteCut sends octets in the given pieces, with a pause after each so that they arrive apart.
func (c *Conn) WriteCut(b []byte, cuts []int, pause time.Duration) error {
	c.wmu.Lock() // an automatic answer must not come in between
	defer c.wmu.Unlock()
	i := 0
	for _, n := range cuts {
		if i+n > len(b) {
			n = len(b) - i
		}
		if n <= 0 {
			continue
		}
		if err := c.write(b[i : i+n]); err != nil {
			return err
		}
		i += n
		if pause > 0 {
			time.Sleep(pause)
		}
	}
	if i < len(b) {
		return c.write(b[i:])
	}
	return nil
}

// Send sends a request and returns its sequence number.
func (c *Conn) Send(kind string, m refc.M) ([]uint32, error) {
	s := c.NewSeq()
	return s, c.Write(refc.Frame(c.Proto, c.Ver, kind, m, s...))
}

// Close ends the connection in an orderly way (FIN).
func (c *Conn) Close() { _ = c.C.Close() }

// Reset breaks the connection off (RST).
func (c *Conn) Reset() { _ = c.C.SetLinger(0); _ = c.C.Close() }

// LoginKind is the kind of a protocol's login request.
func LoginKind(proto string) string {
	return map[string]string{refc.CMPP: "connect", refc.SGIP: "bind", refc.SMGP: "login"}[proto]
}

// LogoutKind is the kind of a protocol's logout request.
func LogoutKind(proto string) string {
	return map[string]string{refc.CMPP: "terminate", refc.SGIP: "unbind", refc.SMGP: "exit"}[proto]
}

// LoginM is a valid login for an account.
func LoginM(a Account, ts uint32) refc.M {
	switch a.Isp {
	case refc.CMPP:
		return refc.M{"src": a.Id, "auth": gen.Auth(a.Isp, a.Id, a.Secret, ts), "ver": a.Ver, "ts": ts}
	case refc.SMGP:
		return refc.M{"client": a.Id, "auth": gen.Auth(a.Isp, a.Id, a.Secret, ts), "mode": []int{2, 0, 1}[ts%3], "ver": a.Ver, "ts": ts}
	}
	return refc.M{"type": []int{1, 2, 1, 11, 3, 1, 4}[ts%7], "name": a.Login, "password": a.Secret}
}

// Status is the status of a login response.
func Status(e *Ev) int {
	if e.Proto() == refc.SGIP {
		return int(e.M.U("result"))
	}
	return int(e.M.U("status"))
}

// Proto guesses the protocol of a login response.
func (e Ev) Proto() string {
	if _, ok := e.M["result"]; ok {
		return refc.SGIP
	}
	return ""
}

// ErrNoAnswer is a login that ended without a response.
var ErrNoAnswer = errors.New("connection closed without a login response")

// Login dials and logs in; it tries again when the gateway drops the login (its login workers are
// limited, a burst of logins beyond them is dropped).
func Login(g *Gateway, a Account, auto func(*Conn, Ev)) (*Conn, error) {
	var last error
	for i := 0; i < 40; i++ {
		c, st, err := TryLogin(g, a, auto)
		if err == nil && st == 0 {
			return c, nil
		}
		if c != nil {
			c.Close()
		}
		if err != nil {
			last = err
		} else {
			last = fmt.Errorf("login refused with %d", st)
		}
		if g.Dead() {
			return nil, errors.New("gateway process ended")
		}
		time.Sleep(time.Duration(25*(i+1)) * time.Millisecond)
	}
	return nil, last
}

// TryLogin dials and sends one login; the status is that of its response.
func TryLogin(g *Gateway, a Account, auto func(*Conn, Ev)) (*Conn, int, error) {
	c, err := Dial(g, a.Isp, a.Ver, auto)
	if err != nil {
		return nil, 0, err
	}
	st, err := c.LoginWith(LoginM(a, uint32(rand.Intn(1231235959))))
	return c, st, err
}

// LoginWith sends a login and waits for its response.
func (c *Conn) LoginWith(m refc.M) (int, error) {
	s, err := c.Send(LoginKind(c.Proto), m)
	if err != nil {
		return 0, ErrNoAnswer
	}
	e := c.Resp(LoginKind(c.Proto), s, Watchdog())
	if e == nil {
		if eof, _ := c.EOF(); eof {
			return 0, ErrNoAnswer
		}
		return 0, errors.New("no login response within the watchdog")
	}
	if e.Err != nil {
		return 0, e.Err
	}
	return Status(e), nil
}

// Auto answers: a client that acknowledges deliveries and heartbeats, as well-behaved ones do.
func AutoClient(c *Conn, e Ev) {
	if e.Err != nil {
		return
	}
	switch e.Kind {
	case "deliver":
		m := refc.M{"msgId": e.M["msgId"]}
		_ = c.Write(refc.Frame(c.Proto, c.Ver, "deliver_resp", m, e.Seq...))
	case "active":
		_ = c.Write(refc.Frame(c.Proto, c.Ver, "active_resp", refc.M{}, e.Seq...))
	}
}

// IsClosedErr tells whether the stream ended with FIN.
func IsClosedErr(err error) bool { return errors.Is(err, io.EOF) }
