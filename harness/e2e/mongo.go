package e2e

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"strings"
	"sync"
	"time"
)

// BE is an element of a BSON document, D a document, BA an array. Values: string, int32, int64, float64, bool,
// time.Time, []byte (object id of 12 octets), nil, D, BA; Raw is a value of any type, as octets.
type BE struct {
	K string
	V any
}
type BD []BE
type BA []any
type BRaw struct {
	T byte
	B []byte
}

// Get finds a value.
func (d BD) Get(k string) any {
	for _, e := range d {
		if e.K == k {
			return e.V
		}
	}
	return nil
}

// Int is a value as an integer, whatever width it has.
func (d BD) Int(k string) int64 {
	switch v := d.Get(k).(type) {
	case int32:
		return int64(v)
	case int64:
		return v
	case float64:
		return int64(v)
	}
	return 0
}

// Str is a value as text.
func (d BD) Str(k string) string { s, _ := d.Get(k).(string); return s }

func bsonValue(v any) (byte, []byte) {
	u32 := func(n int) []byte { return binary.LittleEndian.AppendUint32(nil, uint32(n)) }
	switch v := v.(type) {
	case float64:
		return 1, binary.LittleEndian.AppendUint64(nil, math.Float64bits(v))
	case string:
		return 2, append(append(u32(len(v)+1), v...), 0)
	case BD:
		return 3, v.Bytes()
	case BA:
		var d BD
		for i, x := range v {
			d = append(d, BE{fmt.Sprint(i), x})
		}
		return 4, d.Bytes()
	case []byte:
		return 7, v
	case bool:
		if v {
			return 8, []byte{1}
		}
		return 8, []byte{0}
	case time.Time:
		return 9, binary.LittleEndian.AppendUint64(nil, uint64(v.UnixMilli()))
	case nil:
		return 10, nil
	case int32:
		return 16, u32(int(v))
	case int:
		return 16, u32(v)
	case int64:
		return 18, binary.LittleEndian.AppendUint64(nil, uint64(v))
	case BRaw:
		return v.T, v.B
	}
	panic(fmt.Sprintf("no BSON for %T", v))
}

// Bytes is the document's encoding.
func (d BD) Bytes() []byte {
	b := make([]byte, 4)
	for _, e := range d {
		t, v := bsonValue(e.V)
		b = append(append(append(b, t), e.K...), 0)
		b = append(b, v...)
	}
	b = append(b, 0)
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

type bsonErr string

func parseBSON(b []byte) (d BD, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("BSON: %v", p)
		}
	}()
	d, _ = bsonDoc(b)
	return
}

func bsonDoc(b []byte) (d BD, rest []byte) {
	n := int(binary.LittleEndian.Uint32(b))
	rest = b[n:]
	b = b[4 : n-1]
	cstr := func() string {
		for i, c := range b {
			if c == 0 {
				s := string(b[:i])
				b = b[i+1:]
				return s
			}
		}
		panic(bsonErr("no end of a name"))
	}
	take := func(n int) []byte { x := b[:n:n]; b = b[n:]; return x }
	for len(b) > 0 {
		t := take(1)[0]
		k := cstr()
		var v any
		switch t {
		case 1:
			v = math.Float64frombits(binary.LittleEndian.Uint64(take(8)))
		case 2:
			x := take(int(binary.LittleEndian.Uint32(take(4))))
			v = string(x[:len(x)-1])
		case 3:
			v, b = bsonDoc(b)
		case 4:
			var x BD
			x, b = bsonDoc(b)
			a := BA{}
			for _, e := range x {
				a = append(a, e.V)
			}
			v = a
		case 5:
			n := int(binary.LittleEndian.Uint32(take(4)))
			v = BRaw{5, append([]byte{}, take(n+1)...)}
		case 7:
			v = append([]byte{}, take(12)...)
		case 8:
			v = take(1)[0] != 0
		case 9:
			v = time.UnixMilli(int64(binary.LittleEndian.Uint64(take(8)))).UTC()
		case 19:
			v = BRaw{19, append([]byte{}, take(16)...)}
		case 10:
		case 16:
			v = int32(binary.LittleEndian.Uint32(take(4)))
		case 17, 18:
			v = int64(binary.LittleEndian.Uint64(take(8)))
		default:
			panic(bsonErr(fmt.Sprintf("type %d", t)))
		}
		d = append(d, BE{k, v})
	}
	return
}

// MongoOp is a command the database has answered, or been told to spoil.
type MongoOp struct {
	Cmd, Coll string
	N         int    // documents returned or stored
	Last      bool   // find, getMore: the result is complete
	Snap      int    // find, getMore: number of the state of the collection that is being read
	Fault     string // what was done to it instead of answering
}

type mongoCursor struct {
	coll string
	snap int
	docs []BD
}

// FakeMongo plays a MongoDB.
type FakeMongo struct {
	Port int
	// Batch is how many documents a find or getMore returns at a time (0: all).
	Batch int
	// Fault decides what becomes of a find, getMore or insert, which is the n-th of its kind: "" (answered), "error"
	// (an error reply), "drop" (the connection is closed), "dropAfter" (done, but the connection is closed instead
	// of a reply), or a time.Duration as text (the answer is late).
	Fault func(cmd, coll string, n int) string

	mu      sync.Mutex
	ln      net.Listener
	conns   map[net.Conn]bool
	docs    map[string][]BD
	snap    map[string]int
	cursors map[int64]*mongoCursor
	ncur    int64
	count   map[string]int
	ops     []MongoOp
	bad     []string
	dead    bool
	logins  []string
}

// Listen opens the port.
func (m *FakeMongo) Listen() (err error) {
	m.docs, m.snap, m.cursors, m.count, m.conns = map[string][]BD{}, map[string]int{}, map[int64]*mongoCursor{}, map[string]int{}, map[net.Conn]bool{}
	return m.listen()
}

func (m *FakeMongo) listen() (err error) {
	for try := 0; try < 50; try++ {
		if m.ln, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", m.Port)); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return
	}
	m.Port = m.ln.Addr().(*net.TCPAddr).Port
	go func(ln net.Listener) {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			m.mu.Lock()
			if m.dead {
				m.mu.Unlock()
				c.Close()
				return
			}
			m.conns[c] = true
			m.mu.Unlock()
			go m.serve(c)
		}
	}(m.ln)
	return
}

// Down takes the database down; Up brings it back with its documents.
func (m *FakeMongo) Down() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.dead = true
	m.ln.Close()
	for c := range m.conns {
		c.Close()
	}
	m.conns = map[net.Conn]bool{}
	m.cursors = map[int64]*mongoCursor{}
}

func (m *FakeMongo) Up() error {
	m.mu.Lock()
	m.dead = false
	m.mu.Unlock()
	return m.listen()
}

// Close ends it.
func (m *FakeMongo) Close() { m.Down() }

// Set makes these the documents of a collection ("db.collection"), and gives the number of that state.
func (m *FakeMongo) Set(coll string, docs []BD) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.docs[coll] = docs
	m.snap[coll]++
	return m.snap[coll]
}

// Docs are the documents of a collection.
func (m *FakeMongo) Docs(coll string) []BD {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]BD(nil), m.docs[coll]...)
}

// Ops are the commands so far.
func (m *FakeMongo) Ops() []MongoOp {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]MongoOp(nil), m.ops...)
}

// Bad is what the driver sent that is not understood: the harness cannot decide then.
func (m *FakeMongo) Bad() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string(nil), m.bad...)
}

func (m *FakeMongo) unknown(f string, a ...any) {
	m.mu.Lock()
	m.bad = append(m.bad, fmt.Sprintf(f, a...))
	m.mu.Unlock()
}

func (m *FakeMongo) serve(c net.Conn) {
	defer func() {
		c.Close()
		m.mu.Lock()
		delete(m.conns, c)
		m.mu.Unlock()
	}()
	rd := bufio.NewReader(c)
	for {
		h := make([]byte, 16)
		if _, err := io.ReadFull(rd, h); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h))
		if n < 16 || n > 48<<20 {
			m.unknown("message of %d octets", n)
			return
		}
		body := make([]byte, n-16)
		if _, err := io.ReadFull(rd, body); err != nil {
			return
		}
		var cmd BD
		var err error
		op := binary.LittleEndian.Uint32(h[12:])
		switch op {
		case 2004: // OP_QUERY
			i := 4
			for i < len(body) && body[i] != 0 {
				i++
			}
			cmd, err = parseBSON(body[i+9:])
			if len(cmd) == 1 && cmd[0].K == "$query" {
				cmd = cmd[0].V.(BD)
			}
		case 2013: // OP_MSG
			flags := binary.LittleEndian.Uint32(body)
			b := body[4:]
			if flags&1 != 0 {
				b = b[:len(b)-4]
			}
			for len(b) > 0 && err == nil {
				kind := b[0]
				b = b[1:]
				n := int(binary.LittleEndian.Uint32(b))
				if kind == 0 {
					var d BD
					d, err = parseBSON(b[:n])
					cmd = append(d, cmd...)
				} else {
					s := b[4:n]
					i := 0
					for s[i] != 0 {
						i++
					}
					var a BA
					for x := s[i+1:]; len(x) > 0 && err == nil; {
						k := int(binary.LittleEndian.Uint32(x))
						var d BD
						d, err = parseBSON(x[:k])
						a = append(a, d)
						x = x[k:]
					}
					cmd = append(cmd, BE{string(s[:i]), a})
				}
				b = b[n:]
			}
		default:
			m.unknown("operation %d", op)
			return
		}
		if err != nil || len(cmd) == 0 {
			m.unknown("a command that cannot be read: %v", err)
			return
		}
		reply, ok := m.do(cmd)
		if !ok {
			return
		}
		var out []byte
		le := binary.LittleEndian
		if op == 2004 {
			out = make([]byte, 16+20)
			le.PutUint32(out[12:], 1)
			le.PutUint32(out[16:], 8)
			le.PutUint32(out[32:], 1)
		} else {
			out = make([]byte, 16+5)
			le.PutUint32(out[12:], 2013)
		}
		out = append(out, reply.Bytes()...)
		le.PutUint32(out, uint32(len(out)))
		copy(out[8:12], h[4:8])
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func (m *FakeMongo) do(cmd BD) (reply BD, ok bool) {
	okay := BE{"ok", float64(1)}
	name, _ := cmd[0].V.(string)
	coll := cmd.Str("$db") + "." + name
	switch cmd[0].K {
	case "isMaster", "ismaster", "hello":
		return BD{{"ismaster", true}, {"isWritablePrimary", true}, {"maxBsonObjectSize", int32(16777216)}, {"maxMessageSizeBytes", int32(48000000)},
			{"maxWriteBatchSize", int32(100000)}, {"localTime", time.Now()}, {"minWireVersion", int32(0)}, {"maxWireVersion", int32(13)}, {"readOnly", false}, okay}, true
	case "saslStart": // PLAIN: anybody is let in
		b, _ := cmd.Get("payload").(BRaw)
		m.mu.Lock()
		m.logins = append(m.logins, string(b.B))
		m.mu.Unlock()
		return BD{{"conversationId", int32(1)}, {"done", true}, {"payload", BRaw{5, []byte{0, 0, 0, 0, 0}}}, okay}, true
	case "ping", "endSessions":
		return BD{okay}, true
	case "killCursors":
		m.mu.Lock()
		defer m.mu.Unlock()
		ids, _ := cmd.Get("cursors").(BA)
		for _, id := range ids {
			if n, ok := id.(int64); ok {
				delete(m.cursors, n)
			}
		}
		return BD{{"cursorsKilled", ids}, {"cursorsNotFound", BA{}}, {"cursorsAlive", BA{}}, {"cursorsUnknown", BA{}}, okay}, true
	case "find", "getMore", "insert":
	default:
		m.unknown("command %s", cmd[0].K)
		return BD{{"ok", float64(0)}, {"errmsg", "no such command: " + cmd[0].K}, {"code", int32(59)}, {"codeName", "CommandNotFound"}}, true
	}
	kind := cmd[0].K
	if kind == "getMore" {
		coll = cmd.Str("$db") + "." + cmd.Str("collection")
	}
	m.mu.Lock()
	n := m.count[kind]
	m.count[kind]++
	m.mu.Unlock()
	fault := ""
	if m.Fault != nil {
		fault = m.Fault(kind, coll, n)
	}
	o := MongoOp{Cmd: kind, Coll: coll, Fault: fault}
	defer func() {
		m.mu.Lock()
		m.ops = append(m.ops, o)
		m.mu.Unlock()
	}()
	switch fault {
	case "", "dropAfter":
	case "drop":
		return nil, false
	case "error":
		return BD{{"ok", float64(0)}, {"errmsg", "a fault"}, {"code", int32(8)}, {"codeName", "UnknownError"}}, true
	default:
		d, err := time.ParseDuration(fault)
		if err != nil {
			panic(err)
		}
		time.Sleep(d)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	switch kind {
	case "find":
		if f, _ := cmd.Get("filter").(BD); len(f) > 0 {
			m.bad = append(m.bad, fmt.Sprintf("find with filter %v", f))
		}
		cur := &mongoCursor{coll: coll, snap: m.snap[coll], docs: append([]BD(nil), m.docs[coll]...)}
		reply = m.batch(cur, 0, "firstBatch", &o)
	case "getMore":
		id, _ := cmd[0].V.(int64)
		cur := m.cursors[id]
		if cur == nil {
			return BD{{"ok", float64(0)}, {"errmsg", "cursor not found"}, {"code", int32(43)}, {"codeName", "CursorNotFound"}}, true
		}
		reply = m.batch(cur, id, "nextBatch", &o)
	case "insert":
		docs, _ := cmd.Get("documents").(BA)
		for _, d := range docs {
			m.docs[coll] = append(m.docs[coll], d.(BD))
		}
		o.N = len(docs)
		reply = BD{{"n", int32(len(docs))}, okay}
	}
	return reply, fault != "dropAfter"
}

func (m *FakeMongo) batch(cur *mongoCursor, id int64, name string, o *MongoOp) BD {
	n := len(cur.docs)
	if m.Batch > 0 && n > m.Batch {
		n = m.Batch
	}
	a := BA{}
	for _, d := range cur.docs[:n] {
		a = append(a, d)
	}
	cur.docs = cur.docs[n:]
	if len(cur.docs) == 0 {
		delete(m.cursors, id)
		id = 0
	} else if id == 0 {
		m.ncur++
		id = m.ncur
		m.cursors[id] = cur
	}
	o.N, o.Last, o.Snap = n, id == 0, cur.snap
	return BD{{"cursor", BD{{name, a}, {"id", id}, {"ns", cur.coll}}}, {"ok", float64(1)}}
}

// Logins are the credentials clients gave.
func (m *FakeMongo) Logins() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string{}, m.logins...)
}

// MongoLogin are settings with which a program logs in to the database, as MONGO_USER and MONGO_PASSWD.
func MongoLogin(port int) string {
	return strings.Replace(strings.Replace(MongoConfig(port), "mongodb://", "mongodb://<user>:<passwd>@", 1), "/?", "/?authMechanism=PLAIN&", 1)
}

// MongoConfig are the settings of a program that uses the database; it needs MongoEnv as well.
func MongoConfig(port int) string {
	return fmt.Sprintf("Mongo:\n  URI: \"mongodb://127.0.0.1:%d/?directConnection=true&serverSelectionTimeoutMS=4000\"\n  ConnectTimeout: 50s\n  ReadTimeout: 600s\n  WriteTimeout: 50s\n  HeartbeatInterval: 500ms\n  MinPoolSize: 1\n  MaxPoolSize: 10\n", port)
}

// MongoEnv are the environment's settings.
var MongoEnv = []string{"MONGO_USER=u", "MONGO_PASSWD=p"}
