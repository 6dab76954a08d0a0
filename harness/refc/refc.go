// Package refc is an independent, table-driven codec of CMPP 2.x/3.x, SGIP 1.2 and SMGP 3.0,
// written from the protocol documents. It shares no code with the system under test.
package refc

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Protocols.
const (
	CMPP = "cmpp"
	SGIP = "sgip"
	SMGP = "smgp"
)

// M holds the fields of a message: uint64, string, []string, []byte or []TLV.
type M map[string]any

// TLV is an optional parameter of SMGP.
type TLV struct {
	T uint16
	V []byte
}

type field struct {
	name  string
	kind  byte // 'u' unsigned, 's' string, 'b' bytes of given length, 't' TLVs, 'r' raw bytes of fixed width
	width int
	count string // field holding the number of repetitions (strings) or the length (bytes)
}

// tables: name:W (unsigned), name:sW (string), name:rW (raw octets), name:sW*count, name:b*len, name:t
var tables = map[string]string{
	"cmpp/connect":        "src:s6 auth:r16 ver:1 ts:4",
	"cmpp/connect_resp/3": "status:4 auth:r16 ver:1",
	"cmpp/connect_resp/2": "status:1 auth:r16 ver:1",
	"cmpp/terminate":      "",
	"cmpp/terminate_resp": "",
	"cmpp/active":         "",
	"cmpp/active_resp":    "reserve:r1",
	"cmpp/submit/3":       "msgId:8 pkTotal:1 pkNumber:1 needReport:1 level:1 serviceId:s10 feeUser:1 feeTerm:s32 feeTermType:1 tpPid:1 tpUdhi:1 fmt:1 msgSrc:s6 feeType:s2 feeCode:s6 valid:s17 at:s17 src:s21 n:1 dest:s32*n destType:1 len:1 content:b*len linkId:s20",
	"cmpp/submit/2":       "msgId:8 pkTotal:1 pkNumber:1 needReport:1 level:1 serviceId:s10 feeUser:1 feeTerm:s21 tpPid:1 tpUdhi:1 fmt:1 msgSrc:s6 feeType:s2 feeCode:s6 valid:s17 at:s17 src:s21 n:1 dest:s21*n len:1 content:b*len reserve:r8",
	"cmpp/submit_resp/3":  "msgId:8 result:4",
	"cmpp/submit_resp/2":  "msgId:8 result:1",
	"cmpp/deliver/3":      "msgId:8 dest:s21 serviceId:s10 tpPid:1 tpUdhi:1 fmt:1 src:s32 srcType:1 isReport:1 len:1 content:b*len linkId:s20",
	"cmpp/deliver/2":      "msgId:8 dest:s21 serviceId:s10 tpPid:1 tpUdhi:1 fmt:1 src:s21 isReport:1 len:1 content:b*len reserve:r8",
	"cmpp/deliver_resp/3": "msgId:8 result:4",
	"cmpp/deliver_resp/2": "msgId:8 result:1",
	"cmpp/report":         "msgId:8 stat:s7 submitTime:s10 doneTime:s10 dest:s21 smsc:4",
	"sgip/bind":           "type:1 name:s16 password:s16 reserve:r8",
	"sgip/bind_resp":      "result:1 reserve:r8",
	"sgip/unbind":         "",
	"sgip/unbind_resp":    "",
	"sgip/submit":         "sp:s21 charge:s21 n:1 dest:s21*n corp:s5 service:s10 feeType:1 feeValue:s6 given:s6 agent:1 moreMt:1 level:1 valid:s16 at:s16 needReport:1 tpPid:1 tpUdhi:1 fmt:1 type:1 len:4 content:b*len reserve:r8",
	"sgip/submit_resp":    "result:1 reserve:r8",
	"sgip/deliver":        "src:s21 dest:s21 tpPid:1 tpUdhi:1 fmt:1 len:4 content:b*len reserve:r8",
	"sgip/deliver_resp":   "result:1 reserve:r8",
	"sgip/report":         "mt0:4 mt1:4 mt2:4 type:1 user:s21 state:1 err:1 reserve:r8",
	"sgip/report_resp":    "result:1 reserve:r8",
	"smgp/login":          "client:s8 auth:r16 mode:1 ts:4 ver:1",
	"smgp/login_resp":     "status:4 auth:r16 ver:1",
	"smgp/submit":         "type:1 needReport:1 level:1 serviceId:s10 feeType:s2 feeCode:s6 fixedFee:s6 fmt:1 valid:s17 at:s17 src:s21 charge:s21 n:1 dest:s21*n len:1 content:b*len reserve:r8 tlv:t",
	"smgp/submit_resp":    "msgId:r10 status:4",
	"smgp/deliver":        "msgId:r10 isReport:1 fmt:1 recv:s14 src:s21 dest:s21 len:1 content:b*len reserve:r8 tlv:t",
	"smgp/deliver_resp":   "msgId:r10 status:4",
	"smgp/active":         "",
	"smgp/active_resp":    "",
	"smgp/exit":           "",
	"smgp/exit_resp":      "",
}

var commands = map[string]uint32{
	"cmpp/connect": 1, "cmpp/terminate": 2, "cmpp/submit": 4, "cmpp/deliver": 5, "cmpp/active": 8,
	"sgip/bind": 1, "sgip/unbind": 2, "sgip/submit": 3, "sgip/deliver": 4, "sgip/report": 5,
	"smgp/login": 1, "smgp/submit": 2, "smgp/deliver": 3, "smgp/active": 4, "smgp/exit": 6,
}

var parsed = map[string][]field{}

func init() {
	for k, v := range tables {
		var fs []field
		for _, s := range strings.Fields(v) {
			p := strings.SplitN(s, ":", 2)
			f := field{name: p[0]}
			d := p[1]
			if i := strings.IndexByte(d, '*'); i >= 0 {
				f.count = d[i+1:]
				d = d[:i]
			}
			switch d[0] {
			case 's', 'r', 'b', 't':
				f.kind = d[0]
				d = d[1:]
			default:
				f.kind = 'u'
			}
			if d != "" {
				n, err := strconv.Atoi(d)
				if err != nil {
					panic(s)
				}
				f.width = n
			}
			fs = append(fs, f)
		}
		parsed[k] = fs
	}
}

// Cmd is the command id of a message kind such as submit or submit_resp.
func Cmd(proto, kind string) uint32 {
	base := strings.TrimSuffix(kind, "_resp")
	c, ok := commands[proto+"/"+base]
	if !ok {
		panic("no command " + proto + "/" + kind)
	}
	if base != kind {
		c |= 0x80000000
	}
	return c
}

// Kind is the message kind of a command id, "" when unknown.
func Kind(proto string, cmd uint32) string {
	for k, c := range commands {
		if strings.HasPrefix(k, proto+"/") && c == cmd&0x7fffffff {
			n := strings.TrimPrefix(k, proto+"/")
			if cmd&0x80000000 != 0 {
				n += "_resp"
			}
			return n
		}
	}
	return ""
}

func table(proto string, ver byte, kind string) []field {
	k := proto + "/" + kind
	if f, ok := parsed[k]; ok {
		return f
	}
	if ver&0xf0 == 0x30 {
		k += "/3"
	} else {
		k += "/2"
	}
	f, ok := parsed[k]
	if !ok {
		panic("no table " + k)
	}
	return f
}

// U reads an unsigned field.
func (m M) U(n string) uint64 {
	switch v := m[n].(type) {
	case uint64:
		return v
	case int:
		return uint64(v)
	case uint32:
		return uint64(v)
	case byte:
		return uint64(v)
	}
	return 0
}

// S reads a string field.
func (m M) S(n string) string { s, _ := m[n].(string); return s }

// B reads an octets field.
func (m M) B(n string) []byte { b, _ := m[n].([]byte); return b }

// L reads a repeated field.
func (m M) L(n string) []string { l, _ := m[n].([]string); return l }

// T reads the optional parameters.
func (m M) T(n string) []TLV { l, _ := m[n].([]TLV); return l }

// Tag finds the first optional parameter with the tag.
func (m M) Tag(t uint16) []byte {
	for _, x := range m.T("tlv") {
		if x.T == t {
			return x.V
		}
	}
	return nil
}

// Body encodes the fields of a message; count and length fields are filled in unless present.
func Body(proto string, ver byte, kind string, m M) []byte {
	var out []byte
	fs := table(proto, ver, kind)
	lens := map[string]int{}
	for _, f := range fs {
		if f.count != "" {
			if f.kind == 'b' {
				lens[f.count] = len(m.B(f.name))
			} else {
				lens[f.count] = len(m.L(f.name))
			}
		}
	}
	for _, f := range fs {
		switch f.kind {
		case 'u':
			v := m.U(f.name)
			if _, ok := m[f.name]; !ok {
				if l, ok := lens[f.name]; ok {
					v = uint64(l)
				}
			}
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], v)
			out = append(out, b[8-f.width:]...)
		case 's':
			var l []string
			if f.count != "" {
				l = m.L(f.name)
			} else {
				l = []string{m.S(f.name)}
			}
			for _, s := range l {
				b := make([]byte, f.width)
				copy(b, s)
				out = append(out, b...)
			}
		case 'r':
			b := make([]byte, f.width)
			copy(b, m.B(f.name))
			out = append(out, b...)
		case 'b':
			out = append(out, m.B(f.name)...)
		case 't':
			for _, t := range m.T(f.name) {
				out = append(out, byte(t.T>>8), byte(t.T), byte(len(t.V)>>8), byte(len(t.V)))
				out = append(out, t.V...)
			}
		}
	}
	return out
}

// Frame encodes a whole packet. For SGIP seq has three words, otherwise one.
func Frame(proto string, ver byte, kind string, m M, seq ...uint32) []byte {
	body := Body(proto, ver, kind, m)
	n := 8 + 4*len(seq) + len(body)
	out := make([]byte, 8, n)
	binary.BigEndian.PutUint32(out[0:], uint32(n))
	binary.BigEndian.PutUint32(out[4:], Cmd(proto, kind))
	for _, s := range seq {
		out = binary.BigEndian.AppendUint32(out, s)
	}
	return append(out, body...)
}

// Parse decodes the fields of a message strictly: nothing missing, nothing left, padding zero.
func Parse(proto string, ver byte, kind string, body []byte) (M, error) {
	m := M{}
	i := 0
	take := func(n int, name string) ([]byte, error) {
		if n < 0 || len(body)-i < n {
			return nil, fmt.Errorf("%s %s: field %s needs %d octets at %d, only %d left", proto, kind, name, n, i, len(body)-i)
		}
		b := body[i : i+n]
		i += n
		return b, nil
	}
	for _, f := range table(proto, ver, kind) {
		switch f.kind {
		case 'u':
			b, err := take(f.width, f.name)
			if err != nil {
				return m, err
			}
			var v uint64
			for _, x := range b {
				v = v<<8 | uint64(x)
			}
			m[f.name] = v
		case 's':
			n := 1
			if f.count != "" {
				n = int(m.U(f.count))
			}
			var l []string
			for k := 0; k < n; k++ {
				b, err := take(f.width, f.name)
				if err != nil {
					return m, err
				}
				z := len(b)
				for j, x := range b {
					if x == 0 {
						z = j
						break
					}
				}
				for _, x := range b[z:] {
					if x != 0 {
						return m, fmt.Errorf("%s %s: field %s has octets after its end: %x", proto, kind, f.name, b)
					}
				}
				l = append(l, string(b[:z]))
			}
			if f.count != "" {
				m[f.name] = l
			} else {
				m[f.name] = l[0]
			}
		case 'r':
			b, err := take(f.width, f.name)
			if err != nil {
				return m, err
			}
			m[f.name] = append([]byte(nil), b...)
		case 'b':
			b, err := take(int(m.U(f.count)), f.name)
			if err != nil {
				return m, err
			}
			m[f.name] = append([]byte(nil), b...)
		case 't':
			var l []TLV
			for i < len(body) {
				h, err := take(4, f.name)
				if err != nil {
					return m, err
				}
				v, err := take(int(binary.BigEndian.Uint16(h[2:])), f.name)
				if err != nil {
					return m, err
				}
				l = append(l, TLV{binary.BigEndian.Uint16(h), append([]byte(nil), v...)})
			}
			m[f.name] = l
		}
	}
	if i != len(body) {
		return m, fmt.Errorf("%s %s: %d octets left over", proto, kind, len(body)-i)
	}
	return m, nil
}

// Packet is a parsed packet.
type Packet struct {
	Kind string
	Cmd  uint32
	Seq  []uint32
	M    M
	Raw  []byte
}

// Seq64 joins the sequence number into one comparable value.
func (p *Packet) SeqKey() string { return fmt.Sprint(p.Seq) }

// HeadLen is the header length of a protocol.
func HeadLen(proto string) int {
	if proto == SGIP {
		return 20
	}
	return 12
}

// ParseFrame decodes a whole packet.
func ParseFrame(proto string, ver byte, b []byte) (*Packet, error) {
	h := HeadLen(proto)
	if len(b) < h {
		return nil, fmt.Errorf("%s: packet of %d octets has no header", proto, len(b))
	}
	if n := binary.BigEndian.Uint32(b); int(n) != len(b) {
		return nil, fmt.Errorf("%s: packet announces %d octets but has %d", proto, n, len(b))
	}
	p := &Packet{Cmd: binary.BigEndian.Uint32(b[4:]), Raw: b}
	for i := 8; i < h; i += 4 {
		p.Seq = append(p.Seq, binary.BigEndian.Uint32(b[i:]))
	}
	p.Kind = Kind(proto, p.Cmd)
	if p.Kind == "" {
		return p, fmt.Errorf("%s: unknown command %08x", proto, p.Cmd)
	}
	var err error
	body := b[h:]
	p.M, err = Parse(proto, ver, p.Kind, body)
	return p, err
}

// SmgpReport is the content of an SMGP status report.
type SmgpReport struct {
	ID                                          []byte
	Sub, Dlvrd, SubmitDate, DoneDate, Stat, Err string
}

// Octets encodes the report content.
func (r SmgpReport) Octets() []byte {
	fix := func(s string, n int) string { b := make([]byte, n); copy(b, s); return string(b) }
	s := "id:" + fix(string(r.ID), 10) + " sub:" + fix(r.Sub, 3) + " dlvrd:" + fix(r.Dlvrd, 3) +
		" submit date:" + fix(r.SubmitDate, 10) + " done date:" + fix(r.DoneDate, 10) +
		" stat:" + fix(r.Stat, 7) + " err:" + fix(r.Err, 3) + " text:" + fix("", 20)
	return []byte(s)
}

// ParseSmgpReport decodes the report content.
func ParseSmgpReport(b []byte) (r SmgpReport, err error) {
	i := 0
	lit := func(s string) {
		if err == nil && (len(b) < i+len(s) || string(b[i:i+len(s)]) != s) {
			err = fmt.Errorf("smgp report: no %q at %d of %q", s, i, b)
		}
		i += len(s)
	}
	val := func(n int) string {
		if err != nil || len(b) < i+n {
			if err == nil {
				err = fmt.Errorf("smgp report too short: %q", b)
			}
			return ""
		}
		s := string(b[i : i+n])
		i += n
		return s
	}
	lit("id:")
	r.ID = []byte(val(10))
	lit(" sub:")
	r.Sub = val(3)
	lit(" dlvrd:")
	r.Dlvrd = val(3)
	lit(" submit date:")
	r.SubmitDate = val(10)
	lit(" done date:")
	r.DoneDate = val(10)
	lit(" stat:")
	r.Stat = val(7)
	lit(" err:")
	r.Err = val(3)
	lit(" text:")
	val(20)
	if err == nil && i != len(b) {
		err = fmt.Errorf("smgp report: %d octets left over", len(b)-i)
	}
	return
}

// FieldInfo describes a field of a message.
type FieldInfo struct {
	Name  string
	Kind  byte // 'u' unsigned, 's' string, 'r' octets of fixed width, 'b' octets of announced length, 't' TLVs
	Width int
	Count string
}

// Fields lists the fields of a message in order.
func Fields(proto string, ver byte, kind string) (l []FieldInfo) {
	for _, f := range table(proto, ver, kind) {
		l = append(l, FieldInfo{f.name, f.kind, f.width, f.count})
	}
	return
}

// Bodies lists the message kinds of a protocol.
func Bodies(proto string) (l []string) {
	seen := map[string]bool{}
	for k := range tables {
		p := strings.Split(k, "/")
		if p[0] == proto && p[1] != "report" || p[0] == SGIP && proto == SGIP {
			if !seen[p[1]] {
				seen[p[1]] = true
				l = append(l, p[1])
			}
		}
	}
	sort.Strings(l)
	return
}
