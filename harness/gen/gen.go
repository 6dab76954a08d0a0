// Package gen generates inputs and computes, independently of the system under test, what the
// protocols demand for them.
package gen

import (
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"math/rand"
	"unicode/utf16"

	"golang.org/x/text/encoding/simplifiedchinese"

	"verif/refc"
)

// PV is a protocol version.
type PV struct {
	Proto string
	Ver   byte
}

func (p PV) String() string { return fmt.Sprintf("%s%02x", p.Proto, p.Ver) }

// All protocol versions in scope.
var All = []PV{{refc.CMPP, 0x30}, {refc.CMPP, 0x20}, {refc.CMPP, 0x21}, {refc.SGIP, 0x12}, {refc.SMGP, 0x30}, {refc.SMGP, 0x13}}

const (
	alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	print = alnum + " !#$%&()*+,-./:;<=>?@[]^_{|}~"
)

// Str is a random printable string of length n.
func Str(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = print[r.Intn(len(print))]
	}
	return string(b)
}

// Digits is a random decimal string of length n.
func Digits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

// UpTo is a random string of a random length, biased to the bounds of a field of width w; over allows
// values longer than the field.
func UpTo(r *rand.Rand, w, over int) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return Str(r, w)
	case 2:
		if over > 0 {
			return Str(r, w+1+r.Intn(over))
		}
		return Str(r, w)
	case 3:
		if w > 1 {
			return Str(r, w-1)
		}
	}
	return Str(r, r.Intn(w+1))
}

// Cut is the value a field of width w carries for s.
func Cut(s string, w int) string {
	if len(s) > w {
		return s[:w]
	}
	return s
}

var pools = [][]rune{
	[]rune("abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,!?@"),
	[]rune("您好短信网关移动联通电信测试内容验证码有效期分钟请勿泄露中文字符龘靐齉爩"),
	[]rune("éüñßøÀÿ€£¥×÷αβγДЖя♥→①㈱ｱ"),
	[]rune("😀🎉𠀀𪚥𝄞👍🏽"),
	[]rune("𐀀𐂀〇゛ㄅ\uffe5\u00a0\u2028"),
}

// Text is a random text of n characters; mode 0 is pure ASCII, 1 basic plane, 2 anything.
func Text(r *rand.Rand, n, mode int) string {
	out := make([]rune, n)
	for i := range out {
		k := 0
		switch mode {
		case 1:
			k = r.Intn(3)
		case 2:
			k = r.Intn(len(pools))
			if r.Intn(6) == 0 {
				for {
					c := rune(0x20 + r.Intn(0x10ffff-0x20))
					if c < 0xd800 || c > 0xf8ff { // no surrogates, no private use
						out[i] = c
						break
					}
				}
				continue
			}
		}
		p := pools[k]
		out[i] = p[r.Intn(len(p))]
	}
	return string(out)
}

// TextLen is a random length biased to the places where splitting changes.
func TextLen(r *rand.Rand, max int) int {
	spots := []int{0, 1, 2, 66, 67, 68, 69, 70, 71, 133, 134, 135, 136, 139, 140, 141, 152, 153, 154, 159, 160, 161, 162,
		200, 201, 202, 267, 268, 269, 306, 307, 308, 309, 320, 461, 462, 463}
	for {
		n := r.Intn(max + 1)
		switch r.Intn(4) {
		case 0:
			n = r.Intn(40)
		case 1, 2:
			n = spots[r.Intn(len(spots))]
		}
		if n <= max {
			return n
		}
	}
}

// UCS2 encodes text big-endian.
func UCS2(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

// FromUCS2 decodes big-endian text.
func FromUCS2(b []byte) string {
	var u []uint16
	for i := 0; i+1 < len(b); i += 2 {
		u = append(u, binary.BigEndian.Uint16(b[i:]))
	}
	return string(utf16.Decode(u))
}

// GB encodes text in GB 18030.
func GB(s string) []byte {
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

// FromGB decodes GB 18030.
func FromGB(b []byte) string {
	s, err := simplifiedchinese.GB18030.NewDecoder().Bytes(b)
	if err != nil {
		return "?" + err.Error()
	}
	return string(s)
}

// ASCII tells whether text has only 7-bit characters.
func ASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 0x7f {
			return false
		}
	}
	return true
}

// Coding is the data coding CMPP and SGIP use for a text.
func Coding(s string) byte {
	if ASCII(s) {
		return 0
	}
	return 8
}

// Octets encodes a text with the coding of its protocol.
func Octets(proto, s string) []byte {
	if proto == refc.SMGP {
		return GB(s)
	}
	if ASCII(s) {
		return []byte(s)
	}
	return UCS2(s)
}

// Auth is the login authenticator of CMPP and SMGP.
func Auth(proto, client, secret string, ts uint32) []byte {
	z := 9
	if proto == refc.SMGP {
		z = 7
	}
	b := append([]byte(client), make([]byte, z)...)
	b = append(b, secret...)
	b = append(b, fmt.Sprintf("%010d", ts)...)
	s := md5.Sum(b)
	return s[:]
}

// Proof is the gateway's authenticator in a login response with status 0.
func Proof(p PV, clientAuth []byte, secret string) []byte {
	b := []byte{0, 0, 0, 0}
	if p.Proto == refc.CMPP && p.Ver&0xf0 != 0x30 {
		b = b[:1]
	}
	b = append(b, clientAuth...)
	b = append(b, secret...)
	s := md5.Sum(b)
	return s[:]
}

// Bytes are random octets.
func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// Seq is a random sequence number of a protocol.
func Seq(r *rand.Rand, proto string) []uint32 {
	s := []uint32{r.Uint32()}
	if r.Intn(4) == 0 {
		s[0] = []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(5)]
	}
	if proto == refc.SGIP {
		s = append(s, r.Uint32(), r.Uint32())
	}
	return s
}

// Message is a random well-formed message of a kind, with text or report content where it has one.
// The key "text" of the result is the text its content encodes ("" for reports and binary).
func Message(r *rand.Rand, p PV, kind string) (refc.M, string) {
	m := refc.M{}
	text := ""
	for _, f := range refc.Fields(p.Proto, p.Ver, kind) {
		switch f.Kind {
		case 'u':
			if f.Name == "n" || f.Name == "len" {
				continue // filled in
			}
			m[f.Name] = r.Uint64() >> (64 - 8*f.Width)
		case 's':
			if f.Count != "" {
				var l []string
				n := 1 + r.Intn(4)
				if r.Intn(10) == 0 {
					n = []int{0, 1, 99, 100}[r.Intn(4)]
				}
				for i := 0; i < n; i++ {
					l = append(l, UpTo(r, f.Width, 0))
				}
				m[f.Name] = l
			} else {
				m[f.Name] = UpTo(r, f.Width, 0)
			}
		case 'r':
			b := make([]byte, f.Width)
			if f.Name != "reserve" {
				r.Read(b)
			}
			m[f.Name] = b
		case 't':
			var l []refc.TLV
			for i := r.Intn(5); i > 0; i-- {
				l = append(l, refc.TLV{T: uint16(r.Intn(0x300)), V: Bytes(r, 1+r.Intn(20))})
			}
			m[f.Name] = l
		}
	}
	switch kind {
	case "submit", "deliver":
		m["tpUdhi"] = 0
		max := 255
		if p.Proto == refc.SGIP {
			max = 1200
		}
		for {
			mode := r.Intn(3)
			text = Text(r, TextLen(r, max), mode)
			var b []byte
			if p.Proto == refc.SMGP {
				b = GB(text)
				m["fmt"] = 15
				if mode == 0 {
					m["fmt"] = []int{0, 15}[r.Intn(2)]
				}
			} else {
				b = Octets(p.Proto, text)
				m["fmt"] = Coding(text)
			}
			if len(b) <= max {
				m["content"] = b
				break
			}
		}
	}
	switch p.Proto + "/" + kind {
	case "cmpp/deliver":
		m["isReport"] = r.Intn(2)
		if m.U("isReport") == 1 {
			rep, _ := Message(r, p, "report")
			text = ""
			m["content"] = refc.Body(refc.CMPP, 0, "report", rep)
			m["report"] = rep
		}
	case "smgp/deliver":
		m["isReport"] = r.Intn(2)
		if m.U("isReport") == 1 {
			rep := refc.SmgpReport{ID: Bytes(r, 10), Sub: Digits(r, 3), Dlvrd: Digits(r, 3), SubmitDate: Digits(r, 10),
				DoneDate: Digits(r, 10), Stat: Str(r, 7), Err: Digits(r, 3)}
			text = ""
			m["content"] = rep.Octets()
			m["report"] = rep
		}
	case "cmpp/connect", "smgp/login":
		m["ver"] = p.Ver
	case "cmpp/connect_resp":
		m["ver"] = p.Ver
		m["status"] = r.Intn(6)
	case "smgp/login_resp":
		m["ver"] = p.Ver
	}
	return m, text
}
