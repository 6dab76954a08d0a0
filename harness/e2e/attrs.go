package e2e

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// Attrs are the attributes of an account as the code under test names them in JSON.
type Attrs struct {
	ISP             string        `json:"isp"`
	ClientId        string        `json:"clientId"`
	LoginName       string        `json:"loginName"`
	SharedSecret    string        `json:"sharedSecret"`
	Ver             byte          `json:"version"`
	NeedReport      byte          `json:"needReport"`
	SmsDisplayNo    string        `json:"smsDisplayNo"`
	ServiceId       string        `json:"serviceId"`
	DefaultMsgLevel byte          `json:"DefaultMsgLevel"`
	FeeUserType     byte          `json:"feeUserType"`
	FeeTerminalType byte          `json:"FeeTerminalType"`
	FeeTerminalId   string        `json:"feeTerminalId"`
	FeeType         string        `json:"feeType"`
	FeeCode         string        `json:"feeCode"`
	FixedFee        string        `json:"fixedFee"`
	LinkId          string        `json:"LinkId"`
	MtValidDuration time.Duration `json:"mtValidDuration"`
	MaxConns        int           `json:"maxConns"`
	MtWindowSize    int           `json:"mtWindowSize"`
	Throughput      int           `json:"throughput"`
}

// Attrs is what a lookup of the account has to yield.
func (a Account) Attrs() Attrs {
	v := a.Valid
	if v == "" {
		v = "2h"
	}
	d, _ := time.ParseDuration(v)
	return Attrs{a.Isp, a.Id, a.Login, a.Secret, a.Ver, a.NeedReport, a.Display, a.Service, a.Level, a.FeeUser, a.FeeTermType,
		a.FeeTerm, a.FeeType, a.FeeCode, a.Fixed, a.Link, d, a.MaxConns, a.Window, a.Tput}
}

// Versioned is version v of an account: every attribute tells the version.
func Versioned(isp, id string, v int) Account {
	s := fmt.Sprint(v)
	return Account{Isp: isp, Id: id, Login: "l" + s, Secret: "secret-" + s, Ver: byte(v), NeedReport: byte(v >> 1), Level: byte(v % 10),
		Display: "1069" + s, Service: "s" + s, FeeUser: byte(v % 200), FeeTermType: byte(v % 100), FeeTerm: "t" + s, FeeType: fmt.Sprintf("%02d", v%100), FeeCode: "c" + s,
		Fixed: "f" + s, Link: "k" + s, Valid: fmt.Sprintf("%dm", v+1), MaxConns: v + 1, Window: v + 2, Tput: v + 3}
}

// Version is the version the attributes say they are of; -1 when they do not say.
func (a Attrs) Version() int {
	s := strings.TrimPrefix(a.SharedSecret, "secret-")
	n, err := strconv.Atoi(s)
	if err != nil || s == a.SharedSecret {
		return -1
	}
	return n
}
