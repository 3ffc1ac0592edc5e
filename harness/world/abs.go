// Package world holds the abstract (specification level) view of blocks and states, and the
// translation between it and the values of the real program.
package world

import (
	"math/big"
)

// Num is an amount, written as a decimal string (module Num of the specification).
type Num = string

func N(x *big.Int) Num {
	if x == nil {
		return "nil"
	}
	return x.String()
}

func B(s Num) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("not a number: " + s)
	}
	return x
}

type Tx struct {
	From      string `json:"from"`
	To        string `json:"to"`
	Val       Num    `json:"val"`
	Ty        int    `json:"ty"`
	Price     Num    `json:"price"`
	Tip       Num    `json:"tip"`
	Cap       Num    `json:"cap"`
	Gas       Num    `json:"gas"`
	Hok       bool   `json:"hok"`
	Data      []byte `json:"-"`
	Homestead bool   `json:"-"`
}

type Ev struct {
	From string `json:"from"`
	Val  Num    `json:"val"`
	Addr string `json:"addr"`
}

// BV is the beacon node's record of a validator.
type BV struct {
	Ok     bool   `json:"ok"`
	Id     int    `json:"id"`
	Idx    int    `json:"idx"`
	Status string `json:"status"`
	Eff    Num    `json:"eff"`
	Cred   string `json:"cred"` // bls, eth1, electra, other
	Wa     string `json:"wa"`   // "" unless eth1/electra (see WaOf)
	Key    string `json:"key"`
	Raw    []byte `json:"-"` // 32 byte credentials
}

type Sub struct {
	Id   int    `json:"id"`
	Coll Num    `json:"coll"`
	From string `json:"from"`
	V    BV     `json:"v"`
}

type Unsub struct {
	Id   int    `json:"id"`
	From string `json:"from"`
	V    BV     `json:"v"`
}

type Blk struct {
	Slot   int      `json:"slot"`
	Vi     int      `json:"vi"`
	Key    string   `json:"key"`
	Cred   string   `json:"cred"`
	Wa     string   `json:"wa"`
	Missed bool     `json:"missed"`
	Bnum   int      `json:"bnum"`
	FeeRec string   `json:"feeRec"`
	Pbase  Num      `json:"pbase"`
	Pgas   Num      `json:"pgas"`
	Txs    []Tx     `json:"txs"`
	Hdr    bool     `json:"hdr"`
	Hbase  Num      `json:"hbase"`
	Nrec   int      `json:"nrec"`
	Ers    []Ev     `json:"ers"`
	Subs   []Sub    `json:"subs"`
	Unsubs []Unsub  `json:"unsubs"`
	Bans   []int    `json:"bans"`
	Unbans []int    `json:"unbans"`
	Fees   []int    `json:"fees"`
	Recips []string `json:"recips"`
	Csizes []int    `json:"csizes"`
	Colls  []Num    `json:"colls"`

	Version string `json:"version"` // beacon block version, not part of the specification
	Prop    BV     `json:"-"`       // proposer record
}

type Cons struct {
	S int `json:"s"`
	T int `json:"t"`
}

type Env struct {
	V       []BV   `json:"v"`
	Cons    []Cons `json:"cons"`
	ConsErr bool   `json:"consErr"`
	ValErr  bool   `json:"valErr"`
}

type Val struct {
	Id   int    `json:"id"`
	St   string `json:"st"`
	Acc  Num    `json:"acc"`
	Pend Num    `json:"pend"`
	Coll Num    `json:"coll"`
	Wa   string `json:"wa"`
	Key  string `json:"key"`
	Ty   string `json:"ty"`
}

type St struct {
	Slot  int   `json:"slot"`
	Next  int   `json:"next"`
	Block int   `json:"block"`
	Pool  Num   `json:"pool"`
	Fee   int   `json:"fee"`
	Vals  []Val `json:"vals"`
}

type Sum struct {
	Slot  int    `json:"slot"`
	Block int    `json:"block"`
	Vi    int    `json:"vi"`
	Key   string `json:"key"`
	Wa    string `json:"wa"`
	Kind  string `json:"kind"`
	Rew   Num    `json:"rew"`
	Rty   string `json:"rty"`
}

type New struct {
	Prop   []Sum `json:"prop"`
	Missed []Sum `json:"missed"`
	Wrong  []Sum `json:"wrong"`
	Don    []Ev  `json:"don"`
	Ers    []Ev  `json:"ers"`
	Subs   int   `json:"subs"`
	Unsubs int   `json:"unsubs"`
	Prefix bool  `json:"prefix"`
}

// Negative tells if some balance is below zero.
func (s St) Negative() bool {
	for _, v := range s.Vals {
		if v.Acc[0] == '-' || v.Pend[0] == '-' {
			return true
		}
	}
	return s.Pool[0] == '-'
}
