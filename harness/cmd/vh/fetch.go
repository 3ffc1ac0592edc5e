package main

import (
	"crypto/ecdsa"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"verifharness/fake"
	"verifharness/world"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

func init() { cmds["fetch"] = fetchCmd }

// ---- what is written down -------------------------------------------------------------------------

type dutyRec struct {
	Slot int    `json:"slot"`
	Id   int    `json:"id"`
	Key  string `json:"key"`
}

type logRec struct {
	Ev   string    `json:"ev"`
	Addr string    `json:"addr"`
	Bnum int       `json:"bnum"`
	Idx  int       `json:"idx"`
	Who  string    `json:"who"`
	Num  world.Num `json:"num"`
	Id   int       `json:"id"`
}

type askRec struct {
	K string `json:"k"`
	A string `json:"a"`
	F string `json:"f"` // what went wrong with it
}

type rcptRec struct {
	Hash string    `json:"hash"`
	Gas  world.Num `json:"gas"`
}

type gotRec struct {
	Duty   dutyRec    `json:"duty"`
	Rec    world.BV   `json:"rec"`
	Missed bool       `json:"missed"`
	Slot   int        `json:"slot"`
	Bnum   int        `json:"bnum"`
	FeeRec string     `json:"feeRec"`
	Pgas   world.Num  `json:"pgas"`
	Pbase  world.Num  `json:"pbase"`
	Txs    []string   `json:"txs"`
	Ers    []world.Ev `json:"ers"`
	Subs   []logRec   `json:"subs"`
	Unsubs []logRec   `json:"unsubs"`
	Bans   []int      `json:"bans"`
	Unbans []int      `json:"unbans"`
	Fees   []string   `json:"fees"`
	Recips []string   `json:"recips"`
	Csizes []int      `json:"csizes"`
	Colls  []string   `json:"colls"`
	SubV   []world.BV `json:"subV"`
	UnsubV []world.BV `json:"unsubV"`
	Hdr    bool       `json:"hdr"`
	Hnum   int        `json:"hnum"`
	Hbase  world.Num  `json:"hbase"`
	Rcpts  []rcptRec  `json:"rcpts"`
}

type fetchLine struct {
	Ev   string     `json:"ev"`
	Slot int        `json:"slot"`
	N    int        `json:"n"`
	B    world.Blk  `json:"b"`
	Duty dutyRec    `json:"duty"`
	Recs []world.BV `json:"recs"`
	Txs  []string   `json:"txs"`
	Logs []logRec   `json:"logs"`
	Reqs []askRec   `json:"reqs"`
	Out  string     `json:"out"`
	Err  string     `json:"err"`
	Got  gotRec     `json:"got"`
}

func absBV(v *v1.Validator) world.BV {
	if v == nil || v.Validator == nil {
		return world.BV{Eff: "0", Status: "unknown"}
	}
	raw := v.Validator.WithdrawalCredentials
	return world.BV{Ok: true, Id: int(v.Index), Idx: int(v.Index), Status: v.Status.String(), Eff: fmt.Sprint(uint64(v.Validator.EffectiveBalance)),
		Cred: world.CredKind(raw), Wa: world.WaOf(raw), Key: fmt.Sprintf("%#x", v.Validator.PublicKey)}
}

func low(a common.Address) string { return strings.ToLower(a.Hex()) }

func emptyGot() gotRec {
	return gotRec{Duty: dutyRec{}, Rec: absBV(nil), Txs: []string{}, Ers: []world.Ev{}, Subs: []logRec{}, Unsubs: []logRec{}, Bans: []int{}, Unbans: []int{},
		Fees: []string{}, Recips: []string{}, Csizes: []int{}, Colls: []string{}, SubV: []world.BV{}, UnsubV: []world.BV{}, Pgas: "0", Pbase: "0", Hbase: "0", Rcpts: []rcptRec{}}
}

type payload struct {
	num, gas uint64
	fee      bellatrix.ExecutionAddress
	base     *big.Int
	txs      []bellatrix.Transaction
}

func payloadOf(b *spec.VersionedSignedBeaconBlock) payload {
	le := func(x [32]byte) *big.Int {
		var be [32]byte
		for i := range x {
			be[31-i] = x[i]
		}
		return new(big.Int).SetBytes(be[:])
	}
	switch {
	case b.Bellatrix != nil:
		p := b.Bellatrix.Message.Body.ExecutionPayload
		return payload{p.BlockNumber, p.GasUsed, p.FeeRecipient, le(p.BaseFeePerGas), p.Transactions}
	case b.Capella != nil:
		p := b.Capella.Message.Body.ExecutionPayload
		return payload{p.BlockNumber, p.GasUsed, p.FeeRecipient, le(p.BaseFeePerGas), p.Transactions}
	case b.Deneb != nil:
		p := b.Deneb.Message.Body.ExecutionPayload
		return payload{p.BlockNumber, p.GasUsed, p.FeeRecipient, p.BaseFeePerGas.ToBig(), p.Transactions}
	case b.Electra != nil:
		p := b.Electra.Message.Body.ExecutionPayload
		return payload{p.BlockNumber, p.GasUsed, p.FeeRecipient, p.BaseFeePerGas.ToBig(), p.Transactions}
	}
	p := b.Fulu.Message.Body.ExecutionPayload
	return payload{p.BlockNumber, p.GasUsed, p.FeeRecipient, p.BaseFeePerGas.ToBig(), p.Transactions}
}

func gotOf(fb *oracle.FullBlock) gotRec {
	g := emptyGot()
	g.Duty = dutyRec{int(fb.ConsensusDuty.Slot), int(fb.ConsensusDuty.ValidatorIndex), fmt.Sprintf("%#x", fb.ConsensusDuty.PubKey)}
	g.Rec = absBV(fb.Validator)
	if fb.ConsensusBlock == nil {
		g.Missed = true
		return g
	}
	cb := fb.ConsensusBlock
	if sl, err := cb.Slot(); err == nil {
		g.Slot = int(sl)
	}
	p := payloadOf(cb)
	g.Bnum, g.FeeRec, g.Pgas, g.Pbase = int(p.num), low(common.Address(p.fee)), fmt.Sprint(p.gas), world.N(p.base)
	for _, raw := range p.txs {
		t := new(types.Transaction)
		if err := t.UnmarshalBinary(raw); err == nil {
			g.Txs = append(g.Txs, t.Hash().Hex())
		}
	}
	ev := fb.Events
	for _, e := range ev.EtherReceived {
		g.Ers = append(g.Ers, world.ProjEv(e))
	}
	for _, e := range ev.SubscribeValidator {
		g.Subs = append(g.Subs, logRec{Ev: "SubscribeValidator", Addr: low(e.Raw.Address), Who: low(e.Sender), Num: world.N(e.SubscriptionCollateral), Id: int(e.ValidatorID)})
	}
	for _, e := range ev.UnsubscribeValidator {
		g.Unsubs = append(g.Unsubs, logRec{Ev: "UnsubscribeValidator", Addr: low(e.Raw.Address), Who: low(e.Sender), Num: "0", Id: int(e.ValidatorID)})
	}
	for _, e := range ev.BanValidator {
		g.Bans = append(g.Bans, int(e.ValidatorID))
	}
	for _, e := range ev.UnbanValidator {
		g.Unbans = append(g.Unbans, int(e.ValidatorID))
	}
	for _, e := range ev.UpdatePoolFee {
		g.Fees = append(g.Fees, world.N(e.NewPoolFee))
	}
	for _, e := range ev.PoolFeeRecipient {
		g.Recips = append(g.Recips, low(e.NewPoolFeeRecipient))
	}
	for _, e := range ev.CheckpointSlotSize {
		g.Csizes = append(g.Csizes, int(e.NewCheckpointSlotSize))
	}
	for _, e := range ev.UpdateSubscriptionCollateral {
		g.Colls = append(g.Colls, world.N(e.NewSubscriptionCollateral))
	}
	for _, v := range fb.ValidatorsSubs {
		g.SubV = append(g.SubV, absBV(v))
	}
	for _, v := range fb.ValidatorsUnsubs {
		g.UnsubV = append(g.UnsubV, absBV(v))
	}
	if fb.ExecutionHeader != nil {
		g.Hdr, g.Hnum, g.Hbase = true, int(fb.ExecutionHeader.Number.Int64()), world.N(fb.ExecutionHeader.BaseFee)
	}
	for _, r := range fb.ExecutionReceipts {
		if r == nil {
			g.Rcpts = append(g.Rcpts, rcptRec{"none", "none"})
			continue
		}
		g.Rcpts = append(g.Rcpts, rcptRec{r.TxHash.Hex(), fmt.Sprint(r.GasUsed)})
	}
	return g
}

// ---- the world served by the nodes -------------------------------------------------------------------

type served struct {
	g    *world.Gen
	c    *fake.Chain
	pc   *fake.PoolContract
	slot int
	b    world.Blk
	env  world.Env
	ok   bool // a slot is being served
	txs  []*types.Transaction
	recs []world.BV
	logs []logRec
	cb   *spec.VersionedSignedBeaconBlock
}

func (s *served) recAt(id, slot int) world.BV {
	if s.ok && slot == s.slot {
		for _, v := range s.recs {
			if v.Id == id {
				return v
			}
		}
		return world.BV{}
	}
	return s.g.At(id, slot)
}

// hash decides the proposer of a slot
func proposer(ids []int, slot int, salt int64) int {
	x := uint64(slot)*0x9E3779B97F4A7C15 ^ uint64(salt)*0xC2B2AE3D27D4EB4F
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return ids[x%uint64(len(ids))]
}

func newServed(g *world.Gen, salt int64) *served {
	oracle.ProposalDutyCache = oracle.EpochDuties{}
	s := &served{g: g, c: fake.New()}
	c := s.c
	g.Vi = func(slot int) int { return proposer(g.Ids, slot, salt) }
	c.ConsChain, c.ExecChain = g.N.Chain, g.N.Chain
	c.Pool = common.HexToAddress(g.N.Pool)
	c.Duties = func(epoch int) []fake.Duty {
		out := []fake.Duty{}
		for k := 0; k < 32; k++ {
			id := g.Vi(epoch*32 + k)
			out = append(out, fake.Duty{Slot: epoch*32 + k, Index: id, Key: world.KeyOf(id)})
		}
		return out
	}
	c.Validators = func(state string) []*v1.Validator {
		slot, err := strconv.Atoi(state)
		if err != nil {
			slot = s.slot + 37 // finalized, head
		}
		out := []*v1.Validator{}
		ids := append([]int{}, g.Ids...)
		sort.Ints(ids)
		for _, id := range ids {
			if v := s.recAt(id, slot); v.Ok {
				out = append(out, v.Real())
			}
		}
		return out
	}
	c.Consol = func(state string) ([][2]int, bool) {
		out := [][2]int{}
		if state == strconv.Itoa(s.slot) {
			for _, x := range s.env.Cons {
				out = append(out, [2]int{x.S, x.T})
			}
		} else if len(g.Ids) > 1 {
			out = append(out, [2]int{g.Ids[0], g.Ids[1]})
		}
		return out, true
	}
	decoy := func(slot int) *spec.VersionedSignedBeaconBlock {
		id := g.Vi(slot)
		b := world.Blk{Slot: slot, Vi: id, Bnum: g.Bnum + 1, FeeRec: low(c.Pool), Pgas: "1", Pbase: "1", Version: "deneb"}
		return world.Beacon(b, nil)
	}
	c.Block = func(slot int) *spec.VersionedSignedBeaconBlock {
		if s.ok && slot == s.slot {
			return s.cb
		}
		return decoy(slot)
	}
	c.ExecBlock = func(n uint64) *types.Block {
		base := big.NewInt(int64(n%1000) + 7)
		if s.ok && !s.b.Missed && n == uint64(s.b.Bnum) {
			return fake.MkBlock(n, c.Genesis+uint64(s.slot)*12, world.B(s.b.Hbase), s.txs)
		}
		return fake.MkBlock(n, c.Genesis+uint64(s.slot+1)*12, base, nil)
	}
	c.Head = uint64(g.Bnum + 500)
	c.Finalized = s.slot + 64
	s.pc = &fake.PoolContract{Ckpt: g.N.Ckpt, Coll: g.N.Coll, Quorum: 2}
	c.Contract = s.pc
	return s
}

// serve puts the slot on the nodes, with other things next to it.
func (s *served) serve(b world.Blk, env world.Env, r *rand.Rand) {
	c, g := s.c, s.g
	c.Mu.Lock()
	defer c.Mu.Unlock()
	s.slot, s.b, s.env, s.ok = b.Slot, b, env, true
	s.recs = append([]world.BV{}, env.V...)
	c.Logs, c.Receipts, s.logs, s.txs, s.cb = nil, map[common.Hash]*types.Receipt{}, []logRec{}, nil, nil
	c.Finalized, c.Head = b.Slot+64, uint64(g.Bnum+500)
	if b.Missed {
		return
	}
	raw, txs, rcs := world.RealTxs(b, g.N.Chain, g.N.Acc)
	s.txs = txs
	s.cb = world.Beacon(b, raw)
	for i, rc := range rcs {
		rc.BlockHash = common.BigToHash(big.NewInt(int64(b.Bnum)))
		rc.EffectiveGasPrice = big.NewInt(1)
		c.Receipts[txs[i].Hash()] = rc
	}
	// the events of the block, in some order that keeps the order of those of a kind
	pool := c.Pool
	other := common.HexToAddress(g.Users[0])
	kinds := [][]logRec{}
	add := func(l []logRec) {
		if len(l) > 0 {
			kinds = append(kinds, l)
		}
	}
	l := []logRec{}
	for _, e := range b.Ers {
		l = append(l, logRec{Ev: "EtherReceived", Who: e.From, Num: e.Val})
	}
	add(l)
	l = nil
	for _, e := range b.Subs {
		l = append(l, logRec{Ev: "SubscribeValidator", Who: e.From, Num: e.Coll, Id: e.Id})
	}
	add(l)
	l = nil
	for _, e := range b.Unsubs {
		l = append(l, logRec{Ev: "UnsubscribeValidator", Who: e.From, Num: "0", Id: e.Id})
	}
	add(l)
	simple := func(ev string, ids []int) {
		var l []logRec
		for _, i := range ids {
			l = append(l, logRec{Ev: ev, Num: "0", Id: i})
		}
		add(l)
	}
	simple("BanValidator", b.Bans)
	simple("UnbanValidator", b.Unbans)
	simple("UpdatePoolFee", b.Fees)
	simple("UpdateCheckpointSlotSize", b.Csizes)
	l = nil
	for _, a := range b.Recips {
		l = append(l, logRec{Ev: "UpdatePoolFeeRecipient", Who: a, Num: "0"})
	}
	add(l)
	l = nil
	for _, x := range b.Colls {
		l = append(l, logRec{Ev: "UpdateSubscriptionCollateral", Num: x})
	}
	add(l)
	noise := []logRec{}
	for k := 0; k < r.Intn(3); k++ {
		noise = append(noise, logRec{Ev: []string{"ClaimRewards", "SetRewardRecipient", "SubmitReport"}[r.Intn(3)], Who: g.Users[1], Num: "5"})
	}
	add(noise)
	idx := r.Intn(50)
	put := func(x logRec, addr common.Address, bnum int) {
		x.Addr, x.Bnum, x.Idx = low(addr), bnum, idx
		idx += 1 + r.Intn(3)
		s.logs = append(s.logs, x)
		c.Logs = append(c.Logs, s.mk(x, addr))
	}
	decoy := func() logRec {
		switch r.Intn(9) {
		case 0:
			return logRec{Ev: "EtherReceived", Who: g.Users[2], Num: "777"}
		case 1:
			return logRec{Ev: "SubscribeValidator", Who: g.Users[2], Num: "10000", Id: g.Ids[0]}
		case 2:
			return logRec{Ev: "UnsubscribeValidator", Who: g.Users[2], Num: "0", Id: g.Ids[0]}
		case 3:
			return logRec{Ev: "BanValidator", Num: "0", Id: g.Ids[0]}
		case 4:
			return logRec{Ev: "UnbanValidator", Num: "0", Id: g.Ids[0]}
		case 5:
			return logRec{Ev: "UpdatePoolFee", Num: "0", Id: 123}
		case 6:
			return logRec{Ev: "UpdatePoolFeeRecipient", Who: g.Users[3], Num: "0"}
		case 7:
			return logRec{Ev: "UpdateCheckpointSlotSize", Num: "0", Id: 99}
		}
		return logRec{Ev: "UpdateSubscriptionCollateral", Num: "42"}
	}
	for k := 0; k < 3; k++ {
		put(decoy(), pool, b.Bnum-1)
	}
	for len(kinds) > 0 {
		if r.Intn(4) == 0 {
			put(decoy(), other, b.Bnum)
		}
		k := r.Intn(len(kinds))
		put(kinds[k][0], pool, b.Bnum)
		if kinds[k] = kinds[k][1:]; len(kinds[k]) == 0 {
			kinds = append(kinds[:k], kinds[k+1:]...)
		}
	}
	for k := 0; k < 3; k++ {
		put(decoy(), pool, b.Bnum+1)
	}
}

func (s *served) mk(x logRec, addr common.Address) types.Log {
	// a transaction may emit several
	h := common.BigToHash(big.NewInt(int64(x.Bnum)*1000 + int64(x.Idx/3) + 1))
	who := common.HexToAddress(x.Who)
	n := world.B(x.Num)
	id := uint64(x.Id)
	var args []interface{}
	switch x.Ev {
	case "EtherReceived":
		args = []interface{}{who, n}
	case "SubscribeValidator":
		args = []interface{}{who, n, id}
	case "UnsubscribeValidator":
		args = []interface{}{who, id}
	case "BanValidator", "UnbanValidator", "UpdateCheckpointSlotSize":
		args = []interface{}{id}
	case "UpdatePoolFee":
		args = []interface{}{new(big.Int).SetUint64(id)}
	case "UpdatePoolFeeRecipient":
		args = []interface{}{who}
	case "UpdateSubscriptionCollateral":
		args = []interface{}{n}
	case "ClaimRewards":
		args = []interface{}{who, who, n}
	case "SetRewardRecipient":
		args = []interface{}{who, who}
	case "SubmitReport":
		args = []interface{}{n, [32]byte{1}, who}
	}
	return s.c.Log(x.Ev, addr, uint64(x.Bnum), x.Idx, h, args...)
}

// ---- what goes wrong ---------------------------------------------------------------------------------

type faults struct {
	r    *rand.Rand
	plan map[string][]string // request -> what goes wrong with its first attempts
	pct  int
	n    int // retries
	log  []askRec
	only map[string]bool // kinds that fail for ever
	skip map[string]bool // kinds that do not fail
	on   bool
	sync bool // the sync status may fail too
	soft bool // never as many failures as attempts
	rep  bool // a report is being made
}

// reportFaults: what goes wrong while a report is made.
var reportFaults = map[string][]string{
	"eth_getTransactionCount":  {"drop", "h502", "rpc", "garbage"},
	"net_version":              {"drop", "h502", "rpc", "garbage"},
	"eth_maxPriorityFeePerGas": {"drop", "h502", "rpc", "garbage"},
	"execblock":                {"drop", "h502", "rpc", "garbage"},
	"estimate":                 {"drop", "h502", "rpc", "garbage"},
	"sendtx":                   {"drop", "h502", "rpc", "garbage"},
	"receipt":                  {"drop", "h502", "rpc", "null", "garbage"},
}

func class(kind string) string { return strings.SplitN(kind, ":", 2)[0] }

var faultsOf = map[string][]string{
	"duties":         {"drop", "cut", "500", "503", "404", "garbage", "empty", "wrong"},
	"block":          {"drop", "cut", "500", "503", "429", "garbage", "empty", "wrong"},
	"validators":     {"drop", "cut", "500", "503", "404", "garbage", "wrong"},
	"consolidations": {"drop", "cut", "500", "503", "404", "garbage"},
	"logs":           {"drop", "cut", "h429", "h502", "garbage", "rpc", "rpc404", "garble"},
	"receipt":        {"drop", "cut", "h429", "h502", "garbage", "rpc", "null"},
	"execblock":      {"drop", "cut", "h429", "h502", "garbage", "rpc", "null", "wrong"},
	"call":           {"drop", "cut", "h429", "h502", "garbage", "rpc"},
	"balance":        {"drop", "cut", "h429", "h502", "garbage", "rpc"},
	"state":          {"drop", "cut", "500", "503", "404", "garbage"},
	"header":         {"drop", "cut", "500", "503", "404", "garbage"},
	"syncing":        {"drop", "cut", "500", "503", "404", "garbage"},
	"eth_syncing":    {"drop", "cut", "h429", "h502", "garbage", "rpc"},
}

func mkFault(how string) *fake.Fault {
	switch how {
	case "500":
		return &fake.Fault{How: "status", Status: 500, Body: `{"code":500,"message":"INTERNAL: upstream answered 404 not found"}`}
	case "503":
		return &fake.Fault{How: "status", Status: 503, Body: `{"code":503,"message":"node is syncing"}`}
	case "429":
		return &fake.Fault{How: "status", Status: 429, Body: `{"code":429,"message":"404 requests too many"}`}
	case "404":
		return &fake.Fault{How: "status", Status: 404, Body: `{"code":404,"message":"NOT_FOUND: state"}`}
	case "h429":
		return &fake.Fault{How: "status", Status: 429, Body: "too many requests"}
	case "h502":
		return &fake.Fault{How: "status", Status: 502, Body: "bad gateway 404"}
	case "rpc":
		return &fake.Fault{How: "rpc", Body: "internal error"}
	case "rpc404":
		return &fake.Fault{How: "rpc", Body: "404: block not found"}
	}
	return &fake.Fault{How: how}
}

func (f *faults) decide(q fake.Req) *fake.Fault {
	c := class(q.Kind)
	hows, ok := faultsOf[c]
	if f.rep {
		hows, ok = reportFaults[c]
	}
	if !ok || !f.on || f.skip[c] {
		return nil
	}
	if c == "syncing" && !f.sync {
		return nil
	}
	key := q.Kind + "|" + q.Arg
	how := ""
	if f.only[c] {
		how = hows[f.r.Intn(len(hows))]
		if how == "wrong" || how == "empty" {
			how = "500"
		}
	} else {
		p, seen := f.plan[key]
		if !seen {
			if f.r.Intn(100) < f.pct {
				k := 1 + f.r.Intn(2)
				if f.n > 0 {
					k = 1 + f.r.Intn(f.n+1)
					if k >= f.n && (f.soft || f.r.Intn(3) > 0) {
						k = f.n - 1
					}
				}
				for i := 0; i < k; i++ {
					h := hows[f.r.Intn(len(hows))]
					if f.soft && (h == "wrong" || h == "empty" || h == "garble") {
						h = "drop"
					}
					p = append(p, h)
				}
			}
			f.plan[key] = p
		}
		if len(p) > 0 {
			how = p[0]
			f.plan[key] = p[1:]
		}
	}
	f.log = append(f.log, askRec{q.Kind, q.Arg, how})
	if how == "" {
		return nil
	}
	return mkFault(how)
}

func (f *faults) take(c *fake.Chain) []askRec {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	l := f.log
	f.log = nil
	if l == nil {
		l = []askRec{}
	}
	return l
}

var fetchCount int64

// updater is the key the reports are signed with.
var updater = func() *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte("updater of the fetch driver")))
	if err != nil {
		panic(err)
	}
	return k
}()

// fetchCmd fetches slots from faulty nodes and processes what was fetched.
func fetchCmd() map[string]interface{} {
	m := world.Modes["fetch"]
	addBuilders()
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	h := int64(0)
	for tr.N < *steps {
		g := world.NewGen(*seed*1_000_003+h, m)
		s := newServed(g, *seed*31+h)
		h++
		f := &faults{r: g.R, plan: map[string][]string{}, pct: []int{0, 10, 25, 50}[g.R.Intn(4)], n: g.R.Intn(5)}
		s.c.FaultFn = f.decide
		cons, exec := s.c.Start()
		oc, err := oracle.NewOnchain(&config.CliConfig{ConsensusEndpoint: cons, ExecutionEndpoint: exec, PoolAddress: g.N.Pool, NumRetries: f.n}, updater)
		if err != nil {
			world.Fails("NewOnchain: " + err.Error())
		}
		g.N.WireFn = func(or *oracle.Oracle) {
			or.SetGetSetOfValidatorsFunc(oc.GetSetOfValidators)
			or.GetPendingConsolidationsFunc(oc.GetPendingConsolidations)
		}
		g.N.Wire(g.N.Or)
		forget := func() { // the cached duties of the current epoch are lost
			on := f.on
			f.on = false
			ok := s.ok
			s.ok = false
			next := g.N.Or.State().NextSlotToProcess
			if out, msg := world.Try(func() error {
				oc.FetchFullBlock(next+96+uint64(atomic.AddInt64(&fetchCount, 1)%7)*32, g.N.Or)
				return nil
			}); out != "ok" {
				world.Fails("fetching a slot without faults: " + msg)
			}
			f.on, s.ok = on, ok
			f.take(s.c)
		}
		tr.Emit(g.N.InitLine())
		forget()
		for i := 0; i < 25+g.R.Intn(30); i++ {
			if g.R.Intn(100) < 4 {
				next := int(g.N.Or.State().NextSlotToProcess)
				g.Jump((next/1200+1)*1200 - g.R.Intn(2))
				tr.Emit(g.N.InitLine())
			}
			b, env := g.Next()
			g.Same(&b, &env)
			for k := range b.Ers {
				b.Ers[k].Addr = low(s.c.Pool)
			}
			if f.n == 0 {
				env.ConsErr, env.ValErr = false, false
			}
			s.serve(b, env, g.R)
			var fb *oracle.FullBlock
			for attempt := 0; ; attempt++ {
				f.plan = map[string][]string{}
				f.on = attempt < 3
				f.only = nil
				f.log = nil
				line := fetchLine{Ev: "fetch", Slot: b.Slot, N: f.n, B: b, Recs: s.recs, Logs: s.logs, Txs: []string{}, Got: emptyGot()}
				id := g.Vi(b.Slot)
				line.Duty = dutyRec{b.Slot, id, fmt.Sprintf("%#x", world.KeyOf(id))}
				for _, t := range s.txs {
					line.Txs = append(line.Txs, t.Hash().Hex())
				}
				before := world.Copy(g.N.Or.State())
				line.Out, line.Err = world.Try(func() error { fb = oc.FetchFullBlock(uint64(b.Slot), g.N.Or); return nil })
				if line.Out == "ok" {
					line.Got = gotOf(fb)
				}
				line.Reqs = f.take(s.c)
				if world.Digest(before) != world.Digest(g.N.Or.State()) {
					line.Out, line.Err = "changed", "fetching changed the state"
				}
				counts["fetch:"+line.Out]++
				for _, q := range line.Reqs {
					if q.F != "" {
						counts["fault:"+class(q.K)]++
					}
				}
				tr.Emit(line)
				if line.Out == "ok" {
					break
				}
				forget()
				if attempt > 4 {
					world.Fails("fetching a slot again and again: " + line.Err)
				}
			}
			if g.R.Intn(3) == 0 {
				for k := 0; k < 3; k++ {
					tr.Emit(ask(g, s, f, oc, counts))
				}
				tr.Emit(report(g, s, f, oc, counts))
			}
			// process it, with the real requests for the clean-up
			f.plan, f.only, f.on, f.soft = map[string][]string{}, map[string]bool{"consolidations": env.ConsErr, "validators": env.ValErr}, true, true
			line := g.N.StepWith(b, env, func() *oracle.FullBlock { return fb })
			f.soft = false
			f.on, f.only = false, nil
			f.take(s.c)
			counts["out:"+line.Out]++
			tr.Emit(line)
			if line.St.Negative() {
				break
			}
		}
		s.c.Stop()
		for k, v := range g.Counts {
			counts[k] += v
		}
	}
	counts["histories"] = int(h)
	counts["lines"] = tr.N
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": h, "lines": tr.N, "sample": 3}
}

// ---- other questions ------------------------------------------------------------------------------------

type askLine struct {
	Ev   string   `json:"ev"`
	What string   `json:"what"`
	N    int      `json:"n"`
	Reqs []askRec `json:"reqs"`
	Out  string   `json:"out"`
	Err  string   `json:"err"`
	Val  string   `json:"val"`
	Exp  string   `json:"exp"`
}

// ask asks the nodes something else the program wants to know; exp is how it is.
func ask(g *world.Gen, s *served, f *faults, oc *oracle.Onchain, counts map[string]int) askLine {
	r, c, pc := g.R, s.c, s.pc
	l := askLine{Ev: "ask", N: f.n}
	var run func() (string, error)
	num := func(a common.Address, tag string) *big.Int { // anything, but different for each address and block
		x := new(big.Int).SetBytes(a[:4])
		for _, ch := range tag {
			x.Mul(x, big.NewInt(7)).Add(x, big.NewInt(int64(ch)))
		}
		return x
	}
	c.Mu.Lock()
	c.Balance = func(a common.Address, tag string) *big.Int { return num(a, tag) }
	pc.Claimed = num
	pc.Members = []common.Address{common.HexToAddress(g.Users[0]), common.HexToAddress(g.Users[1])}
	pc.LastSlot, pc.Root = uint64(s.slot)-7, common.BigToHash(big.NewInt(int64(s.slot)))
	c.SyncDist, c.ExecSyncing = []int{0, 0, 1, 5, 6, 300}[r.Intn(6)], r.Intn(4) == 0
	c.Quiet = r.Intn(2) == 0
	c.Mu.Unlock()
	bnum := big.NewInt(int64(g.Bnum))
	tag := fmt.Sprintf("%#x", g.Bnum)
	user := common.HexToAddress(g.Users[r.Intn(3)])
	switch r.Intn(7) {
	case 0:
		l.What, l.Exp = "finalized", fmt.Sprint(c.Finalized)
		run = func() (string, error) {
			h, err := oc.FinalizedBeaconBlockHeader()
			if err != nil {
				return "", err
			}
			return fmt.Sprint(uint64(h.Header.Message.Slot)), nil
		}
	case 1:
		l.What, l.Exp = "sync", fmt.Sprint(!c.ExecSyncing && c.SyncDist <= 5)
		f.sync = true
		run = func() (string, error) { x, err := oc.AreNodesInSync(); return fmt.Sprint(x), err }
	case 2:
		l.What = "validators"
		// without indices the client reads the state, where the position is the index
		for i, v := range c.Validators("finalized") {
			l.Exp += fmt.Sprint(i, "/", v.Validator.WithdrawalCredentials[:2], " ")
		}
		run = func() (string, error) {
			vs, err := oc.GetFinalizedValidators()
			ids := []int{}
			for i := range vs {
				ids = append(ids, int(i))
			}
			sort.Ints(ids)
			x := ""
			for _, i := range ids {
				v := vs[phase0.ValidatorIndex(i)]
				x += fmt.Sprint(v.Index, "/", v.Validator.WithdrawalCredentials[:2], " ")
			}
			return x, err
		}
	case 3:
		l.What, l.Exp = "slotroot", fmt.Sprint(pc.LastSlot, " ", pc.Root.Hex())
		run = func() (string, error) {
			root, slot, err := oc.GetOnchainSlotAndRoot()
			return fmt.Sprint(slot, " ", root), err
		}
	case 4:
		l.What = "claimed"
		addrs := append([]string{}, g.Users[:2]...)
		for _, a := range addrs {
			l.Exp += num(common.HexToAddress(a), tag).String() + " "
		}
		run = func() (string, error) {
			m, err := oc.GetClaimedPerWithdrawalAddress(addrs, bnum)
			x := ""
			for _, a := range addrs {
				if v, ok := m[a]; ok {
					x += v.String() + " "
				}
			}
			return x, err
		}
	case 5:
		l.What, l.Exp = "balance", num(c.Pool, tag).String()
		run = func() (string, error) {
			b, err := oc.GetPoolEthBalance(bnum)
			if err != nil {
				return "", err
			}
			return b.String(), nil
		}
	case 6:
		l.What = "voted"
		sl := uint64(s.slot) - uint64(r.Intn(3))
		c.Mu.Lock()
		if user != pc.Members[0] {
			pc.SetVoted(user, sl, pc.Root, 1)
		}
		a, b := pc.Voted(user)
		c.Mu.Unlock()
		l.Exp = fmt.Sprint(a, " ", b)
		run = func() (string, error) {
			x, err := oc.GetAddressToVotedReport(user)
			return fmt.Sprint(x.Slot, " ", x.Votes), err
		}
	}
	f.plan, f.on, f.only, f.log = map[string][]string{}, true, nil, nil
	l.Out, l.Err = world.Try(func() error { v, err := run(); l.Val = v; return err })
	f.on, f.sync = false, false
	l.Reqs = f.take(c)
	counts["ask:"+l.What]++
	return l
}

// ---- reports ----------------------------------------------------------------------------------------------

type repLine struct {
	Ev    string   `json:"ev"`
	Slot  string   `json:"slot"`
	Root  string   `json:"root"` // in lower case with 0x
	Given string   `json:"given"`
	Well  bool     `json:"well"` // 32 bytes
	Plan  string   `json:"plan"`
	Reqs  []askRec `json:"reqs"`
	Out   string   `json:"out"`
	Err   string   `json:"err"`
	Sent  []repTx  `json:"sent"`
}
type repTx struct {
	From  string `json:"from"`
	To    string `json:"to"`
	Value string `json:"value"`
	Slot  string `json:"slot"`
	Root  string `json:"root"`
	Res   string `json:"res"`
}

// report lets the real code vote, once.
func report(g *world.Gen, s *served, f *faults, oc *oracle.Onchain, counts map[string]int) repLine {
	r, c := g.R, s.c
	slot := []uint64{uint64(s.slot), uint64(r.Intn(3)), 1 << 32, 1<<63 - 1, 1<<64 - 1, r.Uint64()}[r.Intn(6)]
	raw := make([]byte, 32)
	r.Read(raw)
	switch r.Intn(6) {
	case 0:
		raw[0] = 0
	case 1:
		raw = make([]byte, 32)
		raw[31] = byte(r.Intn(3))
	case 2:
		raw[31], raw[30] = 0, 0
	}
	hx := hex.EncodeToString(raw)
	l := repLine{Ev: "report", Slot: fmt.Sprint(slot), Root: "0x" + hx, Well: true, Sent: []repTx{},
		Plan: []string{"mined", "mined", "mined", "mined", "reverted", "refused"}[r.Intn(6)]}
	if r.Intn(120) == 0 {
		l.Plan = "lost"
	}
	l.Given = []string{"0x" + hx, "0x" + hx, hx}[r.Intn(3)]
	if r.Intn(8) == 0 {
		l.Given = []string{l.Given[:len(l.Given)-1], l.Given[:len(l.Given)-2], l.Given + "00", "0x", "", l.Given[:len(l.Given)-1] + "g", "0x00" + hx, "0X" + hx}[r.Intn(8)]
		l.Well = false
	}
	c.Mu.Lock()
	c.Estimate = func(from, to common.Address, data []byte) error {
		if l.Plan == "refused" {
			return fake.Revert{Reason: "DappnodeSmoothingPool::submitReport: not now"}
		}
		return nil
	}
	c.Send = func(tx *types.Transaction, from common.Address) error {
		t := repTx{From: low(from), Value: tx.Value().String(), Res: "other"}
		if tx.To() != nil {
			t.To = low(*tx.To())
		}
		if len(tx.Data()) >= 4 && tx.To() != nil {
			if args, err := c.Abi.Methods["submitReport"].Inputs.Unpack(tx.Data()[4:]); err == nil {
				t.Slot, t.Root = fmt.Sprint(args[0].(uint64)), common.Hash(args[1].([32]byte)).Hex()
				t.Res = l.Plan
				if l.Plan != "lost" {
					rc := &types.Receipt{Type: 2, Status: 1, TxHash: tx.Hash(), BlockNumber: new(big.Int).SetUint64(c.Head), Logs: []*types.Log{}, GasUsed: 21000, EffectiveGasPrice: big.NewInt(1)}
					if l.Plan == "reverted" {
						rc.Status = 0
					}
					c.Receipts[tx.Hash()] = rc
				}
			}
		}
		l.Sent = append(l.Sent, t)
		return nil
	}
	c.Mu.Unlock()
	f.plan, f.on, f.only, f.log, f.rep = map[string][]string{}, r.Intn(2) == 0, nil, nil, true
	l.Out, l.Err = world.Try(func() error { return oc.UpdateContractMerkleRoot(slot, l.Given) })
	f.on, f.rep = false, false
	l.Reqs = f.take(c)
	counts["report:"+l.Plan+":"+l.Out]++
	return l
}
