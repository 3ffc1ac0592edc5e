package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifharness/fake"
	"verifharness/world"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

// run: the program itself, in its own process, between a beacon node, an execution node and a contract
// of ours.  It is held at every request it makes; there the world goes on (other oracles report, slots
// get final), requests fail, and the process is stopped or killed.  A reference oracle in this process
// follows the same chain.

func init() { cmds["run"] = runCmd }

var (
	mainBin  = flag.String("bin", "", "the program (run)")
	portBase = flag.Int("port", 20000, "ports for the program (run)")
)

// ---- the whole chain, served by the nodes -----------------------------------------------------------

type slotRec struct {
	b    world.Blk
	env  world.Env
	recs []world.BV
	cb   *spec.VersionedSignedBeaconBlock
	txs  []*types.Transaction
}

type liabRec struct {
	of   map[string]*big.Int // what belongs to an address
	sum  *big.Int            // all that is not yet paid, before claims
	uniq []string
}

type runWorld struct {
	r      *rand.Rand
	g      *world.Gen
	s      *served
	c      *fake.Chain
	pc     *fake.PoolContract
	tr     *world.Trace
	counts map[string]int
	base   string
	port   int

	slots    map[int]*slotRec
	byNum    map[uint64]int
	logs     []types.Log
	rcs      map[common.Hash]*types.Receipt
	top      int // last slot there is
	oc       *oracle.Onchain
	cons     string
	exec     string
	roots    map[uint64]string
	liab     map[string]liabRec // by block number (hex)
	initTx   *types.Transaction
	budget   int
	refused  bool
	unfinal  int
	syncSrv  *http.Server
	syncBody []byte
	syncCode int
	syncURL  string

	// the oracle
	dir     string
	member  common.Address
	keyFile string
	files   map[string]string // name -> content as last seen

	// what the process is asked now
	gate   chan *gateMsg
	gating bool
	fault  *fake.Fault
	sent   []txLine
	txPlan string
	funds  *big.Int
	books  *big.Int // added to the balance of the pool
	drift  int
	liar   bool // other members often lie
}

type gateMsg struct {
	req   fake.Req
	go_   chan struct{}
	fault *fake.Fault
}

type qLine struct {
	Ev string `json:"ev"`
	K  string `json:"k"`
	Ok bool   `json:"ok"`
	N  uint64 `json:"n"`
	S  string `json:"s"`
}

type bootLine struct {
	Ev   string `json:"ev"`
	Dry  bool   `json:"dry"`
	Bad  string `json:"bad"`
	Sync string `json:"sync"`
	SM   mem    `json:"sm"` // the state given by the other oracle
	Last uint64 `json:"last"`
	Nret int    `json:"nret"`
}

type txLine struct {
	Ev    string `json:"ev"`
	Slot  uint64 `json:"slot"`
	Root  string `json:"root"`
	From  string `json:"from"`
	To    string `json:"to"`
	Value string `json:"value"`
	Res   string `json:"res"`
}

type fileRec struct {
	Key uint64 `json:"key"`
	Ok  string `json:"ok"`
	M   mem    `json:"m"`
}

type diskLine struct {
	Ev    string    `json:"ev"`
	Files []fileRec `json:"files"`
	Other []string  `json:"other"`
}

type exitLine struct {
	Ev   string `json:"ev"`
	How  string `json:"how"`
	Code int    `json:"code"`
	Tail string `json:"tail"`
}

func (d *runWorld) q(k string, ok bool, n uint64, s string) {
	d.tr.Emit(qLine{"q", k, ok, n, s})
}

func newRun(seed int64, h int, tr *world.Trace, counts map[string]int, base string, port int) *runWorld {
	m := world.Modes["run"]
	g := world.NewGen(seed*9_000_011+int64(h), m)
	d := &runWorld{r: g.R, g: g, tr: tr, counts: counts, base: base, port: port, slots: map[int]*slotRec{}, byNum: map[uint64]int{},
		roots: map[uint64]string{}, liab: map[string]liabRec{}, files: map[string]string{}, gate: make(chan *gateMsg), rcs: map[common.Hash]*types.Receipt{}, funds: funds(g.R)}
	r := d.r
	n := g.N
	n.Ckpt = uint64(2 + r.Intn(7))
	if r.Intn(3) == 0 { // checkpoints where the validators are refreshed
		n.Ckpt = uint64(pickInt(r, 2, 3, 4, 5, 6, 8))
		x := int(n.Deploy)/1200*1200 + 1200
		n.Deploy = uint64(x) - n.Ckpt*uint64(2+r.Intn(3))
	}
	n.FeeAddr = common.HexToAddress(n.FeeAddr).Hex()
	if r.Intn(6) == 0 {
		n.FeeAddr = common.HexToAddress(g.Wal[0]).Hex()
	}
	n.Fresh()
	d.s = newServed(g, seed*37+int64(h))
	d.c, d.pc = d.s.c, d.s.pc
	c := d.c
	// the deployment block is the first one
	first, env := world.Blk{Missed: true}, world.Env{}
	for first.Missed || len(first.Ers)+len(first.Subs) > 0 {
		first, env = g.Next()
		g.Same(&first, &env)
		first.Slot = int(n.Deploy)
	}
	n.DBlock = uint64(first.Bnum)
	d.initTx = d.mkInit()
	n.Fresh()
	g.Bnum = first.Bnum

	d.install()
	key, _ := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprint("member", seed, h))))
	d.member = crypto.PubkeyToAddress(key.PublicKey)
	d.dir = filepath.Join(base, fmt.Sprintf("h%d", h))
	os.MkdirAll(d.dir, 0755)
	d.keyFile = filepath.Join(d.dir, "key.json")
	j, err := keystore.EncryptKey(&keystore.Key{Address: d.member, PrivateKey: key}, "pass", 2, 1)
	if err != nil {
		panic(err)
	}
	os.WriteFile(d.keyFile, j, 0600)
	pc := d.pc
	pc.Members = []common.Address{common.HexToAddress(g.Users[0]), d.member}
	for k := 0; k < r.Intn(3); k++ {
		pc.Members = append(pc.Members, common.HexToAddress(g.Users[1+k]))
	}
	pc.Quorum = uint64(1 + r.Intn(len(pc.Members)))
	pc.Ckpt, pc.Coll, pc.FeeRecipient = n.Ckpt, n.Coll, common.HexToAddress(n.FeeAddr)
	pc.DeployBlock, pc.PoolFee = new(big.Int).SetUint64(n.DBlock), big.NewInt(int64(n.Fee0))
	pc.LastSlot = n.Deploy + n.Ckpt*uint64(r.Intn(3))
	switch r.Intn(24) {
	case 0, 1:
		pc.LastSlot++ // never matches
	case 2, 3, 4:
		pc.LastSlot = n.Deploy - n.Ckpt*uint64(1+r.Intn(3)) // behind, maybe for good
	case 5:
		pc.LastSlot = 0
	}
	if d.liar = r.Intn(6) == 0; d.liar {
		for k := len(pc.Members); k < 4; k++ {
			pc.Members = append(pc.Members, common.HexToAddress(g.Users[k]))
		}
		pc.Quorum = 2
	}
	d.cons, d.exec = c.Start()
	d.oc, err = oracle.NewOnchain(&config.CliConfig{ConsensusEndpoint: d.cons, ExecutionEndpoint: d.exec, PoolAddress: n.Pool, NumRetries: 2}, nil)
	if err != nil {
		world.Fails("NewOnchain: " + err.Error())
	}
	n.WireFn = func(or *oracle.Oracle) {
		or.SetGetSetOfValidatorsFunc(d.oc.GetSetOfValidators)
		or.GetPendingConsolidationsFunc(d.oc.GetPendingConsolidations)
	}
	n.Wire(n.Or)
	d.budget = 25 + r.Intn(30)
	d.serveSync()

	tr.Emit(worldLine{Ev: "world", Net: n.Net, Deploy: n.Deploy, Ckpt: n.Ckpt, Fee0: n.Fee0, FeeAddr: strings.ToLower(n.FeeAddr), Pool: strings.ToLower(n.Pool), N: 1})
	l := blank("start", 0)
	l.M = memOf(n)
	tr.Emit(l)
	d.top = int(n.Deploy) - 1
	d.add(first, env)
	d.refused = d.slots[int(n.Deploy)] == nil || d.refused
	return d
}

func pickInt(r *rand.Rand, x ...int) int { return x[r.Intn(len(x))] }

// mkInit is the transaction that initialized the contract, in one of the ways it is deployed.
func (d *runWorld) mkInit() *types.Transaction {
	n := d.g.N
	in, err := d.c.Abi.Pack("initialize", common.HexToAddress(d.g.Users[0]), n.Coll, big.NewInt(int64(n.Fee0)), common.HexToAddress(n.FeeAddr), n.Ckpt, uint64(1))
	if err != nil {
		panic(err)
	}
	k, _ := crypto.ToECDSA(crypto.Keccak256([]byte("deployer")))
	t := &types.DynamicFeeTx{ChainID: new(big.Int).SetUint64(n.Chain), Gas: 3000000, GasFeeCap: big.NewInt(1e12), GasTipCap: big.NewInt(1), Value: big.NewInt(0)}
	if d.r.Intn(2) == 0 {
		to := common.HexToAddress(n.Pool)
		t.To, t.Data = &to, in
	} else {
		pre := make([]byte, 20+d.r.Intn(300))
		d.r.Read(pre)
		t.Data = append(pre, in...)
		t.Data = append(t.Data, make([]byte, d.r.Intn(40))...)
	}
	tx, err := types.SignNewTx(k, types.LatestSignerForChainID(t.ChainID), t)
	if err != nil {
		panic(err)
	}
	return tx
}

func (d *runWorld) install() {
	c, g := d.c, d.g
	c.Block = func(slot int) *spec.VersionedSignedBeaconBlock {
		if x := d.slots[slot]; x != nil {
			return x.cb
		}
		return nil
	}
	c.Validators = func(state string) []*v1.Validator {
		slot, err := strconv.Atoi(state)
		if err != nil {
			slot = c.Finalized
		}
		out := []*v1.Validator{}
		ids := append([]int{}, g.Ids...)
		sort.Ints(ids)
		for _, id := range ids {
			v := g.At(id, slot)
			if x := d.slots[slot]; x != nil {
				v = world.BV{}
				for _, y := range x.recs {
					if y.Id == id {
						v = y
					}
				}
			}
			if v.Ok {
				out = append(out, v.Real())
			}
		}
		return out
	}
	c.Consol = func(state string) ([][2]int, bool) {
		slot, _ := strconv.Atoi(state)
		out := [][2]int{}
		if x := d.slots[slot]; x != nil {
			for _, y := range x.env.Cons {
				out = append(out, [2]int{y.S, y.T})
			}
		}
		return out, true
	}
	c.ExecBlock = func(n uint64) *types.Block {
		if slot, ok := d.byNum[n]; ok {
			x := d.slots[slot]
			txs := append([]*types.Transaction{}, x.txs...)
			if n == g.N.DBlock {
				txs = append(txs, d.initTx)
			}
			return fake.MkBlock(n, c.Genesis+uint64(slot)*12, world.B(x.b.Hbase), txs)
		}
		return fake.MkBlock(n, c.Genesis+uint64(d.top+100)*12, big.NewInt(7), nil)
	}
	c.Gate = func(r fake.Req) *fake.Fault {
		if !d.gating {
			return nil
		}
		m := &gateMsg{r, make(chan struct{}), nil}
		d.gate <- m
		<-m.go_
		return m.fault
	}
	c.Balance = func(a common.Address, tag string) *big.Int {
		if a != c.Pool {
			return d.funds
		}
		l, ok := d.liab[tag]
		if !ok {
			return big.NewInt(5)
		}
		b := new(big.Int).Set(l.sum)
		for _, x := range l.uniq {
			b.Sub(b, d.claimed(x, l))
		}
		if d.books != nil {
			b.Add(b, d.books)
		}
		if b.Sign() < 0 {
			b.SetInt64(0)
		}
		return b
	}
	d.pc.Claimed = func(a common.Address, tag string) *big.Int {
		l, ok := d.liab[tag]
		if !ok {
			return big.NewInt(0)
		}
		return d.claimed(low(a), l)
	}
	c.Estimate = func(from, to common.Address, data []byte) error {
		if d.txPlan == "refused" {
			return fake.Revert{Reason: "DappnodeSmoothingPool::submitReport: Contract is paused"}
		}
		if len(data) < 4 || to != c.Pool {
			return fmt.Errorf("not a call to the pool")
		}
		args, err := c.Abi.Methods["submitReport"].Inputs.Unpack(data[4:])
		if err != nil {
			return fmt.Errorf("not a report")
		}
		return d.pc.CanSubmit(from, args[0].(uint64))
	}
	c.Send = func(tx *types.Transaction, from common.Address) error {
		l := txLine{Ev: "tx", From: low(from), Value: tx.Value().String(), Res: "other"}
		if tx.To() != nil {
			l.To = low(*tx.To())
		}
		defer func() { d.sent = append(d.sent, l) }()
		if len(tx.Data()) >= 4 && l.To == low(c.Pool) {
			if args, err := c.Abi.Methods["submitReport"].Inputs.Unpack(tx.Data()[4:]); err == nil {
				root := common.Hash(args[1].([32]byte))
				l.Slot, l.Root = args[0].(uint64), root.Hex()
				rc := &types.Receipt{Type: 2, Status: 1, TxHash: tx.Hash(), BlockNumber: new(big.Int).SetUint64(c.Head), Logs: []*types.Log{}, GasUsed: 21000, EffectiveGasPrice: big.NewInt(1)}
				l.Res = "mined"
				if d.txPlan == "lost" { // nobody ever includes it
					l.Res = "lost"
					return nil
				}
				if d.txPlan == "reverted" {
					rc.Status, l.Res = 0, "reverted"
				} else if err := d.pc.Submit(from, l.Slot, root); err != nil {
					rc.Status, l.Res = 0, "reverted"
				}
				c.Receipts[tx.Hash()] = rc
			}
		}
		return nil
	}
}

// funds is what the updater owns: anything but nothing.
func funds(r *rand.Rand) *big.Int {
	two := func(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }
	return []*big.Int{big.NewInt(1e18), big.NewInt(1), big.NewInt(999), two(63), new(big.Int).Sub(two(64), big.NewInt(1)), two(64), two(65), two(32), new(big.Int).Mul(two(64), big.NewInt(12345))}[r.Intn(9)]
}

// claimed is what an address already took: part of what was ever its own.
func (d *runWorld) claimed(a string, l liabRec) *big.Int {
	x := l.of[a]
	if x == nil {
		return big.NewInt(0)
	}
	h := crypto.Keccak256([]byte(a))
	return new(big.Int).Div(new(big.Int).Mul(x, big.NewInt(int64(h[0]%5))), big.NewInt(7))
}

// add puts one more slot on the chain and lets the reference oracle process it.
func (d *runWorld) add(b world.Blk, env world.Env) bool {
	g, c, r := d.g, d.c, d.r
	n := g.N
	gating := d.gating
	d.gating = false
	defer func() { d.gating = gating }()
	fin, head := c.Finalized, c.Head
	d.s.serve(b, env, r)
	c.Mu.Lock()
	x := &slotRec{b: b, env: env, recs: d.s.recs, cb: d.s.cb, txs: d.s.txs}
	kept := []types.Log{}
	for _, l := range c.Logs {
		if l.Address != c.Pool || l.BlockNumber == uint64(b.Bnum) {
			kept = append(kept, l)
		}
	}
	for h, rc := range c.Receipts {
		d.rcs[h] = rc
	}
	c.Receipts = d.rcs
	nlogs := len(d.logs)
	d.logs = append(d.logs, kept...)
	c.Logs = d.logs
	c.Finalized, c.Head = b.Slot, head
	d.slots[b.Slot] = x
	if !b.Missed {
		d.byNum[uint64(b.Bnum)] = b.Slot
		c.Head = uint64(b.Bnum) + 200
	}
	c.Mu.Unlock()
	before, cfg := world.Copy(n.Or.State()), *n.Cfg
	n.Cur = b.Slot
	l := blank("block", 0)
	l.Slot, l.InSame = uint64(b.Slot), true
	var fb *oracle.FullBlock
	l.Out, l.Msg = world.Try(func() error {
		fb = d.oc.FetchFullBlock(uint64(b.Slot), n.Or)
		_, err := n.Or.AdvanceStateToNextSlot(fb)
		return err
	})
	c.Mu.Lock()
	c.Finalized = fin
	c.Mu.Unlock()
	neg := l.Out == "ok" && world.Proj(n.Or.State()).Negative() // a known finding
	if neg {
		l.Out = "fatal"
	}
	if l.Out != "ok" {
		if l.Out == "fatal" || l.Out == "panic" {
			n.Reset(before, &cfg)
		}
		if neg || d.r.Intn(3) > 0 { // another block instead
			c.Mu.Lock()
			delete(d.slots, b.Slot)
			delete(d.byNum, uint64(b.Bnum))
			d.logs = d.logs[:nlogs]
			c.Logs = d.logs
			c.Mu.Unlock()
			return false
		}
		d.refused = true
	}
	d.counts["block:"+l.Out]++
	ck := "err"
	if k, err := n.Or.IsCheckpoint(); err == nil {
		ck = fmt.Sprint(k)
	}
	l.Ck = ck
	l.M = memOf(n)
	d.tr.Emit(l)
	d.top = b.Slot
	if l.Out != "ok" {
		d.tr.Emit(qLine{"refused", "", true, uint64(b.Slot), ""})
		return true
	}
	if ck == "true" {
		f := blank("freeze", 0)
		fillFreeze(&f, n.Or)
		f.M = memOf(n)
		d.tr.Emit(f)
		d.counts["freeze:"+f.Out]++
		if f.Enough {
			d.roots[uint64(b.Slot)] = f.Root
		}
		out, _ := world.Try(n.Or.RunOffchainReconciliation)
		if out != "ok" {
			d.tr.Emit(qLine{"nobalance", "", true, uint64(b.Slot), ""})
			d.refused = true
		}
	}
	st := n.Or.State()
	lr := liabRec{of: map[string]*big.Int{}, sum: new(big.Int).Set(st.PoolAccumulatedFees)}
	put := func(a string, x *big.Int) {
		a = strings.ToLower(a)
		if lr.of[a] == nil {
			lr.of[a] = new(big.Int)
			lr.uniq = append(lr.uniq, a)
		}
		lr.of[a].Add(lr.of[a], x)
	}
	put(st.PoolFeesAddress, st.PoolAccumulatedFees)
	for _, v := range st.Validators {
		put(v.WithdrawalAddress, v.AccumulatedRewardsWei)
		lr.sum.Add(lr.sum, v.AccumulatedRewardsWei)
		lr.sum.Add(lr.sum, v.PendingRewardsWei)
	}
	c.Mu.Lock()
	d.liab["0x"+strconv.FormatUint(st.LatestProcessedBlock, 16)] = lr
	c.Mu.Unlock()
	return true
}

func (d *runWorld) grow(k int) {
	for ; k > 0 && d.budget > 0 && !d.refused; k-- {
		d.budget--
		for t := 0; t < 10; t++ {
			b, env := d.g.Next()
			d.g.Same(&b, &env)
			env.ConsErr, env.ValErr = false, false
			for i := range b.Ers {
				b.Ers[i].Addr = low(d.c.Pool)
			}
			b.Slot = d.top + 1
			if d.add(b, env) {
				break
			}
		}
	}
}

// ---- another oracle's state, for checkpoint sync ----------------------------------------------------

func (d *runWorld) serveSync() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	d.syncURL = "http://" + l.Addr().String() + "/state"
	d.syncSrv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(d.syncCode)
		w.Write(d.syncBody)
	})}
	go d.syncSrv.Serve(l)
}

// offer prepares what the other oracle answers; false: it has nothing that makes sense.
func (d *runWorld) offer(kind string, line *bootLine) bool {
	n := d.g.N
	st, err := n.Or.StateWithHash()
	if err != nil || st.LatestProcessedSlot < st.DeployedSlot {
		return false
	}
	st = world.Copy(st)
	d.syncCode = 200
	line.SM = memOf(n)
	switch kind {
	case "unbalanced":
		ids := []uint64{}
		for id := range st.Validators {
			ids = append(ids, id)
		}
		if len(ids) == 0 {
			return false
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		v := st.Validators[ids[d.r.Intn(len(ids))]]
		x := []**big.Int{&v.AccumulatedRewardsWei, &v.PendingRewardsWei}[d.r.Intn(2)]
		*x = new(big.Int).Add(*x, big.NewInt(1))
		if d.r.Intn(3) == 0 {
			st.PoolAccumulatedFees = new(big.Int).Add(st.PoolAccumulatedFees, big.NewInt(1))
		}
		or := oracle.NewOracle(n.NewCfg())
		*or.State() = *st
		st, err = or.StateWithHash()
		if err != nil {
			return false
		}
	case "badhash":
		st.StateHash = strings.Repeat("ab", 32)
	case "404":
		d.syncCode = 404
	}
	d.syncBody, err = json.Marshal(st)
	return err == nil
}

// ---- what is on the disk ----------------------------------------------------------------------------

func (d *runWorld) look() {
	dir := filepath.Join(d.dir, "oracle-data")
	ents, _ := os.ReadDir(dir)
	now := map[string]string{}
	for _, e := range ents {
		raw, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		now[e.Name()] = string(raw)
	}
	same := len(now) == len(d.files)
	for k, v := range now {
		same = same && d.files[k] == v
	}
	if same {
		return
	}
	d.files = now
	l := diskLine{Ev: "disk", Files: []fileRec{}, Other: []string{}}
	for name, raw := range now {
		f := fileRec{Ok: "no", M: mem{Com: []com{}}}
		if name == oracle.StateJsonName {
			f.Key = 0
		} else if _, err := fmt.Sscanf(name, "state_%d.json", &f.Key); err != nil {
			l.Other = append(l.Other, name)
			continue
		}
		var st oracle.OracleState
		if json.Unmarshal([]byte(raw), &st) == nil {
			f.Ok = "yes"
			x := world.Node{Cfg: d.g.N.NewCfg()}
			x.Or = oracle.NewOracle(x.Cfg)
			*x.Or.State() = st
			f.M = memOf(&x)
			f.M.Cfg = 0
		}
		l.Files = append(l.Files, f)
	}
	sort.Slice(l.Files, func(i, j int) bool { return l.Files[i].Key < l.Files[j].Key })
	d.tr.Emit(l)
	d.counts["disk"]++
}

// ---- one life of the process ------------------------------------------------------------------------

type life struct {
	cmd     *exec.Cmd
	done    chan int
	out     *bytes.Buffer
	loop    bool // the main loop was reached
	stays   int
	polls   int
	termed  bool
	termAt  time.Time
	faulty  int // chance of a failure, percent
	quiet   int // requests before anything else may happen
	badBook bool
	killAt  string
}

func freePort(from int) int {
	for p := from; ; p++ {
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		l.Close()
		l, err = net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

func (d *runWorld) flush() {
	d.c.Mu.Lock()
	s := d.sent
	d.sent = nil
	d.c.Mu.Unlock()
	for _, l := range s {
		d.tr.Emit(l)
		d.counts["tx:"+l.Res]++
	}
}

func (d *runWorld) boot() {
	r := d.r
	line := bootLine{Ev: "boot", Last: d.pc.LastSlot, Nret: 1 + r.Intn(3), Bad: "", Sync: "none", SM: mem{Com: []com{}}}
	line.Dry = r.Intn(8) == 0
	pass := "pass"
	pool := d.g.N.Pool
	members, execChain, consChain, funds := d.pc.Members, d.c.ExecChain, d.c.ConsChain, d.funds
	dblock := d.pc.DeployBlock
	var gone *spec.VersionedSignedBeaconBlock
	if r.Intn(5) == 0 {
		line.Bad = []string{"chains", "network", "member", "funds", "pass", "deploy", "nodeploy"}[r.Intn(7)]
		if line.Dry && (line.Bad == "member" || line.Bad == "funds" || line.Bad == "pass") {
			line.Bad = "network"
		}
		switch line.Bad {
		case "chains":
			d.c.ConsChain = []uint64{1, 17000, 560048, 5}[r.Intn(4)]
			if d.c.ConsChain == d.c.ExecChain {
				d.c.ConsChain = 5
			}
		case "network":
			d.c.ConsChain = 31337
			d.c.ExecChain = 31337
		case "member":
			d.pc.Members = []common.Address{common.HexToAddress(d.g.Users[0]), common.HexToAddress(d.g.Users[1])}
		case "funds":
			d.funds = big.NewInt(0)
		case "pass":
			pass = "other"
		case "deploy":
			d.pc.DeployBlock = new(big.Int).Add(dblock, big.NewInt(int64(1+r.Intn(3))))
			if _, ok := d.byNum[d.pc.DeployBlock.Uint64()]; ok {
				d.pc.DeployBlock = new(big.Int).Add(dblock, big.NewInt(1_000_000))
			}
		case "nodeploy":
			gone = d.slots[int(d.g.N.Deploy)].cb
			d.slots[int(d.g.N.Deploy)].cb = nil
		}
	}
	if x := r.Intn(100); x < 15 && line.Bad == "" {
		k := []string{"good", "good", "unbalanced", "unbalanced", "badhash", "404"}[r.Intn(6)]
		if d.offer(k, &line) {
			line.Sync = k
		}
	}
	d.funds = funds
	if line.Bad == "funds" {
		d.funds = big.NewInt(0)
	}
	defer func() {
		d.pc.Members, d.c.ExecChain, d.c.ConsChain, d.funds, d.pc.DeployBlock = members, execChain, consChain, funds, dblock
		if gone != nil {
			d.slots[int(d.g.N.Deploy)].cb = gone
		}
	}()
	args := []string{"-consensus-endpoint", d.cons, "-execution-endpoint", d.exec, "-pool-address", pool, "-num-retries", strconv.Itoa(line.Nret),
		"-relayers-endpoints", "https://relay.example", "-log-level", "info"}
	p := freePort(d.port)
	p2 := freePort(p + 1)
	args = append(args, "-api-port", strconv.Itoa(p), "-metrics-port", strconv.Itoa(p2))
	if line.Dry {
		args = append(args, "-dry-run")
	} else {
		args = append(args, "-updater-keystore-file", d.keyFile, "-updater-keystore-pass", pass)
	}
	if line.Sync != "none" {
		args = append(args, "-checkpoint-sync-url", d.syncURL)
	}
	f := &life{done: make(chan int, 1), out: &bytes.Buffer{}}
	f.faulty = pickInt(r, 0, 0, 0, 3, 10)
	f.quiet = r.Intn(120)
	if r.Intn(3) == 0 {
		f.killAt = []string{"tx", "voted", "last", "validators", "header", "block", "balance"}[r.Intn(7)]
	}
	f.cmd = exec.Command(*mainBin, args...)
	f.cmd.Dir = d.dir
	f.cmd.Env = append(os.Environ(), "VERIF_TIME_SCALE=200000")
	f.cmd.Stdout, f.cmd.Stderr = f.out, f.out
	f.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	d.tr.Emit(line)
	d.counts["boot"]++
	if line.Bad != "" {
		d.counts["bad:"+line.Bad]++
	}
	if line.Sync != "none" {
		d.counts["sync:"+line.Sync]++
	}
	d.txPlan = ""
	d.books = nil
	d.gating = true
	if err := f.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		f.cmd.Wait()
		f.done <- f.cmd.ProcessState.ExitCode()
	}()
	idle := time.NewTimer(60 * time.Second)
	defer idle.Stop()
	for {
		if !idle.Stop() {
			select {
			case <-idle.C:
			default:
			}
		}
		idle.Reset(60 * time.Second)
		select {
		case m := <-d.gate:
			how := d.decide(f, m.req)
			m.fault, d.fault = d.fault, nil
			if how == "kill" || how == "term" {
				sig := syscall.SIGKILL
				if how == "term" {
					sig = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)]
				}
				f.cmd.Process.Signal(sig)
				if how == "term" {
					// it may need the answer to finish
					t := time.NewTimer(300 * time.Millisecond)
					select {
					case code := <-f.done:
						close(m.go_)
						d.end(f, how, code)
						return
					case <-t.C:
					}
					f.termed, f.termAt = true, time.Now()
					d.decide(f, m.req) // which writes it down
					close(m.go_)
					continue
				}
				code := <-f.done
				close(m.go_)
				d.end(f, how, code)
				return
			}
			close(m.go_)
		case code := <-f.done:
			how := "self"
			if f.termed {
				how = "term"
			}
			d.end(f, how, code)
			return
		case <-idle.C:
			f.cmd.Process.Kill()
			<-f.done
			d.end(f, "hang", -1)
			return
		}
	}
}

func (d *runWorld) end(f *life, how string, code int) {
	// nobody is held any more
	d.gating = false
	for {
		select {
		case m := <-d.gate:
			close(m.go_)
			continue
		default:
		}
		break
	}
	d.c.Busy.Wait()
	d.flush()
	d.look()
	tail := f.out.String()
	if len(tail) > 600 {
		tail = tail[len(tail)-600:]
	}
	if how != "self" && how != "hang" {
		tail = ""
	}
	d.tr.Emit(exitLine{"exit", how, code, tail})
	d.counts["exit:"+how]++
}

func (d *runWorld) vote() {
	// another member reports what the chain says
	next := d.pc.LastSlot + d.pc.Ckpt
	root, ok := d.roots[next]
	if !ok || d.r.Intn(2) == 0 {
		return
	}
	h := common.HexToHash(root)
	mine, _ := d.pc.Voted(d.member)
	if d.liar && mine != next && d.r.Intn(4) > 0 { // the others let the oracle report first
		return
	}
	if d.r.Intn(15) == 0 || d.liar && mine == next && d.r.Intn(4) > 0 {
		h = crypto.Keccak256Hash([]byte("lie"), h[:])
	}
	from := d.pc.Members[d.r.Intn(len(d.pc.Members))]
	if from == d.member {
		return
	}
	if s, _ := d.pc.Voted(from); s == next {
		return
	}
	d.pc.Submit(from, next, h)
	d.counts["othervote"]++
}

var loopFaults = []fake.Fault{{How: "drop"}, {How: "status", Status: 503, Body: "{}"}, {How: "garbage"}}

// decide what happens at a request: the answer, and what else goes on in the world.
func (d *runWorld) decide(f *life, q fake.Req) string {
	d.flush()
	d.look()
	r, c := d.r, d.c
	k := q.Kind
	switch {
	case k == "header":
		if !f.loop {
			f.loop = true
			d.q("loop", true, 0, "")
		}
	case k == "call:lastConsolidatedSlot":
		k = "last"
	case k == "call:rewardsRoot":
		k = "root"
	case k == "call:reportHashToReport":
		k = "voted"
	case k == "sendtx":
		k = "tx"
	}
	// stop?
	f.quiet--
	if f.termed {
		// it was told to stop and is still at it: nothing else happens anymore
		if time.Since(f.termAt) > 20*time.Second {
			return "kill"
		}
	} else if f.quiet < 0 && f.loop {
		x := r.Intn(1000)
		hit := f.killAt == k && r.Intn(3) == 0 || k == "state" && r.Intn(2) == 0
		if hit || x < 4 {
			if r.Intn(2) == 0 {
				return "kill"
			}
			return "term"
		}
	} else if !f.loop && r.Intn(1500) == 0 {
		return "kill"
	}
	if f.loop && !f.termed && (k == "last" || k == "voted") {
		d.vote()
		if f.polls++; f.polls > 30 { // nobody will ever consolidate it
			return []string{"kill", "term"}[r.Intn(2)]
		}
	}
	// faults
	if f.loop && !f.termed && r.Intn(100) < f.faulty {
		x := loopFaults[r.Intn(len(loopFaults))]
		d.fault = &x
		n, _ := strconv.Atoi(q.Arg)
		if k != "block" {
			n = 0
		}
		d.q(k, false, uint64(n), x.How)
		d.counts["fault"]++
		return ""
	}
	switch k {
	case "syncing":
		c.SyncDist = 0
		c.Quiet = r.Intn(2) == 0
		if f.loop && r.Intn(40) == 0 {
			c.SyncDist = 50
		} else if r.Intn(6) == 0 {
			c.SyncDist = 2
		}
		d.q(k, true, uint64(c.SyncDist), "")
	case "eth_syncing":
		c.ExecSyncing = f.loop && r.Intn(40) == 0
		x := uint64(0)
		if c.ExecSyncing {
			x = 1
		}
		d.q(k, true, x, "")
	case "header":
		f.polls = 0
		fin := c.Finalized
		if f.termed {
		} else if f.stays > 2 || r.Intn(4) == 0 || fin < int(d.g.N.Deploy) {
			f.stays = 0
			if fin >= d.top {
				d.grow(1 + r.Intn(6))
			}
			if d.top > fin {
				c.Finalized = fin + 1 + r.Intn(d.top-fin)
			} else if d.budget <= 0 || d.refused {
				f.killAt = "header"
				f.quiet = -1
				if f.drained(r) {
					return "term"
				}
			}
			if d.budget > 0 && !d.refused && r.Intn(3) == 0 {
				d.grow(1 + r.Intn(3)) // not final yet
			}
		} else {
			f.stays++
		}
		d.q(k, true, uint64(c.Finalized), "")
	case "block":
		n, _ := strconv.Atoi(q.Arg)
		d.q(k, true, uint64(n), "")
		if f.loop {
			f.stays = 0
		}
	case "voted":
		s, _ := d.pc.Voted(d.member)
		d.q(k, true, s, "")
	case "last":
		d.q(k, true, d.pc.LastSlot, "")
	case "root":
		d.q(k, true, 0, d.pc.Root.Hex())
	case "balance":
		if f.loop {
			d.books = nil
			tag := q.Arg[strings.Index(q.Arg, "@")+1:]
			if _, ok := d.liab[tag]; !ok {
				d.q("books?", true, 0, q.Arg)
				break
			}
			if r.Intn(4) == 0 {
				d.books = big.NewInt(int64(1 - 2*r.Intn(2)))
				d.counts["badbooks"]++
			}
			x := uint64(0)
			if d.books != nil && !(d.books.Sign() < 0 && d.liab[tag].sum.Sign() == 0) {
				x = 1
			}
			d.q(k, true, x, tag)
		}
	case "estimate:submitReport":
		d.txPlan = []string{"", "", "", "", "", "", "", "", "refused", "refused", "reverted", "lost"}[r.Intn(12)]
		d.q("estimate", true, 0, d.txPlan)
		if d.txPlan == "refused" {
			d.counts["tx:refused"]++
		}
	case "tx":
	default:
		if f.loop && (class(k) == "call" || k == "state") {
			d.q(k, true, 0, "")
		}
	}
	return ""
}

func (f *life) drained(r *rand.Rand) bool { return r.Intn(3) == 0 }

func (d *runWorld) stop() {
	d.syncSrv.Shutdown(context.Background())
	d.c.Stop()
	os.RemoveAll(d.dir)
}

func runCmd() map[string]interface{} {
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	base, err := os.MkdirTemp("", "vhrun")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	h := 0
	for tr.N < *steps {
		d := newRun(*seed, h, tr, counts, base, *portBase)
		h++
		if d.refused { // nothing to start with
			d.stop()
			continue
		}
		d.grow(2 + d.r.Intn(12))
		d.c.Finalized = int(d.g.N.Deploy) + d.r.Intn(d.top-int(d.g.N.Deploy)+1)
		for k := 3 + d.r.Intn(4); k > 0; k-- {
			d.boot()
			if d.r.Intn(2) == 0 {
				d.vote()
			}
		}
		d.stop()
		for k, v := range d.g.Counts {
			counts["gen:"+k] += v
		}
	}
	counts["histories"] = h
	counts["lines"] = tr.N
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": h, "lines": tr.N, "sample": 5}
}
