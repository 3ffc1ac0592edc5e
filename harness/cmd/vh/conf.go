package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verifharness/fake"
	"verifharness/world"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

// conf: what the oracle takes for its configuration, from every kind of chain and deployment.

func init() { cmds["conf"] = confCmd }

type confTx struct {
	To  string `json:"to"`  // pool | other | new
	Fee int    `json:"fee"` // of the initialization in it; -1: none
	Bad bool   `json:"bad"` // an initialization that cannot be read
}

type confIn struct {
	Cons     uint64   `json:"cons,string"`
	Exec     uint64   `json:"exec,string"`
	Genesis  uint64   `json:"genesis"`
	Time     uint64   `json:"time"` // of the deployment block
	Bnum     uint64   `json:"bnum"`
	SlotBnum string   `json:"slotBnum"` // block number in the beacon block of that slot; "none": no such block
	Txs      []confTx `json:"txs"`
	Ckpt     uint64   `json:"ckpt"`
	Coll     string   `json:"coll"`
	FeeAddr  string   `json:"feeAddr"`
	Pool     string   `json:"pool"`
	Dry      bool     `json:"dry"`
	N        int      `json:"n"`
}

type confOut struct {
	Net     string `json:"net"`
	Slot    uint64 `json:"slot"`
	Block   uint64 `json:"block"`
	Ckpt    uint64 `json:"ckpt"`
	Fee     int    `json:"fee"`
	FeeAddr string `json:"feeAddr"`
	Coll    string `json:"coll"`
	Pool    string `json:"pool"`
	Dry     bool   `json:"dry"`
	N       int    `json:"n"`
	Chain   uint64 `json:"chain,string"`
}

type confLine struct {
	Ev     string   `json:"ev"`
	In     confIn   `json:"in"`
	Out    string   `json:"out"`
	Msg    string   `json:"msg"`
	Got    confOut  `json:"got"`
	Faulty bool     `json:"faulty"`
	Reqs   []askRec `json:"reqs"`
}

func confCmd() map[string]interface{} {
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	r := rand.New(rand.NewSource(*seed*77_003 + 5))
	for tr.N < *steps {
		l := oneConf(r, counts)
		tr.Emit(l)
		counts["out:"+l.Out]++
		if l.Faulty {
			counts["faulty"]++
		}
	}
	counts["lines"] = tr.N
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": tr.N, "lines": tr.N, "sample": 3}
}

func oneConf(r *rand.Rand, counts map[string]int) confLine {
	ids := []uint64{1, 5, 17000, 560048}
	in := confIn{Cons: ids[r.Intn(4)], N: 1 + r.Intn(3), Dry: r.Intn(2) == 0, Txs: []confTx{}}
	if r.Intn(8) == 0 {
		in.Cons = []uint64{3, 2, 100, 31337, 11155111, 560047, 17001}[r.Intn(7)]
	}
	in.Exec = in.Cons
	split := "" // when the clients begin to differ
	if r.Intn(8) == 0 {
		in.Exec = ids[r.Intn(4)]
		if d := uint64(1) << []int{8, 16, 31, 32, 33, 62}[r.Intn(6)]; r.Intn(3) == 0 { // similar numbers
			in.Exec = in.Cons + d
			if r.Intn(2) == 0 {
				in.Cons, in.Exec = in.Exec, in.Cons
			}
		}
		split = []string{"new", "config"}[r.Intn(2)]
	}
	in.Genesis = []uint64{1606824023, 1742213400, 1695902400, uint64(r.Intn(1 << 30))}[r.Intn(4)]
	slot := uint64([]int{r.Intn(100), r.Intn(20_000_000), 1 + r.Intn(1_000_000)}[r.Intn(3)])
	in.Time = in.Genesis + 12*slot
	in.Bnum = uint64(1 + r.Intn(30_000_000))
	in.SlotBnum = fmt.Sprint(in.Bnum)
	switch r.Intn(12) {
	case 0:
		in.SlotBnum = fmt.Sprint(in.Bnum + uint64(1+r.Intn(2)))
	case 1:
		in.SlotBnum = fmt.Sprint(in.Bnum - 1)
	case 2:
		in.SlotBnum = "none"
	}
	in.Ckpt = []uint64{1, 7200, 28800, uint64(1 + r.Intn(100000)), uint64(1 + r.Intn(30))}[r.Intn(5)]
	coll := new(big.Int).Rand(r, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+r.Intn(22))), nil))
	in.Coll = coll.String()
	addr := func() common.Address {
		return common.BigToAddress(new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), 160)))
	}
	pool, feeAddr := addr(), addr()
	in.Pool, in.FeeAddr = low(pool), low(feeAddr)
	c := fake.New()
	c.Genesis, c.ConsChain, c.ExecChain, c.Pool = in.Genesis, in.Cons, in.Cons, pool
	c.Head = in.Bnum + 1000
	pc := &fake.PoolContract{Ckpt: in.Ckpt, Coll: coll, FeeRecipient: feeAddr, DeployBlock: new(big.Int).SetUint64(in.Bnum), PoolFee: big.NewInt(1234),
		Quorum: uint64(1 + r.Intn(3)), Members: []common.Address{addr(), addr()}}
	c.Contract = pc
	c.Balance = func(common.Address, string) *big.Int { return big.NewInt(17) }
	c.Validators = func(string) []*v1.Validator { return nil }

	ver := world.Versions[r.Intn(5)]
	// the transactions of the deployment block
	fee := []int{0, 1, 700, 1000, 10000, r.Intn(10001)}[r.Intn(6)]
	initData := func(fee int) []byte {
		d, err := c.Abi.Pack("initialize", addr(), coll, big.NewInt(int64(fee)), feeAddr, in.Ckpt, uint64(2))
		if err != nil {
			panic(err)
		}
		return d
	}
	key, _ := crypto.ToECDSA(crypto.Keccak256([]byte("deployer")))
	txs := []*types.Transaction{}
	put := func(to string, f int, bad bool, data []byte) {
		t := &types.DynamicFeeTx{ChainID: new(big.Int).SetUint64(in.Exec), Nonce: uint64(len(txs)), Gas: 3000000, GasFeeCap: big.NewInt(1e12), GasTipCap: big.NewInt(1), Value: big.NewInt(0), Data: data}
		switch to {
		case "pool":
			t.To = &pool
		case "other":
			a := addr()
			t.To = &a
		}
		tx, err := types.SignNewTx(key, types.LatestSignerForChainID(t.ChainID), t)
		if err != nil {
			panic(err)
		}
		txs = append(txs, tx)
		in.Txs = append(in.Txs, confTx{to, f, bad})
	}
	junk := func(n int) []byte { b := make([]byte, r.Intn(n+1)); r.Read(b); return b }
	// like the code of a contract: other constants right after the selector
	dispatcher := func() []byte {
		d := append(junk(50), initData(3)[:4]...)
		b := make([]byte, 200)
		for i := range b {
			b[i] = byte(0x50 + r.Intn(100))
		}
		return append(d, b...)
	}
	noise := func() {
		for k := r.Intn(3); k > 0; k-- {
			switch r.Intn(7) {
			case 0:
				put("other", -1, false, junk(3))
			case 1:
				put("pool", -1, false, junk(3))
			case 2:
				put("other", -1, false, initData(r.Intn(10001)))
			case 3:
				d, _ := c.Abi.Pack("subscribeValidator", uint64(7))
				put("pool", -1, false, d)
			case 4:
				put("new", -1, false, junk(300))
			case 5:
				put("new", -1, false, dispatcher())
			case 6:
				put("pool", -1, false, nil)
			}
		}
	}
	noise()
	switch k := r.Intn(8); {
	case k < 3:
		d := initData(fee)
		if r.Intn(4) == 0 {
			d = append(d, junk(40)...)
		}
		put("pool", fee, false, d)
		noise()
	case k < 6:
		d := junk(600)
		if r.Intn(3) == 0 {
			d = append(d, dispatcher()...)
		}
		d = append(append(d, initData(fee)...), junk(60)...)
		put("new", fee, false, d)
		noise()
	case k == 6:
		put("pool", -1, true, initData(fee)[:4+r.Intn(180)])
	default:
	}

	cb := world.Beacon(world.Blk{Slot: int(slot), Bnum: int(in.Bnum), FeeRec: low(addr()), Version: ver, Pbase: "7", Pgas: "21000"}, nil)
	if in.SlotBnum != "none" {
		x := 0
		fmt.Sscan(in.SlotBnum, &x)
		cb = world.Beacon(world.Blk{Slot: int(slot), Bnum: x, FeeRec: low(addr()), Version: ver, Pbase: "7", Pgas: "21000"}, nil)
	}
	c.Block = func(s int) *spec.VersionedSignedBeaconBlock {
		if uint64(s) != slot {
			return world.Beacon(world.Blk{Slot: s, Bnum: int(in.Bnum) + s - int(slot), FeeRec: low(addr()), Version: ver, Pbase: "7", Pgas: "21000"}, nil)
		}
		if in.SlotBnum == "none" {
			return nil
		}
		return cb
	}
	c.ExecBlock = func(n uint64) *types.Block {
		if n == in.Bnum {
			return fake.MkBlock(n, in.Time, big.NewInt(7), txs)
		}
		return fake.MkBlock(n, in.Time+12*(n-in.Bnum), big.NewInt(7), nil)
	}
	cons, exec := c.Start()
	defer c.Stop()
	f := &faults{r: r, plan: map[string][]string{}, pct: []int{0, 0, 20, 40}[r.Intn(4)], n: in.N}
	c.FaultFn = f.decide
	if split == "new" {
		c.ExecChain = in.Exec
	}
	l := confLine{Ev: "conf", In: in, Reqs: []askRec{}}
	cli := &config.CliConfig{ConsensusEndpoint: cons, ExecutionEndpoint: exec, PoolAddress: in.Pool, NumRetries: in.N, DryRun: in.Dry}
	var oc *oracle.Onchain
	l.Out, l.Msg = world.Try(func() error {
		var err error
		oc, err = oracle.NewOnchain(cli, nil)
		return err
	})
	if l.Out == "ok" {
		c.ExecChain = in.Exec
		f.on = true
		var cfg *oracle.Config
		l.Out, l.Msg = world.Try(func() error {
			cfg = oc.GetConfigFromContract(cli)
			return nil
		})
		f.on = false
		if l.Out == "ok" {
			l.Got = confOut{cfg.Network, cfg.DeployedSlot, cfg.DeployedBlock, cfg.CheckPointSizeInSlots, cfg.PoolFeesPercentOver10000,
				strings.ToLower(cfg.PoolFeesAddress), cfg.CollateralInWei.String(), strings.ToLower(cfg.PoolAddress), cfg.DryRun, cfg.NumRetries, oc.ChainId}
		}
	}
	l.Reqs = f.take(c)
	for _, q := range l.Reqs {
		l.Faulty = l.Faulty || q.F != ""
	}
	return l
}
