package world

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"strconv"
	"strings"
	"sync"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/avast/retry-go/v4"
	"github.com/dappnode/mev-sp-oracle/oracle"
	log "github.com/sirupsen/logrus"
)

// ---- log.Fatal becomes a panic we can catch ----------------------------------------------------

type FatalErr struct{ Msg string }

var (
	fatalMu  sync.Mutex
	fatalMsg string
)

type fatalHook struct{}

func (fatalHook) Levels() []log.Level { return []log.Level{log.FatalLevel} }
func (fatalHook) Fire(e *log.Entry) error {
	fatalMu.Lock()
	fatalMsg = e.Message
	fatalMu.Unlock()
	return nil
}

func CatchFatals() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.FatalLevel)
	log.AddHook(fatalHook{})
	log.StandardLogger().ExitFunc = func(int) {
		fatalMu.Lock()
		m := fatalMsg
		fatalMu.Unlock()
		panic(FatalErr{m})
	}
}

// Try runs f; outcome is "ok", "err", "fatal" (log.Fatal) or "panic".
func Try(f func() error) (outcome string, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fe, is := r.(FatalErr); is {
				outcome, msg = "fatal", fe.Msg
			} else {
				outcome, msg = "panic", fmt.Sprint(r)
			}
		}
	}()
	if err := f(); err != nil {
		return "err", err.Error()
	}
	return "ok", ""
}

// ---- trace files ------------------------------------------------------------------------------

type Trace struct {
	f *os.File
	w *bufio.Writer
	N int
}

func NewTrace(path string) *Trace {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	open = &Trace{f: f, w: bufio.NewWriterSize(f, 1<<20)}
	return open
}

var open *Trace

// Flush writes what was recorded so far, for a driver that ends early
func Flush() {
	if open != nil {
		open.w.Flush()
	}
}

// Fails ends the driver: without any fault, the code under test does not do what everything else needs
func Fails(what string) {
	panic("the code under test: " + what)
}

func (t *Trace) Emit(m interface{}) {
	j, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	t.w.Write(j)
	t.w.WriteByte('\n')
	t.N++
}

func (t *Trace) Close() {
	t.w.Flush()
	t.f.Close()
}

// ---- a real oracle on an abstract beacon chain --------------------------------------------------

type Node struct {
	Net     string
	Chain   uint64
	Pool    string
	FeeAddr string
	Ckpt    uint64
	Coll    *big.Int
	Fee0    int
	Deploy  uint64
	DBlock  uint64 // deployment block (0: 1000)
	Acc     Accounts

	Cfg *oracle.Config
	Or  *oracle.Oracle
	Env Env
	At  func(id int, slot int) BV // beacon record at any slot
	Cur int                       // slot being processed

	WireFn func(*oracle.Oracle)                // instead of the abstract beacon node
	AskFn  func()                              // told about requests to it
	TryFn  func(func() error) (string, string) // instead of Try, around what the oracle does with a block
	H      Hist
	// observations
	Requests []string
}

func (n *Node) NewCfg() *oracle.Config {
	db := n.DBlock
	if db == 0 {
		db = 1000
	}
	return &oracle.Config{ConsensusEndpoint: "", ExecutionEndpoint: "", Network: n.Net, PoolAddress: n.Pool, DeployedSlot: n.Deploy,
		DeployedBlock: db, CheckPointSizeInSlots: n.Ckpt, PoolFeesPercentOver10000: n.Fee0, PoolFeesAddress: n.FeeAddr,
		CollateralInWei: new(big.Int).Set(n.Coll)}
}

// Fresh builds a new real oracle, as main does.
func (n *Node) Fresh() {
	n.Cfg = n.NewCfg()
	n.Or = oracle.NewOracle(n.Cfg)
	n.Wire(n.Or)
	n.H = HistOf(n.Or.State())
}

func (n *Node) Wire(or *oracle.Oracle) {
	if n.WireFn != nil {
		n.WireFn(or)
		return
	}
	or.SetGetSetOfValidatorsFunc(n.getSet)
	or.GetPendingConsolidationsFunc(n.getCons)
}

func (n *Node) getSet(ids []phase0.ValidatorIndex, slot string, opts ...retry.Option) (map[phase0.ValidatorIndex]*v1.Validator, error) {
	n.Requests = append(n.Requests, slot)
	if n.AskFn != nil {
		n.AskFn()
	}
	if n.Env.ValErr {
		return nil, errors.New("beacon node does not answer")
	}
	out := map[phase0.ValidatorIndex]*v1.Validator{}
	at, err := strconv.Atoi(slot)
	for _, id := range ids {
		if err == nil && at == n.Cur {
			for _, v := range n.Env.V {
				if v.Id == int(id) {
					v.Ok = true
					out[id] = v.Real()
				}
			}
			continue
		}
		// any other state than the one of the slot being processed: what is known there is different
		if err != nil {
			at = n.Cur + 3
		}
		if n.At != nil {
			if v := n.At(int(id), at); v.Ok {
				out[id] = v.Real()
			}
		}
	}
	return out, nil
}

func (n *Node) getCons(slot string, opts ...retry.Option) (*oracle.PendingConsolidationsResponse, error) {
	if n.AskFn != nil {
		n.AskFn()
	}
	if n.Env.ConsErr {
		return nil, errors.New("beacon node does not answer")
	}
	r := &oracle.PendingConsolidationsResponse{Version: "electra", Finalized: true}
	if slot != strconv.Itoa(n.Cur) {
		return r, nil
	}
	for _, c := range n.Env.Cons {
		r.Data = append(r.Data, oracle.PendingConsolidation{SourceIndex: phase0.ValidatorIndex(c.S), TargetIndex: phase0.ValidatorIndex(c.T)})
	}
	return r, nil
}

type InitLine struct {
	Ev       string   `json:"ev"`
	Net      string   `json:"net"`
	Chain    uint64   `json:"chain"`
	Pool     string   `json:"pool"`
	FeeAddr  string   `json:"feeAddr"`
	Ckpt     uint64   `json:"ckpt"`
	Coll     Num      `json:"coll"`
	Fee0     int      `json:"fee0"`
	Deploy   uint64   `json:"deploy"`
	Builders []string `json:"builders"`
	St       St       `json:"st"`
}

func (n *Node) InitLine() InitLine {
	return InitLine{Ev: "init", Net: n.Net, Chain: n.Chain, Pool: strings.ToLower(n.Pool), FeeAddr: strings.ToLower(n.FeeAddr), Ckpt: n.Ckpt,
		Coll: N(n.Coll), Fee0: n.Fee0, Deploy: n.Deploy, Builders: ExtraBuilders, St: Proj(n.Or.State())}
}

type BlockLine struct {
	Ev  string `json:"ev"`
	B   Blk    `json:"b"`
	Env Env    `json:"env"`
	Ok  bool   `json:"ok"`
	Err string `json:"err"`
	Out string `json:"out"`
	St  St     `json:"st"`
	New New    `json:"new"`
}

// Step gives the block to the real oracle and reports what happened.  A process that dies (log.Fatal,
// panic) loses its memory: the oracle starts again from the state it had.
func (n *Node) Step(b Blk, env Env) BlockLine {
	return n.StepWith(b, env, func() *oracle.FullBlock { return Full(b, n.Chain, n.Pool, n.Acc) })
}

// StepWith is Step with the block to give to the oracle.
func (n *Node) StepWith(b Blk, env Env, build func() *oracle.FullBlock) BlockLine {
	n.Env = env
	n.Cur = b.Slot
	before := Copy(n.Or.State())
	cfgBefore := *n.Cfg
	try := Try
	if n.TryFn != nil {
		try = n.TryFn
	}
	out, msg := try(func() error {
		fb := build()
		_, err := n.Or.AdvanceStateToNextSlot(fb)
		return err
	})
	if out == "fatal" || out == "panic" {
		n.Reset(before, &cfgBefore)
	}
	st := n.Or.State()
	line := BlockLine{Ev: "block", B: b, Env: env, Ok: out == "ok", Err: msg, Out: out, St: Proj(st)}
	line.New, n.H = Since(n.H, st)
	return line
}

// Reset puts a state (a deep copy) under a new oracle.
func (n *Node) Reset(s *oracle.OracleState, cfg *oracle.Config) {
	c := *cfg
	n.Cfg = &c
	fee := c.PoolFeesPercentOver10000
	c.PoolFeesPercentOver10000 = n.Fee0 // an oracle is made with the initial fee
	n.Or = oracle.NewOracle(n.Cfg)
	n.Cfg.PoolFeesPercentOver10000 = fee
	n.Wire(n.Or)
	*n.Or.State() = *Copy(s)
	n.H = HistOf(n.Or.State())
}

// ExtraBuilders are accounts of ours added to the program's list of whitelisted builders.
var ExtraBuilders = []string{}

// Scheduled gives the fee change that is known for a network.
func Scheduled(net string) (slot uint64, fee int, has bool) {
	switch net {
	case "mainnet":
		return 14082460, 500, true
	case "hoodi":
		return 2801050, 500, true
	}
	return 0, 0, false
}
