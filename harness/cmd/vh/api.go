package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/fake"
	"verifharness/world"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/api"
	"github.com/dappnode/mev-sp-oracle/config"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

// api: the real HTTP service on an oracle with a history, between nodes and relays of ours.

var apiPort = flag.Int("apiport", 25000, "first port of the service")

func init() { cmds["api"] = apiCmd }

// ---- what is written down ---------------------------------------------------------------------------

type lrow struct {
	Id     int       `json:"id"`
	Status string    `json:"status"`
	Bal    world.Num `json:"bal"`
	Eff    world.Num `json:"eff"`
	Cred   string    `json:"cred"`
	Wa     string    `json:"wa"`
	Key    string    `json:"key"`
}

type evrow struct {
	Id   int       `json:"id"`
	Coll world.Num `json:"coll"`
	From string    `json:"from"`
	Bnum int       `json:"bnum"`
}

type clrow struct {
	A   string    `json:"a"`
	Amt world.Num `json:"amt"`
}

type rlrow struct {
	Addr string `json:"addr"`
	How  string `json:"how"` // reg | no | fail | odd
	Fee  string `json:"fee"`
	Time string `json:"time"`
}

type apiLine struct {
	Ev     string      `json:"ev"`
	List   []lrow      `json:"list"`   // beacon: the list the oracle loaded
	Ep     string      `json:"ep"`     // api: the endpoint
	A      string      `json:"a"`      // the address asked for, lower case
	Ids    []int       `json:"ids"`    // the indices asked for
	Bad    bool        `json:"bad"`    // a malformed parameter
	Url    string      `json:"url"`    // as asked
	Fin    int         `json:"fin"`    // the chain: finalized slot
	Cslot  int         `json:"cslot"`  // the contract
	Croot  string      `json:"croot"`  //
	Claims []clrow     `json:"claims"` //
	Subs   []evrow     `json:"subs"`   // events of the pool after the processed block, in chain order
	Unsubs []evrow     `json:"unsubs"`
	Relays []rlrow     `json:"relays"`
	DonTx  []string    `json:"donTx"`
	Sync   int         `json:"sync"`
	Esync  bool        `json:"esync"`
	Dry    bool        `json:"dry"`
	Faulty bool        `json:"faulty"`
	Code   int         `json:"code"` // 0: no reply
	Wf     bool        `json:"wf"`   // a well formed reply
	Body   interface{} `json:"body"`
	Msg    string      `json:"msg"`
	Same   bool        `json:"same"` // the state of the oracle did not change
	Load   string      `json:"load"` // /state: loading it in another oracle
	Eq     bool        `json:"eq"`   // and it is the same state
	Root   string      `json:"root"` // freeze: what the oracle says
	Enough bool        `json:"enough"`
}

func blankApi(ev string) apiLine {
	return apiLine{Ev: ev, List: []lrow{}, Ids: []int{}, Claims: []clrow{}, Subs: []evrow{}, Unsubs: []evrow{}, Relays: []rlrow{}, DonTx: []string{}, Body: []int{}}
}

// shapes: the fields of the replies the specification talks about.  "s" a scalar, "l" a list of scalars,
// otherwise a list of objects.
type shape map[string]interface{}

func fields(names string) shape {
	m := shape{}
	for _, n := range strings.Fields(names) {
		m[n] = "s"
	}
	return m
}

var (
	valShape = fields("status accumulated_rewards_wei pending_rewards_wei collateral_wei withdrawal_address validator_index validator_key subscription_type beacon_status beacon_balance_gwei beacon_effective_balance_gwei")
	blkShape = fields("slot block validator_index validator_key block_type reward_wei reward_type withdrawal_address")
	rlyShape = fields("relay_address fee_recipient timestamp")
	isList   = map[string]bool{"withdrawal": true, "validators": true, "all": true, "proposed": true, "missed": true, "wrong": true, "donations": true}
	shapes   = map[string]shape{
		"withdrawal": valShape, "validators": valShape, "all": blkShape, "proposed": blkShape, "missed": blkShape, "wrong": blkShape,
		"donations": fields("amount_wei block_number tx_hash sender"),
		"proof": merge(fields("leaf_withdrawal_address leaf_accumulated_balance merkleroot checkpoint_slot total_accumulated_rewards_wei already_claimed_rewards_wei claimable_rewards_wei pending_rewards_wei"),
			shape{"merkle_proofs": "l", "registered_validators": "l"}),
		"validator":  fields("status accumulated_rewards_wei pending_rewards_wei collateral_wei withdrawal_address validator_index validator_key subscription_type"),
		"byindex":    {"found_validators": valShape, "not_found_validators": "l"},
		"fees":       fields("pool_fee_percent pool_fee_address pool_accumulated_fees"),
		"statistics": fields("total_subscribed_validators total_active_validators total_yellowcard_validators total_redcard_validators total_banned_validators total_notsubscribed_validators total_accumulated_rewards_wei total_pending_rewards_wei total_rewards_sent_wei total_rewards_sent_30days_wei rewards_per_validator_per_30days_wei total_donations_wei avg_block_reward_wei total_proposed_blocks total_missed_blocks total_wrongfee_blocks total_effective_balance_gwei avg_effective_balance_gwei"),
		"config":     fields("network pool_address deployed_slot checkpoint_size pool_fees_percent pool_fees_address dry_run collateral_in_wei"),
		"status":     fields("is_consensus_in_sync is_execution_in_sync is_oracle_in_sync latest_processed_slot latest_processed_block latest_finalized_epoch latest_finalized_slot oracle_sync_distance_slots next_checkpoint_slot next_checkpoint_remaining_unix previous_checkpoint_slot previous_checkpoint_age_unix consensus_chainid execution_chainid depositcontract"),
		"relays":     merge(fields("correct_fee_recipients"), shape{"correct_fee_relayers": rlyShape, "wrong_fee_relayers": rlyShape, "unregistered_relayers": rlyShape}),
	}
)

func merge(a, b shape) shape {
	for k, v := range b {
		a[k] = v
	}
	return a
}

// scalar writes a JSON scalar as a string.
func scalar(x interface{}) (string, bool) {
	switch t := x.(type) {
	case bool:
		return fmt.Sprint(t), true
	case json.Number:
		return t.String(), true
	case string:
		if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
			return strings.ToLower(t), true
		}
		return t, true
	}
	return fmt.Sprintf("<%T>", x), false
}

// form gives the fields of the shape that an object has; no list at all counts as an empty one.
func (sh shape) form(x interface{}) (map[string]interface{}, bool) {
	m, ok := x.(map[string]interface{})
	out := map[string]interface{}{}
	for k, t := range sh {
		switch t {
		case "s":
			v, good := scalar(m[k])
			out[k], ok = v, ok && good
		case "l":
			l, isl := m[k].([]interface{})
			o := []string{}
			for _, y := range l {
				v, good := scalar(y)
				o, ok = append(o, v), ok && good
			}
			out[k], ok = o, ok && (isl || m[k] == nil)
		default:
			var good bool
			out[k], good = t.(shape).forms(m[k])
			ok = ok && good
		}
	}
	return out, ok
}

func (sh shape) forms(x interface{}) ([]map[string]interface{}, bool) {
	l, isl := x.([]interface{})
	ok, out := isl || x == nil, []map[string]interface{}{}
	for _, y := range l {
		m, good := sh.form(y)
		out, ok = append(out, m), ok && good
	}
	return out, ok
}

// ---- relays -------------------------------------------------------------------------------------------

type relays struct {
	mu  sync.Mutex
	url string
	key string // the key they know
	how []rlrow
	ill []string
	l   net.Listener
}

func newRelays() *relays {
	s := &relays{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.l, s.url = l, "http://"+l.Addr().String()
	srv := &http.Server{Handler: http.HandlerFunc(s.serve)}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(l)
	return s
}

func (s *relays) serve(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	k, err := strconv.Atoi(strings.TrimPrefix(p[0], "r"))
	if err != nil || k >= len(s.how) || strings.Join(p[1:], "/") != "relay/v1/data/validator_registration" {
		w.WriteHeader(404)
		return
	}
	x := s.how[k]
	known := strings.EqualFold(r.URL.Query().Get("pubkey"), s.key)
	switch {
	case x.How == "fail" && s.ill[k] == "drop":
		conn, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			conn.Close()
		}
	case x.How == "fail" && s.ill[k] == "cut":
		w.Header().Set("Content-Length", "900")
		w.Write([]byte(`{"message":{"fee_recipient":"0x`))
	case x.How == "fail":
		w.Write([]byte(s.ill[k]))
	case x.How == "odd":
		w.WriteHeader(503)
		w.Write([]byte(`{"code":503,"message":"busy"}`))
	case x.How == "no" || !known:
		w.WriteHeader([]int{400, 404}[k%2])
		w.Write([]byte(`{"code":404,"message":"no registration found"}`))
	default:
		sec, _ := strconv.ParseInt(strings.TrimSuffix(x.Time, "000000000"), 10, 64)
		fmt.Fprintf(w, `{"message":{"fee_recipient":"%s","gas_limit":"30000000","timestamp":"%d","pubkey":"%s"},"signature":"0x%s"}`,
			x.Fee, sec, s.key, strings.Repeat("ab", 96))
	}
}

// ---- the driver ---------------------------------------------------------------------------------------

const farEpoch = phase0.Epoch(1<<64 - 1)

// beaconVal is a validator whose epochs say what its status is at the given epoch.
func beaconVal(r *rand.Rand, v world.BV, epoch int) *v1.Validator {
	x := v.Real()
	e := phase0.Epoch(epoch)
	d := x.Validator
	d.ActivationEligibilityEpoch, d.ActivationEpoch, d.ExitEpoch, d.WithdrawableEpoch, d.Slashed = 0, 1, farEpoch, farEpoch, false
	x.Balance = phase0.Gwei(31_000_000_000 + uint64(r.Intn(2_000_000_000)))
	switch v.Status {
	case "pending_initialized":
		d.ActivationEligibilityEpoch, d.ActivationEpoch = farEpoch, farEpoch
	case "pending_queued":
		d.ActivationEligibilityEpoch, d.ActivationEpoch = e, e+3
	case "active_exiting":
		d.ExitEpoch = e + 2
	case "active_slashed":
		d.ExitEpoch, d.Slashed = e+2, true
	case "exited_unslashed":
		d.ExitEpoch, d.WithdrawableEpoch = e, e+2
	case "exited_slashed":
		d.ExitEpoch, d.WithdrawableEpoch, d.Slashed = e, e+2, true
	case "withdrawal_possible":
		d.ExitEpoch, d.WithdrawableEpoch = e, e
	case "withdrawal_done":
		d.ExitEpoch, d.WithdrawableEpoch = e, e
		x.Balance = 0
	}
	return x
}

type apiRun struct {
	r      *rand.Rand
	tr     *world.Trace
	counts map[string]int
	g      *world.Gen
	or     *oracle.Oracle
	oc     *oracle.Onchain
	c      *fake.Chain
	pc     *fake.PoolContract
	rl     *relays
	f      *faults
	url    string
	dry    bool
	list   []*v1.Validator
	wa     map[int]string // of the listed validators
	frozen []uint64
	roots  map[uint64]string
	claims map[string]*big.Int
	next   int        // port
	last   *world.Blk // of the processed block
	still  bool       // no events after it
	cl     *http.Client
}

func apiClient() *http.Client {
	return &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
}

func apiCmd() map[string]interface{} {
	addBuilders()
	a := &apiRun{tr: world.NewTrace(*out), counts: map[string]int{}, next: *apiPort, rl: newRelays(),
		cl: apiClient()}
	h := int64(0)
	for a.tr.N < *steps {
		a.history(*seed*2_000_003 + h)
		h++
	}
	a.counts["histories"] = int(h)
	a.counts["lines"] = a.tr.N
	a.tr.Close()
	return map[string]interface{}{"counts": a.counts, "traces": h, "lines": a.tr.N, "sample": 30}
}

// setup makes a new oracle and the world of its service.
func (a *apiRun) setup(seed int64, mode world.Mode) (stop func()) {
	g := world.NewGen(seed, mode)
	a.g, a.r = g, g.R
	r := g.R
	if r.Intn(6) == 0 {
		g.N.FeeAddr = world.MixCase(r, g.Wal[0])
	}
	g.N.Fresh()
	a.frozen, a.roots, a.last = nil, map[uint64]string{}, nil
	a.claims = map[string]*big.Int{}
	oracle.ProposalDutyCache = oracle.EpochDuties{}
	c := fake.New()
	a.c = c
	c.ConsChain, c.ExecChain = g.N.Chain, g.N.Chain
	c.Pool = common.HexToAddress(g.N.Pool)
	c.Validators = func(string) []*v1.Validator { return a.list }
	a.pc = &fake.PoolContract{Ckpt: g.N.Ckpt, Coll: g.N.Coll, Quorum: 2, Claimed: func(x common.Address, tag string) *big.Int {
		if v := a.claims[low(x)]; v != nil && (tag == "latest" || tag == "") {
			return v
		}
		return big.NewInt(0)
	}}
	c.Contract = a.pc
	c.ExecBlock = func(n uint64) *types.Block { return fake.MkBlock(n, c.Genesis+n*12, big.NewInt(7), nil) }
	a.f = &faults{r: r, plan: map[string][]string{}, n: 0, only: map[string]bool{}}
	c.FaultFn = a.f.decide
	cons, exec := c.Start()
	g.N.Cfg.DryRun = r.Intn(2) == 0
	a.dry = g.N.Cfg.DryRun
	cli := &config.CliConfig{ConsensusEndpoint: cons, ExecutionEndpoint: exec, PoolAddress: g.N.Pool, NumRetries: 1}
	for k := 0; k < 3; k++ {
		cli.RelayersEndpoints = append(cli.RelayersEndpoints, fmt.Sprintf("%s/r%d", a.rl.url, k))
	}
	cli.RelayersEndpoints = cli.RelayersEndpoints[:r.Intn(4)]
	a.relay(len(cli.RelayersEndpoints))
	a.newList()
	oc, err := oracle.NewOnchain(cli, nil)
	if err != nil {
		world.Fails("NewOnchain: " + err.Error())
	}
	a.oc = oc
	a.or = g.N.Or
	w := g.N.InitLine()
	a.tr.Emit(w)
	a.tr.Emit(blankApi("apiworld"))
	a.refresh()
	a.start(cli)
	return c.Stop
}

func (a *apiRun) history(seed int64) {
	defer a.setup(seed, world.Modes["api"])()
	g, r := a.g, a.r
	length := 25 + r.Intn(40)
	ask := func(k int) {
		for ; k > 0; k-- {
			a.ask()
		}
	}
	ask(r.Intn(3))
	for i := 0; i < length; i++ {
		switch x := r.Intn(100); {
		case x < 3 && i > 8:
			// a month later, give or take a few slots
			next := int(g.N.Or.State().NextSlotToProcess)
			g.Jump(next + 216000 - r.Intn(i+8))
			g.Bnum += 216000 - r.Intn(i+8)
			a.tr.Emit(g.N.InitLine())
			a.counts["jump"]++
		case x < 6:
			next := int(g.N.Or.State().NextSlotToProcess)
			g.Jump((next/1200+1)*1200 - r.Intn(2))
			a.tr.Emit(g.N.InitLine())
		}
		b, env := g.Next()
		line := g.N.Step(b, env)
		a.counts["block:"+line.Out]++
		a.tr.Emit(line)
		if line.Out == "ok" && !b.Missed {
			a.last = &b
		}
		if g.N.Or != a.or || line.St.Negative() { // the process ended
			return
		}
		if ck, err := a.or.IsCheckpoint(); err == nil && ck {
			l := blankApi("freeze")
			l.Enough = a.or.FreezeCheckpoint()
			s := a.or.State().LatestProcessedSlot
			if l.Enough {
				l.Root = a.or.State().CommitedStates[s].MerkleRoot
				a.frozen = append(a.frozen, s)
				a.roots[s] = l.Root
			}
			a.tr.Emit(l)
			a.counts["freeze"]++
		}
		if r.Intn(12) == 0 {
			a.newList()
			a.refresh()
		}
		if i > 3 {
			ask(r.Intn(3))
		}
	}
	ask(6)
}

func (a *apiRun) start(cli *config.CliConfig) {
	for try := 0; ; try++ {
		port := a.next
		a.next++
		if l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", port)); err != nil {
			continue
		} else {
			l.Close()
		}
		cli.ApiPort = port
		svc := api.NewApiService(a.g.N.Cfg, cli, a.or, a.oc)
		go world.Try(func() error { svc.StartHTTPServer(); return nil })
		a.url = fmt.Sprintf("http://127.0.0.1:%d", port)
		for k := 0; k < 400; k++ {
			resp, err := a.cl.Get(a.url + "/")
			if err == nil {
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				if strings.Contains(string(b), "see api doc") {
					return
				}
			}
			time.Sleep(5 * time.Millisecond)
		}
		if try > 5 {
			world.Fails("the service does not start")
		}
	}
}

// newList makes the list of validators the beacon node gives for its finalized state.
func (a *apiRun) newList() {
	g, r := a.g, a.r
	n := 13
	if r.Intn(4) == 0 {
		n = 3 + r.Intn(10) // some of the tracked ones are not in it
	}
	slot := int(g.N.Or.State().NextSlotToProcess) + r.Intn(40)
	a.c.Finalized = slot
	a.list, a.wa = nil, map[int]string{}
	for id := 0; id < n; id++ {
		v := g.At(id, slot)
		if !v.Ok {
			raw := world.Creds([]string{"eth1", "electra", "bls", "other"}[r.Intn(4)], g.Wal[r.Intn(len(g.Wal))])
			v = world.BV{Ok: true, Id: id, Idx: id, Raw: raw, Cred: world.CredKind(raw), Wa: world.WaOf(raw), Eff: "32000000000",
				Status: world.StatusNames[r.Intn(len(world.StatusNames))]}
			if r.Intn(2) == 0 {
				v.Status = "active_ongoing"
			}
		}
		a.list = append(a.list, beaconVal(r, v, slot/32))
	}
}

func (a *apiRun) refresh() {
	a.f.on = false
	if out, msg := world.Try(func() error { a.oc.RefreshBeaconValidators(); return nil }); out != "ok" {
		world.Fails("the list of validators: " + msg)
	}
	l := blankApi("beacon")
	for _, v := range a.oc.Validators() {
		b := absBV(v)
		l.List = append(l.List, lrow{int(v.Index), b.Status, fmt.Sprint(uint64(v.Balance)), b.Eff, b.Cred, b.Wa, b.Key})
		a.wa[int(v.Index)] = b.Wa
	}
	sort.Slice(l.List, func(i, j int) bool { return l.List[i].Id < l.List[j].Id })
	a.tr.Emit(l)
}

// relay decides what the relays know.
func (a *apiRun) relay(n int) {
	r := a.r
	a.rl.mu.Lock()
	defer a.rl.mu.Unlock()
	a.rl.how, a.rl.ill = nil, nil
	for k := 0; k < n; k++ {
		x := rlrow{Addr: fmt.Sprintf("%s/r%d", a.rl.url, k), How: "reg", Fee: strings.ToLower(a.g.N.Pool), Time: fmt.Sprintf("%d000000000", 1_600_000_000+r.Intn(100_000_000))}
		ill := ""
		switch r.Intn(12) {
		case 0, 1, 2:
			x.Fee = a.g.Users[r.Intn(len(a.g.Users))]
		case 3, 4:
			x.How = "no"
		case 5:
			x.How = "odd"
		case 6:
			if r.Intn(2) == 0 {
				x.How = "fail"
				ill = []string{"drop", "cut", "null", "{}", "[]", `{"message":null}`, "<html>", `{"message":{}}`, `{"signature":"0x00"}`, "", `"x"`}[r.Intn(11)]
			}
		}
		a.rl.how, a.rl.ill = append(a.rl.how, x), append(a.rl.ill, ill)
	}
}

// later makes the events after the processed block.
func (a *apiRun) later(l *apiLine) {
	g, r, c := a.g, a.r, a.c
	block := int(a.or.State().LatestProcessedBlock)
	c.Logs = nil
	c.Head = uint64(block + 1 + r.Intn(70))
	nb := 1 + r.Intn(4)
	blocks := []int{}
	for k := 0; k < nb; k++ {
		blocks = append(blocks, block+1+r.Intn(int(c.Head)-block))
	}
	// most events are about few validators, so that they meet
	focus := []int{r.Intn(13), r.Intn(13), r.Intn(13)}
	for i, v := range a.or.State().Validators {
		if r.Intn(3) == 0 && (strings.ToLower(v.WithdrawalAddress) == l.A) {
			focus = append(focus, int(i), int(i))
		}
	}
	sort.Ints(focus) // the map above has no order
	for i := 0; i < len(a.list); i++ {
		if a.wa[i] != "" && strings.ToLower(a.wa[i]) == l.A && r.Intn(2) == 0 {
			focus = append(focus, i, i)
		}
	}
	type lg struct {
		rec  logRec
		addr common.Address
	}
	all := []lg{}
	from := func(id int) string {
		x := strings.ToLower(a.wa[id])
		if r.Intn(6) == 0 || len(x) != 42 {
			x = append(append([]string{}, g.Wal...), g.Users...)[r.Intn(len(g.Wal)+len(g.Users))]
		}
		return x
	}
	for k := r.Intn(9); k > 0; k-- {
		id := focus[r.Intn(len(focus))]
		if r.Intn(15) == 0 {
			id = 500 + r.Intn(3)
		}
		x := logRec{Ev: "SubscribeValidator", Who: from(id), Id: id, Num: world.N(g.N.Coll), Bnum: blocks[r.Intn(nb)]}
		switch r.Intn(8) {
		case 0:
			x.Num = world.N(new(big.Int).Add(g.N.Coll, big.NewInt(1)))
		case 1:
			if g.N.Coll.Sign() > 0 {
				x.Num = world.N(new(big.Int).Sub(g.N.Coll, big.NewInt(1)))
			}
		case 2:
			x.Num = world.N(amt(r))
		}
		if r.Intn(5) < 2 {
			x.Ev, x.Num = "UnsubscribeValidator", "0"
		}
		addr := c.Pool
		switch r.Intn(14) {
		case 0:
			addr = common.HexToAddress(g.Users[0]) // of another contract
		case 1:
			x.Bnum = block - 1 - r.Intn(2) // already in the state
		case 2:
			x.Ev, x.Num = []string{"BanValidator", "UnbanValidator"}[r.Intn(2)], "0"
		}
		all = append(all, lg{x, addr})
	}
	if a.last != nil && a.last.Bnum == block { // what the block already in the state did
		for _, x := range a.last.Subs {
			all = append(all, lg{logRec{Ev: "SubscribeValidator", Who: x.From, Id: x.Id, Num: x.Coll, Bnum: block}, c.Pool})
		}
		for _, x := range a.last.Unsubs {
			all = append(all, lg{logRec{Ev: "UnsubscribeValidator", Who: x.From, Id: x.Id, Num: "0", Bnum: block}, c.Pool})
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].rec.Bnum < all[j].rec.Bnum })
	s := &served{c: c, g: g}
	for i, x := range all {
		x.rec.Idx = i + 1
		c.Logs = append(c.Logs, s.mk(x.rec, x.addr))
		if x.addr != c.Pool || x.rec.Bnum <= block {
			continue
		}
		e := evrow{x.rec.Id, x.rec.Num, strings.ToLower(x.rec.Who), x.rec.Bnum}
		switch x.rec.Ev {
		case "SubscribeValidator":
			l.Subs = append(l.Subs, e)
		case "UnsubscribeValidator":
			l.Unsubs = append(l.Unsubs, e)
		}
	}
}

var (
	badIndex  = []string{"abc", "-1", "1.5", "18446744073709551616", "0x1", "1e3", "%20", "1%20", "99999999999999999999999", "null", "1;2", "%00"}
	badIndexs = []string{"1,", "1,,2", ",", "a,1", "1,-2", "1, 2", "1.0", "1,2,x", "18446744073709551616,1", "%2C1"}
	badAddr   = []string{"0x", "abc", "0x12", "1234567890123456789012345678901234567890", "0x12345678901234567890123456789012345678900",
		"0x123456789012345678901234567890123456789", "0x123456789012345678901234567890123456789g", "%00", "0x12345678901234567890123456789012345678%2042", "..."}
	badKey = []string{"0x", "xyz", "0x" + strings.Repeat("a", 95), "0x" + strings.Repeat("a", 97), strings.Repeat("a", 96), "0x" + strings.Repeat("a", 95) + "g",
		"0x" + strings.Repeat("a", 95) + "Z", "0x" + strings.Repeat("G", 96), "0x" + strings.Repeat("1", 95) + "_", "0x" + strings.Repeat("1", 95) + "%60", "0x" + strings.Repeat("1", 95) + "%5B",
		"0x" + strings.Repeat("1", 94) + "%20%20"}
)

func casing(r *rand.Rand, a string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToLower(a)
	case 1:
		return common.HexToAddress(a).String()
	}
	return "0x" + strings.ToUpper(a[2:])
}

var endpoints = []string{"proof", "proof", "proof", "proof", "withdrawal", "withdrawal", "withdrawal", "withdrawal", "validators", "validator", "byindex", "fees",
	"all", "proposed", "missed", "wrong", "donations", "statistics", "statistics", "config", "status", "relays", "state", "root"}

// contract decides what the contract says.
func (a *apiRun) contract(l *apiLine) {
	g, r, st := a.g, a.r, a.or.State()
	// where the contract is
	a.pc.LastSlot, a.pc.Root = 0, common.Hash{}
	if k := len(a.frozen); k > 0 {
		s := a.frozen[k-1]
		if r.Intn(2) == 0 {
			s = a.frozen[r.Intn(k)]
		}
		a.pc.LastSlot, a.pc.Root = s, common.HexToHash(a.roots[s])
		switch r.Intn(16) {
		case 0:
			a.pc.LastSlot += g.N.Ckpt // one this oracle does not have yet
		case 1:
			a.pc.LastSlot = a.frozen[r.Intn(k)] // maybe not the slot of that root
		case 2:
			a.pc.Root[r.Intn(32)] ^= 1
		case 3:
			a.pc.LastSlot -= uint64(1 + r.Intn(3))
		}
	} else if r.Intn(3) > 0 {
		a.pc.LastSlot = st.LatestProcessedSlot
	}
	l.Cslot, l.Croot = int(a.pc.LastSlot), a.pc.Root.Hex()
	// what was claimed
	a.claims = map[string]*big.Int{}
	for _, w := range append(append([]string{}, g.Wal...), strings.ToLower(g.N.FeeAddr)) {
		if r.Intn(3) == 0 {
			continue
		}
		x := amt(r)
		if o := st.CommitedStates[a.pc.LastSlot]; o != nil && r.Intn(3) > 0 {
			if lf, ok := o.Leafs[strings.ToLower(w)]; ok {
				x = new(big.Int).Set(lf.AccumulatedBalanceWei)
				if r.Intn(2) == 0 && x.Sign() > 0 {
					x = new(big.Int).Rand(r, x)
				}
			}
		}
		a.claims[strings.ToLower(w)] = x
	}
	for k, v := range a.claims {
		l.Claims = append(l.Claims, clrow{k, v.String()})
	}
	sort.Slice(l.Claims, func(i, j int) bool { return l.Claims[i].A < l.Claims[j].A })
	for _, d := range st.Donations {
		l.DonTx = append(l.DonTx, strings.ToLower(d.Raw.TxHash.Hex()))
	}
}

// aim decides the parameters of the request.
func (a *apiRun) aim(l *apiLine) {
	g, r, st := a.g, a.r, a.or.State()
	l.Bad = r.Intn(10) == 0
	anyAddr := func() string {
		all := append(append([]string{}, g.Wal...), g.Wal...)
		all = append(all, g.Users[0], strings.ToLower(g.N.FeeAddr), strings.ToLower(g.N.FeeAddr), strings.ToLower(g.N.Pool))
		return strings.ToLower(all[r.Intn(len(all))])
	}
	tracked := []int{}
	for i := range st.Validators {
		tracked = append(tracked, int(i))
	}
	sort.Ints(tracked)
	anyIdx := func() int {
		if len(tracked) > 0 && r.Intn(2) == 0 {
			return tracked[r.Intn(len(tracked))]
		}
		if r.Intn(10) == 0 {
			return []int{500, 0, 1 << 30}[r.Intn(3)]
		}
		return r.Intn(14)
	}
	switch l.Ep {
	case "proof", "withdrawal":
		path := map[string]string{"proof": "/onchain/proof/", "withdrawal": "/memory/validators/"}[l.Ep]
		l.A = anyAddr()
		l.Url = path + casing(r, l.A)
		if l.Bad {
			l.A = ""
			l.Url = path + badAddr[r.Intn(len(badAddr))]
		}
		if l.Ep == "withdrawal" {
			if !a.still {
				a.later(l)
			}
		}
	case "validator":
		l.Ids = []int{anyIdx()}
		l.Url = fmt.Sprintf("/memory/validator/%d", l.Ids[0])
		if l.Bad {
			l.Url = "/memory/validator/" + badIndex[r.Intn(len(badIndex))]
		}
	case "byindex":
		n := 1 + r.Intn(5)
		switch r.Intn(10) {
		case 0:
			n = 100
		case 1:
			n, l.Bad = 101+r.Intn(3), true
		}
		parts := []string{}
		for k := 0; k < n; k++ {
			i := anyIdx()
			l.Ids = append(l.Ids, i)
			parts = append(parts, fmt.Sprint(i))
		}
		l.Url = "/memory/validatorsbyindex/" + strings.Join(parts, ",")
		if l.Bad && n <= 100 {
			l.Url = "/memory/validatorsbyindex/" + badIndexs[r.Intn(len(badIndexs))]
		}
	case "relays":
		a.relay(len(a.rl.how))
		key := fmt.Sprintf("0x%x", world.KeyOf(r.Intn(13)))
		a.rl.mu.Lock()
		a.rl.key = key
		l.Relays = append(l.Relays, a.rl.how...)
		a.rl.mu.Unlock()
		if r.Intn(3) == 0 {
			key = "0x" + strings.ToUpper(key[2:])
		}
		l.Url = "/registeredrelays/" + key
		if l.Bad {
			l.Url = "/registeredrelays/" + badKey[r.Intn(len(badKey))]
		}
	default:
		l.Bad = false
		l.Url = map[string]string{"validators": "/memory/validators", "fees": "/memory/feesinfo", "all": "/memory/allblocks", "proposed": "/memory/proposedblocks",
			"missed": "/memory/missedblocks", "wrong": "/memory/wrongfeeblocks", "donations": "/memory/donations", "statistics": "/memory/statistics",
			"config": "/config", "status": "/status", "state": "/state", "root": "/"}[l.Ep]
	}
}

// ask makes one request.
func (a *apiRun) ask() {
	r, c := a.r, a.c
	st := a.or.State()
	l := blankApi("api")
	l.Ep = endpoints[r.Intn(len(endpoints))]
	if *mode == "P20" && r.Intn(2) == 0 {
		l.Ep = "proof"
	}
	if *mode == "P21" && r.Intn(2) == 0 {
		l.Ep = "withdrawal"
	}
	slot := int(st.LatestProcessedSlot)
	// where the chain is
	l.Fin = slot + r.Intn(65)
	switch r.Intn(20) {
	case 0:
		l.Fin = slot + 64 + r.Intn(3)
	case 1:
		l.Fin = slot + 64 + r.Intn(5000)
	case 2:
		l.Fin = slot - 1 - r.Intn(40)
		if l.Fin < 0 {
			l.Fin = 0
		}
	}
	c.Finalized, c.SyncDist, c.ExecSyncing = l.Fin, []int{0, 1, 2, 40}[r.Intn(4)], r.Intn(4) == 0
	c.Quiet = r.Intn(2) == 0
	l.Sync, l.Esync, l.Dry = c.SyncDist, c.ExecSyncing, a.dry
	a.contract(&l)
	a.aim(&l)

	before := world.Digest(a.or.State(), "StateHash")
	listBefore := world.Digest(a.oc.Validators())
	a.f.pct, a.f.plan, a.f.sync = 0, map[string][]string{}, l.Ep == "status"
	if r.Intn(6) == 0 {
		a.f.pct = 40
		a.f.skip = map[string]bool{"header": r.Intn(3) > 0}
	}
	a.f.take(c)
	a.f.on = true
	raw := a.get(&l)
	a.f.on = false
	for _, q := range a.f.take(c) {
		l.Faulty = l.Faulty || q.F != ""
	}
	l.Same = world.Digest(a.or.State(), "StateHash") == before && world.Digest(a.oc.Validators()) == listBefore
	if l.Ep == "state" && l.Code == 200 {
		n := *a.g.N
		other := oracle.NewOracle(n.NewCfg())
		n.Wire(other)
		var found bool
		l.Load, l.Msg = world.Try(func() (err error) {
			found, err = other.LoadFromBytes(raw)
			return err
		})
		if l.Load == "ok" && !found {
			l.Load = "notfound"
		}
		l.Eq = l.Load == "ok" && world.Digest(other.State(), "StateHash") == before
		l.Body = []int{}
	}
	a.counts["ep:"+l.Ep]++
	a.counts[fmt.Sprintf("code:%d", l.Code)]++
	if l.Code == 200 {
		a.counts["ok:"+l.Ep]++
	}
	if l.Faulty {
		a.counts["faulty"]++
	}
	a.tr.Emit(l)
	if l.Faulty { // the client library may have lost confidence in the node for a moment
		for k := 0; k < 200; k++ {
			if _, err := a.oc.FinalizedBeaconBlockHeader(); err == nil {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		a.f.take(c)
	}
}

func (a *apiRun) get(l *apiLine) []byte {
	resp, err := a.cl.Get(a.url + l.Url)
	if err != nil {
		l.Code, l.Msg = 0, err.Error()
		return nil
	}
	defer resp.Body.Close()
	raw, err := io.ReadAll(resp.Body)
	if err != nil {
		l.Code, l.Msg = 0, "cut: "+err.Error()
		return nil
	}
	l.Code = resp.StatusCode
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		l.Msg = string(raw)
		if len(l.Msg) > 200 {
			l.Msg = l.Msg[:200]
		}
		return raw
	}
	if l.Code == 200 {
		l.Wf = !d.More()
		if sh, ok := shapes[l.Ep]; ok {
			var good bool
			if isList[l.Ep] {
				l.Body, good = sh.forms(x)
			} else {
				l.Body, good = sh.form(x)
			}
			l.Wf = l.Wf && good
		}
		return raw
	}
	m, ok := x.(map[string]interface{})
	if ok {
		l.Wf = fmt.Sprint(m["code"]) == fmt.Sprint(l.Code) && m["message"] != nil
		l.Msg = fmt.Sprint(m["message"])
	}
	return raw
}

var _ = types.Log{}
