package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

func init() { cmds["node"] = nodeCmd }

// entry is a processed slot of the chain all nodes follow.
type entry struct {
	b   world.Blk
	env world.Env
	fb  *oracle.FullBlock
	in  string // fingerprint of fb when it was built
}

type com struct {
	Slot uint64 `json:"slot"`
	Dig  string `json:"dig"`
	Root string `json:"root"`
}

// mem is the abstract memory of an oracle.
type mem struct {
	Slot uint64 `json:"slot"`
	Next uint64 `json:"next"`
	Acc  string `json:"acc"`
	Com  []com  `json:"com"`
	Fee  int    `json:"fee"`
	Cfg  int    `json:"cfgFee"`
}

func memOf(n *world.Node) mem {
	s := n.Or.State()
	m := mem{Slot: s.LatestProcessedSlot, Next: s.NextSlotToProcess, Acc: world.Digest(s, "StateHash", "CommitedStates"), Com: []com{},
		Fee: s.PoolFeesPercentOver10000, Cfg: n.Cfg.PoolFeesPercentOver10000}
	for slot, c := range s.CommitedStates {
		m.Com = append(m.Com, com{slot, world.Digest(c), c.MerkleRoot})
	}
	sort.Slice(m.Com, func(i, j int) bool { return m.Com[i].Slot < m.Com[j].Slot })
	return m
}

type nodeLine struct {
	Ev   string `json:"ev"`
	O    int    `json:"o"`
	Out  string `json:"out"`
	Msg  string `json:"msg"`
	M    mem    `json:"m"`
	Slot uint64 `json:"slot"`

	// block
	InSame bool     `json:"inSame"`
	Again  []string `json:"again"` // what became of the same block on copies of the oracle
	Ck     string   `json:"ck"`
	// freeze
	Enough bool      `json:"enough"`
	Vals   []mval    `json:"vals"`
	Fees   world.Num `json:"fees"`
	Leafs  []mleaf   `json:"leafs"`
	Proofs []mproof  `json:"proofs"`
	Root   string    `json:"root"`
	Order  []mleaf   `json:"order"`
	LatOk  bool      `json:"latOk"`
	Lat    uint64    `json:"lat"`
	LatSt  uint64    `json:"latSt"`
	VDig   string    `json:"vdig"`
	FDig   string    `json:"fdig"`
	// save / load
	SlotToo bool     `json:"slotToo"`
	How     string   `json:"how"`
	Found   bool     `json:"found"`
	Files   []string `json:"files"`
	What    string   `json:"what"`
	File    uint64   `json:"file"`
	From    int      `json:"from"`
	// hash
	Hash string `json:"hash"`
}

type mval struct {
	Id  uint64    `json:"id"`
	Wa  string    `json:"wa"`
	Acc world.Num `json:"acc"`
}
type mleaf struct {
	Key string    `json:"key"`
	A   string    `json:"a"`
	Amt world.Num `json:"amt"`
}
type mproof struct {
	Key string   `json:"key"`
	P   []string `json:"p"`
}

func blank(ev string, o int) nodeLine {
	return nodeLine{Ev: ev, O: o, Out: "ok", Vals: []mval{}, Leafs: []mleaf{}, Proofs: []mproof{}, Order: []mleaf{}, Files: []string{}, Again: []string{}, M: mem{Com: []com{}}, Fees: "0"}
}

// fillFreeze freezes and writes down everything the snapshot is made of.
func fillFreeze(l *nodeLine, or *oracle.Oracle) {
	s := or.State()
	for id, v := range s.Validators {
		l.Vals = append(l.Vals, mval{id, strings.ToLower(v.WithdrawalAddress), world.N(v.AccumulatedRewardsWei)})
	}
	sort.Slice(l.Vals, func(i, j int) bool { return l.Vals[i].Id < l.Vals[j].Id })
	l.Fees = world.N(s.PoolAccumulatedFees)
	l.Slot = s.LatestProcessedSlot
	l.VDig = world.Digest(s.Validators)
	before := world.Digest(s, "StateHash", "CommitedStates")
	l.Out, l.Msg = world.Try(func() error {
		for _, lf := range oracle.NewMerklelizer().AggregateValidatorsIndexes(s) {
			l.Order = append(l.Order, mleaf{"", lf.WithdrawalAddress, world.N(lf.AccumulatedBalanceWei)})
		}
		l.Enough = or.FreezeCheckpoint()
		return nil
	})
	if world.Digest(or.State(), "StateHash", "CommitedStates") != before {
		l.VDig = "changed by freezing"
	}
	if l.Out == "ok" && l.Enough {
		c := or.State().CommitedStates[l.Slot]
		if c == nil {
			l.Out, l.Msg = "err", "no committed state for the slot"
			return
		}
		l.Root = c.MerkleRoot
		l.FDig = world.Digest(c.Validators)
		for k, lf := range c.Leafs {
			l.Leafs = append(l.Leafs, mleaf{k, lf.WithdrawalAddress, world.N(lf.AccumulatedBalanceWei)})
		}
		for k, p := range c.Proofs {
			l.Proofs = append(l.Proofs, mproof{k, append([]string{}, p...)})
		}
		sort.Slice(l.Leafs, func(i, j int) bool { return l.Leafs[i].Key < l.Leafs[j].Key })
		sort.Slice(l.Proofs, func(i, j int) bool { return l.Proofs[i].Key < l.Proofs[j].Key })
	}
	l.Lat, l.LatOk = or.LatestCommitedSlot()
	if x := or.LatestCommitedState(); x != nil {
		l.LatSt = x.Slot
	}
}

type nodeWorld struct {
	r      *rand.Rand
	g      *world.Gen
	tr     *world.Trace
	chain  map[uint64]*entry
	nodes  []*world.Node
	dirs   []string
	counts map[string]int
	base   string
	budget int  // slots that may still be generated
	plain  bool // nothing but what is asked for
}

func (w *nodeWorld) folder(o int) { oracle.StateFolder = w.dirs[o] }

func (w *nodeWorld) start(o int) {
	src := w.nodes[0]
	n := *src
	n.Fresh()
	w.nodes[o] = &n
	l := blank("start", o)
	l.M = memOf(&n)
	w.tr.Emit(l)
}

// advance processes up to k slots and freezes at the checkpoints, as the main loop does.
func (w *nodeWorld) advance(o, k int) {
	n := w.nodes[o]
	for ; k > 0; k-- {
		slot := n.Or.State().NextSlotToProcess
		e := w.chain[slot]
		if e == nil {
			if w.budget <= 0 {
				return
			}
			w.budget--
			w.g.N = n
			b, env := w.g.Next()
			e = &entry{b: b, env: env}
			out, _ := world.Try(func() error { e.fb = world.Full(b, n.Chain, n.Pool, n.Acc); return nil })
			if out != "ok" {
				return
			}
			e.in = world.Digest(e.fb)
		}
		before := world.Copy(n.Or.State())
		cfg := *n.Cfg
		n.Env, n.Cur = e.env, e.b.Slot
		l := blank("block", o)
		times := 0
		if slot%1200 == 0 { // the order in which validators are visited matters most there
			times = 4
		} else if w.r.Intn(8) == 0 {
			times = 1
		}
		for ; times > 0; times-- {
			t := *n
			t.Reset(before, &cfg)
			out, _ := world.Try(func() error { _, err := t.Or.AdvanceStateToNextSlot(e.fb); return err })
			if out == "ok" {
				out = memOf(&t).Acc
			}
			l.Again = append(l.Again, out)
			w.counts["again"]++
		}
		l.Slot = slot
		l.Out, l.Msg = world.Try(func() error { _, err := n.Or.AdvanceStateToNextSlot(e.fb); return err })
		l.InSame = world.Digest(e.fb) == e.in
		w.counts["block:"+l.Out]++
		if l.Out == "fatal" || l.Out == "panic" {
			n.Reset(before, &cfg)
		}
		if l.Out == "ok" {
			w.chain[slot] = e
		}
		ck := "err"
		if c, err := n.Or.IsCheckpoint(); err == nil {
			ck = fmt.Sprint(c)
		}
		l.Ck = ck
		l.M = memOf(n)
		w.tr.Emit(l)
		if world.Proj(n.Or.State()).Negative() {
			w.budget = -1
			return
		}
		if l.Out != "ok" {
			continue
		}
		if len(e.b.Fees) > 0 && !w.plain && w.r.Intn(2) == 0 { // a stop right after the fee changed
			w.save(o, false)
			w.start(o)
			w.load(o, "json", 0, o)
			return
		}
		if ck == "true" {
			f := blank("freeze", o)
			fillFreeze(&f, n.Or)
			f.M = memOf(n)
			w.tr.Emit(f)
			w.counts["freeze:"+f.Out]++
			if f.Enough && !w.plain && w.r.Intn(3) > 0 {
				w.save(o, true)
			}
		}
	}
}

func (w *nodeWorld) save(o int, slotToo bool) {
	n := w.nodes[o]
	w.folder(o)
	l := blank("save", o)
	l.SlotToo = slotToo
	l.Out, l.Msg = world.Try(func() error { return n.Or.SaveToJson(slotToo) })
	l.M = memOf(n)
	l.Hash = n.Or.State().StateHash
	ents, _ := os.ReadDir(w.dirs[o])
	for _, e := range ents {
		l.Files = append(l.Files, e.Name())
	}
	w.counts["save:"+l.Out]++
	w.tr.Emit(l)
}

func (w *nodeWorld) load(o int, how string, arg uint64, from int) {
	n := w.nodes[o]
	w.folder(o)
	l := blank("load", o)
	l.How, l.File, l.From = how, arg, from
	before := world.Copy(n.Or.State())
	cfg := *n.Cfg
	l.Out, l.Msg = world.Try(func() (err error) {
		switch how {
		case "json":
			l.Found, err = n.Or.LoadFromJson()
		case "given":
			l.Found, err = n.Or.LoadGivenState(arg)
		case "file":
			l.Found, err = n.Or.LoadFromPath(filepath.Join(w.dirs[o], fname(arg)))
		case "bytes":
			var raw []byte
			raw, err = os.ReadFile(filepath.Join(w.dirs[from], fname(arg)))
			if err != nil {
				return nil // no such file: nothing is loaded
			}
			if w.r.Intn(2) == 0 { // another layout of the same JSON, as served by /state
				var c bytes.Buffer
				if json.Compact(&c, raw) == nil {
					raw = c.Bytes()
				}
			}
			l.Found, err = n.Or.LoadFromBytes(raw)
		}
		return err
	})
	if l.Out == "fatal" || l.Out == "panic" {
		n.Reset(before, &cfg)
	}
	l.M = memOf(n)
	l.Hash = n.Or.State().StateHash
	w.counts["load:"+how+":"+l.Out+":"+fmt.Sprint(l.Found)]++
	w.tr.Emit(l)
}

func fname(slot uint64) string {
	if slot == 0 {
		return oracle.StateJsonName
	}
	return fmt.Sprintf("state_%d.json", slot)
}

// filesOf are the state files of a node: 0 is state.json.
func (w *nodeWorld) filesOf(o int) []uint64 {
	var out []uint64
	ents, _ := os.ReadDir(w.dirs[o])
	for _, e := range ents {
		var s uint64
		if e.Name() == oracle.StateJsonName {
			out = append(out, 0)
		} else if _, err := fmt.Sscanf(e.Name(), "state_%d.json", &s); err == nil {
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (w *nodeWorld) hash(o int) {
	n := w.nodes[o]
	l := blank("hash", o)
	l.Out, l.Msg = world.Try(func() error {
		s, err := n.Or.StateWithHash()
		if err == nil {
			l.Hash = s.StateHash
		}
		return err
	})
	l.M = memOf(n)
	w.tr.Emit(l)
}

// leavesOf lists the paths of all scalars of a JSON value.
func leavesOf(v interface{}, path []interface{}, out *[][]interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			leavesOf(x[k], append(append([]interface{}{}, path...), k), out)
		}
	case []interface{}:
		for i := range x {
			leavesOf(x[i], append(append([]interface{}{}, path...), i), out)
		}
	case nil:
	default:
		*out = append(*out, path)
	}
}

func edit(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case bool:
		return !x
	case json.Number:
		b, ok := new(big.Int).SetString(x.String(), 10)
		if !ok {
			return json.Number("1")
		}
		return json.Number(b.Add(b, big.NewInt(int64(1+r.Intn(3)))).String())
	case string:
		if x == "" {
			return "1"
		}
		i := r.Intn(len(x))
		if strings.HasPrefix(x, "0x") && len(x) > 2 {
			i = 2 + r.Intn(len(x)-2)
		}
		c := byte('1')
		if x[i] == '1' {
			c = '2'
		}
		return x[:i] + string(c) + x[i+1:]
	}
	return v
}

// tamper damages or replaces a state file of a node.
func (w *nodeWorld) tamper(o int) {
	fs := w.filesOf(o)
	if len(fs) == 0 {
		return
	}
	w.damage(o, fs[w.r.Intn(len(fs))], w.r.Intn(9))
}

func (w *nodeWorld) damage(o int, f uint64, how int) {
	p := filepath.Join(w.dirs[o], fname(f))
	l := blank("tamper", o)
	l.File = f
	raw, _ := os.ReadFile(p)
	if len(raw) == 0 {
		return
	}
	switch how {
	case 0:
		l.What = "deleted"
		os.Remove(p)
	case 1:
		l.What = "truncated"
		os.WriteFile(p, raw[:w.r.Intn(len(raw))], 0644)
	case 2:
		l.What = "empty"
		os.WriteFile(p, []byte{}, 0644)
	case 3, 4:
		l.What = "foreign"
		if !w.foreign(o, f, &l) {
			return
		}
	default:
		l.What = "altered"
		dec := json.NewDecoder(bytes.NewReader(raw))
		dec.UseNumber()
		var v interface{}
		if dec.Decode(&v) != nil {
			return
		}
		var ps [][]interface{}
		leavesOf(v, nil, &ps)
		path := ps[w.r.Intn(len(ps))]
		if w.r.Intn(3) == 0 { // prefer something outside the bulk of events
			for t := 0; t < 20 && len(path) > 2; t++ {
				path = ps[w.r.Intn(len(ps))]
			}
		}
		cur := v
		for _, k := range path[:len(path)-1] {
			switch x := k.(type) {
			case string:
				cur = cur.(map[string]interface{})[x]
			case int:
				cur = cur.([]interface{})[x]
			}
		}
		switch x := path[len(path)-1].(type) {
		case string:
			m := cur.(map[string]interface{})
			m[x] = edit(w.r, m[x])
		case int:
			a := cur.([]interface{})
			a[x] = edit(w.r, a[x])
		}
		l.Msg = fmt.Sprint(path)
		nraw, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, nraw, 0644)
	}
	w.counts["tamper:"+l.What]++
	w.tr.Emit(l)
}

// foreign lets an oracle of another deployment write the file.
func (w *nodeWorld) foreign(o int, f uint64, l *nodeLine) bool {
	n := w.nodes[o]
	st := world.Copy(n.Or.State())
	switch k := w.r.Intn(8); k {
	case 0:
		st.Network = map[string]string{"mainnet": "hoodi", "hoodi": "holesky", "holesky": "mainnet"}[st.Network]
		l.Msg = "network"
	case 1:
		st.PoolAddress = "0x00000000000000000000000000000000000000aa"
		l.Msg = "pool"
	case 2:
		st.PoolFeesAddress = "0x00000000000000000000000000000000000000bb"
		l.Msg = "fee address"
	case 3:
		c := st.CollateralInWei
		st.CollateralInWei = []*big.Int{new(big.Int).Add(c, big.NewInt(1)), new(big.Int).Sub(c, big.NewInt(1)), new(big.Int).Rsh(c, 1), new(big.Int).Lsh(c, 1),
			new(big.Int).Add(c, new(big.Int).Lsh(big.NewInt(1), 64))}[w.r.Intn(5)]
		if st.CollateralInWei.Cmp(c) == 0 { // nothing required: half of it is the same
			st.CollateralInWei = new(big.Int).Add(c, big.NewInt(1))
		}
		l.Msg = "deposit"
	case 4:
		st.CheckPointSizeInSlots += w.other(st.CheckPointSizeInSlots)
		l.Msg = "checkpoint size"
	case 5:
		st.DeployedBlock += w.other(st.DeployedBlock)
		l.Msg = "deployed block"
	case 6:
		st.DeployedSlot += w.other(st.DeployedSlot)
		l.Msg = "deployed slot"
	case 7:
		at, fee, has := world.Scheduled(st.Network)
		switch f0 := n.Fee0; {
		case has && st.LatestProcessedSlot < at && fee != f0 && w.r.Intn(2) == 0:
			st.PoolFeesPercentOver10000 = fee // not yet
		default:
			st.PoolFeesPercentOver10000 = []int{4242, f0 + 1, f0 - 1, 0, 10000}[w.r.Intn(5)]
			if st.PoolFeesPercentOver10000 == f0 || has && st.PoolFeesPercentOver10000 == fee {
				st.PoolFeesPercentOver10000 = 4242
			}
		}
		l.Msg = "fee"
	}
	cfg := &oracle.Config{Network: st.Network, PoolAddress: st.PoolAddress, PoolFeesAddress: st.PoolFeesAddress, CollateralInWei: st.CollateralInWei,
		CheckPointSizeInSlots: st.CheckPointSizeInSlots, DeployedBlock: st.DeployedBlock, DeployedSlot: st.DeployedSlot, PoolFeesPercentOver10000: st.PoolFeesPercentOver10000}
	or := oracle.NewOracle(cfg)
	*or.State() = *st
	dir := filepath.Join(w.base, "foreign")
	os.RemoveAll(dir)
	oracle.StateFolder = dir
	if out, _ := world.Try(func() error { return or.SaveToJson(false) }); out != "ok" {
		return false
	}
	raw, err := os.ReadFile(filepath.Join(dir, oracle.StateJsonName))
	if err != nil {
		return false
	}
	os.WriteFile(filepath.Join(w.dirs[o], fname(f)), raw, 0644)
	return true
}

// other gives a difference to another value.
func (w *nodeWorld) other(v uint64) uint64 {
	switch w.r.Intn(4) {
	case 0:
		return 1
	case 1:
		return ^uint64(0)
	case 2:
		if v != 0 {
			return v // twice as much
		}
	}
	return 1 << 32
}

type worldLine struct {
	Ev      string `json:"ev"`
	Net     string `json:"net"`
	Deploy  uint64 `json:"deploy"`
	Ckpt    uint64 `json:"ckpt"`
	Fee0    int    `json:"fee0"`
	FeeAddr string `json:"feeAddr"`
	Pool    string `json:"pool"`
	N       int    `json:"n"`
}

// nodeCmd: several real oracles follow one chain, save, stop, start, load and roll back.
func nodeCmd() map[string]interface{} {
	m, ok := world.Modes[*mode]
	if !ok {
		m = world.Base
	}
	addBuilders()
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	base, err := os.MkdirTemp("", "vhnode")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	h := 0
	for tr.N < *steps {
		g := world.NewGen(*seed*7_000_003+int64(h), m)
		h++
		r := g.R
		g.N.Ckpt = uint64(2 + r.Intn(6))
		if m.Long > 0 {
			g.N.Ckpt = 2
		}
		if g.Mark > int(g.N.Deploy) && r.Intn(2) == 0 {
			g.N.Deploy = uint64(g.Mark - 1 - r.Intn(12))
		}
		if g.N.Deploy < 2 {
			g.N.Deploy = 2
		}
		if r.Intn(6) == 0 { // the pool's fee address is also a withdrawal address
			g.N.FeeAddr = []string{g.Wal[0], strings.ToUpper(g.Wal[1][2:])}[r.Intn(2)]
			if !strings.HasPrefix(g.N.FeeAddr, "0x") {
				g.N.FeeAddr = "0x" + g.N.FeeAddr
			}
		}
		g.N.Fresh()
		k := 3
		w := &nodeWorld{r: r, g: g, tr: tr, chain: map[uint64]*entry{}, nodes: make([]*world.Node, k), counts: counts, base: base, budget: 30 + r.Intn(30)}
		ops := 60
		if m.Long > 0 { // checkpoints by the hundred
			w.budget, ops = 500, 300
		}
		tr.Emit(worldLine{Ev: "world", Net: g.N.Net, Deploy: g.N.Deploy, Ckpt: g.N.Ckpt, Fee0: g.N.Fee0, FeeAddr: strings.ToLower(g.N.FeeAddr), Pool: strings.ToLower(g.N.Pool), N: k})
		first := g.N
		for o := 0; o < k; o++ {
			w.dirs = append(w.dirs, filepath.Join(base, fmt.Sprintf("h%d-o%d", h, o)))
		}
		w.nodes[0] = first
		for o := 0; o < k; o++ {
			w.start(o)
		}
		for op := 0; op < ops && w.budget >= 0; op++ {
			o := r.Intn(k)
			switch x := r.Intn(100); {
			case x < 45:
				w.advance(o, 1+r.Intn(8))
			case x < 55:
				w.save(o, r.Intn(3) > 0)
			case x < 68: // stop and start
				if r.Intn(2) == 0 {
					w.save(o, false)
				}
				w.start(o)
				w.load(o, "json", 0, o)
			case x < 78:
				fs := w.filesOf(o)
				arg := w.nodes[o].Or.State().LatestProcessedSlot - uint64(r.Intn(12))
				if len(fs) > 0 && r.Intn(3) > 0 {
					arg = fs[r.Intn(len(fs))]
					if arg > 0 {
						arg += []uint64{0, 0, 0, g.N.Ckpt, 2 * g.N.Ckpt, 3 * g.N.Ckpt, 1}[r.Intn(7)]
					}
				}
				w.load(o, "given", arg, o)
			case x < 86:
				from := r.Intn(k)
				fs := w.filesOf(from)
				if len(fs) > 0 {
					w.load(o, []string{"bytes", "bytes", "file"}[r.Intn(3)], fs[r.Intn(len(fs))], from)
				}
			case x < 92:
				w.tamper(o)
			default:
				w.hash(o)
			}
		}
		for o := 0; o < k && w.budget >= 0; o++ { // everyone catches up, so that all are compared
			top := uint64(0)
			for s := range w.chain {
				if s > top {
					top = s
				}
			}
			w.advance(o, int(top+1-w.nodes[o].Or.State().NextSlotToProcess))
			w.hash(o)
		}
		for _, d := range w.dirs {
			os.RemoveAll(d)
		}
		for k, v := range g.Counts {
			counts[k] += v
		}
	}
	counts["histories"] = h
	counts["lines"] = tr.N
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": h, "lines": tr.N}
}
