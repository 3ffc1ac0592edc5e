package world

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
)

// Mode sets how often each ingredient appears in the generated slots (percent).
type Mode struct {
	Missed, Mev, MevPool, FeePool        int
	Sub, Unsub, Ban, Unban, Don, Collide int
	Gov, BadSlot, BadData, EnvErr, Clean int
	Bls, Exited, Cons, CallPool, Builder int
	SubGood, Unknown                     int
	Boundary                             bool // start next to a fork or fee change slot
	MinStart                             int  // earliest slot of deployment
	S404                                 bool // some slots have 404 in their number
	Dense                                bool // only the first validators
	Long                                 int  // slots in a history, at least (0: some tens)
	Wide                                 int  // validators that exist (0: a few)
	Burst                                int  // how often a slot has many events of one kind
}

var Base = Mode{Missed: 15, Mev: 50, MevPool: 70, FeePool: 45, Sub: 25, Unsub: 12, Ban: 8, Unban: 10, Don: 20, Collide: 20,
	Gov: 3, BadSlot: 2, BadData: 3, EnvErr: 2, Clean: 6, Bls: 12, Exited: 30, Cons: 50, CallPool: 4, Builder: 10, SubGood: 60, Unknown: 10, Burst: 4, Boundary: true}

func (m Mode) With(f func(*Mode)) Mode { f(&m); return m }

// Modes per property: more of what the property is about.
var Modes = map[string]Mode{
	"mixed": Base,
	"P01":   Base.With(func(m *Mode) { m.Collide = 35; m.CallPool = 8; m.Clean = 10 }),
	"P02": Base.With(func(m *Mode) {
		m.Missed = 35
		m.Ban = 15
		m.Unban = 20
		m.SubGood = 75
		m.Unsub = 20
		m.Gov = 0
	}),
	"P03": Base.With(func(m *Mode) {
		m.Missed = 10
		m.MevPool = 90
		m.FeePool = 80
		m.SubGood = 85
		m.Sub = 30
		m.Unsub = 4
		m.Ban = 3
		m.Gov = 1
		m.Don = 50
	}),
	"P04": Base.With(func(m *Mode) { m.MevPool = 85; m.FeePool = 70; m.Sub = 40; m.SubGood = 70 }),
	"P05": Base.With(func(m *Mode) {
		m.Sub = 90
		m.SubGood = 45
		m.Unknown = 15
		m.Exited = 40
		m.Ban = 12
		m.Unsub = 20
	}),
	"P06": Base.With(func(m *Mode) { m.Unsub = 80; m.Sub = 60; m.SubGood = 85; m.MevPool = 90; m.Don = 40 }),
	"P07": Base.With(func(m *Mode) {
		m.Ban = 55
		m.Unban = 45
		m.Sub = 50
		m.SubGood = 85
		m.MevPool = 60
		m.Don = 40
	}),
	"P08": Base.With(func(m *Mode) {
		m.Collide = 50
		m.CallPool = 12
		m.Don = 50
		m.Builder = 25
		m.Bls = 25
		m.Mev = 70
	}),
	"P09": Base.With(func(m *Mode) {
		m.Mev = 8
		m.FeePool = 75
		m.BadData = 15
		m.Missed = 5
		m.Sub = 15
		m.Don = 5
	}),
	"P10": Base.With(func(m *Mode) {
		m.Clean = 60
		m.Exited = 60
		m.Cons = 80
		m.SubGood = 85
		m.Sub = 60
		m.Don = 60
		m.MevPool = 90
		m.Ban = 8
		m.EnvErr = 4
	}),
	"fetch": Base.With(func(m *Mode) {
		m.BadSlot = 0
		m.BadData = 0
		m.EnvErr = 3
		m.MinStart = 96
		m.S404 = true
		m.Clean = 25
		m.Gov = 6
		m.Sub = 35
		m.Collide = 30
	}),
	"api": Base.With(func(m *Mode) {
		m.BadSlot = 0
		m.BadData = 0
		m.EnvErr = 0
		m.Gov = 1
		m.Sub = 45
		m.SubGood = 75
		m.Don = 40
		m.MevPool = 85
		m.FeePool = 65
		m.MinStart = 96
		m.Dense = true
	}),
	"run": Base.With(func(m *Mode) {
		m.BadSlot = 0
		m.BadData = 0
		m.EnvErr = 0
		m.MinStart = 96
		m.Clean = 30
		m.Gov = 2
		m.Sub = 45
		m.SubGood = 80
		m.Missed = 20
	}),
	"long": Base.With(func(m *Mode) {
		m.Long = 1800
		m.Missed = 40
		m.Gov = 0
		m.Don = 40
		m.Sub = 55
		m.SubGood = 92
		m.Ban = 2
		m.Unban = 30
		m.Unsub = 6
		m.Exited = 5
		m.MevPool = 92
		m.FeePool = 85
		m.Clean = 1
	}),
	"wide": Base.With(func(m *Mode) {
		m.Long = 400
		m.Wide = 170
		m.Gov = 0
		m.Sub = 85
		m.SubGood = 90
		m.Don = 40
		m.MevPool = 85
		m.FeePool = 70
		m.Clean = 10
		m.Burst = 12
		m.Ban = 3
		m.Unsub = 5
	}),
	"P12": Base.With(func(m *Mode) { m.BadSlot = 15; m.BadData = 12; m.EnvErr = 8; m.Gov = 12; m.Missed = 30 }),
	"P13": Base.With(func(m *Mode) {
		m.Gov = 45
		m.Don = 50
		m.MevPool = 90
		m.FeePool = 80
		m.Sub = 40
		m.SubGood = 80
	}),
}

type Gen struct {
	R      *rand.Rand
	M      Mode
	N      *Node
	Ids    []int // validators that exist
	Wal    []string
	Users  []string // accounts without validator
	Bad    int
	Bnum   int
	base   map[int]BV
	exit   map[int]int // slot from which the validator is no longer active
	Mark   int         // the boundary slot the history is started next to
	Counts map[string]int
	Vi     func(slot int) int // who proposes (nil: anybody)
}

func (g *Gen) p(pct int) bool           { return g.R.Intn(100) < pct }
func pick[T any](r *rand.Rand, x []T) T { return x[r.Intn(len(x))] }

var nets = []struct {
	name  string
	chain uint64
	marks []int
}{
	{"mainnet", 1, []int{10188220, 11649024, 14082460}},
	{"holesky", 17000, []int{2720632}},
	{"hoodi", 560048, []int{1, 65536, 2801050}},
}

const (
	mainnetPool   = "0xAdFb8D27671F14f297eE94135e266aAFf8752e35"
	exceptionSlot = 10400574
)

// NewGen makes a world: a network, a pool, validators, accounts, and a fresh real oracle in it.
func NewGen(seed int64, m Mode) *Gen {
	r := rand.New(rand.NewSource(seed))
	g := &Gen{R: r, M: m, base: map[int]BV{}, exit: map[int]int{}, Counts: map[string]int{}}
	net := nets[[]int{0, 0, 0, 1, 2, 2}[r.Intn(6)]]
	addrs, acc := NewAccounts(fmt.Sprintf("w%d", r.Intn(5)), 14)
	for _, a := range ExtraBuilders {
		if _, known := acc[a]; !known {
			_, b := NewAccounts("builder", 1)
			for k, v := range b {
				acc[k] = v
			}
		}
	}
	g.Wal = addrs[:4]
	g.Users = addrs[5:10]
	pool := MixCase(r, addrs[12])
	fee := MixCase(r, addrs[13])
	n := &Node{Net: net.name, Chain: net.chain, Pool: pool, FeeAddr: fee, Ckpt: uint64(pick(r, []int{4, 5, 10, 7200})), Acc: acc,
		Fee0: pick(r, []int{0, 1, 33, 500, 700, 1000, 1000, 1337, 9999, 10000}), Coll: big.NewInt(0)}
	n.Coll = pick(r, []*big.Int{big.NewInt(10000), big.NewInt(1), e(16), big.NewInt(0)})
	mark := pick(r, net.marks)
	g.Mark = mark
	start := mark - r.Intn(14)
	if !m.Boundary || r.Intn(3) == 0 {
		start = mark + r.Intn(300000)
	}
	if g.p(m.Clean) {
		start = (start/1200+1)*1200 - 2 - r.Intn(25)
	}
	if start < 2 {
		start = 2
	}
	if start < m.MinStart {
		start = m.MinStart + r.Intn(20)
	}
	if m.S404 && r.Intn(3) == 0 {
		start = start/10000*10000 + 4040 - r.Intn(10)
	}
	n.Deploy = uint64(start)
	near := net.chain == 1 && start > exceptionSlot-80000 && start <= exceptionSlot
	if near {
		n.Pool = mainnetPool
	} else if g.p(10) && net.chain == 1 {
		// the slot with the hard coded payment, whose recipient is the pool of mainnet
		n.Pool = mainnetPool
		n.Deploy = uint64(exceptionSlot - r.Intn(20))
	}
	n.At = g.at
	g.N = n
	g.Bnum = 1000 + r.Intn(1000000)
	if r.Intn(3) == 0 { // where block numbers get one digit more
		g.Bnum = []int{10000, 100000, 1000000, 10000000, 100000000}[r.Intn(5)] - 1 - r.Intn(40)
	}
	nv := 3 + r.Intn(6)
	if m.Wide > 0 {
		nv = m.Wide
	}
	for i := 0; i < nv; i++ {
		id := 1 + r.Intn(12)
		if m.Wide > 0 {
			id = 1 + r.Intn(4*m.Wide)
		}
		if !m.Dense && r.Intn(6) == 0 {
			id = 100000 + r.Intn(1900000)
		}
		if _, dup := g.base[id]; dup {
			continue
		}
		kind := "eth1"
		switch {
		case g.p(m.Bls):
			kind = pick(r, []string{"bls", "bls", "other", "other3"})
		case g.p(40):
			kind = "electra"
		}
		raw := Creds(kind, pick(r, g.Wal))
		g.base[id] = BV{Ok: true, Id: id, Idx: id, Raw: raw, Cred: CredKind(raw), Wa: WaOf(raw), Key: fmt.Sprintf("0x%x", KeyOf(id))}
		g.Ids = append(g.Ids, id)
		g.exit[id] = 1 << 30
		if g.p(m.Exited) {
			g.exit[id] = start + r.Intn(40)
		}
	}
	sort.Ints(g.Ids)
	n.Fresh()
	return g
}

func e(k int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil) }

func MixCase(r *rand.Rand, a string) string {
	switch r.Intn(3) {
	case 0:
		return common.HexToAddress(a).String()
	case 1:
		return "0x" + strings.ToUpper(a[2:])
	}
	return a
}

// at is the beacon node's record of a validator at a slot.
func (g *Gen) at(id int, slot int) BV {
	v, ok := g.base[id]
	if !ok {
		return BV{Id: id, Idx: id, Eff: "0", Status: "unknown"}
	}
	h := (id*7919 + slot*104729) % 97
	switch {
	case h < 40:
		v.Eff = "32000000000"
	case h < 60:
		v.Eff = fmt.Sprint(16000000000 + uint64(h)*1000000000)
	case h < 75:
		v.Eff = fmt.Sprint(2048000000000 - uint64(h)*7000000000)
	case h < 90:
		v.Eff = fmt.Sprint(31000000000)
	case h < 94:
		v.Eff = fmt.Sprint(1000000007 + uint64(h))
	default:
		v.Eff = "0"
	}
	v.Status = "active_ongoing"
	if slot >= g.exit[id] {
		v.Status = []string{"exited_unslashed", "exited_slashed", "withdrawal_possible", "withdrawal_done"}[(id+slot/1200)%4]
	} else if slot+6 >= g.exit[id] {
		v.Status = []string{"active_exiting", "active_slashed"}[id%2]
	} else if id%5 == 4 && slot%3 == 0 {
		v.Status = []string{"pending_initialized", "pending_queued"}[id%2]
	}
	return v
}

func (g *Gen) amount() *big.Int {
	r := g.R
	switch r.Intn(10) {
	case 0:
		return big.NewInt(int64(r.Intn(5)))
	case 1:
		return big.NewInt(int64(r.Intn(20000)))
	case 2:
		return new(big.Int).Add(e(18), big.NewInt(int64(r.Intn(7)-3)))
	case 3:
		return new(big.Int).Rand(r, e(24))
	case 4:
		return new(big.Int).Mul(e(14), big.NewInt(int64(1+r.Intn(5000))))
	default:
		return new(big.Int).Rand(r, e(17+int64(r.Intn(3))))
	}
}

func (g *Gen) anyId(unknown int) int {
	if g.p(unknown) {
		return 500 + g.R.Intn(4)
	}
	return pick(g.R, g.Ids)
}

func (g *Gen) byStatus(pred func(*oracle.ValidatorInfo) bool) []int {
	var out []int
	for i, v := range g.N.Or.State().Validators {
		if pred(v) {
			out = append(out, int(i))
		}
	}
	sort.Ints(out)
	return out
}

func subscribed(v *oracle.ValidatorInfo) bool {
	return v.ValidatorStatus == oracle.Active || v.ValidatorStatus == oracle.YellowCard || v.ValidatorStatus == oracle.RedCard
}

// Next generates the next slot: its raw content and what the beacon node knows.
func (g *Gen) Next() (Blk, Env) {
	r, m, n := g.R, g.M, g.N
	slot := int(n.Or.State().NextSlotToProcess)
	pool := strings.ToLower(n.Pool)
	b := Blk{Slot: slot, Txs: []Tx{}, Ers: []Ev{}, Subs: []Sub{}, Unsubs: []Unsub{}, Bans: []int{}, Unbans: []int{},
		Fees: []int{}, Recips: []string{}, Csizes: []int{}, Colls: []Num{}, Pbase: "0", Pgas: "0", Hbase: "0", FeeRec: "", Version: pick(r, Versions)}
	env := Env{V: []BV{}, Cons: []Cons{}}
	for _, id := range g.Ids {
		env.V = append(env.V, g.at(id, slot))
	}
	for k := 0; k < 4; k++ {
		if g.p(m.Cons) {
			c := Cons{S: pick(r, g.Ids), T: pick(r, g.Ids)}
			if c.S != c.T {
				env.Cons = append(env.Cons, c)
			}
		}
	}
	dedup := map[int]bool{}
	cons := []Cons{}
	for _, c := range env.Cons { // a source consolidates once
		if !dedup[c.S] {
			dedup[c.S] = true
			cons = append(cons, c)
		}
	}
	env.Cons = cons
	if g.p(m.EnvErr) {
		if r.Intn(2) == 0 {
			env.ConsErr = true
		} else {
			env.ValErr = true
		}
	}

	// proposer
	id := pick(r, g.Ids)
	if sub := g.byStatus(subscribed); len(sub) > 0 && g.p(45) {
		id = pick(r, sub)
	}
	if g.Vi != nil {
		id = g.Vi(slot)
	}
	pv := g.at(id, slot)
	if !pv.Ok { // a tracked validator the world does not know cannot happen; unknown proposer gets a record
		raw := Creds("eth1", pick(r, g.Users))
		pv = BV{Ok: true, Id: id, Idx: id, Raw: raw, Cred: CredKind(raw), Wa: WaOf(raw), Key: fmt.Sprintf("0x%x", KeyOf(id)), Eff: "32000000000", Status: "active_ongoing"}
	}
	b.Vi, b.Key, b.Cred, b.Wa, b.Prop = id, pv.Key, pv.Cred, pv.Wa, pv
	if g.p(m.BadSlot) {
		b.Slot = slot + pick(r, []int{-1, 1, 2, 1200})
		g.Counts["badslot"]++
	}
	historic := n.Chain == 1 && b.Slot == exceptionSlot // a block that exists: proposed, and ends with a payment
	if !historic && g.p(m.Missed) {
		b.Missed = true
		g.Counts["missed"]++
		return b, env
	}
	g.Bnum += 1 + r.Intn(2)*r.Intn(3)
	b.Bnum = g.Bnum

	// payload
	b.FeeRec = pick(r, append([]string{g.N.lowPool()}, g.Users...))
	if g.p(m.FeePool) {
		b.FeeRec = pool
	} else if b.FeeRec == pool {
		b.FeeRec = pick(r, g.Users)
	}
	baseFee := new(big.Int).Rand(r, e(int64(1+r.Intn(11))))
	if r.Intn(8) == 0 {
		baseFee.Add(baseFee, e(20))
	}
	ntx := r.Intn(4)
	for i := 0; i < ntx; i++ {
		b.Txs = append(b.Txs, g.tx(baseFee, pick(r, g.Users), pick(r, append([]string{""}, g.Users...)), g.amount()))
	}
	for i := range b.Txs {
		// only the last transaction may be the payment: keep chance senders out of the way sometimes
		_ = i
	}
	mev := historic || g.p(m.Mev)
	var mevVal *big.Int
	if mev {
		mevVal = g.amount()
		sender := b.FeeRec
		if sender == pool || g.p(m.Builder) {
			if len(ExtraBuilders) > 0 {
				sender = pick(r, ExtraBuilders)
			} else {
				sender = pick(r, g.Users)
			}
		}
		if _, ok := n.Acc[sender]; !ok || sender == pool {
			sender = pick(r, g.Users)
		}
		to := pick(r, g.Users)
		toPool := g.p(m.MevPool)
		viaContract := toPool && r.Intn(5) == 0
		if toPool && !viaContract {
			to = pool
		}
		t := g.tx(baseFee, sender, to, mevVal)
		if toPool && g.p(m.CallPool) {
			// a call to the pool (subscription, claim...), not a payment: no EtherReceived event
			t.Data = []byte{1, 2, 3, 4}
			if r.Intn(2) == 0 {
				t.Val = "0"
			}
			toPool = false
			g.Counts["callpool"]++
		}
		b.Txs = append(b.Txs, t)
		if g.p(m.Don) {
			b.Ers = append(b.Ers, Ev{pick(r, g.Users), N(g.amount()), pool})
		}
		if toPool {
			if g.p(m.Collide) {
				b.Ers = append(b.Ers, Ev{pick(r, g.Users), N(mevVal), pool})
				g.Counts["collide"]++
			}
			b.Ers = append(b.Ers, Ev{sender, N(mevVal), pool})
			g.Counts["mevpool"]++
		}
	} else {
		for k := 0; k < 2; k++ {
			if g.p(m.Don) {
				b.Ers = append(b.Ers, Ev{pick(r, g.Users), N(g.amount()), pool})
			}
		}
	}
	gas := big.NewInt(0)
	for _, t := range b.Txs {
		gas.Add(gas, B(t.Gas))
	}
	b.Pgas, b.Pbase, b.Hbase = N(gas), N(baseFee), N(baseFee)
	b.Hdr, b.Nrec = true, len(b.Txs)
	if g.p(m.BadData) {
		g.Counts["baddata"]++
		switch k := r.Intn(4); {
		case k == 0:
			b.Hdr, b.Nrec = false, 0
		case k == 1:
			b.Nrec++
		case k == 2 && len(b.Txs) > 0:
			b.Nrec--
		case len(b.Txs) > 0:
			b.Txs[r.Intn(len(b.Txs))].Hok = false
		}
	}

	// events of the pool
	burst, loops := 0, 3
	if g.p(m.Burst) {
		burst, loops = 1+r.Intn(3), 12+r.Intn(30)
	}
	for k := 0; k < loops; k++ {
		if k >= 3 {
			switch burst {
			case 1:
				b.Subs = append(b.Subs, g.sub(slot))
			case 2:
				b.Unsubs = append(b.Unsubs, g.unsub(slot))
			case 3:
				if g.p(50) {
					b.Ers = append(b.Ers, Ev{pick(r, g.Users), N(g.amount()), pool})
				}
			}
			continue
		}
		if g.p(m.Sub) {
			b.Subs = append(b.Subs, g.sub(slot))
		}
		if g.p(m.Unsub) {
			b.Unsubs = append(b.Unsubs, g.unsub(slot))
		}
		if g.p(m.Ban) {
			i := g.anyId(m.Unknown)
			if s := g.byStatus(subscribed); len(s) > 0 && g.p(60) {
				i = pick(r, s)
			}
			b.Bans = append(b.Bans, i)
		}
		if g.p(m.Unban) {
			i := g.anyId(m.Unknown)
			if s := g.byStatus(func(v *oracle.ValidatorInfo) bool { return v.ValidatorStatus == oracle.Banned }); len(s) > 0 && g.p(70) {
				i = pick(r, s)
			}
			b.Unbans = append(b.Unbans, i)
		}
	}
	if slot == 14082460 && n.Net == "mainnet" || slot == 2801050 && n.Net == "hoodi" {
		if g.p(85) {
			b.Fees = append(b.Fees, 500)
		}
	}
	if g.p(m.Gov) {
		switch r.Intn(10) {
		case 0:
			b.Fees = append(b.Fees, pick(r, []int{500, n.Cfg.PoolFeesPercentOver10000, 501, 0}))
		case 1, 2:
			b.Recips = append(b.Recips, strings.ToLower(n.FeeAddr))
		case 3:
			b.Recips = append(b.Recips, pick(r, g.Users))
		case 4, 5:
			b.Csizes = append(b.Csizes, int(n.Ckpt))
		case 6:
			b.Csizes = append(b.Csizes, int(n.Ckpt)+1)
		case 7, 8:
			b.Colls = append(b.Colls, N(n.Coll))
		case 9:
			b.Colls = append(b.Colls, N(new(big.Int).Add(n.Coll, big.NewInt(1))))
		}
		if r.Intn(4) == 0 && len(b.Recips) > 0 {
			b.Recips = append(b.Recips, b.Recips[0])
		}
		if r.Intn(4) == 0 && len(b.Csizes) > 0 {
			b.Csizes = append(b.Csizes, b.Csizes[0])
		}
		if r.Intn(4) == 0 && len(b.Colls) > 0 {
			b.Colls = append(b.Colls, b.Colls[0])
		}
		g.Counts["gov"]++
	}
	if r.Intn(3) == 0 && len(b.Fees) > 0 && g.p(m.Gov) {
		switch r.Intn(3) {
		case 0:
			b.Fees = append(b.Fees, 500)
		case 1:
			b.Recips = append(b.Recips, pick(r, g.Users))
		case 2:
			b.Colls = append(b.Colls, N(new(big.Int).Add(n.Coll, big.NewInt(1))))
		}
	}
	if len(b.Subs) > 0 {
		g.Counts["subs"]++
	}
	if len(b.Unsubs) > 0 {
		g.Counts["unsubs"]++
	}
	if len(b.Bans) > 0 {
		g.Counts["bans"]++
	}
	if len(b.Unbans) > 0 {
		g.Counts["unbans"]++
	}
	if len(b.Ers) > 0 {
		g.Counts["etherreceived"]++
	}
	return b, env
}

func (n *Node) lowPool() string { return strings.ToLower(n.Pool) }

func (g *Gen) tx(baseFee *big.Int, from, to string, val *big.Int) Tx {
	r := g.R
	ty := r.Intn(5)
	if to == "" && ty >= 3 {
		ty = r.Intn(3)
	}
	t := Tx{From: from, To: to, Val: N(val), Ty: ty, Price: "0", Tip: "0", Cap: "0", Hok: true, Homestead: r.Intn(4) == 0}
	over := new(big.Int).Rand(r, e(int64(1+r.Intn(11))))
	if r.Intn(4) == 0 {
		over.SetInt64(0)
	}
	top := new(big.Int).Add(baseFee, over)
	if ty < 2 {
		t.Price = N(top)
	} else {
		tip := new(big.Int).Rand(r, e(int64(1+r.Intn(11))))
		switch r.Intn(4) {
		case 0:
			tip.Set(over) // tip + base fee = cap exactly
		case 1:
			tip.SetInt64(0)
		}
		if tip.Cmp(top) > 0 {
			tip.Set(top)
		}
		t.Tip, t.Cap = N(tip), N(top)
	}
	t.Gas = fmt.Sprint(21000 + r.Intn(3000000))
	return t
}

var badStatuses = StatusNames

func (g *Gen) sub(slot int) Sub {
	r, n := g.R, g.N
	id := g.anyId(g.M.Unknown)
	v := g.at(id, slot)
	s := Sub{Id: id, V: v, Coll: N(n.Coll), From: pick(r, g.Users)}
	if v.Cred == "eth1" || v.Cred == "electra" {
		s.From = v.Wa
	}
	if !g.p(g.M.SubGood) {
		switch r.Intn(6) {
		case 0:
			s.From = pick(r, append(append([]string{}, g.Wal...), g.Users...))
		case 1:
			s.Coll = N(new(big.Int).Add(n.Coll, big.NewInt(int64(r.Intn(3)-1))))
			if s.Coll[0] == '-' {
				s.Coll = "0"
			}
		case 2:
			s.Coll = N(g.amount())
		case 3:
			if s.V.Ok {
				s.V.Status = pick(r, badStatuses)
			}
		case 4:
			s.V = BV{Id: id, Idx: id, Eff: "0", Status: "unknown"}
		case 5:
			if s.V.Ok {
				raw := Creds(pick(r, []string{"bls", "other", "other3"}), pick(r, g.Wal))
				s.V.Raw, s.V.Cred, s.V.Wa = raw, CredKind(raw), WaOf(raw)
			}
		}
	}
	return s
}

func (g *Gen) unsub(slot int) Unsub {
	r := g.R
	id := g.anyId(g.M.Unknown)
	if s := g.byStatus(subscribed); len(s) > 0 && g.p(50) {
		id = pick(r, s)
	}
	v := g.at(id, slot)
	u := Unsub{Id: id, V: v, From: pick(r, g.Users)}
	if v.Cred == "eth1" || v.Cred == "electra" {
		u.From = v.Wa
	}
	if g.p(25) {
		switch r.Intn(3) {
		case 0:
			u.From = pick(r, append(append([]string{}, g.Wal...), g.Users...))
		case 1:
			u.V = BV{Id: id, Idx: id, Eff: "0", Status: "unknown"}
		case 2:
			if u.V.Ok {
				raw := Creds(pick(r, []string{"bls", "other", "other3"}), pick(r, g.Wal))
				u.V.Raw, u.V.Cred, u.V.Wa = raw, CredKind(raw), WaOf(raw)
			}
		}
	}
	return u
}

// Jump moves the oracle to another slot, as when it starts from a saved state of that slot.
func (g *Gen) Jump(slot int) {
	st := g.N.Or.State()
	st.LatestProcessedSlot = uint64(slot - 1)
	st.NextSlotToProcess = uint64(slot)
}

// At is the beacon node's record of a validator at a slot.
func (g *Gen) At(id, slot int) BV { return g.at(id, slot) }

// Same gives all the records of a validator in this slot the same content, which a beacon node has but once.
func (g *Gen) Same(b *Blk, env *Env) {
	rec := map[int]BV{}
	for _, v := range env.V {
		rec[v.Id] = v
	}
	set := map[int]bool{b.Vi: true}
	use := func(id int, v BV) BV {
		_, ok := rec[id]
		if !set[id] && v.Ok && v.Status != "unknown" && ok {
			rec[id] = v
		}
		set[id] = true
		if r, ok := rec[id]; ok {
			return r
		}
		return BV{Id: id, Idx: id, Eff: "0", Status: "unknown"}
	}
	for i := range b.Subs {
		b.Subs[i].V = use(b.Subs[i].Id, b.Subs[i].V)
	}
	for i := range b.Unsubs {
		b.Unsubs[i].V = use(b.Unsubs[i].Id, b.Unsubs[i].V)
	}
	for i := range b.Subs {
		if v, ok := rec[b.Subs[i].Id]; ok {
			b.Subs[i].V = v
		}
	}
	for i := range env.V {
		env.V[i] = rec[env.V[i].Id]
	}
}
