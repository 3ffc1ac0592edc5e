package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
)

func init() { cmds["recon"] = reconCmd }

type bval struct {
	Id   uint64    `json:"id"`
	Wa   string    `json:"wa"`
	Acc  world.Num `json:"acc"`
	Pend world.Num `json:"pend"`
}

type onq struct {
	Claimed []world.Num `json:"claimed"`
	Balance world.Num   `json:"balance"`
	Out     string      `json:"out"`
	Msg     string      `json:"msg"`
}

type booksLine struct {
	Ev       string      `json:"ev"`
	Vals     []bval      `json:"vals"`
	Fees     world.Num   `json:"fees"`
	Received []world.Num `json:"received"`
	Deposits []world.Num `json:"deposits"`
	Priority []world.Num `json:"priority"`
	FeeAddr  string      `json:"feeAddr"`
	Off      string      `json:"off"`
	Msg      string      `json:"msg"`
	On       []onq       `json:"on"`
	Same     bool        `json:"same"`
	Unique   []string    `json:"unique"`
	Real     bool        `json:"real"`
}

// books writes down the books of an oracle and what it says of them.
func books(r *rand.Rand, or *oracle.Oracle, real bool, counts map[string]int) booksLine {
	s := or.State()
	l := booksLine{Ev: "books", Vals: []bval{}, Received: []string{}, Deposits: []string{}, Priority: []string{}, On: []onq{}, Unique: []string{},
		Fees: world.N(s.PoolAccumulatedFees), FeeAddr: strings.ToLower(s.PoolFeesAddress), Real: real}
	owed := new(big.Int).Set(s.PoolAccumulatedFees)
	was := map[string]bool{}
	for id, v := range s.Validators {
		wa := strings.ToLower(v.WithdrawalAddress)
		l.Vals = append(l.Vals, bval{id, wa, world.N(v.AccumulatedRewardsWei), world.N(v.PendingRewardsWei)})
		owed.Add(owed, v.AccumulatedRewardsWei)
		owed.Add(owed, v.PendingRewardsWei)
		was[v.WithdrawalAddress] = true
	}
	sort.Slice(l.Vals, func(i, j int) bool { return l.Vals[i].Id < l.Vals[j].Id })
	for _, e := range s.EtherReceivedEvents {
		l.Received = append(l.Received, world.N(e.DonationAmount))
	}
	for _, e := range s.SubscriptionEvents {
		l.Deposits = append(l.Deposits, world.N(e.SubscriptionCollateral))
	}
	for _, b := range s.ProposedBlocks {
		if b.RewardType == oracle.VanilaBlock {
			l.Priority = append(l.Priority, world.N(b.Reward))
		}
	}
	before := world.Digest(s)
	l.Off, l.Msg = world.Try(or.RunOffchainReconciliation)
	counts["off:"+l.Off]++
	for k := 0; k < 3; k++ {
		claimed := map[string]*big.Int{}
		total := new(big.Int)
		for wa := range was {
			if r.Intn(3) > 0 {
				x := amt(r)
				claimed[wa] = x
				total.Add(total, x)
			}
		}
		bal := new(big.Int).Sub(owed, total)
		switch r.Intn(5) {
		case 0:
			bal.Add(bal, big.NewInt(1))
		case 1:
			bal.Sub(bal, big.NewInt(1))
		case 2:
			if r.Intn(2) == 0 {
				bal = amt(r)
			}
		}
		q := onq{Claimed: []string{}, Balance: world.N(bal)}
		for _, x := range claimed {
			q.Claimed = append(q.Claimed, world.N(x))
		}
		b2 := new(big.Int).Set(bal)
		q.Out, q.Msg = world.Try(func() error { return or.RunOnchainReconciliation(b2, claimed) })
		if b2.Cmp(bal) != 0 {
			q.Out = "the balance was changed"
		}
		counts["on:"+q.Out]++
		l.On = append(l.On, q)
	}
	out, msg := world.Try(func() error {
		for _, a := range or.GetUniqueWithdrawalAddresses() {
			l.Unique = append(l.Unique, strings.ToLower(a))
		}
		return nil
	})
	if out != "ok" {
		l.Unique = append(l.Unique, out+msg)
	}
	l.Same = world.Digest(or.State()) == before
	return l
}

// reconCmd reconciles made up books (balanced, or off in one place) and the books of real histories.
func reconCmd() map[string]interface{} {
	addBuilders()
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	r := rand.New(rand.NewSource(*seed))
	h := 0
	for tr.N < *steps {
		h++
		if r.Intn(3) == 0 {
			g := world.NewGen(*seed*7_000_003+int64(h), world.Base)
			for i := 0; i < 40; i++ {
				b, env := g.Next()
				line := g.N.Step(b, env)
				if line.St.Negative() || line.Out == "fatal" || line.Out == "panic" {
					break
				}
				if r.Intn(6) == 0 {
					l := books(r, g.N.Or, true, counts)
					counts["real"]++
					tr.Emit(l)
					if r.Intn(3) == 0 {
						unbalance(r, g.N.Or.State())
						tr.Emit(books(r, g.N.Or, false, counts))
						break
					}
				}
			}
			continue
		}
		feeAddr := addr(r)
		cfg := &oracle.Config{Network: "mainnet", PoolAddress: addr(r), PoolFeesAddress: world.MixCase(r, feeAddr), DeployedSlot: 100,
			CheckPointSizeInSlots: 10, PoolFeesPercentOver10000: 700, CollateralInWei: big.NewInt(1)}
		or := oracle.NewOracle(cfg)
		s := or.State()
		addrs := []string{addr(r), addr(r), addr(r)}
		if r.Intn(4) == 0 {
			addrs[0] = feeAddr
		}
		total := amt(r)
		s.PoolAccumulatedFees = new(big.Int).Set(total)
		for i := r.Intn(6); i > 0; i-- {
			id := uint64(r.Intn(1000000))
			if s.Validators[id] != nil {
				continue
			}
			v := &oracle.ValidatorInfo{ValidatorStatus: oracle.ValidatorStatus(1 + r.Intn(5)), AccumulatedRewardsWei: amt(r), PendingRewardsWei: amt(r), CollateralWei: amt(r),
				WithdrawalAddress: world.MixCase(r, addrs[r.Intn(3)]), ValidatorIndex: id, ValidatorKey: fmt.Sprintf("0x%096x", id)}
			s.Validators[id] = v
			total.Add(total, v.AccumulatedRewardsWei)
			total.Add(total, v.PendingRewardsWei)
		}
		// assets that add up to it
		rest := new(big.Int).Set(total)
		for rest.Sign() > 0 {
			x := amt(r)
			if x.Cmp(rest) > 0 || r.Intn(6) == 0 {
				x = new(big.Int).Set(rest)
			}
			rest.Sub(rest, x)
			switch r.Intn(3) {
			case 0:
				s.EtherReceivedEvents = append(s.EtherReceivedEvents, &contract.ContractEtherReceived{DonationAmount: x})
				if r.Intn(2) == 0 {
					s.Donations = append(s.Donations, &contract.ContractEtherReceived{DonationAmount: x})
				}
			case 1:
				s.SubscriptionEvents = append(s.SubscriptionEvents, &contract.ContractSubscribeValidator{SubscriptionCollateral: x})
			default:
				s.ProposedBlocks = append(s.ProposedBlocks, oracle.SummarizedBlock{Reward: x, RewardType: oracle.VanilaBlock})
			}
		}
		// things that are no assets
		for i := r.Intn(3); i > 0; i-- {
			s.ProposedBlocks = append(s.ProposedBlocks, oracle.SummarizedBlock{Reward: amt(r), RewardType: oracle.MevBlock})
			s.MissedBlocks = append(s.MissedBlocks, oracle.SummarizedBlock{Reward: amt(r), RewardType: oracle.VanilaBlock})
			s.WrongFeeBlocks = append(s.WrongFeeBlocks, oracle.SummarizedBlock{Reward: amt(r), RewardType: oracle.VanilaBlock})
		}
		if r.Intn(2) == 0 {
			unbalance(r, s)
		}
		tr.Emit(books(r, or, false, counts))
	}
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": h, "lines": tr.N}
}

// unbalance changes one figure by one wei or by a lot.
func unbalance(r *rand.Rand, s *oracle.OracleState) {
	d := big.NewInt(1)
	if r.Intn(2) == 0 {
		d = amt(r)
	}
	if r.Intn(2) == 0 {
		d.Neg(d)
	}
	all := []*big.Int{s.PoolAccumulatedFees}
	for _, v := range s.Validators {
		all = append(all, v.AccumulatedRewardsWei, v.PendingRewardsWei)
	}
	for i := range s.ProposedBlocks {
		all = append(all, s.ProposedBlocks[i].Reward)
	}
	for _, e := range s.SubscriptionEvents {
		all = append(all, e.SubscriptionCollateral)
	}
	for _, e := range s.EtherReceivedEvents {
		all = append(all, e.DonationAmount)
	}
	x := all[r.Intn(len(all))]
	x.Add(x, d)
}
