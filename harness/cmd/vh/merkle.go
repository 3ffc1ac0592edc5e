package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

func init() { cmds["merkle"] = merkleCmd }

// merkleCmd freezes random states: all sizes, shared and oddly written addresses, empty balances.
func merkleCmd() map[string]interface{} {
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	r := rand.New(rand.NewSource(*seed))
	states := 0
	for tr.N < *steps {
		states++
		feeAddr := addr(r)
		pool := addr(r)
		cfg := &oracle.Config{Network: "mainnet", PoolAddress: pool, PoolFeesAddress: world.MixCase(r, feeAddr), DeployedSlot: 100,
			CheckPointSizeInSlots: 10, PoolFeesPercentOver10000: 700, CollateralInWei: big.NewInt(1)}
		or := oracle.NewOracle(cfg)
		st := or.State()
		size := r.Intn(9)
		if r.Intn(4) == 0 {
			size = r.Intn(45)
		}
		na := 1 + r.Intn(size+1)
		addrs := []string{}
		for i := 0; i < na; i++ {
			a := addr(r)
			if i > 0 && r.Intn(4) == 0 { // differs in the last digit only
				a = addrs[i-1][:41] + fmt.Sprintf("%x", r.Intn(16))
			}
			addrs = append(addrs, a)
		}
		if r.Intn(6) == 0 {
			addrs[0] = feeAddr
		}
		for i := 0; i < size; i++ {
			id := uint64(r.Intn(3000000))
			st.Validators[id] = &oracle.ValidatorInfo{ValidatorStatus: oracle.ValidatorStatus(1 + r.Intn(5)), AccumulatedRewardsWei: amt(r), PendingRewardsWei: amt(r),
				CollateralWei: amt(r), WithdrawalAddress: world.MixCase(r, addrs[r.Intn(len(addrs))]), ValidatorIndex: id, ValidatorKey: fmt.Sprintf("0x%096x", id)}
		}
		st.PoolAccumulatedFees = amt(r)
		st.LatestProcessedSlot = 100 + uint64(r.Intn(1000))
		st.NextSlotToProcess = st.LatestProcessedSlot + 1
		tr.Emit(worldLine{Ev: "world", Net: "mainnet", Deploy: 100, Ckpt: 10, Fee0: 700, FeeAddr: strings.ToLower(feeAddr), Pool: pool, N: 1})
		l := blank("tree", 0)
		fillFreeze(&l, or)
		l.M = memOf(&world.Node{Or: or, Cfg: cfg})
		counts[fmt.Sprintf("leaves:%d", len(l.Order))]++
		tr.Emit(l)
		// the same state again, in another order of its map
		or2 := oracle.NewOracle(cfg)
		*or2.State() = *world.Copy(st)
		or2.State().CommitedStates = map[uint64]*oracle.OnchainState{}
		l2 := blank("tree", 0)
		fillFreeze(&l2, or2)
		l2.M = memOf(&world.Node{Or: or2, Cfg: cfg})
		tr.Emit(l2)
	}
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": states, "lines": tr.N}
}

func addr(r *rand.Rand) string {
	b := make([]byte, 20)
	r.Read(b)
	if r.Intn(8) == 0 {
		b[0], b[1] = 0, 0
	}
	return fmt.Sprintf("0x%x", b)
}

func amt(r *rand.Rand) *big.Int {
	switch r.Intn(6) {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(r.Intn(300)))
	case 2:
		return new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), 100))
	}
	return new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), 70))
}
