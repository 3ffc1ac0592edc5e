package fake

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

var initialReport = common.BigToHash(big.NewInt(1))

type report struct{ slot, votes uint64 }

// PoolContract is the smoothing pool contract, as far as the oracle uses it.
type PoolContract struct {
	Members      []common.Address
	Quorum       uint64
	LastSlot     uint64
	Root         common.Hash
	Ckpt         uint64
	Coll         *big.Int
	FeeRecipient common.Address
	DeployBlock  *big.Int
	PoolFee      *big.Int
	Claimed      func(a common.Address, tag string) *big.Int

	voted   map[common.Address]common.Hash
	reports map[common.Hash]report
	// History of consolidated reports and of votes
	Consolidated []Vote
	Votes        []Vote
}

type Vote struct {
	From string `json:"from"`
	Slot uint64 `json:"slot"`
	Root string `json:"root"`
	Last uint64 `json:"last"` // last consolidated slot when it was given
}

func reportHash(slot uint64, root common.Hash) common.Hash {
	var s [8]byte
	binary.BigEndian.PutUint64(s[:], slot)
	return crypto.Keccak256Hash(s[:], root[:])
}

// Voted is the report the member last voted for.
func (p *PoolContract) Voted(a common.Address) (slot, votes uint64) {
	r := p.reports[p.voted[a]]
	return r.slot, r.votes
}

// SetVoted makes a member's last vote be for this slot.
func (p *PoolContract) SetVoted(a common.Address, slot uint64, root common.Hash, votes uint64) {
	p.maps()
	h := reportHash(slot, root)
	p.voted[a] = h
	p.reports[h] = report{slot, votes}
}

func (p *PoolContract) maps() {
	if p.voted == nil {
		p.voted, p.reports = map[common.Address]common.Hash{}, map[common.Hash]report{}
	}
}

func (p *PoolContract) member(a common.Address) bool {
	for _, m := range p.Members {
		if m == a {
			return true
		}
	}
	return false
}

// CanSubmit tells why a report would be refused.
func (p *PoolContract) CanSubmit(from common.Address, slot uint64) error {
	if p.LastSlot+p.Ckpt != slot {
		return Revert{"DappnodeSmoothingPool::submitReport: Slot number invalid"}
	}
	if !p.member(from) {
		return Revert{"DappnodeSmoothingPool::submitReport: Address is not an oracle member"}
	}
	return nil
}

func (p *PoolContract) Submit(from common.Address, slot uint64, root common.Hash) error {
	p.maps()
	if err := p.CanSubmit(from, slot); err != nil {
		return err
	}
	v := Vote{strings.ToLower(from.Hex()), slot, root.Hex(), p.LastSlot}
	p.Votes = append(p.Votes, v)
	if last, ok := p.voted[from]; ok && last != initialReport {
		if r := p.reports[last]; r.slot == slot && r.votes > 0 {
			r.votes--
			p.reports[last] = r
		}
	}
	h := reportHash(slot, root)
	r := p.reports[h]
	if r.votes == 0 {
		r = report{slot, 1}
	} else {
		r.votes++
	}
	if r.votes == p.Quorum {
		delete(p.reports, h)
		p.LastSlot, p.Root = slot, root
		p.Consolidated = append(p.Consolidated, v)
	} else {
		p.reports[h] = r
		p.voted[from] = h
	}
	return nil
}

func (p *PoolContract) Call(method string, args []interface{}, tag string) ([]interface{}, error) {
	p.maps()
	one := func(x interface{}) ([]interface{}, error) { return []interface{}{x}, nil }
	switch method {
	case "addressToVotedReportHash":
		a := args[0].(common.Address)
		h, ok := p.voted[a]
		if !ok && p.member(a) {
			h = initialReport
		}
		return one([32]byte(h))
	case "reportHashToReport":
		r := p.reports[common.Hash(args[0].([32]byte))]
		return []interface{}{r.slot, r.votes}, nil
	case "lastConsolidatedSlot":
		return one(p.LastSlot)
	case "rewardsRoot":
		return one([32]byte(p.Root))
	case "getAllOracleMembers":
		return one(p.Members)
	case "quorum":
		return one(p.Quorum)
	case "checkpointSlotSize":
		return one(p.Ckpt)
	case "subscriptionCollateral":
		return one(p.Coll)
	case "poolFeeRecipient":
		return one(p.FeeRecipient)
	case "deploymentBlockNumber":
		return one(p.DeployBlock)
	case "poolFee":
		return one(p.PoolFee)
	case "claimedBalance":
		x := p.Claimed(args[0].(common.Address), tag)
		if x == nil {
			return nil, fmt.Errorf("missing trie node")
		}
		return one(x)
	}
	return nil, Revert{"no such method"}
}
