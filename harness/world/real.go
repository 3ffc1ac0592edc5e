package world

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/altair"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/capella"
	"github.com/attestantio/go-eth2-client/spec/deneb"
	"github.com/attestantio/go-eth2-client/spec/electra"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/dappnode/mev-sp-oracle/oracle"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/holiman/uint256"
)

var _ = altair.SyncAggregate{}

// Accounts with known keys: address (lower case) -> key.
type Accounts map[string]*ecdsa.PrivateKey

// NewAccounts derives n accounts from a label, always the same ones.
func NewAccounts(label string, n int) ([]string, Accounts) {
	acc := Accounts{}
	var addrs []string
	for i := 0; i < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s-%d", label, i)))
		k, err := crypto.ToECDSA(h[:])
		if err != nil {
			panic(err)
		}
		a := strings.ToLower(crypto.PubkeyToAddress(k.PublicKey).String())
		acc[a] = k
		addrs = append(addrs, a)
	}
	return addrs, acc
}

var statuses = map[string]v1.ValidatorState{
	"unknown":             v1.ValidatorStateUnknown,
	"pending_initialized": v1.ValidatorStatePendingInitialized,
	"pending_queued":      v1.ValidatorStatePendingQueued,
	"active_ongoing":      v1.ValidatorStateActiveOngoing,
	"active_exiting":      v1.ValidatorStateActiveExiting,
	"active_slashed":      v1.ValidatorStateActiveSlashed,
	"exited_unslashed":    v1.ValidatorStateExitedUnslashed,
	"exited_slashed":      v1.ValidatorStateExitedSlashed,
	"withdrawal_possible": v1.ValidatorStateWithdrawalPossible,
	"withdrawal_done":     v1.ValidatorStateWithdrawalDone,
}

var StatusNames = []string{"pending_initialized", "pending_queued", "active_ongoing", "active_exiting", "active_slashed",
	"exited_unslashed", "exited_slashed", "withdrawal_possible", "withdrawal_done", "unknown"}

func KeyOf(id int) phase0.BLSPubKey {
	var k phase0.BLSPubKey
	h := sha256.Sum256([]byte(fmt.Sprintf("key-%d", id)))
	copy(k[:], h[:])
	copy(k[32:], h[:16])
	return k
}

// Creds builds withdrawal credentials of a kind for an address.
func Creds(kind string, addr string) []byte {
	a := common.HexToAddress(addr)
	out := make([]byte, 32)
	switch kind {
	case "eth1":
		out[0] = 1
		copy(out[12:], a[:])
	case "electra":
		out[0] = 2
		copy(out[12:], a[:])
	case "bls":
		h := sha256.Sum256([]byte("bls" + addr))
		copy(out[1:], h[1:])
	case "other": // 0x01 prefix but dirty padding: not an execution credential
		out[0] = 1
		out[5] = 0xff
		copy(out[12:], a[:])
	case "other3":
		out[0] = 3
		copy(out[12:], a[:])
	}
	return out
}

// CredKind classifies credentials independently of the program.
func CredKind(raw []byte) string {
	pad := true
	for _, x := range raw[1:12] {
		if x != 0 {
			pad = false
		}
	}
	switch {
	case raw[0] == 0:
		return "bls"
	case raw[0] == 1 && pad:
		return "eth1"
	case raw[0] == 2 && pad:
		return "electra"
	}
	return "other"
}

// WaOf is the withdrawal address the oracle records for a proposer with these credentials.
func WaOf(raw []byte) string {
	switch CredKind(raw) {
	case "bls":
		return "0x" + hex.EncodeToString(raw[1:])
	case "eth1", "electra":
		return "0x" + hex.EncodeToString(raw[12:])
	}
	return ""
}

func (b BV) Real() *v1.Validator {
	if !b.Ok {
		return nil
	}
	return &v1.Validator{
		Index:   phase0.ValidatorIndex(b.Idx),
		Balance: phase0.Gwei(B(b.Eff).Uint64() / 50 * uint64(49+b.Idx%3)), // around the effective one
		Status:  statuses[b.Status],
		Validator: &phase0.Validator{
			PublicKey:             KeyOf(b.Idx),
			WithdrawalCredentials: append([]byte{}, b.Raw...),
			EffectiveBalance:      phase0.Gwei(B(b.Eff).Uint64()), ActivationEpoch: 7,
			ExitEpoch:         phase0.Epoch(1<<64 - 1),
			WithdrawableEpoch: phase0.Epoch(1<<64 - 1),
		},
	}
}

// MkTx builds and signs the real transaction.
func MkTx(t Tx, nonce uint64, chain uint64, acc Accounts) *types.Transaction {
	var to *common.Address
	if t.To != "" {
		a := common.HexToAddress(t.To)
		to = &a
	}
	cid := new(big.Int).SetUint64(chain)
	const gasLimit = 30_000_000
	var inner types.TxData
	switch t.Ty {
	case 0:
		inner = &types.LegacyTx{Nonce: nonce, GasPrice: B(t.Price), Gas: gasLimit, To: to, Value: B(t.Val), Data: t.Data}
	case 1:
		inner = &types.AccessListTx{ChainID: cid, Nonce: nonce, GasPrice: B(t.Price), Gas: gasLimit, To: to, Value: B(t.Val), Data: t.Data}
	case 2:
		inner = &types.DynamicFeeTx{ChainID: cid, Nonce: nonce, GasTipCap: B(t.Tip), GasFeeCap: B(t.Cap), Gas: gasLimit, To: to, Value: B(t.Val), Data: t.Data}
	case 3:
		inner = &types.BlobTx{ChainID: uint256.MustFromBig(cid), Nonce: nonce, GasTipCap: uint256.MustFromBig(B(t.Tip)),
			GasFeeCap: uint256.MustFromBig(B(t.Cap)), Gas: gasLimit, To: *to, Value: uint256.MustFromBig(B(t.Val)), Data: t.Data,
			BlobFeeCap: uint256.NewInt(1), BlobHashes: []common.Hash{{1}}}
	case 4:
		auth := types.SetCodeAuthorization{ChainID: *uint256.MustFromBig(cid), Address: *to, Nonce: 1}
		inner = &types.SetCodeTx{ChainID: uint256.MustFromBig(cid), Nonce: nonce, GasTipCap: uint256.MustFromBig(B(t.Tip)),
			GasFeeCap: uint256.MustFromBig(B(t.Cap)), Gas: gasLimit, To: *to, Value: uint256.MustFromBig(B(t.Val)), Data: t.Data,
			AuthList: []types.SetCodeAuthorization{auth}}
	default:
		panic("tx type")
	}
	var signer types.Signer = types.LatestSignerForChainID(cid)
	if t.Homestead && t.Ty == 0 {
		signer = types.HomesteadSigner{}
	}
	tx, err := types.SignTx(types.NewTx(inner), signer, acc[t.From])
	if err != nil {
		panic(err)
	}
	return tx
}

// RawLog is the log of an event: a transaction may emit several.
func RawLog(addr string, bnum int, idx int) types.Log {
	return types.Log{Address: common.HexToAddress(addr), Topics: []common.Hash{{byte(idx)}}, Data: []byte{byte(idx)},
		BlockNumber: uint64(bnum), TxHash: common.BytesToHash([]byte{byte(bnum), byte(idx / 3), 7}), TxIndex: uint(idx / 3), Index: uint(idx)}
}

// Beacon builds the versioned signed beacon block.
func Beacon(b Blk, txs []bellatrix.Transaction) *spec.VersionedSignedBeaconBlock {
	slot, vi := phase0.Slot(b.Slot), phase0.ValidatorIndex(b.Vi)
	fr := bellatrix.ExecutionAddress(common.HexToAddress(b.FeeRec))
	gas := B(b.Pgas).Uint64()
	base := B(b.Pbase)
	var le [32]byte
	for i, x := range base.FillBytes(make([]byte, 32)) {
		le[31-i] = x
	}
	bb := uint256.MustFromBig(base)
	out := &spec.VersionedSignedBeaconBlock{}
	switch b.Version {
	case "bellatrix":
		out.Version = spec.DataVersionBellatrix
		out.Bellatrix = &bellatrix.SignedBeaconBlock{Message: &bellatrix.BeaconBlock{Slot: slot, ProposerIndex: vi, Body: &bellatrix.BeaconBlockBody{
			ExecutionPayload: &bellatrix.ExecutionPayload{FeeRecipient: fr, BlockNumber: uint64(b.Bnum), GasUsed: gas, BaseFeePerGas: le, Transactions: txs}}}}
	case "capella":
		out.Version = spec.DataVersionCapella
		out.Capella = &capella.SignedBeaconBlock{Message: &capella.BeaconBlock{Slot: slot, ProposerIndex: vi, Body: &capella.BeaconBlockBody{
			ExecutionPayload: &capella.ExecutionPayload{FeeRecipient: fr, BlockNumber: uint64(b.Bnum), GasUsed: gas, BaseFeePerGas: le, Transactions: txs}}}}
	case "deneb":
		out.Version = spec.DataVersionDeneb
		out.Deneb = &deneb.SignedBeaconBlock{Message: &deneb.BeaconBlock{Slot: slot, ProposerIndex: vi, Body: &deneb.BeaconBlockBody{
			ExecutionPayload: &deneb.ExecutionPayload{FeeRecipient: fr, BlockNumber: uint64(b.Bnum), GasUsed: gas, BaseFeePerGas: bb, Transactions: txs}}}}
	case "electra", "fulu":
		x := &electra.SignedBeaconBlock{Message: &electra.BeaconBlock{Slot: slot, ProposerIndex: vi, Body: &electra.BeaconBlockBody{
			ExecutionPayload: &deneb.ExecutionPayload{FeeRecipient: fr, BlockNumber: uint64(b.Bnum), GasUsed: gas, BaseFeePerGas: bb, Transactions: txs}}}}
		if b.Version == "electra" {
			out.Version = spec.DataVersionElectra
			out.Electra = x
		} else {
			out.Version = spec.DataVersionFulu
			out.Fulu = x
		}
	default:
		panic("version " + b.Version)
	}
	return out
}

var Versions = []string{"bellatrix", "capella", "deneb", "electra", "fulu"}

// RealEvents builds the contract events of the block.
func RealEvents(b Blk, pool string) *oracle.Events {
	ev := &oracle.Events{}
	n := 0
	lg := func(addr string) types.Log { n++; return RawLog(addr, b.Bnum, n) }
	for _, e := range b.Ers {
		ev.EtherReceived = append(ev.EtherReceived, &contract.ContractEtherReceived{Sender: common.HexToAddress(e.From), DonationAmount: B(e.Val), Raw: lg(e.Addr)})
	}
	for _, s := range b.Subs {
		ev.SubscribeValidator = append(ev.SubscribeValidator, &contract.ContractSubscribeValidator{Sender: common.HexToAddress(s.From),
			SubscriptionCollateral: B(s.Coll), ValidatorID: uint64(s.Id), Raw: lg(pool)})
	}
	for _, s := range b.Unsubs {
		ev.UnsubscribeValidator = append(ev.UnsubscribeValidator, &contract.ContractUnsubscribeValidator{Sender: common.HexToAddress(s.From),
			ValidatorID: uint64(s.Id), Raw: lg(pool)})
	}
	for _, i := range b.Bans {
		ev.BanValidator = append(ev.BanValidator, &contract.ContractBanValidator{ValidatorID: uint64(i), Raw: lg(pool)})
	}
	for _, i := range b.Unbans {
		ev.UnbanValidator = append(ev.UnbanValidator, &contract.ContractUnbanValidator{ValidatorID: uint64(i), Raw: lg(pool)})
	}
	for _, f := range b.Fees {
		ev.UpdatePoolFee = append(ev.UpdatePoolFee, &contract.ContractUpdatePoolFee{NewPoolFee: big.NewInt(int64(f)), Raw: lg(pool)})
	}
	for _, f := range b.Recips {
		ev.PoolFeeRecipient = append(ev.PoolFeeRecipient, &contract.ContractUpdatePoolFeeRecipient{NewPoolFeeRecipient: common.HexToAddress(f), Raw: lg(pool)})
	}
	for _, f := range b.Csizes {
		ev.CheckpointSlotSize = append(ev.CheckpointSlotSize, &contract.ContractUpdateCheckpointSlotSize{NewCheckpointSlotSize: uint64(f), Raw: lg(pool)})
	}
	for _, f := range b.Colls {
		ev.UpdateSubscriptionCollateral = append(ev.UpdateSubscriptionCollateral, &contract.ContractUpdateSubscriptionCollateral{NewSubscriptionCollateral: B(f), Raw: lg(pool)})
	}
	return ev
}

// RealTxs signs the transactions and builds receipts.
func RealTxs(b Blk, chain uint64, acc Accounts) ([]bellatrix.Transaction, []*types.Transaction, []*types.Receipt) {
	var raw []bellatrix.Transaction
	var txs []*types.Transaction
	recs := make([]*types.Receipt, 0)
	cumulative := uint64(0)
	for i, t := range b.Txs {
		tx := MkTx(t, uint64(i), chain, acc)
		bin, err := tx.MarshalBinary()
		if err != nil {
			panic(err)
		}
		raw = append(raw, bin)
		txs = append(txs, tx)
		h := tx.Hash()
		if !t.Hok {
			h[3] ^= 0x55
		}
		cumulative += B(t.Gas).Uint64()
		status := uint64(1) // one that failed pays as well
		if i+1 < len(b.Txs) && h[7]%3 == 0 {
			status = 0
		}
		price := tx.GasPrice()
		if tx.Type() >= 2 {
			price = new(big.Int).Add(tx.GasTipCap(), B(b.Hbase))
			if price.Cmp(tx.GasFeeCap()) > 0 {
				price = tx.GasFeeCap()
			}
		}
		recs = append(recs, &types.Receipt{Type: tx.Type(), Status: status, TxHash: h, GasUsed: B(t.Gas).Uint64(), CumulativeGasUsed: cumulative, EffectiveGasPrice: price, BlockNumber: big.NewInt(int64(b.Bnum)), TransactionIndex: uint(i), Logs: []*types.Log{}})
	}
	for len(recs) > b.Nrec && b.Nrec >= 0 {
		recs = recs[:len(recs)-1]
	}
	for len(recs) < b.Nrec {
		recs = append(recs, &types.Receipt{TxHash: common.Hash{9}, GasUsed: 1, BlockNumber: big.NewInt(int64(b.Bnum))})
	}
	return raw, txs, recs
}

// Full builds the real FullBlock through the program's own constructors.
func Full(b Blk, chain uint64, pool string, acc Accounts) *oracle.FullBlock {
	fb := oracle.NewFullBlock(&v1.ProposerDuty{PubKey: KeyOf(b.Vi), Slot: phase0.Slot(b.Slot), ValidatorIndex: phase0.ValidatorIndex(b.Vi)}, b.Prop.Real(), chain)
	if b.Missed {
		return fb
	}
	raw, _, recs := RealTxs(b, chain, acc)
	fb.SetConsensusBlock(Beacon(b, raw))
	fb.SetEvents(RealEvents(b, pool))
	if b.Hdr {
		fb.SetHeaderAndReceipts(&types.Header{Number: big.NewInt(int64(b.Bnum)), BaseFee: B(b.Hbase)}, recs)
	}
	for _, s := range b.Subs {
		fb.ValidatorsSubs = append(fb.ValidatorsSubs, s.V.Real())
	}
	for _, s := range b.Unsubs {
		fb.ValidatorsUnsubs = append(fb.ValidatorsUnsubs, s.V.Real())
	}
	return fb
}

// ---- projection of the real state -------------------------------------------------------------

func ProjVals(m map[uint64]*oracle.ValidatorInfo) []Val {
	out := []Val{}
	for i, v := range m {
		st := v.SubscriptionType
		out = append(out, Val{Id: int(i), St: StatusName(v.ValidatorStatus), Acc: N(v.AccumulatedRewardsWei), Pend: N(v.PendingRewardsWei),
			Coll: N(v.CollateralWei), Wa: strings.ToLower(v.WithdrawalAddress), Key: strings.ToLower(v.ValidatorKey), Ty: subName(st)})
		if v.ValidatorIndex != i {
			out[len(out)-1].Key += fmt.Sprintf("!index=%d", v.ValidatorIndex)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Id < out[j].Id })
	return out
}

func StatusName(s oracle.ValidatorStatus) string {
	switch s {
	case oracle.Active:
		return "active"
	case oracle.YellowCard:
		return "yellowcard"
	case oracle.RedCard:
		return "redcard"
	case oracle.NotSubscribed:
		return "notsubscribed"
	case oracle.Banned:
		return "banned"
	case oracle.Untracked:
		return "untracked"
	}
	return fmt.Sprintf("status%d", s)
}

func StatusVal(s string) oracle.ValidatorStatus {
	for _, x := range []oracle.ValidatorStatus{oracle.Active, oracle.YellowCard, oracle.RedCard, oracle.NotSubscribed, oracle.Banned, oracle.Untracked} {
		if StatusName(x) == s {
			return x
		}
	}
	panic("status " + s)
}

func subName(s oracle.SubscriptionType) string {
	switch s {
	case oracle.Manual:
		return "manual"
	case oracle.Auto:
		return "auto"
	}
	return "?"
}

func Proj(s *oracle.OracleState) St {
	return St{Slot: int(s.LatestProcessedSlot), Next: int(s.NextSlotToProcess), Block: int(s.LatestProcessedBlock),
		Pool: N(s.PoolAccumulatedFees), Fee: s.PoolFeesPercentOver10000, Vals: ProjVals(s.Validators)}
}

func ProjSum(b oracle.SummarizedBlock) Sum {
	kind := map[oracle.BlockType]string{oracle.MissedProposal: "missedproposal", oracle.WrongFeeRecipient: "wrongfeerecipient",
		oracle.OkPoolProposal: "okpoolproposal", oracle.OkPoolProposalBlsKeys: "okpoolproposalblskeys"}[b.BlockType]
	rty := map[oracle.RewardType]string{oracle.UnknownRewardType: "unknownrewardtype", oracle.VanilaBlock: "vanila", oracle.MevBlock: "mev"}[b.RewardType]
	return Sum{Slot: int(b.Slot), Block: int(b.Block), Vi: int(b.ValidatorIndex), Key: strings.ToLower(b.ValidatorKey), Wa: strings.ToLower(b.WithdrawalAddress),
		Kind: kind, Rew: N(b.Reward), Rty: rty}
}

func ProjEv(e *contract.ContractEtherReceived) Ev {
	return Ev{From: strings.ToLower(e.Sender.String()), Val: N(e.DonationAmount), Addr: strings.ToLower(e.Raw.Address.String())}
}

// Hist is what is remembered of the append-only lists of a state: fingerprints of pieces of them.
type Hist struct {
	n     [7]int
	full  [7][]string // of the pieces that are complete
	tail  [7]string   // of the rest
	round int
}

const piece = 64

func lists(s *oracle.OracleState) [7]struct {
	n   int
	dig func(from, to int) string
} {
	type L = struct {
		n   int
		dig func(from, to int) string
	}
	return [7]L{
		{len(s.ProposedBlocks), func(i, k int) string { return Digest(s.ProposedBlocks[i:k]) }},
		{len(s.MissedBlocks), func(i, k int) string { return Digest(s.MissedBlocks[i:k]) }},
		{len(s.WrongFeeBlocks), func(i, k int) string { return Digest(s.WrongFeeBlocks[i:k]) }},
		{len(s.Donations), func(i, k int) string { return Digest(s.Donations[i:k]) }},
		{len(s.EtherReceivedEvents), func(i, k int) string { return Digest(s.EtherReceivedEvents[i:k]) }},
		{len(s.SubscriptionEvents), func(i, k int) string { return Digest(s.SubscriptionEvents[i:k]) }},
		{len(s.UnsubscriptionEvents), func(i, k int) string { return Digest(s.UnsubscriptionEvents[i:k]) }},
	}
}

func projSums(x []oracle.SummarizedBlock) []Sum {
	out := []Sum{}
	for _, b := range x {
		out = append(out, ProjSum(b))
	}
	return out
}
func projEvs(x []*contract.ContractEtherReceived) []Ev {
	out := []Ev{}
	for _, b := range x {
		out = append(out, ProjEv(b))
	}
	return out
}

func HistOf(s *oracle.OracleState) Hist {
	var h Hist
	h.extend(s)
	return h
}

func (h *Hist) extend(s *oracle.OracleState) {
	for i, l := range lists(s) {
		full := append([]string{}, h.full[i]...)
		for k := len(full); (k+1)*piece <= l.n; k++ {
			full = append(full, l.dig(k*piece, (k+1)*piece))
		}
		h.n[i], h.full[i], h.tail[i] = l.n, full, l.dig(len(full)*piece, l.n)
	}
	h.round++
}

// Since is what was appended to the lists since h, whether what was there is still there (the end of it, always; one older
// piece each time, and every piece from time to time), and what is to be remembered now.
func Since(h Hist, s *oracle.OracleState) (New, Hist) {
	ok := true
	ls := lists(s)
	from := [7]int{}
	for i, l := range ls {
		good := l.n >= h.n[i] && l.dig(len(h.full[i])*piece, h.n[i]) == h.tail[i]
		for k := range h.full[i] {
			if good && (k == h.round%len(h.full[i]) || h.round%50 == 0) {
				good = l.dig(k*piece, (k+1)*piece) == h.full[i][k]
			}
		}
		if good {
			from[i] = h.n[i]
		} else {
			ok = false
			from[i] = l.n
		}
	}
	next := h
	if ok {
		next.extend(s)
	} else {
		next = HistOf(s)
	}
	return New{Prop: projSums(s.ProposedBlocks[from[0]:]), Missed: projSums(s.MissedBlocks[from[1]:]), Wrong: projSums(s.WrongFeeBlocks[from[2]:]),
		Don: projEvs(s.Donations[from[3]:]), Ers: projEvs(s.EtherReceivedEvents[from[4]:]), Subs: ls[5].n - from[5], Unsubs: ls[6].n - from[6], Prefix: ok}, next
}

// Copy is a deep copy of a state that does not rely on the program's own serialisation.
func Copy(s *oracle.OracleState) *oracle.OracleState {
	c := *s
	c.PoolAccumulatedFees = cp(s.PoolAccumulatedFees)
	c.CollateralInWei = cp(s.CollateralInWei)
	c.Validators = CopyVals(s.Validators)
	c.CommitedStates = map[uint64]*oracle.OnchainState{}
	for k, o := range s.CommitedStates {
		n := *o
		n.Validators = CopyVals(o.Validators)
		n.Leafs = map[string]oracle.RawLeaf{}
		for a, l := range o.Leafs {
			n.Leafs[a] = oracle.RawLeaf{WithdrawalAddress: l.WithdrawalAddress, AccumulatedBalanceWei: cp(l.AccumulatedBalanceWei)}
		}
		n.Proofs = map[string][]string{}
		for a, p := range o.Proofs {
			n.Proofs[a] = append([]string{}, p...)
		}
		c.CommitedStates[k] = &n
	}
	c.SubscriptionEvents = append([]*contract.ContractSubscribeValidator{}, s.SubscriptionEvents...)
	c.UnsubscriptionEvents = append([]*contract.ContractUnsubscribeValidator{}, s.UnsubscriptionEvents...)
	c.EtherReceivedEvents = append([]*contract.ContractEtherReceived{}, s.EtherReceivedEvents...)
	c.Donations = append([]*contract.ContractEtherReceived{}, s.Donations...)
	c.ProposedBlocks = cpb(s.ProposedBlocks)
	c.MissedBlocks = cpb(s.MissedBlocks)
	c.WrongFeeBlocks = cpb(s.WrongFeeBlocks)
	return &c
}

func cpb(x []oracle.SummarizedBlock) []oracle.SummarizedBlock {
	out := make([]oracle.SummarizedBlock, 0, len(x))
	for _, b := range x {
		b.Reward = cp(b.Reward)
		out = append(out, b)
	}
	return out
}

func CopyVals(m map[uint64]*oracle.ValidatorInfo) map[uint64]*oracle.ValidatorInfo {
	out := map[uint64]*oracle.ValidatorInfo{}
	for i, v := range m {
		n := *v
		n.AccumulatedRewardsWei = cp(v.AccumulatedRewardsWei)
		n.PendingRewardsWei = cp(v.PendingRewardsWei)
		n.CollateralWei = cp(v.CollateralWei)
		out[i] = &n
	}
	return out
}

func cp(x *big.Int) *big.Int {
	if x == nil {
		return nil
	}
	return new(big.Int).Set(x)
}
