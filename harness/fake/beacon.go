package fake

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/bellatrix"
	"github.com/attestantio/go-eth2-client/spec/phase0"
)

func zeros(n int) string { return "0x" + strings.Repeat("00", n) }

// inner is the JSON of a beacon block, of which the world only fills in what the oracle looks at.
func inner(b *spec.VersionedSignedBeaconBlock) obj {
	var slot phase0.Slot
	var vi phase0.ValidatorIndex
	pay := obj{"parent_hash": zeros(32), "state_root": zeros(32), "receipts_root": zeros(32), "logs_bloom": zeros(256), "prev_randao": zeros(32),
		"gas_limit": "30000000", "timestamp": "1", "extra_data": "0x", "block_hash": zeros(32)}
	le := func(x [32]byte) string {
		var be [32]byte
		for i := range x {
			be[31-i] = x[i]
		}
		return new(big.Int).SetBytes(be[:]).String()
	}
	set := func(fr bellatrix.ExecutionAddress, num, gas uint64, base string, txs []bellatrix.Transaction) {
		pay["fee_recipient"] = fmt.Sprintf("%#x", fr[:])
		pay["block_number"] = strconv.FormatUint(num, 10)
		pay["gas_used"] = strconv.FormatUint(gas, 10)
		pay["base_fee_per_gas"] = base
		t := []string{}
		for _, x := range txs {
			t = append(t, fmt.Sprintf("%#x", []byte(x)))
		}
		pay["transactions"] = t
	}
	body := obj{"randao_reveal": zeros(96), "eth1_data": obj{"deposit_root": zeros(32), "deposit_count": "0", "block_hash": zeros(32)}, "graffiti": zeros(32),
		"proposer_slashings": []int{}, "attester_slashings": []int{}, "attestations": []int{}, "deposits": []int{}, "voluntary_exits": []int{},
		"sync_aggregate":    obj{"sync_committee_bits": zeros(64), "sync_committee_signature": zeros(96)},
		"execution_payload": pay}
	switch {
	case b.Bellatrix != nil:
		m := b.Bellatrix.Message
		slot, vi = m.Slot, m.ProposerIndex
		p := m.Body.ExecutionPayload
		set(p.FeeRecipient, p.BlockNumber, p.GasUsed, le(p.BaseFeePerGas), p.Transactions)
	case b.Capella != nil:
		m := b.Capella.Message
		slot, vi = m.Slot, m.ProposerIndex
		p := m.Body.ExecutionPayload
		set(p.FeeRecipient, p.BlockNumber, p.GasUsed, le(p.BaseFeePerGas), p.Transactions)
		pay["withdrawals"] = []int{}
		body["bls_to_execution_changes"] = []int{}
	case b.Deneb != nil:
		m := b.Deneb.Message
		slot, vi = m.Slot, m.ProposerIndex
		p := m.Body.ExecutionPayload
		set(p.FeeRecipient, p.BlockNumber, p.GasUsed, p.BaseFeePerGas.Dec(), p.Transactions)
		pay["withdrawals"], pay["blob_gas_used"], pay["excess_blob_gas"] = []int{}, "0", "0"
		body["bls_to_execution_changes"], body["blob_kzg_commitments"] = []int{}, []int{}
	default:
		e := b.Electra
		if e == nil {
			e = b.Fulu
		}
		m := e.Message
		slot, vi = m.Slot, m.ProposerIndex
		p := m.Body.ExecutionPayload
		set(p.FeeRecipient, p.BlockNumber, p.GasUsed, p.BaseFeePerGas.Dec(), p.Transactions)
		pay["withdrawals"], pay["blob_gas_used"], pay["excess_blob_gas"] = []int{}, "0", "0"
		body["bls_to_execution_changes"], body["blob_kzg_commitments"] = []int{}, []int{}
		body["execution_requests"] = obj{"deposits": []int{}, "withdrawals": []int{}, "consolidations": []int{}}
	}
	return obj{"signature": zeros(96), "message": obj{"slot": strconv.Itoa(int(slot)), "proposer_index": strconv.Itoa(int(vi)),
		"parent_root": zeros(32), "state_root": zeros(32), "body": body}}
}

// stateOf is a (phase 0 shaped) beacon state with these validators, all indices from 0 on being there.
func stateOf(slot int, vals []*v1.Validator) obj {
	vs, bs := []obj{}, []string{}
	for _, v := range vals {
		x := v.Validator
		vs = append(vs, obj{"pubkey": fmt.Sprintf("%#x", x.PublicKey), "withdrawal_credentials": fmt.Sprintf("%#x", x.WithdrawalCredentials),
			"effective_balance": strconv.FormatUint(uint64(x.EffectiveBalance), 10), "slashed": x.Slashed,
			"activation_eligibility_epoch": u(uint64(x.ActivationEligibilityEpoch)), "activation_epoch": u(uint64(x.ActivationEpoch)),
			"exit_epoch": u(uint64(x.ExitEpoch)), "withdrawable_epoch": u(uint64(x.WithdrawableEpoch))})
		bs = append(bs, u(uint64(v.Balance)))
	}
	cp := obj{"epoch": "0", "root": zeros(32)}
	roots := []string{zeros(32)}
	hist := make([]string, 8192)
	for i := range hist {
		hist[i] = zeros(32)
	}
	return obj{"genesis_time": "0", "genesis_validators_root": zeros(32), "slot": strconv.Itoa(slot),
		"fork":                obj{"previous_version": "0x00000000", "current_version": "0x00000000", "epoch": "0"},
		"latest_block_header": obj{"slot": "0", "proposer_index": "0", "parent_root": zeros(32), "state_root": zeros(32), "body_root": zeros(32)},
		"block_roots":         hist, "state_roots": hist, "historical_roots": []string{}, "eth1_data": obj{"deposit_root": zeros(32), "deposit_count": "0", "block_hash": zeros(32)},
		"eth1_data_votes": []int{}, "eth1_deposit_index": "0", "validators": vs, "balances": bs, "randao_mixes": roots, "slashings": []string{"0"},
		"previous_epoch_attestations": []int{}, "current_epoch_attestations": []int{}, "justification_bits": "0x00",
		"previous_justified_checkpoint": cp, "current_justified_checkpoint": cp, "finalized_checkpoint": cp}
}

func u(x uint64) string { return strconv.FormatUint(x, 10) }
