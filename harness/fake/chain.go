// Package fake is an Ethereum network in one process: a beacon node (HTTP) and an execution node (JSON-RPC)
// on the loopback interface, with the pool contract on it, whose answers come from the abstract world and
// which can be told to fail request by request.
package fake

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"

	v1 "github.com/attestantio/go-eth2-client/api/v1"
	"github.com/attestantio/go-eth2-client/spec"
	"github.com/attestantio/go-eth2-client/spec/phase0"
	"github.com/dappnode/mev-sp-oracle/contract"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
)

// Req is a request the nodes got: what kind, for what.
type Req struct {
	Kind string `json:"kind"`
	Arg  string `json:"arg"`
}

// Fault is what goes wrong with a request.
//
//	drop     the connection is closed without an answer
//	cut      the answer ends too early
//	wrong    an answer to something else (slot, index, block number)
//	garble   (logs) one of the logs cannot be decoded
//	status   HTTP error with a body
//	garbage  an answer that is not JSON
//	empty    an answer without data
//	rpc      (execution) a JSON-RPC error with a message
//	null     (execution) a null result
type Fault struct {
	How    string
	Status int
	Body   string
}

type Duty struct {
	Slot, Index int
	Key         phase0.BLSPubKey
}

type Chain struct {
	Mu   sync.Mutex
	Reqs []Req
	// FaultFn decides what goes wrong with a request (nil: nothing)
	FaultFn func(Req) *Fault
	// Gate is called with every request before it is answered, without the lock (nil: nothing), and may fail it
	Gate func(Req) *Fault

	ConsChain, ExecChain uint64
	Genesis              uint64
	Finalized            int
	SyncDist             int
	Quiet                bool // the beacon node does not call itself syncing, whatever the distance
	ExecSyncing          bool
	Head                 uint64 // latest execution block

	Duties     func(epoch int) []Duty
	Block      func(slot int) *spec.VersionedSignedBeaconBlock // nil: 404
	Validators func(state string) []*v1.Validator              // sorted by index; nil: unknown state
	Consol     func(state string) ([][2]int, bool)

	ExecBlock func(n uint64) *types.Block // nil: unknown
	Receipts  map[common.Hash]*types.Receipt
	Logs      []types.Log
	Balance   func(a common.Address, tag string) *big.Int
	Contract  Contract
	Pool      common.Address
	Nonces    map[common.Address]uint64
	Send      func(tx *types.Transaction, from common.Address) error // effects of a transaction
	Estimate  func(from, to common.Address, data []byte) error

	Busy sync.WaitGroup // requests being answered

	cons, exec net.Listener
	Abi        *abi.ABI
}

// Contract answers a call to the pool.
type Contract interface {
	Call(method string, args []interface{}, tag string) ([]interface{}, error)
}

func New() *Chain {
	a, err := contract.ContractMetaData.GetAbi()
	if err != nil {
		panic(err)
	}
	return &Chain{Abi: a, Receipts: map[common.Hash]*types.Receipt{}, Nonces: map[common.Address]uint64{}, Genesis: 1606824023}
}

// Start serves both nodes; it returns their addresses.
func (c *Chain) Start() (string, string) {
	var err error
	if c.cons, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		panic(err)
	}
	if c.exec, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		panic(err)
	}
	// one connection per request: nothing is repeated behind the back of the client
	for l, f := range map[net.Listener]http.HandlerFunc{c.cons: c.beacon, c.exec: c.rpc} {
		f := f
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			c.Busy.Add(1)
			defer c.Busy.Done()
			f(w, r)
		})}
		srv.SetKeepAlivesEnabled(false)
		go srv.Serve(l)
	}
	return "http://" + c.cons.Addr().String(), "http://" + c.exec.Addr().String()
}

func (c *Chain) Stop() {
	c.cons.Close()
	c.exec.Close()
}

// Take returns the requests seen since the last call.
func (c *Chain) Take() []Req {
	c.Mu.Lock()
	defer c.Mu.Unlock()
	r := c.Reqs
	c.Reqs = nil
	return r
}

func (c *Chain) note(r Req) *Fault {
	if c.Gate != nil {
		if f := c.Gate(r); f != nil {
			return f
		}
	}
	c.Mu.Lock()
	defer c.Mu.Unlock()
	c.Reqs = append(c.Reqs, r)
	if c.FaultFn == nil {
		return nil
	}
	return c.FaultFn(r)
}

func drop(w http.ResponseWriter) {
	if h, ok := w.(http.Hijacker); ok {
		conn, _, err := h.Hijack()
		if err == nil {
			if t, is := conn.(*net.TCPConn); is {
				t.SetLinger(0)
			}
			conn.Close()
			return
		}
	}
	panic(http.ErrAbortHandler)
}

func cut(w http.ResponseWriter) {
	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Content-Length", "5000")
	w.Write([]byte("{\"data\":"))
}

func send(w http.ResponseWriter, code int, x interface{}) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	json.NewEncoder(w).Encode(x)
}

type obj = map[string]interface{}

// ---- the beacon node ----------------------------------------------------------------------------

func (c *Chain) beacon(w http.ResponseWriter, r *http.Request) {
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	path := strings.Join(p, "/")
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
	}
	req := Req{Kind: "other", Arg: path}
	var ids []string
	switch {
	case path == "eth/v1/node/version":
		send(w, 200, obj{"data": obj{"version": "fake/1"}})
		return
	case path == "eth/v1/node/syncing":
		req = Req{"syncing", ""}
	case path == "eth/v1/config/spec":
		send(w, 200, obj{"data": obj{"SLOTS_PER_EPOCH": "32", "SECONDS_PER_SLOT": "12", "FAR_FUTURE_EPOCH": "18446744073709551615"}})
		return
	case path == "eth/v1/config/deposit_contract":
		req = Req{"deposit", ""}
	case path == "eth/v1/beacon/genesis":
		req = Req{"genesis", ""}
	case len(p) == 5 && p[3] == "headers":
		req = Req{"header", p[4]}
	case len(p) == 6 && p[3] == "duties":
		req = Req{"duties", p[5]}
	case len(p) == 5 && p[1] == "v2" && p[3] == "blocks":
		req = Req{"block", p[4]}
	case len(p) == 6 && p[3] == "states" && p[5] == "validators":
		var b struct {
			IDs []string `json:"ids"`
		}
		json.Unmarshal(body, &b)
		ids = append(ids, b.IDs...)
		for _, x := range r.URL.Query()["id"] {
			ids = append(ids, strings.Split(x, ",")...)
		}
		req = Req{"validators", p[4] + ":" + strings.Join(ids, ",")}
	case len(p) == 6 && p[3] == "states" && p[5] == "pending_consolidations":
		req = Req{"consolidations", p[4]}
	case len(p) == 6 && p[1] == "v2" && p[2] == "debug":
		req = Req{"state", p[5]}
	}
	wrong := false
	if f := c.note(req); f != nil {
		switch f.How {
		case "wrong":
			wrong = true
		case "drop":
			drop(w)
			return
		case "cut":
			cut(w)
			return
		case "status":
			w.Header().Set("Content-Type", "application/json")
			w.WriteHeader(f.Status)
			w.Write([]byte(f.Body))
			return
		case "garbage":
			w.Header().Set("Content-Type", "application/json")
			w.Write([]byte("<html>upstream busy</html>"))
			return
		case "empty":
			send(w, 200, obj{})
			return
		}
	}
	c.Mu.Lock()
	defer c.Mu.Unlock()
	notFound := func(what string) {
		send(w, 404, obj{"code": 404, "message": "NOT_FOUND: " + what, "stacktraces": []string{}})
	}
	switch req.Kind {
	case "syncing":
		send(w, 200, obj{"data": obj{"head_slot": strconv.Itoa(c.Finalized + 64), "sync_distance": strconv.Itoa(c.SyncDist), "is_syncing": c.SyncDist > 0 && !c.Quiet, "is_optimistic": false, "el_offline": false}})
	case "deposit":
		send(w, 200, obj{"data": obj{"chain_id": fmt.Sprint(c.ConsChain), "address": "0x00000000219ab540356cbb839cbe05303d7705fa"}})
	case "genesis":
		send(w, 200, obj{"data": obj{"genesis_time": fmt.Sprint(c.Genesis), "genesis_validators_root": "0x" + strings.Repeat("4b", 32), "genesis_fork_version": "0x00000000"}})
	case "header":
		z := "0x" + strings.Repeat("00", 32)
		send(w, 200, obj{"execution_optimistic": false, "finalized": true, "data": obj{"root": z, "canonical": true, "header": obj{
			"signature": "0x" + strings.Repeat("00", 96),
			"message":   obj{"slot": strconv.Itoa(c.Finalized), "proposer_index": "0", "parent_root": z, "state_root": z, "body_root": z}}}})
	case "duties":
		epoch, _ := strconv.Atoi(req.Arg)
		data := []obj{}
		for _, d := range c.Duties(epoch) {
			data = append(data, obj{"pubkey": fmt.Sprintf("%#x", d.Key), "validator_index": strconv.Itoa(d.Index), "slot": strconv.Itoa(d.Slot)})
		}
		if wrong {
			data = append(data[5:], data[:5]...)
		}
		send(w, 200, obj{"dependent_root": "0x" + strings.Repeat("00", 32), "execution_optimistic": false, "data": data})
	case "block":
		slot, err := strconv.Atoi(req.Arg)
		var b *spec.VersionedSignedBeaconBlock
		if wrong {
			slot++
		}
		if err == nil {
			b = c.Block(slot)
		}
		if b == nil {
			notFound("beacon block at slot " + req.Arg)
			return
		}
		w.Header().Set("Eth-Consensus-Version", b.Version.String())
		send(w, 200, obj{"version": b.Version.String(), "execution_optimistic": false, "finalized": true, "data": inner(b)})
	case "validators":
		all := c.Validators(strings.SplitN(req.Arg, ":", 2)[0])
		if all == nil {
			notFound("state")
			return
		}
		data := []*v1.Validator{}
		for _, v := range all {
			if len(ids) == 0 {
				data = append(data, v)
				continue
			}
			if wrong {
				if len(data) == 0 && strconv.Itoa(int(v.Index)) != ids[0] {
					data = append(data, v)
				}
				continue
			}
			for _, id := range ids {
				if id == strconv.Itoa(int(v.Index)) || strings.EqualFold(id, fmt.Sprintf("%#x", v.Validator.PublicKey)) {
					data = append(data, v)
					break
				}
			}
		}
		send(w, 200, obj{"execution_optimistic": false, "finalized": true, "data": data})
	case "consolidations":
		cs, ok := c.Consol(req.Arg)
		if !ok {
			notFound("state")
			return
		}
		data := []obj{}
		for _, x := range cs {
			data = append(data, obj{"source_index": strconv.Itoa(x[0]), "target_index": strconv.Itoa(x[1])})
		}
		send(w, 200, obj{"version": "electra", "execution_optimistic": false, "finalized": true, "data": data})
	case "state":
		all := c.Validators(req.Arg)
		if all == nil {
			notFound("state")
			return
		}
		w.Header().Set("Eth-Consensus-Version", "phase0")
		send(w, 200, obj{"version": "phase0", "execution_optimistic": false, "finalized": true, "data": stateOf(c.Finalized, all)})
	default:
		notFound(path)
	}
}

// ---- the execution node -------------------------------------------------------------------------

type rpcReq struct {
	Id     json.RawMessage   `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

type rpcErr struct {
	Code    int         `json:"code"`
	Message string      `json:"message"`
	Data    interface{} `json:"data,omitempty"`
}

// Revert is the error of a call the contract refuses.
type Revert struct{ Reason string }

func (r Revert) Error() string { return "execution reverted: " + r.Reason }

func (c *Chain) rpc(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	if len(body) > 0 && body[0] == '[' {
		var batch []rpcReq
		json.Unmarshal(body, &batch)
		out := []obj{}
		for _, q := range batch {
			o, f := c.one(q)
			if f != nil {
				drop(w)
				return
			}
			out = append(out, o)
		}
		send(w, 200, out)
		return
	}
	var q rpcReq
	if err := json.Unmarshal(body, &q); err != nil {
		w.WriteHeader(400)
		return
	}
	o, f := c.one(q)
	if f != nil {
		switch f.How {
		case "drop":
			drop(w)
		case "cut":
			cut(w)
		case "status":
			w.WriteHeader(f.Status)
			w.Write([]byte(f.Body))
		case "garbage":
			w.Header().Set("Content-Type", "application/json")
			w.Write([]byte("<html>upstream busy</html>"))
		}
		return
	}
	send(w, 200, o)
}

func str(m json.RawMessage) string {
	var s string
	json.Unmarshal(m, &s)
	return s
}

func (c *Chain) one(q rpcReq) (obj, *Fault) {
	req := Req{Kind: q.Method}
	var filter struct {
		Address   json.RawMessage `json:"address"`
		From      string          `json:"fromBlock"`
		To        string          `json:"toBlock"`
		BlockHash string          `json:"blockHash"`
		Topics    json.RawMessage `json:"topics"`
	}
	var call struct {
		From  string `json:"from"`
		To    string `json:"to"`
		Input string `json:"input"`
		Data  string `json:"data"`
	}
	var method *abi.Method
	var data []byte
	switch q.Method {
	case "eth_getLogs":
		json.Unmarshal(q.Params[0], &filter)
		req.Kind = "logs"
		req.Arg = filter.From + "-" + filter.To
		for _, t := range topicsOf(filter.Topics) {
			for _, h := range t {
				if ev, err := c.Abi.EventByID(h); err == nil {
					req.Kind = "logs:" + ev.Name
				}
			}
		}
	case "eth_getTransactionReceipt":
		req.Kind, req.Arg = "receipt", str(q.Params[0])
	case "eth_getBlockByNumber":
		req.Kind, req.Arg = "execblock", str(q.Params[0])
	case "eth_call", "eth_estimateGas":
		json.Unmarshal(q.Params[0], &call)
		if call.Input == "" {
			call.Input = call.Data
		}
		data = common.FromHex(call.Input)
		if len(data) >= 4 {
			method, _ = c.Abi.MethodById(data[:4])
		}
		name := "?"
		if method != nil {
			name = method.Name
		}
		req.Kind = map[string]string{"eth_call": "call:", "eth_estimateGas": "estimate:"}[q.Method] + name
		if len(q.Params) > 1 {
			req.Arg = str(q.Params[1])
		}
	case "eth_getBalance":
		req.Kind, req.Arg = "balance", strings.ToLower(str(q.Params[0]))+"@"+str(q.Params[1])
	case "eth_chainId", "net_version", "eth_syncing", "eth_blockNumber":
	case "eth_sendRawTransaction":
		req.Kind = "sendtx"
	}
	reply := obj{"jsonrpc": "2.0", "id": q.Id}
	wrong := false
	f := c.note(req)
	garble := false
	if f != nil && f.How == "wrong" {
		f, wrong = nil, true
	}
	if f != nil && f.How == "garble" {
		f, garble = nil, true
	}
	if f != nil {
		switch f.How {
		case "rpc":
			reply["error"] = rpcErr{Code: -32000, Message: f.Body}
			return reply, nil
		case "null", "empty":
			reply["result"] = nil
			return reply, nil
		}
		return nil, f
	}
	fail := func(err error) (obj, *Fault) {
		e := rpcErr{Code: -32000, Message: err.Error()}
		if rv, is := err.(Revert); is {
			e.Code = 3
			str, _ := abi.NewType("string", "", nil)
			enc, _ := abi.Arguments{{Type: str}}.Pack(rv.Reason)
			e.Data = "0x08c379a0" + hex.EncodeToString(enc)
		}
		reply["error"] = e
		return reply, nil
	}
	c.Mu.Lock()
	defer c.Mu.Unlock()
	switch q.Method {
	case "eth_chainId":
		reply["result"] = hexutil.EncodeUint64(c.ExecChain)
	case "net_version":
		reply["result"] = fmt.Sprint(c.ExecChain)
	case "eth_syncing":
		if c.ExecSyncing {
			reply["result"] = obj{"startingBlock": "0x0", "currentBlock": "0x1", "highestBlock": "0x2"}
		} else {
			reply["result"] = false
		}
	case "eth_blockNumber":
		reply["result"] = hexutil.EncodeUint64(c.Head)
	case "eth_getBlockByNumber":
		n := c.num(req.Arg)
		if wrong {
			n++
		}
		b := c.ExecBlock(n)
		if b == nil {
			reply["result"] = nil
			break
		}
		full := len(q.Params) > 1 && string(q.Params[1]) == "true"
		reply["result"] = BlockJSON(b, full)
	case "eth_getLogs":
		from, to := c.num(filter.From), c.num(filter.To)
		if wrong {
			from, to = to+1, to+1
		}
		addrs := addrsOf(filter.Address)
		topics := topicsOf(filter.Topics)
		out := []types.Log{}
		for _, l := range c.Logs {
			if l.BlockNumber < from || l.BlockNumber > to {
				continue
			}
			if len(addrs) > 0 && !hasAddr(addrs, l.Address) {
				continue
			}
			ok := true
			for i, alts := range topics {
				if len(alts) == 0 {
					continue
				}
				hit := false
				for _, a := range alts {
					if i < len(l.Topics) && l.Topics[i] == a {
						hit = true
					}
				}
				ok = ok && hit
			}
			if ok {
				out = append(out, l)
			}
		}
		sort.SliceStable(out, func(i, j int) bool {
			if out[i].BlockNumber != out[j].BlockNumber {
				return out[i].BlockNumber < out[j].BlockNumber
			}
			return out[i].Index < out[j].Index
		})
		if garble && len(topics) > 0 && len(topics[0]) > 0 {
			bad := types.Log{Address: c.Pool, Topics: topics[0][:1], Data: []byte{1}, BlockNumber: from, Index: 7}
			out = append([]types.Log{bad}, out...)
		}
		reply["result"] = out
	case "eth_getTransactionReceipt":
		rc := c.Receipts[common.HexToHash(req.Arg)]
		if rc == nil {
			reply["result"] = nil
			break
		}
		reply["result"] = rc
	case "eth_getBalance":
		p := strings.SplitN(req.Arg, "@", 2)
		b := c.Balance(common.HexToAddress(p[0]), p[1])
		if b == nil {
			return fail(fmt.Errorf("missing trie node"))
		}
		reply["result"] = hexutil.EncodeBig(b)
	case "eth_getCode":
		reply["result"] = "0x6001"
	case "eth_getTransactionCount":
		reply["result"] = hexutil.EncodeUint64(c.Nonces[common.HexToAddress(str(q.Params[0]))])
	case "eth_gasPrice", "eth_maxPriorityFeePerGas":
		reply["result"] = "0x3b9aca00"
	case "eth_estimateGas":
		if c.Estimate != nil {
			if err := c.Estimate(common.HexToAddress(call.From), common.HexToAddress(call.To), data); err != nil {
				return fail(err)
			}
		}
		reply["result"] = "0x30d40"
	case "eth_call":
		if method == nil || common.HexToAddress(call.To) != c.Pool {
			reply["result"] = "0x"
			break
		}
		args, err := method.Inputs.Unpack(data[4:])
		if err != nil {
			return fail(err)
		}
		vals, err := c.Contract.Call(method.Name, args, req.Arg)
		if err != nil {
			return fail(err)
		}
		enc, err := method.Outputs.Pack(vals...)
		if err != nil {
			panic(fmt.Sprint(method.Name, ": ", err))
		}
		reply["result"] = "0x" + hex.EncodeToString(enc)
	case "eth_sendRawTransaction":
		tx := new(types.Transaction)
		if err := tx.UnmarshalBinary(common.FromHex(str(q.Params[0]))); err != nil {
			return fail(err)
		}
		from, err := types.Sender(types.LatestSignerForChainID(new(big.Int).SetUint64(c.ExecChain)), tx)
		if err != nil {
			return fail(err)
		}
		if tx.Nonce() != c.Nonces[from] {
			return fail(fmt.Errorf("nonce too low or too high"))
		}
		if err := c.Send(tx, from); err != nil {
			return fail(err)
		}
		c.Nonces[from]++
		reply["result"] = tx.Hash().Hex()
	default:
		return fail(fmt.Errorf("the method %s does not exist", q.Method))
	}
	return reply, nil
}

func (c *Chain) num(tag string) uint64 {
	switch tag {
	case "", "latest", "pending":
		return c.Head
	case "finalized", "safe":
		return c.Head
	case "earliest":
		return 0
	}
	n, err := hexutil.DecodeUint64(tag)
	if err != nil {
		return c.Head
	}
	return n
}

func topicsOf(m json.RawMessage) [][]common.Hash {
	var raw []json.RawMessage
	if json.Unmarshal(m, &raw) != nil {
		return nil
	}
	out := [][]common.Hash{}
	for _, x := range raw {
		var many []common.Hash
		var one common.Hash
		if string(x) == "null" {
			out = append(out, nil)
		} else if json.Unmarshal(x, &many) == nil {
			out = append(out, many)
		} else if json.Unmarshal(x, &one) == nil {
			out = append(out, []common.Hash{one})
		}
	}
	return out
}

func addrsOf(m json.RawMessage) []common.Address {
	var many []common.Address
	var one common.Address
	if json.Unmarshal(m, &many) == nil {
		return many
	}
	if json.Unmarshal(m, &one) == nil {
		return []common.Address{one}
	}
	return nil
}

func hasAddr(s []common.Address, a common.Address) bool {
	for _, x := range s {
		if x == a {
			return true
		}
	}
	return false
}

// BlockJSON is a block the way an execution node writes it.
func BlockJSON(b *types.Block, full bool) obj {
	j, err := json.Marshal(b.Header())
	if err != nil {
		panic(err)
	}
	o := obj{}
	json.Unmarshal(j, &o)
	o["hash"] = b.Hash()
	o["size"] = "0x100"
	o["uncles"] = []string{}
	if b.Withdrawals() != nil {
		o["withdrawals"] = b.Withdrawals()
	}
	txs := []interface{}{}
	for i, t := range b.Transactions() {
		if !full {
			txs = append(txs, t.Hash())
			continue
		}
		j, _ := t.MarshalJSON()
		m := obj{}
		json.Unmarshal(j, &m)
		m["blockHash"], m["blockNumber"], m["transactionIndex"] = b.Hash(), hexutil.EncodeBig(b.Number()), hexutil.EncodeUint64(uint64(i))
		if id := t.ChainId(); id != nil && id.Sign() > 0 {
			if from, err := types.Sender(types.LatestSignerForChainID(id), t); err == nil {
				m["from"] = from
			}
		}
		txs = append(txs, m)
	}
	o["transactions"] = txs
	return o
}

// MkBlock makes an execution block.
func MkBlock(n uint64, timestamp uint64, baseFee *big.Int, txs []*types.Transaction) *types.Block {
	h := &types.Header{Number: new(big.Int).SetUint64(n), Time: timestamp, BaseFee: baseFee, Difficulty: big.NewInt(0), GasLimit: 30_000_000,
		UncleHash: types.EmptyUncleHash, TxHash: types.EmptyTxsHash, ReceiptHash: types.EmptyReceiptsHash}
	if len(txs) > 0 {
		h.TxHash = common.BigToHash(new(big.Int).SetUint64(n + 1)) // nobody recomputes it
	}
	return types.NewBlockWithHeader(h).WithBody(types.Body{Transactions: txs})
}

// ---- event logs -----------------------------------------------------------------------------------

// Log makes a log of the contract's event.
func (c *Chain) Log(event string, addr common.Address, bnum uint64, index int, txHash common.Hash, args ...interface{}) types.Log {
	ev, ok := c.Abi.Events[event]
	if !ok {
		panic("event " + event)
	}
	topics := []common.Hash{ev.ID}
	var plain []interface{}
	for i, in := range ev.Inputs {
		if in.Indexed {
			t, err := abi.MakeTopics([]interface{}{args[i]})
			if err != nil {
				panic(err)
			}
			topics = append(topics, t[0][0])
		} else {
			plain = append(plain, args[i])
		}
	}
	data, err := ev.Inputs.NonIndexed().Pack(plain...)
	if err != nil {
		panic(event + ": " + err.Error())
	}
	return types.Log{Address: addr, Topics: topics, Data: data, BlockNumber: bnum, TxHash: txHash, TxIndex: uint(index / 3), Index: uint(index),
		BlockHash: common.BigToHash(new(big.Int).SetUint64(bnum))}
}
