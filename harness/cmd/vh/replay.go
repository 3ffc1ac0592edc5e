package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"

	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

func init() { cmds["replay"] = replayCmd }

var (
	in      = flag.String("in", "", "what the model printed")
	netName = flag.String("net", "mainnet", "network")
	baseAt  = flag.Int("base", 0, "clean-up slot of the era")
	piece   = flag.Int("piece", 0, "replay the paths of this piece ...")
	pieces  = flag.Int("pieces", 1, "... of so many")
)

// label is a block of PoolMC's alphabet.
type label struct {
	Clean bool `json:"clean"`
	Prop  struct {
		K  string `json:"k"`
		Vi int    `json:"vi"`
	} `json:"prop"`
	Subs []struct {
		Id   int    `json:"id"`
		Coll string `json:"coll"`
		From string `json:"from"`
	} `json:"subs"`
	Unsubs []struct {
		Id   int    `json:"id"`
		From string `json:"from"`
	} `json:"unsubs"`
	Don    []string     `json:"don"`
	Bans   []int        `json:"bans"`
	Unbans []int        `json:"unbans"`
	Exit   []int        `json:"exit"`
	Cons   []world.Cons `json:"cons"`
	Err    string       `json:"err"`
}

// replayCmd takes the real code along every path the model PoolMC explored: each transition starts from the state the
// real code itself reached on the way there.
func replayCmd() map[string]interface{} {
	addBuilders()
	var alpha []label
	var paths [][]int
	f, err := os.Open(*in)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s string
		if json.Unmarshal(sc.Bytes(), &s) != nil || len(s) < 2 {
			continue
		}
		switch s[:2] {
		case "A|":
			if err := json.Unmarshal([]byte(s[2:]), &alpha); err != nil {
				panic(err)
			}
		case "T|":
			var p []int
			if err := json.Unmarshal([]byte(s[2:]), &p); err != nil {
				panic(err)
			}
			paths = append(paths, p)
		}
	}
	if len(alpha) == 0 || len(paths) == 0 {
		panic("nothing to replay")
	}
	// by length, then in the order of the alphabet; a part keeps neighbours together
	sort.SliceStable(paths, func(i, j int) bool { return fmt.Sprint(paths[i]) < fmt.Sprint(paths[j]) })
	lo, hi := len(paths)**piece / *pieces, len(paths)*(*piece+1) / *pieces
	paths = paths[lo:hi]

	addrs, acc := world.NewAccounts("replay", 8)
	w := map[string]string{"a": addrs[0], "b": addrs[1], "w": addrs[2], "u": addrs[3]}
	pool := addrs[4]
	chain := map[string]uint64{"mainnet": 1, "holesky": 17000, "hoodi": 560048}[*netName]
	n := &world.Node{Net: *netName, Chain: chain, Pool: pool, FeeAddr: addrs[5], Ckpt: 4, Acc: acc, Fee0: 700, Coll: world.B("10000"), Deploy: uint64(*baseAt)}
	val := func(i int) world.BV {
		kind, wa, eff := "eth1", "b", "2000"
		switch i {
		case 1:
			wa, eff = "a", "32"
		case 2:
			kind, wa, eff = "electra", "a", "33"
		case 4:
			kind, eff = "bls", "32"
		case 9:
			wa, eff = "w", "32"
		}
		raw := world.Creds(kind, w[wa])
		return world.BV{Ok: true, Id: i, Idx: i, Status: "active_ongoing", Eff: eff, Raw: raw, Cred: world.CredKind(raw), Wa: world.WaOf(raw),
			Key: fmt.Sprintf("0x%x", world.KeyOf(i))}
	}
	n.At = func(id, slot int) world.BV {
		if id >= 1 && id <= 4 {
			return val(id)
		}
		return world.BV{Id: id, Idx: id, Eff: "0", Status: "unknown"}
	}
	n.Fresh()
	cfg := *n.Cfg

	tx := func(from, to, v string) world.Tx {
		return world.Tx{From: from, To: to, Val: v, Ty: 2, Price: "0", Tip: "47", Cap: "1000", Gas: "21000", Hok: true}
	}
	block := func(k int) (world.Blk, world.Env) {
		x := alpha[k-1]
		b := world.Blk{Slot: *baseAt + 1, Txs: []world.Tx{}, Ers: []world.Ev{}, Subs: []world.Sub{}, Unsubs: []world.Unsub{}, Bans: append([]int{}, x.Bans...),
			Unbans: append([]int{}, x.Unbans...), Fees: []int{}, Recips: []string{}, Csizes: []int{}, Colls: []string{}, Pbase: "0", Pgas: "0", Hbase: "0",
			Version: world.Versions[k%len(world.Versions)]}
		env := world.Env{V: []world.BV{}, Cons: append([]world.Cons{}, x.Cons...), ConsErr: x.Err == "cons", ValErr: x.Err == "val"}
		for i := 1; i <= 4; i++ {
			v := val(i)
			for _, e := range x.Exit {
				if e == i {
					v.Status = "withdrawal_done"
				}
			}
			env.V = append(env.V, v)
		}
		if x.Clean {
			b.Slot = *baseAt
		}
		pv := val(x.Prop.Vi)
		b.Vi, b.Key, b.Cred, b.Wa, b.Prop = x.Prop.Vi, pv.Key, pv.Cred, pv.Wa, pv
		if x.Prop.K == "missed" {
			b.Missed = true
			return b, env
		}
		b.Bnum, b.FeeRec, b.Pbase, b.Pgas, b.Hbase, b.Hdr, b.Nrec = 1000, w["u"], "10", "21000", "10", true, 1
		if x.Prop.K == "vanilla" {
			b.FeeRec = pool
		}
		for _, d := range x.Don {
			b.Ers = append(b.Ers, world.Ev{From: w["w"], Val: d, Addr: pool})
		}
		switch x.Prop.K {
		case "mev":
			b.Txs = []world.Tx{tx(w["u"], pool, "1000003")}
			b.Ers = append(b.Ers, world.Ev{From: w["w"], Val: "1000003", Addr: pool})
		case "wrongmev":
			b.Txs = []world.Tx{tx(w["u"], w["w"], "1000003")}
		default:
			b.Txs = []world.Tx{tx(w["w"], w["w"], "5")}
		}
		for _, s := range x.Subs {
			b.Subs = append(b.Subs, world.Sub{Id: s.Id, Coll: s.Coll, From: w[s.From], V: val(s.Id)})
		}
		for _, s := range x.Unsubs {
			b.Unsubs = append(b.Unsubs, world.Unsub{Id: s.Id, From: w[s.From], V: val(s.Id)})
		}
		return b, env
	}

	tr := world.NewTrace(*out)
	counts := map[string]int{}
	known := map[string]*oracle.OracleState{"": world.Copy(n.Or.State())}
	key := func(p []int) string { return strings.Trim(fmt.Sprint(p), "[]") }
	var walk func(p []int) *oracle.OracleState
	walk = func(p []int) *oracle.OracleState {
		if s, ok := known[key(p)]; ok {
			return s
		}
		from := walk(p[:len(p)-1])
		b, env := block(p[len(p)-1])
		s := world.Copy(from)
		s.LatestProcessedSlot, s.NextSlotToProcess, s.LatestProcessedBlock = uint64(b.Slot-1), uint64(b.Slot), 999
		n.Reset(s, &cfg)
		tr.Emit(n.InitLine())
		line := n.Step(b, env)
		counts["out:"+line.Out]++
		tr.Emit(line)
		to := world.Copy(n.Or.State())
		known[key(p)] = to
		return to
	}
	for _, p := range paths {
		walk(p)
	}
	tr.Close()
	counts["lines"] = tr.N
	return map[string]interface{}{"counts": counts, "traces": len(paths), "lines": tr.N, "sample": 1}
}
