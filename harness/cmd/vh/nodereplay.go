package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/world"
)

func init() { cmds["nodereplay"] = nodeReplayCmd }

// op is a letter of NodeMC's alphabet.
type op struct {
	Op  string `json:"op"`
	Arg uint64 `json:"arg"`
}

// nodeReplayCmd takes real oracles along every history the model NodeMC explored, each from its beginning.
func nodeReplayCmd() map[string]interface{} {
	addBuilders()
	var alpha []op
	var paths [][]int
	f, err := os.Open(*in)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s string
		if json.Unmarshal(sc.Bytes(), &s) != nil || len(s) < 2 {
			continue
		}
		switch s[:2] {
		case "A|":
			if err := json.Unmarshal([]byte(s[2:]), &alpha); err != nil {
				panic(err)
			}
		case "T|":
			var p []int
			if err := json.Unmarshal([]byte(s[2:]), &p); err != nil {
				panic(err)
			}
			paths = append(paths, p)
		}
	}
	if len(alpha) == 0 || len(paths) == 0 {
		panic("nothing to replay")
	}
	// a history that another one goes on from needs no replay of its own
	key := func(p []int) string { return strings.Trim(fmt.Sprint(p), "[]") }
	inner := map[string]bool{}
	for _, p := range paths {
		inner[key(p[:len(p)-1])] = true
	}
	var ends [][]int
	for _, p := range paths {
		if !inner[key(p)] {
			ends = append(ends, p)
		}
	}
	sort.SliceStable(ends, func(i, j int) bool { return key(ends[i]) < key(ends[j]) })
	lo, hi := len(ends)**piece / *pieces, len(ends)*(*piece+1) / *pieces
	ends = ends[lo:hi]

	base, err := os.MkdirTemp("", "vhnodereplay")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	at := uint64(*baseAt)
	counts := map[string]int{}
	// a chain on which the slots are all accepted, and which has a tree at the second and the third checkpoint and none at the first
	build := func(seed int64, out string) (*nodeWorld, *world.Trace, bool) {
		tr := world.NewTrace(out)
		g := world.NewGen(seed, world.Base)
		g.N.Net, g.N.Chain = *netName, map[string]uint64{"mainnet": 1, "holesky": 17000, "hoodi": 560048}[*netName]
		g.N.Deploy, g.N.Ckpt, g.N.Fee0 = at, 2, 700
		g.N.Fresh()
		g.Jump(int(at))
		w := &nodeWorld{r: rand.New(rand.NewSource(seed)), g: g, tr: tr, chain: map[uint64]*entry{}, nodes: make([]*world.Node, 2), counts: counts, base: base, budget: 6, plain: true}
		tr.Emit(worldLine{Ev: "world", Net: g.N.Net, Deploy: g.N.Deploy, Ckpt: g.N.Ckpt, Fee0: g.N.Fee0, FeeAddr: strings.ToLower(g.N.FeeAddr), Pool: strings.ToLower(g.N.Pool), N: 2})
		w.nodes[0] = g.N
		for o := 0; o < 2; o++ {
			w.dirs = append(w.dirs, filepath.Join(base, fmt.Sprintf("s%d-o%d", seed, o)))
			w.start(o)
		}
		for s := at; s <= at+5; s++ {
			w.advance(1, 1)
			m := memOf(w.nodes[1])
			if m.Slot != s || w.budget < 0 {
				return nil, tr, false
			}
			if k := len(m.Com); k != int(s-at)/2 {
				return nil, tr, false
			}
			if s == at+2 || s == at+4 {
				w.save(1, true)
			}
		}
		return w, tr, true
	}
	var w *nodeWorld
	var tr *world.Trace
	for s := *seed * 1000; w == nil; s++ {
		if s > *seed*1000+3000 {
			panic("no chain found")
		}
		var ok bool
		if w, tr, ok = build(s, *out); !ok {
			w = nil
			tr.Close()
		}
	}
	for h, p := range ends {
		w.r = rand.New(rand.NewSource(*seed*1_000_003 + int64(*piece)<<32 + int64(h)))
		for _, f := range w.filesOf(0) {
			w.damage(0, f, 0)
		}
		w.start(0)
		for _, k := range p {
			x := alpha[k-1]
			file := at + x.Arg
			if x.Arg == 0 {
				file = 0
			}
			slot := func() uint64 { return w.nodes[0].Or.State().LatestProcessedSlot }
			switch x.Op {
			case "adv":
				w.advance(0, 1)
			case "ckpt":
				for t := 0; t < 6; t++ {
					w.advance(0, 1)
					if s := slot(); s == at+2 || s == at+4 {
						break
					}
				}
				w.save(0, true)
			case "save", "saveslot":
				w.save(0, x.Op == "saveslot")
			case "start":
				w.start(0)
			case "restart":
				w.start(0)
				w.load(0, "json", 0, 0)
			case "given":
				w.load(0, "given", at+x.Arg, 0)
			case "file":
				w.load(0, "file", file, 0)
			case "peer":
				w.load(0, "bytes", file, 1)
			case "delete":
				w.damage(0, file, 0)
			case "damage":
				w.damage(0, file, 1+w.r.Intn(8))
			default:
				panic(x.Op)
			}
			counts["op:"+x.Op]++
		}
	}
	tr.Close()
	counts["lines"] = tr.N
	return map[string]interface{}{"counts": counts, "traces": len(ends), "lines": tr.N}
}
