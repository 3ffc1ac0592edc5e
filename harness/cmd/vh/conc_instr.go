//go:build instr

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"

	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/oracle"
	log "github.com/sirupsen/logrus"
)

func init() { cmds["conc"] = concCmd }

// conc: the main loop, saves, readers and requests together, in schedules of ours.

type concRead struct {
	apiLine
	Kind  string `json:"kind"`
	From  int    `json:"from"` // operations of the main loop that were over when it began
	To    int    `json:"to"`   // that had begun when it was over
	Out   string `json:"out"`
	Fault bool   `json:"fault"`
	Dig   string `json:"dig"` // what was read
	End   string `json:"end"` // the same, later
	Ldig  string `json:"ldig"`
	Slot  int    `json:"slot"`
	Found bool   `json:"found"`
}

type opLine struct {
	Ev   string `json:"ev"`
	Name string `json:"name"`
	Out  string `json:"out"`
	Digs
}

// Digs of the oracle before and after an operation of the main loop.
type Digs struct {
	Digb string `json:"digb"`
	Dig  string `json:"dig"`
	Cdig string `json:"cdig"` // of the latest frozen checkpoint
	Csl  int    `json:"csl"`  // its slot
}

type blockLine struct {
	world.BlockLine
	Digs
}

type freezeLine struct {
	apiLine
	Digs
}

type conc struct {
	apiRun
	progs   map[string]interface{}
	started atomic.Int32
	over    atomic.Int32
	main    *ctask
	dead    bool
	lines   []interface{} // of the main loop, in this round
	digs    func() (string, string, int)
}

type laters struct {
	mu sync.Mutex
	l  []func()
}

func (x *laters) add(f func()) {
	x.mu.Lock()
	x.l = append(x.l, f)
	x.mu.Unlock()
}

func concCmd() map[string]interface{} {
	addBuilders()
	installSched()
	log.SetLevel(log.InfoLevel)
	a := &conc{progs: map[string]interface{}{}}
	a.apiRun = apiRun{tr: world.NewTrace(*out), counts: map[string]int{}, next: *apiPort, rl: newRelays(), cl: apiClient(), still: true}
	oracle.StateFolder = *out + ".state"
	h := int64(0)
	for a.tr.N < *steps {
		a.history(*seed*3_000_017 + h)
		h++
	}
	names := []string{}
	for k := range a.progs {
		names = append(names, k)
	}
	sort.Strings(names)
	ps := []interface{}{}
	for _, k := range names {
		ps = append(ps, a.progs[k])
	}
	a.tr.Emit(map[string]interface{}{"ev": "progs", "progs": ps})
	a.counts["programs"] = len(ps)
	a.counts["histories"] = int(h)
	a.counts["lines"] = a.tr.N
	a.tr.Close()
	return map[string]interface{}{"counts": a.counts, "traces": h, "lines": a.tr.N, "sample": 30}
}

func (a *conc) history(seed int64) {
	os.RemoveAll(oracle.StateFolder)
	defer os.RemoveAll(oracle.StateFolder)
	m := world.Modes["api"]
	m.EnvErr, m.BadSlot = 6, 6
	defer a.setup(seed, m)()
	a.dead = false
	rounds := 10 + a.r.Intn(14)
	for k := 0; k < rounds && !a.dead; k++ {
		if k == 2 && a.r.Intn(3) > 0 { // statistics need a month
			a.g.Jump(int(a.g.N.Or.State().NextSlotToProcess) + 216000 + a.r.Intn(300))
			a.g.Bnum += 216000
			a.tr.Emit(a.g.N.InitLine())
		}
		if a.r.Intn(7) == 0 {
			next := int(a.g.N.Or.State().NextSlotToProcess)
			a.g.Jump((next/1200+1)*1200 - a.r.Intn(2))
			a.tr.Emit(a.g.N.InitLine())
		}
		a.round(k)
	}
}

// part runs what belongs to the operation of a task.
func part(t *ctask, f func() error) (string, string) {
	t.active.Store(true)
	defer t.active.Store(false)
	return world.Try(f)
}

func (a *conc) digest() Digs {
	st := a.or.State()
	d := Digs{Dig: world.Digest(st, "StateHash"), Cdig: "none"}
	last := uint64(0)
	for s, c := range st.CommitedStates {
		if s >= last {
			last, d.Cdig, d.Csl = s, world.Digest(c), int(s)
		}
	}
	return d
}

// op runs one operation of the main loop and tells what it found before and left.
func (a *conc) op(f func(), put func(Digs)) {
	b := a.digest().Dig
	a.started.Add(1)
	f()
	if a.dead {
		return
	}
	d := a.digest()
	d.Digb = b
	a.over.Add(1)
	put(d)
}

func (a *conc) load(raw []byte) (out, dig, msg string) {
	n := *a.g.N
	other := oracle.NewOracle(n.NewCfg())
	n.Wire(other)
	found := false
	out, msg = world.Try(func() (err error) {
		found, err = other.LoadFromBytes(raw)
		return err
	})
	if out == "ok" && !found {
		out = "notfound"
	}
	return out, world.Digest(other.State(), "StateHash"), msg
}

func (a *conc) round(k int) {
	g, r := a.g, a.r
	s := newSched(r, a.or)
	a.started.Store(0)
	a.over.Store(0)
	a.lines = nil
	a.main = nil

	// the main loop
	g.N.TryFn = func(f func() error) (string, string) { return part(a.main, f) }
	g.N.AskFn = s.yield
	defer func() { g.N.TryFn, g.N.AskFn = nil, nil }()
	step := func() {
		b, env := g.Next()
		var line world.BlockLine
		a.op(func() {
			line = g.N.Step(b, env)
			a.counts["block:"+line.Out]++
			if line.Out != "ok" && line.Out != "err" || g.N.Or != a.or || line.St.Negative() {
				a.dead = true
			}
		}, func(d Digs) { a.lines = append(a.lines, blockLine{line, d}) })
	}
	freeze := func() {
		l := blankApi("freeze")
		a.op(func() {
			if out, _ := part(a.main, func() error { l.Enough = a.or.FreezeCheckpoint(); return nil }); out != "ok" {
				a.dead = true
				return
			}
			sl := a.or.State().LatestProcessedSlot
			if l.Enough {
				l.Root = a.or.State().CommitedStates[sl].MerkleRoot
				if n := len(a.frozen); n == 0 || a.frozen[n-1] != sl {
					a.frozen = append(a.frozen, sl)
				}
				a.roots[sl] = l.Root
			}
		}, func(d Digs) { a.lines = append(a.lines, freezeLine{l, d}) })
		a.counts[fmt.Sprintf("freeze:%v", l.Enough)]++
	}
	other := func(name string, f func() error) func() {
		return func() {
			out := ""
			a.op(func() {
				out, _ = part(a.main, f)
				a.counts["op:"+name+":"+out]++
				if out == "fatal" || out == "panic" {
					a.dead = true
				}
			}, func(d Digs) { a.lines = append(a.lines, opLine{"op", name, out, d}) })
		}
	}
	ops := []func(){}
	n := 1 + r.Intn(5)
	blocks := 0
	for len(ops) < n {
		switch x := r.Intn(20); {
		case x < 11:
			ops = append(ops, step)
			blocks++
		case x < 14 && a.or.State().LatestProcessedSlot > 0:
			ops = append(ops, freeze)
		case x < 17:
			ops = append(ops, other("save", func() error { return a.or.SaveToJson(true) }))
		case x < 18:
			ops = append(ops, other("loadbad", func() error {
				_, err := a.or.LoadFromBytes([]byte(`{"StateHash":"0x00"`))
				return err
			}))
		case x < 19:
			ops = append(ops, other("loadabsent", func() error {
				_, err := a.or.LoadFromPath(filepath.Join(oracle.StateFolder, "nothing.json"))
				return err
			}))
		default:
			ops = append(ops, other("withdrawals", func() error {
				a.or.GetUniqueWithdrawalAddresses()
				a.or.RunOffchainReconciliation()
				return nil
			}))
		}
	}
	a.main = s.add("main", func() {
		for _, f := range ops {
			if !a.dead {
				f()
			}
		}
	})

	// the others
	reads := []*concRead{}
	ends := &laters{}
	begin := func(kind string) *concRead {
		x := &concRead{apiLine: blankApi("read"), Kind: kind}
		reads = append(reads, x)
		return x
	}
	st := a.or.State()
	circ := blankApi("read")
	circ.Fin = int(st.LatestProcessedSlot) + blocks + r.Intn(60-blocks)
	c := a.c
	c.Finalized, c.SyncDist, c.ExecSyncing = circ.Fin, []int{0, 1, 2, 40}[r.Intn(4)], r.Intn(4) == 0
	c.Quiet = r.Intn(2) == 0
	circ.Sync, circ.Esync, circ.Dry = c.SyncDist, c.ExecSyncing, a.dry
	a.contract(&circ)
	circ.Same = true
	c.Logs, c.Head = nil, st.LatestProcessedBlock+300
	a.f.on = false
	count := 2 + r.Intn(5)
	for i := 0; i < count; i++ {
		switch x := r.Intn(20); {
		case x < 3:
			l := begin("snapshot")
			a.reader(s, l, ends, func() interface{} { return a.or.StateSnapshot() }, nil)
		case x < 7:
			l := begin("hash")
			a.reader(s, l, ends, func() interface{} {
				x, err := a.or.StateWithHash()
				if err != nil {
					world.Fails("StateWithHash: " + err.Error())
				}
				return x
			}, func(x interface{}) {
				raw, err := json.MarshalIndent(x, "", " ")
				if err != nil {
					panic(err)
				}
				ends.add(func() { l.Load, l.Ldig, l.Msg = a.load(raw) })
			})
		case x < 9:
			l := begin("commit")
			a.reader(s, l, ends, func() interface{} {
				x := a.or.LatestCommitedState()
				if x == nil {
					return nil
				}
				return x
			}, nil)
		case x < 10:
			l := begin("slot")
			a.reader(s, l, nil, func() interface{} {
				sl, found := a.or.LatestCommitedSlot()
				l.Slot, l.Found = int(sl), found
				return nil
			}, nil)
		case x < 11:
			l := begin("ckpt")
			a.reader(s, l, nil, func() interface{} {
				is, err := a.or.IsCheckpoint()
				if err != nil {
					world.Fails("IsCheckpoint: " + err.Error())
				}
				l.Found = is
				return nil
			}, nil)
		case x < 14:
			l := begin("save")
			l.Fault = r.Intn(4) == 0
			t := s.add("save", nil)
			t.f = func() {
				l.From = int(a.over.Load())
				l.Out, l.Msg = part(t, func() error { return a.or.SaveToJson(false) })
				if l.Out == "ok" {
					raw, err := os.ReadFile(filepath.Join(oracle.StateFolder, oracle.StateJsonName))
					if err != nil {
						panic(err)
					}
					ends.add(func() { l.Load, l.Ldig, l.Msg = a.load(raw) })
				}
				l.To = int(a.started.Load())
			}
			if l.Fault {
				left := r.Intn(6)
				prev := s.fsErr
				s.fsErr = func(x *ctask, op, p, p2 string) syscall.Errno {
					if x == t {
						if left--; left == -1 {
							return []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EMFILE}[len(op)%3]
						}
						return 0
					}
					if prev != nil {
						return prev(x, op, p, p2)
					}
					return 0
				}
			}
		default:
			l := begin("http")
			l.apiLine = circ
			l.Ep = endpoints[r.Intn(len(endpoints))]
			for l.Ep == "relays" {
				l.Ep = endpoints[r.Intn(len(endpoints))]
			}
			if r.Intn(3) == 0 {
				l.Ep = []string{"state", "state", "statistics", "statistics", "validators", "all"}[r.Intn(6)]
			}
			l.Ev = "read"
			a.aim(&l.apiLine)
			t := s.add("http "+l.Ep, nil)
			t.http = true
			t.f = func() {
				l.From = int(a.over.Load())
				var raw []byte
				t.active.Store(true)
				raw = a.get(&l.apiLine)
				t.active.Store(false)
				l.To = int(a.started.Load())
				l.Out = "ok"
				if l.Ep == "state" && l.Code == 200 {
					l.Body = []int{}
					ends.add(func() { l.Load, l.Ldig, l.Msg = a.load(raw) })
				}
			}
		}
	}
	// another task may be the first to come to a lock
	r.Shuffle(len(s.tasks), func(i, j int) { s.tasks[i], s.tasks[j] = s.tasks[j], s.tasks[i] })

	first := a.digest()
	s.look = stateOf(a.or)
	stuck := s.run()
	a.counts["rounds"]++
	a.counts["turns"] += s.steps
	a.counts["lost"] += s.lost
	if len(s.wild) > 0 {
		a.tr.Emit(map[string]interface{}{"ev": "wild", "who": strings.Join(s.wild, "; ")})
		a.counts["wild"]++
	}
	if s.broken { // what is still running is left alone
		a.dead = true
		a.counts["broken"]++
		return
	}
	if stuck != nil {
		a.dead = true
		a.tr.Emit(map[string]interface{}{"ev": "deadlock", "stuck": strings.Join(stuck, "; ")})
		a.counts["deadlock"]++
		return
	}
	for _, t := range s.tasks {
		a.keep(t)
	}
	if a.dead {
		return
	}
	for _, f := range ends.l {
		f()
	}
	a.tr.Emit(map[string]interface{}{"ev": "round", "dig": first.Dig, "cdig": first.Cdig, "csl": first.Csl})
	for _, l := range a.lines {
		a.tr.Emit(l)
		if b, ok := l.(blockLine); ok && b.Out == "ok" && !b.B.Missed {
			x := b.B
			a.last = &x
		}
	}
	don := []string{}
	for _, d := range a.or.State().Donations {
		don = append(don, strings.ToLower(d.Raw.TxHash.Hex()))
	}
	for _, x := range reads {
		x.DonTx = don
		a.counts["read:"+x.Kind]++
		if x.Kind == "http" {
			a.counts["ep:"+x.Ep]++
			a.counts[fmt.Sprintf("code:%d", x.Code)]++
		}
		a.counts[fmt.Sprintf("span:%d", x.To-x.From)]++
		a.tr.Emit(x)
	}
}

// stateOf looks at the state of an oracle without its locks.
func stateOf(or *oracle.Oracle) func() string {
	st := or.State()
	at := &st
	v := reflect.ValueOf(or).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(st) && f.Pointer() == reflect.ValueOf(st).Pointer() {
			at = (**oracle.OracleState)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return func() string { return world.Digest(*at) }
}

// reader is a task that reads something.
func (a *conc) reader(s *sched, l *concRead, ends *laters, f func() interface{}, more func(interface{})) {
	t := s.add(l.Kind, nil)
	t.f = func() {
		var x interface{}
		l.From = int(a.over.Load())
		l.Out, l.Msg = part(t, func() error { x = f(); return nil })
		l.To = int(a.started.Load())
		dig := func() string {
			if x == nil {
				return "none"
			}
			return world.Digest(x, "StateHash")
		}
		l.Dig = dig()
		if more != nil && l.Out == "ok" {
			more(x)
		}
		if ends != nil {
			ends.add(func() { l.End = dig() })
		}
	}
}

// keep remembers the order in which a task took its locks.
func (a *conc) keep(t *ctask) {
	if len(t.prog) == 0 || t.state != tDone {
		return
	}
	// what is repeated says nothing new
	seen, p := map[string]bool{}, []lockStep{}
	depth, from := 0, 0
	for i, x := range t.prog {
		if strings.HasSuffix(x.Op, "unlock") || x.Op == "runlock" {
			depth--
		} else {
			depth++
		}
		if depth == 0 {
			k := fmt.Sprint(t.prog[from : i+1])
			if !seen[k] {
				seen[k] = true
				p = append(p, t.prog[from:i+1]...)
			}
			from = i + 1
		}
	}
	p = append(p, t.prog[from:]...)
	if len(p) > 40 {
		p = p[:40]
	}
	name := strings.Fields(t.name)[0]
	a.progs[fmt.Sprint(p)] = map[string]interface{}{"name": name, "ops": p}
}
