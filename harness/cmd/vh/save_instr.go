//go:build instr

package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

func init() { cmds["save"] = saveCmd }

// ---- file system calls below one folder ---------------------------------------------------------

type fsOp struct {
	Op    string `json:"op"`
	Fd    int    `json:"fd"`
	Name  string `json:"name"`
	Name2 string `json:"name2"`
	N     int    `json:"n"` // bytes, or length for truncations
	Trunc bool   `json:"trunc"`
	Creat bool   `json:"creat"`
	Write bool   `json:"write"`
	App   bool   `json:"app"`
}

// fault: what happens at the At-th operation (from 0; -1 never)
type fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // "none", "die", "dieafter", "partdie", "full", "err"
	Lim  int    `json:"lim"`
}

type fsWatch struct {
	dir  string
	fds  map[int]string
	ops  []fsOp
	f    fault
	full bool
	died chan struct{}
}

var theWatch, dying atomic.Pointer[fsWatch]

func (w *fsWatch) rel(p string) (string, bool) {
	if !filepath.IsAbs(p) {
		wd, _ := os.Getwd()
		p = filepath.Join(wd, p)
	}
	if p == w.dir {
		return ".", true
	}
	if strings.HasPrefix(p, w.dir+"/") {
		return p[len(w.dir)+1:], true
	}
	return "", false
}

func installFS() {
	syscall.VerifDead = func() {
		if w := dying.Swap(nil); w != nil {
			close(w.died)
		}
	}
	syscall.VerifOpened = func(fd int, path string, flags int) {
		if w := theWatch.Load(); w != nil {
			if n, in := w.rel(path); in {
				w.fds[fd] = n
				if len(w.ops) > 0 && w.ops[len(w.ops)-1].Op == "open" && w.ops[len(w.ops)-1].Name == n {
					w.ops[len(w.ops)-1].Fd = fd
				}
			}
		}
	}
	syscall.VerifFS = func(op string, fd int, path, path2 string, n int) (int, int, syscall.Errno) {
		w := theWatch.Load()
		if w == nil {
			return 0, 0, 0
		}
		o := fsOp{Op: op, Fd: fd, N: n}
		if path != "" {
			name, in := w.rel(path)
			if !in {
				return 0, 0, 0
			}
			o.Name = name
			if path2 != "" {
				o.Name2, _ = w.rel(path2)
			}
			if op == "open" {
				o.Trunc, o.Creat = n&syscall.O_TRUNC != 0, n&syscall.O_CREAT != 0
				o.Write, o.App = n&(syscall.O_WRONLY|syscall.O_RDWR) != 0, n&syscall.O_APPEND != 0
				o.N = 0
			}
		} else {
			name, in := w.fds[fd]
			if !in {
				return 0, 0, 0
			}
			o.Name = name
			if op == "close" {
				delete(w.fds, fd)
			}
		}
		k := len(w.ops)
		die := func() { // nothing of what others do from now on is watched
			theWatch.Store(nil)
			dying.Store(w)
		}
		needs := op == "write" || op == "mkdir" || (op == "open" && o.Creat) || op == "fsync"
		if w.full && needs {
			return 1, 0, syscall.ENOSPC
		}
		if k == w.f.At {
			switch w.f.Kind {
			case "die":
				die()
				return 3, 0, 0
			case "dieafter":
				w.ops = append(w.ops, o)
				die()
				return 5, 0, 0
			case "partdie":
				if op == "write" && w.f.Lim < n {
					o.N = w.f.Lim
					w.ops = append(w.ops, o)
					die()
					return 4, w.f.Lim, 0
				}
			case "full":
				w.full = true
				if op == "write" && w.f.Lim > 0 && w.f.Lim < n {
					o.N = w.f.Lim
					w.ops = append(w.ops, o)
					return 2, w.f.Lim, 0
				}
				if needs {
					return 1, 0, syscall.ENOSPC
				}
			case "err":
				w.f.At = -1
				return 1, 0, syscall.EIO
			}
		}
		w.ops = append(w.ops, o)
		return 0, 0, 0
	}
}

// ---- the driver ---------------------------------------------------------------------------------

type sfile struct {
	Name string `json:"name"`
	Id   string `json:"id"`
	Size int    `json:"size"`
}

type sload struct {
	Out   string `json:"out"`
	Found bool   `json:"found"`
	Dig   string `json:"dig"`
}

type saveLine struct {
	Ev     string  `json:"ev"`
	Slot   uint64  `json:"slot"`
	Both   bool    `json:"both"`
	Fault  fault   `json:"fault"`
	Ops    []fsOp  `json:"ops"`
	Out    string  `json:"out"` // ok, err, fatal, panic, die, hang
	Msg    string  `json:"msg"`
	Before []sfile `json:"before"`
	After  []sfile `json:"after"`
	New    string  `json:"new"` // content of a complete save
	Size   int     `json:"size"`
	Mem0   string  `json:"mem0"`
	Mem1   string  `json:"mem1"`
	OldDig string  `json:"oldDig"` // state in state.json before ("" if there is none)
	Load   sload   `json:"load"`   // a new process, after a crash
	LoadS  sload   `json:"loadS"`  // the same from state_<slot>.json
	OldS   string  `json:"oldS"`
	Again  string  `json:"again"` // saving once more, without faults
	AgainF []sfile `json:"againF"`
	AgainN string  `json:"againN"`
}

func contentId(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:20] }

func listDir(dir string) []sfile {
	out := []sfile{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err == nil {
			out = append(out, sfile{e.Name(), contentId(b), len(b)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// guarded runs f in another goroutine; "die" if the watch killed it, "hang" if it does not come back.
func guarded(w *fsWatch, f func() error) (string, string) {
	type res struct{ out, msg string }
	done := make(chan res, 1)
	var died chan struct{}
	if w != nil {
		died = w.died
		theWatch.Store(w)
	}
	go func() {
		o, m := world.Try(f)
		done <- res{o, m}
	}()
	defer theWatch.Store(nil)
	select {
	case r := <-done:
		return r.out, r.msg
	case <-died:
		return "die", ""
	case <-time.After(10 * time.Second):
		return "hang", ""
	}
}

func memDig(or *oracle.Oracle) string { return world.Digest(or.State(), "StateHash") }

func saveCmd() map[string]interface{} {
	installFS()
	m := world.Base
	addBuilders()
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	base, err := os.MkdirTemp("", "vhsave")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	base, _ = filepath.EvalSymlinks(base)
	h := 0
	for tr.N < *steps {
		g := world.NewGen(*seed*9_000_011+int64(h), m)
		h++
		r := g.R
		g.N.Ckpt = uint64(2 + r.Intn(4))
		g.N.Fresh()
		walk := func(k int) {
			for ; k > 0; k-- {
				b, env := g.Next()
				l := g.N.Step(b, env)
				if l.Ok {
					if c, err := g.N.Or.IsCheckpoint(); err == nil && c {
						g.N.Or.FreezeCheckpoint()
					}
				}
			}
		}
		write := func(slotToo bool) ([]byte, string) { // a complete save of the present state
			d := filepath.Join(base, "clean")
			os.RemoveAll(d)
			oracle.StateFolder = d
			if err := g.N.Or.SaveToJson(slotToo); err != nil {
				panic(err)
			}
			b, err := os.ReadFile(filepath.Join(d, oracle.StateJsonName))
			if err != nil {
				panic(err)
			}
			return b, memDig(g.N.Or)
		}
		walk(1 + r.Intn(12))
		first, firstDig := write(false)
		slotFirst, stFirst := g.N.Or.State().LatestProcessedSlot, world.Copy(g.N.Or.State())
		walk(r.Intn(10))
		old, oldDig := write(false)
		slotOld := g.N.Or.State().LatestProcessedSlot
		walk(r.Intn(10))
		now, nowDig := write(false)
		slot := g.N.Or.State().LatestProcessedSlot
		state := world.Copy(g.N.Or.State())
		cfg := *g.N.Cfg
		if r.Intn(3) == 0 && slotFirst < slot { // after a rollback: what is on disk is later, and bigger
			old, oldDig, slotOld = now, nowDig, slot
			now, nowDig, slot, state = first, firstDig, slotFirst, stFirst
			cfg.PoolFeesPercentOver10000 = state.PoolFeesPercentOver10000
			counts["rolledback"]++
		}

		both := r.Intn(3) > 0
		hasOld := r.Intn(5) > 0
		hasSlot := r.Intn(3)
		hasDir := hasOld || hasSlot > 0 || r.Intn(2) == 0
		run := func(f fault) *saveLine {
			d := filepath.Join(base, "run")
			os.RemoveAll(d)
			if hasDir {
				os.MkdirAll(d, 0755)
			}
			l := &saveLine{Ev: "save", Slot: slot, Both: both, Fault: f, New: contentId(now), Size: len(now), Mem0: nowDig, AgainF: []sfile{}}
			if hasOld {
				os.WriteFile(filepath.Join(d, oracle.StateJsonName), old, 0644)
				l.OldDig = oldDig
			}
			if hasSlot > 0 {
				os.WriteFile(filepath.Join(d, fmt.Sprintf("state_%d.json", slotOld)), old, 0644)
			}
			if hasSlot > 1 {
				os.WriteFile(filepath.Join(d, "state_1.json"), first, 0644)
			}
			if hasSlot > 0 && slotOld == slot {
				l.OldS = oldDig
			}
			l.Before = listDir(d)
			oracle.StateFolder = d
			g.N.Reset(state, &cfg)
			or := g.N.Or
			w := &fsWatch{dir: d, fds: map[int]string{}, f: f, died: make(chan struct{}), ops: []fsOp{}}
			l.Out, l.Msg = guarded(w, func() error { return or.SaveToJson(both) })
			l.Ops = w.ops
			l.After = listDir(d)
			alive := l.Out == "ok" || l.Out == "err"
			if alive {
				l.Mem1 = memDig(or)
			}
			// a new process reads what is there
			g.N.Fresh()
			nw := g.N.Or
			l.Load.Out, _ = guarded(nil, func() (err error) { l.Load.Found, err = nw.LoadFromJson(); return err })
			l.Load.Dig = memDig(nw)
			if both {
				g.N.Fresh()
				ns := g.N.Or
				l.LoadS.Out, _ = guarded(nil, func() (err error) {
					l.LoadS.Found, err = ns.LoadFromPath(filepath.Join(d, fmt.Sprintf("state_%d.json", slot)))
					return err
				})
				l.LoadS.Dig = memDig(ns)
			}
			// and saving goes on: the same process after an error, the new one after a crash
			if !alive {
				or = nw
			}
			var msg string
			l.Again, msg = guarded(nil, func() error { return or.SaveToJson(both) })
			if msg != "" {
				l.Msg += " / " + msg
			}
			l.AgainF = listDir(d)
			if b, err := os.ReadFile(filepath.Join(d, oracle.StateJsonName)); err == nil && l.Again == "ok" {
				l.AgainN = contentId(b)
				g.N.Fresh()
				l.Again = "ok"
				if o, m := world.Try(func() error { _, err := g.N.Or.LoadFromJson(); return err }); o != "ok" || memDig(g.N.Or) != memDig(or) {
					l.Again = "does not load back: " + m
				}
			}
			counts["out:"+f.Kind+":"+l.Out]++
			tr.Emit(l)
			return l
		}
		l := run(fault{At: -1, Kind: "none"})
		type opn struct {
			op string
			n  int
		}
		var shape []opn
		for _, o := range l.Ops {
			shape = append(shape, opn{o.Op, o.N})
		}
		for k, o := range shape {
			run(fault{At: k, Kind: "die"})
			run(fault{At: k, Kind: "dieafter"})
			run(fault{At: k, Kind: "err"})
			if o.op == "write" {
				for _, lim := range []int{0, 1, o.n / 2, o.n - 1} {
					run(fault{At: k, Kind: "partdie", Lim: lim})
				}
				for _, lim := range []int{0, 1 + r.Intn(o.n), o.n - 1} {
					run(fault{At: k, Kind: "full", Lim: lim})
				}
			} else if o.op == "open" || o.op == "mkdir" || o.op == "fsync" {
				run(fault{At: k, Kind: "full"})
			}
		}
		os.RemoveAll(filepath.Join(base, "run"))
	}
	counts["states"] = h
	counts["lines"] = tr.N
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": tr.N, "lines": tr.N, "sample": 1}
}
