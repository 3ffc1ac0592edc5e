//go:build instr

package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	log "github.com/sirupsen/logrus"
)

// A cooperative scheduler: of the tasks (goroutines) it manages one runs at a time, from one point of interest
// to the next: before and after the locks of the program, where it writes a log line, where it asks its nodes, at
// file system calls.  Who goes on is decided here.  A writer may be made to wait inside a lock, so that later
// readers queue behind it, as they do in a real execution.

const (
	tNew = iota
	tReady
	tWant   // before a lock
	tInLock // waits in it
	tRunning
	tLost // blocked on something unknown
	tDone
)

type ctask struct {
	name    string
	f       func()
	http    bool
	resume  chan struct{}
	active  atomic.Bool // what it does is part of the operation
	adopted atomic.Bool
	held    atomic.Int32
	logging atomic.Bool // holds the logger
	state   int
	addr    uintptr // of the lock it wants
	read    bool
	prio    int
	rnd     uint32
	prog    []lockStep
}

type lockStep struct {
	Op string `json:"op"` // lock | unlock | rlock | runlock | mlock
	Lk string `json:"lk"`
}

type lockSt struct {
	writer  *ctask
	leaving *ctask // has released it, but has not told yet
	readers map[*ctask]int
	waiting int // writers in it
}

type schedEv struct {
	t    *ctask
	op   string
	addr uintptr
}

type gref struct {
	t    *ctask
	http bool
}

type sched struct {
	r       *rand.Rand
	tasks   []*ctask
	evs     chan schedEv
	offc    chan struct{}
	off     atomic.Bool
	gids    atomic.Pointer[map[uint64]gref]
	lk      chan struct{} // guards the writing of gids
	locks   map[uintptr]*lockSt
	cur     *ctask
	running atomic.Pointer[ctask]
	base    uintptr // the oracle
	size    uintptr
	lo, hi  uintptr // the logger
	stick   int
	byPrio  bool
	steps   int
	lost    int
	strays  atomic.Bool // a request that was lost: whose goroutine is whose is not known any more
	broken  bool        // the locks are not as they should be
	fsErr   func(t *ctask, op, path, path2 string) syscall.Errno
	look    func() string // what the tasks share
	seen    string        // as it was when somebody last had the right to change it
	stale   bool
	wild    []string // who changed it without that right
}

var theSched atomic.Pointer[sched]

func newSched(r *rand.Rand, or interface{}) *sched {
	v := reflect.ValueOf(or)
	l := reflect.ValueOf(log.StandardLogger())
	s := &sched{r: r, evs: make(chan schedEv, 64), offc: make(chan struct{}), lk: make(chan struct{}, 1), locks: map[uintptr]*lockSt{},
		base: v.Pointer(), size: v.Elem().Type().Size(), lo: l.Pointer(), hi: l.Pointer() + l.Elem().Type().Size(),
		stick: []int{0, 30, 60, 90}[r.Intn(4)], byPrio: r.Intn(3) == 0}
	s.gids.Store(&map[uint64]gref{})
	return s
}

func (s *sched) add(name string, f func()) *ctask {
	t := &ctask{name: name, f: f, resume: make(chan struct{}), prio: s.r.Intn(1000), rnd: s.r.Uint32() | 1}
	s.tasks = append(s.tasks, t)
	return t
}

func (s *sched) setGid(g uint64, x gref, del bool) {
	s.lk <- struct{}{}
	m := map[uint64]gref{}
	for k, v := range *s.gids.Load() {
		m[k] = v
	}
	if del {
		delete(m, g)
	} else {
		m[g] = x
	}
	s.gids.Store(&m)
	<-s.lk
}

const repoPkg = "github.com/dappnode/mev-sp-oracle"

// fromRepo: is the lock operation made by the program itself?
func fromRepo() bool {
	var pcs [8]uintptr
	n := runtime.Callers(4, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "sync.") {
			return strings.HasPrefix(f.Function, repoPkg)
		}
		if !more {
			return false
		}
	}
}

func (s *sched) hook(p unsafe.Pointer, op string) {
	if s.off.Load() {
		return
	}
	a := uintptr(p)
	ref, known := (*s.gids.Load())[runtime.VerifGoid()]
	inOr := a >= s.base && a < s.base+s.size
	isLog := a >= s.lo && a < s.hi
	if !known {
		t := s.running.Load()
		if t == nil || !t.http || t.adopted.Load() || s.strays.Load() || op == "p.Get" || isLog || !t.active.Load() {
			return
		}
		if !inOr && !fromRepo() {
			return
		}
		t.adopted.Store(true)
		ref = gref{t, true}
		s.setGid(runtime.VerifGoid(), ref, false)
	}
	t := ref.t
	if t.http && !ref.http {
		return
	}
	active := t.active.Load()
	switch {
	case !active && (op == "p.Get" || isLog) || op == "p.Get" && t.logging.Load(): // between the operations only the locks matter
		return
	case op == "p.Get":
		t.rnd ^= t.rnd << 13
		t.rnd ^= t.rnd >> 17
		t.rnd ^= t.rnd << 5
		if t.http && t.held.Load() == 0 || t.rnd%16 > 0 {
			return
		}
		op = "yield"
	case isLog:
		t.logging.Store(op == "m.Lock")
		if op != "m.Lock?" {
			return
		}
		op = "yield"
	case !inOr && !fromRepo():
		return
	case strings.HasSuffix(op, "?"):
	case strings.HasSuffix(op, "Unlock"):
		t.held.Add(-1)
	default:
		t.held.Add(1)
	}
	s.park(t, op, a)
}

// park stops the calling goroutine until it is its turn.
func (s *sched) park(t *ctask, op string, a uintptr) {
	select {
	case s.evs <- schedEv{t, op, a}:
	case <-s.offc:
		return
	}
	select {
	case <-t.resume:
	case <-s.offc:
	}
}

// yield is a point of interest elsewhere.
func (s *sched) yield() {
	if ref, ok := (*s.gids.Load())[runtime.VerifGoid()]; ok && ref.t.active.Load() && !s.off.Load() {
		s.park(ref.t, "yield", 0)
	}
}

func (s *sched) lockAt(a uintptr) *lockSt {
	l := s.locks[a]
	if l == nil {
		l = &lockSt{readers: map[*ctask]int{}}
		s.locks[a] = l
	}
	return l
}

func (l *lockSt) free() bool { return l.writer == nil && len(l.readers) == 0 }

func (s *sched) grantable(t *ctask) bool {
	l := s.lockAt(t.addr)
	if t.read {
		return l.writer == nil && l.waiting == 0
	}
	return l.free()
}

func (s *sched) handle(e schedEv) {
	t := e.t
	switch e.op {
	case "yield":
		t.state = tReady
	case "done":
		t.state = tDone
	case "m.Lock?", "rw.Lock?", "rw.RLock?":
		t.state, t.addr, t.read = tWant, e.addr, e.op == "rw.RLock?"
		if e.op == "m.Lock?" {
			t.state = tWant
		}
	default:
		l := s.lockAt(e.addr)
		was := t.state
		t.state = tReady
		lk := s.name(e.addr)
		switch e.op {
		case "m.Lock", "rw.Lock", "m.TryLock", "rw.TryLock":
			if was == tInLock {
				l.waiting--
			}
			l.leaving, l.writer = l.writer, t
			t.prog = append(t.prog, lockStep{"lock", lk})
		case "rw.RLock", "rw.TryRLock":
			l.readers[t]++
			t.prog = append(t.prog, lockStep{"rlock", lk})
		case "m.Unlock", "rw.Unlock":
			if l.leaving == t { // the next writer was told of first
				l.leaving = nil
			} else {
				l.writer = nil
			}
			t.prog = append(t.prog, lockStep{"unlock", lk})
		case "rw.RUnlock":
			x := t
			if l.readers[t] == 0 {
				for y := range l.readers {
					x = y
				}
			}
			if l.readers[x]--; l.readers[x] <= 0 {
				delete(l.readers, x)
			}
			t.prog = append(t.prog, lockStep{"runlock", lk})
		}
	}
}

func (s *sched) name(a uintptr) string {
	if a >= s.base && a < s.base+s.size {
		return "oracle+" + itoa(int(a-s.base))
	}
	return "other"
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func (s *sched) start(t *ctask) {
	ready := make(chan struct{})
	go func() {
		g := runtime.VerifGoid()
		s.setGid(g, gref{t, false}, false)
		close(ready)
		<-t.resume
		t.f()
		t.active.Store(false)
		select {
		case s.evs <- schedEv{t, "done", 0}:
		case <-s.offc:
		}
	}()
	<-ready
}

// await takes events until a task stops running.
func (s *sched) await(t *ctask, d time.Duration) bool {
	for t.state == tRunning {
		select {
		case e := <-s.evs:
			s.handle(e)
		case <-time.After(d):
			return false
		}
	}
	return true
}

// inlock: a writer that waits in a lock which is now free will come out of it by itself.
func (s *sched) settle() {
	for {
		wait := false
		for _, t := range s.tasks {
			if t.state == tInLock && s.lockAt(t.addr).free() {
				wait = true
			}
		}
		if !wait {
			return
		}
		select {
		case e := <-s.evs:
			s.handle(e)
		case <-time.After(10 * time.Second):
			s.broken = true
			return
		}
	}
}

// owns: does the task hold a lock that keeps everybody else out?
func (s *sched) owns(t *ctask) bool {
	for _, l := range s.locks {
		if l.writer == t || l.leaving == t {
			return true
		}
	}
	return false
}

// watch tells, before a task goes on, what to do when it stops again: if it holds no lock for writing, and nobody
// else is running, what the tasks share has to be as it was.
func (s *sched) watch(t *ctask) func() {
	if s.look == nil {
		return func() {}
	}
	if s.owns(t) {
		s.stale = true
		return func() {}
	}
	for _, x := range s.tasks {
		if x.state == tLost {
			s.stale = true
			return func() {}
		}
	}
	if s.stale {
		s.seen, s.stale = s.look(), false
	}
	held := "no lock"
	for a, l := range s.locks {
		if l.readers[t] > 0 {
			held = "a read lock of " + s.name(a)
		}
	}
	return func() {
		if t.state == tLost || s.stale {
			s.stale = true
			return
		}
		if now := s.look(); now != s.seen {
			s.wild = append(s.wild, t.name+" held "+held)
			s.seen = now
		}
	}
}

// run runs the tasks to their end.  It returns who is stuck.
func (s *sched) run() (stuck []string) {
	theSched.Store(s)
	defer func() {
		s.off.Store(true)
		close(s.offc)
		theSched.CompareAndSwap(s, nil)
	}()
	s.stale = true
	for {
		s.settle()
		if s.broken {
			return nil
		}
		for more := true; more; { // of those that were lost
			select {
			case e := <-s.evs:
				s.handle(e)
			default:
				more = false
			}
		}
		en, all, unknown := []*ctask{}, true, false
		for _, t := range s.tasks {
			switch t.state {
			case tNew, tReady:
				en = append(en, t)
			case tWant:
				l := s.lockAt(t.addr)
				// a writer may be made to wait where readers are
				if s.grantable(t) || !t.read && l.writer == nil && len(l.readers) > 0 {
					en = append(en, t)
				}
			case tLost, tRunning:
				unknown = true
			}
			all = all && t.state == tDone
		}
		if all {
			return nil
		}
		if len(en) == 0 {
			if unknown {
				select {
				case e := <-s.evs:
					s.handle(e)
					continue
				case <-time.After(20 * time.Second):
				}
			}
			for _, t := range s.tasks {
				if t.state != tDone {
					x := t.name + ": " + []string{"new", "ready", "waits for", "in", "runs", "does not answer"}[t.state]
					if t.state == tWant || t.state == tInLock {
						x += " " + s.name(t.addr)
					}
					stuck = append(stuck, x)
				}
			}
			return stuck
		}
		t := s.pick(en)
		s.cur = t
		s.steps++
		switch {
		case t.state == tWant && !s.grantable(t):
			t.state = tInLock
			s.lockAt(t.addr).waiting++
			s.running.Store(nil)
			t.resume <- struct{}{}
			continue
		case t.state == tNew:
			s.start(t)
		}
		after := s.watch(t)
		t.state = tRunning
		s.running.Store(t)
		t.resume <- struct{}{}
		d := 5 * time.Second
		if t.http {
			d = 30 * time.Second
		}
		if !s.await(t, d) {
			t.state = tLost
			if t.http {
				s.strays.Store(true)
			}
			s.lost++
			if os.Getenv("VERIF_LOST") != "" {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "LOST %s\n%s\n", t.name, buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
		s.running.Store(nil)
		after()
	}
}

func (s *sched) pick(en []*ctask) *ctask {
	if s.byPrio {
		if s.cur != nil && s.r.Intn(12) == 0 {
			s.cur.prio = -s.steps
		}
		best := en[0]
		for _, t := range en {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	for _, t := range en {
		if t == s.cur && s.r.Intn(100) < s.stick {
			return t
		}
	}
	return en[s.r.Intn(len(en))]
}

func installSched() {
	sync.VerifLock = func(p unsafe.Pointer, op string) {
		if s := theSched.Load(); s != nil {
			s.hook(p, op)
		}
	}
	syscall.VerifFS = func(op string, fd int, path, path2 string, n int) (int, int, syscall.Errno) {
		s := theSched.Load()
		if s == nil || s.off.Load() {
			return 0, 0, 0
		}
		ref, ok := (*s.gids.Load())[runtime.VerifGoid()]
		if !ok || !ref.t.active.Load() || ref.t.http {
			return 0, 0, 0
		}
		s.park(ref.t, "yield", 0)
		if s.fsErr != nil {
			if e := s.fsErr(ref.t, op, path, path2); e != 0 {
				return 1, 0, e
			}
		}
		return 0, 0, 0
	}
}
