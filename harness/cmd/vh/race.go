package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/oracle"
	log "github.com/sirupsen/logrus"
)

// race: the main loop, saves, readers and requests together without a scheduler, in a program built with the race
// detector: what two of them touch has to be ordered by something, for the operations to be atomic at all.

func init() { cmds["race"] = raceCmd }

const theRepo = "github.com/dappnode/mev-sp-oracle/"

func raceCmd() map[string]interface{} {
	if os.Getenv("VERIF_RACING") == "" {
		return raceParent()
	}
	addBuilders()
	log.SetLevel(log.PanicLevel) // a log line is a meeting point
	a := &conc1{}
	a.apiRun = apiRun{tr: world.NewTrace(*out), counts: map[string]int{}, next: *apiPort, rl: newRelays(), cl: apiClient(), still: true}
	oracle.StateFolder = *out + ".state"
	defer os.RemoveAll(oracle.StateFolder)
	h := 0
	for ops := 0; ops < *steps; h++ {
		os.RemoveAll(oracle.StateFolder)
		ops += a.history(*seed*5_000_011 + int64(h))
	}
	a.counts["histories"] = h
	a.tr.Close()
	return map[string]interface{}{"counts": a.counts, "traces": h, "lines": a.tr.N, "sample": 3}
}

// raceParent runs this program again, so that the reports go to a file, and puts them in the trace.
func raceParent() map[string]interface{} {
	logs := *out + ".race"
	c := exec.Command(os.Args[0], append([]string{"race"}, os.Args[1:]...)...)
	c.Env = append(os.Environ(), "VERIF_RACING=1", "GORACE=exitcode=0 halt_on_error=0 history_size=4 log_path="+logs)
	c.Stderr = os.Stderr
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	raw, err := c.Output()
	if err != nil {
		os.Stdout.Write(raw)
		os.Exit(c.ProcessState.ExitCode())
	}
	lines := strings.Split(strings.TrimSpace(string(raw)), "\n")
	info := map[string]interface{}{}
	if err := json.Unmarshal([]byte(lines[len(lines)-1]), &info); err != nil {
		panic(err)
	}
	seen, total := map[string]bool{}, 0
	files, _ := filepath.Glob(logs + ".*")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		os.Remove(f)
		n, found := raceReports(string(b))
		total += n
		for _, x := range found {
			seen[x] = true
		}
	}
	f, err := os.OpenFile(*out, os.O_APPEND|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	list := []string{}
	for x := range seen {
		list = append(list, x)
	}
	sort.Strings(list)
	for _, x := range list {
		l, _ := json.Marshal(map[string]interface{}{"ev": "race", "who": x})
		f.Write(append(l, '\n'))
	}
	n := info["counts"].(map[string]interface{})
	n["reports"], n["races"] = total, len(list)
	return info
}

var frameRe = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n`)

// raceReports: those whose two accesses are both the program's own, or of one who uses what it has given out.
func raceReports(s string) (n int, found []string) {
	for _, r := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		n++
		parts := strings.Split(r, "\n\n")
		if len(parts) < 2 {
			continue
		}
		who := []string{}
		for _, p := range parts[:2] {
			for _, m := range frameRe.FindAllStringSubmatch(p, -1) {
				f := m[1]
				if strings.HasPrefix(f, theRepo) || strings.HasPrefix(f, "main.useOf") {
					who = append(who, strings.TrimPrefix(f, theRepo))
					break
				}
				if strings.HasPrefix(f, "verifharness/") || strings.HasPrefix(f, "main.") {
					break
				}
			}
		}
		if len(who) == 2 {
			sort.Strings(who)
			found = append(found, who[0]+" and "+who[1])
		}
	}
	return
}

// useOf reads all of what a reader got, as one does that was given it.
func useOf(x interface{}) { json.NewEncoder(io.Discard).Encode(x) }

type conc1 struct{ apiRun }

func (a *conc1) history(seed int64) (ops int) {
	m := world.Modes["api"]
	defer a.setup(seed, m)()
	g, r := a.g, a.r
	or, oc := a.or, a.oc
	c := a.c
	for k := 0; k < 4; k++ {
		b, env := g.Next()
		g.N.Step(b, env)
		if g.N.Or != or {
			return 1
		}
	}
	or.StateWithHash()
	a.f.on = false
	rounds := 3 + r.Intn(6)
	for k := 0; k < rounds; k++ {
		circ := blankApi("read")
		c.Finalized, c.SyncDist = int(or.State().LatestProcessedSlot)+20, 0
		a.contract(&circ)
		c.Logs, c.Head = nil, or.State().LatestProcessedBlock+300
		var stop atomic.Bool
		var wg sync.WaitGroup
		counts := make([]int, 12)
		reader := func(i int, f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stop.Load() {
					f()
					counts[i]++
					time.Sleep(time.Duration(50+i*13) * time.Microsecond)
				}
			}()
		}
		reader(0, func() { useOf(or.StateSnapshot()) })
		reader(1, func() {
			x, err := or.StateWithHash()
			if err == nil {
				useOf(x)
			}
		})
		reader(2, func() { useOf(or.LatestCommitedState()) })
		reader(3, func() { or.LatestCommitedSlot(); or.IsCheckpoint() })
		reader(4, func() { or.SaveToJson(false); time.Sleep(3 * time.Millisecond) })
		for i := 5; i < 8; i++ {
			urls := []string{}
			for j := 0; j < 20; j++ {
				l := circ
				for l.Ep = endpoints[r.Intn(len(endpoints))]; l.Ep == "relays"; l.Ep = endpoints[r.Intn(len(endpoints))] {
				}
				a.aim(&l)
				urls = append(urls, a.url+l.Url)
			}
			n := 0
			reader(i, func() {
				resp, err := a.cl.Get(urls[n%len(urls)])
				n++
				if err == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
			})
		}
		for j := 0; j < 8; j++ {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			ops++
			switch x := r.Intn(12); {
			case x < 7:
				b, env := g.Next()
				line := g.N.Step(b, env)
				a.counts["block:"+line.Out]++
				if g.N.Or != or || line.St.Negative() {
					stop.Store(true)
					return // what is blocked now stays blocked
				}
			case x < 10:
				or.FreezeCheckpoint()
				a.counts["freeze"]++
			case x < 11:
				or.SaveToJson(true)
			default:
				oc.RefreshBeaconValidators()
				or.GetUniqueWithdrawalAddresses()
				or.RunOffchainReconciliation()
			}
		}
		stop.Store(true)
		wg.Wait()
		for i, n := range counts {
			if n > 0 {
				a.counts[fmt.Sprintf("reader%d", i)] += n
			}
		}
	}
	return
}
