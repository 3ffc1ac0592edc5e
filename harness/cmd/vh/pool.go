package main

import (
	"verifharness/world"

	"github.com/dappnode/mev-sp-oracle/oracle"
)

func init() { cmds["pool"] = poolCmd }

// poolCmd records long random histories of block processing.
func poolCmd() map[string]interface{} {
	m, ok := world.Modes[*mode]
	if !ok {
		m = world.Base
	}
	addBuilders()
	tr := world.NewTrace(*out)
	counts := map[string]int{}
	h := int64(0)
	for tr.N < *steps {
		g := world.NewGen(*seed*1_000_003+h, m)
		h++
		tr.Emit(g.N.InitLine())
		length := 15 + g.R.Intn(45)
		if m.Long > 0 {
			length = m.Long
			if *steps > length {
				length = *steps
			}
		}
		for i := 0; i < length; i++ {
			if g.R.Intn(100) < m.Clean && i > 3 {
				// go to just before a clean-up slot of the same era
				next := int(g.N.Or.State().NextSlotToProcess)
				g.Jump((next/1200+1)*1200 - g.R.Intn(2))
				tr.Emit(g.N.InitLine())
			} else if g.R.Intn(100) < 3 && g.Mark > int(g.N.Or.State().NextSlotToProcess) {
				g.Jump(g.Mark - g.R.Intn(2))
				tr.Emit(g.N.InitLine())
			}
			b, env := g.Next()
			line := g.N.Step(b, env)
			counts["out:"+line.Out]++
			tr.Emit(line)
			if line.St.Negative() {
				break // known finding prefork1-tiny: nothing to learn from what follows
			}
		}
		if s := g.N.Or.State(); m.Long > 0 {
			counts["list:missed"], counts["list:wrongfee"], counts["list:proposed"] = len(s.MissedBlocks), len(s.WrongFeeBlocks), len(s.ProposedBlocks)
			counts["list:donations"], counts["list:subs"], counts["list:unsubs"] = len(s.Donations), len(s.SubscriptionEvents), len(s.UnsubscriptionEvents)
		}
		for k, v := range g.Counts {
			counts[k] += v
		}
	}
	counts["histories"] = int(h)
	counts["lines"] = tr.N
	tr.Close()
	return map[string]interface{}{"counts": counts, "traces": h, "lines": tr.N}
}

// addBuilders adds an account of ours to the program's whitelist, keeping what is there.
func addBuilders() {
	addrs, _ := world.NewAccounts("builder", 1)
	world.ExtraBuilders = []string{addrs[0]}
	for chain, list := range oracle.WhitelistedBuilders {
		oracle.WhitelistedBuilders[chain] = append(append([]string{}, list...), addrs[0])
	}
}
