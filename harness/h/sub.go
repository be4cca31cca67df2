package h

import (
	"fmt"
	"math/rand"
	"runtime/debug"
)

// SubFailure is one failed case of another check.
type SubFailure struct{ Case, Msg string }

// Sub runs cases of another check inside the current one, possibly on several
// goroutines at once, each with a context of its own. Only cases for which pick
// answers true run; pick is given the case's number and name.
func (c *Ctx) Sub(p *Prop, pick func(i int, name string) bool) (fails []SubFailure, ran int) {
	s := &Ctx{Prop: p, Seed: c.Seed, Tier: c.Tier, distinct: map[uint64]struct{}{}, counters: map[string]int64{},
		known: map[string]string{}, knownHit: map[string]bool{}, require: map[string]int64{}, maxViol: 1 << 30, pick: pick}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); !ok {
					s.viol = append(s.viol, violation{Case: s.curCase, Msg: fmt.Sprintf("%v\n%s", r, debug.Stack())})
				}
			}
		}()
		p.Run(s)
	}()
	for _, v := range s.viol {
		fails = append(fails, SubFailure{v.Case, v.Msg})
	}
	c.mu.Lock()
	for k, n := range s.counters {
		c.counters[p.ID+"."+k] += n
	}
	c.mu.Unlock()
	return fails, s.ran
}

// Stop ends a run started by Sub from inside pick.
func Stop() { panic(stopRun{}) }

func (c *Ctx) subCase(name string, f func(r *rand.Rand)) {
	i := c.npick
	c.npick++
	if !c.pick(i, name) {
		return
	}
	c.ran++
	c.curCase = name
	c.log = c.log[:0]
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case caseAbort:
			case StepBudget:
				c.record("nontermination", "step budget exceeded")
			default:
				// Whoever is to blame, the same case is run again alone.
				c.record("panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack()))))
			}
		}
	}()
	f(c.Rng(name))
}
