//go:build go1.25

package sim

import "time"

func init() {
	register(&Scenario{
		Name: "net",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 2 + r.N(2)
			p.Chains = 1 + r.N(2)
			p.ShardSize = 1 << r.N(2)
			if p.Chains*p.ShardSize < 2 {
				p.ShardSize = 2
			}
			p.Slaves = 1 + r.N(2)
			p.RootFactor = uint32(2 + r.N(8))
			if r.Pct(25) {
				p.LateShard, p.Slaves = uint32(1+r.N(4)), 1 // a process must start with a shard to run
			}
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(30), map[string]int{"minor": 8, "minors": 4, "root": 8, "tx": 3, "burst": 3, "stall": 2, "heal": 2, "cut": 1, "join": 2, "adv": 2, "leap": 1, "slow": 1, "clock": 1, "check": 3})
		},
		Setup: joinAll,
		End:   endConverge,
	})
}

func joinAll(run *Run) {
	for _, p := range run.W.pairs() {
		run.W.Connect(p[0], p[1])
	}
	run.W.Settle(time.Minute)
}

// endConverge ends every fault and asks for agreement and progress.
func endConverge(run *Run) {
	w := run.W
	w.Net.SlowPct, w.Net.P2PSlow, w.Net.OneShot = 0, 0, nil
	for _, c := range w.Clusters {
		for _, n := range c.Nodes() {
			for _, d := range n.Disks {
				d.CrashAt, d.ErrAt = 0, 0
			}
		}
	}
	r := NewRng(Mix(run.C.Seed, 91))
	run.clocksRight()
	opHeal(run, r, 0)
	opBoot(run, r, 0)
	joinAll(run)
	run.settle()
	run.agree("after the faults")
	run.checkAll()
}
