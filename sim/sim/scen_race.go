//go:build go1.25

package sim

import "time"

// "race": clusters that cannot hear each other mine at different speeds, so
// that the heavier chain need not be the longer one, and go on mining while
// they catch up with each other.
func init() {
	commonOps["race"] = opRace
	register(&Scenario{
		Name: "race",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 2 + r.N(2)
			p.Chains = 1
			p.ShardSize = 2
			p.Slaves = 1 + r.N(2)
			p.RootFactor = uint32(2 + r.N(5))
			if r.Pct(25) {
				p.LateShard, p.Slaves = uint32(1+r.N(4)), 1 // a process must start with a shard to run
			}
		},
		Gen: func(r *Rng) []Op {
			ops := weighted(r, 5+r.N(14), map[string]int{"minor": 6, "minors": 3, "root": 4, "tx": 1, "race": 6, "burst": 1, "join": 1, "cut": 1, "slow": 1, "clock": 1, "check": 1})
			return append(ops, Op{K: "race", R: r.U64(), N: 1})
		},
		Setup: joinAll,
		End:   endProgress,
	})
}

func opRace(run *Run, r *Rng, n int) {
	w := run.W
	up := run.UpClusters()
	if len(up) < 2 {
		return
	}
	cut := r.Pct(35)
	for _, l := range w.sortedLinks() {
		if cut {
			l.close()
			w.count("disconnect")
		} else if l.stall == nil {
			l.Stall()
			w.count("partition")
		}
	}
	for k, m := 0, 1+r.N(3); k < m; k++ {
		for i, c := range up {
			fast := (int(r.s>>7)+i)%2 == 0
			for j, mm := 0, r.N(4); j < mm; j++ {
				if rc := c.RootChain(); fast && rc != nil && rc.CurrentBlock().Difficulty().BitLen() < 18 {
					w.Pause(time.Duration(1+r.N(6)) * time.Second)
				} else {
					w.Pause(time.Duration(20+r.N(200)) * time.Second)
				}
				if ids := c.Shards(); len(ids) > 0 && r.Pct(40) {
					run.mineMinor(c, pick(r, ids), r)
				}
				run.mineRoot(c, r)
			}
		}
	}
	for _, l := range w.sortedLinks() {
		l.Heal()
	}
	for _, p := range w.pairs() {
		if cut {
			w.Connect(p[0], p[1])
		}
	}
	run.Log("all clusters hear each other again")
	for k, m := 0, r.N(4); k < m; k++ {
		w.Pause(time.Duration(r.N(8000)) * time.Millisecond)
		c := pick(r, up)
		if ids := c.Shards(); len(ids) > 0 && r.Pct(60) {
			run.mineMinor(c, pick(r, ids), r)
		} else {
			run.mineRoot(c, r)
		}
	}
	if r.Pct(50) {
		run.settle()
	}
}
