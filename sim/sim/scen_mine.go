//go:build go1.25

package sim

import (
	"time"
)

// "mine": miners that ask and submit while heads move.
func init() {
	register(&Scenario{
		Name: "mine",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 1 + r.N(2)
			p.Chains = 1 + r.N(2)
			p.ShardSize = 1 + r.N(2)
			p.Slaves = 1 + r.N(2)
			if n := p.Chains * p.ShardSize; p.Slaves > n {
				p.Slaves = n
			}
			p.Accounts = 3
			p.RemoteMine = true
			p.MinorDiff = 50
			p.RootDiff = 50
			if r.Pct(30) {
				p.PoSW = true
			}
			if r.Pct(20) && p.Chains*p.ShardSize > p.Slaves {
				p.LateShard = uint32(1 + r.N(3))
			}
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(30), map[string]int{"work": 4, "solve": 8, "mprobe": 14, "mrace": 14, "toggle": 2, "minor": 8, "minors": 3, "root": 6, "race": 4, "txs": 2, "adv": 2, "leap": 2,
				"cut": 2, "join": 4, "stall": 1, "heal": 2, "restart": 1, "slow": 1, "settle": 2})
		},
		Setup: joinAll,
		Ops:   map[string]func(run *Run, r *Rng, n int){"work": opWork, "solve": opSolve, "mprobe": opMprobe, "mrace": opMrace, "toggle": opToggle},
		End: func(run *Run) {
			for _, c := range run.UpClusters() {
				run.setMining(c, true)
			}
			run.settle()
			run.learnMined()
			endConverge(run)
			for _, c := range run.UpClusters() {
				run.probe(c, 0, NewRng(uint64(len(run.mining().out))))
				for _, id := range c.Shards() {
					run.probe(c, id, NewRng(uint64(id)))
				}
			}
			run.settle()
			run.learnMined()
			run.checkAll()
		},
	})
}

func opWork(run *Run, r *Rng, n int) {
	if c := run.somewhere(r); c != nil {
		h, err := run.getWork(c, run.somework(c, r), run.miner(r))
		if err == nil {
			run.Log("%s hands out work for %s height %d", c.Name, chainName(h.id), h.num)
		}
	}
}

// solveSome submits a solution of something that was handed out before.
func (run *Run) solveSome(c *Cluster, r *Rng) {
	m := run.mining()
	var hs []*handout
	for _, h := range m.out {
		if h.c == c && h.boots == c.Boots {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		return
	}
	k := len(hs) - 1 - r.N(min(len(hs), 4))
	if r.Pct(20) {
		k = r.N(len(hs))
	}
	h := hs[k]
	good := r.Pct(80)
	off := m.isOff(c) && run.W.Busy() == 0
	ok := run.submit(h, h.hash, h.nonce(r.U64()>>1, good))
	run.Log("%s is given a solution (%v) for %s height %d: %v", c.Name, good, chainName(h.id), h.num, ok)
	if ok && !good {
		run.Fail(mineProps, "took-wrong", "%s takes a wrong solution for height %d of %s", c.Name, h.num, chainName(h.id))
	}
	if ok && off && m.isOff(c) {
		run.Fail(mineProps, "took-off", "%s takes a solution although it was told not to mine", c.Name)
	}
}

func opSolve(run *Run, r *Rng, n int) {
	if c := run.somewhere(r); c != nil {
		run.solveSome(c, r)
		if r.Pct(60) && run.settle() {
			run.learnMined()
		}
	}
}

func opMprobe(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	run.W.Pause(time.Duration(1+r.N(10)) * time.Second)
	if run.settle() {
		run.learnMined()
		run.probes(c, r, 1+r.N(2))
	}
}

func opToggle(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	for k := 1 + r.N(2); k > 0; k-- {
		run.setMining(c, !run.mining().toldOf(c).mine)
	}
}

// opMrace lets requests, submissions, blocks of others and switches run into
// each other, and then asks for work at rest.
func opMrace(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	w := run.W
	w.Pause(time.Duration(1+r.N(20)) * time.Second)
	id := run.somework(c, r)
	toggles := r.Pct(15)
	for k := 3 + r.N(8); k > 0; k-- {
		sub := NewRng(r.U64())
		w.jobs++
		go func() {
			defer func() { w.jobs-- }()
			w.Pause(time.Duration(sub.N(3000)) * time.Microsecond)
			at := id
			if sub.Pct(20) {
				at = run.somework(c, sub)
			}
			switch x := sub.N(12); {
			case x < 4:
				h, err := run.getWork(c, at, run.miner(sub))
				if err == nil && sub.Pct(40) {
					run.submit(h, h.hash, h.nonce(sub.U64()>>1, true))
				}
			case x < 7:
				run.solveSome(c, sub)
			case x < 9 && at != 0:
				run.mineMinor(c, at, sub)
			case x < 10 || x < 11 && at == 0:
				run.mineRoot(c, sub)
			case toggles:
				run.setMining(c, sub.Pct(50))
			}
		}()
		if sub.Pct(40) {
			w.Pause(time.Duration(sub.N(1500)) * time.Microsecond)
		}
	}
	run.Did("mrace")
	if !run.settle() {
		return
	}
	if toggles && c.Up() {
		run.setMining(c, true)
	}
	w.Pause(5 * time.Second)
	if run.settle() {
		run.learnMined()
		if c.Up() {
			run.probe(c, id, r)
		}
		if r.Pct(30) {
			run.checkAll()
		}
	}
}
