//go:build go1.25

package sim

import "time"

func init() {
	// chains long enough for pruning, for downloads in several batches, and for forks
	// that are older than what a node keeps in memory
	register(&Scenario{
		Name: "long",
		Cfg: func(r *Rng, p *Params) {
			Scenarios["query"].Cfg(r, p)
			p.Clusters = 1 + r.N(2)
			p.Chains, p.ShardSize = 1, 1+r.N(2)
			p.Slaves = 1
			p.LateShard, p.LateCount = 0, 0
			p.NoPruning = r.Pct(15)
			p.Accounts = 2
			p.MinorCutoff, p.RootCutoff = uint32(1+r.N(4)), uint32(1+r.N(6))
		},
		Gen: func(r *Rng) []Op {
			ops := []Op{{K: "run", R: r.U64(), N: 130 + r.N(100)}}
			more := weighted(r, 8+r.N(10), map[string]int{"run": 4, "apart": 3, "minors": 2, "root": 3, "txs": 3, "race": 1, "cut": 2, "join": 2, "check": 1, "query": 2, "asks": 2, "restart": 1, "crash": 1, "kill": 1, "boot": 3, "clock": 1})
			for i := range more {
				if more[i].K == "run" {
					more[i].N = 20 + int(more[i].R%120)
				}
				if more[i].K == "apart" && more[i].R%8 == 0 {
					more[i].N = 280
				}
			}
			return append(ops, more...)
		},
		Ops: map[string]func(*Run, *Rng, int){"run": opRun, "apart": opApart, "query": opQuery, "asks": opAsks, "xtxs": opXtxs},
		Setup: func(run *Run) {
			joinAll(run)
			// forks of empty blocks that earn the same miner the same lead to the same states
			run.X["one-miner"] = NewRng(Mix(run.C.Seed, 71)).Pct(40)
		},
		End: func(run *Run) {
			endProgress(run)
			opQuery(run, run.R, 0)
			opAsks(run, run.R, 0)
		},
	})
}

// opRun mines n blocks in a row, most of them in one shard, with root blocks now and
// then or hardly ever.
func opRun(run *Run, r *Rng, n int) {
	if c := run.somewhere(r); c != nil {
		run.stretch(c, r, n)
	}
}

func (run *Run) stretch(c *Cluster, r *Rng, n int) {
	if !c.Up() || len(c.Shards()) == 0 {
		return
	}
	id := pick(r, c.Shards())
	roots, txs, quick := []int{0, 3, 8, 8, 20, 70}[r.N(6)], []int{0, 5, 20, 60}[r.N(4)], r.Pct(50)
	for ; n > 0 && c.Up(); n-- {
		run.W.Pause(time.Duration(1+r.N(12)) * time.Second)
		switch {
		case r.Pct(roots):
			run.mineRoot(c, r)
		case r.Pct(5):
			run.mineMinor(c, pick(r, c.Shards()), r)
		default:
			run.mineMinor(c, id, r)
		}
		if r.Pct(txs) {
			if tx := run.randomTx(c, r); tx != nil {
				run.sendTx(c, tx)
			}
		}
		if !quick || r.Pct(5) {
			run.settle()
		}
	}
	run.settle()
}

// opApart: two clusters go on for long without each other (or one of them is down), and
// then meet again.
func opApart(run *Run, r *Rng, n int) {
	up := run.UpClusters()
	if len(up) < 2 || !run.settle() {
		return
	}
	a := pick(r, up)
	var b *Cluster
	for _, c := range up {
		if c != a {
			b = c
		}
	}
	down := r.Pct(25)
	for _, l := range run.W.sortedLinks() {
		l.close()
	}
	if down {
		b.Kill("the operator stops it")
	}
	if n < 200 {
		n = 10 + r.N(140)
	}
	run.stretch(a, r, n)
	if !down {
		run.stretch(b, r, []int{1 + r.N(5), n / 2, n, n + 20}[r.N(4)])
	} else {
		run.reboot(b)
	}
	joinAll(run)
	run.settle()
}
