//go:build go1.25

package sim

import (
	"time"

	"github.com/QuarkChain/goquarkchain/core/types"
)

// "rogue": hostile peers among honest ones.
func init() {
	register(&Scenario{
		Name: "rogue",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 1 + r.N(2)
			p.Chains = 1 + r.N(2)
			p.ShardSize = 1 + r.N(2)
			p.Slaves = 1 + r.N(min(2, p.Chains*p.ShardSize))
			p.NoPruning = r.Pct(50)
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(35), map[string]int{"minor": 4, "minors": 2, "root": 4, "txs": 2, "tx": 1, "race": 1, "restart": 1, "slow": 1, "clock": 1, "leap": 1, "burst": 1, "stall": 1, "heal": 1,
				"haunt": 6, "pester": 12, "bait": 16, "leave": 2, "deaf": 1})
		},
		Setup: joinAll,
		Ops:   map[string]func(run *Run, r *Rng, n int){"haunt": opHaunt, "pester": opPester, "bait": opBait, "leave": opLeave, "deaf": opDeaf},
		End:   endRogue,
	})
}

func (run *Run) rogues() []*rogue {
	gs, _ := run.X["rogues"].([]*rogue)
	var live []*rogue
	for _, g := range gs {
		if !g.Gone && !g.l.closed {
			live = append(live, g)
		}
	}
	return live
}

func opHaunt(run *Run, r *Rng, n int) {
	up := run.UpClusters()
	if len(up) == 0 || len(run.rogues()) >= 4 {
		return
	}
	gs, _ := run.X["rogues"].([]*rogue)
	g := run.newRogue(pick(r, up), r.U64())
	run.X["rogues"] = append(gs, g)
	run.Log("rogue %d comes to %s, honest %d%%", g.idx, g.c.Name, g.honest)
	run.W.Pause(time.Duration(50+r.N(2000)) * time.Millisecond)
}

func (run *Run) aRogue(r *Rng) *rogue {
	if len(run.rogues()) == 0 {
		opHaunt(run, r, 0)
	}
	if gs := run.rogues(); len(gs) > 0 {
		return pick(r, gs)
	}
	return nil
}

func opPester(run *Run, r *Rng, n int) {
	g := run.aRogue(r)
	if g == nil {
		return
	}
	for k := 1 + r.N(6); k > 0 && !g.l.closed && g.c.Up(); k-- {
		g.pester()
		if r.Pct(40) {
			run.W.Pause(time.Duration(1+r.N(500)) * time.Millisecond)
		}
	}
	run.Did("pester")
}

// opBait announces a tip that makes the node ask, so that the answers count.
func opBait(run *Run, r *Rng, n int) {
	g := run.aRogue(r)
	if g == nil || !g.c.Up() {
		return
	}
	w := run.W
	run.Did("bait")
	switch r.N(4) {
	case 0:
		// a root tip far above
		h := copyRoot(g.c.RootChain().CurrentBlock()).Header()
		h.Number += uint32(1 + r.N(30))
		if r.Pct(20) {
			h.Number = g.n32()
		}
		h.ToTalDifficulty.Lsh(h.ToTalDifficulty, uint(1+r.N(20)))
		h.ParentHash = g.hash()
		g.RootTip = h
		g.announceRoot()
	case 1:
		// another cluster's real chain
		var o *Cluster
		for _, c := range run.UpClusters() {
			if c != g.c {
				o = c
			}
		}
		if o == nil {
			return
		}
		me := g.c
		g.c = o
		g.follow()
		g.c = me
		g.announceRoot()
		for _, id := range g.branches() {
			if r.Pct(50) {
				g.announceMinor(id)
			}
		}
	case 2:
		// a real next block, which only the ghost has
		if !run.settle() || !g.c.Up() || g.l.closed {
			return
		}
		ids := g.c.Shards()
		id := pick(r, ids)
		b, err := g.c.MakeMinor(id, run.coinbase(r, id))
		if err != nil {
			return
		}
		g.Minor[b.Hash()] = b
		g.follow()
		g.Tips[id] = b.Header()
		g.announceMinor(id)
	default:
		ids := g.c.Shards()
		id := pick(r, ids)
		h := copyMinor(g.c.Shard(id).MinorBlockChain.CurrentBlock()).Header()
		h.Number += uint64(1 + r.N(30))
		h.ParentHash = g.hash()
		if r.Pct(30) {
			h.Number = g.n64()
		}
		g.follow()
		g.Tips[id] = h
		g.announceMinor(id)
	}
	w.Pause(time.Duration(r.N(3000)) * time.Millisecond)
}

func opLeave(run *Run, r *Rng, n int) {
	if gs := run.rogues(); len(gs) > 0 {
		g := pick(r, gs)
		run.Log("rogue %d leaves", g.idx)
		g.Leave()
	}
}

// opDeaf: the peer stops reading and writing.
func opDeaf(run *Run, r *Rng, n int) {
	if gs := run.rogues(); len(gs) > 0 {
		g := pick(r, gs)
		run.Log("rogue %d goes deaf", g.idx)
		g.l.Stall()
	}
}

func endRogue(run *Run) {
	w := run.W
	gs, _ := run.X["rogues"].([]*rogue)
	for _, g := range gs {
		g.Leave()
	}
	// requests under way end by their timeouts
	w.Settle(20 * time.Minute)
	for _, g := range gs {
		if !g.Gone && g.born == g.c.Boots && g.c.M.Alive {
			run.Fail("C15", "peer-stuck", "%s still holds on to the peer %d, which left 20 minutes ago", g.c.Name, g.idx)
		}
	}
	run.Did("peers-gone")
	endConverge(run)
	for _, c := range run.UpClusters() {
		rc := c.RootChain()
		for n := uint64(0); n <= rc.CurrentBlock().NumberU64(); n++ {
			if b, ok := rc.GetBlockByNumber(n).(*types.RootBlock); ok && w.Root[b.Hash()] == nil {
				run.Fail("C15,C09", "foreign-root", "%s: nobody mined the root block %d %s", c.Name, n, short(b.Hash()))
			}
		}
		for _, id := range c.Shards() {
			bc := c.Shard(id).MinorBlockChain
			for n := uint64(1); n <= bc.CurrentBlock().NumberU64(); n++ {
				if b, ok := bc.GetBlockByNumber(n).(*types.MinorBlock); ok && w.Minor[b.Hash()] == nil {
					run.Fail("C15,C08", "foreign-minor", "%s shard %x: nobody mined the block %d %s", c.Name, id, n, short(b.Hash()))
				}
			}
		}
	}
	endProgress(run)
	run.Did("after-rogues")
}
