//go:build go1.25

package sim

import (
	"time"

	"github.com/QuarkChain/goquarkchain/account"
)

func init() {
	cfg := func(r *Rng, p *Params) {
		p.Clusters = 1 + r.N(2)
		p.Chains = 1 + r.N(2)
		p.ShardSize = 1 << r.N(2)
		if p.Chains*p.ShardSize < 2 {
			p.ShardSize = 2
		}
		p.Slaves = 1 + r.N(2)
		p.RootFactor = uint32(2 + r.N(8))
		if r.Pct(25) {
			p.LateShard, p.Slaves = uint32(1+r.N(4)), 1 // a process must start with a shard to run
		}
	}
	// processes of a cluster die at any point of whatever they do
	register(&Scenario{
		Name: "crash",
		Cfg:  cfg,
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(35), map[string]int{"minor": 8, "minors": 4, "root": 8, "tx": 3, "txs": 2, "burst": 4, "race": 1, "crash": 4, "kill": 1, "boot": 4, "adv": 2, "slow": 1, "clock": 1, "check": 3, "join": 1, "cut": 1, "restart": 1, "history": 1})
		},
		Ops:   map[string]func(*Run, *Rng, int){"history": opHistory},
		Setup: joinAll,
		End:   endProgress,
	})
	// calls inside a cluster fail, are delivered twice or late
	register(&Scenario{
		Name: "rpcfault",
		Cfg:  cfg,
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(35), map[string]int{"minor": 8, "minors": 4, "root": 8, "tx": 3, "txs": 2, "burst": 4, "rpc": 5, "race": 3, "boot": 3, "adv": 2, "slow": 1, "clock": 1, "check": 3, "join": 1, "cut": 1, "lag": 3, "flaky": 1})
		},
		Ops:   map[string]func(*Run, *Rng, int){"lag": opLag, "flaky": opFlaky},
		Setup: joinAll,
		End:   endProgress,
	})
}

// opHistory restarts a cluster whose operator switches the index of the transaction
// history on or off, and asks for it: nothing has to be found, but nobody may fail over it.
// Or it keeps all states from now on, or no longer.
func opHistory(run *Run, r *Rng, n int) {
	w := run.W
	c := pick(r, w.Clusters)
	run.settle()
	q := *c.Cfg
	if r.Pct(60) {
		q.EnableTransactionHistory = !q.EnableTransactionHistory
	} else {
		q.NoPruning = !q.NoPruning
	}
	w.count("history-switched")
	c.Cfg, c.Switched = &q, true
	if r.Pct(50) {
		run.restart(c)
	} else {
		c.Kill("restart")
		run.reboot(c)
		run.settle()
	}
	for k := 0; k < 2 && c.Up(); k++ {
		var j jmap
		id := pick(r, w.FullIDs)
		if r.Pct(50) {
			run.jrpc(c, &j, "qkc_getAllTransaction", hx(id), nil, hx(5))
		} else {
			run.jrpc(c, &j, "qkc_getTransactionsByAddress", account.NewAddress(pick(r, w.Accts).Recp, id).ToHex(), nil, hx(5), nil)
		}
	}
	run.settle()
}

// opFlaky restarts a cluster, and one of the calls with which its processes find each
// other fails.
func opFlaky(run *Run, r *Rng, n int) {
	c := pick(r, run.W.Clusters)
	run.settle()
	c.Kill("restart")
	run.W.Net.OneShot = &OneShot{Op: pick(r, []string{"Ping", "Ping", "Ping", "MasterInfo", "AddRootBlock", ""}), From: c, K: r.N(10), Kind: pick(r, []string{"losereq", "loseresp", "dup", "slow"})}
	run.reboot(c)
	run.W.Net.OneShot = nil
	run.settle()
}

// opLag: one cluster loses its connections while another goes on with transfers
// between shards, and one call inside the first fails while it catches up.
func opLag(run *Run, r *Rng, n int) {
	w := run.W
	a := run.somewhere(r)
	if a == nil {
		return
	}
	var others []*Cluster
	for _, o := range run.UpClusters() {
		if o != a {
			others = append(others, o)
		}
	}
	if len(others) == 0 || !run.settle() {
		return
	}
	b := pick(r, others)
	for _, o := range w.Clusters {
		if l := w.LinkOf(a, o); o != a && l != nil {
			l.close()
			w.count("disconnect")
		}
	}
	run.Log("%s loses its connections", a.Name)
	from := pick(r, w.FullIDs)
	for k := 1 + r.N(3); k > 0 && b.Up() && b.Shard(from) != nil; k-- {
		to := from
		for _, id := range w.FullIDs {
			if id != from && (to == from || r.Pct(50)) {
				to = id
			}
		}
		run.floodAt(b, r, from, to)
		if r.Pct(40) {
			w.Pause(time.Duration(5+r.N(20)) * time.Second)
			run.mineMinor(b, from, r)
		}
	}
	if r.Pct(50) && b.Up() {
		w.Pause(time.Duration(5+r.N(30)) * time.Second)
		run.mineRoot(b, r)
	}
	run.settle()
	if !a.Up() || !b.Up() {
		return
	}
	op := "BatchAddXshardTxList"
	if r.Pct(30) {
		op = pick(r, rpcOps)
	}
	if r.Pct(80) {
		w.Net.OneShot = &OneShot{Op: op, From: a, K: r.N(3) * r.N(2), Kind: pick(r, []string{"losereq", "losereq", "loseresp", "dup", "slow"})}
	}
	w.Connect(a, b)
	run.Log("%s and %s connect again", a.Name, b.Name)
	run.settle()
	// the next block has the laggard ask for what it misses
	if b.Up() && b.Shard(from) != nil {
		run.mineMinor(b, from, r)
		run.settle()
	}
	w.Net.OneShot = nil
}

// endProgress ends every fault, then asks for agreement and for progress.
func endProgress(run *Run) {
	endConverge(run)
	run.progress()
	run.checkAll()
}

// progress: with no fault under way every shard and the root chain extend.
func (run *Run) progress() {
	r := NewRng(Mix(run.C.Seed, 92))
	const P = "C02,C03,C04,C05,C10,C14,C15"
	for _, c := range run.W.Clusters {
		for k := 0; k < 2; k++ {
			for _, id := range c.Shards() {
				run.W.Pause(15e9)
				before := c.Shard(id).MinorBlockChain.CurrentBlock().NumberU64()
				err := run.mineMinor(c, id, r)
				run.settle()
				run.events()
				if s := c.Shard(id); err != nil || s == nil || s.MinorBlockChain.CurrentBlock().NumberU64() != before+1 {
					run.Fail(P, "no-minor-progress", "%s shard %x does not extend its chain above %d although nothing is wrong: %v", c.Name, id, before, err)
				}
				run.spreadMinor(c, id, headHash(c, id), before+1)
			}
			run.W.Pause(60e9)
			before := c.RootChain().CurrentBlock().NumberU64()
			err := run.mineRoot(c, r)
			run.settle()
			run.events()
			if rc := c.RootChain(); err != nil || rc == nil || rc.CurrentBlock().NumberU64() != before+1 {
				run.Fail(P, "no-root-progress", "%s does not extend the root chain above %d although nothing is wrong: %v", c.Name, before, err)
			}
			run.spreadRoot(c.RootChain().CurrentBlock().Hash())
			run.agree("after a root block")
			run.Did("progress")
		}
	}
}
