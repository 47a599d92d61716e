//go:build go1.25

package sim

func init() {
	// clients ask while chains grow, fork and come back
	register(&Scenario{
		Name: "query",
		Cfg: func(r *Rng, p *Params) {
			Scenarios["ledger"].Cfg(r, p)
			p.Clusters = 1 + r.N(3)
			p.History = r.Pct(85)
			p.Accounts = 2 + r.N(3)
			p.NoPruning = r.Pct(50)
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(35), map[string]int{"clock": 1, "minor": 8, "minors": 5, "root": 7, "txs": 10, "xtxs": 4, "race": 3, "burst": 2, "stall": 2, "heal": 2, "cut": 1, "join": 1, "adv": 1, "check": 1, "query": 6, "asks": 7, "restart": 1})
		},
		Ops:   map[string]func(*Run, *Rng, int){"xtxs": opXtxs, "query": opQuery, "asks": opAsks},
		Setup: joinAll,
		End: func(run *Run) {
			endProgress(run)
			opQuery(run, run.R, 0)
		},
	})
	// the same questions to clusters whose processes crash and whose calls get lost
	register(&Scenario{
		Name: "askfault",
		Cfg:  Scenarios["query"].Cfg,
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(35), map[string]int{"clock": 1, "minor": 8, "minors": 5, "root": 7, "tx": 2, "txs": 6, "xtxs": 4, "race": 2, "burst": 3, "cut": 1, "join": 1, "adv": 1, "check": 1, "query": 4, "asks": 4, "restart": 1, "crash": 4, "kill": 1, "boot": 4, "rpc": 3})
		},
		Ops:   map[string]func(*Run, *Rng, int){"xtxs": opXtxs, "query": opQuery, "asks": opAsks},
		Setup: joinAll,
		End: func(run *Run) {
			endProgress(run)
			opQuery(run, run.R, 0)
		},
	})
}
