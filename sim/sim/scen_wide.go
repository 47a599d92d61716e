//go:build go1.25

package sim

// The wide scenario has more shards than may all send to each other (above 32
// only those that differ in one place by a power of two are neighbours), in
// part of the runs because shards that start later push the number over the
// limit while transfers are under way.
func init() {
	register(&Scenario{
		Name: "wide",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 1 + r.N(2)
			switch r.N(3) {
			case 0:
				p.Chains, p.ShardSize = 34, 1
			case 1:
				p.Chains, p.ShardSize = 17, 2
			default:
				p.Chains, p.ShardSize = 9, 4
			}
			p.Slaves = 1 + r.N(2)
			p.Accounts = 2
			if r.Pct(50) {
				p.LateShard, p.LateCount = uint32(1+r.N(3)), p.Chains*p.ShardSize-32+r.N(3)
			}
			p.ExtraBlocks = uint32(2 + r.N(6))
			p.RootFactor = uint32(2 + r.N(8))
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 10+r.N(14), map[string]int{"clock": 1, "minor": 4, "minors": 2, "root": 6, "wtxs": 10, "fminor": 1, "burst": 1, "cut": 1, "join": 1, "adv": 1})
		},
		Ops:   map[string]func(*Run, *Rng, int){"wtxs": opWtxs, "fminor": opForgeMinor},
		Setup: joinAll,
		End: func(run *Run) {
			endConverge(run)
			run.noForgery("end")
		},
	})
}

// opWtxs sends between shards that differ in one place mostly, and has the
// blocks made that carry it.
func opWtxs(run *Run, r *Rng, n int) {
	ids := run.W.FullIDs
	from := pick(r, ids)
	var to []uint32
	far := 15
	if l := run.W.P.LateShard; l > 0 {
		for _, c := range run.UpClusters() {
			if c.RootChain().CurrentBlock().Number() <= l+1 {
				far = 60 // all may still send to all
			}
		}
	}
	for _, id := range ids {
		if id != from && run.W.Near(from, id, 1000) == !r.Pct(far) {
			to = append(to, id)
		}
	}
	if len(to) == 0 {
		return
	}
	run.flood(r, from, pick(r, to))
}
