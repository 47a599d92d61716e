//go:build go1.25

package sim

import (
	"fmt"
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	qkcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
)

// "forge": hostile miners and peers offer invalid blocks, by mining submission,
// gossip and sync, while good blocks go on being made.
func init() {
	register(&Scenario{
		Name: "forge",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 1 + r.N(2)
			p.Chains = 1 + r.N(2)
			p.ShardSize = 1 + r.N(2)
			if p.Chains*p.ShardSize == 1 {
				p.ShardSize = 2
			}
			p.Slaves = 1 + r.N(2)
			p.NoPruning = r.Pct(50)
			if r.Pct(30) {
				p.PoSW, p.PoSWWindow = true, uint64(3+r.N(4))
			}
		},
		Gen: func(r *Rng) []Op {
			ops := weighted(r, 6+r.N(10), map[string]int{"minor": 3, "minors": 2, "root": 3, "txs": 3, "tx": 1, "xtxs": 2, "race": 1, "restart": 1, "slow": 1, "gc": 1, "leap": 1,
				"fminor": 7, "froot": 6, "ffar": 3, "ftangle": 3})
			return append(ops, Op{K: "fminor", R: r.U64() >> 16}, Op{K: "froot", R: r.U64() >> 16})
		},
		Setup: joinAll,
		Ops:   map[string]func(run *Run, r *Rng, n int){"xtxs": opXtxs, "fminor": opForgeMinor, "froot": opForgeRoot, "ffar": opForgeFar, "ftangle": opForgeTangle},
		End: func(run *Run) {
			endConverge(run)
			run.noForgery("end")
		},
	})
}

// noForgery: nothing that was forged is part of any chain.
func (run *Run) noForgery(when string) {
	f := run.forger()
	for _, c := range run.UpClusters() {
		rc := c.RootChain()
		for h, why := range f.root {
			if b := rc.GetBlock(h); !qkcom.IsNil(b) {
				run.Did("forged-root-known")
				if x := rc.GetBlockByNumber(b.NumberU64()); !qkcom.IsNil(x) && x.Hash() == h {
					run.Fail("C09,C17", "forged-root-canonical", "%s, %s: the root block %d %s is canonical though wrong: %s", when, c.Name, b.NumberU64(), short(h), why)
				}
				run.Fail("C09,C17", "forged-root-known", "%s, %s: the root block %d %s was stored though wrong: %s", when, c.Name, b.NumberU64(), short(h), why)
			}
		}
		for h, why := range f.minor {
			if rc.ContainMinorBlockByHash(h) {
				run.Fail("C08,C09", "forged-minor-at-master", "%s, %s: the master holds the minor block %s valid, which is wrong: %s", when, c.Name, short(h), why)
			}
			for _, id := range c.Shards() {
				bc := c.Shard(id).MinorBlockChain
				if b := bc.GetMinorBlock(h); b != nil {
					if x := bc.GetBlockByNumber(b.NumberU64()); !qkcom.IsNil(x) && x.Hash() == h {
						run.Fail("C08,C17", "forged-minor-canonical", "%s, %s shard %x: block %d %s is canonical though wrong: %s", when, c.Name, id, b.NumberU64(), short(h), why)
					}
					if bc.HasBlockAndState(h) {
						run.Fail("C08,C17", "forged-minor-executed", "%s, %s shard %x: block %d %s was accepted though wrong: %s", when, c.Name, id, b.NumberU64(), short(h), why)
					}
				}
			}
		}
	}
	run.Did("no-forgery")
}

// offer hands a forged minor block to a cluster on one of the paths.
func (run *Run) offerMinor(c *Cluster, b *types.MinorBlock, r *Rng) string {
	switch r.N(3) {
	case 0:
		err := c.AddMinor(b)
		return fmt.Sprintf("as mined: %v", err)
	case 1:
		g := run.W.Haunt(c)
		run.W.Settle(20 * time.Second)
		g.Minor[b.Hash()] = b
		g.gossip(b)
		run.W.Settle(time.Minute)
		g.Leave()
		return fmt.Sprintf("by gossip: %v", g.Err)
	default:
		g := run.W.Haunt(c)
		run.W.Settle(20 * time.Second)
		g.Minor[b.Hash()] = b
		g.Tips[b.Branch().Value] = b.Header()
		g.announceMinor(b.Branch().Value)
		run.W.Settle(3 * time.Minute)
		g.Leave()
		return fmt.Sprintf("by sync: asked %d blocks: %v", g.Asked[9], g.Err)
	}
}

func opForgeMinor(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	w := run.W
	w.Pause(time.Duration(1+r.N(12)) * time.Second)
	if !run.settle() || !c.Up() {
		return
	}
	ids := c.Shards()
	if len(ids) == 0 {
		return
	}
	id := pick(r, ids)
	good, err := c.MakeMinor(id, run.coinbase(r, id))
	if err != nil {
		run.template(c, id, err)
		return
	}
	par := c.Shard(id).MinorBlockChain.CurrentBlock()
	if par.Hash() != good.ParentHash() {
		return
	}
	s := &seed1{run: run, c: c, id: id, good: good, par: par}
	f := run.forger()
	for k := 1 + r.N(4); k > 0; k-- {
		kind := pick(r, minorForgeries)
		bad := kind.f(s, r)
		if bad == nil || bad.Hash() == good.Hash() {
			continue
		}
		f.minor[bad.Hash()] = kind.name
		w.count("forged minor: " + kind.name)
		before := run.picture(c)
		if r.Pct(25) {
			// at the same moment as the good one
			done := 0
			c.SlaveOf(id).Job(func() { c.Shard(id).InsertMinedBlock(copyMinor(bad)); done++ })
			run.deliverGood(s, r, "while a block with wrong "+kind.name+" came in")
			run.settle()
			run.noForgery("after " + kind.name)
			run.Log("forge: %s, at the same moment as the good block", kind.name)
			return
		}
		how := run.offerMinor(c, bad, r)
		settled := run.settle()
		run.Log("forge: %s shard %x: block %d %s with wrong %s, %s", c.Name, id, bad.NumberU64(), short(bad.Hash()), kind.name, how)
		run.noForgery("after " + kind.name)
		run.Did("refused-minor")
		if settled && c.Up() {
			if d := before.differs(run.picture(c)); d != "" {
				run.Fail("C08", "refusal-changed", "%s shard %x: after refusing a block with wrong %s (%s): %s", c.Name, id, kind.name, how, d)
			}
		}
	}
	if r.Pct(35) {
		if v, what := s.variant(r); v != nil && v.Hash() != good.Hash() {
			w.noteMinor(v)
			head := headHash(c, id)
			err := c.AddMinor(v)
			run.Log("%s shard %x: a valid block with %s: %v", c.Name, id, what, err)
			run.Did("variant-minor")
			if run.clean(c) && head == par.Hash() && (err != nil || headHash(c, id) != v.Hash()) {
				run.Fail("C08,C10", "valid-refused", "%s shard %x: the valid block %d %s with %s was not accepted: %v", c.Name, id, v.NumberU64(), short(v.Hash()), what, err)
			}
			run.settle()
			return
		}
	}
	run.deliverGood(s, r, "after refusals")
	run.settle()
}

// deliverGood: the valid block at the same height still gets in.
func (run *Run) deliverGood(s *seed1, r *Rng, when string) {
	head := headHash(s.c, s.id)
	err := s.c.AddMinor(s.good)
	run.Did("good-minor")
	run.Log("%s shard %x: the good block %d %s: %v", s.c.Name, s.id, s.good.NumberU64(), short(s.good.Hash()), err)
	if run.clean(s.c) && head == s.par.Hash() && (err != nil || headHash(s.c, s.id) != s.good.Hash()) {
		run.Fail("C08", "good-refused", "%s shard %x: %s the valid block %d %s was not accepted: %v", s.c.Name, s.id, when, s.good.NumberU64(), short(s.good.Hash()), err)
	}
}

// opForgeFar: a cluster that is behind is fed another cluster's real chain with
// a forged block on top.
func opForgeFar(run *Run, r *Rng, n int) {
	w := run.W
	up := run.UpClusters()
	if len(up) < 2 || !run.settle() {
		return
	}
	a, v := up[0], up[1]
	if r.Pct(50) {
		a, v = v, a
	}
	for _, l := range w.sortedLinks() {
		l.Stall()
	}
	ids := a.Shards()
	id := pick(r, ids)
	for k := 1 + r.N(4); k > 0; k-- {
		w.Pause(time.Duration(1+r.N(15)) * time.Second)
		run.mineMinor(a, id, r)
		if r.Pct(30) {
			run.mineRoot(a, r)
		}
	}
	w.Settle(20 * time.Second)
	good, err := a.MakeMinor(id, run.coinbase(r, id))
	if err == nil && a.Shard(id).MinorBlockChain.CurrentBlock().Hash() == good.ParentHash() {
		s := &seed1{run: run, c: a, id: id, good: good, par: a.Shard(id).MinorBlockChain.CurrentBlock()}
		kind := pick(r, minorForgeries)
		if bad := kind.f(s, r); bad != nil && bad.Hash() != good.Hash() {
			f := run.forger()
			f.minor[bad.Hash()] = kind.name
			w.count("forged far: " + kind.name)
			g := w.Haunt(v)
			g.c = a
			g.follow()
			g.c = v
			g.Minor[bad.Hash()] = bad
			w.Settle(20 * time.Second)
			if r.Pct(50) {
				g.announceRoot()
				w.Settle(time.Minute)
			}
			g.Tips[id] = bad.Header()
			if r.Pct(35) {
				// and a root block that confirms it
				if rb := run.rootOver(a, bad, r); rb != nil {
					f.root[rb.Hash()] = "confirms a minor block with wrong " + kind.name
					g.Root[rb.Hash()] = rb
					g.RootTip = rb.Header()
					g.announceRoot()
					w.Settle(3 * time.Minute)
				}
			}
			g.announceMinor(id)
			w.Settle(3 * time.Minute)
			run.Log("forge: %s is offered %s's chain and a block %d %s with wrong %s: asked %v, %v", v.Name, a.Name, bad.NumberU64(), short(bad.Hash()), kind.name, g.Asked, g.Err)
			g.Leave()
			run.Did("refused-far")
			run.noForgery("after " + kind.name + " by sync")
		}
	}
	for _, l := range w.sortedLinks() {
		l.Heal()
	}
	run.settle()
	run.noForgery("after healing")
}

// rootOver makes a root block on a's head that confirms the shard up to bad.
func (run *Run) rootOver(a *Cluster, bad *types.MinorBlock, r *Rng) *types.RootBlock {
	rb, err := a.MakeRoot(run.coinbase(r, run.W.FullIDs[0]))
	if err != nil {
		return nil
	}
	delete(run.W.Root, rb.Hash())
	f := openRoot(rb)
	id := bad.Branch().Value
	var hs types.MinorBlockHeaders
	put := false
	for _, h := range f.MinorBlockHeaders {
		if h.Branch.Value > id && !put {
			hs = append(hs, bad.Header())
			put = true
		}
		hs = append(hs, h)
	}
	if !put {
		hs = append(hs, bad.Header())
	}
	f.MinorBlockHeaders = hs
	return run.finishRoot(a, f, true)
}

// finishRoot makes all that follows from the content fit, and seals.
func (run *Run) finishRoot(c *Cluster, f *wireRoot, amount bool) *types.RootBlock {
	f.Header.MinorHeaderHash = types.CalculateMerkleRoot(f.MinorBlockHeaders)
	if amount {
		b := f.block()
		c.M.Do(time.Minute, func() {
			if t, err := c.RootChain().CalculateRootBlockCoinBase(b); err == nil {
				f.Header.CoinbaseAmount = t
			}
		})
	}
	return f.seal(run.rootWork(c, f.Header))
}

func (f *wireRoot) seal(d *big.Int) *types.RootBlock {
	if d.Sign() <= 0 || d.BitLen() > 22 {
		d = big.NewInt(1)
	}
	return Seal(f.block(), d).(*types.RootBlock)
}

func (run *Run) rootWork(c *Cluster, h *types.RootBlockHeader) *big.Int {
	d := new(big.Int).Set(h.Difficulty)
	c.M.Do(time.Minute, func() {
		if a, div, err := c.RootChain().GetAdjustedDifficulty(h); err == nil && a != nil && div > 0 {
			d = new(big.Int).Div(a, new(big.Int).SetUint64(div))
		}
	})
	return d
}

type rootForgery struct {
	name string
	f    func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int
}

const (
	no     = iota // cannot be done here
	asIs          // only seal
	refit         // merkle root and coinbase amount follow
	unseal        // seal wrongly
)

var rootForgeries = []rootForgery{
	{"seal", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int { return unseal }},
	{"version", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Version++
		return asIs
	}},
	{"height up", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Number++
		return refit
	}},
	{"height down", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Number--
		return refit
	}},
	{"unknown parent", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.ParentHash = flip(w.Header.ParentHash, r)
		return asIs
	}},
	{"older parent", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		if par.Number() == 0 {
			return no
		}
		w.Header.ParentHash = par.ParentHash()
		return asIs
	}},
	{"time not after the parent", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Time = par.Time() - uint64(r.N(2))
		w.MinorBlockHeaders = nil
		run.fitRoot(par, w)
		return refit
	}},
	{"time in the future", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Time = uint64(time.Now().Unix()) + 3600 + uint64(r.N(36000))
		run.fitRoot(par, w)
		return refit
	}},
	{"difficulty up", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Difficulty = new(big.Int).Add(w.Header.Difficulty, big.NewInt(int64(1+r.N(3))))
		w.Header.ToTalDifficulty = new(big.Int).Add(par.TotalDifficulty(), w.Header.Difficulty)
		return asIs
	}},
	{"difficulty down", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Difficulty = new(big.Int).Sub(w.Header.Difficulty, big.NewInt(int64(1+r.N(3))))
		w.Header.ToTalDifficulty = new(big.Int).Add(par.TotalDifficulty(), w.Header.Difficulty)
		return asIs
	}},
	{"total difficulty up", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.ToTalDifficulty = new(big.Int).Add(w.Header.ToTalDifficulty, big.NewInt(int64(1+r.N(1000))))
		return asIs
	}},
	{"total difficulty down", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.ToTalDifficulty = new(big.Int).Sub(w.Header.ToTalDifficulty, big.NewInt(1))
		return asIs
	}},
	{"extra data too long", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Extra = make([]byte, int(c.Cfg.Quarkchain.BlockExtraDataSizeLimit)+1)
		return asIs
	}},
	{"merkle root", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.MinorHeaderHash = flip(w.Header.MinorHeaderHash, r)
		return asIs
	}},
	{"state root", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.Root = flip(w.Header.Root, r)
		return asIs
	}},
	{"coinbase amount up", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.CoinbaseAmount.Add(map[uint64]*big.Int{run.W.QKC: big.NewInt(int64(1 + r.N(100)))})
		return asIs
	}},
	{"coinbase amount in another token", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.CoinbaseAmount.Add(map[uint64]*big.Int{run.W.Tok2: big.NewInt(5)})
		return asIs
	}},
	{"no coinbase amount", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		w.Header.CoinbaseAmount = types.NewEmptyTokenBalances()
		return asIs
	}},
	{"a header left out", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		// not the last of its shard
		var at []int
		for i, h := range w.MinorBlockHeaders {
			if i+1 < len(w.MinorBlockHeaders) && w.MinorBlockHeaders[i+1].Branch == h.Branch {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return no
		}
		i := pick(r, at)
		w.MinorBlockHeaders = append(append(types.MinorBlockHeaders{}, w.MinorBlockHeaders[:i]...), w.MinorBlockHeaders[i+1:]...)
		return refit
	}},
	{"a header left out, root kept", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		if len(w.MinorBlockHeaders) == 0 {
			return no
		}
		w.MinorBlockHeaders = w.MinorBlockHeaders[:len(w.MinorBlockHeaders)-1]
		return asIs
	}},
	{"a header twice", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		if len(w.MinorBlockHeaders) == 0 {
			return no
		}
		i := r.N(len(w.MinorBlockHeaders))
		w.MinorBlockHeaders = append(append(append(types.MinorBlockHeaders{}, w.MinorBlockHeaders[:i]...), w.MinorBlockHeaders[i]), w.MinorBlockHeaders[i:]...)
		return refit
	}},
	{"headers in another order", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		if len(w.MinorBlockHeaders) < 2 {
			return no
		}
		i := r.N(len(w.MinorBlockHeaders) - 1)
		hs := append(types.MinorBlockHeaders{}, w.MinorBlockHeaders...)
		hs[i], hs[i+1] = hs[i+1], hs[i]
		w.MinorBlockHeaders = hs
		return refit
	}},
	{"shards in another order", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		var a, b types.MinorBlockHeaders
		for _, h := range w.MinorBlockHeaders {
			if h.Branch == w.MinorBlockHeaders[0].Branch {
				a = append(a, h)
			} else {
				b = append(b, h)
			}
		}
		if len(a) == 0 || len(b) == 0 {
			return no
		}
		w.MinorBlockHeaders = append(b, a...)
		return refit
	}},
	{"a confirmed header again", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		if len(par.MinorBlockHeaders()) == 0 {
			return no
		}
		h := pick(r, par.MinorBlockHeaders())
		return w.insert(h)
	}},
	{"a header never validated", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		if len(w.MinorBlockHeaders) == 0 {
			return no
		}
		last := w.lastOf(pick(r, w.MinorBlockHeaders).Branch)
		h := types.CopyMinorBlockHeader(last)
		h.ParentHash, h.Number, h.Time = last.Hash(), last.Number+1, last.Time
		return w.insert(h)
	}},
	{"a header changed", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		if len(w.MinorBlockHeaders) == 0 {
			return no
		}
		i := r.N(len(w.MinorBlockHeaders))
		h := types.CopyMinorBlockHeader(w.MinorBlockHeaders[i])
		switch r.N(3) {
		case 0:
			h.CoinbaseAmount.Add(map[uint64]*big.Int{run.W.QKC: big.NewInt(1000)})
		case 1:
			h.Coinbase.Recipient = common.BytesToAddress([]byte{9})
		case 2:
			h.Nonce++
		}
		w.MinorBlockHeaders = append(types.MinorBlockHeaders{}, w.MinorBlockHeaders...)
		w.MinorBlockHeaders[i] = h
		return refit
	}},
	{"a header later than the block", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		max := uint64(0)
		for _, h := range w.MinorBlockHeaders {
			if h.Time > max {
				max = h.Time
			}
		}
		if max == 0 || max-1 <= par.Time() {
			return no
		}
		w.Header.Time = max - 1
		run.fitRoot(par, w)
		return refit
	}},
	{"too many headers of a shard", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		rc := c.RootChain()
		for _, id := range c.Shards() {
			limit := int(c.Cfg.Quarkchain.GetShardConfigByFullShardID(id).MaxBlocksPerShardInOneRootBlock())
			if l := w.lastOf(account.Branch{Value: id}); l != nil {
				var rest []*types.MinorBlockHeader
				bc := c.Shard(id).MinorBlockChain
				for n := l.Number + 1; ; n++ {
					b := bc.GetBlockByNumber(n)
					if qkcom.IsNil(b) || !rc.ContainMinorBlockByHash(b.Hash()) {
						break
					}
					rest = append(rest, b.(*types.MinorBlock).Header())
				}
				have := 0
				for _, h := range w.MinorBlockHeaders {
					if h.Branch.Value == id {
						have++
					}
				}
				if have+len(rest) > limit {
					for _, h := range rest {
						w.insert(h)
					}
					return refit
				}
			}
		}
		return no
	}},
	{"a header tied to another root chain", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		rc := c.RootChain()
		on := map[common.Hash]bool{}
		for b := par; b != nil; b = run.W.Root[b.ParentHash()] {
			on[b.Hash()] = true
		}
		last := map[uint32]common.Hash{}
		for b := par; b != nil; b = run.W.Root[b.ParentHash()] {
			hs := b.MinorBlockHeaders()
			for i := len(hs) - 1; i >= 0; i-- {
				if _, ok := last[hs[i].Branch.Value]; !ok {
					last[hs[i].Branch.Value] = hs[i].Hash()
				}
			}
		}
		// the header itself may follow others that are in order
		var cand [][]*types.MinorBlock
		for _, h := range run.W.sortedMinors() {
			b := run.W.Minor[h]
			if on[b.PrevRootBlockHash()] || run.W.Root[b.PrevRootBlockHash()] == nil || !rc.ContainMinorBlockByHash(h) || b.Time() > w.Header.Time {
				continue
			}
			path := []*types.MinorBlock{b}
			for x := run.W.Minor[b.ParentHash()]; x != nil && path[0].ParentHash() != last[b.Branch().Value] && len(path) < 4; x = run.W.Minor[x.ParentHash()] {
				path = append([]*types.MinorBlock{x}, path...)
			}
			if path[0].ParentHash() == last[b.Branch().Value] {
				cand = append(cand, path)
			}
		}
		if len(cand) == 0 {
			return no
		}
		path := pick(r, cand)
		for _, x := range cand {
			if len(x) > len(path) && r.Pct(70) {
				path = x
			}
		}
		run.W.count(fmt.Sprintf("other root chain: %d headers", len(path)))
		w.drop(path[0].Branch())
		for _, b := range path {
			w.insert(b.Header())
		}
		return refit
	}},
	{"a header beside the one confirmed", func(run *Run, c *Cluster, par *types.RootBlock, w *wireRoot, r *Rng) int {
		// validated, one higher than the last confirmed block of its shard, but not on it
		rc := c.RootChain()
		on := map[common.Hash]bool{}
		last := map[uint32]*types.MinorBlockHeader{}
		for b := par; b != nil; b = run.W.Root[b.ParentHash()] {
			on[b.Hash()] = true
			hs := b.MinorBlockHeaders()
			for i := len(hs) - 1; i >= 0; i-- {
				if last[hs[i].Branch.Value] == nil {
					last[hs[i].Branch.Value] = hs[i]
				}
			}
		}
		for _, h := range run.W.sortedMinors() {
			b := run.W.Minor[h]
			l := last[b.Branch().Value]
			if l == nil || b.NumberU64() != l.Number+1 || b.ParentHash() == l.Hash() || !on[b.PrevRootBlockHash()] || !rc.ContainMinorBlockByHash(h) || b.Time() > w.Header.Time {
				continue
			}
			w.drop(b.Branch())
			return w.insert(b.Header())
		}
		return no
	}},
}

func (w *wireRoot) lastOf(b account.Branch) (l *types.MinorBlockHeader) {
	for _, h := range w.MinorBlockHeaders {
		if h.Branch == b {
			l = h
		}
	}
	return
}

func (w *wireRoot) drop(b account.Branch) {
	var hs types.MinorBlockHeaders
	for _, x := range w.MinorBlockHeaders {
		if x.Branch != b {
			hs = append(hs, x)
		}
	}
	w.MinorBlockHeaders = hs
}

// insert puts a header at the end of its shard's list.
func (w *wireRoot) insert(h *types.MinorBlockHeader) int {
	var hs types.MinorBlockHeaders
	put := false
	for _, x := range w.MinorBlockHeaders {
		if !put && x.Branch.Value > h.Branch.Value {
			hs = append(hs, h)
			put = true
		}
		hs = append(hs, x)
	}
	if !put {
		hs = append(hs, h)
	}
	w.MinorBlockHeaders = hs
	return refit
}

func (run *Run) fitRoot(par *types.RootBlock, w *wireRoot) {
	p := run.W.P
	w.Header.Difficulty = nextDiff(par, w.Header.Time, p.RootCutoff, p.RootFactor, p.RootDiff)
	w.Header.ToTalDifficulty = new(big.Int).Add(par.TotalDifficulty(), w.Header.Difficulty)
}

func opForgeRoot(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	run.forgeRoot(c, r)
}

func (run *Run) forgeRoot(c *Cluster, r *Rng, only ...string) {
	w := run.W
	if ids := c.Shards(); len(ids) > 0 && len(only) == 0 {
		for k := r.N(4); k > 0; k-- {
			w.Pause(time.Duration(1+r.N(12)) * time.Second)
			run.mineMinor(c, pick(r, ids), r)
		}
		if r.Pct(8) {
			id := pick(r, ids)
			for k := 0; k < 10; k++ {
				w.Pause(time.Duration(1+r.N(3)) * time.Second)
				run.mineMinor(c, id, r)
			}
		}
	}
	w.Pause(time.Duration(1+r.N(50)) * time.Second)
	if !run.settle() || !c.Up() {
		return
	}
	good, err := c.MakeRoot(run.coinbase(r, w.FullIDs[0]))
	if err != nil {
		run.template(c, 0, err)
		return
	}
	par := c.RootChain().CurrentBlock()
	if par.Hash() != good.ParentHash() {
		return
	}
	f := run.forger()
	kinds := rootForgeries
	if len(only) > 0 {
		kinds = nil
		for _, k := range rootForgeries {
			if k.name == only[0] {
				kinds = append(kinds, k)
			}
		}
	}
	for k := 1 + r.N(4); k > 0; k-- {
		kind := pick(r, kinds)
		wr := openRoot(good)
		how := kind.f(run, c, par, wr, r)
		var bad *types.RootBlock
		switch how {
		case no:
			continue
		case asIs:
			bad = wr.seal(run.rootWork(c, wr.Header))
		case refit:
			bad = run.finishRoot(c, wr, true)
		case unseal:
			bad = WrongSeal(good, run.rootWork(c, good.Header())).(*types.RootBlock)
		}
		if bad.Hash() == good.Hash() {
			continue
		}
		f.root[bad.Hash()] = kind.name
		w.count("forged root: " + kind.name)
		before := run.picture(c)
		path := ""
		if r.Pct(50) {
			path = fmt.Sprintf("as mined: %v", c.AddRoot(bad))
		} else {
			g := w.Haunt(c)
			w.Settle(20 * time.Second)
			g.Root[bad.Hash()] = bad
			g.RootTip = bad.Header()
			g.announceRoot()
			w.Settle(3 * time.Minute)
			g.Leave()
			path = fmt.Sprintf("by sync: asked %d blocks: %v", g.Asked[7], g.Err)
		}
		settled := run.settle()
		run.Log("forge: %s: root block %d %s with wrong %s, %s", c.Name, bad.Number(), short(bad.Hash()), kind.name, path)
		run.noForgery("after " + kind.name)
		run.Did("refused-root")
		if settled && c.Up() {
			if d := before.differs(run.picture(c)); d != "" {
				run.Fail("C09", "refusal-changed", "%s: after refusing a root block with wrong %s (%s): %s", c.Name, kind.name, path, d)
			}
		}
	}
	if !c.Up() || c.RootChain().CurrentBlock().Hash() != par.Hash() {
		return
	}
	what := "after refusals"
	if r.Pct(35) {
		wr := openRoot(good)
		switch r.N(4) {
		case 0:
			if k := len(wr.MinorBlockHeaders); k > 0 {
				wr.MinorBlockHeaders = wr.MinorBlockHeaders[:r.N(k)]
				what = "with fewer headers"
			}
		case 1:
			wr.Header.Coinbase.Recipient = common.BytesToAddress([]byte{0x78, byte(r.N(200))})
			what = "of another miner"
		case 2:
			wr.Header.Extra = make([]byte, int(c.Cfg.Quarkchain.BlockExtraDataSizeLimit)-r.N(2))
			what = "with long extra data"
		case 3:
			t := uint64(time.Now().Unix())
			if t > par.Time() && t >= wr.Header.Time {
				wr.Header.Time = t
				run.fitRoot(par, wr)
				what = "with another time"
			}
		}
		good = run.finishRoot(c, wr, true)
		w.noteRoot(good)
	}
	err = c.AddRoot(good)
	run.Did("good-root")
	run.Log("%s: the valid root block %d %s %s: %v", c.Name, good.Number(), short(good.Hash()), what, err)
	if run.clean(c) && (err != nil || c.RootChain().CurrentBlock().Hash() != good.Hash()) {
		run.Fail("C09", "good-refused", "%s: the valid root block %d %s %s was not accepted: %v", c.Name, good.Number(), short(good.Hash()), what, err)
	}
	run.settle()
}

// opForgeTangle first makes branches, by valid blocks, and then forges what
// joins one to the other.
func opForgeTangle(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	if !run.settle() || !c.Up() || !run.clean(c) || len(c.Shards()) == 0 {
		return
	}
	id := pick(r, c.Shards())
	if r.Pct(50) {
		run.tangleMinor(c, id, r)
	} else {
		run.tangleRoot(c, id, r)
	}
}

func (run *Run) tangleMinor(c *Cluster, id uint32, r *Rng) {
	w := run.W
	sh := c.Shard(id)
	head := func() *types.MinorBlock { return sh.MinorBlockChain.CurrentBlock() }
	base := head()
	w.Pause(time.Duration(2+r.N(10)) * time.Second)
	one, err1 := c.MakeMinor(id, run.coinbase(r, id))
	w.Pause(time.Duration(1+r.N(4)) * time.Second)
	two, err2 := c.MakeMinor(id, run.coinbase(r, id))
	if err1 != nil || err2 != nil || head().Hash() != base.Hash() || one.Hash() == two.Hash() || one.ParentHash() != two.ParentHash() {
		return
	}
	off := []*types.MinorBlock{one}
	if c.AddMinor(one) != nil || head().Hash() != one.Hash() {
		return
	}
	for k := 1 + r.N(2); k > 0; k-- {
		w.Pause(time.Duration(1+r.N(8)) * time.Second)
		b, err := c.MakeMinor(id, run.coinbase(r, id))
		if err != nil || c.AddMinor(b) != nil {
			return
		}
		off = append(off, b)
	}
	if c.AddMinor(two) != nil {
		return
	}
	w.Pause(time.Duration(10+r.N(30)) * time.Second)
	if !run.settle() || !c.Up() {
		return
	}
	rb, err := c.MakeRoot(run.coinbase(r, w.FullIDs[0]))
	if err != nil || !c.RootChain().ContainMinorBlockByHash(two.Hash()) {
		return
	}
	f := openRoot(rb)
	mine := types.MinorBlockHeaders{}
	for _, h := range f.MinorBlockHeaders {
		if h.Branch.Value == id && h.Number <= base.NumberU64() {
			mine = append(mine, h)
		}
	}
	delete(w.Root, rb.Hash())
	f.drop(two.Branch())
	for _, h := range append(mine, two.Header()) {
		f.insert(h)
	}
	if uint64(len(mine)+1) > uint64(c.Cfg.Quarkchain.GetShardConfigByFullShardID(id).MaxBlocksPerShardInOneRootBlock()) || two.Time() > f.Header.Time {
		return
	}
	if n := len(mine); n > 0 && mine[n-1].Hash() != base.Hash() {
		return
	}
	at := c.RootChain().CurrentBlock().Hash()
	root := w.noteRoot(run.finishRoot(c, f, true))
	err = c.AddRoot(root)
	run.Log("tangle: %s: root block %d %s confirms %d %s of shard %x, not its head: %v", c.Name, root.NumberU64(), short(root.Hash()), two.NumberU64(), short(two.Hash()), id, err)
	if at != root.ParentHash() || !run.clean(c) || !run.settle() || !c.Up() {
		return
	}
	if err != nil {
		run.Fail("C09,C02", "good-refused", "%s: the valid root block %d %s that confirms a block of shard %x which is not its head was not accepted: %v", c.Name, root.NumberU64(), short(root.Hash()), id, err)
		return
	}
	run.Did("tangled-minor")
	if head().Hash() == two.Hash() && r.Pct(70) {
		w.Pause(time.Duration(1+r.N(10)) * time.Second)
		good, err := c.MakeMinor(id, run.coinbase(r, id))
		if err == nil && good.ParentHash() == two.Hash() {
			k := r.N(len(off))
			par := off[k]
			wm := openMinor(good)
			wm.Header.ParentHash, wm.Header.Number = par.Hash(), par.NumberU64()+1
			wm.Txs = nil
			wm.Meta.TxHash = types.CalculateMerkleRoot(types.Transactions{})
			wm.Header.MetaHash = wm.Meta.Hash()
			s := &seed1{run: run, c: c, id: id, good: good, par: par}
			if par.Time() < wm.Header.Time && s.fitDiff(wm) {
				ran := s.derive(wm)
				bad := wm.seal(s.work(wm.Header))
				run.forger().minor[bad.Hash()] = "parent beside the confirmed block"
				how := run.offerMinor(c, bad, r)
				run.settle()
				run.Log("forge: %s shard %x: block %d %s on %s, beside the block its root reference confirms (executes: %v), %s", c.Name, id, bad.NumberU64(), short(bad.Hash()), short(par.Hash()), ran, how)
				w.count("forged minor: parent beside the confirmed block")
				run.noForgery("after a parent beside the confirmed block")
			}
		}
	}
	if run.settle() && c.Up() {
		run.forgeRoot(c, r, "a header beside the one confirmed")
	}
}

func (run *Run) tangleRoot(c *Cluster, id uint32, r *Rng) {
	w := run.W
	rc := c.RootChain()
	par := rc.CurrentBlock()
	w.Pause(time.Duration(5+r.N(20)) * time.Second)
	one, err1 := c.MakeRoot(run.coinbase(r, w.FullIDs[0]))
	w.Pause(time.Duration(1+r.N(3)) * time.Second)
	side, err2 := c.MakeRoot(run.coinbase(r, w.FullIDs[0]))
	if err1 != nil || err2 != nil || one.Hash() == side.Hash() || one.ParentHash() != par.Hash() || side.ParentHash() != par.Hash() {
		return
	}
	if c.AddRoot(one) != nil || !run.settle() || !c.Up() {
		return
	}
	w.Pause(time.Duration(5+r.N(20)) * time.Second)
	next, err := c.MakeRoot(run.coinbase(r, w.FullIDs[0]))
	if err != nil || next.ParentHash() != one.Hash() || c.AddRoot(side) != nil || !run.settle() || !c.Up() {
		return
	}
	sh := c.Shard(id)
	h := sh.MinorBlockChain.CurrentBlock()
	ref := w.Root[h.PrevRootBlockHash()]
	if ref == nil || ref.NumberU64() > par.NumberU64() {
		return
	}
	made := 0
	refs := []common.Hash{side.Hash()}
	if r.Pct(60) {
		refs = []common.Hash{par.Hash(), side.Hash()}
	}
	for _, rh := range refs {
		w.Pause(time.Duration(2+r.N(6)) * time.Second)
		good, err := c.MakeMinor(id, run.coinbase(r, id))
		if err != nil {
			return
		}
		wm := openMinor(good)
		wm.Header.PrevRootBlockHash = rh
		wm.Header.ParentHash, wm.Header.Number = h.Hash(), h.NumberU64()+1
		wm.Txs = nil
		wm.Meta.TxHash = types.CalculateMerkleRoot(types.Transactions{})
		wm.Header.MetaHash = wm.Meta.Hash()
		s := &seed1{run: run, c: c, id: id, good: good, par: h}
		if h.Time() >= wm.Header.Time || !s.fitDiff(wm) || !s.derive(wm) {
			return
		}
		b := wm.seal(s.work(wm.Header))
		w.noteMinor(b)
		err = c.AddMinor(b)
		run.Log("tangle: %s shard %x: block %d %s with root reference %s: %v", c.Name, id, b.NumberU64(), short(b.Hash()), short(rh), err)
		if err != nil {
			if run.clean(c) && rc.CurrentBlock().Hash() == one.Hash() {
				run.Fail("C08", "valid-refused", "%s shard %x: the valid block %d %s whose root reference is in another branch than the root head was not accepted: %v", c.Name, id, b.NumberU64(), short(b.Hash()), err)
			}
			return
		}
		h = b
		made++
	}
	if !run.settle() || !c.Up() {
		return
	}
	err = c.AddRoot(next)
	run.Log("tangle: %s: root block %d %s: %v", c.Name, next.NumberU64(), short(next.Hash()), err)
	if err != nil || !run.settle() || !c.Up() || rc.CurrentBlock().Hash() != next.Hash() {
		return
	}
	run.Did("tangled-root")
	w.Pause(time.Duration(5+r.N(20)) * time.Second)
	run.forgeRoot(c, r, "a header tied to another root chain")
}
