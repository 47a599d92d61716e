//go:build go1.25

package sim

import (
	"fmt"
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qkcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
)

// "posw": a few miners with changing stakes work right at the limit of what
// their stake pays for, on forks, after restarts and with cold caches.
func init() {
	register(&Scenario{
		Name: "posw",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 1 + r.N(3)
			p.Chains, p.ShardSize = 1+r.N(2), 1
			if r.Pct(20) {
				p.ShardSize = 2
			}
			p.Slaves = 1 + r.N(p.Chains*p.ShardSize)
			p.Accounts = 3 + r.N(2)
			p.PoSW = r.Pct(85)
			p.RootPoSW = !p.PoSW || r.Pct(50)
			p.PoSWWindow, p.RootWindow = uint64(2+r.N(7)), uint64(2+r.N(5))
			p.PoSWDivider, p.RootDivider = uint64(2+r.N(6)), uint64(2+r.N(10))
			p.MinorDiff, p.RootDiff = uint64(400+r.N(2000)), uint64(2000+r.N(8000))
			p.MinorFactor, p.RootFactor = uint32(8+r.N(60)), uint32(8+r.N(60))
			p.PoSWStake = new(big.Int).Div(p.Balance, big.NewInt(int64(1+r.N(6))))
			p.PoSWStake.Add(p.PoSWStake, big.NewInt(int64(r.N(3))-1))
			p.RootStake = new(big.Int).Mul(big.NewInt(int64(1000+r.N(100000))), config.QuarkashToJiaozi)
			p.NoPruning = r.Pct(25)
			p.ExtraBlocks = uint32(3 + r.N(8))
			t0 := uint64(time.Now().Unix())
			if r.Pct(20) {
				p.PoSWEnableAt = t0 + uint64(r.N(600))
			}
			if r.Pct(20) {
				p.PoSWBoostAt, p.PoSWBoostStep = t0+uint64(r.N(600)), uint64(50+r.N(300))
			}
			if r.Pct(30) {
				p.Epoch = uint64(3 + r.N(6))
				p.PoSWDecayAt = t0 + uint64(r.N(400))
			}
			p.Guardian = p.RootPoSW && r.Pct(25)
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 15+r.N(30), map[string]int{"smine": 14, "smines": 5, "sroot": 7, "sfork": 2, "stwins": 4, "stake": 5, "rstake": 3, "minor": 1, "root": 2, "txs": 2, "xtxs": 1,
				"burst": 1, "stall": 2, "heal": 2, "cut": 1, "join": 1, "crash": 1, "boot": 1, "restart": 2, "gc": 1, "leap": 1, "slow": 1, "race": 1, "check": 2})
		},
		Setup: func(run *Run) {
			joinAll(run)
			// a root block and some stake to begin with
			if run.W.P.RootPoSW {
				r := NewRng(Mix(run.C.Seed, 171))
				opRootStake(run, r, 0)
			}
		},
		Ops: map[string]func(*Run, *Rng, int){"xtxs": opXtxs, "smine": opStakeMine, "smines": opStakeMines, "sroot": opStakeRoot, "sfork": opStakeFork, "stwins": opStakeTwins, "stake": opStake, "rstake": opRootStake},
		End: func(run *Run) {
			endConverge(run)
			run.noForgery("end")
			run.poswInfo(NewRng(Mix(run.C.Seed, 172)))
		},
	})
}

// staker: few miners, one of them most of the time.
func (run *Run) staker(r *Rng) *Acct {
	if r.Pct(50) {
		return run.W.Accts[0]
	}
	return pick(r, run.W.Accts)
}

func opStakeMines(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil || len(c.Shards()) == 0 {
		return
	}
	id := pick(r, c.Shards())
	a := run.staker(r)
	for k := 2 + r.N(5); k > 0 && c.Up(); k-- {
		run.W.Pause(time.Duration(1+r.N(20)) * time.Second)
		run.stakeMine(c, id, a, r)
		if r.Pct(30) {
			a = run.staker(r)
		}
	}
	run.settle()
}

func opStakeMine(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil || len(c.Shards()) == 0 {
		return
	}
	run.W.Pause(time.Duration(1+r.N(20)) * time.Second)
	if ids := c.Shards(); c.Up() && len(ids) > 0 {
		run.stakeMine(c, pick(r, ids), run.staker(r), r)
	}
	if r.Pct(70) {
		run.settle()
	}
}

func (run *Run) stakeMine(c *Cluster, id uint32, a *Acct, r *Rng) {
	w := run.W
	cb := account.NewAddress(a.Recp, id)
	quiet := w.Busy() == 0
	var blk types.IBlock
	var diff *big.Int
	var div uint64
	err := fmt.Errorf("no answer")
	s := c.Shard(id)
	if s == nil {
		return
	}
	c.SlaveOf(id).Do(time.Minute, func() { blk, diff, div, err = s.CreateBlockToMine(&cb) })
	if err != nil {
		run.template(c, id, err)
		return
	}
	b := blk.(*types.MinorBlock)
	e := run.minorEarned(b.Header())
	if e == nil || e.need.Sign() == 0 || div == 0 {
		run.Log("%s shard %x: the model cannot tell about %d on %s", c.Name, id, b.NumberU64(), short(b.ParentHash()))
		return
	}
	if got := new(big.Int).Div(diff, new(big.Int).SetUint64(div)); got.Cmp(e.need) != 0 {
		run.Fail("C17,C16", "work-demanded", "%s shard %x: block %d for miner %x has to show work %v, by the rules %v", c.Name, id, b.NumberU64(), a.Recp[:4], got, e)
	}
	run.Did("work-demanded")
	dd := new(big.Int).SetUint64(e.divider)
	if r.Pct(35) {
		// a seal that is not enough
		var bad types.IBlock
		switch {
		case e.reduced():
			bad = WrongSeal(blk, e.need)
		case !e.on || e.divider < 2 || new(big.Int).Div(e.full, dd).Sign() == 0:
			bad = WrongSeal(blk, e.need)
		default:
			bad = SealBetween(blk, new(big.Int).Div(e.full, dd), e.full, nil)
			run.Did("tried-unearned")
		}
		if bad != nil {
			m := bad.(*types.MinorBlock)
			run.forger().minor[m.Hash()] = fmt.Sprintf("work, %v", e)
			how := run.offerMinor(c, m, r)
			run.settle()
			run.Log("%s shard %x: block %d %s with too little work, %s: %v", c.Name, id, m.NumberU64(), short(m.Hash()), how, e)
			run.noForgery("after too little work")
			return
		}
	}
	var sealed types.IBlock
	if e.reduced() {
		sealed = SealBetween(blk, e.need, e.full, nil)
	}
	if sealed == nil {
		sealed = Seal(blk, e.need)
	}
	m := w.noteMinor(sealed.(*types.MinorBlock))
	head := headHash(c, id)
	err = c.AddMinor(m)
	run.Log("%s shard %x: miner %x mines %d %s, %v: %v", c.Name, id, a.Recp[:4], m.NumberU64(), short(m.Hash()), e, err)
	if err != nil && quiet && run.clean(c) && c.Up() {
		run.Fail("C17,C08,C10", "earned-refused", "%s shard %x: block %d with the work its miner owes is refused (%v): %v", c.Name, id, m.NumberU64(), e, err)
	}
	run.mined(c, id, m, head, quiet, err)
	// the others think the same of it
	for _, o := range run.UpClusters() {
		if o == c || !r.Pct(50) || !run.settle() || !o.Up() || o.Shard(id) == nil || !run.clean(o) {
			continue
		}
		bc := o.Shard(id).MinorBlockChain
		if !bc.HasBlockAndState(m.ParentHash()) || bc.GetRootBlockByHash(m.PrevRootBlockHash()) == nil {
			continue
		}
		if err := o.AddMinor(copyMinor(m)); err != nil {
			if bc.HasBlockAndState(m.Hash()) || !o.Up() {
				continue
			}
			run.Log("%s refuses: %v", o.Name, err)
			run.Fail("C17,C10", "earned-refused-elsewhere", "%s shard %x refuses block %d %s of %s (%v): %v", o.Name, id, m.NumberU64(), short(m.Hash()), c.Name, e, err)
		}
		run.Did("agreed")
	}
}

// opStake moves an account's balance right to a limit.
func opStake(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil || len(c.Shards()) == 0 {
		return
	}
	w := run.W
	id := pick(r, c.Shards())
	a := run.staker(r)
	m := run.ledger().Block(headHash(c, id))
	if m == nil || m.err != "" || m.acc[a.Recp] == nil {
		return
	}
	bal := m.acc[a.Recp].bal[w.QKC]
	if bal == nil {
		return
	}
	top := paid(bal, w.P.PoSWStake, w.P.PoSWWindow+1)
	want := new(big.Int).Mul(w.P.PoSWStake, big.NewInt(int64(r.N(int(top)+2))))
	want.Add(want, big.NewInt(int64(r.N(3))-1))
	price := big.NewInt(int64(1 + r.N(10)))
	from, to := a, pick(r, w.Accts)
	v := new(big.Int).Sub(bal, want)
	if v.Sign() >= 0 {
		v.Sub(v, new(big.Int).Mul(price, big.NewInt(21000)))
	} else {
		from, to = to, a
		v.Neg(v)
	}
	if v.Sign() <= 0 || from == to {
		return
	}
	nonce, err := c.NextNonce(from, id)
	if err != nil {
		return
	}
	dst := to.Recp
	run.sendTx(c, w.Sign(TxSpec{From: from, To: &dst, FromKey: id, ToKey: id, Value: v, Gas: 21000, Price: price, Nonce: nonce}))
	run.settle()
}

// opRootStake changes what is staked for the root chain.
func opRootStake(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	w := run.W
	id := w.FullIDs[0]
	if c == nil || !w.P.RootPoSW || c.Shard(id) == nil {
		return
	}
	for k := 1 + r.N(2); k > 0; k-- {
		a := run.staker(r)
		nonce, err := c.NextNonce(a, id)
		if err != nil {
			return
		}
		v := new(big.Int)
		if r.Pct(75) {
			m := run.ledger().Block(headHash(c, id))
			had := new(big.Int)
			if m != nil && m.err == "" && m.acc[StakeAddr] != nil {
				if x := m.acc[StakeAddr].stor[common.BytesToHash(a.Recp.Bytes())]; x != nil {
					had = x
				}
			}
			lvl := new(big.Int).Div(had, w.P.RootStake)
			v.Mul(w.P.RootStake, lvl.Add(lvl, big.NewInt(int64(1+r.N(2)))))
			v.Add(v, big.NewInt(int64(r.N(3))-1)).Sub(v, had)
			if v.Sign() < 0 {
				v.SetInt64(0)
			}
		}
		dst := StakeAddr
		run.sendTx(c, w.Sign(TxSpec{From: a, To: &dst, FromKey: id, ToKey: id, Value: v, Gas: 90000, Price: big.NewInt(2), Nonce: nonce}))
	}
	w.Pause(time.Duration(5+r.N(10)) * time.Second)
	run.mineMinor(c, id, r)
	run.settle()
	if r.Pct(50) && c.Up() {
		w.Pause(time.Duration(20+r.N(40)) * time.Second)
		run.mineRoot(c, r)
		run.settle()
	}
}

func opStakeRoot(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	run.W.Pause(time.Duration(10+r.N(60)) * time.Second)
	run.stakeRoot(c, run.staker(r), r, false)
}

func (run *Run) stakeRoot(c *Cluster, a *Acct, r *Rng, honest bool) {
	w := run.W
	if !c.Up() {
		return
	}
	cb := account.NewAddress(a.Recp, w.FullIDs[0])
	quiet := w.Busy() == 0
	var blk types.IBlock
	var diff *big.Int
	var div uint64
	err := fmt.Errorf("no answer")
	c.M.Do(time.Minute, func() { blk, diff, div, err = c.M.Master.CreateBlockToMine(&cb) })
	if err != nil {
		run.template(c, 0, err)
		return
	}
	h := blk.(*types.RootBlock).Header()
	if e := run.rootEarned(h, false); e != nil && e.need.Sign() > 0 && div > 0 {
		if got := new(big.Int).Div(diff, new(big.Int).SetUint64(div)); got.Cmp(e.need) != 0 {
			run.Fail("C17,C16", "root-work-demanded", "%s: root block %d for miner %x has to show work %v, by the rules %v", c.Name, h.NumberU64(), a.Recp[:4], got, e)
		}
		run.Did("root-work-demanded")
	}
	// sign as the staker, as another, or not
	var sig *[65]byte
	signer := a
	if !honest {
		switch r.N(6) {
		case 0:
			signer = pick(r, w.Accts)
		case 1:
			signer = nil
		}
	}
	if signer != nil {
		if w.P.Guardian && signer == w.Accts[0] && r.Pct(50) {
			return
		}
		x, err := crypto.Sign(h.SealHash().Bytes(), signer.Key)
		if err != nil {
			panic(err)
		}
		sig = new([65]byte)
		copy(sig[:], x)
	}
	// the difficulty depends on the signature, the seal does not
	probe := blk.WithMingResult(0, common.Hash{}, sig).(*types.RootBlock)
	e := run.rootEarned(probe.Header(), true)
	if e == nil || e.need.Sign() == 0 {
		return
	}
	dd := new(big.Int).SetUint64(e.divider)
	if !honest && r.Pct(35) {
		lo := new(big.Int).Div(e.full, dd)
		if e.reduced() || !e.on {
			lo = new(big.Int).Div(e.need, big.NewInt(3))
		} else {
			run.Did("tried-root-unearned")
		}
		if lo.Sign() == 0 || lo.Cmp(e.need) >= 0 {
			return
		}
		bad := SealBetween(probe, lo, e.need, sig)
		if bad == nil {
			return
		}
		m := bad.(*types.RootBlock)
		run.forger().root[m.Hash()] = fmt.Sprintf("work, %v", e)
		err := c.AddRoot(m)
		run.settle()
		run.Log("%s: root block %d %s with too little work (unsigned=%v): %v: %v", c.Name, m.NumberU64(), short(m.Hash()), e.unsigned, e, err)
		run.noForgery("after too little work")
		return
	}
	var sealed types.IBlock
	if e.reduced() {
		sealed = SealBetween(probe, e.need, e.full, sig)
	}
	if sealed == nil {
		sealed = SealBetween(probe, e.need, new(big.Int).Lsh(big.NewInt(1), 200), sig)
	}
	if sealed == nil {
		return
	}
	m := w.noteRoot(sealed.(*types.RootBlock))
	err = c.AddRoot(m)
	run.Log("%s: miner %x mines root %d %s headers=%d, %v: %v", c.Name, a.Recp[:4], m.NumberU64(), short(m.Hash()), len(m.MinorBlockHeaders()), e, err)
	if err != nil && quiet && run.clean(c) && c.Up() {
		run.Fail("C17,C09,C10", "root-earned-refused", "%s: root block %d with the work its miner owes is refused (%v): %v", c.Name, m.NumberU64(), e, err)
	}
	run.minedRoot(c, m, quiet, err)
	if r.Pct(80) {
		run.settle()
	}
}

// opStakeFork: one cluster is alone for a while and starts again before it
// learns of the longer root chain the others made with their stakes.
func opStakeFork(run *Run, r *Rng, n int) {
	w := run.W
	c := run.somewhere(r)
	if c == nil || len(w.Clusters) < 2 {
		return
	}
	for _, o := range w.Clusters {
		if l := w.LinkOf(c, o); o != c && l != nil {
			l.Stall()
			w.count("partition")
		}
	}
	run.Log("%s is alone", c.Name)
	a := run.staker(r)
	id := pick(r, w.FullIDs)
	one := func(o *Cluster, roots int) {
		for ; roots > 0; roots-- {
			for k := 1 + r.N(4); k > 0 && o.Up() && o.Shard(id) != nil; k-- {
				w.Pause(time.Duration(5+r.N(10)) * time.Second)
				run.mineMinor(o, id, r)
			}
			w.Pause(time.Duration(20+r.N(40)) * time.Second)
			run.stakeRoot(o, a, r, true)
		}
	}
	one(c, 1+r.N(2))
	for _, o := range run.UpClusters() {
		if o != c {
			one(o, 2+r.N(3))
			break
		}
	}
	if c.Up() && r.Pct(70) {
		run.restart(c)
	}
	opHeal(run, r, 0)
}

// opStakeTwins: two clusters go on from the same block with different miners, each then
// sees the other's branch without leaving its own, and goes on.
func opStakeTwins(run *Run, r *Rng, n int) {
	w := run.W
	run.settle()
	up := run.UpClusters()
	if len(up) == 0 {
		return
	}
	a := pick(r, up)
	b := pick(r, up)
	if len(a.Shards()) == 0 || !run.clean(a) || !run.clean(b) {
		return
	}
	id := pick(r, a.Shards())
	if b.Shard(id) == nil || headHash(a, id) != headHash(b, id) {
		return
	}
	for _, l := range w.sortedLinks() {
		l.Stall()
	}
	w.count("partition")
	// with one cluster the twins are both prepared before either is offered
	make := func(c *Cluster, who *Acct) *types.MinorBlock {
		cb := account.NewAddress(who.Recp, id)
		var blk types.IBlock
		err := fmt.Errorf("no answer")
		s := c.Shard(id)
		if s == nil {
			return nil
		}
		c.SlaveOf(id).Do(time.Minute, func() { blk, _, _, err = s.CreateBlockToMine(&cb) })
		if err != nil {
			run.template(c, id, err)
			return nil
		}
		e := run.minorEarned(blk.(*types.MinorBlock).Header())
		if e == nil || e.need.Sign() == 0 {
			return nil
		}
		return w.noteMinor(Seal(blk, e.need).(*types.MinorBlock))
	}
	give := func(c *Cluster, m *types.MinorBlock, own bool) {
		quiet, head := w.Busy() == 0, headHash(c, id)
		err := c.AddMinor(m)
		run.Log("%s shard %x: %d %s of miner %s (twin): %v", c.Name, id, m.NumberU64(), short(m.Hash()), m.Coinbase().ToHex()[:10], err)
		if own {
			run.mined(c, id, m, head, quiet, err)
		}
	}
	branch := func(c *Cluster, first *types.MinorBlock, k int) (l []*types.MinorBlock) {
		for m := first; m != nil; k-- {
			l = append(l, m)
			give(c, m, true)
			if k <= 1 || !c.Up() {
				break
			}
			w.Pause(time.Duration(1+r.N(20)) * time.Second)
			m = make(c, run.staker(r))
		}
		return
	}
	w.Pause(time.Duration(1+r.N(10)) * time.Second)
	one, two := make(a, run.staker(r)), make(b, run.staker(r))
	if one == nil || two == nil || one.Hash() == two.Hash() {
		opHeal(run, r, 0)
		return
	}
	k := 1 + r.N(3)
	left := branch(a, one, k)
	var right []*types.MinorBlock
	if a == b {
		right = append(right, two)
	} else {
		right = branch(b, two, k)
	}
	for _, m := range right {
		if a.Up() && a.Shard(id) != nil {
			give(a, m, false)
		}
	}
	for _, m := range left {
		if b != a && b.Up() && b.Shard(id) != nil {
			give(b, m, false)
		}
	}
	w.count("twins")
	for k := 1 + r.N(4); k > 0 && a.Up(); k-- {
		w.Pause(time.Duration(1+r.N(20)) * time.Second)
		run.stakeMine(a, id, run.staker(r), r)
	}
	opHeal(run, r, 0)
}

// poswInfo: what the nodes tell about the stakes of a block is what was applied.
func (run *Run) poswInfo(r *Rng) {
	w := run.W
	for _, c := range run.UpClusters() {
		if !run.clean(c) {
			continue
		}
		type answer struct {
			Effective *hexutil.Big   `json:"effectiveDifficulty"`
			Mineable  hexutil.Uint64 `json:"poswMineableBlocks"`
			Mined     hexutil.Uint64 `json:"poswMinedBlocks"`
			Applied   bool           `json:"stakingApplied"`
		}
		compare := func(what string, x *answer, e *earned) {
			run.Did("posw-info")
			if x.Effective == nil {
				if e.on {
					run.Fail("C17,C12", "posw-info", "%s: nothing is told about the stakes of %s: %v", c.Name, what, e)
				}
				return
			}
			if x.Effective.ToInt().Cmp(e.need) != 0 || x.Applied != e.reduced() {
				run.Fail("C17,C12", "posw-info", "%s: %s is told to have had difficulty %v (staking applied %v), by the rules %v", c.Name, what, x.Effective.ToInt(), x.Applied, e)
			}
			if uint64(x.Mined) != e.count+1 || !e.unsigned && uint64(x.Mineable) != e.may {
				run.Fail("C17,C12", "posw-info", "%s: %s is told as %d mined of %d paid, by the rules (before it) %v", c.Name, what, x.Mined, x.Mineable, e)
			}
		}
		if w.P.PoSW {
			for _, id := range c.Shards() {
				bc := c.Shard(id).MinorBlockChain
				for k := 0; k < 4; k++ {
					top := bc.CurrentBlock().NumberU64()
					if top == 0 {
						break
					}
					n := top - uint64(r.N(int(min(top, 6))))
					b, _ := bc.GetBlockByNumber(n).(*types.MinorBlock)
					if b == nil {
						continue
					}
					e := run.minorEarned(b.Header())
					var x *answer
					err := run.jrpc(c, &x, "qkc_getMinorBlockByHeight", hx(uint64(id)), hx(n), false, true)
					if err != nil || x == nil || e == nil {
						continue
					}
					compare(fmt.Sprintf("block %d of shard %x", n, id), x, e)
				}
			}
		}
		if w.P.RootPoSW {
			rc := c.RootChain()
			for k := 0; k < 4; k++ {
				top := rc.CurrentBlock().NumberU64()
				if top == 0 {
					break
				}
				n := top - uint64(r.N(int(min(top, 6))))
				b, _ := rc.GetBlockByNumber(n).(*types.RootBlock)
				if qkcom.IsNil(b) {
					continue
				}
				e := run.rootEarned(b.Header(), true)
				var x *answer
				err := run.jrpc(c, &x, "qkc_getRootBlockByHeight", hx(n), true)
				if err != nil || x == nil || e == nil || e.guardian || e.noStake {
					continue
				}
				if s := c.Shard(w.FullIDs[0]); s == nil || !s.MinorBlockChain.HasBlockAndState(e.confirmed) {
					continue // pruned
				}
				compare(fmt.Sprintf("root block %d", n), x, e)
			}
		}
	}
}
