//go:build go1.25

package sim

import (
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/ethereum/go-ethereum/common"
)

// "pool": submissions of every kind against pools whose chains move and fork.
func init() {
	register(&Scenario{
		Name: "pool",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 1 + r.N(2)
			p.Chains = 1 + r.N(2)
			p.ShardSize = 1 + r.N(2)
			p.Slaves = 1
			p.Accounts = 3 + r.N(3)
			p.NoPruning = r.Pct(50)
			if r.Pct(15) {
				p.PoolLimit = uint64(2 + r.N(12))
			}
			if r.Pct(30) {
				p.MinPoolPrice = int64(2 + r.N(6))
			}
			p.MinMinePrice = p.MinPoolPrice
			if r.Pct(20) {
				p.MinMinePrice = int64(1 + r.N(8))
			}
			if r.Pct(20) && p.Chains*p.ShardSize > 1 {
				p.LateShard = uint32(1 + r.N(3))
			}
			if r.Pct(30) {
				p.GasLimit = uint64(200000 + r.N(400000))
			}
			if r.Pct(40) {
				p.GasMgr = 1e15
				if r.Pct(40) {
					p.GasMgr = int64(500000 + r.N(5000000))
				}
			}
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 25+r.N(50), map[string]int{"clock": 1, "ptx": 30, "ptxs": 4, "prace": 5, "gossip": 4, "drain": 2, "minor": 8, "minors": 3, "root": 5, "race": 4, "fork": 6, "adv": 1, "leap": 1,
				"burst": 2, "cut": 2, "join": 3, "stall": 1, "heal": 1, "restart": 1, "psettle": 6})
		},
		Setup: joinAll,
		Ops:   map[string]func(run *Run, r *Rng, n int){"ptx": opPtx, "ptxs": opPtxs, "prace": opPrace, "gossip": opGossip, "drain": opDrain, "psettle": opPsettle, "fork": opFork},
		End: func(run *Run) {
			endConverge(run)
			run.checkPools()
			run.drainPools()
			run.settle()
			run.checkPools()
		},
	})
}

func opPsettle(run *Run, r *Rng, n int) {
	if run.settle() {
		run.checkPools()
	}
}

// poolTx makes a transaction to try a pool with.
func (run *Run) poolTx(c *Cluster, r *Rng) *types.Transaction {
	if ids := c.Shards(); len(ids) > 0 {
		return run.poolTxAt(c, pick(r, ids), r)
	}
	return nil
}

func (run *Run) poolTxAt(c *Cluster, id uint32, r *Rng) *types.Transaction {
	w := run.W
	from := pick(r, w.Accts)
	v := run.poolView(c, id)
	if v == nil {
		return nil
	}
	base := v.st.GetNonce(from.Recp)
	next := base + uint64(len(v.pend[from.Recp]))
	t := TxSpec{From: from, FromKey: id, ToKey: id, Value: big.NewInt(int64(r.N(1000000))), Gas: 21000, Price: big.NewInt(w.P.MinPoolPrice + int64(r.N(30))), Nonce: next}
	to := pick(r, w.Accts).Recp
	t.To = &to
	if r.Pct(25) {
		t.ToKey = pick(r, w.FullIDs)
		if t.ToKey != id {
			t.Gas = 30000
		}
	}
	switch {
	case r.Pct(12):
		to = CounterAddr
		t.Gas = 100000
	case r.Pct(4):
		to = RevertAddr
		t.Gas = 100000
	case r.Pct(8):
		t.To, t.Gas, t.Data, t.ToKey = nil, 140000, initCode(counterCode), id
	}
	if r.Pct(10) {
		t.Token = w.Tok2
	}
	switch x := r.N(100); {
	case x < 40:
	case x < 52:
		t.Nonce = next + uint64(1+r.N(4)) // leaves a gap
	case x < 56:
		t.Nonce = base + uint64(r.N(int(next-base)+5))
	case x < 76 && len(v.at) > 0:
		// in place of another one
		var mine []slot
		for _, s := range slotsOf(v.at) {
			if s.from == from.Recp {
				mine = append(mine, s)
			}
		}
		if len(mine) == 0 {
			break
		}
		s := pick(r, mine)
		old := v.at[s].EvmTx
		t.Nonce = s.nonce
		p := new(big.Int).Set(old.GasPrice())
		switch r.N(7) {
		case 0:
		case 1:
			p.Sub(p, big.NewInt(1))
		case 2:
			p.Add(p, big.NewInt(1))
		case 3:
			p.Mul(p, big.NewInt(110))
			p.Div(p, big.NewInt(100))
		case 4:
			p.Mul(p, big.NewInt(110))
			p.Div(p, big.NewInt(100))
			p.Sub(p, big.NewInt(1))
		case 5:
			p.Mul(p, big.NewInt(109))
			p.Div(p, big.NewInt(100))
		default:
			p.Mul(p, big.NewInt(int64(111+r.N(60))))
			p.Div(p, big.NewInt(100))
			p.Add(p, big.NewInt(1))
		}
		t.Price = p
		t.Value = big.NewInt(int64(r.N(1000000)))
	case x < 80:
		t.Price = big.NewInt(int64(r.N(int(w.P.MinPoolPrice) + 1)))
	case x < 83:
		// more than there is
		t.Value = new(big.Int).Add(v.st.GetBalance(from.Recp, w.QKC), big.NewInt(int64(r.N(3))-1))
		if r.Pct(50) {
			t.Value.Sub(t.Value, new(big.Int).Mul(t.Price, new(big.Int).SetUint64(t.Gas)))
			t.Value.Add(t.Value, big.NewInt(1))
		}
		t.Token = w.QKC
		if !run.poor(from.Recp) {
			// never affordable, so that nobody but the poor loses it
			t.Value = new(big.Int).Mul(v.st.GetBalance(from.Recp, w.QKC), big.NewInt(3))
		}
	case x < 85:
		t.Network = pick(r, []uint32{1, 2, 4, 255})
	case x < 87:
		t.FromKey = pick(r, w.FullIDs)
	case x < 88:
		t.FromKey |= uint32(r.N(4)) << 16
	case x < 89:
		t.ToKey |= uint32(r.N(4)) << 16
	case x < 91:
		t.Gas = w.P.GasLimit/2 + uint64(r.N(3)) - 1
		if r.Pct(50) {
			t.Gas = w.P.GasLimit + uint64(r.N(3)) - 1
		}
	case x < 92:
		t.Gas -= uint64(1 + r.N(10))
	case x < 93 || w.P.GasMgr > 0 && r.Pct(40):
		t.GasToken = w.Tok2
	case x < 96:
		// one the world has seen before
		if len(w.Txs) > 0 {
			var hs = hashesOf(w.Txs)
			return copyTx(w.Txs[pick(r, hs)])
		}
	case x < 97:
		t.Token = 7777
	case x < 99:
		t.Nonce = next + uint64(60+r.N(10))
	default:
		if base > 0 {
			t.Nonce = base - 1
		}
	}
	if t.Value.Sign() < 0 {
		t.Value = new(big.Int)
	}
	if t.Price.Sign() < 0 {
		t.Price = new(big.Int)
	}
	return w.Sign(t)
}

func opPtx(run *Run, r *Rng, n int) {
	if c := run.somewhere(r); c != nil {
		opPtxAt(run, r, c)
	}
}

func opPtxs(run *Run, r *Rng, n int) {
	for k := 3 + r.N(8); k > 0; k-- {
		opPtx(run, r, 0)
	}
}

// opDrain lets a poor account send away nearly all it has, which leaves its
// other transactions without funds.
func opDrain(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	w := run.W
	ids := c.Shards()
	if len(ids) == 0 {
		return
	}
	id, from := pick(r, ids), w.Accts[0]
	v := run.poolView(c, id)
	if v == nil {
		return
	}
	left := big.NewInt(int64(r.N(2000000)))
	price := big.NewInt(w.P.MinPoolPrice + int64(5+r.N(10)))
	val := new(big.Int).Sub(v.st.GetBalance(from.Recp, w.QKC), new(big.Int).Mul(price, big.NewInt(21000)))
	val.Sub(val, left)
	if val.Sign() < 0 {
		// refill
		rich := pick(r, w.Accts[1:])
		t := TxSpec{From: rich, FromKey: id, ToKey: id, To: &from.Recp, Value: big.NewInt(int64(1000000 + r.N(100000000))), Gas: 21000, Price: price, Nonce: v.st.GetNonce(rich.Recp) + uint64(len(v.pend[rich.Recp]))}
		run.offer(c, w.Sign(t))
		return
	}
	t := TxSpec{From: from, FromKey: id, ToKey: id, To: &w.Accts[1].Recp, Value: val, Gas: 21000, Price: price, Nonce: v.st.GetNonce(from.Recp)}
	if len(v.pend[from.Recp]) > 0 {
		old := v.pend[from.Recp][0].EvmTx.GasPrice()
		t.Price = new(big.Int).Add(new(big.Int).Mul(old, big.NewInt(2)), big.NewInt(1))
		t.Value.Sub(t.Value, new(big.Int).Mul(t.Price, big.NewInt(21000)))
		if t.Value.Sign() < 0 {
			return
		}
	}
	run.Did("drain")
	run.offer(c, w.Sign(t))
}

// opPrace lets submissions and blocks race within a shard.
func opPrace(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	w := run.W
	ids := c.Shards()
	if len(ids) == 0 {
		return
	}
	w.Pause(time.Duration(5+r.N(30)) * time.Second)
	id := pick(r, ids)
	for k := 3 + r.N(6); k > 0; k-- {
		sub := NewRng(r.U64())
		w.jobs++
		go func() {
			defer func() { w.jobs-- }()
			switch x := sub.N(10); {
			case x < 2:
				run.mineMinor(c, id, sub)
			case x < 3:
				run.mineRoot(c, sub)
			default:
				for j := 1 + sub.N(3); j > 0; j-- {
					if tx := run.poolTx(c, sub); tx != nil {
						run.sendTx(c, tx)
					}
				}
			}
		}()
		if sub.Pct(30) {
			w.Pause(time.Duration(sub.N(2000)) * time.Microsecond)
		}
	}
	run.Did("prace")
	if r.Pct(80) && run.settle() {
		run.checkPools()
	}
}

// opFork lets the clusters extend different chains of a shard apart from each
// other, with transactions, and brings them together again.
func opFork(run *Run, r *Rng, n int) {
	w := run.W
	up := run.UpClusters()
	if len(up) < 2 {
		return
	}
	cut := r.Pct(50)
	for _, l := range w.sortedLinks() {
		if cut {
			l.close()
			w.count("disconnect")
		} else if l.stall == nil {
			l.Stall()
			w.count("partition")
		}
	}
	id := pick(r, w.FullIDs)
	for _, c := range up {
		for k := r.N(5); k > 0; k-- {
			for j := r.N(4); j > 0; j-- {
				opPtxAt(run, r, c)
			}
			w.Pause(time.Duration(5+r.N(30)) * time.Second)
			if c.Shard(id) != nil {
				run.mineMinor(c, id, r)
			}
		}
		if r.Pct(40) {
			w.Pause(time.Duration(20+r.N(100)) * time.Second)
			run.mineRoot(c, r)
		}
	}
	for _, l := range w.sortedLinks() {
		l.Heal()
	}
	if cut {
		for _, p := range w.pairs() {
			w.Connect(p[0], p[1])
		}
	}
	run.Did("fork")
	if r.Pct(70) && run.settle() {
		run.checkPools()
	}
}

func opPtxAt(run *Run, r *Rng, c *Cluster) {
	if !c.Up() {
		return
	}
	if tx := run.poolTx(c, r); tx != nil {
		run.offer(c, tx)
	}
}

// opGossip lets a peer send a list of transactions, good and bad ones mixed,
// and another peer hear what the node passes on.
func opGossip(run *Run, r *Rng, n int) {
	w := run.W
	c := run.somewhere(r)
	if c == nil || !run.clean(c) {
		return
	}
	ids := c.Shards()
	if len(ids) == 0 {
		return
	}
	id := pick(r, ids)
	teller, listener := w.Haunt(c), w.Haunt(c)
	heard := map[common.Hash]bool{}
	listener.OnMsg = func(op p2p.P2PCommandOp, meta p2p.Metadata, data []byte) {
		if op != p2p.NewTransactionListMsg {
			return
		}
		var l p2p.NewTransactionList
		if serialize.DeserializeFromBytes(data, &l) == nil {
			for _, t := range l.TransactionList {
				heard[t.Hash()] = true
			}
		}
	}
	defer teller.Leave()
	defer listener.Leave()
	w.Pause(time.Second)
	if !run.settle() || !c.Up() || teller.Gone || listener.Gone {
		return
	}
	boots := c.Boots
	v := run.poolView(c, id)
	if v == nil {
		return
	}
	head, was := v.head.Hash(), len(v.all)
	var list []*types.Transaction
	good := map[common.Hash]bool{}
	for k := 2 + r.N(6); k > 0; k-- {
		t := run.poolTxAt(c, id, r)
		if t == nil {
			return
		}
		list = append(list, t)
		if v.refused(run, id, t) == "" {
			from, _ := senderOf(t)
			sl := slot{from, t.EvmTx.Nonce()}
			if old := v.at[sl]; old != nil {
				delete(v.all, old.Hash())
				delete(good, old.Hash())
			}
			v.at[sl], v.all[t.Hash()] = t, true
			good[t.Hash()] = true
		}
	}
	var wire []*types.Transaction
	for _, t := range list {
		wire = append(wire, copyTx(t))
	}
	heard = map[common.Hash]bool{}
	teller.send(p2p.NewTransactionListMsg, id, 0, &p2p.NewTransactionList{TransactionList: wire})
	w.Pause(time.Second)
	quiet := run.settle()
	a := run.poolView(c, id)
	if !quiet || a == nil || a.head.Hash() != head || c.Boots != boots || !run.clean(c) {
		return
	}
	run.Log("%s shard %x is told of %d transactions over %d, %d of them fine", c.Name, id, len(list), was, len(good))
	run.Did("gossip")
	for _, t := range list {
		h := t.Hash()
		if v.all[h] && !a.all[h] {
			run.Fail(poolProps, "gossip-refused", "%s shard %x hears of tx %s (nonce %d), which is fine, and does not take it", c.Name, id, short(h), t.EvmTx.Nonce())
		}
		if !v.all[h] && a.all[h] {
			run.Fail(poolProps, "gossip-took", "%s shard %x hears of tx %s and takes it although it must not", c.Name, id, short(h))
		}
		if good[h] && !heard[h] && !listener.Gone {
			run.Fail(poolProps, "gossip-kept", "%s shard %x takes tx %s from a peer and does not pass it on", c.Name, id, short(h))
		}
		if !v.all[h] && heard[h] && v.invalid(run, id, t) != "" {
			run.Fail(poolProps, "gossip-passed", "%s shard %x passes on tx %s, which it refused: %s", c.Name, id, short(h), v.invalid(run, id, t))
		}
		if good[h] {
			run.accepted(c, id, t)
		}
	}
}
