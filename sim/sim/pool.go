//go:build go1.25

package sim

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/state"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
)

// The pool oracle (C11): what a shard's pool must take and refuse, what must be
// in it, and what it may offer, computed from the shard's head state and from
// the transactions themselves.

const poolProps = "C11"

type slot struct {
	from  common.Address
	nonce uint64
}

// poolView is a pool as its users see it, with the state of the shard's head.
type poolView struct {
	head        *types.MinorBlock
	rootTip     uint32
	st          *state.StateDB
	pend, queue map[common.Address]types.Transactions
	at          map[slot]*types.Transaction
	all         map[common.Hash]bool
}

func (run *Run) poolView(c *Cluster, id uint32) *poolView {
	s := c.Shard(id)
	if s == nil {
		return nil
	}
	m := s.MinorBlockChain
	p := fieldOf[*core.TxPool](m)
	v := &poolView{head: m.CurrentBlock(), at: map[slot]*types.Transaction{}, all: map[common.Hash]bool{}}
	v.pend, v.queue = p.Content()
	for _, t := range p.GetAllTxInPool() {
		v.all[t.Hash()] = true
	}
	for _, l := range []map[common.Address]types.Transactions{v.queue, v.pend} {
		for a, ts := range l {
			for _, t := range ts {
				v.at[slot{a, t.EvmTx.Nonce()}] = t
			}
		}
	}
	if t := fieldOf[*types.RootBlock](m); t != nil {
		v.rootTip = t.Number()
	}
	st, err := m.StateAt(v.head.Root())
	if err != nil || m.CurrentBlock().Hash() != v.head.Hash() {
		return nil
	}
	v.st = st
	return v
}

func senderOf(t *types.Transaction) (common.Address, error) {
	e := copyTx(t).EvmTx
	return types.Sender(types.MakeSigner(e.NetworkId()), e)
}

func needGas(e *types.EvmTransaction) uint64 {
	g := uint64(21000)
	if e.To() == nil {
		g = 53000
	}
	for _, b := range e.Data() {
		if b == 0 {
			g += 4
		} else {
			g += 68
		}
	}
	if e.FromFullShardKey() != e.ToFullShardKey() && e.FromFullShardId() != e.ToFullShardId() {
		g += 9000
	}
	return g
}

// invalid says why a transaction does not belong in the pool of shard id, "" if it does.
func (v *poolView) invalid(run *Run, id uint32, tx *types.Transaction) string {
	w := run.W
	t := copyTx(tx)
	e := t.EvmTx
	from, err := senderOf(tx)
	if err != nil {
		return "signature"
	}
	size := uint32(w.P.ShardSize)
	e.SetFromShardSize(size)
	e.SetToShardSize(size)
	if e.NetworkId() != 3 {
		return "network"
	}
	if int(e.FromFullShardKey()>>16) >= w.P.Chains || int(e.ToFullShardKey()>>16) >= w.P.Chains {
		return "no such chain"
	}
	if e.FromFullShardId() != id {
		return "shard"
	}
	if e.FromFullShardId() != e.ToFullShardId() {
		if h := w.Root0(e.ToFullShardId()); h >= v.rootTip {
			return "destination not started"
		}
		if !w.Near(id, e.ToFullShardId(), v.rootTip) {
			return "destination is not near"
		}
		if e.Gas() > w.P.GasLimit/2 {
			return "gas above the cross-shard limit"
		}
	}
	price := w.gasPrice(e)
	if price.Cmp(big.NewInt(w.P.MinPoolPrice)) < 0 {
		return "price"
	}
	if e.Gas() > v.head.GasLimit().Uint64() {
		return "gas above the block limit"
	}
	if e.Gas() < needGas(e) {
		return "intrinsic gas"
	}
	if e.Nonce() < v.st.GetNonce(from) {
		return "nonce used"
	}
	need := map[uint64]*big.Int{e.TransferTokenID(): new(big.Int).Set(e.Value())}
	if need[e.GasTokenID()] == nil {
		need[e.GasTokenID()] = new(big.Int)
	}
	need[e.GasTokenID()].Add(need[e.GasTokenID()], new(big.Int).Mul(e.GasPrice(), new(big.Int).SetUint64(e.Gas())))
	for tok, n := range need {
		bal := v.st.GetBalance(from, tok)
		if bal.Cmp(n) < 0 {
			return "funds"
		}
		if tok != w.QKC && bal.Sign() == 0 {
			return "no such token"
		}
	}
	if e.GasTokenID() != w.QKC && e.GasPrice().Sign() != 0 && (w.P.GasMgr == 0 || price.Sign() == 0) {
		return "gas token"
	}
	if e.GasTokenID() != w.QKC && e.GasPrice().Sign() != 0 && v.st.GetBalance(GasMgrAddr, w.QKC).Cmp(new(big.Int).Mul(price, new(big.Int).SetUint64(e.Gas()))) < 0 {
		return "gas reserve"
	}
	return ""
}

// refused says why the pool must refuse a transaction sent to it now.
func (v *poolView) refused(run *Run, id uint32, tx *types.Transaction) string {
	if v.all[tx.Hash()] {
		return "known"
	}
	if why := v.invalid(run, id, tx); why != "" {
		return why
	}
	if uint64(len(v.all)) > run.W.P.PoolLimit {
		return "full"
	}
	from, _ := senderOf(tx)
	if old := v.at[slot{from, tx.EvmTx.Nonce()}]; old != nil {
		min := new(big.Int).Mul(old.EvmTx.GasPrice(), big.NewInt(110))
		min.Div(min, big.NewInt(100))
		if p := tx.EvmTx.GasPrice(); p.Cmp(old.EvmTx.GasPrice()) <= 0 || p.Cmp(min) < 0 {
			return "replacement price"
		}
	}
	return ""
}

// offers is the judgement over one submission: what came of it, against what had to.
func (run *Run) offer(c *Cluster, tx *types.Transaction) {
	if len(tx.EvmTx.Data()) > 20000 {
		run.sendTx(c, tx)
		return
	}
	w := run.W
	e := copyTx(tx).EvmTx
	e.SetFromShardSize(uint32(w.P.ShardSize))
	var id uint32
	if int(e.FromFullShardKey()>>16) < w.P.Chains {
		id = e.FromFullShardId()
	}
	s := c.Shard(id)
	if s == nil {
		if err := run.sendTx(c, tx); err == nil && run.clean(c) && c.Up() {
			run.Fail(poolProps, "took-nowhere", "%s takes tx %s although it has no shard %x for it", c.Name, short(tx.Hash()), id)
		}
		return
	}
	quiet := run.settle()
	boots := c.Boots
	before := run.poolView(c, id)
	err := run.sendTx(c, tx)
	if before == nil || !quiet || !run.clean(c) || !c.Up() || c.Boots != boots {
		return
	}
	after := run.poolView(c, id)
	if after == nil || after.head.Hash() != before.head.Hash() || after.rootTip != before.rootTip {
		return
	}
	h := tx.Hash()
	for x := range before.all {
		if !after.all[x] && x != h {
			if t := w.Txs[x]; t == nil || t.EvmTx.Nonce() != tx.EvmTx.Nonce() {
				return // something else happened to the pool too
			}
		}
	}
	for x := range after.all {
		if !before.all[x] && x != h {
			return
		}
	}
	run.Did("offer")
	why := before.refused(run, id, tx)
	from, _ := senderOf(tx)
	sl := slot{from, tx.EvmTx.Nonce()}
	old := before.at[sl]
	switch {
	case err == nil && why != "":
		run.Fail(poolProps, "took", "%s shard %x takes tx %s which it must refuse: %s", c.Name, id, short(h), why)
	case err != nil && why == "":
		run.Fail(poolProps, "refused", "%s shard %x refuses tx %s (nonce %d, the head's nonce is %d), which is fine: %v", c.Name, id, short(h), sl.nonce, before.st.GetNonce(from), err)
	case err == nil:
		if !after.all[h] || after.at[sl] == nil || after.at[sl].Hash() != h {
			run.Fail(poolProps, "not-there", "%s shard %x takes tx %s, then it is not in its pool", c.Name, id, short(h))
		}
		if old != nil && after.all[old.Hash()] {
			run.Fail(poolProps, "both-there", "%s shard %x has tx %s and its replacement %s in its pool", c.Name, id, short(old.Hash()), short(h))
		}
		if old != nil {
			run.Did("replaced")
		}
	default:
		run.State("refused " + why)
		if why != "known" && after.all[h] {
			run.Fail(poolProps, "there", "%s shard %x refuses tx %s (%s) but has it in its pool", c.Name, id, short(h), why)
		}
		if old != nil && !after.all[old.Hash()] {
			run.Fail(poolProps, "old-gone", "%s shard %x refuses tx %s (%s), and the transaction it would have replaced is gone", c.Name, id, short(h), why)
		}
	}
	if err == nil {
		run.accepted(c, id, tx)
	}
}

// accepted transactions of a cluster's process, by shard.
type poolModel struct {
	boots int
	took  map[common.Hash]*types.Transaction
	canon map[common.Hash]*types.Transaction // in the chain at some settled moment
}

func (run *Run) poolModel(c *Cluster, id uint32) *poolModel {
	k := fmt.Sprintf("pool %s %x", c.Name, id)
	m, _ := run.X[k].(*poolModel)
	if m == nil || m.boots != c.Boots {
		m = &poolModel{c.Boots, map[common.Hash]*types.Transaction{}, map[common.Hash]*types.Transaction{}}
		run.X[k] = m
	}
	return m
}

func (run *Run) accepted(c *Cluster, id uint32, tx *types.Transaction) {
	run.poolModel(c, id).took[tx.Hash()] = tx
}

// poor accounts may lose the funds their transactions need.
func (run *Run) poor(a common.Address) bool { return a == run.W.Accts[0].Recp }

const poolDepth = 60

// checkPools holds every pool against the settled chain and what it took.
func (run *Run) checkPools() {
	for _, c := range run.UpClusters() {
		if !run.clean(c) {
			continue
		}
		for _, id := range c.Shards() {
			run.checkPool(c, id)
		}
	}
}

func (run *Run) checkPool(c *Cluster, id uint32) {
	w := run.W
	v := run.poolView(c, id)
	if v == nil {
		return
	}
	name := fmt.Sprintf("%s shard %x", c.Name, id)
	m := c.Shard(id).MinorBlockChain
	canon, slots := map[common.Hash]*types.Transaction{}, map[slot]common.Hash{}
	for b := v.head; b != nil; b = m.GetMinorBlock(b.ParentHash()) {
		for _, t := range b.Transactions() {
			canon[t.Hash()] = t
			if from, err := senderOf(t); err == nil {
				slots[slot{from, t.EvmTx.Nonce()}] = t.Hash()
			}
		}
		if b.NumberU64() == 0 {
			break
		}
	}
	n := 0
	for _, a := range addrs(v.pend) {
		list := v.pend[a]
		n += len(list)
		next := v.st.GetNonce(a)
		for _, t := range list {
			if t.EvmTx.Nonce() != next {
				run.Fail(poolProps, "gap", "%s offers tx %s of %s with nonce %d where %d is next", name, short(t.Hash()), a.Hex()[:8], t.EvmTx.Nonce(), next)
				return
			}
			next++
		}
		if got := fieldOf[*core.TxPool](m).Nonce(a); got != next {
			run.Fail(poolProps, "nonce", "%s says the next nonce of %s is %d, its pool ends before %d", name, a.Hex()[:8], got, next)
		}
	}
	for _, a := range addrs(v.queue) {
		n += len(v.queue[a])
		next := v.st.GetNonce(a) + uint64(len(v.pend[a]))
		if len(v.queue[a]) > 0 && v.queue[a][0].EvmTx.Nonce() <= next {
			run.Fail(poolProps, "held-back", "%s holds back tx %s of %s with nonce %d although %d is next", name, short(v.queue[a][0].Hash()), a.Hex()[:8], v.queue[a][0].EvmTx.Nonce(), next)
		}
	}
	for _, a := range addrs(v.queue) {
		if len(v.pend[a]) == 0 {
			if got := fieldOf[*core.TxPool](m).Nonce(a); got != v.st.GetNonce(a) {
				run.Fail(poolProps, "nonce", "%s says the next nonce of %s is %d, the head's is %d", name, a.Hex()[:8], got, v.st.GetNonce(a))
			}
		}
	}
	if n != len(v.all) || len(v.at) != n {
		run.Fail(poolProps, "count", "%s has %d transactions in its lists, %d nonces and %d transactions in its index", name, n, len(v.at), len(v.all))
	}
	if uint64(len(v.all)) > w.P.PoolLimit+1 {
		run.Fail(poolProps, "limit", "%s has %d transactions in its pool, the limit is %d", name, len(v.all), w.P.PoolLimit)
	}
	for _, sl := range slotsOf(v.at) {
		t := v.at[sl]
		if !v.all[t.Hash()] {
			run.Fail(poolProps, "index", "%s holds tx %s but does not know it", name, short(t.Hash()))
		}
		if canon[t.Hash()] != nil {
			run.Fail(poolProps, "canonical", "%s still has tx %s in its pool, which is in its chain", name, short(t.Hash()))
		}
		if why := v.invalid(run, id, t); why != "" && why != "gas reserve" { // others may have used the reserve up since
			run.Fail(poolProps, "invalid", "%s has tx %s in its pool: %s", name, short(t.Hash()), why)
		}
	}
	run.Did("pool-check")
	pm := run.poolModel(c, id)
	gone := func(t *types.Transaction) bool {
		if canon[t.Hash()] != nil || v.all[t.Hash()] {
			return false
		}
		from, err := senderOf(t)
		if err != nil || run.poor(from) {
			return false
		}
		sl := slot{from, t.EvmTx.Nonce()}
		if slots[sl] != (common.Hash{}) || v.at[sl] != nil {
			return false
		}
		return v.invalid(run, id, t) == ""
	}
	full := w.P.PoolLimit < 1000 // a full pool takes nothing back
	for _, h := range hashesOf(pm.took) {
		if gone(pm.took[h]) && !full {
			run.Fail(poolProps, "lost", "%s took tx %s (nonce %d), which is neither in its pool nor in its chain, and nothing replaced it", name, short(h), pm.took[h].EvmTx.Nonce())
		}
		if canon[h] == nil && !v.all[h] {
			delete(pm.took, h)
		}
	}
	for _, h := range hashesOf(pm.canon) {
		if canon[h] != nil {
			continue
		}
		run.Did("undone-tx")
		if gone(pm.canon[h]) && !full {
			run.Fail(poolProps, "undone", "%s had tx %s (nonce %d) in its chain; its block was undone and it is not in the pool", name, short(h), pm.canon[h].EvmTx.Nonce())
		}
		if !v.all[h] {
			delete(pm.canon, h)
		} else {
			pm.took[h] = pm.canon[h]
		}
	}
	for h, t := range canon {
		pm.canon[h] = t
	}
}

// drainPools: what the pools offer gets into the chain when blocks are mined.
func (run *Run) drainPools() {
	w := run.W
	r := NewRng(Mix(run.C.Seed, 94))
	for _, c := range run.UpClusters() {
		if !run.clean(c) {
			continue
		}
		for _, id := range c.Shards() {
			run.settle()
			v := run.poolView(c, id)
			if v == nil {
				continue
			}
			var want []*types.Transaction
			for _, a := range addrs(v.pend) {
				if run.poor(a) {
					continue
				}
				for _, t := range v.pend[a] {
					// half of a block's gas is kept for deposits
					if t.EvmTx.GasTokenID() != w.QKC && w.P.GasMgr < 1e15 {
						break // what buys the gas token may run out
					}
					if w.gasPrice(t.EvmTx).Cmp(big.NewInt(w.P.MinMinePrice)) < 0 || t.EvmTx.Gas() > w.P.GasLimit/2 {
						break
					}
					want = append(want, t)
				}
			}
			if len(want) == 0 {
				continue
			}
			left, first := len(want), want[0]
			for k := 0; k < len(want)+4 && left > 0 && run.clean(c) && c.Up(); k++ {
				w.Pause(15e9)
				if err := run.mineMinor(c, id, r); err != nil {
					w.Pause(60e9)
					run.mineRoot(c, r)
				}
				run.settle()
				run.events()
				left, first = 0, nil
				in := map[common.Hash]bool{}
				m := c.Shard(id).MinorBlockChain
				for b := m.CurrentBlock(); b.NumberU64() > 0; b = m.GetMinorBlock(b.ParentHash()) {
					for _, t := range b.Transactions() {
						in[t.Hash()] = true
					}
				}
				for _, t := range want {
					if !in[t.Hash()] {
						if left++; first == nil {
							first = t
						}
					}
				}
			}
			run.Did("drained")
			if left > 0 && run.clean(c) && c.Up() {
				run.Fail(poolProps, "not-mined", "%s shard %x: %d of %d transactions the pool offered are not in the chain after %d blocks: tx %s", c.Name, id, left, len(want), len(want)+4, short(first.Hash()))
			}
		}
	}
}

// gasPrice is the price of a transaction in the token gas is paid in.
func (w *World) gasPrice(e *types.EvmTransaction) *big.Int {
	if e.GasTokenID() != w.QKC && w.P.GasMgr > 0 {
		return new(big.Int).Div(e.GasPrice(), big.NewInt(2))
	}
	return e.GasPrice()
}

func addrs(m map[common.Address]types.Transactions) []common.Address {
	var as []common.Address
	for a := range m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].Hex() < as[j].Hex() })
	return as
}

func slotsOf(m map[slot]*types.Transaction) []slot {
	var ss []slot
	for s := range m {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool {
		if ss[i].from != ss[j].from {
			return ss[i].from.Hex() < ss[j].from.Hex()
		}
		return ss[i].nonce < ss[j].nonce
	})
	return ss
}

func hashesOf(m map[common.Hash]*types.Transaction) []common.Hash {
	var hs []common.Hash
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Hex() < hs[j].Hex() })
	return hs
}

// Root0 is the root height a shard starts at.
func (w *World) Root0(id uint32) uint32 {
	if w.P.LateShard > 0 {
		for _, l := range w.FullIDs[len(w.FullIDs)-max(1, w.P.LateCount):] {
			if l == id {
				return w.P.LateShard
			}
		}
	}
	return 0
}

// Near tells whether a shard may send to another as of a root height: up to 32
// shards all may, more may only when they differ by a power of two in one place.
func (w *World) Near(a, b uint32, root uint32) bool {
	n := 0
	for _, id := range w.FullIDs {
		if w.Root0(id) < root {
			n++
		}
	}
	if n <= 32 {
		return true
	}
	p2 := func(x, y uint32) bool {
		if x < y {
			x, y = y, x
		}
		x -= y
		return x != 0 && x&(x-1) == 0
	}
	if a>>16 == b>>16 {
		return p2(a&0xffff, b&0xffff)
	}
	return a&0xffff == b&0xffff && p2(a>>16, b>>16)
}
