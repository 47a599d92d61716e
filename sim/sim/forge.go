//go:build go1.25

package sim

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	qkcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// Forging: a hostile miner with all the computing power it wants makes blocks
// that break one rule and are right in everything that follows from it, and
// offers them on every path a block can take into a cluster.

// The wire forms of blocks.
type wireMinor struct {
	Header       *types.MinorBlockHeader
	Meta         *types.MinorBlockMeta
	Txs          types.Transactions `bytesizeofslicelen:"4"`
	Trackingdata []byte             `bytesizeofslicelen:"2"`
}
type wireRoot struct {
	Header            *types.RootBlockHeader
	MinorBlockHeaders types.MinorBlockHeaders `bytesizeofslicelen:"4"`
	Trackingdata      []byte                  `bytesizeofslicelen:"2"`
}

func remake(in, out interface{}) {
	d, err := serialize.SerializeToBytes(in)
	if err == nil {
		err = serialize.DeserializeFromBytes(d, out)
	}
	if err != nil {
		panic(fmt.Sprintf("forge: %v", err))
	}
}

func openMinor(b *types.MinorBlock) *wireMinor {
	c := copyMinor(b)
	return &wireMinor{Header: c.Header(), Meta: c.Meta(), Txs: c.Transactions(), Trackingdata: c.TrackingData()}
}
func (f *wireMinor) block() *types.MinorBlock {
	b := new(types.MinorBlock)
	remake(f, b)
	return b
}
func openRoot(b *types.RootBlock) *wireRoot {
	c := copyRoot(b)
	return &wireRoot{Header: c.Header(), MinorBlockHeaders: c.MinorBlockHeaders(), Trackingdata: c.TrackingData()}
}
func (f *wireRoot) block() *types.RootBlock {
	b := new(types.RootBlock)
	remake(f, b)
	return b
}

// forger holds what a run forged.
type forger struct {
	minor map[common.Hash]string // hash -> what is wrong with it
	root  map[common.Hash]string
	tries map[string]int
}

func (run *Run) forger() *forger {
	f, _ := run.X["forger"].(*forger)
	if f == nil {
		f = &forger{minor: map[common.Hash]string{}, root: map[common.Hash]string{}, tries: map[string]int{}}
		run.X["forger"] = f
	}
	return f
}

// seed1 is one situation to forge in: a cluster, a shard and a good sealed
// block that extends the shard's head.
type seed1 struct {
	run  *Run
	c    *Cluster
	id   uint32
	good *types.MinorBlock
	diff *big.Int // work the good block had to show
	par  *types.MinorBlock
}

// derive has the victim's own code execute a body in a context and fill in the
// results, as a hostile miner running the same software with its checks removed
// would. It reports whether execution succeeded.
func (s *seed1) derive(f *wireMinor) bool {
	sh := s.c.Shard(s.id)
	t := *f
	t.Header = types.CopyMinorBlockHeader(f.Header)
	t.Meta = types.CopyMinorBlockMeta(f.Meta)
	// never to be inserted: no difficulty rule gives this, and no seal meets it
	t.Header.Difficulty = new(big.Int).Lsh(big.NewInt(1), 250)
	mark := common.HexToHash("0xdead")
	t.Meta.Root = mark
	b := t.block()
	s.c.SlaveOf(s.id).Do(time.Minute, func() { sh.MinorBlockChain.FinalizeAndAddBlock(b) })
	if b.Meta().Root == mark {
		return false
	}
	h := b.Header()
	f.Meta = b.Meta()
	f.Header.Bloom = h.Bloom
	f.Header.CoinbaseAmount = h.CoinbaseAmount
	f.Header.MetaHash = f.Meta.Hash()
	return true
}

// work is the difficulty a header has to meet by the victim's own rule.
func (s *seed1) work(h *types.MinorBlockHeader) *big.Int {
	d := new(big.Int).Set(h.Difficulty)
	s.c.SlaveOf(s.id).Do(time.Minute, func() {
		if a, div, err := s.c.Shard(s.id).MinorBlockChain.GetAdjustedDifficulty(h); err == nil && a != nil && div > 0 {
			d = new(big.Int).Div(a, new(big.Int).SetUint64(div))
		}
	})
	return d
}

func (f *wireMinor) seal(d *big.Int) *types.MinorBlock {
	if d.Sign() <= 0 || d.BitLen() > 22 {
		d = big.NewInt(1)
	}
	return Seal(f.block(), d).(*types.MinorBlock)
}

type minorForgery struct {
	name string
	// break returns nil when the situation does not allow it
	f func(s *seed1, r *Rng) *types.MinorBlock
}

// hdr is a forgery that changes header fields only and is sealed.
func hdr(name string, f func(s *seed1, r *Rng, w *wireMinor) bool) minorForgery {
	return minorForgery{name, func(s *seed1, r *Rng) *types.MinorBlock {
		w := openMinor(s.good)
		if !f(s, r, w) {
			return nil
		}
		return w.seal(s.work(w.Header))
	}}
}

// meta is one that changes meta fields, with the hash of the meta made to fit.
func meta(name string, f func(s *seed1, r *Rng, w *wireMinor) bool) minorForgery {
	return hdr(name, func(s *seed1, r *Rng, w *wireMinor) bool {
		if !f(s, r, w) {
			return false
		}
		w.Header.MetaHash = w.Meta.Hash()
		return true
	})
}

// body is one that changes the context or the transactions, with everything
// that follows from it made to fit where execution allows.
func body(name string, f func(s *seed1, r *Rng, w *wireMinor) bool) minorForgery {
	return hdr(name, func(s *seed1, r *Rng, w *wireMinor) bool {
		if !f(s, r, w) {
			return false
		}
		w.Meta.TxHash = types.CalculateMerkleRoot(w.Txs)
		w.Header.MetaHash = w.Meta.Hash()
		s.derive(w)
		return true
	})
}

func flip(h common.Hash, r *Rng) common.Hash { h[r.N(32)] ^= byte(1 << r.N(8)); return h }

func bump(v *serialize.Uint256, d int64) *serialize.Uint256 {
	return &serialize.Uint256{Value: new(big.Int).Add(v.Value, big.NewInt(d))}
}

// wrongTx makes a transaction no shard may execute on top of the good block's parent.
func (s *seed1) wrongTx(r *Rng, w *wireMinor) (*types.Transaction, string) {
	run := s.run
	a := pick(r, run.W.Accts)
	next := s.nonceAfter(a.Recp, w)
	to := pick(r, run.W.Accts).Recp
	t := TxSpec{From: a, FromKey: s.id, To: &to, ToKey: s.id, Value: big.NewInt(int64(r.N(1000))), Gas: 21000, Price: big.NewInt(2), Nonce: next}
	if len(run.W.FullIDs) > 32 && r.Pct(30) {
		var far []uint32
		root := run.W.Root[w.Header.PrevRootBlockHash]
		for _, x := range run.others2(s.id) {
			if root != nil && run.W.Root0(x) < root.Number() && !run.W.Near(s.id, x, root.Number()) {
				far = append(far, x)
			}
		}
		if len(far) == 0 {
			return nil, ""
		}
		t.ToKey, t.Gas = pick(r, far), 30000
		return run.W.Sign(t), "to a shard that is not near"
	}
	switch r.N(13) {
	case 0:
		t.Nonce++
		return run.W.Sign(t), "nonce gap"
	case 1:
		if next == 0 {
			return nil, ""
		}
		t.Nonce--
		return run.W.Sign(t), "used nonce"
	case 2:
		t.Value = new(big.Int).Mul(run.W.P.Balance, big.NewInt(1000))
		return run.W.Sign(t), "more than the balance"
	case 3:
		t.Gas = 20999
		return run.W.Sign(t), "less than the intrinsic gas"
	case 4:
		t.Gas = run.W.P.GasLimit + 1
		return run.W.Sign(t), "more gas than a block holds"
	case 5:
		t.Network = 4
		return run.W.Sign(t), "another network"
	case 6:
		if others := run.others2(s.id); len(others) > 0 {
			t.FromKey = pick(r, others)
			return run.W.Sign(t), "from another shard"
		}
	case 7:
		t.Token = 77777
		return run.W.Sign(t), "a token the sender has none of"
	case 8:
		t.GasToken = 77777
		return run.W.Sign(t), "gas in a token the sender has none of"
	case 9:
		return run.W.badSig(t, r), "a wrong signature"
	case 10:
		// a key whose chain does not exist
		t.ToKey = 0x00ff0000 | (s.id & 0xffff)
		return run.W.Sign(t), "to a shard that does not exist"
	case 11:
		t.Price = new(big.Int).Lsh(big.NewInt(1), 128)
		t.Value = big.NewInt(0)
		return run.W.Sign(t), "gas price out of range"
	case 12:
		if others := run.others2(s.id); len(others) > 0 {
			t.ToKey = pick(r, others)
			t.Gas = 21000 + 8999
			return run.W.Sign(t), "less than the intrinsic gas of a transfer between shards"
		}
	}
	return nil, ""
}

func (run *Run) others2(id uint32) (ids []uint32) {
	for _, x := range run.W.FullIDs {
		if x != id {
			ids = append(ids, x)
		}
	}
	return
}

// nonceAfter is the sender's nonce after the transactions of a body.
func (s *seed1) nonceAfter(a common.Address, w *wireMinor) (n uint64) {
	sh := s.c.Shard(s.id)
	h := s.par.Hash()
	s.c.SlaveOf(s.id).Do(time.Minute, func() { n, _ = sh.MinorBlockChain.GetTransactionCount(a, &h) })
	for _, t := range w.Txs {
		if from, err := types.Sender(types.MakeSigner(t.EvmTx.NetworkId()), t.EvmTx); err == nil && from == a && t.EvmTx.Nonce() >= n {
			n = t.EvmTx.Nonce() + 1
		}
	}
	return
}

var minorForgeries = []minorForgery{
	{"seal", func(s *seed1, r *Rng) *types.MinorBlock {
		return WrongSeal(s.good, s.work(s.good.Header())).(*types.MinorBlock)
	}},
	hdr("version", func(s *seed1, r *Rng, w *wireMinor) bool { w.Header.Version = uint32(1 + r.N(3)); return true }),
	hdr("difficulty up", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.Difficulty = new(big.Int).Add(w.Header.Difficulty, big.NewInt(int64(1+r.N(3))))
		return true
	}),
	hdr("difficulty down", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.Difficulty = new(big.Int).Sub(w.Header.Difficulty, big.NewInt(int64(1+r.N(3))))
		return w.Header.Difficulty.Sign() > 0
	}),
	body("time not after the parent", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.Time = s.par.Time() - uint64(r.N(3))
		return s.fitDiff(w)
	}),
	body("time in the future", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.Time = uint64(time.Now().Unix()) + 3600 + uint64(r.N(36000))
		return s.fitDiff(w)
	}),
	hdr("height up", func(s *seed1, r *Rng, w *wireMinor) bool { w.Header.Number++; return true }),
	hdr("height down", func(s *seed1, r *Rng, w *wireMinor) bool { w.Header.Number--; return true }),
	hdr("unknown parent", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.ParentHash = flip(w.Header.ParentHash, r)
		return true
	}),
	hdr("older parent", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.ParentHash = s.par.ParentHash()
		return s.par.NumberU64() > 0
	}),
	hdr("another branch", func(s *seed1, r *Rng, w *wireMinor) bool {
		o := s.run.others2(s.id)
		if len(o) == 0 {
			return false
		}
		w.Header.Branch = account.Branch{Value: pick(r, o)}
		return true
	}),
	body("coinbase of another shard", func(s *seed1, r *Rng, w *wireMinor) bool {
		o := s.run.others2(s.id)
		if len(o) == 0 {
			return false
		}
		w.Header.Coinbase.FullShardKey = pick(r, o)
		return true
	}),
	hdr("coinbase amount up", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.CoinbaseAmount.Add(map[uint64]*big.Int{s.run.W.QKC: big.NewInt(int64(1 + r.N(1000)))})
		return true
	}),
	hdr("coinbase amount in another token", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.CoinbaseAmount.Add(map[uint64]*big.Int{s.run.W.Tok2: big.NewInt(int64(1 + r.N(1000)))})
		return true
	}),
	hdr("no coinbase amount", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.CoinbaseAmount = types.NewEmptyTokenBalances()
		return true
	}),
	hdr("extra data too long", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.Extra = bytes.Repeat([]byte{7}, int(s.c.Cfg.Quarkchain.BlockExtraDataSizeLimit)+1+r.N(2)*r.N(3))
		return true
	}),
	body("gas limit up", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.GasLimit = bump(w.Header.GasLimit, int64(2+2*r.N(1000)))
		return true
	}),
	body("gas limit down", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.GasLimit = bump(w.Header.GasLimit, -int64(2+2*r.N(1000)))
		return true
	}),
	body("cross-shard gas limit up", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Meta.XShardGasLimit = bump(w.Meta.XShardGasLimit, int64(1+r.N(1000)))
		return true
	}),
	body("cross-shard gas limit down", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Meta.XShardGasLimit = bump(w.Meta.XShardGasLimit, -int64(1+r.N(1000)))
		return true
	}),
	body("no cross-shard gas", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Meta.XShardGasLimit = &serialize.Uint256{Value: new(big.Int)}
		return true
	}),
	hdr("meta hash", func(s *seed1, r *Rng, w *wireMinor) bool { w.Header.MetaHash = flip(w.Header.MetaHash, r); return true }),
	meta("transaction root", func(s *seed1, r *Rng, w *wireMinor) bool { w.Meta.TxHash = flip(w.Meta.TxHash, r); return true }),
	meta("state root", func(s *seed1, r *Rng, w *wireMinor) bool { w.Meta.Root = flip(w.Meta.Root, r); return true }),
	meta("state of the parent", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Meta.Root = s.par.Root()
		return s.par.Root() != s.good.Root()
	}),
	meta("receipt root", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Meta.ReceiptHash = flip(w.Meta.ReceiptHash, r)
		return true
	}),
	meta("gas used", func(s *seed1, r *Rng, w *wireMinor) bool { w.Meta.GasUsed = bump(w.Meta.GasUsed, 1); return true }),
	meta("cross-shard gas used", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Meta.CrossShardGasUsed = bump(w.Meta.CrossShardGasUsed, 1)
		return true
	}),
	meta("cursor height", func(s *seed1, r *Rng, w *wireMinor) bool {
		x := *w.Meta.XShardTxCursorInfo
		x.RootBlockHeight++
		w.Meta.XShardTxCursorInfo = &x
		return true
	}),
	meta("cursor block", func(s *seed1, r *Rng, w *wireMinor) bool {
		x := *w.Meta.XShardTxCursorInfo
		x.MinorBlockIndex++
		w.Meta.XShardTxCursorInfo = &x
		return true
	}),
	meta("cursor deposit", func(s *seed1, r *Rng, w *wireMinor) bool {
		x := *w.Meta.XShardTxCursorInfo
		x.XShardDepositIndex++
		w.Meta.XShardTxCursorInfo = &x
		return true
	}),
	meta("cursor of the parent", func(s *seed1, r *Rng, w *wireMinor) bool {
		x := *s.par.Meta().XShardTxCursorInfo
		if x == *w.Meta.XShardTxCursorInfo {
			return false
		}
		w.Meta.XShardTxCursorInfo = &x
		return true
	}),
	hdr("bloom", func(s *seed1, r *Rng, w *wireMinor) bool { w.Header.Bloom[r.N(len(w.Header.Bloom))] ^= 1; return true }),
	hdr("a transaction taken out", func(s *seed1, r *Rng, w *wireMinor) bool {
		if len(w.Txs) == 0 {
			return false
		}
		w.Txs = w.Txs[:len(w.Txs)-1]
		return true
	}),
	meta("a transaction taken out, roots kept", func(s *seed1, r *Rng, w *wireMinor) bool {
		if len(w.Txs) == 0 {
			return false
		}
		w.Txs = w.Txs[:len(w.Txs)-1]
		w.Meta.TxHash = types.CalculateMerkleRoot(w.Txs)
		return true
	}),
	body("a transaction twice", func(s *seed1, r *Rng, w *wireMinor) bool {
		if len(w.Txs) == 0 {
			return false
		}
		w.Txs = append(w.Txs, w.Txs[r.N(len(w.Txs))])
		return true
	}),
	body("a transaction of the parent again", func(s *seed1, r *Rng, w *wireMinor) bool {
		p := s.par.Transactions()
		if len(p) == 0 {
			return false
		}
		w.Txs = append(w.Txs, copyTx(pick(r, p)))
		return true
	}),
	{"a wrong transaction", func(s *seed1, r *Rng) *types.MinorBlock {
		w := openMinor(s.good)
		t, why := s.wrongTx(r, w)
		if t == nil {
			return nil
		}
		w.Txs = append(w.Txs, t)
		w.Meta.TxHash = types.CalculateMerkleRoot(w.Txs)
		w.Header.MetaHash = w.Meta.Hash()
		ran := s.derive(w)
		s.run.Log("forge: a transaction with %s (%s), executes: %v", why, short(t.Hash()), ran)
		s.run.W.count("forge-tx " + why)
		return w.seal(s.work(w.Header))
	}},
	body("root reference going back", func(s *seed1, r *Rng, w *wireMinor) bool {
		b := s.run.W.Root[s.par.PrevRootBlockHash()]
		if b == nil || b.Number() <= s.run.W.Root0(s.id) {
			return false
		}
		w.Header.PrevRootBlockHash = b.ParentHash()
		return true
	}),
	hdr("unknown root reference", func(s *seed1, r *Rng, w *wireMinor) bool {
		w.Header.PrevRootBlockHash = flip(w.Header.PrevRootBlockHash, r)
		return true
	}),
	body("root reference in another branch", func(s *seed1, r *Rng, w *wireMinor) bool {
		// a root block the shard knows that does not descend from the parent's
		rc := s.c.RootChain()
		base := s.run.W.Root[s.par.PrevRootBlockHash()]
		if base == nil {
			return false
		}
		var cand []common.Hash
		for _, h := range s.run.W.sortedRoots() {
			b := s.run.W.Root[h]
			if b.Number() < base.Number() || s.c.Shard(s.id).MinorBlockChain.GetRootBlockByHash(h) == nil || !rc.HasBlock(h) {
				continue
			}
			x := b
			for x != nil && x.Number() > base.Number() {
				x = s.run.W.Root[x.ParentHash()]
			}
			if x != nil && x.Hash() != base.Hash() {
				cand = append(cand, h)
			}
		}
		if len(cand) == 0 {
			return false
		}
		w.Header.PrevRootBlockHash = pick(r, cand)
		return true
	}),
}

// nextDiff is the difficulty rule, written down once more.
func nextDiff(parent types.IBlock, at uint64, cutoff, factor uint32, least uint64) *big.Int {
	pd := parent.IHeader().GetDifficulty()
	steps := int64(1)
	if at > parent.Time() {
		steps -= int64((at - parent.Time()) / uint64(cutoff))
	}
	if steps < -99 {
		steps = -99
	}
	d := new(big.Int).Div(pd, big.NewInt(int64(factor)))
	d.Mul(d, big.NewInt(steps)).Add(d, pd)
	if l := new(big.Int).SetUint64(least); d.Cmp(l) < 0 {
		return l
	}
	return d
}

// fitDiff sets the difficulty the rule gives for the header's time.
func (s *seed1) fitDiff(w *wireMinor) bool {
	p := s.run.W.P
	w.Header.Difficulty = nextDiff(s.par, w.Header.Time, p.MinorCutoff, p.MinorFactor, p.MinorDiff)
	return true
}

// variants are valid blocks a node did not build itself: they must be accepted.
func (s *seed1) variant(r *Rng) (*types.MinorBlock, string) {
	w := openMinor(s.good)
	what := ""
	switch r.N(6) {
	case 0:
		w.Header.Coinbase.Recipient = common.BytesToAddress([]byte{0x77, byte(r.N(200))})
		what = "another miner"
	case 1:
		w.Header.Extra = bytes.Repeat([]byte{5}, int(s.c.Cfg.Quarkchain.BlockExtraDataSizeLimit)-r.N(2))
		what = "long extra data"
	case 2:
		if len(w.Txs) == 0 {
			return nil, ""
		}
		w.Txs = w.Txs[:r.N(len(w.Txs))]
		what = "fewer transactions"
	case 3:
		b := s.run.W.Root[w.Header.PrevRootBlockHash]
		if b == nil || b.Hash() == s.par.PrevRootBlockHash() {
			return nil, ""
		}
		w.Header.PrevRootBlockHash = b.ParentHash()
		what = "an older root reference"
	case 4:
		w.Header.Time = uint64(time.Now().Unix()) + uint64(r.N(10))
		if w.Header.Time <= s.par.Time() {
			return nil, ""
		}
		if !s.fitDiff(w) {
			return nil, ""
		}
		what = "another time"
	case 5:
		w.Trackingdata = []byte("tracked")
		what = "tracking data"
	}
	w.Meta.TxHash = types.CalculateMerkleRoot(w.Txs)
	w.Header.MetaHash = w.Meta.Hash()
	if !s.derive(w) {
		return nil, ""
	}
	return w.seal(s.work(w.Header)), what
}

// ---- what must not change ----

// picture is everything a refusal has to leave as it was.
type picture struct {
	root  common.Hash
	rootN uint32
	head  map[uint32]common.Hash
	canon map[uint32]string
	pool  map[uint32]string
	state map[uint32]common.Hash
	wait  string
}

func (run *Run) picture(c *Cluster) *picture {
	p := &picture{head: map[uint32]common.Hash{}, canon: map[uint32]string{}, pool: map[uint32]string{}, state: map[uint32]common.Hash{}}
	if !c.Up() {
		return p
	}
	rb := c.RootChain().CurrentBlock()
	p.root, p.rootN = rb.Hash(), rb.Number()
	for _, id := range c.Shards() {
		bc := c.Shard(id).MinorBlockChain
		cur := bc.CurrentBlock()
		p.head[id] = cur.Hash()
		h := common.Hash{}
		for n := uint64(0); n <= cur.NumberU64()+2; n++ {
			b := bc.GetBlockByNumber(n)
			x := common.Hash{}
			if !qkcom.IsNil(b) {
				x = b.Hash()
			}
			h = crypto.Keccak256Hash(h[:], x[:])
		}
		p.canon[id] = h.Hex()
		c.SlaveOf(id).Do(time.Minute, func() {
			if st, err := bc.State(); err == nil {
				p.state[id] = st.IntermediateRoot(true)
			}
		})
		p.pool[id] = run.poolList(c, id)
	}
	return p
}

// poolList is what a shard offers for inclusion and waits with.
func (run *Run) poolList(c *Cluster, id uint32) string {
	var out []string
	c.SlaveOf(id).Do(time.Minute, func() {
		pend, que := fieldOf[*core.TxPool](c.Shard(id).MinorBlockChain).Content()
		for tag, m := range map[string]map[common.Address]types.Transactions{"p": pend, "q": que} {
			for _, l := range m {
				for _, t := range l {
					out = append(out, tag+short(t.Hash()))
				}
			}
		}
	})
	sort.Strings(out)
	return fmt.Sprint(out)
}

func (p *picture) differs(q *picture) string {
	if p.root != q.root {
		return fmt.Sprintf("root head was %d %s, is %d %s", p.rootN, short(p.root), q.rootN, short(q.root))
	}
	var ids []uint32
	for id := range p.head {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		switch {
		case p.head[id] != q.head[id]:
			return fmt.Sprintf("shard %x: head was %s, is %s", id, short(p.head[id]), short(q.head[id]))
		case p.canon[id] != q.canon[id]:
			return fmt.Sprintf("shard %x: the canonical chain changed below the head", id)
		case p.state[id] != q.state[id]:
			return fmt.Sprintf("shard %x: state was %s, is %s", id, short(p.state[id]), short(q.state[id]))
		case p.pool[id] != q.pool[id]:
			return fmt.Sprintf("shard %x: pool was %s, is %s", id, p.pool[id], q.pool[id])
		}
	}
	return ""
}

// rawSigner puts any values where a signature goes.
type rawSigner struct {
	types.Signer
	r, s, v *big.Int
}

func (x rawSigner) SignatureValues(tx *types.EvmTransaction, sig []byte) (r, s, v *big.Int, err error) {
	return x.r, x.s, x.v, nil
}

// badSig signs and then spoils the signature in a way that must not count.
func (w *World) badSig(t TxSpec, r *Rng) *types.Transaction {
	x := w.Sign(t)
	delete(w.Txs, x.Hash())
	v, rr, s := x.EvmTx.RawSignatureValues()
	n := crypto.S256().Params().N
	sg := rawSigner{Signer: types.MakeSigner(x.EvmTx.NetworkId()), r: rr, s: s, v: v}
	switch r.N(4) {
	case 0: // the twin of the signature, which anyone can compute
		sg.s = new(big.Int).Sub(n, s)
		sg.v = new(big.Int).Sub(big.NewInt(55), v)
	case 1:
		sg.r, sg.s = new(big.Int), new(big.Int)
	case 2:
		sg.s = new(big.Int).Add(s, n)
	case 3:
		sg.v = new(big.Int).Add(v, big.NewInt(int64(2+r.N(100))))
	}
	e, err := x.EvmTx.WithSignature(sg, nil)
	if err != nil {
		panic(err)
	}
	return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
}

func (w *World) sortedMinors() (hs []common.Hash) {
	for h := range w.Minor {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	return
}
