//go:build go1.25

package sim

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
)

// Miners that ask for work and submit solutions over JSON-RPC, as pool
// software does. What a node hands out is judged by what it can be used for:
// at rest, a solution of the work it hands out must be taken and become the
// next block of that chain, with the coinbase that was asked for.

const mineProps = "C16"

type handout struct {
	c     *Cluster
	boots int
	id    uint32 // 0: the root chain
	addr  *common.Address
	hash  common.Hash
	num   uint64
	diff  *big.Int
	div   uint64
}

type mining struct {
	out   []*handout
	taken map[common.Hash]*handout // accepted, by seal hash
	told  map[string]*told         // what clusters were told: to mine or not
}

func (run *Run) mining() *mining {
	if m, ok := run.X["mining"]; ok {
		return m.(*mining)
	}
	m := &mining{taken: map[common.Hash]*handout{}, told: map[string]*told{}}
	run.X["mining"] = m
	return m
}

func chainName(id uint32) string {
	if id == 0 {
		return "the root chain"
	}
	return fmt.Sprintf("shard %x", id)
}

func (run *Run) headOf(c *Cluster, id uint32) types.IBlock {
	if id == 0 {
		return c.RootChain().CurrentBlock()
	}
	return c.Shard(id).MinorBlockChain.CurrentBlock()
}

func keyArg(id uint32) any {
	if id == 0 {
		return nil
	}
	return hx(id)
}

// mineCall makes a call that has to come back.
func (run *Run) mineCall(c *Cluster, res any, method string, args ...any) error {
	boots := c.Boots
	at := time.Now()
	err := run.jrpc(c, res, method, args...)
	if time.Since(at) >= time.Minute && c.Up() && c.Boots == boots && run.clean(c) {
		run.Fail(mineProps, "mining-stuck", "%s does not answer %s", c.Name, method)
	}
	return err
}

func (run *Run) getWork(c *Cluster, id uint32, addr *common.Address) (*handout, error) {
	var res []common.Hash
	var a any
	if addr != nil {
		a = addr
	}
	if err := run.mineCall(c, &res, "qkc_getWork", keyArg(id), a); err != nil {
		return nil, err
	}
	if len(res) < 3 {
		return nil, errors.New("short answer")
	}
	h := &handout{c: c, boots: c.Boots, id: id, addr: addr, hash: res[0], num: res[1].Big().Uint64(), diff: res[2].Big(), div: 1}
	if len(res) > 3 {
		h.div = res[3].Big().Uint64()
	}
	m := run.mining()
	m.out = append(m.out, h)
	run.Did("get-work")
	return h, nil
}

// nonce finds a solution, or a non-solution.
func (h *handout) nonce(from uint64, good bool) uint64 {
	target := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), h.diff)
	if !good { // not even for an easier block
		target = new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(2))
	}
	var buf [40]byte
	copy(buf[:32], h.hash[:])
	for n := from; ; n++ {
		binary.BigEndian.PutUint64(buf[32:], n)
		a := sha256.Sum256(buf[:])
		x := sha256.Sum256(a[:])
		if (new(big.Int).SetBytes(x[:]).Cmp(target) <= 0) == good {
			return n
		}
	}
}

func (run *Run) submit(h *handout, hash common.Hash, nonce uint64) bool {
	var ok bool
	if hash == h.hash {
		// from here on it may be in the chain
		run.mining().taken[hash] = h
	}
	err := run.mineCall(h.c, &ok, "qkc_submitWork", keyArg(h.id), hash, hx(nonce), common.Hash{}, nil)
	run.Did("submit-work")
	return err == nil && ok
}

// told says what a cluster was told last, since when it runs.
type told struct {
	boots   int
	mine    bool
	unclear bool // two orders overlapped, or one was not confirmed
	open    int
	mixed   bool
}

func (m *mining) toldOf(c *Cluster) *told {
	t := m.told[c.Name]
	if t == nil || t.boots != c.Boots {
		t = &told{boots: c.Boots, mine: true} // a node that starts mines
		m.told[c.Name] = t
	}
	return t
}

// isOff, isOn: both are false while it is unclear.
func (m *mining) isOff(c *Cluster) bool {
	t := m.toldOf(c)
	return !t.mine && !t.unclear && t.open == 0
}
func (m *mining) isOn(c *Cluster) bool { t := m.toldOf(c); return t.mine && !t.unclear && t.open == 0 }

func (run *Run) setMining(c *Cluster, on bool) {
	m := run.mining()
	t := m.toldOf(c)
	t.mixed = t.open > 0
	t.open++
	run.Log("%s is told to mine: %v", c.Name, on)
	var none any
	err := run.mineCall(c, &none, "qkc_setMining", on)
	if err != nil {
		run.Log("%s: setMining: %v", c.Name, err)
	}
	t.open--
	t.mine = on
	t.unclear = err != nil || t.mixed
}

// learnMined registers the blocks that submitted work led to.
func (run *Run) learnMined() {
	for _, c := range run.UpClusters() {
		for _, id := range c.Shards() {
			mbc := c.Shard(id).MinorBlockChain
			for b := mbc.CurrentBlock(); b != nil && b.NumberU64() > 0; b = mbc.GetMinorBlock(b.ParentHash()) {
				run.learnMinor(b)
			}
		}
		rc := c.RootChain()
		run.learnRoot(rc)
	}
}

func (run *Run) learnRoot(rc *core.RootBlockChain) {
	m, w := run.mining(), run.W
	for b := rc.CurrentBlock(); b != nil && b.NumberU64() > 0; {
		if h := m.taken[b.Header().SealHash()]; h != nil && w.Root[b.Hash()] == nil {
			run.checkMined(h, b)
			w.noteRoot(b)
		}
		b, _ = rc.GetBlock(b.ParentHash()).(*types.RootBlock)
	}
}

func (run *Run) learnMinor(b *types.MinorBlock) {
	if h := run.mining().taken[b.Header().SealHash()]; h != nil && run.W.Minor[b.Hash()] == nil {
		run.checkMined(h, b)
		run.W.noteMinor(b)
	}
}

func (run *Run) checkMined(h *handout, b types.IBlock) {
	if h.addr != nil && b.Coinbase().Recipient != *h.addr {
		run.Fail(mineProps, "mined-coinbase", "work asked for with coinbase %x at %s became block %d of %s with coinbase %x", h.addr[:], h.c.Name, b.NumberU64(), chainName(h.id), b.Coinbase().Recipient)
	}
	if b.NumberU64() != h.num {
		run.Fail(mineProps, "mined-number", "work handed out for height %d of %s became block %d", h.num, chainName(h.id), b.NumberU64())
	}
	if !Sealed(b.IHeader(), h.diff) {
		run.Fail(mineProps+",C08,C09", "mined-seal", "%s: block %d of %s got in without the work it was handed out with", h.c.Name, b.NumberU64(), chainName(h.id))
	}
}

func (run *Run) somework(c *Cluster, r *Rng) uint32 {
	if r.Pct(30) {
		return 0
	}
	if ids := c.Shards(); len(ids) > 0 {
		return pick(r, ids)
	}
	return 0
}

func (run *Run) miner(r *Rng) *common.Address {
	if r.Pct(30) {
		return nil
	}
	a := pick(r, run.W.Accts).Recp
	if r.Pct(20) {
		a = common.Address{0x99, byte(r.N(3))}
	}
	return &a
}

// syncing says whether a chain of the cluster waits for what it asked a peer
// for: up to half a minute per request if the peer is gone, and no solution is
// taken meanwhile.
func (run *Run) syncing(c *Cluster, id uint32) bool {
	busy := true
	if id == 0 {
		c.M.Do(time.Minute, func() { busy = c.M.Master.IsSyncing() })
	} else if b := c.Shard(id); b != nil {
		c.SlaveOf(id).Do(time.Minute, func() { busy = b.IsSyncing() })
	}
	return busy
}

// probe: at rest, work is for the next block and its solution becomes it.
func (run *Run) probe(c *Cluster, id uint32, r *Rng) {
	m := run.mining()
	if !run.settle() || !c.Up() || !run.clean(c) || !m.isOn(c) {
		return
	}
	if id != 0 && c.Shard(id) == nil {
		return
	}
	if rh := c.RootChain().CurrentBlock(); id != 0 && uint64(c.Cfg.Quarkchain.GetGenesisRootHeight(id)) >= rh.NumberU64() && rh.NumberU64() > 0 {
		return // the shard may yet have to follow the root chain
	}
	for k := 0; run.syncing(c, id); k++ {
		if run.W.Pause(10 * time.Second); k == 60 || !run.settle() || !c.Up() || !run.clean(c) {
			return
		}
	}
	addr := run.miner(r)
	head := run.headOf(c, id)
	h, err := run.getWork(c, id, addr)
	if err != nil {
		run.Fail(mineProps, "no-work", "%s has no work for %s: %v", c.Name, chainName(id), err)
		return
	}
	if h.num != head.NumberU64()+1 {
		run.Fail(mineProps, "work-stale", "%s hands out work for height %d of %s, whose head is at %d", c.Name, h.num, chainName(id), head.NumberU64())
	}
	calm := func() bool {
		return c.Up() && run.clean(c) && run.headOf(c, id).Hash() == head.Hash() && !run.syncing(c, id)
	}
	run.W.Pause(time.Duration(r.N(3000)) * time.Millisecond)
	if r.Pct(40) {
		for k := r.N(3); k > 0; k-- {
			var hash common.Hash
			binary.BigEndian.PutUint64(hash[:], r.U64())
			if run.submit(h, hash, r.U64()) {
				run.Fail(mineProps, "took-unknown", "%s takes a solution of work it never handed out", c.Name)
			}
		}
		if run.submit(h, h.hash, h.nonce(r.U64()>>1, false)) {
			run.Fail(mineProps, "took-wrong", "%s takes a wrong solution for height %d of %s", c.Name, h.num, chainName(id))
		}
		run.Did("wrong-solution")
	}
	if r.Pct(20) { // the same question again
		g, err := run.getWork(c, id, addr)
		if err != nil || g.num != h.num {
			if calm() {
				run.Fail(mineProps, "work-again", "%s, asked again for work for %s: %v", c.Name, chainName(id), err)
			}
			return
		}
		if r.Pct(50) {
			h = g
		}
	}
	if !run.settle() || !calm() {
		return
	}
	n := h.nonce(r.U64()>>1, true)
	ok := run.submit(h, h.hash, n)
	run.Log("%s takes the solution for %s height %d: %v", c.Name, chainName(id), h.num, ok)
	if !ok {
		if calm() {
			run.Fail(mineProps, "refused-solution", "%s refuses the solution of the work it handed out for %s height %d", c.Name, chainName(id), h.num)
		}
		return
	}
	run.W.Pause(time.Second)
	if !run.settle() || !c.Up() || !run.clean(c) {
		return
	}
	now := run.headOf(c, id)
	run.learnMined()
	if now.IHeader().SealHash() != h.hash || now.ParentHash() != head.Hash() || now.NumberU64() != h.num {
		run.Fail(mineProps, "solution-lost", "%s took the solution for %s height %d, but its head is %d %s on %s (before: %d %s)", c.Name, chainName(id), h.num,
			now.NumberU64(), short(now.Hash()), short(now.ParentHash()), head.NumberU64(), short(head.Hash()))
	}
	want := c.Cfg.Quarkchain.Root.CoinbaseAddress.Recipient
	if id != 0 {
		want = c.Cfg.Quarkchain.GetShardConfigByFullShardID(id).CoinbaseAddress.Recipient
	}
	if addr != nil {
		want = *addr
	}
	if x := now.Coinbase().Recipient; x != want {
		run.Fail(mineProps, "mined-coinbase", "%s: the block made of work for coinbase %x has coinbase %x", c.Name, want, x)
	}
	run.Did("solved")
	if r.Pct(30) { // the same solution again
		run.submit(h, h.hash, n)
		run.settle()
		if c.Up() && run.clean(c) && run.headOf(c, id).Hash() != now.Hash() {
			run.Fail(mineProps, "solution-twice", "%s: a solution that is submitted again moves the head of %s", c.Name, chainName(id))
		}
		run.Did("solution-again")
	}
}

func (run *Run) probes(c *Cluster, r *Rng, n int) {
	for ; n > 0 && c.Up(); n-- {
		run.probe(c, run.somework(c, r), r)
	}
}
