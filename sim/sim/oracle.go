//go:build go1.25

package sim

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/QuarkChain/goquarkchain/account"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/encoder"
	"github.com/ethereum/go-ethereum/common"
)

// view is what the oracles remember about one cluster.
type view struct {
	boots    int
	rootKnow map[common.Hash]bool // root blocks it is known to have accepted
	rootHead common.Hash
	ackMinor map[common.Hash]bool
	crashed  bool // a process of it died other than by an orderly stop
}

func (run *Run) view(c *Cluster) *view {
	k := "view" + c.Name
	v, _ := run.X[k].(*view)
	if v == nil {
		v = &view{rootKnow: map[common.Hash]bool{}, ackMinor: map[common.Hash]bool{}}
		run.X[k] = v
	}
	return v
}

func (run *Run) clean(c *Cluster) bool { return !c.Faulted && !run.W.Tolerate }

// template judges a cluster that cannot produce a template.
func (run *Run) template(c *Cluster, id uint32, err error) {
	if !run.clean(c) || !c.Up() {
		return
	}
	run.W.count("no-template")
}

func (run *Run) mined(c *Cluster, id uint32, b *types.MinorBlock, head common.Hash, quiet bool, err error) {
	if err == nil {
		run.view(c).ackMinor[b.Hash()] = true
		return
	}
	if quiet && run.clean(c) && c.Up() && !run.early(c, b.Time()) {
		run.Fail("C08,C10,C14", "own-block", "%s shard %x refuses the block it made itself (height %d): %v", c.Name, id, b.NumberU64(), err)
	}
}

// early tells whether some clock of the cluster has such a time in the far future.
func (run *Run) early(c *Cluster, t uint64) bool {
	for _, n := range c.Nodes() {
		if t > uint64(simNow().Add(n.Skew).Unix())+10 {
			return true
		}
	}
	return false
}

func (run *Run) minedRoot(c *Cluster, b *types.RootBlock, quiet bool, err error) {
	if err == nil {
		run.view(c).rootKnow[b.Hash()] = true
		return
	}
	if quiet && run.clean(c) && c.Up() && !run.early(c, b.Time()) {
		run.Fail("C09,C10,C14", "own-root", "%s refuses the root block it made itself (height %d): %v", c.Name, b.NumberU64(), err)
	}
}

func (run *Run) sent(c *Cluster, tx *types.Transaction, err error) {}

func (run *Run) booted(c *Cluster) { run.W.noteGenesis(c) }

// ---- root chain ----

func (w *World) td(h common.Hash) *big.Int {
	b := w.Root[h]
	if b == nil {
		return nil
	}
	t := new(big.Int).Set(b.Difficulty())
	if b.NumberU64() == 0 {
		return b.TotalDifficulty()
	}
	p := w.td(b.ParentHash())
	if p == nil {
		return nil
	}
	return t.Add(t, p)
}

func (w *World) noteGenesis(c *Cluster) {
	if g := c.RootChain().Genesis(); g != nil {
		if w.Root[g.Hash()] == nil {
			w.Root[g.Hash()] = copyRoot(g)
		}
	}
}

func (w *World) sortedRoots() (hs []common.Hash) {
	for h := range w.Root {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool {
		a, b := w.Root[hs[i]], w.Root[hs[j]]
		if a.NumberU64() != b.NumberU64() {
			return a.NumberU64() < b.NumberU64()
		}
		return hs[i].Hex() < hs[j].Hex()
	})
	return
}

// rootPath lists the chain from genesis to a block, from the registry.
func (w *World) rootPath(h common.Hash) (p []*types.RootBlock) {
	for {
		b := w.Root[h]
		if b == nil {
			return nil
		}
		p = append([]*types.RootBlock{b}, p...)
		if b.NumberU64() == 0 {
			return
		}
		h = b.ParentHash()
	}
}

// checkRootChain: heaviest known chain is the canonical one, and every index
// agrees with it.
func (run *Run) checkRootChain(c *Cluster) {
	const P = "C01"
	w, v := run.W, run.view(c)
	rc := c.RootChain()
	if rc == nil {
		return
	}
	w.noteGenesis(c)
	head := rc.CurrentBlock()
	hh := head.Hash()
	if w.Root[hh] == nil {
		run.learnRoot(rc)
	}
	if w.Root[hh] == nil {
		run.Fail("C01,C09,C15", "unknown-head", "%s follows a root block nobody mined: %d %s", c.Name, head.NumberU64(), short(hh))
	}
	run.Did("root-head")
	path := w.rootPath(hh)
	if path == nil {
		run.Fail(P+",C09,C15", "root-unlinked", "%s: root head %s does not link to genesis", c.Name, short(hh))
	}
	sum := w.td(hh)
	if head.TotalDifficulty().Cmp(sum) != 0 {
		run.Fail(P+",C09", "root-td", "%s: head %d %s claims total difficulty %v, the chain adds up to %v", c.Name, head.NumberU64(), short(hh), head.TotalDifficulty(), sum)
	}
	if v.boots == c.Boots { // nothing was lost since the last look
		for _, h := range w.sortedRoots() {
			if !v.rootKnow[h] && rc.HasBlock(h) {
				v.rootKnow[h] = true
			}
		}
	}
	v.boots = c.Boots
	for _, h := range w.sortedRoots() {
		if !v.rootKnow[h] {
			continue
		}
		b, t := w.Root[h], w.td(h)
		if t == nil {
			continue
		}
		if !rc.HasBlock(h) || rc.GetBlock(h) == nil || rc.GetBlock(h).Hash() != h {
			run.Fail("C01,C04", "root-lost", "%s lost root block %d %s it had accepted", c.Name, b.NumberU64(), short(h))
		}
		switch t.Cmp(sum) {
		case 1:
			run.Fail("C01,C04,C14", "root-choice", "%s follows root %d %s with total difficulty %v although it has %d %s with %v", c.Name, head.NumberU64(), short(hh), sum, b.NumberU64(), short(h), t)
		case 0:
			if b.NumberU64() < head.NumberU64() {
				run.Fail(P, "root-tie", "%s follows root %d %s although the equally heavy %d %s is shorter", c.Name, head.NumberU64(), short(hh), b.NumberU64(), short(h))
			}
		}
	}
	if old := w.Root[v.rootHead]; old != nil && v.rootHead != hh {
		if t := w.td(v.rootHead); t.Cmp(sum) == 0 && old.NumberU64() <= head.NumberU64() {
			run.Fail(P, "root-first-seen", "%s left root %d %s for %d %s, which is no heavier", c.Name, old.NumberU64(), short(v.rootHead), head.NumberU64(), short(hh))
		}
	}
	v.rootHead = hh

	// indices
	canon := map[common.Hash]bool{}
	last := map[uint32]*types.MinorBlockHeader{}
	conf := map[common.Hash]common.Hash{}
	counts := map[uint32]map[account.Recipient]uint32{}
	for i, b := range path {
		canon[b.Hash()] = true
		got := rc.GetBlockByNumber(uint64(i))
		if isNil(got) || got.Hash() != b.Hash() {
			run.Fail("C01,C04", "root-index", "%s: height %d of the canonical root chain reads %v, want %s (head %d)", c.Name, i, hashOf(got), short(b.Hash()), head.NumberU64())
		}
		if h := rc.GetHeaderByNumber(uint64(i)); isNil(h) || h.Hash() != b.Hash() {
			run.Fail("C01,C04", "root-index", "%s: header at height %d of the canonical root chain differs", c.Name, i)
		}
		for _, m := range b.MinorBlockHeaders() {
			last[m.Branch.Value] = m
			conf[m.Hash()] = b.Hash()
			if counts[m.Branch.Value] == nil {
				counts[m.Branch.Value] = map[account.Recipient]uint32{}
			}
			counts[m.Branch.Value][m.Coinbase.Recipient]++
		}
	}
	for i := 1; i <= 3; i++ {
		if got := rc.GetBlockByNumber(head.NumberU64() + uint64(i)); !isNil(got) {
			run.Fail(P, "root-index-above", "%s: height %d reads %s although the root chain ends at %d", c.Name, got.NumberU64(), short(got.Hash()), head.NumberU64())
		}
	}
	lm := rc.GetLatestMinorBlockHeaders(hh)
	for id, m := range last {
		if lm[id] == nil || lm[id].Hash() != m.Hash() {
			run.Fail("C01,C02,C04", "root-latest", "%s: latest confirmed block of shard %x at root %d is wrong", c.Name, id, head.NumberU64())
		}
	}
	if w.P.History && !c.Switched {
		cnt, err := rc.GetBlockCount(head.Number())
		if err != nil || fmt.Sprint(flat(cnt)) != fmt.Sprint(flat(counts)) {
			run.Fail(P, "root-count", "%s: miners' block counts at root %d are %v, want %v (%v)", c.Name, head.NumberU64(), flat(cnt), flat(counts), err)
		}
		for _, h := range w.sortedRoots() {
			for _, m := range w.Root[h].MinorBlockHeaders() {
				got := c.M.Master.GetRootHashConfirmingMinorBlock(encoder.IDEncoder(m.Hash().Bytes(), m.Branch.Value))
				if want, ok := conf[m.Hash()]; ok && got != want || !ok && canon[got] {
					run.Fail(P, "root-confirming", "%s says minor block %d %s of shard %x is confirmed by %s, the canonical chain says %s", c.Name, m.Number, short(m.Hash()), m.Branch.Value, short(got), short(want))
				}
			}
		}
	}
	run.Did("root-index")
	run.State(fmt.Sprintf("root:%d/%d", head.NumberU64(), len(v.rootKnow)))
}

func flat(m map[uint32]map[account.Recipient]uint32) (out []string) {
	for k, v := range m {
		for a, n := range v {
			out = append(out, fmt.Sprintf("%x:%x:%d", k, a[:3], n))
		}
	}
	sort.Strings(out)
	return
}

func isNil(x any) bool { return qcom.IsNil(x) }

func hashOf(b types.IBlock) string {
	if isNil(b) {
		return "nothing"
	}
	return short(b.Hash())
}

// checkShard: a shard follows the root chain its master follows.
func (run *Run) checkShard(c *Cluster, id uint32) {
	w := run.W
	s := c.Shard(id)
	rc := c.RootChain()
	if rc == nil {
		return
	}
	rh := rc.CurrentBlock()
	gen := c.Cfg.Quarkchain.GetGenesisRootHeight(id)
	if s == nil {
		if rh.Number() >= gen {
			run.Fail("C02,C03", "shard-missing", "%s: shard %x is not there although the root chain is at %d and the shard starts at %d", c.Name, id, rh.Number(), gen)
		}
		return
	}
	if rh.Number() < gen {
		return // a shorter root chain won: the shard has not begun on it
	}
	mbc := s.MinorBlockChain
	if rh.Number() == gen && mbc.GetRootTip().Hash() != rh.Hash() {
		return // a shard follows a reorganisation at its genesis height with the next root block (TestInitGenesisState)
	}
	if t := mbc.GetRootTip(); t.Hash() != rh.Hash() {
		run.Fail("C02,C03", "shard-root-tip", "%s: shard %x is at root %d %s, the master at %d %s", c.Name, id, t.Number(), short(t.Hash()), rh.Number(), short(rh.Hash()))
	}
	run.Did("shard-follows")
	path := w.rootPath(rh.Hash())
	on := map[common.Hash]bool{}
	var conf *types.MinorBlockHeader
	for _, b := range path {
		on[b.Hash()] = true
		for _, m := range b.MinorBlockHeaders() {
			if m.Branch.Value == id {
				conf = m
			}
		}
	}
	head := mbc.CurrentBlock()
	if !on[head.PrevRootBlockHash()] {
		run.Fail("C02,C03", "shard-off-root", "%s: head %d %s of shard %x builds on a root block that is not canonical", c.Name, head.Number(), short(head.Hash()), id)
	}
	tip := mbc.GetMinorTip()
	switch {
	case conf == nil && tip != nil && tip.NumberU64() > 0:
		run.Fail("C02,C03", "shard-confirmed", "%s: shard %x thinks %d is confirmed, the root chain confirms nothing", c.Name, id, tip.Number())
	case conf != nil && (tip == nil || tip.Hash() != conf.Hash()):
		run.Fail("C02,C03", "shard-confirmed", "%s: shard %x does not have %d %s as its last confirmed block", c.Name, id, conf.Number, short(conf.Hash()))
	}
	// walk the canonical chain
	b := head
	seenConf := conf == nil
	for {
		if b.Branch().Value != id {
			run.Fail("C02,C03,C08", "shard-branch", "%s: block %s of shard %x belongs to shard %x", c.Name, short(b.Hash()), id, b.Branch().Value)
		}
		got := mbc.GetBlockByNumber(b.NumberU64())
		if isNil(got) || got.Hash() != b.Hash() {
			run.Fail("C02,C03,C12", "shard-index", "%s: shard %x height %d reads %s, want %s (head %d)", c.Name, id, b.NumberU64(), hashOf(got), short(b.Hash()), head.NumberU64())
		}
		if conf != nil && b.Hash() == conf.Hash() {
			seenConf = true
		}
		if b.NumberU64() == 0 {
			break
		}
		p := mbc.GetMinorBlock(b.ParentHash())
		if p == nil || p.NumberU64()+1 != b.NumberU64() {
			run.Fail("C02,C03", "shard-gap", "%s: shard %x has no parent for its canonical block %d", c.Name, id, b.NumberU64())
		}
		b = p
	}
	if !seenConf {
		run.Fail("C02,C03", "shard-fork", "%s: canonical chain of shard %x does not contain %d %s, which the root chain confirms", c.Name, id, conf.Number, short(conf.Hash()))
	}
	for i := 1; i <= 3; i++ {
		if got := mbc.GetBlockByNumber(head.NumberU64() + uint64(i)); !isNil(got) {
			run.Fail("C02,C03,C12", "shard-index-above", "%s: shard %x height %d reads %s although its chain ends at %d", c.Name, id, got.NumberU64(), short(got.Hash()), head.NumberU64())
		}
	}
	if _, err := mbc.StateAt(head.Root()); err != nil {
		run.Fail("C02,C03,C13", "shard-state", "%s: shard %x has no state for its head %d: %v", c.Name, id, head.NumberU64(), err)
	}
	run.State(fmt.Sprintf("sh%x:%d-%d@%d", id, head.NumberU64(), tipNum(tip), rh.Number()))
}

func tipNum(b *types.MinorBlock) uint64 {
	if b == nil {
		return 0
	}
	return b.NumberU64()
}

// checkAll runs the standing invariants on every cluster that is up and quiet.
func (run *Run) checkAll() {
	run.events()
	for _, c := range run.W.Clusters {
		if !c.Up() {
			continue
		}
		run.checkRootChain(c)
		for _, id := range run.W.FullIDs {
			run.checkShard(c, id)
		}
		for _, id := range run.W.FullIDs {
			run.checkLedger(c, id)
		}
		run.checkSupply(c)
		run.checkPosw(c)
	}
}

func opCheck(run *Run, r *Rng, n int) {
	if run.settle() {
		run.checkAll()
	}
}

var _ = rawdb.ChainTypeRoot
