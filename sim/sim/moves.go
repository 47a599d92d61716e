//go:build go1.25

package sim

import (
	"fmt"
	"math/big"

	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
)

type headAt struct {
	boots int
	root  common.Hash
	head  *types.MinorBlock
}

type rootAt struct {
	boots int
	head  common.Hash
	n     uint64
	td    *big.Int
}

// heads follows how the heads move from one look to the next.
func (run *Run) heads() {
	w := run.W
	if run.X["heads"] == nil {
		run.X["heads"] = map[string]headAt{}
		run.X["roots"] = map[string]rootAt{}
	}
	last := run.X["heads"].(map[string]headAt)
	roots := run.X["roots"].(map[string]rootAt)
	for _, c := range w.Clusters {
		if !c.Up() {
			continue
		}
		if rc := c.RootChain(); rc != nil {
			h := rc.CurrentBlock()
			now := rootAt{c.Boots, h.Hash(), h.NumberU64(), h.TotalDifficulty()}
			if was, ok := roots[c.Name]; ok && was.boots == now.boots && was.head != now.head {
				d := now.td.Cmp(was.td)
				if d < 0 || d == 0 && now.n >= was.n {
					run.Fail("C01", "root-head-move", "%s: the root head moves from %d %s (td %v) to %d %s (td %v)", c.Name, was.n, short(was.head), was.td, now.n, short(now.head), now.td)
				}
				run.Did("root-head-move")
			}
			roots[c.Name] = now
		}
		for _, id := range c.Shards() {
			s := c.Shard(id)
			if s == nil {
				continue
			}
			run.headMove(c, id, s.MinorBlockChain, last)
		}
	}
}

func (run *Run) headMove(c *Cluster, id uint32, mbc *core.MinorBlockChain, last map[string]headAt) {
	w := run.W
	tip := fieldOf[*types.RootBlock](mbc)
	b := mbc.CurrentBlock()
	if tip == nil || b == nil {
		return
	}
	key := fmt.Sprintf("%s %x", c.Name, id)
	now := headAt{c.Boots, tip.Hash(), b}
	was, ok := last[key]
	last[key] = now
	if !ok || was.boots != now.boots || was.root != now.root || was.head.Hash() == b.Hash() || c.Faulted {
		return
	}
	if w.Tolerate {
		return
	}
	a := was.head
	ra, rb := w.Root[a.PrevRootBlockHash()], w.Root[b.PrevRootBlockHash()]
	if ra == nil || rb == nil {
		return
	}
	if b.NumberU64() < a.NumberU64() || b.NumberU64() == a.NumberU64() && rb.NumberU64() <= ra.NumberU64() {
		run.Fail("C02", "shard-head-move", "%s: with root block %d %s as its root head, shard %x moves its head from %d %s (root %d) to %d %s (root %d)",
			c.Name, tip.NumberU64(), short(tip.Hash()), id, a.NumberU64(), short(a.Hash()), ra.NumberU64(), b.NumberU64(), short(b.Hash()), rb.NumberU64())
	}
	run.Did("shard-head-move")
}
