//go:build go1.25

package sim

import (
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/rawdb"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/ethereum/go-ethereum/ethdb"
)

// shardDB gives the open database of a shard of a live process, or nil.
func (n *Node) shardDB(id uint32) ethdb.Database {
	if n == nil || !n.Alive {
		return nil
	}
	if s := n.Shard(id); s != nil {
		return fieldOf[ethdb.Database](s.MinorBlockChain)
	}
	return nil
}

// announced looks at what a slave tells its master, at the moment it says it:
// by then every receiving shard must have stored what the block sends it.
func (run *Run) announced(from, to *Node, name string, data []byte) {
	if from == nil || to != from.Cluster.M {
		return
	}
	var hs []*types.MinorBlockHeader
	switch name {
	case "AddMinorBlockHeader":
		var q rpc.AddMinorBlockHeaderRequest
		if serialize.DeserializeFromBytes(data, &q) == nil && q.MinorBlockHeader != nil {
			hs = append(hs, q.MinorBlockHeader)
		}
	case "AddMinorBlockHeaderList":
		var q rpc.AddMinorBlockHeaderListRequest
		if serialize.DeserializeFromBytes(data, &q) == nil {
			hs = q.MinorBlockHeaderList
		}
	}
	for _, h := range hs {
		run.stored(from, h)
	}
}

func (run *Run) stored(from *Node, h *types.MinorBlockHeader) {
	const P = "C07"
	c, w := from.Cluster, run.W
	if h.Number == 0 {
		return
	}
	id := h.Branch.Value
	db := from.shardDB(id)
	if db == nil {
		return
	}
	if rawdb.ReadMinorBlock(db, h.Hash()) == nil {
		run.Fail(P, "announced-not-stored", "%s shard %x announces block %d %s to its master without having stored it", c.Name, id, h.Number, short(h.Hash()))
		return
	}
	run.Did("announced")
	if c.RootChain() != nil {
		w.noteGenesis(c)
	}
	root := w.Root[h.PrevRootBlockHash]
	if root == nil {
		return
	}
	lb := run.ledger().Block(h.Hash())
	for _, to := range w.FullIDs {
		if to == id || uint64(c.Cfg.Quarkchain.GetGenesisRootHeight(to)) >= root.NumberU64() || !w.Near(id, to, root.Number()) {
			continue
		}
		var want []*deposit
		if lb != nil && lb.err == "" {
			for _, d := range lb.out {
				if t, _ := c.Cfg.Quarkchain.GetFullShardIdByFullShardKey(d.toKey); t == to {
					want = append(want, d)
				}
			}
		}
		n := c.SlaveOf(to)
		tdb := n.shardDB(to)
		if tdb == nil { // that process is down or has not built the shard: nothing can have been accepted by this incarnation
			continue
		}
		list := rawdb.ReadCrossShardTxList(tdb, h.Hash())
		if list == nil {
			run.Fail(P, "announced-early", "%s shard %x announces block %d %s (root height %d) to its master, but shard %x has not stored the list of transfers it sends it (%d)",
				c.Name, id, h.Number, short(h.Hash()), root.NumberU64(), to, len(want))
			continue
		}
		run.Did("announced-list")
		if lb == nil || lb.err != "" {
			continue
		}
		bad := len(list.TXList) != len(want)
		for i := 0; !bad && i < len(want); i++ {
			g, d := list.TXList[i], want[i]
			bad = g.TxHash != d.hash || g.To.Recipient != d.to || g.Value.Value.Cmp(d.value) != 0
		}
		if bad {
			run.Fail(P+",C05", "announced-list", "%s shard %x stored %d transfers for block %d %s of shard %x, which sends it %d others", c.Name, to, len(list.TXList), h.Number, short(h.Hash()), id, len(want))
		}
		if len(want) > 0 {
			run.Did("announced-transfers")
		}
	}
}
