//go:build go1.25

package sim

import (
	"bytes"
	"math/big"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	crpc "github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/ethereum/go-ethereum/common"
)

// opAsks asks while blocks arrive and chains switch: what is answered must
// have been true in some chain, and nothing may stop a process.
func opAsks(run *Run, r *Rng, n int) {
	w := run.W
	up := run.UpClusters()
	if len(up) == 0 {
		return
	}
	var judge []func()
	launch := func() {
		c := pick(r, up)
		id := pick(r, w.FullIDs)
		if !c.Up() || c.Shard(id) == nil {
			return
		}
		for _, f := range run.asks(c, id, r) {
			judge = append(judge, func() {
				if c.Up() { // else nobody can tell which blocks it had
					f()
				}
			})
		}
	}
	for i, m := 0, 2+r.N(5); i < m; i++ {
		for j, q := 0, 1+r.N(6); j < q; j++ {
			launch()
		}
		c := pick(r, up)
		switch ids := c.Shards(); {
		case r.Pct(15):
			for _, l := range w.sortedLinks() {
				l.Heal()
			}
		case r.Pct(15):
			w.Pause(time.Duration(r.N(3000)) * time.Millisecond)
		case len(ids) > 0 && r.Pct(65):
			run.mineMinor(c, pick(r, ids), r)
		default:
			run.mineRoot(c, r)
		}
	}
	run.settle()
	for _, f := range judge {
		f()
	}
}

// heights are all the blocks ever mined in a shard at a height (or at any).
func (run *Run) heights(id uint32, h int64) (ms []*lblock, bs []*types.MinorBlock) {
	var hs []common.Hash
	for x, b := range run.W.Minor {
		if b.Branch().Value == id && (h < 0 || int64(b.NumberU64()) == h) {
			hs = append(hs, x)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	if c := run.W.Clusters[0]; h <= 0 {
		for _, c = range run.W.Clusters {
			if s := c.Shard(id); s != nil {
				g := s.MinorBlockChain.Genesis()
				ms, bs = append(ms, run.ledger().Block(g.Hash())), append(bs, g)
				break
			}
		}
	}
	for _, x := range hs {
		if m := run.ledger().Block(x); m.err == "" {
			ms, bs = append(ms, m), append(bs, run.W.Minor[x])
		}
	}
	return
}

// asks launches one question and returns how to judge the answer.
func (run *Run) asks(c *Cluster, id uint32, r *Rng) (judge []func()) {
	w := run.W
	br := account.Branch{Value: id}
	top := 0
	if s := c.Shard(id); s != nil {
		top = int(s.MinorBlockChain.CurrentBlock().NumberU64())
	}
	m := c.M.Master
	job := func(f func()) {
		w.count("query")
		run.Did("asks")
		c.M.Job(f)
	}
	known := func(rule string, b *types.MinorBlock) *types.MinorBlock {
		k := w.Minor[b.Hash()]
		if s := c.Shard(id); b.NumberU64() == 0 && s != nil && s.MinorBlockChain.GetMinorBlock(b.Hash()) != nil {
			k = b
		}
		if k == nil || k.Branch().Value != id {
			run.Fail("C12", rule, "%s: asked while blocks arrive, shard %x answers with block %s, which nobody mined", c.Name, id, minorOf(b))
		}
		return k
	}
	switch r.N(8) {
	case 0, 1:
		var hs []common.Hash
		for h := range w.Txs {
			hs = append(hs, h)
		}
		if len(hs) == 0 {
			return
		}
		sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
		h := pick(r, hs)
		var b *types.MinorBlock
		var idx uint32
		var rc *types.Receipt
		var err error
		if r.Pct(50) {
			job(func() { b, idx, err = m.GetTransactionByHash(h, br) })
		} else {
			job(func() { b, idx, rc, err = m.GetTransactionReceipt(h, br) })
		}
		judge = append(judge, func() {
			if err != nil || b == nil || b.NumberU64() == 0 {
				return
			}
			k := known("asks-tx", b)
			lm := run.ledger().Block(k.Hash())
			if lm.err != "" {
				return
			}
			if int(idx) >= len(lm.receipts) || lm.receipts[idx].hash != h {
				run.Fail("C12", "asks-tx", "%s: asked while blocks arrive, shard %x says transaction %s is number %d of block %s, which it is not", c.Name, id, short(h), idx, minorOf(b))
			}
			if x := lm.receipts[idx]; rc != nil && !x.silent && (rc.TxHash != h || (rc.Status != types.ReceiptStatusSuccessful) != x.failed || !x.xshard && rc.GasUsed != x.gas || rc.ContractAddress != x.create || len(rc.Logs) != len(x.logs)) {
				run.Fail("C12", "asks-receipt", "%s: asked while blocks arrive, shard %x answers for %s with the receipt of %s, status %d, gas %d; in block %s it has failed=%v, gas %d", c.Name, id, short(h), short(rc.TxHash), rc.Status, rc.GasUsed, minorOf(b), x.failed, x.gas)
			}
		})
	case 2:
		h := uint64(r.N(top + 2))
		var b *types.MinorBlock
		var err error
		job(func() { b, _, err = m.GetMinorBlockByHeight(&h, br, r.Pct(20)) })
		judge = append(judge, func() {
			if err == nil && b != nil && known("asks-block", b).NumberU64() != h {
				run.Fail("C12", "asks-block", "%s: asked for block %d of shard %x while blocks arrive, it answers %s", c.Name, h, id, minorOf(b))
			}
		})
	case 3, 4: // an account, now or then
		a := pick(r, w.Accts).Recp
		if r.Pct(30) {
			a = pick(r, contracts)
		}
		ad := account.NewAddress(a, id)
		var hp *uint64
		if r.Pct(50) {
			h := uint64(r.N(top + 1))
			hp = &h
		}
		var x *crpc.AccountBranchData
		var err error
		job(func() { x, err = m.GetPrimaryAccountData(&ad, hp) })
		judge = append(judge, func() {
			if err != nil || x == nil {
				return
			}
			h := int64(-1)
			if hp != nil {
				h = int64(*hp)
			}
			ms, _ := run.heights(id, h)
			for _, lm := range ms {
				if x.TransactionCount == lm.nonceOf(a) && x.Balance.GetTokenBalance(w.QKC).Cmp(lm.balance(a, w.QKC)) == 0 && x.Balance.GetTokenBalance(w.Tok2).Cmp(lm.balance(a, w.Tok2)) == 0 && x.IsContract == (lm.kindAt(a) != kNone) {
					return
				}
			}
			run.Fail("C13", "asks-account", "%s: asked while blocks arrive about account %x of shard %x (height %d), it answers nonce %d balance %v, which no block leads to", c.Name, a[:4], id, h, x.TransactionCount, x.Balance.GetTokenBalance(w.QKC))
		})
	case 5:
		from := r.N(top + 1)
		to := from + r.N(top+1-from)
		q := &qrpc.FilterQuery{FullShardId: id}
		q.FromBlock, q.ToBlock = big.NewInt(int64(from)), big.NewInt(int64(to))
		var got []*types.Log
		var err error
		job(func() { got, err = m.GetLogs(q) })
		judge = append(judge, func() {
			if err != nil {
				return
			}
			for _, g := range got {
				lm := run.ledger().Block(g.BlockHash)
				ok := false
				if b := w.Minor[g.BlockHash]; b != nil && b.Branch().Value == id && b.NumberU64() == g.BlockNumber && int(b.NumberU64()) >= from && int(b.NumberU64()) <= to {
					for _, rc := range lm.receipts {
						for _, l := range rc.logs {
							ok = ok || rc.hash == g.TxHash && l.addr == g.Recipient && len(g.Topics) == 1 && l.topic == g.Topics[0] && bytes.Equal(l.data, g.Data)
						}
					}
				}
				if !ok {
					run.Fail("C12", "asks-logs", "%s: asked for blocks %d to %d of shard %x while blocks arrive, it answers with a log of %s in block %d %s that is not there", c.Name, from, to, id, short(g.TxHash), g.BlockNumber, short(g.BlockHash))
				}
			}
		})
	case 6:
		if !w.P.History {
			return
		}
		a := pick(r, w.Accts).Recp
		ad := account.NewAddress(a, id)
		all := r.Pct(50)
		var got []*crpc.TransactionDetail
		var err error
		job(func() {
			if all {
				got, _, err = m.GetAllTx(br, []byte{}, 20)
			} else {
				got, _, err = m.GetTransactionsByAddress(&ad, []byte{}, 20, nil)
			}
		})
		judge = append(judge, func() {
			if err != nil {
				return
			}
			for _, g := range got {
				ms, _ := run.heights(id, int64(g.BlockHeight))
				ok := false
				for _, lm := range ms {
					for _, rc := range lm.receipts {
						ok = ok || rc.hash == g.TxHash
					}
				}
				if !ok {
					run.Fail("C12", "asks-history", "%s: asked for the history of %x in shard %x while blocks arrive, it answers with %s in block %d, where it never was", c.Name, a[:4], id, short(g.TxHash), g.BlockHeight)
				}
			}
		})
	default:
		a := pick(r, w.Accts).Recp
		ad := account.NewAddress(a, id)
		to := pick(r, append([]common.Address{{0x77}}, contracts...))
		tx := w.callTx(to, id, id, big.NewInt(int64(r.N(3))), []uint64{21000, 100000, 1000000}[r.N(3)], nil)
		if r.Pct(50) {
			job(func() { m.EstimateGas(tx, &ad) })
		} else {
			h := uint64(r.N(top + 1))
			job(func() { m.ExecuteTransaction(tx, &ad, &h) })
		}
	}
	return
}
