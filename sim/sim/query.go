//go:build go1.25

package sim

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	crpc "github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/core/types"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/ethereum/go-ethereum/common"
)

// The query oracle asks a cluster, through its master, what the JSON-RPC
// server would ask, and compares the answers with the blocks and the model.

// canon is the canonical chain of a shard, and what it contains.
type canon struct {
	id    uint32
	chain []*types.MinorBlock
	model []*lblock
	at    map[common.Hash]place // transactions
	dep   map[common.Hash]place // deliveries, behind the transactions
}

type place struct{ height, index int }

func (run *Run) canonical(c *Cluster, id uint32) *canon {
	s := c.Shard(id)
	if s == nil {
		return nil
	}
	k := &canon{id: id, at: map[common.Hash]place{}, dep: map[common.Hash]place{}}
	for b := s.MinorBlockChain.CurrentBlock(); b != nil; b = s.MinorBlockChain.GetMinorBlock(b.ParentHash()) {
		k.chain = append([]*types.MinorBlock{b}, k.chain...)
		if b.NumberU64() == 0 {
			break
		}
	}
	for h, b := range k.chain {
		m := run.ledger().Block(b.Hash())
		if m.err != "" {
			return nil // judged elsewhere
		}
		k.model = append(k.model, m)
		for i, t := range b.Transactions() {
			k.at[t.Hash()] = place{h, i}
		}
		for i, d := range m.into {
			k.dep[d.hash] = place{h, len(b.Transactions()) + i}
		}
	}
	return k
}

// rpcDo makes one client call on the master of a cluster.
func (run *Run) ask(c *Cluster, f func()) bool {
	run.W.count("query")
	return c.M.Do(10*time.Minute, f)
}

func (m *lblock) balance(a common.Address, t uint64) *big.Int {
	if x := m.acc[a]; x != nil && x.bal[t] != nil {
		return x.bal[t]
	}
	return new(big.Int)
}

func (m *lblock) nonceOf(a common.Address) uint64 {
	if x := m.acc[a]; x != nil {
		return x.nonce
	}
	return 0
}

func (m *lblock) kindAt(a common.Address) kind {
	if x := m.acc[a]; x != nil {
		return x.code
	}
	return kNone
}

func (m *lblock) storeAt(a common.Address, k common.Hash) common.Hash {
	if x := m.acc[a]; x != nil && x.stor[k] != nil {
		return common.BigToHash(x.stor[k])
	}
	return common.Hash{}
}

// someone picks an account of interest in a state.
func (m *lblock) someone(r *Rng) common.Address {
	var as []common.Address
	for a := range m.acc {
		as = append(as, a)
	}
	if len(as) == 0 {
		return common.Address{1}
	}
	sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i][:], as[j][:]) < 0 })
	return pick(r, as)
}

// opQuery: n rounds of questions to a quiet cluster.
func opQuery(run *Run, r *Rng, n int) {
	if !run.settle() {
		return
	}
	run.W.Net.OneShot = nil
	for _, c := range run.W.Clusters {
		if c.Up() {
			run.queries(c, r, 1)
		}
	}
}

// queries asks a quiet cluster about everything in each shard.
func (run *Run) queries(c *Cluster, r *Rng, n int) {
	for _, id := range run.W.FullIDs {
		k := run.canonical(c, id)
		if k == nil {
			continue
		}
		run.askBlocks(c, k, r)
		run.askTxs(c, k, r)
		run.askHistory(c, k, r)
		run.askLogs(c, k, r)
		for i := 0; i < 3; i++ {
			run.askState(c, k, r)
		}
		run.askCall(c, k, r)
		run.askEstimate(c, k, r)
		run.askAPI(c, k, r)
		if h := headHash(c, id); h != k.chain[len(k.chain)-1].Hash() {
			run.Fail("C13", "query-moved", "%s: the head of shard %x moved while only questions were asked", c.Name, id)
		}
	}
}

func (run *Run) askBlocks(c *Cluster, k *canon, r *Rng) {
	br := account.Branch{Value: k.id}
	top := uint64(len(k.chain) - 1)
	var b *types.MinorBlock
	var err error
	for i := 0; i < 3; i++ {
		h := uint64(r.N(len(k.chain)))
		run.ask(c, func() { b, _, err = c.M.Master.GetMinorBlockByHeight(&h, br, false) })
		if err != nil || b == nil || b.Hash() != k.chain[h].Hash() {
			run.Fail("C12", "query-block", "%s: block %d of shard %x is answered with %v (%v), the canonical one is %s", c.Name, h, k.id, minorOf(b), err, short(k.chain[h].Hash()))
		}
		run.Did("query-block")
	}
	over := top + 1 + uint64(r.N(3))
	run.ask(c, func() { b, _, err = c.M.Master.GetMinorBlockByHeight(&over, br, r.Pct(50)) })
	if err == nil && b != nil {
		run.Fail("C12", "query-block-above", "%s: asked for block %d of shard %x, whose head is at %d, it answers %s", c.Name, over, k.id, top, minorOf(b))
	}
	// the extra information needs the state before the block, which pruning may have taken
	extra := r.Pct(50) && run.W.P.NoPruning
	run.ask(c, func() { b, _, err = c.M.Master.GetMinorBlockByHash(k.chain[top].Hash(), br, extra) })
	if err != nil || b == nil || b.Hash() != k.chain[top].Hash() {
		run.Fail("C12", "query-block-hash", "%s: head %d of shard %x asked by hash is answered with %v (%v)", c.Name, top, k.id, minorOf(b), err)
	}
	run.ask(c, func() { b, _, err = c.M.Master.GetMinorBlockByHash(common.Hash{1, 2, byte(r.N(256))}, br, r.Pct(50)) })
	if err == nil && b != nil {
		run.Fail("C12", "query-block-hash", "%s: shard %x answers an unknown hash with %s", c.Name, k.id, minorOf(b))
	}
	run.Did("query-block-hash")
}

func minorOf(b *types.MinorBlock) string {
	if b == nil {
		return "nothing"
	}
	return fmt.Sprintf("%d %s", b.NumberU64(), short(b.Hash()))
}

func (run *Run) askTxs(c *Cluster, k *canon, r *Rng) {
	w := run.W
	var hs []common.Hash
	for h := range w.Txs {
		hs = append(hs, h)
	}
	for h := range k.dep {
		if w.Txs[h] == nil {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		return
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	off := r.N(len(hs))
	br := account.Branch{Value: k.id}
	for i := 0; i < len(hs) && i < 12; i++ {
		h := hs[(off+i)%len(hs)]
		var b *types.MinorBlock
		var idx uint32
		var rc *types.Receipt
		var err error
		p, in := k.at[h]
		d, dep := k.dep[h]
		run.ask(c, func() { b, idx, err = c.M.Master.GetTransactionByHash(h, br) })
		found := err == nil && b != nil && b.NumberU64() != 0
		switch {
		case in:
			if !found || b.Hash() != k.chain[p.height].Hash() || int(idx) != p.index {
				run.Fail("C12", "query-tx", "%s: transaction %s is number %d of block %d of shard %x, the answer is number %d of %v (%v)", c.Name, short(h), p.index, p.height, k.id, idx, minorOf(b), err)
			}
		case dep: // answered or not; never wrongly
			if found && b.Hash() != k.chain[d.height].Hash() {
				run.Fail("C12", "query-tx", "%s: %s was delivered to shard %x by block %d, the answer is %v", c.Name, short(h), k.id, d.height, minorOf(b))
			}
		case found:
			run.Fail("C12", "query-tx-undone", "%s: transaction %s is not in the chain of shard %x, the answer is number %d of %v", c.Name, short(h), k.id, idx, minorOf(b))
		}
		run.Did("query-tx")
		run.ask(c, func() { b, idx, rc, err = c.M.Master.GetTransactionReceipt(h, br) })
		if !in && !dep {
			if err == nil && rc != nil && b != nil && b.NumberU64() != 0 {
				run.Fail("C12", "query-receipt-undone", "%s: transaction %s is not in the chain of shard %x, its receipt is answered for %v", c.Name, short(h), k.id, minorOf(b))
			}
			continue
		}
		if dep && !in {
			p = d
		}
		x := k.model[p.height].receipts[p.index]
		if x.silent {
			if err == nil && rc != nil && b != nil && b.NumberU64() != 0 {
				run.Fail("C12", "query-receipt-silent", "%s: %s was credited in shard %x before contracts were enabled, a receipt of %v is answered", c.Name, short(h), k.id, minorOf(b))
			}
			continue
		}
		if err != nil || b == nil || rc == nil || b.Hash() != k.chain[p.height].Hash() || int(idx) != p.index {
			run.Fail("C12", "query-receipt", "%s: the receipt of %s is number %d of block %d of shard %x, the answer is number %d of %v (%v)", c.Name, short(h), p.index, p.height, k.id, idx, minorOf(b), err)
		}
		if rc.TxHash != h || (rc.Status != types.ReceiptStatusSuccessful) != x.failed || !x.xshard && rc.GasUsed != x.gas || rc.ContractAddress != x.create || len(rc.Logs) != len(x.logs) {
			run.Fail("C12", "query-receipt-content", "%s: the receipt of %s in shard %x says %s status %d gas %d contract %x logs %d; by the rules failed=%v gas %d contract %x logs %d", c.Name, short(h), k.id, short(rc.TxHash), rc.Status, rc.GasUsed, rc.ContractAddress[:4], len(rc.Logs), x.failed, x.gas, x.create[:4], len(x.logs))
		}
		run.Did("query-receipt")
	}
}

// hist is one line of an account's history.
type hist struct {
	hash   common.Hash
	height uint64
	dep    bool
	root   bool
	from   common.Address
	to     common.Address
	create bool
	value  *big.Int
	token  uint64
	failed bool
	nonce  uint64
	time   uint64
}

// history is what a shard did to an account (or, for all, to anyone), oldest first.
func (k *canon) history(a common.Address, all bool, token *uint64) (hs []hist) {
	for h, b := range k.chain {
		m := k.model[h]
		for _, d := range m.into {
			if all && d.root || d.root && d.value.Sign() == 0 || !all && d.to != a || !d.root && token != nil && d.token != *token {
				continue
			}
			hs = append(hs, hist{hash: d.hash, height: uint64(h), dep: true, root: d.root, from: d.from, to: d.to, value: d.value, token: d.token, time: b.Time()})
		}
		for i, t := range b.Transactions() {
			e := t.EvmTx
			from, _ := types.Sender(types.MakeSigner(e.NetworkId()), e)
			here := e.To() != nil && *e.To() == a && e.ToFullShardKey() == k.id
			if !all && from != a && !here || token != nil && e.TransferTokenID() != *token {
				continue
			}
			x := hist{hash: t.Hash(), height: uint64(h), from: from, value: e.Value(), token: e.TransferTokenID(), failed: m.receipts[i].failed, nonce: e.Nonce(), time: b.Time()}
			if e.To() == nil {
				x.create = true
			} else {
				x.to = *e.To()
			}
			hs = append(hs, x)
		}
	}
	return
}

func (run *Run) askHistory(c *Cluster, k *canon, r *Rng) {
	if !run.W.P.History {
		return
	}
	for i := 0; i < 3; i++ {
		all := i == 2
		a := k.model[len(k.model)-1].someone(r)
		if r.Pct(70) {
			a = pick(r, run.W.Accts).Recp
		}
		var tok *uint64
		if !all && r.Pct(30) {
			t := pick(r, []uint64{run.W.QKC, run.W.Tok2})
			tok = &t
		}
		want := k.history(a, all, tok)
		limit := uint32(1 + r.N(5))
		var got []*crpc.TransactionDetail
		start := []byte{}
		for page := 0; ; page++ {
			var l []*crpc.TransactionDetail
			var next []byte
			var err error
			run.ask(c, func() {
				if all {
					l, next, err = c.M.Master.GetAllTx(account.Branch{Value: k.id}, start, limit)
				} else {
					ad := account.NewAddress(a, k.id)
					l, next, err = c.M.Master.GetTransactionsByAddress(&ad, start, limit, tok)
				}
			})
			if err != nil {
				run.Fail("C12", "query-history", "%s: history of %x in shard %x (all=%v, page %d): %v", c.Name, a[:4], k.id, all, page, err)
			}
			if len(l) > int(limit) {
				run.Fail("C12", "query-history", "%s: history of %x in shard %x: a page of %d was asked for, %d came", c.Name, a[:4], k.id, limit, len(l))
			}
			got = append(got, l...)
			if len(l) == 0 || page > len(want)+3 {
				break
			}
			start = next
		}
		same := func(rev bool) string {
			if len(got) != len(want) {
				s := ""
				for _, x := range want {
					s += fmt.Sprintf(" %s@%d", short(x.hash), x.height)
				}
				return fmt.Sprintf("%d entries, not %d (%s)", len(got), len(want), s)
			}
			for i, g := range got {
				x := want[i]
				if rev {
					x = want[len(want)-1-i]
				}
				switch {
				case g.TxHash != x.hash || g.BlockHeight != x.height:
					return fmt.Sprintf("entry %d is %s at %d, not %s at %d", i, short(g.TxHash), g.BlockHeight, short(x.hash), x.height)
				case g.FromAddress.Recipient != x.from || (g.ToAddress == nil) != x.create || g.ToAddress != nil && g.ToAddress.Recipient != x.to:
					return fmt.Sprintf("entry %d (%s) has the wrong parties", i, short(x.hash))
				case g.Value.Value.Cmp(x.value) != 0 || g.TransferTokenID != x.token || g.IsFromRootChain != x.root || g.Nonce != x.nonce || g.Timestamp != x.time:
					return fmt.Sprintf("entry %d (%s) has value %v token %d nonce %d", i, short(x.hash), g.Value.Value, g.TransferTokenID, g.Nonce)
				case !x.dep && g.Success == x.failed:
					return fmt.Sprintf("entry %d (%s) has success %v", i, short(x.hash), g.Success)
				}
			}
			return ""
		}
		if e := same(false); e != "" && same(true) != "" {
			run.Fail("C12", "query-history", "%s: history of %x in shard %x (all=%v, pages of %d): %s", c.Name, a[:4], k.id, all, limit, e)
		}
		run.Did("query-history")
	}
}

func (run *Run) askLogs(c *Cluster, k *canon, r *Rng) {
	from := r.N(len(k.chain))
	to := from + r.N(len(k.chain)-from)
	q := &qrpc.FilterQuery{FullShardId: k.id}
	q.FromBlock, q.ToBlock = big.NewInt(int64(from)), big.NewInt(int64(to))
	if r.Pct(50) {
		q.Addresses = append(q.Addresses, pick(r, contracts))
		if r.Pct(50) {
			q.Addresses = append(q.Addresses, pick(r, contracts))
		}
	}
	type item struct {
		llog
		height int
		hash   common.Hash
		tx     common.Hash
		index  int
	}
	var want []item
	topics := map[common.Hash]bool{}
	for h := from; h <= to; h++ {
		n := 0
		for _, rc := range k.model[h].receipts {
			for _, l := range rc.logs {
				want = append(want, item{l, h, k.chain[h].Hash(), rc.hash, n})
				topics[l.topic] = true
				n++
			}
		}
	}
	if len(topics) > 0 && r.Pct(30) {
		var ts []common.Hash
		for t := range topics {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return bytes.Compare(ts[i][:], ts[j][:]) < 0 })
		q.Topics = [][]common.Hash{{pick(r, ts)}}
	}
	n := 0
	for _, x := range want {
		ok := len(q.Addresses) == 0
		for _, a := range q.Addresses {
			ok = ok || a == x.addr
		}
		if len(q.Topics) > 0 && q.Topics[0][0] != x.topic {
			ok = false
		}
		if ok {
			want[n] = x
			n++
		}
	}
	want = want[:n]
	var got []*types.Log
	var err error
	run.ask(c, func() { got, err = c.M.Master.GetLogs(q) })
	if err != nil || len(got) != len(want) {
		run.Fail("C12", "query-logs", "%s: blocks %d to %d of shard %x hold %d such logs, the answer has %d (%v)", c.Name, from, to, k.id, len(want), len(got), err)
	}
	for i, g := range got {
		x := want[i]
		if g.Recipient != x.addr || len(g.Topics) != 1 || g.Topics[0] != x.topic || !bytes.Equal(g.Data, x.data) {
			run.Fail("C12", "query-logs", "%s: log %d of blocks %d to %d of shard %x differs", c.Name, i, from, to, k.id)
		}
		if int(g.BlockNumber) != x.height || g.BlockHash != x.hash || g.TxHash != x.tx {
			run.Fail("C12", "query-logs-place", "%s: log %d of blocks %d to %d of shard %x is placed at block %d %s transaction %s, it is in %d %s, %s", c.Name, i, from, to, k.id, g.BlockNumber, short(g.BlockHash), short(g.TxHash), x.height, short(x.hash), short(x.tx))
		}
	}
	run.Did("query-logs")
}

// hasState: a pruned state may be refused, not made up.
func hasState(c *Cluster, k *canon, h int) bool {
	s := c.Shard(k.id)
	if s == nil {
		return false
	}
	_, err := s.MinorBlockChain.StateAt(k.chain[h].Root())
	return err == nil
}

func (run *Run) askState(c *Cluster, k *canon, r *Rng) {
	w := run.W
	h := r.N(len(k.chain))
	m := k.model[h]
	hp := new(uint64)
	*hp = uint64(h)
	if h == len(k.chain)-1 && r.Pct(50) {
		hp = nil
	}
	must := hasState(c, k, h)
	a := m.someone(r)
	ad := account.NewAddress(a, k.id)
	at := func() string {
		if hp == nil {
			return "the latest block"
		}
		return fmt.Sprintf("block %d", *hp)
	}
	check := func(x *crpc.AccountBranchData) {
		for _, t := range []uint64{w.QKC, w.Tok2} {
			if g := x.Balance.GetTokenBalance(t); g.Cmp(m.balance(a, t)) != 0 {
				run.Fail("C13", "query-balance", "%s: account %x of shard %x has %v of token %d after %s (head %d), the answer is %v", c.Name, a[:4], k.id, m.balance(a, t), t, at(), len(k.chain)-1, g)
			}
		}
		if x.TransactionCount != m.nonceOf(a) {
			run.Fail("C13", "query-nonce", "%s: account %x of shard %x has nonce %d after %s (head %d), the answer is %d", c.Name, a[:4], k.id, m.nonceOf(a), at(), len(k.chain)-1, x.TransactionCount)
		}
		if x.IsContract != (m.kindAt(a) != kNone) {
			run.Fail("C13", "query-contract", "%s: account %x of shard %x is a contract after %s: %v", c.Name, a[:4], k.id, at(), x.IsContract)
		}
	}
	var one *crpc.AccountBranchData
	var err error
	run.ask(c, func() { one, err = c.M.Master.GetPrimaryAccountData(&ad, hp) })
	switch {
	case err == nil && one != nil:
		check(one)
	case must && hp == nil:
		// with a height, the shards of the same process must all have it
		run.Fail("C13", "query-account", "%s: account %x of shard %x after %s: %v", c.Name, a[:4], k.id, at(), err)
	}
	if hp == nil {
		var many map[uint32]*crpc.AccountBranchData
		run.ask(c, func() { many, err = c.M.Master.GetAccountData(&ad, nil) })
		if err == nil && many[k.id] != nil {
			check(many[k.id])
		} else if must && len(c.Shards()) == len(w.FullIDs) {
			run.Fail("C13", "query-account", "%s: account %x in all shards: %v", c.Name, a[:4], err)
		}
	}
	ct := pick(r, contracts)
	if m.kindAt(a) != kNone {
		ct = a
	}
	cd := account.NewAddress(ct, k.id)
	keys := []common.Hash{{}}
	if x := m.acc[ct]; x != nil {
		for s := range x.stor {
			keys = append(keys, s)
		}
		sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) < 0 })
	}
	key := pick(r, keys)
	var v common.Hash
	run.ask(c, func() { v, err = c.M.Master.GetStorageAt(&cd, key, hp) })
	if err != nil && must || err == nil && v != m.storeAt(ct, key) {
		run.Fail("C13", "query-storage", "%s: contract %x of shard %x stores %x at %x after %s (head %d), the answer is %x (%v)", c.Name, ct[:4], k.id, m.storeAt(ct, key), key, at(), len(k.chain)-1, v, err)
	}
	var code []byte
	run.ask(c, func() { code, err = c.M.Master.GetCode(&cd, hp) })
	if err != nil && must || err == nil && kindOf(code) != m.kindAt(ct) {
		run.Fail("C13", "query-code", "%s: contract %x of shard %x after %s (head %d): the answer has %d bytes of code (%v)", c.Name, ct[:4], k.id, at(), len(k.chain)-1, len(code), err)
	}
	over := uint64(len(k.chain) + r.N(3))
	run.ask(c, func() { one, err = c.M.Master.GetPrimaryAccountData(&ad, &over) })
	if err == nil {
		run.Fail("C13", "query-above", "%s: asked about shard %x after block %d, it answers although the head is at %d", c.Name, k.id, over, len(k.chain)-1)
	}
	run.Did("query-state")
}

// callTx is a call as the JSON-RPC server makes it: unsigned.
func (w *World) callTx(to common.Address, id, toID uint32, value *big.Int, gas uint64, data []byte) *types.Transaction {
	e := types.NewEvmTransaction(0, to, value, gas, new(big.Int), id, toID, 3, 0, data, w.QKC, w.QKC)
	return &types.Transaction{TxType: types.EvmTx, EvmTx: e}
}

// lockedIn: may the account's stake be locked around a block?
func (k *canon) lockedIn(h int, a common.Address) bool {
	for i := max(0, h-70); i < len(k.chain) && i <= h+1; i++ {
		if k.chain[i].Coinbase().Recipient == a {
			return true
		}
	}
	return false
}

// askCall: what can be paid depends on the state asked about.
func (run *Run) askCall(c *Cluster, k *canon, r *Rng) {
	w := run.W
	h := r.N(len(k.chain))
	m := k.model[h]
	a := pick(r, w.Accts).Recp
	if w.P.PoSW && k.lockedIn(h, a) {
		return
	}
	have := m.balance(a, w.QKC)
	ad := account.NewAddress(a, k.id)
	hp := uint64(h)
	to := common.Address{0x77, byte(r.N(256))}
	ask := func(v *big.Int, to common.Address, gas uint64) (out []byte, err error) {
		err = fmt.Errorf("no answer")
		run.ask(c, func() { out, err = c.M.Master.ExecuteTransaction(w.callTx(to, k.id, k.id, v, gas, nil), &ad, &hp) })
		return
	}
	gas := uint64(21000 + r.N(2)*9000)
	_, err := ask(new(big.Int).Add(have, big.NewInt(1)), to, gas)
	if err == nil {
		run.Fail("C13", "query-call", "%s: a call after block %d of shard %x (head %d) may spend more than the %v account %x had", c.Name, h, k.id, len(k.chain)-1, have, a[:4])
	}
	if _, err = ask(have, to, gas); err != nil && hasState(c, k, h) {
		run.Fail("C13", "query-call", "%s: a call after block %d of shard %x (head %d) may not spend the %v account %x had: %v", c.Name, h, k.id, len(k.chain)-1, have, a[:4], err)
	}
	run.Did("query-call")
	// and so does what a contract sees of the block it runs in
	hp = uint64(h)
	at := &hp
	if h == len(k.chain)-1 && r.Pct(50) {
		at = nil
	}
	var out []byte
	err = fmt.Errorf("no answer")
	run.ask(c, func() {
		out, err = c.M.Master.ExecuteTransaction(w.callTx(EnvAddr, k.id, k.id, new(big.Int), 100000, nil), &ad, at)
	})
	if err != nil {
		if hasState(c, k, h) {
			run.Fail("C13", "query-env", "%s: a call after block %d of shard %x (head %d) fails: %v", c.Name, h, k.id, len(k.chain)-1, err)
		}
		return
	}
	b := k.chain[h]
	parent := b.ParentHash()
	if h == 0 {
		parent = common.Hash{} // nothing is before it
		copy(out[len(out)-32:], parent[:])
	}
	want := fmt.Sprintf("number %d time %d miner %x difficulty %v gas limit %v after %x", h, b.Time(), b.Coinbase().Recipient, b.Difficulty(), b.Header().GasLimit.Value, parent)
	got := fmt.Sprintf("%x", out)
	if len(out) == 192 {
		n := func(i int) *big.Int { return new(big.Int).SetBytes(out[32*i : 32*i+32]) }
		got = fmt.Sprintf("number %v time %v miner %x difficulty %v gas limit %v after %x", n(0), n(1), out[76:96], n(3), n(4), out[160:])
	}
	if got != want {
		run.Fail("C13", "query-env", "%s: a call after block %d of shard %x (head %d) runs in a block with %s, it is %s", c.Name, h, k.id, len(k.chain)-1, got, want)
	}
	run.Did("query-env")
}

// askEstimate: the estimate suffices, and less does not.
func (run *Run) askEstimate(c *Cluster, k *canon, r *Rng) {
	w := run.W
	top := len(k.chain) - 1
	m := k.model[top]
	a := pick(r, w.Accts).Recp
	if w.P.PoSW && k.lockedIn(top, a) {
		return
	}
	ad := account.NewAddress(a, k.id)
	to := common.Address{0x77, byte(r.N(256))}
	want := uint32(21000)
	toID := k.id
	switch r.N(4) {
	case 0:
		if ids := c.Shards(); len(ids) > 1 {
			toID = pick(r, ids)
		}
	case 1: // a contract
		to, want = CounterAddr, 0
	case 2: // never succeeds
		to, want = RevertAddr, 0
	}
	if toID != k.id {
		want += gXshard
		to = common.Address{0x77, byte(r.N(256))}
		if want < gXshard+21000 {
			want = gXshard + 21000
		}
	}
	v := big.NewInt(int64(r.N(3)))
	if r.Pct(20) {
		v = new(big.Int).Add(m.balance(a, w.QKC), big.NewInt(1))
	}
	if toID == k.id && m.balance(a, w.QKC).Cmp(v) < 0 {
		want = 0
	}
	start := []uint64{0, 21001, 100000, 1 << 31, 20000000}[r.N(5)]
	var g uint32
	var err error
	run.ask(c, func() { g, err = c.M.Master.EstimateGas(w.callTx(to, k.id, toID, v, start, nil), &ad) })
	run.Did("query-estimate")
	if err != nil {
		return
	}
	if want > 0 && toID == k.id && g != want {
		run.Fail("C13", "query-estimate", "%s: a transfer in shard %x is estimated at %d", c.Name, k.id, g)
	}
	if toID != k.id {
		return
	}
	try := func(g uint64) error {
		err := fmt.Errorf("no answer")
		run.ask(c, func() { _, err = c.M.Master.ExecuteTransaction(w.callTx(to, k.id, toID, v, g, nil), &ad, nil) })
		return err
	}
	if e := try(uint64(g)); e != nil {
		run.Fail("C13", "query-estimate", "%s: estimated at %d in shard %x, but a call with that fails: %v", c.Name, g, k.id, e)
	}
	if e := try(uint64(g) - 1); e == nil {
		run.Fail("C13", "query-estimate", "%s: estimated at %d in shard %x, but a call with less succeeds", c.Name, g, k.id)
	}
}
