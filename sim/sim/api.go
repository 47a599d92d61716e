//go:build go1.25

package sim

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	_ "unsafe"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/internal/qkcapi"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/ethereum/go-ethereum/common"
)

// The same questions through the JSON-RPC server: real argument decoding,
// handlers and encoders, over an in-memory pipe.

//go:linkname apiConfig github.com/QuarkChain/goquarkchain/internal/qkcapi.clusterCfg
var apiConfig *config.ClusterConfig

type apiConn struct {
	tag    uint32
	client *qrpc.Client
}

// jrpc makes one JSON-RPC call on a cluster's master.
func (run *Run) jrpc(c *Cluster, res any, method string, args ...any) error {
	err := errors.New("no answer")
	run.ask(c, func() {
		if c.api == nil || c.api.tag != c.M.Tag {
			s := qrpc.NewServer()
			for _, a := range qkcapi.GetAPIs(c.M.Master) {
				if e := s.RegisterName(a.Namespace, a.Service); e != nil {
					panic(e)
				}
			}
			apiConfig = c.M.Master.GetClusterConfig()
			c.api = &apiConn{c.M.Tag, qrpc.DialInProc(s)}
		}
		err = c.api.client.Call(res, method, args...)
	})
	run.Did("api")
	return err
}

func hx[T ~int | ~uint32 | ~uint64](v T) string { return fmt.Sprintf("0x%x", uint64(v)) }

func hb(b []byte) string { return "0x" + hex.EncodeToString(b) }

func txID(h common.Hash, key uint32) string { return hb(h[:]) + fmt.Sprintf("%08x", key) }

// num reads a quantity of an answer.
func num(v any) *big.Int {
	s, ok := v.(string)
	if !ok || !strings.HasPrefix(s, "0x") {
		return big.NewInt(-1)
	}
	n, ok := new(big.Int).SetString(s[2:], 16)
	if !ok {
		return big.NewInt(-1)
	}
	return n
}

func isNum[T ~int | ~uint32 | ~uint64](v any, n T) bool {
	x := num(v)
	return x.IsUint64() && x.Uint64() == uint64(n)
}

type jmap = map[string]any

func (run *Run) askAPI(c *Cluster, k *canon, r *Rng) {
	run.apiTxs(c, k, r)
	run.apiBlocks(c, k, r)
	run.apiState(c, k, r)
	run.apiHistory(c, k, r)
	run.apiLogs(c, k, r)
}

func (run *Run) apiTxs(c *Cluster, k *canon, r *Rng) {
	w := run.W
	var hs []common.Hash
	for h := range w.Txs {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
	if len(hs) == 0 {
		return
	}
	off := r.N(len(hs))
	for i := 0; i < len(hs) && i < 8; i++ {
		h := hs[(off+i)%len(hs)]
		e := w.Txs[h].EvmTx
		p, in := k.at[h]
		if from, err := c.M.Master.GetClusterConfig().Quarkchain.GetFullShardIdByFullShardKey(e.FromFullShardKey()); err != nil || from != k.id {
			continue
		}
		id := txID(h, e.FromFullShardKey())
		var a jmap
		err := run.jrpc(c, &a, "qkc_getTransactionById", id)
		if !in {
			if err == nil && a != nil && !isNum(a["blockHeight"], 0) {
				run.Fail("C12", "api-tx", "%s: transaction %s is not in shard %x, the answer is block %v", c.Name, short(h), k.id, a["blockHeight"])
			}
			a = nil
			err = run.jrpc(c, &a, "qkc_getTransactionReceipt", id)
			if err == nil && a != nil && !isNum(a["blockHeight"], 0) {
				run.Fail("C12", "api-receipt", "%s: transaction %s is not in shard %x, the answer has a receipt in block %v", c.Name, short(h), k.id, a["blockHeight"])
			}
			var n string
			err = run.jrpc(c, &n, "qkc_getTransactionConfirmedByNumberRootBlocks", id)
			if err == nil && !isNum(n, 0) {
				run.Fail("C12", "api-confirmed", "%s: transaction %s is not in shard %x, the answer has %v root blocks confirming it", c.Name, short(h), k.id, n)
			}
			continue
		}
		b := k.chain[p.height]
		x := k.model[p.height].receipts[p.index]
		bid := txID(b.Hash(), k.id)
		from, _ := types.Sender(types.MakeSigner(e.NetworkId()), e)
		to := "0x"
		if e.To() != nil {
			to = hb(e.To()[:])
		}
		if err != nil || a["id"] != id || a["hash"] != hb(h[:]) || a["blockId"] != bid || !isNum(a["blockHeight"], p.height) || !isNum(a["transactionIndex"], p.index) ||
			!isNum(a["nonce"], e.Nonce()) || a["from"] != hb(from[:]) || a["to"] != to || num(a["value"]).Cmp(e.Value()) != 0 || a["data"] != hb(e.Data()) || !isNum(a["gas"], e.Gas()) || num(a["gasPrice"]).Cmp(e.GasPrice()) != 0 || !isNum(a["timestamp"], b.Time()) ||
			!isNum(a["transferTokenId"], e.TransferTokenID()) || !isNum(a["gasTokenId"], e.GasTokenID()) || !isNum(a["fullShardId"], k.id) || a["toFullShardKey"] != fmt.Sprintf("0x%08x", e.ToFullShardKey()) {
			run.Fail("C12", "api-tx", "%s: transaction %s is number %d of block %d of shard %x, the answer is %v (%v)", c.Name, short(h), p.index, p.height, k.id, a, err)
		}
		a = nil
		err = run.jrpc(c, &a, "qkc_getTransactionReceipt", id)
		status, cum, odd := 1, k.model[p.height].xGasUsed, x.xshard
		if x.failed {
			status = 0
		}
		for _, y := range k.model[p.height].receipts[:p.index+1] {
			cum += y.gas
			odd = odd || y.xshard
		}
		logs, _ := a["logs"].([]any)
		if err != nil || a["transactionId"] != id || a["transactionHash"] != hb(h[:]) || !isNum(a["transactionIndex"], p.index) || a["blockId"] != bid || a["blockHash"] != hb(b.Hash().Bytes()) ||
			!isNum(a["blockHeight"], p.height) || !isNum(a["blockNumber"], p.height) || !isNum(a["status"], status) || !isNum(a["timestamp"], b.Time()) || len(logs) != len(x.logs) {
			run.Fail("C12", "api-receipt", "%s: the receipt of %s is number %d of block %d of shard %x with status %d and %d logs, the answer is %v (%v)", c.Name, short(h), p.index, p.height, k.id, status, len(x.logs), a, err)
		}
		if !x.xshard && !isNum(a["gasUsed"], x.gas) {
			run.Fail("C12", "api-receipt-gas", "%s: transaction %s, number %d of block %d of shard %x, used %d gas, the answer is %v (in all %v)", c.Name, short(h), p.index, p.height, k.id, x.gas, a["gasUsed"], a["cumulativeGasUsed"])
		}
		if !odd && !isNum(a["cumulativeGasUsed"], cum) {
			run.Fail("C12", "api-receipt-gas", "%s: up to transaction %s, number %d, block %d of shard %x used %d gas, the answer is %v", c.Name, short(h), p.index, p.height, k.id, cum, a["cumulativeGasUsed"])
		}
		ca, _ := a["contractAddress"].(string)
		if x.create == (common.Address{}) && ca != "" || x.create != (common.Address{}) && !strings.HasPrefix(ca, hb(x.create[:])) {
			run.Fail("C12", "api-receipt-contract", "%s: transaction %s created %x, its receipt says %q", c.Name, short(h), x.create, ca)
		}
		for j, l := range logs {
			run.apiLog(c, l, x.logs[j], p.height, b.Hash(), h, p.index)
		}
		run.Did("api-receipt")
		want := c.confirmations(b.Hash())
		var n string
		err = run.jrpc(c, &n, "qkc_getTransactionConfirmedByNumberRootBlocks", id)
		if w.P.History && (err != nil && want > 0 || err == nil && !isNum(n, want)) {
			run.Fail("C12", "api-confirmed", "%s: %d root blocks confirm transaction %s (block %d of shard %x), the answer is %v (%v)", c.Name, want, short(h), p.height, k.id, n, err)
		}
	}
}

func (run *Run) apiLog(c *Cluster, v any, l llog, height int, block, tx common.Hash, index int) {
	m, _ := v.(jmap)
	ts, _ := m["topics"].([]any)
	if m["address"] != hb(l.addr[:]) && m["address"] != l.addr.Hex() || len(ts) != 1 || ts[0] != hb(l.topic[:]) || m["data"] != hb(l.data) {
		run.Fail("C12", "api-log", "%s: a log of transaction %s of block %d is answered as %v", c.Name, short(tx), height, m)
	}
	if m["blockHash"] != hb(block[:]) || !isNum(m["blockNumber"], height) || index >= 0 && !isNum(m["transactionIndex"], index) || m["transactionHash"] != hb(tx[:]) || m["removed"] != false {
		run.Fail("C12", "api-log-place", "%s: a log of transaction %s, number %d of block %d %s, is placed as %v", c.Name, short(tx), index, height, short(block), m)
	}
}

// confirmations counts the canonical root blocks from the one confirming a minor block on.
func (c *Cluster) confirmations(h common.Hash) int {
	n := 0
	rc := c.RootChain()
	for b := rc.CurrentBlock(); b != nil; {
		n++
		for _, m := range b.MinorBlockHeaders() {
			if m.Hash() == h {
				return n
			}
		}
		if b.NumberU64() == 0 {
			break
		}
		b, _ = rc.GetBlock(b.ParentHash()).(*types.RootBlock)
	}
	return 0
}

func (run *Run) apiBlocks(c *Cluster, k *canon, r *Rng) {
	for i := 0; i < 2; i++ {
		h := r.N(len(k.chain))
		b := k.chain[h]
		full := r.Pct(50)
		var a jmap
		var err error
		if i == 0 {
			err = run.jrpc(c, &a, "qkc_getMinorBlockByHeight", hx(k.id), hx(h), full, r.Pct(30))
		} else {
			err = run.jrpc(c, &a, "qkc_getMinorBlockById", txID(b.Hash(), k.id), full, r.Pct(30))
		}
		txs, _ := a["transactions"].([]any)
		if err != nil && strings.Contains(err.Error(), "missing trie node") {
			continue // what stake says about a pruned state
		}
		if err != nil || a["hash"] != hb(b.Hash().Bytes()) || !isNum(a["height"], h) || a["hashPrevMinorBlock"] != hb(b.ParentHash().Bytes()) || a["hashPrevRootBlock"] != hb(b.PrevRootBlockHash().Bytes()) || a["id"] != txID(b.Hash(), k.id) ||
			!isNum(a["timestamp"], b.Time()) || num(a["difficulty"]).Cmp(b.Difficulty()) != 0 || a["hashEvmStateRoot"] != hb(b.Root().Bytes()) || num(a["gasUsed"]).Cmp(b.GasUsed()) != 0 || len(txs) != len(b.Transactions()) {
			run.Fail("C12", "api-block", "%s: block %d of shard %x is %s with %d transactions, the answer is %v (%v)", c.Name, h, k.id, short(b.Hash()), len(b.Transactions()), a, err)
		}
		for j, t := range txs {
			want := b.Transactions()[j]
			if m, ok := t.(jmap); full && (!ok || m["hash"] != hb(want.Hash().Bytes())) || !full && t != txID(want.Hash(), k.id) {
				run.Fail("C12", "api-block", "%s: transaction %d of block %d of shard %x is %s, the answer is %v", c.Name, j, h, k.id, short(want.Hash()), t)
			}
		}
	}
	var a jmap
	over := len(k.chain) + r.N(3)
	if err := run.jrpc(c, &a, "qkc_getMinorBlockByHeight", hx(k.id), hx(over), false, false); err == nil && a != nil {
		run.Fail("C12", "api-block", "%s: block %d of shard %x, whose head is at %d, is answered as %v", c.Name, over, k.id, len(k.chain)-1, a)
	}
	// the root chain
	rc := c.RootChain()
	top := rc.CurrentBlock()
	h := r.N(int(top.NumberU64()) + 1)
	b := top
	for b != nil && b.NumberU64() > uint64(h) {
		b, _ = rc.GetBlock(b.ParentHash()).(*types.RootBlock)
	}
	if b == nil {
		return
	}
	var err error
	a = nil
	if r.Pct(50) {
		err = run.jrpc(c, &a, "qkc_getRootBlockByHeight", hx(h), r.Pct(30))
	} else {
		err = run.jrpc(c, &a, "qkc_getRootBlockById", hb(b.Hash().Bytes()), r.Pct(30))
	}
	ms, _ := a["minorBlockHeaders"].([]any)
	if err != nil || a["hash"] != hb(b.Hash().Bytes()) || !isNum(a["height"], h) || a["hashPrevBlock"] != hb(b.ParentHash().Bytes()) || !isNum(a["timestamp"], b.Time()) || len(ms) != len(b.MinorBlockHeaders()) {
		run.Fail("C12", "api-root", "%s: root block %d is %s with %d headers, the answer is %v (%v)", c.Name, h, short(b.Hash()), len(b.MinorBlockHeaders()), a, err)
	}
	for j, x := range ms {
		m, _ := x.(jmap)
		if mh := b.MinorBlockHeaders()[j]; m["hash"] != hb(mh.Hash().Bytes()) || m["id"] != txID(mh.Hash(), mh.Branch.GetFullShardID()) || !isNum(m["height"], mh.Number) {
			run.Fail("C12", "api-root", "%s: header %d of root block %d is %s, the answer is %v", c.Name, j, h, short(mh.Hash()), x)
		}
	}
	if !run.W.P.History {
		return
	}
	// who mined the blocks the root chain confirms
	want := map[string]map[string]int{}
	for b := top; b != nil; {
		for _, m := range b.MinorBlockHeaders() {
			s := strconv.Itoa(int(m.Branch.GetFullShardID()))
			if want[s] == nil {
				want[s] = map[string]int{}
			}
			want[s][hex.EncodeToString(m.Coinbase.Recipient[:])]++
		}
		if b.NumberU64() == 0 {
			break
		}
		b, _ = rc.GetBlock(b.ParentHash()).(*types.RootBlock)
	}
	var cnt struct {
		RootHeight int
		ShardRC    map[string]map[string]int
	}
	err = run.jrpc(c, &cnt, "qkc_getBlockCount")
	low := map[string]map[string]int{}
	for s, m := range cnt.ShardRC {
		low[s] = map[string]int{}
		for a, n := range m {
			low[s][strings.ToLower(a)] = n
		}
	}
	if err != nil || cnt.RootHeight != int(top.NumberU64()) || fmt.Sprint(low) != fmt.Sprint(want) {
		run.Fail("C12", "api-count", "%s: up to root block %d the chain confirms blocks by %v, the answer is %v (%v)", c.Name, top.NumberU64(), want, low, err)
	}
	run.Did("api-block")
}

// apiState asks for the state after a block, by number or by name.
func (run *Run) apiState(c *Cluster, k *canon, r *Rng) {
	w := run.W
	h := r.N(len(k.chain))
	at := hx(h)
	switch r.N(4) {
	case 0:
		h, at = len(k.chain)-1, "latest"
	case 1:
		h, at = 0, "earliest"
	}
	m := k.model[h]
	must := hasState(c, k, h)
	if !must && at != "latest" {
		return
	}
	a := m.someone(r)
	ad := account.NewAddress(a, k.id).ToHex()
	bad := func(what string, want, got any, err error) {
		run.Fail("C13", "api-state", "%s: %s of %x in shard %x after block %s (head %d) is %v, the answer is %v (%v)", c.Name, what, a, k.id, at, len(k.chain)-1, want, got, err)
	}
	// other shards of the process need not know the height
	only := at == "latest" || len(c.SlaveOf(k.id).SlvCfg.FullShardList) == 1
	var s string
	if err := run.jrpc(c, &s, "qkc_getTransactionCount", ad, at); err != nil && only || err == nil && !isNum(s, m.nonceOf(a)) {
		bad("the nonce", m.nonceOf(a), s, err)
	}
	balances := func(v any) string {
		l, _ := v.([]any)
		got := map[uint64]*big.Int{}
		for _, x := range l {
			b, _ := x.(jmap)
			got[num(b["tokenId"]).Uint64()] = num(b["balance"])
		}
		for _, t := range []uint64{w.QKC, w.Tok2} {
			g := got[t]
			if g == nil {
				g = new(big.Int)
			}
			if g.Cmp(m.balance(a, t)) != 0 {
				return fmt.Sprintf("token %d: %v, not %v", t, g, m.balance(a, t))
			}
		}
		return ""
	}
	var j jmap
	if err := run.jrpc(c, &j, "qkc_getBalances", ad, at); err != nil && only || err == nil && (balances(j["balances"]) != "" || !isNum(j["fullShardId"], k.id)) {
		bad("the balance", balances(j["balances"]), j, err)
	}
	j = nil
	err := run.jrpc(c, &j, "qkc_getAccountData", ad, at)
	p, _ := j["primary"].(jmap)
	if err != nil && only || err == nil && (balances(p["balances"]) != "" || !isNum(p["transactionCount"], m.nonceOf(a)) || p["isContract"] != (m.kindAt(a) != kNone)) {
		bad("the account", fmt.Sprint(m.nonceOf(a), m.kindAt(a), balances(p["balances"])), j, err)
	}
	if at == "latest" && len(c.Shards()) == len(w.FullIDs) {
		j = nil
		err := run.jrpc(c, &j, "qkc_getAccountData", ad, nil, true)
		p, _ := j["primary"].(jmap)
		l, _ := j["shards"].([]any)
		if err != nil || len(l) != len(w.FullIDs) || balances(p["balances"]) != "" || !isNum(p["transactionCount"], m.nonceOf(a)) || !isNum(p["fullShardId"], k.id) {
			bad("the account in all shards", fmt.Sprint(m.nonceOf(a), balances(p["balances"])), j, err)
		}
	}
	ct := pick(r, contracts)
	if m.kindAt(a) != kNone {
		ct = a
	}
	cd := account.NewAddress(ct, k.id).ToHex()
	if x := m.acc[ct]; x != nil && len(x.stor) > 0 {
		var ks []common.Hash
		for s := range x.stor {
			ks = append(ks, s)
		}
		sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i][:], ks[j][:]) < 0 })
		key := pick(r, ks)
		v := m.storeAt(ct, key)
		if err := run.jrpc(c, &s, "qkc_getStorageAt", cd, hb(key[:]), at); err != nil || s != hb(v[:]) {
			bad(fmt.Sprintf("slot %x (contract %x)", key, ct), v, s, err)
		}
	}
	if err := run.jrpc(c, &s, "qkc_getCode", cd, at); err != nil || (len(s) > 2) != (m.kindAt(ct) != kNone) {
		bad(fmt.Sprintf("the code of %x", ct), m.kindAt(ct), s, err)
	}
	// a call sees the balance of its block
	a = pick(r, w.Accts).Recp
	if w.P.PoSW && k.lockedIn(h, a) {
		return
	}
	call := func(v *big.Int) error {
		to := account.NewAddress(common.Address{0x77, byte(r.N(256))}, k.id).ToHex()
		return run.jrpc(c, &s, "qkc_call", jmap{"from": account.NewAddress(a, k.id).ToHex(), "to": to, "gas": "0x5208", "value": fmt.Sprintf("0x%x", v)}, at)
	}
	have := m.balance(a, w.QKC)
	if err := call(have); err != nil {
		bad("what can be paid", have, "refused", err)
	}
	if err := call(new(big.Int).Add(have, big.NewInt(1))); err == nil {
		bad("what can be paid", have, "more", err)
	}
	run.Did("api-state")
}

func (run *Run) apiHistory(c *Cluster, k *canon, r *Rng) {
	if !run.W.P.History {
		return
	}
	all := r.Pct(50)
	a := pick(r, run.W.Accts).Recp
	var tok any
	var tp *uint64
	if !all && r.Pct(40) {
		t := pick(r, []uint64{run.W.QKC, run.W.Tok2})
		tok, tp = hx(t), &t
	}
	want := k.history(a, all, tp)
	limit := hx(1 + r.N(4))
	var got []any
	var start any
	for page := 0; page < len(want)+3; page++ {
		var j jmap
		var err error
		if all {
			err = run.jrpc(c, &j, "qkc_getAllTransaction", hx(k.id), start, limit)
		} else {
			err = run.jrpc(c, &j, "qkc_getTransactionsByAddress", account.NewAddress(a, k.id).ToHex(), start, limit, tok)
		}
		if err != nil {
			run.Fail("C12", "api-history", "%s: history of %x in shard %x (all=%v, page %d): %v", c.Name, a[:4], k.id, all, page, err)
		}
		l, _ := j["txList"].([]any)
		got = append(got, l...)
		if len(l) == 0 {
			break
		}
		start = j["next"]
	}
	same := func(rev bool) string {
		if len(got) != len(want) {
			return fmt.Sprintf("%d entries, not %d", len(got), len(want))
		}
		for i, g := range got {
			x := want[i]
			if rev {
				x = want[len(want)-1-i]
			}
			m, _ := g.(jmap)
			id, _ := m["txId"].(string)
			to := "0x"
			if !x.create {
				to = hb(x.to[:])
			}
			ad, _ := m["toAddress"].(string)
			from, _ := m["fromAddress"].(string)
			if !strings.HasPrefix(strings.ToLower(id), hb(x.hash[:])) || !isNum(m["blockHeight"], x.height) || !isNum(m["timestamp"], x.time) || !isNum(m["transferTokenId"], x.token) || num(m["value"]).Cmp(x.value) != 0 ||
				m["isFromRootChain"] != x.root || !strings.HasPrefix(strings.ToLower(ad), to) || !strings.HasPrefix(strings.ToLower(from), hb(x.from[:])) || !x.dep && m["success"] == x.failed {
				return fmt.Sprintf("entry %d is %v, not %s at %d", i, m, short(x.hash), x.height)
			}
		}
		return ""
	}
	if e := same(false); e != "" && same(true) != "" {
		run.Fail("C12", "api-history", "%s: history of %x in shard %x (all=%v, token %v, pages of %s): %s", c.Name, a[:4], k.id, all, tok, limit, e)
	}
	run.Did("api-history")
}

func (run *Run) apiLogs(c *Cluster, k *canon, r *Rng) {
	from := r.N(len(k.chain))
	to := from + r.N(len(k.chain)-from)
	ct := pick(r, contracts)
	var got []any
	err := run.jrpc(c, &got, "qkc_getLogs", jmap{"fromBlock": hx(from), "toBlock": hx(to), "address": hb(ct[:])}, hx(k.id))
	if err != nil && strings.Contains(err.Error(), "no such fullShardId") {
		return // a master knows of a shard's height when its head has moved
	}
	n := 0
	for h := from; h <= to; h++ {
		for i, rc := range k.model[h].receipts {
			for _, l := range rc.logs {
				if l.addr != ct {
					continue
				}
				if i >= len(k.chain[h].Transactions()) {
					i = -1 // deliveries are numbered apart
				}
				if n < len(got) {
					run.apiLog(c, got[n], l, h, k.chain[h].Hash(), rc.hash, i)
				}
				n++
			}
		}
	}
	if err != nil || n != len(got) {
		run.Fail("C12", "api-logs", "%s: blocks %d to %d of shard %x hold %d logs of %x, the answer has %d (%v)", c.Name, from, to, k.id, n, ct, len(got), err)
	}
	run.Did("api-logs")
}
