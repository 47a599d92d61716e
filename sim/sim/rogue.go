//go:build go1.25

package sim

import (
	"encoding/binary"
	"math/big"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/ethereum/go-ethereum/common"
)

// rogue is a ghost that misbehaves: what it sends is drawn from its own source.
type rogue struct {
	*Ghost
	run    *Run
	r      *Rng
	honest int      // percent of requests that are answered well
	seen   []uint64 // request numbers the node used
	born   int
}

func (run *Run) newRogue(c *Cluster, seed uint64) *rogue {
	g := &rogue{run: run, r: NewRng(seed), Ghost: run.W.Haunt(c), born: c.Boots}
	g.honest = []int{0, 20, 50, 80, 95}[g.r.N(5)]
	g.Reply = g.reply
	return g
}

func (g *rogue) rootHashes() (hs []common.Hash) {
	for h := range g.w.Root {
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		b := g.c.RootChain().CurrentBlock()
		g.Root[b.Hash()] = b
		return []common.Hash{b.Hash()}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Hex() < hs[j].Hex() })
	return
}

func (g *rogue) hash() common.Hash {
	switch r := g.r; r.N(6) {
	case 0:
		return common.Hash{}
	case 1, 2:
		return pick(r, g.rootHashes())
	case 3, 4:
		return pick(r, append(g.w.sortedMinors(), common.Hash{}))
	default:
		var h common.Hash
		binary.BigEndian.PutUint64(h[:], r.U64())
		return h
	}
}

func (g *rogue) n32() uint32 {
	return pick(g.r, []uint32{0, 1, 2, 3, 5, 10, 99, 100, 200, 499, 500, 501, 1000, 1001, 2000, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1})
}
func (g *rogue) n64() uint64 {
	return pick(g.r, []uint64{0, 1, 2, 3, 5, 20, 1000, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1})
}
func (g *rogue) big() *big.Int {
	r := g.r
	switch r.N(5) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(1+r.N(255)))
	default:
		return new(big.Int).Add(g.c.RootChain().CurrentBlock().TotalDifficulty(), big.NewInt(int64(1+r.N(1000000))))
	}
}
func (g *rogue) branch() uint32 {
	r := g.r
	if r.Pct(70) {
		return pick(r, g.w.FullIDs)
	}
	return pick(r, []uint32{0, 1, 1 << 16, 0xffffffff, 0x00050001, uint32(r.U64())})
}
func (g *rogue) ofBranch(id uint32) (hs []common.Hash) {
	for _, h := range g.w.sortedMinors() {
		if g.w.Minor[h].Branch().Value == id {
			hs = append(hs, h)
		}
	}
	return
}

// rootHeader is some header: true, or with fields changed.
func (g *rogue) rootHeader() *types.RootBlockHeader {
	r := g.r
	h := copyRoot(g.root(pick(r, g.rootHashes()))).Header()
	if r.Pct(30) {
		h = copyRoot(g.c.RootChain().CurrentBlock()).Header()
	}
	for k := r.N(3); k > 0; k-- {
		switch r.N(9) {
		case 0:
			h.Number = g.n32()
		case 1, 2:
			h.ToTalDifficulty = g.big()
		case 3:
			h.Difficulty = g.big()
		case 4:
			h.ParentHash = g.hash()
		case 5:
			h.Time = g.n64()
		case 6:
			h.Extra = make([]byte, r.N(2000))
		case 7:
			h.Version = g.n32()
		case 8:
			h.Nonce = r.U64()
		}
	}
	return h
}
func (g *rogue) minorHeader(id uint32) *types.MinorBlockHeader {
	r := g.r
	hs := g.ofBranch(id)
	if len(hs) == 0 || r.Pct(10) {
		hs = g.w.sortedMinors()
	}
	var h *types.MinorBlockHeader
	if len(hs) == 0 {
		b, err := g.c.MakeMinor(g.w.FullIDs[0], account.Address{FullShardKey: g.w.FullIDs[0]})
		if err != nil {
			return &types.MinorBlockHeader{}
		}
		h = copyMinor(b).Header()
	} else {
		h = copyMinor(g.w.Minor[pick(r, hs)]).Header()
	}
	for k := r.N(3); k > 0; k-- {
		switch r.N(9) {
		case 0, 1:
			h.Number = g.n64()
		case 2:
			h.Difficulty = g.big()
		case 3:
			h.ParentHash = g.hash()
		case 4:
			h.PrevRootBlockHash = g.hash()
		case 5:
			h.Time = g.n64()
		case 6:
			h.Branch = account.Branch{Value: g.branch()}
		case 7:
			h.Coinbase.FullShardKey = uint32(r.U64())
		case 8:
			h.Extra = make([]byte, r.N(2000))
		}
	}
	return h
}

// minorBlock is some block, true or wrongly sealed with content changed.
func (g *rogue) minorBlock(id uint32) *types.MinorBlock {
	r := g.r
	hs := g.ofBranch(id)
	if len(hs) == 0 {
		hs = g.w.sortedMinors()
	}
	if len(hs) == 0 {
		return nil
	}
	b := g.w.Minor[pick(r, hs)]
	if r.Pct(30) {
		return b
	}
	f := openMinor(b)
	f.Header = g.minorHeader(id)
	switch r.N(6) {
	case 0:
		f.Header.ParentHash = g.c.Shard(g.aShard(id)).MinorBlockChain.CurrentBlock().Hash()
		f.Header.Number = g.c.Shard(g.aShard(id)).MinorBlockChain.CurrentBlock().NumberU64() + 1
		f.Header.PrevRootBlockHash = g.c.RootChain().CurrentBlock().Hash()
		f.Header.Time = uint64(time.Now().Unix())
		f.Header.Branch = account.Branch{Value: id}
	case 1:
		f.Txs = append(f.Txs, f.Txs...)
	case 2:
		f.Trackingdata = make([]byte, r.N(3000))
	case 3:
		f.Meta.TxHash = g.hash()
	case 4:
		f.Meta.GasUsed = &serialize.Uint256{Value: new(big.Int).Lsh(big.NewInt(1), uint(r.N(256)))}
	}
	return WrongSeal(f.block(), big.NewInt(2)).(*types.MinorBlock)
}
func (g *rogue) aShard(id uint32) uint32 {
	for _, x := range g.c.Shards() {
		if x == id {
			return id
		}
	}
	return g.c.Shards()[0]
}
func (g *rogue) rootBlock() *types.RootBlock {
	r := g.r
	b := g.root(pick(r, g.rootHashes()))
	if r.Pct(40) || b.NumberU64() == 0 {
		return b
	}
	f := openRoot(b)
	switch r.N(4) {
	case 0:
		f.Header = g.rootHeader()
	case 1:
		f.MinorBlockHeaders = append(f.MinorBlockHeaders, g.minorHeader(g.branch()))
	case 2:
		f.MinorBlockHeaders = nil
	case 3:
		f.Trackingdata = make([]byte, r.N(3000))
		f.Header.Time++
	}
	return WrongSeal(f.block(), big.NewInt(2)).(*types.RootBlock)
}

func (g *rogue) some(max int) int {
	return pick(g.r, []int{0, 1, 1, 2, 3, 5, max})
}

// say makes up a message of a kind: mostly well-formed with odd content.
func (g *rogue) say(op p2p.P2PCommandOp) (uint32, interface{}) {
	r := g.r
	id := g.branch()
	rootHs := func() (hs []*types.RootBlockHeader) {
		for k := g.some(12); k > 0; k-- {
			hs = append(hs, g.rootHeader())
		}
		return
	}
	minorHs := func() (hs []*types.MinorBlockHeader) {
		for k := g.some(12); k > 0; k-- {
			hs = append(hs, g.minorHeader(id))
		}
		return
	}
	hashes := func() (hs []common.Hash) {
		for k := g.some(600); k > 0; k-- {
			hs = append(hs, g.hash())
		}
		return
	}
	switch op {
	case p2p.Hello:
		h := p2p.HelloCmd{}
		if g.hello != nil {
			h = *g.hello
		}
		h.RootBlockHeader = g.rootHeader()
		return 0, h
	case p2p.NewTipMsg:
		t := &p2p.Tip{RootBlockHeader: g.rootHeader()}
		if r.Pct(50) {
			id = 0
		}
		if id != 0 || r.Pct(10) {
			t.MinorBlockHeaderList = []*types.MinorBlockHeader{g.minorHeader(id)}
		}
		if r.Pct(10) {
			t.MinorBlockHeaderList = minorHs()
		}
		if id != 0 && r.Pct(60) {
			for _, h := range t.MinorBlockHeaderList {
				h.Branch = account.Branch{Value: id}
			}
		}
		return id, t
	case p2p.NewTransactionListMsg:
		l := &p2p.NewTransactionList{}
		hs := g.txHashes()
		for k := g.some(300); k > 0 && len(hs) > 0; k-- {
			l.TransactionList = append(l.TransactionList, g.w.Txs[pick(r, hs)])
		}
		return id, l
	case p2p.GetPeerListRequestMsg:
		return id, &p2p.GetPeerListRequest{MaxPeers: g.n32()}
	case p2p.GetPeerListResponseMsg:
		return id, &p2p.GetPeerListResponse{}
	case p2p.GetRootBlockHeaderListRequestMsg:
		return id, &p2p.GetRootBlockHeaderListRequest{BlockHash: g.hash(), Limit: g.n32(), Direction: uint8(r.N(3))}
	case p2p.GetRootBlockHeaderListResponseMsg, p2p.GetRootBlockHeaderListWithSkipResponseMsg:
		return id, &p2p.GetRootBlockHeaderListResponse{RootTip: g.rootHeader(), BlockHeaderList: rootHs()}
	case p2p.GetRootBlockListRequestMsg:
		return id, &p2p.GetRootBlockListRequest{RootBlockHashList: hashes()}
	case p2p.GetRootBlockListResponseMsg:
		res := &p2p.GetRootBlockListResponse{}
		for k := g.some(12); k > 0; k-- {
			res.RootBlockList = append(res.RootBlockList, g.rootBlock())
		}
		return id, res
	case p2p.GetMinorBlockListRequestMsg:
		return id, &p2p.GetMinorBlockListRequest{MinorBlockHashList: hashes()}
	case p2p.GetMinorBlockListResponseMsg:
		res := &p2p.GetMinorBlockListResponse{}
		for k := g.some(12); k > 0; k-- {
			if b := g.minorBlock(id); b != nil {
				res.MinorBlockList = append(res.MinorBlockList, b)
			}
		}
		return id, res
	case p2p.GetMinorBlockHeaderListRequestMsg:
		return id, &p2p.GetMinorBlockHeaderListRequest{BlockHash: g.hash(), Branch: account.Branch{Value: id}, Limit: g.n32(), Direction: uint8(r.N(3))}
	case p2p.GetMinorBlockHeaderListResponseMsg, p2p.GetMinorBlockHeaderListWithSkipResponseMsg:
		return id, &p2p.GetMinorBlockHeaderListResponse{RootTip: g.rootHeader(), ShardTip: g.minorHeader(id), BlockHeaderList: minorHs()}
	case p2p.NewBlockMinorMsg:
		if b := g.minorBlock(id); b != nil {
			return id, &p2p.NewBlockMinor{Block: b}
		}
		return id, &p2p.PingPongCommand{}
	case p2p.GetRootBlockHeaderListWithSkipRequestMsg:
		q := &p2p.GetRootBlockHeaderListWithSkipRequest{Type: uint8(r.N(3)), Data: g.hash(), Limit: g.n32(), Skip: g.n32(), Direction: uint8(r.N(3))}
		if r.Pct(60) {
			q.SetHeight(uint32(r.N(6)))
		} else if r.Pct(30) {
			q.SetHeight(g.n32())
		}
		return id, q
	case p2p.NewRootBlockMsg:
		return 0, &p2p.NewRootBlockCommand{Block: g.rootBlock()}
	case p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
		q := &p2p.GetMinorBlockHeaderListWithSkipRequest{Type: uint8(r.N(3)), Data: g.hash(), Branch: account.Branch{Value: id}, Limit: g.n32(), Skip: g.n32(), Direction: uint8(r.N(3))}
		if r.Pct(60) {
			q.SetHeight(uint64(r.N(6)))
		} else if r.Pct(30) {
			q.SetHeight(g.n64())
		}
		if r.Pct(10) {
			q.Branch.Value = g.branch()
		}
		return id, q
	default:
		return id, &p2p.PingPongCommand{Message: g.hash()}
	}
}

func (g *rogue) txHashes() (hs []common.Hash) {
	for h := range g.w.Txs {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Hex() < hs[j].Hex() })
	return
}

// garble changes the bytes of a message.
func (g *rogue) garble(d []byte) []byte {
	r := g.r
	d = append([]byte{}, d...)
	switch r.N(6) {
	case 0:
		return nil
	case 1:
		if len(d) > 0 {
			return d[:r.N(len(d))]
		}
	case 2:
		return append(d, make([]byte, 1+r.N(100))...)
	case 3:
		for k := 1 + r.N(4); k > 0 && len(d) > 0; k-- {
			d[r.N(len(d))] ^= byte(1 << r.N(8))
		}
	case 4:
		if len(d) >= 4 {
			binary.BigEndian.PutUint32(d[r.N(len(d)-3):], pick(r, []uint32{0, 1 << 16, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}))
		}
	default:
		d = make([]byte, r.N(200))
		for i := range d {
			d[i] = byte(r.U64())
		}
	}
	return d
}

// lucky tells whether changed bytes hold a new block with enough work for the low difficulties of a simulation.
func (g *rogue) lucky(op p2p.P2PCommandOp, d []byte) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = false
		}
	}()
	var bs []types.IBlock
	switch op {
	case p2p.NewBlockMinorMsg:
		m := new(p2p.NewBlockMinor)
		if serialize.DeserializeFromBytes(d, m) == nil {
			bs = append(bs, m.Block)
		}
	case p2p.GetMinorBlockListResponseMsg:
		m := new(p2p.GetMinorBlockListResponse)
		if serialize.DeserializeFromBytes(d, m) == nil {
			for _, b := range m.MinorBlockList {
				bs = append(bs, b)
			}
		}
	case p2p.GetRootBlockListResponseMsg:
		m := new(p2p.GetRootBlockListResponse)
		if serialize.DeserializeFromBytes(d, m) == nil {
			for _, b := range m.RootBlockList {
				bs = append(bs, b)
			}
		}
	}
	for _, b := range bs {
		h := b.IHeader()
		if g.w.Minor[h.Hash()] == nil && g.w.Root[h.Hash()] == nil && Sealed(h, big.NewInt(20)) {
			return true
		}
	}
	return false
}

var rogueOps = func() (ops []p2p.P2PCommandOp) {
	for op := p2p.Hello; op < p2p.MaxOPNum; op++ {
		ops = append(ops, op)
	}
	return
}()

func (g *rogue) number() uint64 {
	r := g.r
	if len(g.seen) > 0 && r.Pct(60) {
		return g.seen[len(g.seen)-1-r.N(min(3, len(g.seen)))]
	}
	if r.Pct(50) {
		return uint64(r.N(12))
	}
	return g.n64()
}

// pester sends one hostile message.
func (g *rogue) pester() {
	r := g.r
	op := pick(r, rogueOps)
	if r.Pct(30) {
		op = pick(r, []p2p.P2PCommandOp{p2p.NewTipMsg, p2p.NewBlockMinorMsg, p2p.NewTipMsg})
	}
	id, v := g.say(op)
	if r.Pct(3) {
		op = p2p.P2PCommandOp(r.N(256))
	}
	d, err := serialize.SerializeToBytes(v)
	if err != nil {
		return
	}
	what := op
	if r.Pct(20) {
		if x := g.garble(d); !g.lucky(op, x) {
			d = x
		}
		g.w.count("rogue-garbled")
	}
	num := uint64(0)
	if r.Pct(70) {
		num = g.number()
	}
	if r.Pct(2) {
		// not even a message
		raw := make([]byte, r.N(40))
		for i := range raw {
			raw[i] = byte(r.U64())
		}
		g.write(raw)
		g.w.count("rogue-raw")
		return
	}
	g.run.Log("rogue %d at %s: op %d branch %x number %d, %d bytes", g.idx, g.c.Name, what, id, num, len(d))
	g.w.count("rogue-message")
	g.sendRaw(op, id, num, d)
}

// reply decides what becomes of a request of the node.
func (g *rogue) reply(op p2p.P2PCommandOp, meta p2p.Metadata, id uint64, data []byte) bool {
	r := g.r
	g.seen = append(g.seen, id)
	if op == p2p.Hello {
		if r.Pct(6) {
			g.w.count("rogue-hello")
			switch r.N(5) {
			case 0: // never says hello
				return true
			case 1: // something else first
				g.pester()
				return true
			case 2:
				g.write(make([]byte, r.N(30)))
				return true
			case 3:
				g.Lie = func(op p2p.P2PCommandOp, v interface{}) interface{} {
					h := v.(p2p.HelloCmd)
					switch r.N(3) {
					case 0:
						h.NetWorkID++
					case 1:
						h.Version++
					default:
						h.GenesisRootBlockHash = g.hash()
					}
					return h
				}
			}
		} else if r.Pct(60) {
			g.Lie = func(op p2p.P2PCommandOp, v interface{}) interface{} {
				h := v.(p2p.HelloCmd)
				h.RootBlockHeader = g.rootHeader()
				return h
			}
		}
		g.handle(op, meta, id, data)
		g.Lie = nil
		return true
	}
	switch op {
	case p2p.GetRootBlockHeaderListRequestMsg, p2p.GetRootBlockListRequestMsg, p2p.GetMinorBlockListRequestMsg, p2p.GetMinorBlockHeaderListRequestMsg,
		p2p.GetRootBlockHeaderListWithSkipRequestMsg, p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
	default:
		return false
	}
	if r.Pct(g.honest) {
		return false
	}
	ans := op + 1
	switch k := r.N(10); k {
	case 0:
		g.w.count("rogue-silent")
		return true
	case 1, 8:
		g.w.count("rogue-twice")
		for k := 1 + r.N(pick(r, []int{2, 4, 16})); k > 0; k-- {
			g.handle(op, meta, id, data)
		}
		return false
	case 2:
		g.w.count("rogue-other-kind")
		ans = pick(r, rogueOps)
	case 3:
		g.w.count("rogue-late")
		t := time.Duration(1+r.N(80)) * time.Second
		go func() {
			time.Sleep(t)
			if !g.l.closed {
				g.handle(op, meta, id, data)
			}
		}()
		return true
	case 4:
		g.w.count("rogue-garbled-answer")
		_, v := g.say(ans)
		if d, err := serialize.SerializeToBytes(v); err == nil {
			if x := g.garble(d); !g.lucky(ans, x) {
				d = x
			}
			g.sendRaw(ans, meta.Branch, id, d)
		}
		return true
	case 5, 6, 7:
		// almost the right answer
		g.w.count("rogue-lie")
		g.Lie = g.lie
		g.handle(op, meta, id, data)
		g.Lie = nil
		return true
	}
	b, v := g.say(ans)
	if r.Pct(80) {
		b = meta.Branch
	}
	g.w.count("rogue-made-up")
	if d, err := serialize.SerializeToBytes(v); err == nil {
		g.sendRaw(ans, b, id, d)
	}
	return true
}

// mangle drops, repeats, swaps or replaces elements.
func mangle[T any](r *Rng, xs []T, other func() T) []T {
	for k := 1 + r.N(2); k > 0; k-- {
		i := 0
		if len(xs) > 0 {
			i = r.N(len(xs))
		}
		switch n := len(xs); {
		case n == 0 || r.N(7) == 0:
			xs = append(xs, other())
		case r.N(6) == 0:
			xs = xs[:0]
		case r.N(5) == 0:
			xs = append(append([]T{}, xs[:i]...), xs[i+1:]...)
		case r.N(4) == 0:
			xs = append(append(append([]T{}, xs[:i]...), xs[i]), xs[i:]...)
		case r.N(3) == 0:
			j := r.N(n)
			xs = append([]T{}, xs...)
			xs[i], xs[j] = xs[j], xs[i]
		case r.N(2) == 0:
			xs = append([]T{}, xs...)
			xs[i] = other()
		default:
			for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
				xs[a], xs[b] = xs[b], xs[a]
			}
		}
	}
	return xs
}

func (g *rogue) lie(op p2p.P2PCommandOp, v interface{}) interface{} {
	r := g.r
	switch v := v.(type) {
	case *p2p.GetRootBlockHeaderListResponse:
		if r.Pct(40) {
			v.RootTip = g.rootHeader()
		}
		if r.Pct(80) {
			v.BlockHeaderList = mangle(r, v.BlockHeaderList, g.rootHeader)
		}
	case *p2p.GetMinorBlockHeaderListResponse:
		id := g.branch()
		if v.ShardTip != nil {
			id = v.ShardTip.Branch.Value
		}
		if r.Pct(30) {
			v.RootTip = g.rootHeader()
		}
		if r.Pct(30) {
			v.ShardTip = g.minorHeader(id)
		}
		if r.Pct(80) {
			v.BlockHeaderList = mangle(r, v.BlockHeaderList, func() *types.MinorBlockHeader { return g.minorHeader(id) })
		}
	case *p2p.GetRootBlockListResponse:
		v.RootBlockList = mangle(r, v.RootBlockList, g.rootBlock)
	case *p2p.GetMinorBlockListResponse:
		id := g.branch()
		if len(v.MinorBlockList) > 0 {
			id = v.MinorBlockList[0].Branch().Value
		}
		if len(g.w.Minor) > 0 {
			v.MinorBlockList = mangle(r, v.MinorBlockList, func() *types.MinorBlock { return g.minorBlock(id) })
		}
	}
	return v
}
