//go:build go1.25

package sim

import (
	"bytes"
	"io/ioutil"
	"sort"

	qkcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/serialize"
	"github.com/ethereum/go-ethereum/common"
)

// Ghost is a peer played by the harness: it speaks the peer protocol with one
// cluster's master, shows whatever chain it is told to, and may lie.
type Ghost struct {
	w     *World
	c     *Cluster
	l     *Link
	end   *linkEnd
	idx   int
	hello *p2p.HelloCmd // what the node said
	Err   error         // why the node dropped us
	Gone  bool

	RootTip *types.RootBlockHeader
	Tips    map[uint32]*types.MinorBlockHeader
	Root    map[common.Hash]*types.RootBlock
	Minor   map[common.Hash]*types.MinorBlock
	Asked   map[p2p.P2PCommandOp]int

	// Reply, when set, decides the answer to a request instead: it returns the
	// messages to send, and whether it took the matter on.
	Reply func(op p2p.P2PCommandOp, meta p2p.Metadata, rpcID uint64, data []byte) bool
	// Lie, when set, may change an answer before it is sent.
	Lie func(op p2p.P2PCommandOp, answer interface{}) interface{}
	// OnMsg sees every message.
	OnMsg func(op p2p.P2PCommandOp, meta p2p.Metadata, data []byte)
	rpcID uint64
}

var ghostNum = 100

// Haunt connects a new ghost to a cluster. Its view starts as the cluster's own.
func (w *World) Haunt(c *Cluster) *Ghost {
	ghostNum++
	g := &Ghost{w: w, c: c, idx: ghostNum, Tips: map[uint32]*types.MinorBlockHeader{},
		Root: map[common.Hash]*types.RootBlock{}, Minor: map[common.Hash]*types.MinorBlock{}, Asked: map[p2p.P2PCommandOp]int{}}
	g.RootTip = c.RootChain().CurrentBlock().Header()
	for _, id := range c.Shards() {
		g.Tips[id] = c.Shard(id).MinorBlockChain.CurrentBlock().Header()
	}
	g.l = w.newLink(c.M, nil)
	g.end = g.l.ends[1]
	p := c.M.Master.Protocols()[0]
	name := "ghost"
	c.M.Go(func() {
		err := p.Run(p2p.NewPeer(enodeID(g.idx), name, nil), g.l.ends[0])
		w.tracef("p2p: %s drops the ghost: %v", c.M.Name, err)
		g.Err, g.Gone = err, true
		g.l.close()
	})
	go g.run()
	w.count("ghost-peer")
	return g
}

func (g *Ghost) Leave() {
	g.l.close()
}

func (g *Ghost) root(h common.Hash) *types.RootBlock {
	if b := g.Root[h]; b != nil {
		return b
	}
	return g.w.Root[h]
}
func (g *Ghost) minor(h common.Hash) *types.MinorBlock {
	if b := g.Minor[h]; b != nil {
		return b
	}
	return g.w.Minor[h]
}

// rootAt is the header of the ghost's chain at a height.
func (g *Ghost) rootAt(n uint32) *types.RootBlockHeader {
	h := g.RootTip
	for h != nil && h.Number > n {
		b := g.root(h.ParentHash)
		if b == nil {
			return nil
		}
		h = b.Header()
	}
	return h
}
func (g *Ghost) minorAt(id uint32, n uint64) *types.MinorBlockHeader {
	h := g.Tips[id]
	for h != nil && h.Number > n {
		b := g.minor(h.ParentHash)
		if b == nil {
			return nil
		}
		h = b.Header()
	}
	return h
}

func (g *Ghost) send(op p2p.P2PCommandOp, branch uint32, rpcID uint64, v interface{}) error {
	m, err := p2p.MakeMsg(op, rpcID, p2p.Metadata{Branch: branch}, v)
	if err != nil {
		g.w.tracef("ghost cannot say %v: %v", op, err)
		return err
	}
	return g.end.WriteMsg(m)
}

func (g *Ghost) sendRaw(op p2p.P2PCommandOp, branch uint32, rpcID uint64, data []byte) error {
	m, err := p2p.MakeMsgWithSerializedData(op, rpcID, p2p.Metadata{Branch: branch}, data)
	if err != nil {
		return err
	}
	return g.end.WriteMsg(m)
}

func (g *Ghost) write(raw []byte) error {
	return g.end.WriteMsg(p2p.Msg{Code: 0, Size: uint32(len(raw)), Payload: bytes.NewReader(raw)})
}

func (g *Ghost) answer(op p2p.P2PCommandOp, branch uint32, rpcID uint64, v interface{}) {
	if g.Lie != nil {
		if v = g.Lie(op, v); v == nil {
			return
		}
	}
	g.send(op, branch, rpcID, v)
}

func (g *Ghost) run() {
	for {
		m, err := g.end.ReadMsg()
		if err != nil {
			return
		}
		b, _ := ioutil.ReadAll(m.Payload)
		q, err := p2p.DecodeQKCMsg(b)
		if err != nil {
			g.w.tracef("ghost: undecodable message: %v", err)
			continue
		}
		g.Asked[q.Op]++
		if g.OnMsg != nil {
			g.OnMsg(q.Op, q.MetaData, q.Data)
		}
		if g.Reply != nil && g.Reply(q.Op, q.MetaData, q.RpcID, q.Data) {
			continue
		}
		g.handle(q.Op, q.MetaData, q.RpcID, q.Data)
	}
}

func (g *Ghost) handle(op p2p.P2PCommandOp, meta p2p.Metadata, id uint64, data []byte) {
	dec := func(v interface{}) bool { return serialize.DeserializeFromBytes(data, v) == nil }
	switch op {
	case p2p.Hello:
		var h p2p.HelloCmd
		if dec(&h) {
			g.hello = &h
			my := h
			my.PeerID = common.HexToHash("0x9057")
			my.RootBlockHeader = g.RootTip
			g.answer(p2p.Hello, 0, 0, my)
		}
	case p2p.GetRootBlockHeaderListWithSkipRequestMsg:
		var r p2p.GetRootBlockHeaderListWithSkipRequest
		if dec(&r) {
			res := &p2p.GetRootBlockHeaderListResponse{RootTip: g.RootTip}
			n := int64(0)
			if hp := r.GetHeight(); hp != nil {
				n = int64(*hp)
			} else if b := g.root(r.GetHash()); b != nil {
				n = int64(b.Number())
			} else {
				n = -1
			}
			for ; n >= 0 && n <= int64(g.RootTip.Number) && len(res.BlockHeaderList) < int(r.Limit); n = skip(n, r.Skip, r.Direction) {
				h := g.rootAt(uint32(n))
				if h == nil {
					break
				}
				res.BlockHeaderList = append(res.BlockHeaderList, h)
			}
			g.answer(p2p.GetRootBlockHeaderListWithSkipResponseMsg, meta.Branch, id, res)
		}
	case p2p.GetRootBlockHeaderListRequestMsg:
		var r p2p.GetRootBlockHeaderListRequest
		if dec(&r) {
			res := &p2p.GetRootBlockHeaderListResponse{RootTip: g.RootTip}
			for b := g.root(r.BlockHash); b != nil && len(res.BlockHeaderList) < int(r.Limit); b = g.root(b.ParentHash()) {
				res.BlockHeaderList = append(res.BlockHeaderList, b.Header())
			}
			g.answer(p2p.GetRootBlockHeaderListResponseMsg, meta.Branch, id, res)
		}
	case p2p.GetRootBlockListRequestMsg:
		var r p2p.GetRootBlockListRequest
		if dec(&r) {
			res := &p2p.GetRootBlockListResponse{}
			for _, h := range r.RootBlockHashList {
				if b := g.root(h); b != nil {
					res.RootBlockList = append(res.RootBlockList, b)
				}
			}
			g.answer(p2p.GetRootBlockListResponseMsg, meta.Branch, id, res)
		}
	case p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
		var r p2p.GetMinorBlockHeaderListWithSkipRequest
		if dec(&r) {
			b := r.Branch.Value
			tip := g.Tips[b]
			res := &p2p.GetMinorBlockHeaderListResponse{RootTip: g.RootTip, ShardTip: tip}
			if tip == nil {
				break
			}
			n := int64(0)
			if hp := r.GetHeight(); hp != nil {
				n = int64(*hp)
			} else if mb := g.minor(r.GetHash()); mb != nil {
				n = int64(mb.NumberU64())
			} else {
				n = -1
			}
			for ; n >= 0 && n <= int64(tip.Number) && len(res.BlockHeaderList) < int(r.Limit); n = skip(n, r.Skip, r.Direction) {
				h := g.minorAt(b, uint64(n))
				if h == nil {
					break
				}
				res.BlockHeaderList = append(res.BlockHeaderList, h)
			}
			g.answer(p2p.GetMinorBlockHeaderListWithSkipResponseMsg, meta.Branch, id, res)
		}
	case p2p.GetMinorBlockHeaderListRequestMsg:
		var r p2p.GetMinorBlockHeaderListRequest
		if dec(&r) {
			res := &p2p.GetMinorBlockHeaderListResponse{RootTip: g.RootTip, ShardTip: g.Tips[r.Branch.Value]}
			for b := g.minor(r.BlockHash); b != nil && len(res.BlockHeaderList) < int(r.Limit); b = g.minor(b.ParentHash()) {
				res.BlockHeaderList = append(res.BlockHeaderList, b.Header())
			}
			g.answer(p2p.GetMinorBlockHeaderListResponseMsg, meta.Branch, id, res)
		}
	case p2p.GetMinorBlockListRequestMsg:
		var r p2p.GetMinorBlockListRequest
		if dec(&r) {
			res := &p2p.GetMinorBlockListResponse{}
			for _, h := range r.MinorBlockHashList {
				if b := g.minor(h); b != nil {
					res.MinorBlockList = append(res.MinorBlockList, b)
				}
			}
			g.answer(p2p.GetMinorBlockListResponseMsg, meta.Branch, id, res)
		}
	}
}

func skip(n int64, s uint32, dir uint8) int64 {
	if dir == qkcom.DirectionToGenesis {
		return n - int64(s) - 1
	}
	return n + int64(s) + 1
}

// announce offers chains: the root tip, then the tips of shards.
func (g *Ghost) announceRoot() { g.send(p2p.NewTipMsg, 0, 0, &p2p.Tip{RootBlockHeader: g.RootTip}) }
func (g *Ghost) announceMinor(id uint32) {
	g.send(p2p.NewTipMsg, id, 0, &p2p.Tip{RootBlockHeader: g.RootTip, MinorBlockHeaderList: []*types.MinorBlockHeader{g.Tips[id]}})
}
func (g *Ghost) gossip(b *types.MinorBlock) {
	g.send(p2p.NewBlockMinorMsg, b.Branch().Value, 0, &p2p.NewBlockMinor{Block: b})
}

// follow makes the ghost show what the cluster has.
func (g *Ghost) follow() {
	g.RootTip = g.c.RootChain().CurrentBlock().Header()
	for _, id := range g.c.Shards() {
		g.Tips[id] = g.c.Shard(id).MinorBlockChain.CurrentBlock().Header()
	}
}

func (g *Ghost) branches() (ids []uint32) {
	for id := range g.Tips {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}
