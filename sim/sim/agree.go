//go:build go1.25

package sim

import (
	"fmt"
	"time"

	qkcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
)

const agreeMax = 20 * time.Minute

// agree: with every cluster up and connected and nothing failing, all follow a
// root chain of the same, greatest total difficulty within a bounded time.
func (run *Run) agree(why string) {
	const P = "C14,C15"
	w := run.W
	if len(w.Clusters) < 2 {
		return
	}
	end := simNow().Add(agreeMax)
	for d := run.redialer(); !run.agreed() && simNow().Before(end); d() {
		w.Pause(5 * time.Second)
		w.Settle(settleMax)
		run.events()
	}
	run.Did("agree")
	if !run.agreed() {
		var s []string
		for _, c := range w.Clusters {
			if rc := c.RootChain(); rc != nil {
				h := rc.CurrentBlock()
				s = append(s, c.Name+" "+short(h.Hash())+" height "+fmt.Sprint(h.NumberU64())+" td "+h.TotalDifficulty().String())
			}
		}
		run.Fail(P, "no-agreement", "%s: clusters that are all connected do not agree on the best root chain within %v: %v", why, agreeMax, s)
	}
}

func (run *Run) agreed() bool {
	w := run.W
	var ref *types.RootBlock
	for _, c := range w.Clusters {
		rc := c.RootChain()
		if rc == nil || !c.Up() {
			return false
		}
		h := rc.CurrentBlock()
		if ref == nil {
			ref = h
		} else if ref.TotalDifficulty().Cmp(h.TotalDifficulty()) != 0 {
			return false
		}
	}
	return true
}

// Joined tells whether all clusters that are up are connected.
func (w *World) Joined() bool {
	for _, p := range w.pairs() {
		if p[0].Up() && p[1].Up() && w.LinkOf(p[0], p[1]) == nil {
			return false
		}
	}
	return true
}

// redialer: a peer dropped for a late effect of a fault is dialled again, as the
// p2p server does every half minute, but not without end: peers that go on
// dropping each other do not agree.
func (run *Run) redialer() func() {
	w := run.W
	at, left := simNow(), 2
	return func() {
		if w.NoRejoin || left == 0 || simNow().Sub(at) < time.Minute {
			return
		}
		at = simNow()
		for _, p := range w.pairs() {
			if p[0].Up() && p[1].Up() && w.Connect(p[0], p[1]) != nil {
				left--
				run.Log("%s and %s connect again", p[0].Name, p[1].Name)
				return
			}
		}
	}
}

// spread: a block that extends the best chain reaches every cluster.
func (run *Run) spread(what string, has func(c *Cluster) bool) {
	w := run.W
	end := simNow().Add(agreeMax)
	for {
		ok := true
		for _, c := range w.Clusters {
			if c.Up() && !has(c) {
				ok = false
			}
		}
		if ok {
			run.Did("spread")
			return
		}
		if simNow().After(end) {
			break
		}
		if n, _ := run.X["spread-cut"].(int); n < 2 && !w.NoRejoin && !w.Joined() {
			// A peer dropped for a late effect of a fault, and what was announced
			// meanwhile is only asked for with the next block: the next block tells.
			run.X["spread-cut"] = n + 1
			joinAll(run)
			run.Log("connected again")
			return
		}
		w.Pause(5 * time.Second)
		w.Settle(settleMax)
		run.events()
	}
	for _, c := range w.Clusters {
		if c.Up() && !has(c) {
			run.Fail("C14,C15", "no-spread", "%s does not reach %s within %v although all clusters are connected", what, c.Name, agreeMax)
		}
	}
}

// spreadMinor: every cluster on the same root chain takes the block, unless it
// follows an unconfirmed chain of its own that is no lower.
func (run *Run) spreadMinor(from *Cluster, id uint32, h common.Hash, n uint64) {
	root := from.RootChain().CurrentBlock().Hash()
	genesis := func(c *Cluster) common.Hash {
		if s := c.Shard(id); s != nil {
			if b := s.MinorBlockChain.GetBlockByNumber(0); !qkcom.IsNil(b) {
				return b.Hash()
			}
		}
		return common.Hash{}
	}
	first := genesis(from)
	run.spread(fmt.Sprintf("minor block %d %s", n, short(h)), func(c *Cluster) bool {
		s := c.Shard(id)
		return s != nil && (s.MinorBlockChain.CurrentBlock().NumberU64() >= n || s.MinorBlockChain.GetMinorBlock(h) != nil || c.RootChain().CurrentBlock().Hash() != root ||
			genesis(c) != first) // a shard that began in a root block of another branch begins again with the next root block
	})
}

func (run *Run) spreadRoot(h common.Hash) {
	run.spread("root block "+short(h), func(c *Cluster) bool { return c.RootChain().GetBlock(h) != nil })
}
