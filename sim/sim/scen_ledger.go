//go:build go1.25

package sim

import (
	"math/big"
	"time"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/ethereum/go-ethereum/common"
)

var contracts = []common.Address{CounterAddr, RevertAddr, VaultAddr, LoopAddr, ToggleAddr, EnvAddr}

func init() {
	// many transactions across shards; small blocks, so that deliveries are cut
	register(&Scenario{
		Name: "ledger",
		Cfg: func(r *Rng, p *Params) {
			p.Clusters = 1 + r.N(2)
			switch r.N(4) {
			case 0:
				p.Chains, p.ShardSize = 1, 2
			case 1:
				p.Chains, p.ShardSize = 2, 1
			case 2:
				p.Chains, p.ShardSize = 3, 1
			default:
				p.Chains, p.ShardSize = 2, 2
			}
			p.Slaves = 1 + r.N(2)
			p.Accounts = 3 + r.N(3)
			switch r.N(3) {
			case 0:
				p.GasLimit = 240000
			case 1:
				p.GasLimit = 300000 + uint64(r.N(300000))
			}
			p.DDOSFixHeight = []uint64{90000, 0, 3, 5}[r.N(4)]
			if r.Pct(40) {
				p.Epoch, p.RootEpoch = uint64(3+r.N(4)), uint64(2+r.N(3))
			}
			if r.Pct(20) {
				p.LateShard = uint32(1 + r.N(3))
				if p.Chains*p.ShardSize == 2 {
					p.Slaves = 1 // a process must start with a shard to run
				}
			}
			if r.Pct(25) {
				p.PoSW, p.PoSWWindow = true, uint64(3+r.N(5))
				p.PoSWStake = new(big.Int).Mul(big.NewInt(int64(100000+r.N(400000))), config.QuarkashToJiaozi)
			}
			if r.Pct(25) {
				p.EVMAt = uint64(time.Now().Unix()) + uint64(r.N(1500))
			}
			p.ExtraBlocks = uint32(2 + r.N(6))
			p.RootFactor = uint32(2 + r.N(8))
			if r.Pct(40) {
				p.GasMgr = 1e15
				if r.Pct(40) {
					p.GasMgr = int64(500000 + r.N(5000000))
				}
			}
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 20+r.N(40), map[string]int{"clock": 1, "minor": 8, "minors": 5, "root": 9, "txs": 8, "xtxs": 5, "burst": 2, "stall": 1, "heal": 2, "cut": 1, "join": 1, "adv": 1, "check": 2})
		},
		Ops:   map[string]func(*Run, *Rng, int){"xtxs": opXtxs},
		Setup: joinAll,
		End:   endProgress,
	})
}

// opXtxs floods one shard with transactions from another and lets the root chain carry them.
func opXtxs(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	ids := c.Shards()
	if len(ids) < 2 {
		return
	}
	from := pick(r, ids)
	run.floodAt(c, r, from, pick(r, run.W.FullIDs))
}

func (run *Run) flood(r *Rng, from, to uint32) {
	c := run.somewhere(r)
	if c == nil || c.Shard(from) == nil {
		return
	}
	run.floodAt(c, r, from, to)
}

func (run *Run) floodAt(c *Cluster, r *Rng, from, to uint32) {
	w := run.W
	for k := 3 + r.N(8); k > 0; k-- {
		a := pick(r, w.Accts)
		nonce, err := c.NextNonce(a, from)
		if err != nil {
			return
		}
		dst := pick(r, w.Accts).Recp
		t := TxSpec{From: a, FromKey: from, ToKey: to, Value: big.NewInt(int64(r.N(1000000))), Gas: 30000, Price: big.NewInt(int64(1 + r.N(20))), Nonce: nonce}
		if r.Pct(40) {
			dst, t.Gas = pick(r, contracts), 60000+uint64(r.N(60000))
		}
		t.To = &dst
		if r.Pct(15) {
			t.Token = w.Tok2
		}
		run.sendTx(c, w.Sign(t))
	}
	w.Pause(time.Duration(5+r.N(15)) * time.Second)
	run.mineMinor(c, from, r)
	run.settle()
	if r.Pct(60) && c.Up() {
		w.Pause(time.Duration(20+r.N(60)) * time.Second)
		run.mineRoot(c, r)
		run.settle()
	}
}
