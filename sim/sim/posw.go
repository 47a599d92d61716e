//go:build go1.25

package sim

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// The rules of proof of staked work, written down a second time: how much work a
// block has to show, from the chain before it and the stake its miner had there.

type earned struct {
	on        bool     // the rule applies to the block at all
	count     uint64   // blocks of the miner among the window before this one
	may       uint64   // blocks the stake pays for
	divider   uint64   // of the difficulty, for those who may
	full      *big.Int // the header's difficulty
	need      *big.Int // work the seal has to show
	unsigned  bool     // root: stake not used, for want of the staker's signature
	guardian  bool
	noStake   bool // root: nothing known about the stake
	confirmed common.Hash
}

func (e *earned) String() string {
	return fmt.Sprintf("mined %d of %d paid, divider %d: %v of %v", e.count, e.may, e.divider, e.need, e.full)
}

func (e *earned) reduced() bool { return e.need.Cmp(e.full) < 0 }

func divider(p *config.POSWConfig, t uint64) uint64 {
	d := p.DiffDivider
	if p.BoostTimestamp > 0 && t >= p.BoostTimestamp {
		for k := min((t-p.BoostTimestamp)/p.BoostStepInterval+1, p.BoostSteps); k > 0; k-- {
			d *= p.BoostMultiplierPerStep
		}
	}
	return d
}

func window(all []common.Address, w uint64, who common.Address) (n uint64) {
	for _, a := range all[max(0, len(all)-int(w-1)):] {
		if a == who {
			n++
		}
	}
	return
}

func paid(stake, per *big.Int, w uint64) uint64 {
	n := new(big.Int).Div(stake, per)
	if !n.IsUint64() || n.Uint64() > w {
		return w
	}
	return n.Uint64()
}

// minorEarned is nil when the model does not know the chain before the block.
func (run *Run) minorEarned(h *types.MinorBlockHeader) *earned {
	l := run.ledger()
	p := l.Block(h.ParentHash)
	if p == nil || p.err != "" {
		return nil
	}
	q := l.q()
	sc := q.GetShardConfigByFullShardID(h.Branch.Value)
	pc := sc.PoswConfig
	e := &earned{full: h.Difficulty, need: h.Difficulty, divider: divider(pc, h.Time)}
	if !pc.Enabled || h.Time < pc.EnableTimestamp {
		return e
	}
	e.on = true
	per := pc.TotalStakePerBlock
	if d := q.EnablePoswStakingDecayTimestamp; d != 0 && h.Time >= d {
		per = decayed(per, q.BlockRewardDecayFactor, h.Number, sc.EpochInterval)
	}
	stake := new(big.Int)
	if a := p.acc[h.Coinbase.Recipient]; a != nil && a.bal[l.w.QKC] != nil {
		stake = a.bal[l.w.QKC]
	}
	e.may = paid(stake, per, pc.WindowSize)
	e.count = window(p.minedBy, pc.WindowSize, h.Coinbase.Recipient)
	if e.count < e.may {
		e.need = new(big.Int).Div(h.Difficulty, new(big.Int).SetUint64(e.divider))
	}
	return e
}

// rootEarned: signed tells whether to look at the signature, or to ask what a
// miner who can sign may do.
func (run *Run) rootEarned(h *types.RootBlockHeader, signed bool) *earned {
	l := run.ledger()
	w := run.W
	q := l.q()
	pc := q.Root.PoSWConfig
	e := &earned{full: h.Difficulty, need: h.Difficulty, divider: divider(pc, h.Time)}
	if w.P.Guardian && crypto.VerifySignature(q.GuardianPublicKey, h.SealHash().Bytes(), h.Signature[:64]) {
		e.guardian = true
		e.need = new(big.Int).Div(h.Difficulty, big.NewInt(1000))
	}
	var by []common.Address
	var last common.Hash
	for x := h.ParentHash; ; {
		b := w.Root[x]
		if b == nil {
			return nil
		}
		by = append([]common.Address{b.Coinbase().Recipient}, by...)
		if last == (common.Hash{}) {
			for _, m := range b.MinorBlockHeaders() {
				if m.Branch.Value == w.FullIDs[0] {
					last = m.Hash()
				}
			}
		}
		if b.NumberU64() == 0 {
			break
		}
		x = b.ParentHash()
	}
	e.confirmed = last
	e.count = window(by, pc.WindowSize, h.Coinbase.Recipient)
	if e.guardian || !pc.Enabled || h.Time < pc.EnableTimestamp {
		return e
	}
	e.on = true
	if last == (common.Hash{}) || w.FullIDs[0] != 1 {
		e.noStake = true
		return e
	}
	m := l.Block(last)
	if m == nil || m.err != "" {
		return nil
	}
	stake := new(big.Int)
	if a := m.acc[StakeAddr]; a != nil {
		if v := a.stor[common.BytesToHash(h.Coinbase.Recipient.Bytes())]; v != nil {
			stake = v
		}
	}
	e.may = paid(stake, pc.TotalStakePerBlock, pc.WindowSize)
	if signed {
		pub, err := crypto.SigToPub(h.SealHash().Bytes(), h.Signature[:])
		if err != nil || crypto.PubkeyToAddress(*pub) != h.Coinbase.Recipient {
			e.unsigned = true
			return e
		}
	}
	if e.count < e.may {
		e.need = new(big.Int).Div(h.Difficulty, new(big.Int).SetUint64(e.divider))
	}
	return e
}

// SealBetween finds a nonce that shows the work lo, and not the work hi.
func SealBetween(b types.IBlock, lo, hi *big.Int, sig *[65]byte) types.IBlock {
	one := new(big.Int).Lsh(big.NewInt(1), 256)
	tlo, thi := new(big.Int).Div(one, lo), new(big.Int).Div(one, hi)
	seal := b.IHeader().SealHash()
	var buf [40]byte
	copy(buf[:32], seal[:])
	for nonce := uint64(1); nonce < 1<<22; nonce++ {
		binary.BigEndian.PutUint64(buf[32:], nonce)
		a := sha256.Sum256(buf[:])
		h := sha256.Sum256(a[:])
		if x := new(big.Int).SetBytes(h[:]); x.Cmp(tlo) <= 0 && x.Cmp(thi) > 0 {
			return b.WithMingResult(nonce, common.Hash{}, sig)
		}
	}
	return nil
}

// checkPosw: every canonical block shows the work its miner owed.
func (run *Run) checkPosw(c *Cluster) {
	w := run.W
	done, _ := run.X["earned"].(map[common.Hash]bool)
	if done == nil {
		done = map[common.Hash]bool{}
		run.X["earned"] = done
	}
	if w.P.PoSW {
		for _, id := range c.Shards() {
			bc := c.Shard(id).MinorBlockChain
			for b := bc.CurrentBlock(); b != nil && b.NumberU64() > 0 && !done[b.Hash()]; b = bc.GetMinorBlock(b.ParentHash()) {
				e := run.minorEarned(b.Header())
				if e == nil || e.need.Sign() == 0 {
					continue
				}
				done[b.Hash()] = true
				if !Sealed(b.Header(), e.need) {
					run.Fail("C17,C08", "unearned", "%s shard %x: canonical block %d %s shows too little work: %v", c.Name, id, b.NumberU64(), short(b.Hash()), e)
				}
				if e.reduced() && !Sealed(b.Header(), e.full) {
					run.Did("earned")
				}
				w.count(fmt.Sprintf("staked work: %d of %d", e.count, e.may))
			}
		}
	}
	if w.P.RootPoSW {
		rc := c.RootChain()
		for b := rc.CurrentBlock(); b != nil && b.NumberU64() > 0 && !done[b.Hash()]; {
			if e := run.rootEarned(b.Header(), true); e != nil && e.need.Sign() > 0 {
				done[b.Hash()] = true
				if !Sealed(b.Header(), e.need) {
					run.Fail("C17,C09", "root-unearned", "%s: canonical root block %d %s shows too little work: %v", c.Name, b.NumberU64(), short(b.Hash()), e)
				}
				if e.reduced() && !Sealed(b.Header(), e.full) {
					run.Did("root-earned")
				}
			}
			p, _ := rc.GetBlock(b.ParentHash()).(*types.RootBlock)
			b = p
		}
	}
}
