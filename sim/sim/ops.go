//go:build go1.25

package sim

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
)

const settleMax = 3 * time.Minute

func (r *Run) settle() bool {
	ok := r.W.Settle(settleMax)
	if !ok {
		r.W.count("unsettled")
	}
	r.heads()
	return ok
}

var commonOps = map[string]func(run *Run, r *Rng, n int){}

func init() {
	commonOps = map[string]func(run *Run, r *Rng, n int){
		"minor":   opMinor,
		"minors":  opMinors,
		"root":    opRoot,
		"tx":      opTx,
		"txs":     opTxs,
		"adv":     func(run *Run, r *Rng, n int) { run.W.Pause(time.Duration(1+r.N(40)) * time.Second) },
		"leap":    func(run *Run, r *Rng, n int) { run.W.Pause(time.Duration(60+r.N(600)) * time.Second) },
		"settle":  func(run *Run, r *Rng, n int) { run.settle() },
		"burst":   opBurst,
		"stall":   opStall,
		"heal":    opHeal,
		"cut":     opCut,
		"join":    opJoin,
		"crash":   opCrash,
		"kill":    opKill,
		"boot":    opBoot,
		"rpc":     opRPC,
		"slow":    opSlow,
		"clock":   opClock,
		"gc":      func(run *Run, r *Rng, n int) { run.W.Collect() },
		"restart": opRestart,
		"check":   opCheck,
	}
}

// somewhere picks a cluster that is up.
func (run *Run) somewhere(r *Rng) *Cluster {
	cs := run.UpClusters()
	if len(cs) == 0 {
		if run.Bare() {
			return nil
		}
		opBoot(run, r, 0) // the operator notices
		if cs = run.UpClusters(); len(cs) == 0 {
			return nil
		}
	}
	return pick(r, cs)
}

// shards lists the shards a cluster has created.
func (c *Cluster) Shards() (ids []uint32) {
	for _, id := range c.W.FullIDs {
		if c.Shard(id) != nil {
			ids = append(ids, id)
		}
	}
	return
}

func (run *Run) coinbase(r *Rng, id uint32) account.Address {
	a := pick(r, run.W.Accts)
	if one, _ := run.X["one-miner"].(bool); one {
		a = run.W.Accts[0]
	}
	return account.NewAddress(a.Recp, id)
}

func (run *Run) mineMinor(c *Cluster, id uint32, r *Rng) error {
	quiet := run.W.Busy() == 0
	b, err := c.MakeMinor(id, run.coinbase(r, id))
	if err != nil {
		run.Log("%s shard %x: no template: %v", c.Name, id, err)
		run.template(c, id, err)
		return err
	}
	head := headHash(c, id)
	err = c.AddMinor(b)
	run.Log("%s shard %x mines %d %s txs=%d: %v", c.Name, id, b.NumberU64(), short(b.Hash()), len(b.Transactions()), err)
	run.mined(c, id, b, head, quiet, err)
	return err
}

func headHash(c *Cluster, id uint32) (h common.Hash) {
	if s := c.Shard(id); s != nil {
		h = s.MinorBlockChain.CurrentBlock().Hash()
	}
	return
}

func (run *Run) mineRoot(c *Cluster, r *Rng) error {
	id := pick(r, run.W.FullIDs)
	quiet := run.W.Busy() == 0
	b, err := c.MakeRoot(run.coinbase(r, id))
	if err != nil {
		run.Log("%s: no root template: %v", c.Name, err)
		run.template(c, 0, err)
		return err
	}
	err = c.AddRoot(b)
	run.Log("%s mines root %d %s td=%v headers=%d: %v", c.Name, b.NumberU64(), short(b.Hash()), b.TotalDifficulty(), len(b.MinorBlockHeaders()), err)
	run.minedRoot(c, b, quiet, err)
	return err
}

func opMinor(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	run.W.Pause(time.Duration(1+r.N(15)) * time.Second)
	if ids := c.Shards(); len(ids) > 0 {
		run.mineMinor(c, pick(r, ids), r)
	}
	if r.Pct(70) {
		run.settle()
	}
}

// opMinors mines a few blocks in one shard.
func opMinors(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	ids := c.Shards()
	if len(ids) == 0 {
		return
	}
	id := pick(r, ids)
	for k := 1 + r.N(4); k > 0 && c.Up(); k-- {
		run.W.Pause(time.Duration(1+r.N(15)) * time.Second)
		run.mineMinor(c, id, r)
	}
	run.settle()
}

func opRoot(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	run.W.Pause(time.Duration(1+r.N(70)) * time.Second)
	if r.Pct(80) {
		run.settle()
	}
	run.mineRoot(c, r)
	if r.Pct(70) {
		run.settle()
	}
}

// randomTx makes a transaction a client might send.
func (run *Run) randomTx(c *Cluster, r *Rng) *types.Transaction {
	w := run.W
	ids := c.Shards()
	if len(ids) == 0 {
		return nil
	}
	from, id := pick(r, w.Accts), pick(r, ids)
	nonce, err := c.NextNonce(from, id)
	if err != nil {
		return nil
	}
	switch {
	case r.Pct(6):
		nonce += uint64(1 + r.N(2))
	case r.Pct(4) && nonce > 0:
		nonce -= uint64(1 + r.N(int(min(nonce, 3))))
	}
	t := TxSpec{From: from, FromKey: id, ToKey: id, Value: big.NewInt(int64(r.N(1000000))), Gas: 21000, Price: big.NewInt(int64(1 + r.N(20))), Nonce: nonce}
	if r.Pct(50) {
		t.ToKey = pick(r, w.FullIDs)
	}
	to := pick(r, w.Accts).Recp
	switch {
	case r.Pct(12):
		to = CounterAddr
		t.Gas = 100000
	case r.Pct(5):
		to = RevertAddr
		t.Gas = 100000
	case r.Pct(8):
		to = VaultAddr
		t.Gas = 100000
	case r.Pct(3):
		to = LoopAddr
		t.Gas = 60000
	case r.Pct(6):
		to = ToggleAddr
		t.Gas = 100000
	case r.Pct(5):
		to = EnvAddr
		t.Gas = 100000
	case r.Pct(10):
		to = common.BytesToAddress([]byte{0xee, byte(r.N(5))})
	}
	t.To = &to
	if made, _ := run.X["made"].([]common.Address); len(made) > 0 && r.Pct(8) {
		to = pick(r, made)
		t.Gas = 100000
	}
	if r.Pct(10) {
		t.Token = w.Tok2
	}
	if w.P.GasMgr > 0 && r.Pct(25) {
		t.GasToken = w.Tok2
		t.Price = big.NewInt(int64(r.N(40)))
	}
	if r.Pct(5) {
		t.Value = new(big.Int)
	}
	if r.Pct(3) {
		t.Price = new(big.Int)
	}
	if r.Pct(8) {
		t.To, t.Gas = nil, 120000
		t.Data = initCode(pick(r, [][]byte{counterCode, vaultCode, toggleCode, revertCode, envCode}))
		switch {
		case r.Pct(15):
			t.Data = revertInit
		case r.Pct(15):
			t.Gas = 57000 + uint64(r.N(9000))
		}
		if t.ToKey != t.FromKey {
			t.Gas += 9000
		}
	} else if r.Pct(15) {
		t.Data = make([]byte, r.N(40))
		for i := range t.Data {
			t.Data[i] = byte(r.N(3))
		}
		t.Gas += 40 * 68
	}
	if t.ToKey != t.FromKey {
		t.Gas += 9000
		if t.Gas < 100000 && r.Pct(40) {
			t.Gas += uint64(r.N(50000))
		}
	} else if r.Pct(20) {
		t.Gas += uint64(r.N(50000))
	}
	if r.Pct(4) {
		t.Value = new(big.Int).Mul(t.Value, new(big.Int).Exp(big.NewInt(10), big.NewInt(19), nil))
	}
	if t.To == nil {
		made, _ := run.X["made"].([]common.Address)
		if t.ToKey == t.FromKey {
			made = append(made, createAddr(from.Recp, t.ToKey, nonce))
		} else {
			made = append(made, createAddr(from.Recp, t.FromKey, nonce+1))
		}
		run.X["made"] = made
	}
	return w.Sign(t)
}

func (run *Run) sendTx(c *Cluster, tx *types.Transaction) error {
	err := c.SendTx(tx)
	e := tx.EvmTx
	run.Log("%s takes tx %s nonce=%d %x->%x value=%v gas=%d price=%v: %v", c.Name, short(tx.Hash()), e.Nonce(), e.FromFullShardKey(), e.ToFullShardKey(), e.Value(), e.Gas(), e.GasPrice(), err)
	run.sent(c, tx, err)
	return err
}

func opTx(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	if tx := run.randomTx(c, r); tx != nil {
		run.sendTx(c, tx)
	}
}

func opTxs(run *Run, r *Rng, n int) {
	for k := 2 + r.N(5); k > 0; k-- {
		opTx(run, r, 0)
	}
}

// opBurst lets several things happen at once in one cluster.
func opBurst(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	w := run.W
	w.Pause(time.Duration(5+r.N(60)) * time.Second)
	for k := 2 + r.N(4); k > 0; k-- {
		sub := NewRng(r.U64())
		switch x := sub.N(10); {
		case x < 5:
			if ids := c.Shards(); len(ids) > 0 {
				id := pick(sub, ids)
				w.jobs++
				go func() { run.mineMinor(c, id, sub); w.jobs-- }()
			}
		case x < 7:
			w.jobs++
			go func() { run.mineRoot(c, sub); w.jobs-- }()
		default:
			w.jobs++
			go func() {
				if tx := run.randomTx(c, sub); tx != nil {
					run.sendTx(c, tx)
				}
				w.jobs--
			}()
		}
		if sub.Pct(30) {
			w.Pause(time.Duration(sub.N(3000)) * time.Microsecond)
		}
	}
	if r.Pct(70) {
		run.settle()
	}
}

func (w *World) pairs() (ps [][2]*Cluster) {
	for i := range w.Clusters {
		for j := 0; j < i; j++ {
			ps = append(ps, [2]*Cluster{w.Clusters[j], w.Clusters[i]})
		}
	}
	return
}

func opStall(run *Run, r *Rng, n int) {
	if ps := run.W.pairs(); len(ps) > 0 {
		p := pick(r, ps)
		if l := run.W.LinkOf(p[0], p[1]); l != nil {
			l.Stall()
			run.W.count("partition")
			run.Log("partition between %s and %s", p[0].Name, p[1].Name)
		}
	}
}

func opHeal(run *Run, r *Rng, n int) {
	for _, l := range run.W.sortedLinks() {
		if l.stall != nil {
			run.Log("heal %s-%s", l.A.Name, l.B.Name)
		}
		l.Heal()
	}
	run.settle()
}

func (w *World) sortedLinks() (ls []*Link) {
	for l := range w.links {
		if l.B != nil {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	return
}

func opCut(run *Run, r *Rng, n int) {
	if ps := run.W.pairs(); len(ps) > 0 {
		p := pick(r, ps)
		if l := run.W.LinkOf(p[0], p[1]); l != nil {
			l.close()
			run.W.count("disconnect")
			run.Log("connection between %s and %s breaks", p[0].Name, p[1].Name)
		}
	}
}

func opJoin(run *Run, r *Rng, n int) {
	if ps := run.W.pairs(); len(ps) > 0 {
		p := pick(r, ps)
		if run.W.Connect(p[0], p[1]) != nil {
			run.Log("%s and %s connect", p[0].Name, p[1].Name)
		}
	}
}

// opCrash arms a crash inside whatever the cluster writes next.
func opCrash(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	nd := pick(r, c.Nodes())
	var names []string
	for k := range nd.Disks {
		names = append(names, k)
	}
	if len(names) == 0 {
		return
	}
	sort.Strings(names)
	d := nd.Disks[pick(r, names)]
	k := int64(1 + r.N(1+r.N(24)))
	d.CrashAt = d.Writes + k
	d.Torn, d.TornR = r.Pct(20), r.U64()
	run.Log("%s will crash at its write %d to %s (torn %v)", nd.Name, k, d.Name, d.Torn)
	run.W.count("crash-armed")
}

// opKill ends some of a cluster's processes now, perhaps in the middle of work.
func opKill(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	c.Faulted = true
	all := r.Pct(50)
	for _, nd := range c.Nodes() {
		if all || r.Pct(50) {
			run.W.count("kill")
			nd.kill("killed")
		}
	}
}

// opBoot restarts the clusters that lost a process.
func opBoot(run *Run, r *Rng, n int) {
	for _, c := range run.W.Clusters {
		if !c.Up() {
			run.reboot(c)
		}
	}
	run.settle()
}

// opRestart stops a cluster in order and brings it back.
func opRestart(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	run.settle()
	if !c.Up() {
		return
	}
	run.restart(c)
}

// restart stops the processes of a cluster in good order and starts them again.
func (run *Run) restart(c *Cluster) {
	run.W.count("clean-restart")
	c.M.Do(time.Minute, func() { c.M.Master.Stop() })
	for _, s := range c.S {
		s.Do(time.Minute, func() { s.Slave.Stop() })
	}
	c.Kill("stopped")
	run.reboot(c)
	run.settle()
}

func (run *Run) reboot(c *Cluster) {
	w := run.W
	for k := 0; k < 3; k++ {
		if err := c.Boot(); err == nil {
			break
		} else {
			run.events()
			run.Log("%s: boot fails: %v", c.Name, err)
			if k == 2 {
				run.Fail("C03,C04", "boot", "%s does not start again: %v", c.Name, err)
			}
			w.Pause(time.Minute) // a clock set back makes a block come from the future
		}
	}
	w.Settle(settleMax)
	run.booted(c)
	for _, o := range w.Clusters {
		if o != c && o.Up() && c.Up() && !w.NoRejoin {
			w.Connect(c, o)
		}
	}
}

var rpcOps = []string{"AddRootBlock", "AddMinorBlockHeader", "AddMinorBlockHeaderList", "AddXshardTxList", "BatchAddXshardTxList",
	"GetUnconfirmedHeaderList", "AddMinorBlockListForSync", "BroadcastNewTip", "BroadcastNewMinorBlock", "HandleNewTip", "AddTransactions", "GetMinorBlockList", ""}

// opRPC arms one fault on a call inside a cluster.
func opRPC(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil {
		return
	}
	o := &OneShot{Op: pick(r, rpcOps), From: c, K: r.N(3), Kind: pick(r, []string{"losereq", "loseresp", "dup", "slow"})}
	run.W.Net.OneShot = o
	run.Log("%s: call %q will suffer %s", c.Name, o.Op, o.Kind)
}

// opClock: the clocks of machines are off. Two clocks that are less than 15 s apart
// are no reason to refuse a block; more are, until the clocks are right again.
func opClock(run *Run, r *Rng, n int) {
	w := run.W
	for _, c := range w.Clusters {
		if r.Pct(30) {
			continue
		}
		off, each, big := time.Duration(r.N(15)-7), r.Pct(40), r.Pct(15)
		if big {
			off = time.Duration(r.N(121) - 60)
			w.ClockOff = true
		}
		for _, n := range c.Nodes() {
			if each {
				off = time.Duration(r.N(15) - 7)
			}
			n.SetClock(off * time.Second)
		}
		run.Log("%s: the clocks are off by %v s (each %v)", c.Name, int(off), each)
		w.count("skew-clock")
	}
}

// clocksRight ends the skew, and waits until no block is from the future.
func (run *Run) clocksRight() {
	w := run.W
	for _, c := range w.Clusters {
		for _, n := range c.Nodes() {
			n.SetClock(0)
		}
	}
	if w.ClockOff {
		w.Pause(2 * time.Minute)
		w.ClockOff = false
	}
}

func opSlow(run *Run, r *Rng, n int) {
	run.W.Net.SlowPct = []int{0, 0, 10, 40}[r.N(4)]
	run.W.Net.P2PSlow = []int{0, 0, 20, 50}[r.N(4)]
}

var _ = fmt.Sprint
