//go:build go1.25

package sim

import (
	"time"

	"github.com/ethereum/go-ethereum/common"
)

func init() {
	// clients listen while chains grow, fork and come back; some read slowly, stop
	// reading or go away
	register(&Scenario{
		Name: "subs",
		Cfg: func(r *Rng, p *Params) {
			Scenarios["ledger"].Cfg(r, p)
			p.EVMAt = 0
			p.Clusters = 1 + r.N(3)
			p.Accounts = 2 + r.N(3)
			p.NoPruning = r.Pct(50)
		},
		Gen: func(r *Rng) []Op {
			return weighted(r, 20+r.N(40), map[string]int{"listen": 7, "hear": 5, "mute": 3, "unmute": 2, "hangup": 1, "unsub": 1, "minor": 10, "minors": 6, "root": 7, "txs": 10, "tx": 3, "xtxs": 3, "race": 5, "burst": 3, "stall": 3, "heal": 3, "cut": 1, "join": 1, "adv": 1, "gc": 1, "slow": 1, "clock": 1, "restart": 1})
		},
		Ops: map[string]func(*Run, *Rng, int){"xtxs": opXtxs, "listen": opListen, "hear": opHear, "mute": opMute, "unmute": opUnmute, "hangup": opHangup, "unsub": opUnsub},
		Setup: func(run *Run) {
			joinAll(run)
			run.W.Pause(5 * time.Second)
			for i := 0; i < 2; i++ {
				opListen(run, run.R, 0)
			}
		},
		After: (*Run).watch,
		End: func(run *Run) {
			endProgress(run)
			run.watch()
			opHear(run, run.R, 0)
		},
	})
}

func opListen(run *Run, r *Rng, n int) {
	c := run.somewhere(r)
	if c == nil || !run.W.Settle(2*time.Minute) {
		return
	}
	ids := c.Shards()
	if len(ids) == 0 {
		return
	}
	run.listen(c, pick(r, ids), pick(r, []string{"logs", "logs", "newHeads", "newHeads", "newPendingTransactions", "syncing"}), r)
}

// opHear lets everything arrive and compares it with the chain.
func opHear(run *Run, r *Rng, n int) {
	w := run.W
	if !w.Settle(3 * time.Minute) {
		return
	}
	heads := map[*listener]common.Hash{}
	for _, l := range *run.listeners() {
		if l.live() && l.c.Shard(l.id) != nil {
			heads[l] = l.c.Shard(l.id).MinorBlockChain.CurrentBlock().Hash()
		}
	}
	run.watch()
	for i, before := 0, -1; i < 60; i++ {
		sum := 0
		for _, l := range *run.listeners() {
			sum += len(l.got)
		}
		if sum == before && i > 3 {
			break
		}
		before = sum
		w.Pause(6 * time.Second)
	}
	if !w.Settle(3 * time.Minute) {
		return
	}
	for _, l := range *run.listeners() {
		l.hear()
		if !l.live() || l.stop != nil || l.sub == "" || !run.clean(l.c) {
			if l.gone && l.sub != "" && !l.left && l.node.Alive && l.node.Tag == l.tag && !l.muted && run.clean(l.c) {
				run.Fail("C19", "sub-dropped", "%s: the connection of a client that reads was closed", l.name)
			}
			continue
		}
		s := l.c.Shard(l.id)
		if s == nil || s.MinorBlockChain.CurrentBlock().Hash() != heads[l] {
			continue // still moving
		}
		k := run.canonical(l.c, l.id)
		if k == nil {
			continue
		}
		switch l.kind {
		case "logs":
			want := map[string]int{}
			for _, b := range k.chain {
				for x, n := range l.logsOf(run, b.Hash()) {
					want[x] += n
				}
			}
			for _, x := range sortedKeys(want) {
				if l.have[x] != want[x] {
					run.Fail("C19", "sub-log-missing", "%s: by the notifications a log of the canonical chain stands %d times, not %d: %s", l.name, l.have[x], want[x], x)
				}
			}
			for _, x := range sortedKeys(l.have) {
				if l.have[x] != want[x] {
					run.Fail("C19", "sub-log-stays", "%s: by the notifications a log stands %d times which the canonical chain has %d times: %s", l.name, l.have[x], want[x], x)
				}
			}
			run.Did("sub-logs")
		case "newHeads":
			if l.last != heads[l] {
				run.Fail("C19", "sub-head-missing", "%s: the head is %d %s, the last told is %s", l.name, s.MinorBlockChain.CurrentBlock().NumberU64(), short(heads[l]), short(l.last))
			}
			if l.told < len(l.want) {
				run.Fail("C19", "sub-head-missing", "%s: was not told (or not in order) of the head %s, number %d of the %d seen", l.name, short(l.want[l.told]), l.told, len(l.want))
			}
			run.Did("sub-heads")
		case "newPendingTransactions":
			for _, h := range l.pooled(false) {
				if l.due[h] {
					run.Fail("C19", "sub-tx-missing", "%s: was not told of the pending transaction %s", l.name, short(h))
				}
			}
			run.Did("sub-txs")
		}
	}
}

func (run *Run) someListener(r *Rng, f func(*listener) bool) *listener {
	var ls []*listener
	for _, l := range *run.listeners() {
		if l.live() && f(l) {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return nil
	}
	return pick(r, ls)
}

// opMute has a client stop reading, with its connection open. Blocks must go on.
func opMute(run *Run, r *Rng, n int) {
	w := run.W
	l := run.someListener(r, func(l *listener) bool { return l.stop == nil })
	if l == nil {
		return
	}
	l.stop = make(chan struct{})
	l.muted = true
	w.count("mute")
	run.Log("%s stops reading", l.name)
	if r.Pct(40) {
		return
	}
	w.Settle(time.Minute)
	for k := 5 + r.N(30); k > 0 && l.c.Up() && l.c.Shard(l.id) != nil; k-- {
		at := w.Now()
		opTx(run, r, 0)
		run.mineMinor(l.c, l.id, r)
		if d := w.Now() - at; d > 2*time.Minute && run.clean(l.c) {
			run.Fail("C19,C14", "sub-stall", "a block of shard %x of %s takes %v while %s does not read", l.id, l.c.Name, d, l.name)
		}
		run.Did("mute-block")
		run.watch()
		w.Pause(time.Duration(r.N(4000)) * time.Millisecond)
	}
}

func opUnmute(run *Run, r *Rng, n int) {
	if l := run.someListener(r, func(l *listener) bool { return l.stop != nil }); l != nil {
		close(l.stop)
		l.stop = nil
		run.Log("%s reads again", l.name)
	}
}

func opHangup(run *Run, r *Rng, n int) {
	if l := run.someListener(r, func(l *listener) bool { return true }); l != nil {
		run.Log("%s goes away", l.name)
		l.left = true
		run.W.count("hangup")
		l.close()
	}
}

// opUnsub ends a subscription; nothing is told afterwards, and another can begin.
func opUnsub(run *Run, r *Rng, n int) {
	l := run.someListener(r, func(l *listener) bool { return l.stop == nil && l.sub != "" })
	if l == nil {
		return
	}
	a := l.call(2, "eth_unsubscribe", l.sub)
	if !l.live() {
		return
	}
	if a == nil || string(a.Result) != "true" {
		run.Fail("C19", "sub-unsubscribe", "%s does not get rid of its subscription: %v", l.name, a)
		return
	}
	had := len(l.got)
	run.Log("%s unsubscribes", l.name)
	l.left = true
	run.Did("unsubscribe")
	c, id := l.c, l.id
	if r.Pct(60) { // at once another of the same kind
		run.listen(c, id, l.kind, r)
	}
	run.W.Pause(10 * time.Second)
	if c.Up() && r.Pct(50) {
		run.mineMinor(c, id, r)
		run.W.Pause(10 * time.Second)
		if len(l.got) > had+1 {
			run.Fail("C19", "sub-unsubscribe", "%s is told of %d things after it unsubscribed", l.name, len(l.got)-had)
		}
	}
	l.close()
}
