#!/usr/bin/env python3
"""Generate the deterministic Go runtime used by the simulator.

Copies a handful of files of the installed go1.25 standard library, applies the
edits below (each must match exactly once, or we stop), and returns an overlay
map {original path: patched path} for `go build -overlay`.  Nothing is written
into GOROOT or /repo.
"""
import os, sys

GOROOT = "/opt/veriftools/go1.25.14"

def edits():
    return {
    "runtime/runtime2.go": [
        # mutex waits count as idle: a killed node may leave a lock held forever
        ("\twaitReasonSynctestSelect:        true,\n}",
         "\twaitReasonSynctestSelect:        true,\n"
         "\twaitReasonSyncMutexLock:         true,\n"
         "\twaitReasonSyncRWMutexRLock:      true,\n"
         "\twaitReasonSyncRWMutexLock:       true,\n"
         "\twaitReasonSyncWaitGroupWait:     true,\n}"),
        ("\tlabels          unsafe.Pointer // profiler labels\n",
         "\tlabels          unsafe.Pointer // profiler labels\n\tsimTag          uint32\n"),
    ],
    "runtime/proc.go": [
        # no preemption, no taking of Ps from system calls
        ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n"),
        # the scheduler's choice is the simulator's
        ("func runqget(pp *p) (gp *g, inheritTime bool) {\n",
         "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\treturn simRunqget(pp), false\n\t}\n"),
        ("\tif randomizeScheduler && next && randn(2) == 0 {\n\t\tnext = false\n\t}\n\n\tif next {\n\tretryNext:",
         "\tif randomizeScheduler && next && randn(2) == 0 {\n\t\tnext = false\n\t}\n\tif simOn {\n\t\tnext = false\n\t}\n\n\tif next {\n\tretryNext:"),
        ("\tif pp.schedtick%61 == 0 && !sched.runq.empty() {\n\t\tlock(&sched.lock)\n\t\tgp := globrunqget()",
         "\tif !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {\n\t\tlock(&sched.lock)\n\t\tgp := globrunqget()"),
        ("\t\t\tif runqputbatch(pp, &q); !q.empty() {\n\t\t\t\tthrow(\"Couldn't put Gs into empty local runq\")\n\t\t\t}\n\t\t\treturn gp, false, false\n",
         "\t\t\tif runqputbatch(pp, &q); !q.empty() {\n\t\t\t\tthrow(\"Couldn't put Gs into empty local runq\")\n\t\t\t}\n\t\t\tif simOn {\n\t\t\t\trunqput(pp, gp, false)\n\t\t\t\tgoto top\n\t\t\t}\n\t\t\treturn gp, false, false\n", "first"),
        ("\tdropg()\n\tlock(&sched.lock)\n\tglobrunqput(gp)\n\tunlock(&sched.lock)\n\n\tif mainStarted {\n\t\twakep()\n\t}\n",
         "\tdropg()\n\tif simOn {\n\t\trunqput(getg().m.p.ptr(), gp, false)\n\t\tschedule()\n\t}\n\tlock(&sched.lock)\n\tglobrunqput(gp)\n\tunlock(&sched.lock)\n\n\tif mainStarted {\n\t\twakep()\n\t}\n"),
        ("\tnewg.trackingSeq = uint8(cheaprand())\n", "\tnewg.simTag = callergp.simTag\n\tnewg.trackingSeq = uint8(cheaprand())\n"),
    ],
    "runtime/select.go": [
        ("\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simRandn(uint32(norder + 1))\n"),
    ],
    "runtime/sema.go": [
        ("\ts.ticket = cheaprand() | 1\n", "\ts.ticket = uint32(simNext()) | 1\n"),
    ],
    "runtime/rand.go": [
        ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simNext()\n\t}\n"),
        ("\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tfor i := range startupRand {\n\t\tstartupRand[i] = byte(i + 1)\n\t}\n"),
    ],
    "runtime/panic.go": [
        ("\t// ran out of deferred calls - old-school panic now\n",
         "\tif simPanicHook != nil && gp.bubble != nil {\n\t\trunningPanicDefers.Add(-1)\n\t\tsimPanicHook(gp.simTag, e)\n\t\tgopark(nil, nil, waitReasonSelectNoCases, traceBlockForever, 1)\n\t}\n"
         "\t// ran out of deferred calls - old-school panic now\n"),
    ],
    "runtime/time.go": [
        ("\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = uint32(simSchedNext())\n"),
        # each node has a wall clock of its own
        ("\t\tsec = bubble.now / (1000 * 1000 * 1000)\n\t\tnsec = int32(bubble.now % (1000 * 1000 * 1000))\n",
         "\t\tnow := bubble.now + simSkew[getg().simTag]\n\t\tsec = now / (1000 * 1000 * 1000)\n\t\tnsec = int32(now % (1000 * 1000 * 1000))\n"),
    ],
    "sync/rwmutex.go": [
        ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime_simYield()\n"),
    ],
    "internal/sync/mutex.go": [
        ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\truntime_simYield()\n"),
        ("starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs", "starving = starving && waitStartTime == starvationThresholdNs"),
    ],
    "runtime/synctest.go": [
        ("\tbubble.now = synctestBaseTime\n", "\tbubble.now = synctestBaseTime + simBaseOffset\n"),
    ],
    }

SIM_GO = '''package runtime

import (
	"internal/runtime/atomic"
	_ "unsafe"
)

// Deterministic-simulation support (overlay; never part of the shipped build).

const simOn = true

var (
	simState      uint64 = 0x9e3779b97f4a7c15
	simSchedState uint64 = 1
	simRandPct    uint32 // of 256: how often the next goroutine is picked at random
	simDead       [1 << 14]bool
	simPanicHook  func(tag uint32, v any)
	simBaseOffset int64
	simPicks      uint64
	simChoices    uint64
	simHash       uint64
	simYieldPct   uint32
	simYields     uint64
	simSkew       [1 << 14]int64
)

//go:nosplit
func simNext() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRandn(n uint32) uint32 {
	return uint32((uint64(uint32(simNext())) * uint64(n)) >> 32)
}

//go:nosplit
func simSchedNext() uint64 {
	simSchedState += 0x9e3779b97f4a7c15
	z := simSchedState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simRunqget picks the next goroutine of the only P. Goroutines of the runtime
// and of the host program run first, in order; among the goroutines of the
// simulation the seeded generator chooses. Goroutines of a killed node are
// parked for ever instead of being run.
func simRunqget(pp *p) *g {
	for {
		h := atomic.LoadAcq(&pp.runqhead)
		t := pp.runqtail
		if t == h {
			return nil
		}
		n := uint32(len(pp.runq))
		pick := h
		sys := false
		for i := h; i != t; i++ {
			if gp := pp.runq[i%n].ptr(); gp.bubble == nil || gp == gp.bubble.root {
				pick = i
				sys = true
				break
			}
		}
		if !sys {
			if k := t - h; k > 1 {
				simChoices++
				if simRandPct > 0 && uint32(simSchedNext()&255) < simRandPct {
					pick = h + uint32((uint64(uint32(simSchedNext()))*uint64(k))>>32)
				}
			}
		}
		gp := pp.runq[pick%n].ptr()
		for i := pick; i != h; i-- {
			pp.runq[i%n] = pp.runq[(i-1)%n]
		}
		atomic.StoreRel(&pp.runqhead, h+1)
		if !sys {
			if simDead[gp.simTag] {
				gp.waitreason = waitReasonSelectNoCases
				casgstatus(gp, _Grunnable, _Gwaiting)
				continue
			}
			simPicks++
			simHash = (simHash ^ uint64(gp.simTag) ^ uint64(pick-h)<<20) * 0x100000001b3
		}
		return gp
	}
}

// SimSeed restarts both generators.
func SimSeed(seed uint64, randPct uint32) {
	simState = seed
	simSchedState = seed ^ 0xd1b54a32d192ed03
	simRandPct = randPct
}

// SimSched restarts the scheduling generator only.
func SimSched(seed uint64, randPct uint32) { simSchedState = seed; simRandPct = randPct }

func SimSetYield(pct uint32) { simYieldPct = pct }

// SimYield gives up the processor now and then, as the seed decides.
func SimYield() {
	if simYieldPct > 0 && uint32(simSchedNext()&255) < simYieldPct {
		Gosched()
	}
}

//go:linkname internal_sync_simYield internal/sync.runtime_simYield
func internal_sync_simYield() { simLockYield() }

//go:linkname sync_simYield sync.runtime_simYield
func sync_simYield() { simLockYield() }

// simLockYield: a goroutine of a node may lose the processor where it takes a lock.
func simLockYield() {
	if simYieldPct == 0 {
		return
	}
	gp := getg()
	if gp.simTag == 0 || gp.bubble == nil || gp.m.locks != 0 || gp == gp.m.g0 {
		return
	}
	if uint32(simSchedNext()&255) < simYieldPct {
		simYields++
		Gosched()
	}
}

func SimYields() uint64 { return simYields }

// SimSetSkew sets how far the wall clock of a node is off.
func SimSetSkew(tag uint32, ns int64) { simSkew[tag] = ns }

// SimNow is the time of the simulation, whatever the clock of the node says.
func SimNow() int64 {
	if b := getg().bubble; b != nil {
		return b.now
	}
	return 0
}

func SimSetTag(tag uint32)                          { getg().simTag = tag }
func SimTag() uint32                                { return getg().simTag }
func SimKill(tag uint32)                            { simDead[tag] = true }
func SimIsDead(tag uint32) bool                     { return simDead[tag] }
func SimSetPanicHook(f func(tag uint32, v any))     { simPanicHook = f }
func SimSetBaseOffset(ns int64)                     { simBaseOffset = ns }
func SimStats() (picks, choices, hash uint64)       { return simPicks, simChoices, simHash }
'''

SYNCTEST_GO = '''package synctest

import "internal/synctest"

// Run starts a bubble without a *testing.T (overlay for the simulator).
func Run(f func()) { synctest.Run(f) }
'''

LOCK_GO = """package PKG

import _ "unsafe"

//go:linkname runtime_simYield
func runtime_simYield()
"""

def generate(outdir):
    src = os.path.join(GOROOT, "src")
    overlay = {}
    os.makedirs(outdir, exist_ok=True)
    for rel, eds in edits().items():
        p = os.path.join(src, rel)
        s = open(p).read()
        for e in eds:
            old, new = e[0], e[1]
            c = s.count(old)
            if c != 1 and not (len(e) > 2 and c >= 1):
                raise SystemExit("goruntime.py: %s: %d matches for %r" % (rel, c, old[:60]))
            s = s.replace(old, new, 1)
        o = os.path.join(outdir, rel.replace("/", "_"))
        open(o, "w").write(s)
        overlay[p] = o
    for rel, text in (("runtime/zz_sim.go", SIM_GO), ("testing/synctest/zz_sim.go", SYNCTEST_GO),
                      ("internal/sync/zz_sim.go", LOCK_GO.replace("PKG", "sync")), ("sync/zz_sim.go", LOCK_GO.replace("PKG", "sync"))):
        o = os.path.join(outdir, rel.replace("/", "_"))
        open(o, "w").write(text)
        overlay[os.path.join(src, rel)] = o
    return overlay

if __name__ == "__main__":
    import json
    print(json.dumps({"Replace": generate(sys.argv[1])}, indent=1))
