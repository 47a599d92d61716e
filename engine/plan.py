"""Which scenarios decide which property, and how many runs of each."""

REAL = ["core (root and minor chains, state, EVM, transaction pool, validators)", "cluster/master", "cluster/slave", "cluster/shard", "cluster/sync",
        "cluster/miner", "consensus (double SHA-256, PoSW)", "qkcdb over an in-memory disk", "p2p message codec and peer protocol handlers",
        "serialize", "the Go runtime scheduler, timers, maps and select under a seeded source"]
STUB = ["gRPC transport (replaced by simulated calls that serialise, delay, lose and duplicate)", "TCP and the RLPx handshake between masters (simulated links)",
        "file system below the key-value store (in-memory disk with write-level crashes)", "wall clock (simulated)", "nonce search (the simulated miner seals)", "discovery"]
ASSUME = ["a crashed process keeps what it had written before the crash (operating-system crash losing unsynced writes is not claimed)",
          "when one process of a cluster dies the operator restarts the whole cluster, slaves first, as the deployment scripts do"]

# property -> level, {scenario: (quick runs, thorough runs)}, the rules that make a run count as non-trivial
PLAN = {
    "C01": {"scenarios": {"race": (900, 40000), "net": (700, 30000), "crash": (400, 20000)}, "rules": ["root-head", "root-index"]},
    "C02": {"scenarios": {"race": (850, 40000), "net": (550, 30000), "rpcfault": (350, 20000), "crash": (250, 10000), "long": (60, 4000)}, "rules": ["shard-index"]},
    "C03": {"scenarios": {"crash": (1700, 70000), "askfault": (150, 10000), "long": (80, 5000)}, "rules": ["shard-index"]},
    "C04": {"scenarios": {"crash": (1500, 60000), "rpcfault": (500, 20000)}, "rules": ["root-index"]},
    "C05": {"scenarios": {"ledger": (900, 30000), "wide": (250, 8000), "crash": (450, 20000), "rpcfault": (350, 15000)}, "rules": ["ledger-state"]},
    "C06": {"scenarios": {"ledger": (1500, 60000)}, "rules": ["ledger-state", "supply"]},
    "C07": {"scenarios": {"rpcfault": (900, 30000), "crash": (550, 20000), "ledger": (350, 15000), "wide": (100, 5000)}, "rules": ["announced-list", "announced-transfers"]},
    "C08": {"scenarios": {"forge": (900, 40000)}, "rules": ["refused-minor", "refused-far", "good-minor", "variant-minor"]},
    "C09": {"scenarios": {"forge": (900, 40000)}, "rules": ["refused-root"]},
    "C10": {"scenarios": {"ledger": (700, 30000), "net": (450, 20000), "pool": (350, 20000), "wide": (150, 5000), "long": (50, 4000)}, "rules": ["ledger-state"]},
    "C11": {"scenarios": {"pool": (1300, 50000)}, "rules": ["offer", "replaced", "undone-tx", "drained", "pool-check", "gossip"]},
    "C12": {"scenarios": {"query": (600, 30000), "askfault": (300, 15000), "long": (60, 4000)}, "rules": ["query-tx", "query-history"]},
    "C13": {"scenarios": {"query": (600, 30000), "askfault": (250, 15000), "long": (80, 5000)}, "rules": ["query-state", "query-call"]},
    "C14": {"scenarios": {"race": (700, 30000), "net": (300, 15000), "crash": (350, 15000), "rpcfault": (350, 15000), "ledger": (150, 10000), "query": (150, 10000), "long": (50, 4000)}, "rules": ["agree", "progress"]},
    "C15": {"scenarios": {"rogue": (2200, 80000)}, "rules": ["pester", "bait", "peers-gone", "after-rogues"]},
    "C16": {"scenarios": {"mine": (1100, 40000)}, "rules": ["get-work", "solved", "wrong-solution", "mrace"]},
    "C17": {"scenarios": {"posw": (500, 20000), "forge": (100, 5000)}, "rules": ["work-demanded", "tried-unearned", "earned", "root-work-demanded", "root-earned", "tried-root-unearned", "posw-info", "agreed"]},
    "C18": {"scenarios": {"rlpx": (400, 20000)}, "rules": ["handshake", "established", "delivered", "intact", "ended-by-tampering", "static"], "only_real": ["p2p (server, dialling, handshakes, framing, peers)", "go-ethereum crypto, ecies and enode", "the Go runtime scheduler, timers, maps and select under a seeded source"],
            "only_stub": ["TCP (simulated byte streams with bounded buffers, deadlines and faults at any byte)", "the application above the connection (a recording stand-in)", "wall clock (simulated)", "discovery", "crypto/rand (seeded)"]},
    "C19": {"scenarios": {"subs": (700, 30000)}, "rules": ["sub-logs", "sub-heads", "sub-txs", "mute-block", "unsubscribe"]},
}

# properties this technique does not decide, or not yet
NOT = {
    "C20": "a pure function of its input: no schedule, clock, fault or other party can change what it does, so a simulator has nothing to decide; "
           "(the real codec runs under every simulated message and every stored value of the other checks)",
    "C21": "a pure function of program, input and state: nothing for a scheduler or fault injector to decide (the real interpreter runs in all simulations, the outcome of a few fixed contracts is modelled in C06)",
    "C22": "cryptographic soundness and the key files are pure functions of their inputs; nothing in them depends on schedule, time, I/O faults or other parties "
           "(a wrong signature inside a transaction or block is one of the corruptions of C08)",
}
