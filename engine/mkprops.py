#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here because JSON lines are unreadable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


ALL = ["schedules", "histories", "fault_sequences"]

prop("C01", "Root chain: fork choice, and one consistent canonical chain",
     "A master's root head is always a valid block with the greatest total difficulty among the root blocks it has accepted, and the head never moves to a block with less total difficulty. "
     "The canonical root chain is exactly the ancestry of that head: looking a block or header up by height, by hash or as the latest always describes this one chain, heights above the head answer nothing, and every accepted block, canonical or not, stays readable by its hash with its parent and total difficulty.",
     ALL, "for every order in which root blocks of competing branches arrive from local mining, announcements and sync, with any interleaving of concurrent insertions, across reorganisations of any depth",
     "the unit tests insert a handful of fixed branches one at a time in a single goroutine; they never interleave insertions, queries, sync and mining over arbitrary fork shapes",
     ["core/rootblockchain.go", "core/rootheaderchain.go", "core/rawdb/accessors_chain.go", "cluster/master/master.go", "cluster/master/api_backend.go"],
     [("fork choice and head switch of the root chain", "core/rootblockchain.go WriteBlockWithState, reorg, insert"), ("canonical index", "core/rawdb/accessors_chain.go"),
      ("serialised insertion", "cluster/master/api_backend.go AddRootBlock")],
     observe=["root chain of each simulated master after every event batch"])

prop("C02", "Every shard follows the root chain",
     "Whenever a root block has been accepted by a whole cluster, each shard's canonical chain contains every block of that shard confirmed by the root chain up to the shard's root head, each block of the canonical chain refers to a root block on that same root chain with non-decreasing heights, and the shard's root head is the best root block it was given. "
     "The canonical shard chain is exactly the ancestry of the shard's head, looked up consistently by height and by hash, with nothing above the head, and confirmed blocks leave it only when the root chain itself reorganises. "
     "Among chains that respect this, a shard's head moves only to a block that extends it, or is higher, or has the same height and refers to a higher root block.",
     ALL, "for every interleaving of minor blocks, root blocks, root reorganisations and cross-shard deliveries in clusters of several slaves and shards",
     "tests drive one shard state with a fixed script; the root reorganisations that roll shards back, racing with blocks in flight, are combinations no fixed script covers",
     ["core/minorblockchain.go", "core/minorblockchain_addon.go", "cluster/shard/api_backend.go", "cluster/slave/api_backend.go"],
     [("root block arrival", "core/minorblockchain_addon.go AddRootBlock"), ("shard fork choice", "core/minorblockchain_addon.go updateTip"), ("reorganisation", "core/minorblockchain.go reorg, reWriteBlockIndexTo")],
     observe=["every shard of every cluster when no message is in flight"])

prop("C03", "A shard that crashes restarts consistent and keeps what is confirmed",
     "If the processes of a cluster stop at an arbitrary instant, mid-write included, and are started again, every shard comes back: its canonical chain again satisfies the same rules as before the crash, it contains every block confirmed by the master's root chain with their transactions, receipts, state and incoming cross-shard transfers all readable, and it goes on accepting valid blocks. "
     "No crash leaves a shard that needs manual repair, that refuses valid blocks for good, or that serves state which differs from executing its own canonical chain.",
     ["crash_points", "schedules", "histories"], "for every crash point between two writes of any process, including repeated crashes during recovery, with all earlier histories",
     "no test crashes anything; the recovery tests reopen a chain that was closed cleanly",
     ["core/minorblockchain.go", "core/minorblockchain_addon.go", "core/rawdb/accessors_chain.go", "cluster/shard/api_backend.go", "cluster/slave/backend.go"],
     [("recovery from the master's root block", "core/minorblockchain_addon.go InitFromRootBlock"), ("head and index on disk", "core/minorblockchain.go loadLastState"), ("commit status of a block", "core/minorblockchain_addon.go CommitMinorBlockByHash")],
     hook="databases opened through service.OpenDatabase (build tag verif)")

prop("C04", "A master that crashes restarts consistent and its cluster goes on",
     "If the master process stops at an arbitrary instant and is started again, its root chain again satisfies the fork-choice and index rules, it still has every root block whose insertion had been reported successful, and master and slaves agree on the root head. "
     "The restarted cluster accepts new valid minor and root blocks: no crash point leaves a root block half-distributed for good.",
     ["crash_points", "schedules", "histories"], "for every crash point of the master between any two writes or messages, alone or together with its slaves",
     "no test crashes a master between storing a root block and the slaves' confirmations; there are fixed tests of a clean restart only",
     ["core/rootblockchain.go", "cluster/master/master.go", "cluster/master/api_backend.go", "core/rawdb/accessors_chain.go"],
     [("committing marker", "core/rawdb WriteRootBlockCommittingHash, cluster/master/master.go recoverCommittingRootBlock"), ("initial distribution of the root head", "cluster/master/master.go initShards")],
     hook="databases opened through service.OpenDatabase (build tag verif)")

prop("C05", "A cross-shard transfer is delivered exactly once, in order",
     "Every cross-shard transaction included in a source shard block that the root chain confirms is credited (or executed) in its destination shard exactly once in the destination's canonical chain, after the root block confirming it, in the order given by the root chain (root height, then position of the source block, then position in the block), and never skipped, repeated or reordered however the deliveries are cut by gas limits. "
     "A transaction whose source block is not confirmed on the destination's root chain is never credited there.",
     ALL + ["inputs"], "for every workload of cross-shard transactions among several shards and slaves, with any reorganisation, crash, retransmission and gas pressure",
     "tests use two shards and a scripted pair of blocks; exactly-once over reorganisations, gas-limited continuation and duplicated RPCs is a statement about all histories",
     ["core/xshard_tx_cursor.go", "core/minorblockchain_addon.go", "core/state_processor.go", "core/state_transition.go", "cluster/slave/conn_manager.go", "cluster/shard/api_backend.go"],
     [("delivery cursor", "core/xshard_tx_cursor.go"), ("list distribution", "cluster/slave BroadcastXshardTxList, AddXshardTxList"), ("applying deposits", "core/state_processor.go ApplyCrossShardDeposit")],
     observe=["balances of every account in every canonical shard state"])

prop("C06", "The ledger follows the published rules and conserves tokens",
     "At every canonical block, each account's token balances and nonce, and each receipt's status and gas used, are those that result from applying the block's incoming transfers and transactions in order under the published fee, gas-price, refund, reward and reward-decay rules, starting from genesis. "
     "Hence tokens are neither created nor destroyed except block rewards minted and the fee share that is burnt: transfers, failed transactions, reverts and cross-shard transfers in flight conserve the total of every token, and nobody can spend what they do not have or reuse a nonce.",
     ["histories", "inputs", "schedules"], "for every sequence of transactions of all kinds (in-shard, cross-shard, contract creation and calls, failing and reverting, out of gas, several tokens) and every history of blocks",
     "tests check a few balances after a few fixed transactions in a single shard; conservation over the whole system is a property of all histories",
     ["core/state_processor.go", "core/state_transition.go", "core/minorblockchain_addon.go", "core/state/statedb.go", "core/genesis.go"],
     [("transaction application", "core/state_transition.go TransitionDb"), ("block finalisation and rewards", "core/state_processor.go"), ("cross-shard debit and credit", "core/state_transition.go, core/vm/evm.go")],
     observe=["an independent reference ledger run over the canonical chains"])

prop("C07", "A block reaches the master only after its outgoing transfers are stored",
     "When a slave announces a minor block to its master as ready for inclusion in a root block, the block itself is stored by its shard and its outgoing cross-shard transactions have been accepted and stored by every other shard that is to receive them. "
     "So a master never builds or accepts a root block containing a header whose cross-shard transactions a destination shard cannot find, whatever messages are lost, delayed, repeated or reordered.",
     ALL + ["crash_points"], "for every message schedule, failure and retry of the distribution of cross-shard lists among slaves",
     "tests run one successful distribution through mocks; losing, delaying or failing one of the deliveries at each point is not tested",
     ["cluster/shard/api_backend.go", "cluster/slave/conn_manager.go", "cluster/slave/api_backend.go", "cluster/master/api_backend.go", "core/minorblockchain_addon.go"],
     [("announcement", "cluster/shard/api_backend.go AddMinorBlock, AddBlockListForSync"), ("broadcast of lists", "cluster/slave/conn_manager.go BroadcastXshardTxList, BatchBroadcastXshardTxList")],
     hook="rpc.NewClient (build tag verif)")

prop("C08", "An invalid minor block is never accepted and changes nothing",
     "A minor block that breaks a consensus rule (wrong parent linkage, height, branch, version, time, difficulty or proof of work, gas limits, extra data, meta or transaction root, coinbase, root-chain reference, receipts, bloom, gas used, cross-shard progress, coinbase amount or state root, or an invalid transaction in it) is refused by every shard however it arrives, and after the refusal the shard's head, canonical chain, pending transactions and answers are as before. "
     "Refusing it does not keep the shard from accepting valid blocks at the same height.",
     ["inputs", "histories", "schedules"], "for every kind of corruption of every otherwise valid block, offered by mining submission, peer announcement or sync, at any moment",
     "tests corrupt two or three fields of one block; each rule has to be enforced in every state and on every path",
     ["core/minorblock_validator.go", "core/minorblockchain.go", "core/minorblockchain_addon.go", "cluster/shard/api_backend.go", "consensus/consensus.go"],
     [("block and state validation", "core/minorblock_validator.go ValidateBlock, ValidateState"), ("proof of work", "consensus/consensus.go VerifySeal, VerifyHeader")])

prop("C09", "An invalid root block is never accepted and changes nothing",
     "A root block that breaks a consensus rule (parent, height, version, time, difficulty, total difficulty or proof of work, extra data, merkle root, coinbase amount, or a list of minor headers that is out of order, unlinked, unknown, too long, not validated by the shards, later than the block, or tied to a different root chain) is refused by every master however it arrives, and the root chain, the shards and their answers are as before.",
     ["inputs", "histories", "schedules"], "for every kind of corruption of every otherwise valid root block, at any moment, on every path",
     "tests corrupt few fields of one block",
     ["core/rootblock_validator.go", "core/rootblockchain.go", "cluster/master/api_backend.go", "consensus/consensus.go"],
     [("root validation", "core/rootblock_validator.go ValidateBlock, ValidateHeader"), ("proof of work", "consensus/consensus.go")])

prop("C10", "Every block a node builds is valid for every other node",
     "A block that a node assembles for mining from its own head and pending transactions, once sealed, is accepted by the node itself and by every other replica that has the same ancestors, and leads every replica to exactly the same state, receipts, logs and cross-shard lists. "
     "Executing the same block on top of the same ancestors gives the same result on every node, whatever the order in which the node learned things, its caches, restarts and unrelated forks.",
     ALL + ["inputs"], "for every pending-transaction set, chain position and node history",
     "tests mine on the node that validates; divergence between replicas with different histories is invisible to them",
     ["core/minorblockchain_addon.go", "core/minorblockchain.go", "core/rootblockchain.go", "core/state_processor.go", "cluster/master/api_backend.go"],
     [("minor template", "core/minorblockchain_addon.go CreateBlockToMine"), ("root template", "core/rootblockchain.go CreateBlockToMine, cluster/master CreateRootBlockToMine"), ("execution", "core/state_processor.go Process")])

prop("C11", "The transaction pool keeps its promises",
     "A transaction accepted by a shard's pool is validly signed, of the right network and shard, affordable and not already used; offered transactions of one sender are executable in nonce order without gaps, a replacement needs the required higher price, and limits are respected. "
     "An accepted executable transaction is eventually included when blocks are mined with room for it, returns to the pool when its block is undone by a reorganisation, and is never offered again once included in the canonical chain.",
     ALL + ["inputs"], "for every sequence of submissions, replacements, blocks and reorganisations",
     "the pool tests run on a stub chain with fixed sequences",
     ["core/tx_pool.go", "core/tx_list.go", "core/minorblockchain_addon.go", "cluster/shard/api_backend.go"],
     [("admission", "core/tx_pool.go validateTx, add"), ("reset on new head", "core/tx_pool.go reset, promoteExecutables, demoteUnexecutables")])

prop("C12", "Transaction, receipt and history queries describe the canonical chain",
     "Asking a cluster (through the client API or a shard) for a transaction, its receipt, a block, logs or a range of an account's history answers with exactly the canonical chain's content: an included transaction is found at its block and position with its receipt, one that was undone by a reorganisation and not included again is not found as included, and lists of transactions by address or of all transactions contain each once in order across pages.",
     ALL, "for every history of blocks and reorganisations, including blocks that contain the same transaction on two branches",
     "tests query after linear insertion",
     ["core/minorblockchain_addon.go", "core/rawdb/accessors_indexes.go", "cluster/shard/api_backend.go", "cluster/slave/api_backend.go", "internal/qkcapi/api.go", "internal/encoder/encoder.go"],
     [("indices", "core/minorblockchain_addon.go putTxIndexFromBlock, removeTxIndexFromBlock, GetTransactionByHash, GetTransactionReceipt, GetTransactionListByAddress, GetAllTx")])

prop("C13", "Queries about a past block answer with the state of that block",
     "Account balances, nonces, storage, code, calls and gas estimates asked for a given canonical block, and primary account data asked for the latest block, answer with exactly the state after that block, unaffected by later blocks, pending transactions or concurrent execution; a call or estimate never changes any state.",
     ["histories", "schedules", "inputs"], "for every block of the canonical chain, asked at any later time while blocks are being added",
     "tests query the latest state of a quiescent chain",
     ["core/minorblockchain_addon.go", "core/minorblockchain.go", "core/state/statedb.go", "cluster/shard/api_backend.go", "cluster/slave/api_backend.go"],
     [("queries", "core/minorblockchain_addon.go GetBalance, GetTransactionCount, GetStorageAt, GetCode, ExecuteTx, EstimateGas")])

prop("C14", "Clusters converge on one chain and go on, once faults stop",
     "When faults stop and the clusters are connected again, all clusters adopt the same best root chain and with it the same confirmed shard chains and states within a bounded time, without a new block having to be mined on each of them. "
     "From then on new transactions, minor blocks and root blocks are accepted and spread to all clusters: no sequence of losses, partitions, stalls, crashes and restarts leaves a cluster stuck.",
     ALL + ["crash_points"], "for every finite sequence of faults followed by a fault-free period",
     "tests synchronise two clusters over a reliable in-process link with no fault",
     ["cluster/sync/synchronizer.go", "cluster/sync/task_root_chain.go", "cluster/sync/task_minor_chain.go", "cluster/master/handle.go", "cluster/master/api_backend.go", "cluster/shard/api_backend.go"],
     [("root sync", "cluster/sync/task_root_chain.go"), ("minor sync", "cluster/sync/task_minor_chain.go"), ("announcements", "cluster/master/handle.go, cluster/shard/api_backend.go HandleNewTip")])

prop("C15", "A misbehaving peer cannot crash, wedge or mislead a cluster",
     "Whatever a remote peer sends (malformed, oversized, out-of-order, unsolicited, lying or repeated messages, invalid blocks, or silence in the middle of a request), no process of the cluster stops or stops serving its other peers and clients, the chains stay as the honest blocks make them, and honest peers' blocks and transactions are still accepted.",
     ["inputs", "schedules", "fault_sequences"], "for every byte sequence and timing of a connected peer",
     "tests talk to well-behaved peers only",
     ["cluster/master/handle.go", "cluster/master/peer.go", "cluster/slave/api_backend.go", "cluster/sync/task_root_chain.go", "cluster/sync/task_minor_chain.go", "p2p/message.go", "serialize/deserializer.go"],
     [("message handling", "cluster/master/handle.go handleMsg"), ("sync with an untrusted peer", "cluster/sync"), ("decoding", "serialize")])

prop("C16", "Mining work handed out is current, and submitted work counts once",
     "Work handed to a miner is for a block on top of the node's current head with the current difficulty and the requested coinbase, refreshed after the head changes. "
     "A correct solution of handed-out work is accepted and its block inserted, one that is wrong, unknown or stale is refused with no effect, and concurrent requests, submissions and head changes never deadlock, crash or lose a correct solution for the current head.",
     ["schedules", "histories", "inputs"], "for every interleaving of work requests, submissions, new heads, enabling and disabling of mining, and clock advances",
     "tests submit one solution with an idle chain",
     ["consensus/remote.go", "consensus/consensus.go", "cluster/miner/miner.go", "cluster/shard/api_backend.go", "cluster/master/api_backend.go"],
     [("remote sealer", "consensus/remote.go"), ("work and commits", "cluster/miner/miner.go")])

prop("C17", "Proof of staked work is granted exactly to those who staked enough",
     "A block mined with the reduced difficulty is accepted if and only if its miner's stake, as of the rules, covers the blocks it mined within the window including this one; the senders whose staked tokens are locked by that window cannot move them below their lock. "
     "Every replica decides the same way after any reorganisation, restart or cache state.",
     ["histories", "inputs", "schedules"], "for every sequence of miners and stake changes in a window, over forks and restarts",
     "tests check a window of fixed length on a linear chain with warm caches",
     ["consensus/posw/posw.go", "core/minorblockchain_addon.go", "core/rootblockchain.go", "cluster/slave/api_backend.go"],
     [("window and difficulty", "consensus/posw/posw.go"), ("locked senders", "core/minorblockchain_addon.go, core/state_transition.go")])

prop("C18", "Peer connections are authentic, ordered and tamper-evident",
     "A connection between two nodes is established only with the node whose identity was dialled, and delivers to the application exactly a prefix of the messages the other side sent, unmodified and in order, whatever the network does: bytes flipped, dropped, repeated, reordered, truncated or injected end the connection instead of being delivered.",
     ["inputs", "schedules", "fault_sequences"], "for every sequence of byte-level faults at any offset of the handshake or the session",
     "tests use fixed vectors and intact pipes",
     ["p2p/rlpx.go", "p2p/server.go", "p2p/peer.go", "p2p/message.go"],
     [("handshake and framing", "p2p/rlpx.go"), ("connection set-up", "p2p/server.go SetupConn")])

prop("C19", "Subscribers see every canonical change once and in order",
     "A client subscribed to new heads, logs, pending transactions or synchronisation status receives, for each change of the canonical chain, the new head; and for logs, exactly the logs of blocks that become canonical, and removal notices for exactly those of blocks that leave it, so that replaying the notifications yields the logs of the current canonical chain. "
     "A slow or disconnected subscriber does not stop block processing.",
     ["schedules", "histories"], "for every history of insertions and reorganisations and every subscriber timing",
     "tests subscribe on a linear chain",
     ["core/minorblockchain.go", "cluster/slave/filters", "cluster/shard/api_backend.go"],
     [("events", "core/minorblockchain.go PostChainEvents, reorg"), ("subscriptions", "cluster/slave/filters")])

prop("C20", "Whatever is encoded decodes to the same value, and nothing else",
     "Every value the system stores or sends decodes to an equal value, and decoding rejects input that is not the encoding of some value without crashing.",
     ["inputs"], "for every value and every byte string",
     "tests sample a few values",
     ["serialize/serializer.go", "serialize/deserializer.go"], [("codec", "serialize")])

prop("C21", "The virtual machine computes what its specification says",
     "Executing a contract gives the result, gas use, logs and state changes of the published virtual machine rules for every program and input.",
     ["programs", "inputs"], "for every program, input and gas limit",
     "the conformance tests sample programs",
     ["core/vm/interpreter.go", "core/vm/instructions.go", "core/vm/evm.go", "core/vm/contracts.go"], [("interpreter", "core/vm")])

prop("C22", "Keys and signatures: only the owner can produce an accepted signature",
     "A transaction or guardian-signed block is attributed to an account only if it carries a valid signature by that account's key over exactly that content and network, and encrypted key files open only with their password.",
     ["inputs"], "for every key, message and signature",
     "tests sample keys",
     ["core/types/transaction_signing.go", "account/key.go", "crypto"], [("signer", "core/types/transaction_signing.go"), ("key store", "account/key.go")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
