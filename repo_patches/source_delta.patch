From 7900dd664bc817b213a11143b768469025cff17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 01/66] verif hooks: seams for the cluster RPC client and
 databases (tag verif, off by default)

---
 cluster/rpc/grpc_client.go    |  3 +++
 cluster/rpc/hook_off.go       |  8 ++++++++
 cluster/rpc/hook_verif.go     | 18 ++++++++++++++++++
 cluster/service/hook_off.go   | 10 ++++++++++
 cluster/service/hook_verif.go | 17 +++++++++++++++++
 cluster/service/service.go    |  3 +++
 6 files changed, 59 insertions(+)
 create mode 100644 cluster/rpc/hook_off.go
 create mode 100644 cluster/rpc/hook_verif.go
 create mode 100644 cluster/service/hook_off.go
 create mode 100644 cluster/service/hook_verif.go

diff --git a/cluster/rpc/grpc_client.go b/cluster/rpc/grpc_client.go
index ba7f18c..14b1ccb 100755
--- a/cluster/rpc/grpc_client.go
+++ b/cluster/rpc/grpc_client.go
@@ -246,6 +246,9 @@ func NewClient(serverType serverType) Client {
 	} else if serverType != MasterServer {
 		return nil
 	}
+	if c := hookedClient(serverType, rpcFuncs); c != nil {
+		return c
+	}
 	return &rpcClient{
 		connVals: make(map[string]*opNode),
 		funcs:    rpcFuncs,
diff --git a/cluster/rpc/hook_off.go b/cluster/rpc/hook_off.go
new file mode 100644
index 0000000..f41eec9
--- /dev/null
+++ b/cluster/rpc/hook_off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+// +build !verif
+
+package rpc
+
+// hookedClient is the seam the verification build (tag verif) uses to carry
+// cluster calls over a simulated network. It does nothing in a normal build.
+func hookedClient(serverType, map[uint32]opType) Client { return nil }
diff --git a/cluster/rpc/hook_verif.go b/cluster/rpc/hook_verif.go
new file mode 100644
index 0000000..c81963f
--- /dev/null
+++ b/cluster/rpc/hook_verif.go
@@ -0,0 +1,18 @@
+//go:build verif
+// +build verif
+
+package rpc
+
+// ClientHook, when set, supplies the client returned by NewClient.
+var ClientHook func(toMaster bool, names map[uint32]string) Client
+
+func hookedClient(tp serverType, funcs map[uint32]opType) Client {
+	if ClientHook == nil {
+		return nil
+	}
+	names := make(map[uint32]string, len(funcs))
+	for op, f := range funcs {
+		names[op] = f.name
+	}
+	return ClientHook(tp == MasterServer, names)
+}
diff --git a/cluster/service/hook_off.go b/cluster/service/hook_off.go
new file mode 100644
index 0000000..2fca988
--- /dev/null
+++ b/cluster/service/hook_off.go
@@ -0,0 +1,10 @@
+//go:build !verif
+// +build !verif
+
+package service
+
+import "github.com/ethereum/go-ethereum/ethdb"
+
+// hookedDatabase is the seam the verification build (tag verif) uses to put
+// databases on simulated storage. It does nothing in a normal build.
+func hookedDatabase(string, bool, bool) (ethdb.Database, error, bool) { return nil, nil, false }
diff --git a/cluster/service/hook_verif.go b/cluster/service/hook_verif.go
new file mode 100644
index 0000000..46ac450
--- /dev/null
+++ b/cluster/service/hook_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package service
+
+import "github.com/ethereum/go-ethereum/ethdb"
+
+// DatabaseHook, when set, supplies the databases OpenDatabase returns.
+var DatabaseHook func(name string, clean, readOnly bool) (ethdb.Database, error)
+
+func hookedDatabase(name string, clean, readOnly bool) (ethdb.Database, error, bool) {
+	if DatabaseHook == nil {
+		return nil, nil, false
+	}
+	db, err := DatabaseHook(name, clean, readOnly)
+	return db, err, true
+}
diff --git a/cluster/service/service.go b/cluster/service/service.go
index a182331..c15b3fd 100755
--- a/cluster/service/service.go
+++ b/cluster/service/service.go
@@ -46,6 +46,9 @@ func (ctx *ServiceContext) WSIsAlive() bool {
 // if no previous can be found) from within the node's data directory. If the
 // node is an ephemeral one, a memory database is returned.
 func (ctx *ServiceContext) OpenDatabase(name string, clean bool, isReadOnly bool) (ethdb.Database, error) {
+	if db, err, ok := hookedDatabase(name, clean, isReadOnly); ok {
+		return db, err
+	}
 	if ctx.config == nil || ctx.config.DataDir == "" {
 		return NewQkcMemoryDB(isReadOnly), nil
 	}
-- 
2.43.0


From 46e98207a3e4096de4c4c6434d19e9e1b1f1631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 02/66] fix: a switch to a shorter chain leaves no canonical
 height above the new head

A reorganisation to a heavier but shorter root chain, or of a shard to a
shorter chain after its root chain changed, kept the number-to-hash entries
of the old chain above the new head, so that reads by height returned blocks
that are no longer canonical.
---
 core/minorblockchain_addon.go | 4 ++++
 core/rootblockchain.go        | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 3dbad5d..f82d4e9 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1366,6 +1366,10 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	if oldBlock == nil {
 		oldBlock = m.CurrentBlock()
 	}
+	// the new chain may be shorter: no height above its head stays canonical
+	for number := oldBlock.NumberU64(); number > newBlock.NumberU64(); number-- {
+		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, number)
+	}
 	return m.reorg(oldBlock, newBlock)
 }
 
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 0492f8c..1bba59e 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -798,6 +798,7 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	log.Debug("reorg", "oldBlock", oldBlock.NumberU64(), "newBlock", newBlock.NumberU64())
 	log.Debug("reorg done")
 	var (
+		newBlockNumber = newBlock.NumberU64()
 		newChain       []types.IBlock
 		oldChain       []types.IBlock
 		commonBlock    types.IBlock
@@ -869,6 +870,12 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	for _, item := range diff {
 		rawdb.DeleteBlockContentLookupEntry(batch, item.Hash())
 	}
+	// the new chain may be shorter: no height above its head is canonical
+	for _, block := range oldChain {
+		if block.NumberU64() > newBlockNumber {
+			rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeRoot, block.NumberU64())
+		}
+	}
 	batch.Write()
 
 	if len(oldChain) > 0 {
-- 
2.43.0


From 8b264a12331ba905b1f4f2e9a1e75215a7e91a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:26 +0000
Subject: [PATCH 03/66] fix: a master inserts and broadcasts one root block at
 a time

Root blocks reach the master from its miner and from the synchroniser at the
same time. Two concurrent insertions could broadcast a child before its
parent, on which the slave fails with an unknown parent and the master
panics.
---
 cluster/master/backend.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index 77d2bf9..e0f54a0 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -73,6 +73,7 @@ type QKCMasterBackend struct {
 
 	artificialTxConfig *rpc.ArtificialTxConfig
 	rootBlockChain     *core.RootBlockChain
+	addRootBlockLock   sync.Mutex // slaves get root blocks in the order the chain takes them
 	protocolManager    *ProtocolManager
 	synchronizer       Synchronizer.Synchronizer
 	txCountHistory     *deque.Deque
@@ -560,6 +561,8 @@ func (s *QKCMasterBackend) SendMiningConfigToSlaves(mining bool) error {
 
 // AddRootBlock add root block to all slaves
 func (s *QKCMasterBackend) AddRootBlock(rootBlock *types.RootBlock) error {
+	s.addRootBlockLock.Lock()
+	defer s.addRootBlockLock.Unlock()
 	block := s.rootBlockChain.CurrentBlock()
 	s.rootBlockChain.WriteCommittingHash(rootBlock.Hash())
 	_, err := s.rootBlockChain.InsertChain([]types.IBlock{rootBlock})
-- 
2.43.0


From a43a8518e9ddb50cac228b75133ca8fdcc1c59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:05 +0000
Subject: [PATCH 04/66] fix: a shard restarted before its first root block goes
 back to its genesis block

With the root chain still at the shard's genesis height, a restart kept the
stored head although its state is only in memory and lost in a crash: the
shard then had a head without state, its transaction pool panicked and no
block could be added.
---
 core/minorblockchain_addon.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index f82d4e9..d600f1d 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -356,6 +356,13 @@ func (m *MinorBlockChain) InitGenesisState(rBlock *types.RootBlock) (*types.Mino
 	}
 	m.rootTip = rBlock
 	m.confirmedHeaderTip = nil
+	// As in InitFromRootBlock, a restart goes back to the last block the root chain
+	// confirms. Here that is the genesis block: later states may be lost in a crash.
+	if current := m.CurrentBlock(); current.Hash() != gBlock.Hash() {
+		if err := m.rewindIndexTo(current, gBlock); err != nil {
+			return nil, err
+		}
+	}
 	m.currentEvmState, err = m.StateAt(gBlock.Root())
 	if err != nil {
 		return nil, err
@@ -1366,6 +1373,10 @@ func (m *MinorBlockChain) reWriteBlockIndexTo(oldBlock *types.MinorBlock, newBlo
 	if oldBlock == nil {
 		oldBlock = m.CurrentBlock()
 	}
+	return m.rewindIndexTo(oldBlock, newBlock)
+}
+
+func (m *MinorBlockChain) rewindIndexTo(oldBlock *types.MinorBlock, newBlock *types.MinorBlock) error {
 	// the new chain may be shorter: no height above its head stays canonical
 	for number := oldBlock.NumberU64(); number > newBlock.NumberU64(); number-- {
 		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, number)
-- 
2.43.0


From 1ca2be1266ca2f67f88caae851e3bcb40a447ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:05 +0000
Subject: [PATCH 05/66] fix: a restart drops index entries above the stored
 head

The index entry of a block is written before the head that includes it, and a
reorganisation moves the head up block by block. After a crash in between,
reads by height returned blocks above the head, or of the old chain.
---
 core/minorblockchain.go | 4 ++++
 core/rootblockchain.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 8e1e66f..25a646f 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -299,6 +299,10 @@ func (m *MinorBlockChain) loadLastState() error {
 	}
 	// Everything seems to be fine, set as the head block
 	m.currentBlock.Store(currentBlock)
+	// A crash may come between an index entry and the head it was written for
+	for number := currentBlock.NumberU64() + 1; rawdb.ReadCanonicalHash(m.db, rawdb.ChainTypeMinor, number) != (common.Hash{}); number++ {
+		rawdb.DeleteCanonicalHash(m.db, rawdb.ChainTypeMinor, number)
+	}
 
 	return nil
 }
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 1bba59e..7430554 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -186,6 +186,10 @@ func (bc *RootBlockChain) loadLastState() error {
 	}
 	// Everything seems to be fine, set as the head block
 	bc.currentBlock.Store(currentBlock)
+	// A crash may come between an index entry and the head it was written for
+	for number := currentBlock.NumberU64() + 1; rawdb.ReadCanonicalHash(bc.db, rawdb.ChainTypeRoot, number) != (common.Hash{}); number++ {
+		rawdb.DeleteCanonicalHash(bc.db, rawdb.ChainTypeRoot, number)
+	}
 	return nil
 }
 
-- 
2.43.0


From ae477c5e957bbe28fd32cd73bc2ff77f0d58945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:40 +0000
Subject: [PATCH 06/66] fix: a restarted master completes the root block it was
 inserting

The hash of the root block under insertion is recorded but was never read
again. After a crash before the broadcast, slaves never got a side block, so
that its first child made the master panic and kept the cluster from starting
again; after a crash before the new head was stored, the master followed a
chain lighter than the heaviest one it had.
---
 cluster/master/backend.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index e0f54a0..25ee4ee 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -297,9 +297,19 @@ func (s *QKCMasterBackend) Init(srvr *p2p.Server) error {
 	}
 	log.Info(s.logInfo, "slave client pool", s.ConnCount())
 
+	committing, err := s.recoverCommittingRootBlock()
+	if err != nil {
+		return err
+	}
 	if err := s.initShards(); err != nil {
 		return err
 	}
+	if committing != nil {
+		if err := s.broadcastRootBlockToSlaves(committing); err != nil {
+			return err
+		}
+		s.rootBlockChain.ClearCommittingHash()
+	}
 
 	s.Heartbeat()
 	return nil
@@ -379,6 +389,25 @@ func (s *QKCMasterBackend) updateShardStatsLoop() {
 	}()
 }
 
+// recoverCommittingRootBlock completes the insertion of a root block during which
+// the master or a slave went down. Slaves may not have the block it returns.
+func (s *QKCMasterBackend) recoverCommittingRootBlock() (*types.RootBlock, error) {
+	hash := s.rootBlockChain.GetCommittingBlockHash()
+	if hash == (common.Hash{}) {
+		return nil, nil
+	}
+	block, ok := s.rootBlockChain.GetBlock(hash).(*types.RootBlock)
+	if !ok || block == nil {
+		// went down before the block was written
+		s.rootBlockChain.ClearCommittingHash()
+		return nil, nil
+	}
+	if _, err := s.rootBlockChain.WriteBlockWithState(block); err != nil {
+		return nil, err
+	}
+	return block, nil
+}
+
 func (s *QKCMasterBackend) broadcastRootBlockToSlaves(block *types.RootBlock) error {
 	var g errgroup.Group
 	for _, client := range s.GetSlaveConns() {
-- 
2.43.0


From 51400dcda17ec0ba997b9915f741014f008ba9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:40 +0000
Subject: [PATCH 07/66] fix: a shard that switches to a block without state
 executes it again

After a restart only few states are on disk. A root block that moved a shard
to another of its blocks failed after the index had been rewritten, which
panics the master and leaves the shard with a head without state.
---
 core/minorblockchain_addon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index d600f1d..a57a005 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1142,6 +1142,12 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		newBlock := m.GetMinorBlock(headerTipHash)
 		log.Warn(m.logInfo+" reWrite", "orig_number", origBlock.Number(), "orig_hash", origBlock.Hash().TerminalString(), "new_number", newBlock.Number(), "new_hash", newBlock.Hash().TerminalString())
 		var err error
+		if _, err = m.StateAt(newBlock.Root()); err != nil {
+			// states of side blocks and of most old blocks do not survive a restart
+			if err = m.reRunBlockWithState(newBlock); err != nil {
+				return false, err
+			}
+		}
 		if err = m.reWriteBlockIndexTo(origBlock, newBlock); err != nil {
 			return false, err
 		}
-- 
2.43.0


From 5f03ef222094f3f0cf941785faee0700f8d97cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:58 +0000
Subject: [PATCH 08/66] fix: rewinding a shard keeps the bodies of the blocks
 it drops

A shard rolls a block back when an RPC to the master fails, and drops
unconfirmed blocks on restart. The master may have seen such a block and have
a root block that confirms it; with the body gone the cluster never starts
again. Only the commit status is dropped, so that the block is executed and
announced again when it comes back.
---
 core/minorblockchain.go       | 5 +++--
 core/minorblockchain_addon.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 25a646f..661de52 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -321,10 +321,11 @@ func (m *MinorBlockChain) SetHead(head uint64) error {
 func (m *MinorBlockChain) setHead(head uint64) error {
 	log.Warn(m.logInfo+" Rewinding blockchain", "target", head)
 	defer log.Warn(m.logInfo+" Rewinding blockchain-end", "target number", head)
-	// Rewind the header chain, deleting all block bodies until then
+	// Rewind the header chain. Block bodies stay: a root block the master already has,
+	// or is about to get, may confirm them.
 	batch := m.db.NewBatch()
 	for block := m.CurrentBlock(); block != nil && block.NumberU64() > head; block = m.CurrentBlock() {
-		rawdb.DeleteMinorBlock(batch, block.Hash())
+		rawdb.DeleteMinorBlockCommitStatus(batch, block.Hash())
 		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, block.NumberU64())
 		m.currentBlock.Store(m.GetMinorBlock(block.ParentHash()))
 	}
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index a57a005..4244eed 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1016,7 +1016,7 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 	for _, mHeader := range rBlock.MinorBlockHeaders() {
 		h := mHeader.Hash()
 		if mHeader.Branch == m.branch {
-			if !m.HasBlock(h) {
+			if m.GetMinorBlock(h) == nil {
 				log.Error(m.logInfo, "add rootBlock err", "block not exist", "height", mHeader.Number, "hash", mHeader.Hash().String(), "blockNumber", rBlock.NumberU64())
 				return false, ErrMinorBlockIsNil
 			}
-- 
2.43.0


From 99b2918fb20c4ef4af2f9f68d501f8dde442cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:41 +0000
Subject: [PATCH 09/66] fix: a heavier but shorter root chain does not end the
 shard's process

Whether a block is an ancestor of the root tip was decided with a fatal log
when the tip is lower, which is what a switch to a heavier, shorter root chain
looks like. The same call judges blocks from peers.
---
 core/common.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/common.go b/core/common.go
index 00cf3c4..40f168c 100644
--- a/core/common.go
+++ b/core/common.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"runtime/debug"
-
 	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/log"
@@ -14,8 +12,8 @@ var (
 
 func isSameChain(getParentHash func(common.Hash) common.Hash, longerChainHeader, shorterChainHeader types.IBlock) bool {
 	if longerChainHeader.NumberU64() < shorterChainHeader.NumberU64() {
-		debug.PrintStack()
-		log.Crit("wrong parameter order", "long.Number", longerChainHeader.NumberU64(), "long.Hash", longerChainHeader.Hash().String(), "short.Number", shorterChainHeader.NumberU64(), "short.hash", shorterChainHeader.Hash().String())
+		// The heaviest chain need not be the longest: a higher block is never its ancestor
+		return false
 	}
 	if shorterChainHeader.NumberU64() == longerChainHeader.NumberU64() {
 		return shorterChainHeader.Hash() == longerChainHeader.Hash()
-- 
2.43.0


From f311eee49831a9fafeb995cc2db5c97058775d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:44 +0000
Subject: [PATCH 10/66] fix: a shard does not drop a block that the root chain
 has confirmed

A lost answer from the master, or a failed announcement to peers, made the shard
rewind a block the master knew already. Once a root block confirmed it, the block
was the shard's head without a commit status and no child could be added any more.
---
 cluster/shard/api_backend.go  | 9 +++++++--
 core/minorblockchain_addon.go | 7 +++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 88bf148..0e71369 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -406,8 +406,9 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	// block has been added to local state, broadcast tip so that peers can sync if needed
 	if currHead.Hash() != s.MinorBlockChain.CurrentBlock().Hash() {
 		if err = s.broadcastNewTip(); err != nil {
-			s.setHead(currHead.Number)
-			return err
+			// the block is committed here and known to the master: missing the
+			// announcement to peers is no reason to drop it
+			log.Error(s.logInfo+" Failed to broadcast new tip", "err", err)
 		}
 	}
 
@@ -528,7 +529,11 @@ func (s *ShardBackend) broadcastNewTip() (err error) {
 	return
 }
 
+// setHead rewinds the shard to head, but never below what the root chain has confirmed.
 func (s *ShardBackend) setHead(head uint64) {
+	if confirmed := s.MinorBlockChain.GetMinorTip(); confirmed != nil && confirmed.NumberU64() > head {
+		head = confirmed.NumberU64()
+	}
 	if err := s.MinorBlockChain.SetHead(head); err != nil {
 		panic(err)
 	}
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 4244eed..db8133a 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1069,6 +1069,13 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		}
 
 	}
+	// A block that a root block confirms is committed, even if the shard missed the
+	// master's answer when it announced the block and dropped the commit status.
+	for _, header := range shardHeaders {
+		if !m.IsMinorBlockCommittedByHash(header.Hash()) {
+			m.CommitMinorBlockByHash(header.Hash())
+		}
+	}
 	m.putRootBlock(rBlock, shardHeader)
 	if shardHeader != nil {
 		if !m.isSameRootChain(rBlock, m.GetRootBlockByHash(shardHeader.PrevRootBlockHash)) {
-- 
2.43.0


From 5d4ccbb79e369798138e7ce723ae65080993ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:01 +0000
Subject: [PATCH 11/66] fix: receipts of a block that causes a reorganisation
 stay readable

The reorganisation asked for the new head's receipts before they were stored and
cached the empty answer.
---
 core/minorblockchain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 661de52..6233d2d 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -618,6 +618,10 @@ func (m *MinorBlockChain) GetReceiptsByHash(hash common.Hash) types.Receipts {
 		return nil
 	}
 	receipts := rawdb.ReadReceipts(m.db, hash)
+	if receipts == nil {
+		// not written yet: a reorganisation asks before the new head's receipts are stored
+		return nil
+	}
 	m.receiptsCache.Add(hash, receipts)
 	return receipts
 }
-- 
2.43.0


From 2d75b04ff95cf33d85d4c83847ce253044a2ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 12/66] fix: a shard created later accepts root blocks with
 headers older than itself

---
 core/minorblockchain_addon.go | 7 +++++--
 core/xshard_tx_cursor.go      | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index db8133a..a5f0c57 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1026,8 +1026,11 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		prevRootBlock := m.GetRootBlockByHash(mHeader.PrevRootBlockHash)
 
 		// prev_root_header can be None when the shard is not created at root height 0
-		t := prevRootBlock.Number()
-		if prevRootBlock == nil || prevRootBlock.Number() == uint32(m.clusterConfig.Quarkchain.GetGenesisRootHeight(m.branch.Value)) || !m.isNeighbor(mHeader.Branch, &t) {
+		var t uint32
+		if prevRootBlock != nil {
+			t = prevRootBlock.Number()
+		}
+		if prevRootBlock == nil || t == uint32(m.clusterConfig.Quarkchain.GetGenesisRootHeight(m.branch.Value)) || !m.isNeighbor(mHeader.Branch, &t) {
 			if data := m.ReadCrossShardTxList(h); data != nil {
 				errXshardListAlreadyHave := errors.New("already have")
 				log.Error(m.logInfo, "addrootBlock err-1", errXshardListAlreadyHave)
diff --git a/core/xshard_tx_cursor.go b/core/xshard_tx_cursor.go
index 875bd69..736bf2c 100644
--- a/core/xshard_tx_cursor.go
+++ b/core/xshard_tx_cursor.go
@@ -132,7 +132,7 @@ func (x *XShardTxCursor) getNextTx() (*types.CrossShardTransactionDeposit, error
 		}
 		// Check if the neighbor has the permission to send tx to local shard
 		prevRootHeader := x.bc.GetRootBlockByHash(mBlockHeader.PrevRootBlockHash)
-		if prevRootHeader.Number() <= x.bc.GetGenesisRootHeight() {
+		if prevRootHeader == nil || prevRootHeader.Number() <= x.bc.GetGenesisRootHeight() {
 			if x.xShardDepositIndex != 0 {
 				return nil, errors.New("should 0")
 			}
-- 
2.43.0


From 959d80edeee444c98c91ee7a8819e1fcfeb7e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:25 +0000
Subject: [PATCH 13/66] fix: a minor block counts as committed only after it
 was distributed and announced

---
 cluster/shard/api_backend.go  | 28 +++++++++++++++++++++++++---
 core/minorblock_validator.go  |  2 +-
 core/minorblockchain.go       | 27 ++++++++++++++-------------
 core/minorblockchain_addon.go |  2 +-
 4 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 0e71369..71afc45 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -356,7 +356,7 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	//TODO support BLOCK_COMMITTING
 	currHead := s.MinorBlockChain.CurrentBlock().Header()
 	log.Debug(s.logInfo, "currHead", currHead.Number)
-	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
+	xshardLst, err := s.insertForDeposits(block)
 	if err != nil {
 		log.Error(s.logInfo+" Failed to add minor block", "err", err, "len", len(xshardLst))
 		return err
@@ -415,13 +415,24 @@ func (s *ShardBackend) AddMinorBlock(block *types.MinorBlock) error {
 	return nil
 }
 
+// insertForDeposits inserts a block and returns the cross-shard transactions it
+// sends. A block that is stored but was never committed is executed once more.
+func (s *ShardBackend) insertForDeposits(block *types.MinorBlock) ([][]*types.CrossShardTransactionDeposit, error) {
+	_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
+	if err != nil || len(xshardLst) == 1 || s.MinorBlockChain.GetMinorBlock(block.Hash()) == nil {
+		return xshardLst, err
+	}
+	_, xshardLst, err = s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, true)
+	return xshardLst, err
+}
+
 // Add blocks in batch to reduce RPCs. Will NOT broadcast to peers.
 //
 // Returns true if blocks are successfully added. False on any error.
 // This function only adds blocks to local and propagate xshard list to other shards.
 // It does NOT notify master because the master should already have the minor header list,
 // and will add them once this function returns successfully.
-func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
+func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) (err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	s.wg.Add(1)
@@ -430,11 +441,22 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 	if len(blockLst) == 0 {
 		return nil
 	}
+	currHead := s.MinorBlockChain.CurrentBlock()
 
 	var (
 		blockHashToXShardList      = make(map[common.Hash]*XshardListTuple)
 		uncommittedBlockHeaderList = make([]*types.MinorBlockHeader, 0, len(blockLst))
 	)
+	defer func() {
+		// do not stay on blocks that the rest of the cluster does not know
+		if err != nil && len(uncommittedBlockHeaderList) > 0 && s.MinorBlockChain.CurrentBlock().Hash() != currHead.Hash() {
+			head := currHead.NumberU64()
+			if parent := uncommittedBlockHeaderList[0].Number - 1; parent < head {
+				head = parent
+			}
+			s.setHead(head)
+		}
+	}()
 	for _, block := range blockLst {
 		blockHash := block.Hash()
 		if block.Branch().Value != s.branch.Value {
@@ -444,7 +466,7 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) error {
 			continue
 		}
 		//TODO:support BLOCK_COMMITTING
-		_, xshardLst, err := s.MinorBlockChain.InsertChainForDeposits([]types.IBlock{block}, false)
+		xshardLst, err := s.insertForDeposits(block)
 		if err != nil {
 			log.Error(s.logInfo+" Failed to add minor block", "err", err)
 			return err
diff --git a/core/minorblock_validator.go b/core/minorblock_validator.go
index b91d3d3..84bcf7a 100644
--- a/core/minorblock_validator.go
+++ b/core/minorblock_validator.go
@@ -91,7 +91,7 @@ func (v *MinorBlockValidator) ValidateBlock(mBlock types.IBlock, force bool) err
 	}
 
 	if !v.bc.HasBlockAndState(block.ParentHash()) {
-		if !v.bc.HasBlock(block.ParentHash()) {
+		if !v.bc.hasStoredBlock(block.ParentHash()) {
 			log.Error(v.logInfo, "parent block do not have", consensus.ErrUnknownAncestor, "parent height", block.NumberU64()-1, "hash", block.ParentHash().String())
 			return consensus.ErrUnknownAncestor
 		}
diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 6233d2d..b389fca 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -541,11 +541,17 @@ func (m *MinorBlockChain) Genesis() *types.MinorBlock {
 	return m.genesisBlock
 }
 
-// HasBlock checks if a block is fully present in the database or not.
+// HasBlock checks if a block is fully present: in the database, with its outgoing
+// cross-shard transactions distributed and its header known to the master.
 func (m *MinorBlockChain) HasBlock(hash common.Hash) bool {
 	return m.IsMinorBlockCommittedByHash(hash)
 }
 
+// hasStoredBlock checks if a block is in the database, committed or not.
+func (m *MinorBlockChain) hasStoredBlock(hash common.Hash) bool {
+	return m.GetMinorBlock(hash) != nil
+}
+
 // HasState checks if state trie is fully present in the database or not.
 func (m *MinorBlockChain) HasState(hash common.Hash) bool {
 	_, err := m.stateCache.OpenTrie(hash)
@@ -556,13 +562,9 @@ func (m *MinorBlockChain) HasState(hash common.Hash) bool {
 // in the database or not, caching it if present.
 func (m *MinorBlockChain) HasBlockAndState(hash common.Hash) bool {
 	// Check first that the block itself is known
-	flag := m.HasBlock(hash)
-	if !flag {
-		return false
-	}
 	block := m.GetMinorBlock(hash)
 	if block == nil {
-		panic("bug fix block can not be nil")
+		return false
 	}
 	return m.HasState(block.GetMetaData().Root)
 }
@@ -830,7 +832,7 @@ func (m *MinorBlockChain) InsertReceiptChain(blockChain []types.IBlock, receiptC
 			return i, fmt.Errorf("containing header #%d [%x…] unknown", block.NumberU64(), block.Hash().Bytes()[:4])
 		}
 		// Skip if the entire data is already known
-		if m.HasBlock(block.Hash()) {
+		if m.hasStoredBlock(block.Hash()) {
 			stats.ignored++
 			continue
 		}
@@ -998,7 +1000,6 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 	if status == CanonStatTy {
 		m.insert(block)
 	}
-	m.CommitMinorBlockByHash(block.Hash())
 	m.futureBlocks.Remove(block.Hash())
 	return status, nil
 }
@@ -1137,8 +1138,9 @@ func (m *MinorBlockChain) insertChain(chain []types.IBlock, verifySeals bool, is
 		return it.index, events, coalescedLogs, xShardList, err
 	}
 
-	// No validation errors for the first block (or chain prefix skipped)
-	for ; !qkcCommon.IsNil(block) && err == nil; block, err = it.next() {
+	// No validation errors for the first block (or chain prefix skipped), or a known
+	// block above the head: import it again
+	for ; !qkcCommon.IsNil(block) && (err == nil || err == ErrKnownBlock); block, err = it.next() {
 		mBlock := block.(*types.MinorBlock)
 		// If the chain is terminating, stop processing blocks
 		if atomic.LoadInt32(&m.procInterrupt) == 1 {
@@ -1263,12 +1265,11 @@ func (m *MinorBlockChain) insertSidechain(it *insertIterator, isCheckDB bool) (i
 			}
 		}
 		externHeight = block.NumberU64()
-		if !m.HasBlock(block.Hash()) {
+		if !m.hasStoredBlock(block.Hash()) {
 			start := time.Now()
 			if err := m.WriteBlockWithoutState(block); err != nil {
 				return it.index, nil, nil, nil, err
 			}
-			m.CommitMinorBlockByHash(block.Hash())
 			log.Debug("Inserted sidechain block", "number", block.NumberU64(), "hash", block.Hash(),
 				"diff", block.IHeader().GetDifficulty(), "elapsed", common.PrettyDuration(time.Since(start)),
 				"txs", len(block.(*types.MinorBlock).GetTransactions()), "gas", block.(*types.MinorBlock).GetMetaData().GasUsed,
@@ -1556,7 +1557,7 @@ func (m *MinorBlockChain) GetHeader(hash common.Hash) types.IHeader {
 // HasHeader checks if a block header is present in the database or not, caching
 // it if present.
 func (m *MinorBlockChain) HasHeader(hash common.Hash, number uint64) bool {
-	return m.HasBlock(hash)
+	return m.hasStoredBlock(hash)
 }
 
 // GetBlockHashesFromHash retrieves a number of block hashes starting at a given
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index a5f0c57..cba84b0 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -134,7 +134,7 @@ func (m *MinorBlockChain) putMinorBlock(mBlock *types.MinorBlock, xShardReceiveT
 			}
 		}
 	}
-	if !m.HasBlock(mBlock.Hash()) {
+	if !m.hasStoredBlock(mBlock.Hash()) {
 		rawdb.WriteMinorBlock(m.db, mBlock)
 		m.blockCache.Add(mBlock.Hash(), mBlock)
 	}
-- 
2.43.0


From 72bec83f87c81bec8f890505fea1f86cd4f1b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:19 +0000
Subject: [PATCH 14/66] fix: minor tips are announced to peers whose root chain
 has less total difficulty

BroadcastNewTip compared root heights although HandleNewMinorTip orders tips
by total difficulty, so a peer last seen on a lighter chain of the same height
or above was not told and kept missing the blocks of the shard.
---
 cluster/master/p2papi.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cluster/master/p2papi.go b/cluster/master/p2papi.go
index da08eb1..d27bd84 100644
--- a/cluster/master/p2papi.go
+++ b/cluster/master/p2papi.go
@@ -48,10 +48,12 @@ func (api *PrivateP2PAPI) BroadcastNewTip(branch uint32, rootBlockHeader *types.
 	}
 	for _, peer := range api.peers.Peers() {
 		if minorTip := peer.MinorHead(branch); minorTip != nil && minorTip.RootBlockHeader != nil {
-			if minorTip.RootBlockHeader.Number > rootBlockHeader.Number {
+			// same order as in HandleNewMinorTip
+			cmp := minorTip.RootBlockHeader.ToTalDifficulty.Cmp(rootBlockHeader.ToTalDifficulty)
+			if cmp > 0 {
 				continue
 			}
-			if minorTip.RootBlockHeader.Number == rootBlockHeader.Number &&
+			if cmp == 0 &&
 				minorTip.MinorBlockHeaderList[0].Number > minorBlockHeaderList[0].Number {
 				continue
 			}
-- 
2.43.0


From 5a4022bee9ea0a34b61ae042dfc6c84eab1077cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:28 +0000
Subject: [PATCH 15/66] fix: root tips are announced and followed by total
 difficulty

The head of the root chain is the block with the greatest total difficulty, but
BroadcastTip and HandleNewRootTip compared heights: a heavier chain that is not
longer was neither announced to nor followed by peers on a longer one.
---
 cluster/master/handle.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 5b92e4a..0953aa2 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -397,7 +397,7 @@ func (pm *ProtocolManager) HandleNewRootTip(tip *p2p.Tip, peer *Peer) error {
 		return fmt.Errorf("root block header changed with same height %d total difficulty %d", tip.RootBlockHeader.NumberU64(), head.ToTalDifficulty)
 	}
 	peer.SetRootHead(tip.RootBlockHeader)
-	if tip.RootBlockHeader.NumberU64() > pm.rootBlockChain.CurrentBlock().NumberU64() {
+	if tip.RootBlockHeader.ToTalDifficulty.Cmp(pm.rootBlockChain.CurrentBlock().TotalDifficulty()) > 0 {
 		err := pm.synchronizer.AddTask(qkcsync.NewRootChainTask(peer, tip.RootBlockHeader, pm.stats, pm.statsChan, pm.slaveConns))
 		if err != nil {
 			log.Error("Failed to add root chain task,", "hash", tip.RootBlockHeader.Hash(), "height", tip.RootBlockHeader.NumberU64())
@@ -636,7 +636,7 @@ func (pm *ProtocolManager) HandleGetMinorBlockListRequest(peerId string, branch
 
 func (pm *ProtocolManager) BroadcastTip(header *types.RootBlockHeader) {
 	for _, peer := range pm.peers.Peers() {
-		if peer.RootHead() != nil && header.Number <= peer.RootHead().Number {
+		if head := peer.RootHead(); head != nil && header.ToTalDifficulty.Cmp(head.ToTalDifficulty) <= 0 {
 			continue
 		}
 		peer.AsyncSendNewTip(0, &p2p.Tip{RootBlockHeader: header, MinorBlockHeaderList: nil})
-- 
2.43.0


From 1b549bc7801f699200c673165e2717d47c6082e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:52 +0000
Subject: [PATCH 16/66] fix: shards choose between root blocks of equal total
 difficulty as the master does

The root chain prefers the lower of two heads with the same total difficulty,
the shards kept the first one, so they stayed on another root block than their
master.
---
 core/minorblockchain_addon.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index cba84b0..89b8f97 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1086,8 +1086,9 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		}
 	}
 
-	// No change to root tip
-	if rBlock.TotalDifficulty().Cmp(m.rootTip.TotalDifficulty()) <= 0 {
+	// No change to root tip: the root chain prefers the lower of two blocks of the same total difficulty
+	cmp := rBlock.TotalDifficulty().Cmp(m.rootTip.TotalDifficulty())
+	if cmp < 0 || cmp == 0 && rBlock.NumberU64() >= m.rootTip.NumberU64() {
 		if !m.isSameRootChain(m.rootTip, m.GetRootBlockByHash(m.CurrentBlock().PrevRootBlockHash())) {
 			return false, ErrNotSameRootChain
 		}
-- 
2.43.0


From dea5d69a27bc4db8a4e9485bcfd98c40dbb2e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:52 +0000
Subject: [PATCH 17/66] fix: a known root block above the head is inserted
 again instead of refused

A side chain that was received only in part could not be completed: inserting
its known blocks, higher than the current head, ended in 'block already known'
and the node never followed the heavier chain.
---
 core/rootblockchain.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 7430554..a5d4ff1 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -620,8 +620,9 @@ func (bc *RootBlockChain) insertChain(chain []types.IBlock, verifySeals bool) (i
 		bc.reportBlock(block, err)
 		return it.index, events, err
 	}
-	// No validation errors for the first block (or chain prefix skipped)
-	for ; block != nil && err == nil; block, err = it.next() {
+	// No validation errors for the first block (or chain prefix skipped), or known
+	// blocks above the head, on a chain that may become the better one
+	for ; block != nil && (err == nil || err == ErrKnownBlock); block, err = it.next() {
 		// If the chain is terminating, stop processing blocks
 		if atomic.LoadInt32(&bc.procInterrupt) == 1 {
 			log.Debug("Premature abort during blocks processing")
@@ -634,7 +635,7 @@ func (bc *RootBlockChain) insertChain(chain []types.IBlock, verifySeals bool) (i
 		if parent == nil {
 			parent = bc.GetBlock(block.ParentHash())
 		}
-		if err != nil {
+		if err != nil && err != ErrKnownBlock {
 			bc.reportBlock(block, err)
 			return it.index, events, err
 		}
-- 
2.43.0


From e693acd3b762f4d14e4f6a1cae4a21ead8126822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 18/66] fix: a peer learns of a head found while it was
 connecting

A root block inserted after the handshake message was sent and before the peer
was registered was announced to everyone but that peer, which then stayed
behind until the next block.
---
 cluster/master/handle.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 0953aa2..38759e5 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -159,11 +159,12 @@ func (pm *ProtocolManager) handle(peer *Peer) error {
 
 	privateKey, _ := p2p.GetPrivateKeyFromConfig(pm.clusterConfig.P2P.PrivKey)
 	id := crypto.FromECDSAPub(&privateKey.PublicKey)
+	head := pm.rootBlockChain.CurrentBlock().Header()
 	if err := peer.Handshake(pm.clusterConfig.Quarkchain.P2PProtocolVersion,
 		pm.networkID,
 		common.BytesToHash(id),
 		uint16(pm.clusterConfig.P2PPort),
-		pm.rootBlockChain.CurrentBlock().Header(),
+		head,
 		pm.rootBlockChain.Genesis().Hash(),
 	); err != nil {
 		return err
@@ -177,6 +178,11 @@ func (pm *ProtocolManager) handle(peer *Peer) error {
 	defer pm.removePeer(peer.id)
 	log.Info(pm.log, "peer add succ id ", peer.PeerID())
 
+	// tips found between the handshake and the registration were not sent to this peer
+	if header := pm.rootBlockChain.CurrentBlock().Header(); header.ToTalDifficulty.Cmp(head.ToTalDifficulty) > 0 {
+		peer.AsyncSendNewTip(0, &p2p.Tip{RootBlockHeader: header})
+	}
+
 	err := pm.synchronizer.AddTask(qkcsync.NewRootChainTask(peer, peer.RootHead(), pm.stats, pm.statsChan, pm.slaveConns))
 	if err != nil {
 		return err
-- 
2.43.0


From 242d1f935ec6ba8212e22874b0552a12bea526cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 19/66] fix: answer GetAllTx with the result, not with the
 request

---
 cluster/slave/slave_grpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/slave/slave_grpc.go b/cluster/slave/slave_grpc.go
index aba890f..fa5be83 100755
--- a/cluster/slave/slave_grpc.go
+++ b/cluster/slave/slave_grpc.go
@@ -304,7 +304,7 @@ func (s *SlaveServerSideOp) GetAllTx(ctx context.Context, req *rpc.Request) (*rp
 		return nil, err
 	}
 
-	if response.Data, err = serialize.SerializeToBytes(gReq); err != nil {
+	if response.Data, err = serialize.SerializeToBytes(gRes); err != nil {
 		return nil, err
 	}
 	return response, nil
-- 
2.43.0


From 39a462f962ec16ee0cc4c2acf0199e903cefb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 20/66] fix: GetHashByHeight returns the hash at the height
 asked for

---
 core/minorblockchain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index b389fca..ccf7625 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -606,6 +606,7 @@ func (m *MinorBlockChain) GetHashByHeight(height *uint64) (common.Hash, error) {
 		if bytes.Equal(common.Hash{}.Bytes(), hash.Bytes()) {
 			return hash, fmt.Errorf("shard %v do no have this  height  %v", m.branch.Value, *height)
 		}
+		return hash, nil
 	}
 	return m.CurrentBlock().Hash(), nil
 }
-- 
2.43.0


From ae116a40c9c43baba52c0a11b923fda739be2602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 21/66] fix: let a transaction-list request carry no token
 filter

---
 cluster/rpc/grpc_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/rpc/grpc_types.go b/cluster/rpc/grpc_types.go
index 68eea11..c7c25df 100755
--- a/cluster/rpc/grpc_types.go
+++ b/cluster/rpc/grpc_types.go
@@ -182,7 +182,7 @@ type GetTransactionReceiptResponse struct {
 
 type GetTransactionListByAddressRequest struct {
 	Address         *account.Address `json:"address" gencodec:"required"`
-	TransferTokenID *uint64          `json:"transfer_token_id" gencodec:"required"`
+	TransferTokenID *uint64          `json:"transfer_token_id" ser:"nil"`
 	Start           []byte           `json:"start" gencodec:"required" bytesizeofslicelen:"4"`
 	Limit           uint32           `json:"limit" gencodec:"required"`
 }
-- 
2.43.0


From 487feb96a04ba497481d5b8b0a1f3a206428f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 22/66] fix: page through the transaction history without
 skipping or repeating

---
 core/minorblockchain_addon.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 89b8f97..ee0e96b 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1582,7 +1582,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 	}
 
 	var (
-		next       = end
+		next       = start
 		txList     = make([]*rpc.TransactionDetail, 0)
 		it         = qkcDB.NewIterator()
 		height     uint64
@@ -1591,9 +1591,9 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		index      uint32
 		txHashes   = make(map[common.Hash]struct{})
 	)
-	it.Seek(end)
+	it.Seek(start)
 	for it.Valid() {
-		if bytes.Compare(it.Key(), start) > 0 {
+		if bytes.Compare(it.Key(), end) > 0 {
 			break
 		}
 		if getTxType == GetTxFromAddress {
@@ -1679,7 +1679,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 			}
 
 		}
-		next = bytesSubOne(it.Key())
+		next = bytesAddOne(it.Key())
 		if limit == 0 {
 			break
 		}
@@ -1696,32 +1696,31 @@ func (m *MinorBlockChain) GetTransactionByAddress(address account.Address, trans
 	if bytes.Equal(start, []byte{1}) { //get pending tx
 		return m.getPendingTxByAddress(address, transferTokenID)
 	}
-	end := make([]byte, 0)
-	end = append(end, addressTxKey...)
+	first := make([]byte, 0)
+	first = append(first, addressTxKey...)
 	tAdd, err := serialize.SerializeToBytes(address.Recipient)
 	if err != nil {
 		panic(err)
 	}
-	end = append(end, tAdd...)
-	originalStartBytes := bytesAddOne(end)
+	first = append(first, tAdd...)
 
-	if len(start) == 0 || bytes.Compare(start, originalStartBytes) > 0 {
-		start = originalStartBytes
+	// a page goes on where the one before it ended
+	if bytes.Compare(start, first) < 0 {
+		start = first
 	}
-	return m.getTransactionDetails(start, end, limit, GetTxFromAddress, false, transferTokenID)
+	return m.getTransactionDetails(start, bytesAddOne(first), limit, GetTxFromAddress, false, transferTokenID)
 }
 
 func (m *MinorBlockChain) GetAllTx(start []byte, limit uint32) ([]*rpc.TransactionDetail, []byte, error) {
 	if !m.clusterConfig.EnableTransactionHistory {
 		return []*rpc.TransactionDetail{}, []byte{}, nil
 	}
-	end := make([]byte, 0)
-	end = append(end, allTxKey...)
-	originalStartBytes := bytesAddOne(end)
-	if len(start) == 0 || bytes.Compare(start, originalStartBytes) > 0 {
-		start = originalStartBytes
+	first := make([]byte, 0)
+	first = append(first, allTxKey...)
+	if bytes.Compare(start, first) < 0 {
+		start = first
 	}
-	return m.getTransactionDetails(start, end, limit, GetAllTransaction, true, nil)
+	return m.getTransactionDetails(start, bytesAddOne(first), limit, GetAllTransaction, true, nil)
 }
 
 func (m *MinorBlockChain) GetLogsByFilterQuery(args *qrpc.FilterQuery) ([]*types.Log, error) {
-- 
2.43.0


From 5be1553f76bc02cbb79c23b22fa22609d8875f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 23/66] fix: show the contract address in receipts of contract
 creations

---
 internal/encoder/encoder.go | 2 +-
 internal/qkcapi/api.go      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/encoder.go b/internal/encoder/encoder.go
index 90d1a6a..8556160 100644
--- a/internal/encoder/encoder.go
+++ b/internal/encoder/encoder.go
@@ -444,7 +444,7 @@ func ReceiptEncoder(block *types.MinorBlock, i int, receipt *types.Receipt) (map
 		"logs":              LogListEncoder(receipt.Logs, false),
 		"timestamp":         hexutil.Uint64(block.Time()),
 	}
-	if receipt.ContractAddress != (ethCommon.Address{}) {
+	if receipt.ContractAddress == (ethCommon.Address{}) {
 		field["contractAddress"] = nil
 	} else {
 		addr := account.Address{
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index cc8bc5a..fd2d60c 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -82,7 +82,10 @@ func (c *CommonAPI) GetTransactionReceipt(txID hexutil.Bytes) (map[string]interf
 		return nil, nil
 	}
 	ret, err := encoder.ReceiptEncoder(minorBlock, int(index), receipt)
-	if receipt.ContractAddress != (common.Address{}) {
+	if err != nil {
+		return nil, err
+	}
+	if receipt.ContractAddress == (common.Address{}) {
 		ret["contractAddress"] = nil
 	} else {
 		ret["contractAddress"] = account.Address{
-- 
2.43.0


From 83e9d0d9c6844eee7598c994ebf72c50b4c4257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 24/66] fix: use the cursor of getAllTransaction as it was
 given out

---
 internal/qkcapi/api.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index fd2d60c..80ecbaf 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -503,10 +503,7 @@ func (p *PublicBlockChainAPI) GetAllTransaction(fullShardKey hexutil.Uint, start
 		limitValue = uint32(10)
 	)
 	if start != nil {
-		startValue, err = start.MarshalText()
-		if err != nil {
-			return nil, err
-		}
+		startValue = *start
 	}
 
 	if limit != nil {
-- 
2.43.0


From e39b792d363e6261ab61bd9ab8a713e4c36550ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 25/66] fix: report the error of a log query instead of no logs

---
 internal/qkcapi/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index 80ecbaf..5434d1f 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -117,6 +117,9 @@ func (c *CommonAPI) GetLogs(args *rpc.FilterQuery, fullShardKey *hexutil.Uint) (
 	args.FullShardId = fullShardID
 
 	logs, err := c.b.GetLogs(args)
+	if err != nil {
+		return nil, err
+	}
 	return encoder.LogListEncoder(logs, false), nil
 }
 
-- 
2.43.0


From 3a65a4b10856e2bcbed1f8ddb0ce5dea1d2c7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 26/66] fix: follow a fork whose stored blocks lost their
 states

---
 core/minorblockchain.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index ccf7625..aed5221 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1049,6 +1049,11 @@ func (m *MinorBlockChain) InsertChainForDeposits(chain []types.IBlock, isCheckDB
 	// Pre-checks passed, start the full block imports
 	m.wg.Add(1)
 	m.chainmu.Lock()
+	if err := m.recoverState(chain[0].ParentHash()); err != nil {
+		m.chainmu.Unlock()
+		m.wg.Done()
+		return 0, nil, err
+	}
 	n, events, logs, xShardList, err := m.insertChain(chain, true, isCheckDB)
 	m.chainmu.Unlock()
 	m.wg.Done()
@@ -1066,6 +1071,22 @@ func (m *MinorBlockChain) InsertChainForDeposits(chain []types.IBlock, isCheckDB
 	return n, xShardList, err
 }
 
+// recoverState executes a stored block and its ancestors again if their states
+// are gone, be it by pruning or because they were only in memory at the last
+// stop: a block on top of it can not be validated without. The chain mutex is held.
+func (m *MinorBlockChain) recoverState(hash common.Hash) error {
+	var lost []types.IBlock
+	for block := m.GetMinorBlock(hash); block != nil && !m.HasState(block.Root()); block = m.GetMinorBlock(block.ParentHash()) {
+		lost = append(lost, block)
+	}
+	for i := len(lost) - 1; i >= 0; i-- {
+		if _, _, _, _, err := m.insertChain(lost[i:i+1], false, false); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // insertChain is the internal implementation of insertChain, which assumes that
 // 1) chains are contiguous, and 2) The chain mutex is held.
 //
-- 
2.43.0


From 4f9edd48f49911fb8619157846434e1f6f0dc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 27/66] fix: show the gas a transaction used, not a difference
 that underflows

---
 internal/encoder/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/encoder.go b/internal/encoder/encoder.go
index 8556160..61347fb 100644
--- a/internal/encoder/encoder.go
+++ b/internal/encoder/encoder.go
@@ -439,7 +439,7 @@ func ReceiptEncoder(block *types.MinorBlock, i int, receipt *types.Receipt) (map
 		"blockHeight":       hexutil.Uint64(header.Number),
 		"blockNumber":       hexutil.Uint64(header.Number),
 		"cumulativeGasUsed": hexutil.Uint64(receipt.CumulativeGasUsed),
-		"gasUsed":           hexutil.Uint64(receipt.GasUsed - receipt.GetPrevGasUsed()),
+		"gasUsed":           hexutil.Uint64(receipt.GasUsed),
 		"status":            hexutil.Uint64(receipt.Status),
 		"logs":              LogListEncoder(receipt.Logs, false),
 		"timestamp":         hexutil.Uint64(block.Time()),
-- 
2.43.0


From 58e410f2714a0b2d8d5c346501a1ad23a5f92ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 28/66] fix: refuse root blocks too far in the future

Nothing on the root path compared a block's time with the clock, so a root
block of any later time was accepted, and its time then set the difficulty of
its successor. Apply the bound that minor blocks already have.
---
 core/rootblock_validator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/rootblock_validator.go b/core/rootblock_validator.go
index 3968d18..781256b 100644
--- a/core/rootblock_validator.go
+++ b/core/rootblock_validator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math/big"
 	"reflect"
+	"time"
 
 	"github.com/QuarkChain/goquarkchain/cluster/config"
 	"github.com/QuarkChain/goquarkchain/consensus"
@@ -74,6 +75,10 @@ func (v *RootBlockValidator) ValidateBlock(block types.IBlock, force bool) error
 			mheaderHash.String())
 	}
 
+	if header.Time > uint64(time.Now().Unix())+ALLOWED_FUTURE_BLOCKS_TIME_VALIDATION {
+		return fmt.Errorf("block too far into future, block time %d", header.Time)
+	}
+
 	if header.Root != types.EmptyTrieHash {
 		return errors.New("incorrect evm state root")
 	}
-- 
2.43.0


From 166eb858a731e6d2aeb94430f7baf240beb4aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:56 +0000
Subject: [PATCH 29/66] fix: refuse a cross-shard transaction to a shard not
 started at the block's root block

validateTx compares with the root tip, while the transfers are handed out by
the root block the minor block refers to. A block that refers to an older root
block passed validation and then every slave that added it panicked.
---
 core/state_processor.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/state_processor.go b/core/state_processor.go
index 15d4cb7..4b70d6e 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -79,6 +79,9 @@ func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB
 		if err != nil {
 			return nil, nil, 0, err
 		}
+		if err := p.validateDestination(block, evmTx); err != nil {
+			return nil, nil, 0, err
+		}
 		statedb.Prepare(tx.Hash(), block.Hash(), i)
 		_, receipt, _, err := ApplyTransaction(p.config, p.bc, gp, statedb, header, evmTx, usedGas, cfg)
 		if err != nil {
@@ -98,6 +101,25 @@ func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB
 	return receipts, allLogs, *usedGas, nil
 }
 
+// validateDestination refuses a cross-shard transaction to a shard that is not
+// initialized at the root block the minor block refers to: the root tip, which
+// validateTx goes by, may be later.
+func (p *StateProcessor) validateDestination(block *types.MinorBlock, tx *types.Transaction) error {
+	if !tx.EvmTx.IsCrossShard() {
+		return nil
+	}
+	prevRootBlock := p.bc.GetRootBlockByHash(block.PrevRootBlockHash())
+	if prevRootBlock == nil {
+		return ErrRootBlockIsNil
+	}
+	for _, id := range p.bc.clusterConfig.Quarkchain.GetInitializedShardIdsBeforeRootHeight(prevRootBlock.Number()) {
+		if id == tx.EvmTx.ToFullShardId() {
+			return nil
+		}
+	}
+	return errors.New("shard is not initialized yet")
+}
+
 // ValidateTransaction validateTx before applyTx
 func ValidateTransaction(state vm.StateDB, chainConfig *params.ChainConfig, tx *types.Transaction, fromAddress *account.Address) error {
 	from := new(account.Recipient)
-- 
2.43.0


From 79ff6d5746bf601896bd20fef45ef71b89b4335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:21 +0000
Subject: [PATCH 30/66] fix: return to the former head when a synced batch
 fails

AddBlockListForSync went back only to the point where the batch had left the
shard's chain, so a peer could offer a longer fork that ends in an invalid
block and the shard lost the blocks of its own chain above the fork.
---
 cluster/shard/api_backend.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 71afc45..07c38ba 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -454,7 +454,16 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) (err er
 			if parent := uncommittedBlockHeaderList[0].Number - 1; parent < head {
 				head = parent
 			}
+			var old []types.IBlock
+			for b := currHead; b != nil && b.NumberU64() > head; b = s.MinorBlockChain.GetMinorBlock(b.ParentHash()) {
+				old = append([]types.IBlock{b}, old...)
+			}
 			s.setHead(head)
+			if len(old) != 0 && s.MinorBlockChain.CurrentBlock().Hash() == old[0].ParentHash() {
+				if _, _, e := s.MinorBlockChain.InsertChainForDeposits(old, false); e != nil {
+					log.Error(s.logInfo+" Failed to return to the former head", "err", e)
+				}
+			}
 		}
 	}()
 	for _, block := range blockLst {
-- 
2.43.0


From 2b1874ebcf817386bf1640b90be3f17625b0d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:19 +0000
Subject: [PATCH 31/66] fix: no panic on a peer message of unknown kind

P2PCommandOp.String forgot to return the number of an unknown operation and
called Name on a nil type; handleMsg calls it for every message, so one byte
from a peer stopped the master.
---
 p2p/p2p_commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 786742a..66309c5 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -68,7 +68,7 @@ var OPSerializerMap = map[P2PCommandOp]interface{}{
 
 func (p P2PCommandOp) String() string {
 	if _, ok := OPSerializerMap[p]; !ok {
-		strconv.Itoa(int(p))
+		return strconv.Itoa(int(p))
 	}
 	return reflect.TypeOf(OPSerializerMap[p]).Name()
 }
-- 
2.43.0


From 82b3483f3e90c0dba59545a9a5ecba89a14550d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:19 +0000
Subject: [PATCH 32/66] fix: a peer cannot stop the master with an unexpected
 message

NewRootBlockMsg, and an answer of another kind than was asked for, made the
master panic. A minor request that failed was answered with an empty message
besides.
---
 cluster/master/handle.go |  5 ++++-
 cluster/master/peer.go   | 10 +++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 38759e5..1e21acc 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -329,6 +329,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 			resp, err := pm.HandleGetMinorBlockHeaderListRequest(qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
 				peer.handleMsgErr = err
+				return
 			}
 
 			err = peer.SendResponseWithData(p2p.GetMinorBlockHeaderListResponseMsg, p2p.Metadata{Branch: qkcMsg.MetaData.Branch}, qkcMsg.RpcID, resp)
@@ -349,6 +350,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 			resp, err := pm.HandleGetMinorBlockListRequest(peer.id, qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
 				peer.handleMsgErr = err
+				return
 			}
 			err = peer.SendResponseWithData(p2p.GetMinorBlockListResponseMsg, p2p.Metadata{Branch: qkcMsg.MetaData.Branch}, qkcMsg.RpcID, resp)
 			if err != nil {
@@ -364,13 +366,14 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}
 
 	case qkcMsg.Op == p2p.NewRootBlockMsg:
-		panic("not implemented")
+		return errors.New("NewRootBlockMsg is not supported")
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
 		go func() {
 			resp, err := pm.HandleGetMinorBlockHeaderListWithSkipRequest(peer.id, qkcMsg.MetaData.Branch, qkcMsg.Data)
 			if err != nil {
 				peer.handleMsgErr = err
+				return
 			}
 			err = peer.SendResponseWithData(p2p.GetMinorBlockHeaderListWithSkipResponseMsg, p2p.Metadata{Branch: qkcMsg.MetaData.Branch}, qkcMsg.RpcID, resp)
 			if err != nil {
diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index f6fa80a..33149e6 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -306,7 +306,7 @@ func (p *Peer) GetRootBlockHeaderList(req *p2p.GetRootBlockHeaderListWithSkipReq
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.(*p2p.GetRootBlockHeaderListResponse); !ok {
-			panic("invalid return result in GetRootBlockHeaderList")
+			return nil, errors.New("invalid return result in GetRootBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -343,7 +343,7 @@ func (p *Peer) GetMinorBlockHeaderListWithSkip(req *rpc.P2PRedirectRequest) (res
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -365,7 +365,7 @@ func (p *Peer) GetMinorBlockHeaderList(req *rpc.P2PRedirectRequest) (res []byte,
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -398,7 +398,7 @@ func (p *Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]*types.RootBlock); !ok {
-			panic("invalid return result in GetRootBlockList")
+			return nil, errors.New("invalid return result in GetRootBlockList")
 		} else {
 			return ret, nil
 		}
@@ -433,7 +433,7 @@ func (p *Peer) GetMinorBlockList(req *rpc.P2PRedirectRequest) ([]byte, error) {
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockList")
+			return nil, errors.New("invalid return result in GetMinorBlockList")
 		} else {
 			return ret, nil
 		}
-- 
2.43.0


From d12ba269f778fea3963b6868b09abfc77a3df5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:19 +0000
Subject: [PATCH 33/66] fix: a repeated answer does not block a peer's handler
 for ever

The channel for an answer has room for one. A second answer to the same
request blocked the goroutine that reads from the peer until the process
ended, and with it the peer's slot and the shutdown.
---
 cluster/master/handle.go | 12 ++++++------
 cluster/master/peer.go   | 10 ++++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 1e21acc..24378bf 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -272,7 +272,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockHeaderResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
+		if c := peer.takeChan(qkcMsg.RpcID); c != nil {
 			c <- &blockHeaderResp
 		} else {
 			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
@@ -296,7 +296,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &blockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
+		if c := peer.takeChan(qkcMsg.RpcID); c != nil {
 			c <- blockResp.RootBlockList
 		} else {
 			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
@@ -318,7 +318,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		if err := serialize.DeserializeFromBytes(qkcMsg.Data, &minorBlockResp); err != nil {
 			return err
 		}
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
+		if c := peer.takeChan(qkcMsg.RpcID); c != nil {
 			c <- &minorBlockResp
 		} else {
 			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
@@ -339,7 +339,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
+		if c := peer.takeChan(qkcMsg.RpcID); c != nil {
 			c <- qkcMsg.Data
 		} else {
 			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
@@ -359,7 +359,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockListResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
+		if c := peer.takeChan(qkcMsg.RpcID); c != nil {
 			c <- qkcMsg.Data
 		} else {
 			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
@@ -382,7 +382,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}()
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipResponseMsg:
-		if c := peer.getChan(qkcMsg.RpcID); c != nil {
+		if c := peer.takeChan(qkcMsg.RpcID); c != nil {
 			c <- qkcMsg.Data
 		} else {
 			log.Warn(fmt.Sprintf("chan for rpc %d is missing", qkcMsg.RpcID))
diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index 33149e6..6c1265e 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -259,6 +259,16 @@ func (p *Peer) getChan(rpcId uint64) chan interface{} {
 	return p.chans[rpcId]
 }
 
+// takeChan returns the channel for the answer to a request, once: it has room
+// for one answer, and whoever asked takes one.
+func (p *Peer) takeChan(rpcId uint64) chan interface{} {
+	p.chanLock.Lock()
+	defer p.chanLock.Unlock()
+	rpcchan := p.chans[rpcId]
+	delete(p.chans, rpcId)
+	return rpcchan
+}
+
 func (p *Peer) addChan(rpcId uint64, rpcchan chan interface{}) {
 	p.chanLock.Lock()
 	defer p.chanLock.Unlock()
-- 
2.43.0


From c15f63a9e3292615fd1694146ea690cfbaead8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 34/66] fix: addTxs reports each error for the transaction it
 belongs to

---
 core/tx_pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 3d51844..4c995ef 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -665,6 +665,7 @@ func (pool *TxPool) addTxs(txs []*types.Transaction, local, sync bool) []error {
 			nilSlot++
 		}
 		errs[nilSlot] = err
+		nilSlot++
 	}
 	// Reorg the pool internals if needed and return
 	done := pool.requestPromoteExecutables(dirtyAddrs)
-- 
2.43.0


From 1c749fa0e4813830aeda2085d56ec1c7c41a1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 35/66] fix: the pool checks the cost of a transaction token by
 token

---
 core/tx_list.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/core/tx_list.go b/core/tx_list.go
index 442965f..b329ed1 100644
--- a/core/tx_list.go
+++ b/core/tx_list.go
@@ -263,8 +263,10 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	// Otherwise overwrite the old transaction with the current one
 	l.txs.Put(tx)
 
-	if cost := tx.EvmTx.Cost(); l.cmpCostCapValue(tx.EvmTx.TransferTokenID(), cost) < 0 {
-		l.costcap[tx.EvmTx.TransferTokenID()] = cost
+	for token, cost := range txCosts(tx) {
+		if l.cmpCostCapValue(token, cost) < 0 {
+			l.costcap[token] = cost
+		}
 	}
 	if gas := tx.EvmTx.Gas(); l.gascap < gas {
 		l.gascap = gas
@@ -272,6 +274,31 @@ func (l *txList) Add(tx *types.Transaction, priceBump uint64) (bool, *types.Tran
 	return true, old
 }
 
+// txCosts returns what a transaction needs of each token.
+func txCosts(tx *types.Transaction) map[uint64]*big.Int {
+	if tx.EvmTx.GasTokenID() == tx.EvmTx.TransferTokenID() {
+		return map[uint64]*big.Int{tx.EvmTx.TransferTokenID(): tx.EvmTx.Cost()}
+	}
+	return map[uint64]*big.Int{
+		tx.EvmTx.TransferTokenID(): tx.EvmTx.Value(),
+		tx.EvmTx.GasTokenID():      new(big.Int).Sub(tx.EvmTx.Cost(), tx.EvmTx.Value()),
+	}
+}
+
+// covers returns whether the balances suffice for the costs, token by token.
+func covers(balances, costs map[uint64]*big.Int) bool {
+	for token, cost := range costs {
+		balance := balances[token]
+		if balance == nil {
+			balance = new(big.Int)
+		}
+		if cost.Cmp(balance) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func (l *txList) cmpCostCapValue(token uint64, balance *big.Int) int {
 	if l.costcap[token] == nil {
 		l.costcap[token] = new(big.Int)
@@ -297,10 +324,8 @@ func (l *txList) Forward(threshold uint64) types.Transactions {
 // the newly invalidated transactions.
 func (l *txList) Filter(costLimit map[uint64]*big.Int, gasLimit uint64) (types.Transactions, types.Transactions) {
 	// If all transactions are below the threshold, short circuit
-	for token, bal := range costLimit {
-		if l.cmpCostCapValue(token, bal) <= 0 && l.gascap <= gasLimit {
-			return nil, nil
-		}
+	if l.gascap <= gasLimit && covers(costLimit, l.costcap) {
+		return nil, nil
 	}
 
 	l.costcap = costLimit // Lower the caps to the thresholds
@@ -308,10 +333,7 @@ func (l *txList) Filter(costLimit map[uint64]*big.Int, gasLimit uint64) (types.T
 
 	// Filter out all the transactions above the account's funds
 	removed := l.txs.Filter(func(tx *types.Transaction) bool {
-		if costLimit[tx.EvmTx.TransferTokenID()] == nil {
-			costLimit[tx.EvmTx.TransferTokenID()] = new(big.Int)
-		}
-		return tx.EvmTx.Cost().Cmp(costLimit[tx.EvmTx.TransferTokenID()]) > 0 || tx.EvmTx.Gas() > gasLimit
+		return tx.EvmTx.Gas() > gasLimit || !covers(costLimit, txCosts(tx))
 	})
 
 	// If the list was strict, filter anything above the lowest nonce
-- 
2.43.0


From 1abc800c76e3afa33108495c48dda5bca4fbd32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 36/66] fix: a transaction left out of a block template leaves
 no trace in its state

---
 core/minorblockchain_addon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index ee0e96b..d07f05a 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -847,7 +847,13 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 
 		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
+		snapshot, gasLeft := stateT.Snapshot(), *gp
 		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		if err != nil {
+			// a transaction that is left out leaves no trace in the block's state
+			stateT.RevertToSnapshot(snapshot)
+			*gp = gasLeft
+		}
 		switch err {
 		case ErrGasLimitReached:
 			txs.Pop()
-- 
2.43.0


From 58dcbec8b385ddfe849f032a283a56e562b6f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:36 +0000
Subject: [PATCH 37/66] fix: the pool follows a head that a root block moved

---
 core/minorblockchain_addon.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index d07f05a..bef36d9 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1172,6 +1172,7 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		m.chainHeadFeed.Send(MinorChainHeadEvent{newBlock}) // the pool follows the head
 	}
 	return true, nil
 }
-- 
2.43.0


From c01eebff8de597bad4fd63d8baa667236230651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:31 +0000
Subject: [PATCH 38/66] fix: block counts of a replaced root block are cleared

---
 core/rootblockchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index a5d4ff1..b662145 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1357,6 +1357,11 @@ func (bc *RootBlockChain) PutRootBlockIndex(block *types.RootBlock) error {
 		blockID := encoder.IDEncoder(header.Hash().Bytes(), fullShardID)
 		bc.PutRootBlockConfirmingMinorBlock(blockID, block.Hash())
 	}
+	for _, fullShardID := range bc.chainConfig.GetInitializedShardIdsBeforeRootHeight(block.Number()) {
+		if _, ok := shardRecipientCnt[fullShardID]; !ok {
+			rawdb.WriteMinorBlockCnt(bc.db, fullShardID, block.Number(), nil) // clear what a replaced block left here
+		}
+	}
 	for fullShardID, infoList := range shardRecipientCnt {
 		dataToDb := new(account.CoinbaseStatses)
 		for addr, count := range infoList {
-- 
2.43.0


From 90724d805600cd4a891a7425e94b93a2404331d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:31 +0000
Subject: [PATCH 39/66] fix: the pool follows a shard whose genesis block was
 replaced

---
 core/tx_pool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 4c995ef..b02e342 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -997,7 +997,9 @@ func (pool *TxPool) reset(oldBlock, newBlock *types.MinorBlock) {
 					return
 				}
 			}
-			for rem.Hash() != add.Hash() {
+			// two chains of a shard meet at a genesis block at the latest, and it is another one
+			// when the root block it was made from was replaced
+			for rem.Hash() != add.Hash() && rem.NumberU64() > 0 {
 				discarded = append(discarded, rem.Transactions()...)
 				if rem = pool.chain.GetMinorBlock(rem.ParentHash()); rem == nil {
 					log.Error("Unrooted old chain seen by tx pool", "block", oldHead.Number, "hash", oldHead.Hash())
-- 
2.43.0


From 4056f6b669088c730f9841f84f3b925b3610be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 40/66] fix: the pool postpones transactions behind a gap an
 undone block left

---
 core/tx_pool.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index b02e342..fd40a70 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -1249,9 +1249,13 @@ func (pool *TxPool) demoteUnexecutables() {
 			pool.enqueueTx(hash, tx)
 		}
 
-		// If there's a gap in front, alert (should never happen) and postpone all transactions
-		if list.Len() > 0 && list.txs.Get(nonce) == nil {
-			gapped := list.Cap(0)
+		// Postpone the transactions behind a gap, which is there when one of an undone block was not taken back
+		executable := 0
+		for list.txs.Get(nonce+uint64(executable)) != nil {
+			executable++
+		}
+		if list.Len() > executable {
+			gapped := list.Cap(executable)
 			for _, tx := range gapped {
 				hash := tx.Hash()
 				log.Error("Demoting invalidated transaction", "hash", hash)
-- 
2.43.0


From 9a0077cbb496d9db54cf018063387793d047e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 41/66] fix: a root block template leaves out headers of
 another root chain

---
 cluster/master/backend.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index 25ee4ee..3e5b136 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -466,6 +466,15 @@ func checkPing(slaveConn rpc.ISlaveConn, id []byte, chainMaskList []uint32) erro
 	return nil
 }
 
+func (s *QKCMasterBackend) isOnRootChain(hash common.Hash) bool {
+	header := s.rootBlockChain.GetHeader(hash)
+	if header == nil {
+		return false
+	}
+	canonical := s.rootBlockChain.GetHeaderByNumber(header.NumberU64())
+	return canonical != nil && canonical.Hash() == hash
+}
+
 func (s *QKCMasterBackend) createRootBlockToMine(address account.Address) (*types.RootBlock, error) {
 	var (
 		g     errgroup.Group
@@ -502,6 +511,9 @@ func (s *QKCMasterBackend) createRootBlockToMine(address account.Address) (*type
 				if !s.rootBlockChain.IsMinorBlockValidated(header.Hash()) {
 					break
 				}
+				if !s.isOnRootChain(header.PrevRootBlockHash) {
+					break // the shard has yet to follow a root chain reorganisation
+				}
 				fullShardIDToHeaderList[headersInfo.Branch] = append(fullShardIDToHeaderList[headersInfo.Branch], header)
 			}
 		}
-- 
2.43.0


From 2c463b15daec3703d2d7dac5d9274b9a88d94fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 42/66] fix: switching mining off does not lock the miner up,
 and no work is left for a former tip

---
 cluster/miner/miner.go | 66 ++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/cluster/miner/miner.go b/cluster/miner/miner.go
index 2d556a5..5c754c5 100644
--- a/cluster/miner/miner.go
+++ b/cluster/miner/miner.go
@@ -4,6 +4,7 @@ import (
 	"math/big"
 	"runtime"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/QuarkChain/goquarkchain/account"
@@ -28,6 +29,7 @@ type workAdjusted struct {
 	block              types.IBlock
 	adjustedDifficulty *big.Int
 	optionalDivider    uint64
+	tips               uint64 // Miner.tips before the block was created
 }
 
 type Miner struct {
@@ -43,6 +45,7 @@ type Miner struct {
 	isMining bool
 	stopCh   chan struct{}
 	logInfo  string
+	tips     uint64 // how often the tip has changed
 }
 
 func New(ctx *service.ServiceContext, api MinerAPI, engine consensus.Engine) *Miner {
@@ -78,6 +81,15 @@ func (m *Miner) interrupt() {
 	}
 }
 
+// restart makes commitLoop create new work. One request that waits is enough, and
+// commitLoop itself gets here: never wait for it.
+func (m *Miner) restart() {
+	select {
+	case m.startCh <- struct{}{}:
+	default:
+	}
+}
+
 func (m *Miner) allowMining() bool {
 	if !m.IsMining() ||
 		time.Now().Sub(m.ctx.GetTimestamp()).Seconds() > deadtime {
@@ -90,29 +102,30 @@ func (m *Miner) commit(addr *account.Address) {
 	// don't allow to mine
 	if m.api.IsSyncing() {
 		time.Sleep(500 * time.Millisecond)
-		m.startCh <- struct{}{}
+		m.restart()
 		return
 	}
 	if !m.allowMining() {
 		return
 	}
 	m.interrupt()
+	tips := atomic.LoadUint64(&m.tips)
 	block, diff, optionalDivider, err := m.api.CreateBlockToMine(addr)
 	if err != nil {
 		log.Error(m.logInfo, "create block to mine err", err)
 		// retry to create block to mine
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.restart()
 		return
 	}
 	tip := m.getTip()
 	if block.NumberU64() <= tip {
 		log.Error(m.logInfo, "block's height small than tipHeight after commit blockNumber ,no need to seal", block.NumberU64(), "tip", m.getTip())
 		time.Sleep(2 * time.Second)
-		m.startCh <- struct{}{}
+		m.restart()
 		return
 	}
-	m.workCh <- workAdjusted{block, diff, optionalDivider}
+	m.workCh <- workAdjusted{block, diff, optionalDivider, tips}
 }
 
 func (m *Miner) commitLoop() {
@@ -129,19 +142,30 @@ func (m *Miner) commitLoop() {
 	}
 }
 
+func (m *Miner) seal(work workAdjusted) {
+	m.mu.RLock()
+	stopCh := m.stopCh
+	m.mu.RUnlock()
+	coinbase := work.block.Coinbase()
+	if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, stopCh); err != nil {
+		log.Error(m.logInfo, "Seal block to mine err", err)
+		m.commit(&coinbase)
+		return
+	}
+	if atomic.LoadUint64(&m.tips) != work.tips {
+		// the tip has changed meanwhile: do not leave work for the former one
+		m.engine.GetWork(coinbase) // the engine has taken the work over when it answers
+		m.engine.RefreshWork(m.getTip())
+	}
+}
+
 func (m *Miner) sealLoop() {
 
 	for {
 		select {
 		case work := <-m.workCh: // to discuss:need this?
 			log.Debug(m.logInfo, "ready to seal height", work.block.NumberU64(), "coinbase", work.block.Coinbase().ToHex())
-			m.mu.Lock()
-			if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, m.stopCh); err != nil {
-				log.Error(m.logInfo, "Seal block to mine err", err)
-				coinbase := work.block.Coinbase()
-				m.commit(&coinbase)
-			}
-			m.mu.Unlock()
+			m.seal(work)
 
 		case <-m.exitCh:
 			log.Error("sealLoop exit")
@@ -180,10 +204,10 @@ func (m *Miner) Stop() {
 // TODO when p2p is syncing block how to stop miner.
 func (m *Miner) SetMining(mining bool) {
 	m.mu.Lock()
-	defer m.mu.Unlock()
 	m.isMining = mining
+	m.mu.Unlock()
 	if mining {
-		m.startCh <- struct{}{}
+		m.restart()
 	} else {
 		m.interrupt()
 	}
@@ -198,17 +222,10 @@ func (m *Miner) GetWork(coinbaseAddr *account.Address) (*consensus.MiningWork, e
 	work, err := m.engine.GetWork(addrForGetWork)
 	if err != nil {
 		if err == consensus.ErrNoMiningWork {
+			tips := atomic.LoadUint64(&m.tips)
 			block, diff, optionalDivider, err := m.api.CreateBlockToMine(&addrForGetWork)
 			if err == nil {
-				work := workAdjusted{block, diff, optionalDivider}
-				go func() {
-					if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider,
-						m.resultCh, m.stopCh); err != nil {
-						log.Error(m.logInfo, "Seal block to mine err", err)
-						coinbase := work.block.Coinbase()
-						m.commit(&coinbase)
-					}
-				}()
+				go m.seal(workAdjusted{block, diff, optionalDivider, tips})
 				return &consensus.MiningWork{HeaderHash: block.IHeader().SealHash(), Number: block.NumberU64(),
 					OptionalDivider: optionalDivider, Difficulty: diff}, nil
 			}
@@ -228,10 +245,9 @@ func (m *Miner) SubmitWork(nonce uint64, hash, digest common.Hash, signature *[6
 
 func (m *Miner) HandleNewTip() {
 	log.Debug(m.logInfo, "handle new tip: height", m.getTip())
+	atomic.AddUint64(&m.tips, 1)
 	m.engine.RefreshWork(m.api.GetTip())
-	if m.api.IsSyncing() == false {
-		m.startCh <- struct{}{}
-	}
+	m.restart()
 }
 
 func (m *Miner) IsMining() bool {
-- 
2.43.0


From 55166b0e9525497970170d8c16cd508a44af27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 43/66] fix: remote work handed out again after a refresh is
 accepted

---
 consensus/remote.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/consensus/remote.go b/consensus/remote.go
index 6e484e3..1913cea 100644
--- a/consensus/remote.go
+++ b/consensus/remote.go
@@ -55,10 +55,6 @@ func (c *CommonEngine) remote() {
 
 	makeWork := func(block types.IBlock, adjustedDiff *big.Int, optionalDivider uint64) {
 		hash := block.IHeader().SealHash()
-		if works.Contains(hash) {
-			return
-		}
-
 		diff := block.IHeader().GetDifficulty()
 		if adjustedDiff != nil {
 			diff = adjustedDiff
-- 
2.43.0


From 1e204c70e8b64c065b15bf71c697523801aae787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 44/66] fix: mining follows a head moved by sync or by a root
 block

---
 cluster/shard/api_backend.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 07c38ba..373c034 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -198,7 +198,12 @@ func (s *ShardBackend) AddRootBlock(rBlock *types.RootBlock) (switched bool, err
 	defer s.wg.Done()
 	switched = false
 	if rBlock.Number() > s.genesisRootHeight {
+		head, rootTip := s.MinorBlockChain.CurrentBlock().Hash(), s.MinorBlockChain.GetRootTip().Hash()
 		switched, err = s.MinorBlockChain.AddRootBlock(rBlock)
+		newRootTip := s.MinorBlockChain.GetRootTip()
+		if s.MinorBlockChain.CurrentBlock().Hash() != head || newRootTip.Hash() != rootTip && newRootTip.ParentHash() != rootTip {
+			go s.miner.HandleNewTip() // work for another head or root chain is of no use any more
+		}
 	}
 	if rBlock.Number() == s.genesisRootHeight {
 		err = s.initGenesisState(rBlock)
@@ -442,6 +447,11 @@ func (s *ShardBackend) AddBlockListForSync(blockLst []*types.MinorBlock) (err er
 		return nil
 	}
 	currHead := s.MinorBlockChain.CurrentBlock()
+	defer func() {
+		if s.MinorBlockChain.CurrentBlock().Hash() != currHead.Hash() {
+			go s.miner.HandleNewTip()
+		}
+	}()
 
 	var (
 		blockHashToXShardList      = make(map[common.Hash]*XshardListTuple)
-- 
2.43.0


From fd94a021c39664874aa7bb6ec4af95e074e7c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 45/66] fix: shards that start later mine too

---
 cluster/slave/api_backend.go | 9 +++++++++
 cluster/slave/backend.go     | 1 +
 2 files changed, 10 insertions(+)

diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index 6836787..a1e68a3 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -76,6 +76,12 @@ func (s *SlaveBackend) CreateShards(rootBlock *types.RootBlock, forceInit bool)
 					shard.Stop()
 					return err
 				}
+				s.lock.RLock()
+				mining := s.mining
+				s.lock.RUnlock()
+				if mining {
+					shard.SetMining(true)
+				}
 			}
 			return nil
 		})
@@ -500,6 +506,9 @@ func (s *SlaveBackend) GenTx(genTxs rpc.GenTxRequest) error {
 }
 
 func (s *SlaveBackend) SetMining(mining bool) {
+	s.lock.Lock()
+	s.mining = mining
+	s.lock.Unlock()
 	for _, shrd := range s.shards {
 		shrd.SetMining(mining)
 	}
diff --git a/cluster/slave/backend.go b/cluster/slave/backend.go
index fbb5a27..fc3684e 100755
--- a/cluster/slave/backend.go
+++ b/cluster/slave/backend.go
@@ -22,6 +22,7 @@ type SlaveBackend struct {
 
 	lock   sync.RWMutex
 	shards map[uint32]*shard.ShardBackend
+	mining bool // what SetMining was last told, for shards yet to start
 
 	ctx      *service.ServiceContext
 	eventMux *event.TypeMux
-- 
2.43.0


From fc9959677e338d1bcc441e5130c9088a99583c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 46/66] fix: a block template takes only transactions its
 validation accepts

---
 core/minorblockchain_addon.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index bef36d9..b072dfe 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -827,6 +827,7 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 	}
 	gp := new(GasPool).AddGas(block.GasLimit().Uint64())
 	usedGas := new(uint64)
+	xShardGasLimit := block.GetXShardGasLimit().Uint64()
 
 	receipts := make([]*types.Receipt, 0)
 	txsInBlock := make([]*types.Transaction, 0)
@@ -848,7 +849,12 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
 		snapshot, gasLeft := stateT.Snapshot(), *gp
-		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		var receipt *types.Receipt
+		// the block's validation will ask the same
+		_, err := m.validateTx(tx, stateT, nil, nil, &xShardGasLimit)
+		if err == nil {
+			_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		}
 		if err != nil {
 			// a transaction that is left out leaves no trace in the block's state
 			stateT.RevertToSnapshot(snapshot)
-- 
2.43.0


From 94331d1225a788756396f14ebc06dab8aa90ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 47/66] fix: the stakes of root chain miners are the same
 whatever the shard's head is

---
 core/minorblockchain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index aed5221..a49b996 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1719,6 +1719,8 @@ func (m *MinorBlockChain) GetRootChainStakes(coinbase account.Recipient, lastMin
 		return nil, nil, err
 	}
 	evmState.SetGasUsed(big.NewInt(0))
+	// stakes do not depend on whether the block happens to be the head: nobody is locked for a query
+	evmState.SetSenderDisallowMap(nil)
 	contractAddress := vm.SystemContracts[vm.ROOT_CHAIN_POSW].Address()
 	code := evmState.GetCode(contractAddress)
 	if code == nil {
-- 
2.43.0


From 4bf5be97019cb7aa97774092f2a36cd661f13287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 48/66] fix: what is told about a block's stakes is what was
 applied to it

---
 consensus/interface.go        | 2 +-
 consensus/posw/posw.go        | 5 +++--
 core/minorblockchain_addon.go | 7 ++++---
 core/rootblockchain.go        | 2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/consensus/interface.go b/consensus/interface.go
index 8f73ad6..fa9712f 100644
--- a/consensus/interface.go
+++ b/consensus/interface.go
@@ -103,5 +103,5 @@ type PoSWCalculator interface {
 	BuildSenderDisallowMap(headerHash common.Hash, recipient *account.Recipient) (map[account.Recipient]*big.Int, error)
 	PoSWDiffAdjust(header types.IHeader, balance *big.Int, stakePreBlock big.Int) (*big.Int, error)
 	IsPoSWEnabled(time uint64, height uint64) bool
-	GetPoSWInfo(header types.IHeader, stakes *big.Int, address account.Recipient, stakePreBlock big.Int) (*big.Int, uint64, uint64, error)
+	GetPoSWInfo(header types.IHeader, until common.Hash, stakes *big.Int, address account.Recipient, stakePreBlock big.Int) (*big.Int, uint64, uint64, error)
 }
diff --git a/consensus/posw/posw.go b/consensus/posw/posw.go
index 161847f..863030d 100644
--- a/consensus/posw/posw.go
+++ b/consensus/posw/posw.go
@@ -156,8 +156,9 @@ func (p *PoSW) getCoinbaseAddressUntilBlock(headerHash common.Hash) ([]account.R
 	return addrs, nil
 }
 
-func (p *PoSW) GetPoSWInfo(header types.IHeader, stakes *big.Int, address account.Recipient, stakePreBlock big.Int) (effectiveDiff *big.Int, mineable, mined uint64, err error) {
-	blockCnt, err := p.countCoinbaseBlockUntil(header.Hash(), address)
+// GetPoSWInfo tells what the stakes grant the address for the header; its blocks are counted until the given block.
+func (p *PoSW) GetPoSWInfo(header types.IHeader, until common.Hash, stakes *big.Int, address account.Recipient, stakePreBlock big.Int) (effectiveDiff *big.Int, mineable, mined uint64, err error) {
+	blockCnt, err := p.countCoinbaseBlockUntil(until, address)
 	if err != nil {
 		return header.GetDifficulty(), 0, 0, err
 	}
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index b072dfe..3426aa0 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1895,7 +1895,7 @@ func (m *MinorBlockChain) PoswInfo(mBlock *types.MinorBlock) (*rpc.PoSWInfo, err
 	}
 	stakes := evmState.GetBalance(header.Coinbase.Recipient, m.clusterConfig.Quarkchain.GetDefaultChainTokenID())
 	stakePreBlock := m.DecayByHeightAndTime(mBlock.NumberU64(), mBlock.Time())
-	diff, minable, mined, _ := m.posw.GetPoSWInfo(header, stakes, header.Coinbase.Recipient, stakePreBlock)
+	diff, minable, mined, _ := m.posw.GetPoSWInfo(header, header.ParentHash, stakes, header.Coinbase.Recipient, stakePreBlock)
 	return &rpc.PoSWInfo{
 		EffectiveDifficulty: diff,
 		PoswMineableBlocks:  minable,
@@ -1919,7 +1919,8 @@ func (m *MinorBlockChain) CommitMinorBlockByHash(h common.Hash) {
 }
 
 func (m *MinorBlockChain) GetMiningInfo(address account.Recipient, stake *types.TokenBalances) (mineable, mined uint64, err error) {
-	stakePreBlock := m.DecayByHeightAndTime(m.CurrentBlock().NumberU64(), m.CurrentBlock().Time())
-	_, mineable, mined, err = m.posw.GetPoSWInfo(m.CurrentBlock().Header(), stake.GetTokenBalance(m.Config().GetDefaultChainTokenID()), address, stakePreBlock)
+	head := m.CurrentBlock()
+	stakePreBlock := m.DecayByHeightAndTime(head.NumberU64(), head.Time())
+	_, mineable, mined, err = m.posw.GetPoSWInfo(head.Header(), head.Hash(), stake.GetTokenBalance(m.Config().GetDefaultChainTokenID()), address, stakePreBlock)
 	return
 }
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index b662145..46c4761 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1444,7 +1444,7 @@ func (bc *RootBlockChain) PoSWInfo(header *types.RootBlockHeader) (*rpc.PoSWInfo
 		return nil, nil
 	}
 	stakes, _ := bc.getSignedPoSWStakes(header)
-	diff, mineable, mined, _ := bc.posw.GetPoSWInfo(header, stakes, header.Coinbase.Recipient, *bc.chainConfig.Root.PoSWConfig.TotalStakePerBlock)
+	diff, mineable, mined, _ := bc.posw.GetPoSWInfo(header, header.ParentHash, stakes, header.Coinbase.Recipient, *bc.chainConfig.Root.PoSWConfig.TotalStakePerBlock)
 	return &rpc.PoSWInfo{
 		EffectiveDifficulty: diff,
 		PoswMinedBlocks:     mined + 1,
-- 
2.43.0


From 07cde2ae48ed540a50a9a7af6dfae29bdc003b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 49/66] fix: the stakes of root chain miners are known where
 the state was pruned

---
 core/minorblockchain.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index a49b996..b23708c 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1703,6 +1703,40 @@ func (m *MinorBlockChain) getEvmStateByBlock(block *types.MinorBlock) (*state.St
 	return m.StateAt(block.GetMetaData().Root)
 }
 
+// getEvmStateByBlockAgain is like getEvmStateByBlock, and where the state was pruned it executes the blocks
+// since the last state which is kept once more.
+func (m *MinorBlockChain) getEvmStateByBlockAgain(block *types.MinorBlock) (*state.StateDB, error) {
+	evmState, err := m.getEvmStateByBlock(block)
+	if err == nil {
+		return evmState, nil
+	}
+	m.chainmu.Lock()
+	defer m.chainmu.Unlock()
+	pruned := make([]*types.MinorBlock, 0)
+	for b := block; !m.HasState(b.GetMetaData().Root); {
+		pruned = append(pruned, b)
+		if b = m.GetMinorBlock(b.ParentHash()); b == nil {
+			return nil, err
+		}
+	}
+	for i := len(pruned) - 1; i >= 0; i-- {
+		b := pruned[i]
+		evmState, _, _, _, _, err := m.runBlock(b)
+		if err != nil {
+			return nil, err
+		}
+		root, err := evmState.Commit(true)
+		if err != nil {
+			return nil, err
+		}
+		m.mu.Lock()
+		m.stateCache.TrieDB().Reference(root, common.Hash{})
+		m.triegc.Push(root, -int64(b.NumberU64()))
+		m.mu.Unlock()
+	}
+	return m.getEvmStateByBlock(block)
+}
+
 func (m *MinorBlockChain) GetRootChainStakes(coinbase account.Recipient, lastMinor common.Hash) (*big.Int,
 	*account.Recipient, error) {
 
@@ -1714,7 +1748,7 @@ func (m *MinorBlockChain) GetRootChainStakes(coinbase account.Recipient, lastMin
 	if last == nil {
 		panic(fmt.Sprintf("block not found: %x", lastMinor))
 	}
-	evmState, err := m.getEvmStateByBlock(last)
+	evmState, err := m.getEvmStateByBlockAgain(last)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 6c4506163333a1dedce66be036c8737418bd70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 50/66] fix: subscribers are told of the logs of a
 reorganisation once and in order

---
 core/minorblockchain.go | 39 ++++++---------------------------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index b23708c..8b3b6af 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -972,8 +972,8 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 	}
 
 	// Write other block data using a batch.
+	rawdb.WriteReceipts(m.db, block.Hash(), receipts) // a reorganisation announces their logs
 	batch := m.db.NewBatch()
-	rawdb.WriteReceipts(batch, block.Hash(), receipts)
 
 	if updateTip {
 		// Reorganise the chain if the parent is not the head block
@@ -1000,6 +1000,9 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 	// Set new head.
 	if status == CanonStatTy {
 		m.insert(block)
+		if block.ParentHash() == currentBlock.Hash() {
+			m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(block.Hash()), IsRemoved: false})
+		}
 	}
 	m.futureBlocks.Remove(block.Hash())
 	return status, nil
@@ -1370,25 +1373,6 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		newChain       []types.IBlock
 		oldChain       []types.IBlock
 		commonBlock    types.IBlock
-		deletedLogs    []*types.Log
-		// collectLogs collects the logs that were generated during the
-		// processing of the block that corresponds with the given hash.
-		// These logs are later announced as deleted.
-		collectLogs = func(hash common.Hash) {
-			// Coalesce logs and set 'Removed'.
-			block := m.GetMinorBlock(hash)
-			if block == nil {
-				return
-			}
-			receipts := rawdb.ReadReceipts(m.db, hash)
-			for _, receipt := range receipts {
-				for _, log := range receipt.Logs {
-					del := *log
-					del.Removed = true
-					deletedLogs = append(deletedLogs, &del)
-				}
-			}
-		}
 	)
 
 	// first reduce whoever is higher bound
@@ -1396,7 +1380,6 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		// reduce old chain
 		for ; !qkcCommon.IsNil(oldBlock) && oldBlock.NumberU64() != newBlock.NumberU64(); oldBlock = m.GetBlock(oldBlock.ParentHash()) {
 			oldChain = append(oldChain, oldBlock)
-			collectLogs(oldBlock.Hash())
 		}
 	} else {
 		// reduce new chain and append new chain blocks for inserting later on
@@ -1419,7 +1402,6 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 
 		oldChain = append(oldChain, oldBlock)
 		newChain = append(newChain, newBlock)
-		collectLogs(oldBlock.Hash())
 		if oldBlock.NumberU64() == 0 || newBlock.NumberU64() == 0 { //revert genesisBlock: no commonBlock
 			log.Warn("reorg", "ready to revert genesis? oldBlock", oldBlock.Hash().String(),
 				"newBlock", newBlock.Hash().String(), "currBlock", m.CurrentBlock().Hash().String())
@@ -1477,12 +1459,6 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		}
 	}
 
-	if len(deletedLogs) > 0 {
-		var logs [][]*types.Log
-		logs = append(logs, deletedLogs)
-		m.subLogsFeed.Send(LoglistEvent{Logs: logs, IsRemoved: true})
-	}
-
 	if len(oldChain) > 0 {
 		for _, iB := range oldChain {
 			m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(iB.Hash()), IsRemoved: true})
@@ -1493,8 +1469,8 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 			}
 		}()
 	}
-	for _, iB := range newChain {
-		m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(iB.Hash()), IsRemoved: false})
+	for i := len(newChain) - 1; i >= 0; i-- {
+		m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(newChain[i].Hash()), IsRemoved: false})
 	}
 
 	return nil
@@ -1507,9 +1483,6 @@ func (m *MinorBlockChain) PostChainEvents(events []interface{}, logs []*types.Lo
 	// post event logs for further processing
 	if logs != nil {
 		m.logsFeed.Send(logs)
-		var logss [][]*types.Log
-		logss = append(logss, logs)
-		m.subLogsFeed.Send(LoglistEvent{Logs: logss, IsRemoved: false})
 	}
 	for _, event := range events {
 		switch ev := event.(type) {
-- 
2.43.0


From 81f2769c2b665334b7f12b07a956187958fb9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 51/66] fix: new heads are announced in the order in which they
 became the head

---
 core/minorblockchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 8b3b6af..036d39b 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1058,10 +1058,10 @@ func (m *MinorBlockChain) InsertChainForDeposits(chain []types.IBlock, isCheckDB
 		return 0, nil, err
 	}
 	n, events, logs, xShardList, err := m.insertChain(chain, true, isCheckDB)
+	m.PostChainEvents(events, logs) // still locked: in the order in which the head moves
 	m.chainmu.Unlock()
 	m.wg.Done()
 
-	m.PostChainEvents(events, logs)
 	m.mu.Lock()
 	confirmed := m.confirmedHeaderTip
 	m.mu.Unlock()
-- 
2.43.0


From 93634c2c6207c36a7aa4746f52ac63de73d0ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 52/66] fix: a websocket client that does not read does not
 stop its shard

---
 rpc/websocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpc/websocket.go b/rpc/websocket.go
index eae8320..1544cf7 100644
--- a/rpc/websocket.go
+++ b/rpc/websocket.go
@@ -35,6 +35,9 @@ import (
 	"golang.org/x/net/websocket"
 )
 
+// wsWriteTimeout is how long a client may take to accept a message.
+const wsWriteTimeout = 10 * time.Second
+
 // websocketJSONCodec is a custom JSON codec with payload size enforcement and
 // special number parsing.
 var websocketJSONCodec = websocket.Codec{
@@ -64,6 +67,7 @@ func (srv *Server) WebsocketHandler(allowedOrigins []string) http.Handler {
 			conn.MaxPayloadBytes = maxRequestContentLength
 
 			encoder := func(v interface{}) error {
+				conn.SetWriteDeadline(time.Now().Add(wsWriteTimeout)) // a client that does not read holds nobody up
 				return websocketJSONCodec.Send(conn, v)
 			}
 			decoder := func(v interface{}) error {
-- 
2.43.0


From 47f0bec6d910a36f8c0b53e27e0af950ca386da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 53/66] fix: a leaving subscriber does not lock up the events
 of its slave

---
 cluster/slave/filters/filter_system.go | 35 ++++++++++----------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/cluster/slave/filters/filter_system.go b/cluster/slave/filters/filter_system.go
index 13f8323..5b4dbda 100644
--- a/cluster/slave/filters/filter_system.go
+++ b/cluster/slave/filters/filter_system.go
@@ -150,32 +150,23 @@ func (sub *Subscription) Err() <-chan error {
 // Unsubscribe uninstalls the subscription from the event broadcast loop.
 func (sub *Subscription) Unsubscribe() {
 	sub.unsubOnce.Do(func() {
-	uninstallLoop:
+		// write the uninstall request and wait for the filter to be uninstalled in the work
+		// loop: this ensures that the manager won't use the event channel which will probably
+		// be closed by the client asap after this method returns. Consume events all the while,
+		// the broadcast method must not block on a channel nobody reads any more.
+		uninstall := sub.es.uninstall
 		for {
-			// write uninstall request and consume logs/hashes. This prevents
-			// the eventLoop broadcast method to deadlock when writing to the
-			// filter event channel while the subscription loop is waiting for
-			// this method to return (and thus not reading these events).
 			select {
-			case sub.es.uninstall <- sub.f:
-				break uninstallLoop
-			default:
-				if sub.f.logsCh != nil {
-					<-sub.f.logsCh
-				} else if sub.f.blocksCh != nil {
-					<-sub.f.blocksCh
-				} else if sub.f.txlistCh != nil {
-					<-sub.f.txlistCh
-				} else if sub.f.syncCh != nil {
-					<-sub.f.syncCh
-				}
+			case uninstall <- sub.f:
+				uninstall = nil
+			case <-sub.Err():
+				return
+			case <-sub.f.logsCh:
+			case <-sub.f.blocksCh:
+			case <-sub.f.txlistCh:
+			case <-sub.f.syncCh:
 			}
 		}
-
-		// wait for filter to be uninstalled in work loop before returning
-		// this ensures that the manager won't use the event channel which
-		// will probably be closed by the client asap after this method returns.
-		<-sub.Err()
 	})
 }
 
-- 
2.43.0


From f1dccdf0ca63fabf57ba89063e5a6f47883dd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:47 +0000
Subject: [PATCH 54/66] fix: a subscription that follows the last of its kind
 gets its events

---
 cluster/slave/filters/subscribe.go | 70 ++++++++++++++----------------
 1 file changed, 33 insertions(+), 37 deletions(-)

diff --git a/cluster/slave/filters/subscribe.go b/cluster/slave/filters/subscribe.go
index dd36772..9827dad 100644
--- a/cluster/slave/filters/subscribe.go
+++ b/cluster/slave/filters/subscribe.go
@@ -9,13 +9,11 @@ import (
 	"golang.org/x/sync/errgroup"
 )
 
-type delEvent struct {
-	id uint32
-	tp Type
-}
-
-type addEvent struct {
-	delEvent
+// subRequest begins (or, without a broadcast function, ends) the forwarding of
+// the events of one type of a shard.
+type subRequest struct {
+	id        uint32
+	tp        Type
 	broadcast func(interface{})
 }
 
@@ -24,8 +22,7 @@ type subscribe struct {
 	events  map[uint32]map[Type]subackend
 
 	exitCh chan struct{}
-	addCh  chan *addEvent
-	delCh  chan *delEvent
+	reqCh  chan *subRequest // one channel: an end must not overtake or follow the next beginning
 }
 
 func NewSubScribe(backend SlaveFilter) *subscribe {
@@ -35,8 +32,7 @@ func NewSubScribe(backend SlaveFilter) *subscribe {
 		events:  make(map[uint32]map[Type]subackend),
 
 		exitCh: make(chan struct{}),
-		addCh:  make(chan *addEvent, 8),
-		delCh:  make(chan *delEvent, 8),
+		reqCh:  make(chan *subRequest, 8),
 	}
 
 	go sub.eventsloop()
@@ -44,16 +40,11 @@ func NewSubScribe(backend SlaveFilter) *subscribe {
 }
 
 func (s *subscribe) Subscribe(id uint32, tp Type, broadcast func(interface{})) {
-	go func() {
-		s.addCh <- &addEvent{
-			delEvent:  delEvent{id: id, tp: tp},
-			broadcast: broadcast,
-		}
-	}()
+	s.reqCh <- &subRequest{id: id, tp: tp, broadcast: broadcast}
 }
 
 func (s *subscribe) Unsubscribe(id uint32, tp Type) {
-	go func() { s.delCh <- &delEvent{id: id, tp: tp} }()
+	s.reqCh <- &subRequest{id: id, tp: tp}
 }
 
 func (s *subscribe) Stop() {
@@ -80,32 +71,25 @@ func (s *subscribe) eventsloop() {
 		case <-s.exitCh:
 			return
 
-		case del := <-s.delCh:
-			if subEv, ok := s.events[del.id]; ok {
-				if ev, ok := subEv[del.tp]; ok {
-					delete(subEv, del.tp)
-					ev.freech()
-				}
-				if len(subEv) == 0 {
-					delete(s.events, del.id)
-				}
+		case req := <-s.reqCh:
+			if req.broadcast == nil {
+				s.remove(req)
+				break
 			}
-
-		case add := <-s.addCh:
-			shrd, err := s.backend.GetShardFilter(add.id)
+			shrd, err := s.backend.GetShardFilter(req.id)
 			if err != nil {
 				break
 			}
-			if _, ok := s.events[add.id]; !ok {
-				s.events[add.id] = make(map[Type]subackend)
+			if _, ok := s.events[req.id]; !ok {
+				s.events[req.id] = make(map[Type]subackend)
 			}
-			tpEvent := s.events[add.id]
-			if _, ok := tpEvent[add.tp]; !ok {
-				sub := s.newSubEvent(shrd, add.tp, add.broadcast)
+			tpEvent := s.events[req.id]
+			if _, ok := tpEvent[req.tp]; !ok {
+				sub := s.newSubEvent(shrd, req.tp, req.broadcast)
 				if qcom.IsNil(sub) {
 					break
 				}
-				tpEvent[add.tp] = sub
+				tpEvent[req.tp] = sub
 			}
 
 		case <-ticker.C:
@@ -114,7 +98,7 @@ func (s *subscribe) eventsloop() {
 				g.Go(func() error {
 					for tp, subEv := range s.events[id] {
 						if err := subEv.getch(); err != nil {
-							s.delCh <- &delEvent{id: id, tp: tp}
+							delete(s.events[id], tp)
 							log.Warn("subscribe return error, will be move out", "id", id, "tp", tp, "err", err)
 						}
 					}
@@ -127,3 +111,15 @@ func (s *subscribe) eventsloop() {
 		}
 	}
 }
+
+func (s *subscribe) remove(req *subRequest) {
+	if subEv, ok := s.events[req.id]; ok {
+		if ev, ok := subEv[req.tp]; ok {
+			delete(subEv, req.tp)
+			ev.freech()
+		}
+		if len(subEv) == 0 {
+			delete(s.events, req.id)
+		}
+	}
+}
-- 
2.43.0


From 2d68436346c7952bb9d81d4996fe0f621a85b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 55/66] fix: a root block to mine holds no minor block that is
 already confirmed

---
 cluster/master/backend.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index 3e5b136..c044ed2 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -494,6 +494,8 @@ func (s *QKCMasterBackend) createRootBlockToMine(address account.Address) (*type
 		return nil, err
 	}
 
+	tip := s.rootBlockChain.CurrentBlock()
+	confirmed := s.rootBlockChain.GetLatestMinorBlockHeaders(tip.Hash())
 	fullShardIDToHeaderList := make(map[uint32][]*types.MinorBlockHeader, 0)
 	for index := 0; index < len(conns); index++ {
 		resp := <-rspList
@@ -501,6 +503,7 @@ func (s *QKCMasterBackend) createRootBlockToMine(address account.Address) (*type
 			if _, ok := fullShardIDToHeaderList[headersInfo.Branch]; ok { // to avoid overlap
 				continue // skip it if has added
 			}
+			last := confirmed[headersInfo.Branch]
 			height := uint64(0)
 			for _, header := range headersInfo.HeaderList {
 				if height != 0 && height+1 != header.Number {
@@ -508,6 +511,13 @@ func (s *QKCMasterBackend) createRootBlockToMine(address account.Address) (*type
 				}
 				height = header.Number
 
+				if last != nil && header.Number <= last.Number {
+					continue // confirmed by a root block the shard has yet to learn
+				}
+				if last != nil && header.ParentHash != last.Hash() {
+					break // the shard has yet to follow a root chain reorganisation
+				}
+				last = header
 				if !s.rootBlockChain.IsMinorBlockValidated(header.Hash()) {
 					break
 				}
@@ -531,6 +541,9 @@ func (s *QKCMasterBackend) createRootBlockToMine(address account.Address) (*type
 	if err != nil {
 		return nil, err
 	}
+	if newblock.ParentHash() != tip.Hash() { // the tip moved while the headers were collected
+		return s.createRootBlockToMine(address)
+	}
 	return newblock, nil
 }
 
-- 
2.43.0


From 53472d897ab3884c56b9283a2d6e0b83c4cf9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:07 +0000
Subject: [PATCH 56/66] fix: pings of the base protocol are not delivered to
 the application

---
 p2p/qkchandle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/qkchandle.go b/p2p/qkchandle.go
index 171d0e5..5f7f2aa 100644
--- a/p2p/qkchandle.go
+++ b/p2p/qkchandle.go
@@ -71,6 +71,11 @@ func (q *qkcRlp) ReadMsg() (Msg, error) {
 }
 
 func (q *qkcRlp) WriteMsg(msg Msg) error {
+	if msg.Code < baseProtocolLength {
+		// a QKC frame does not carry the code: the remote application would take
+		// a ping for a message of its own and drop the peer
+		return msg.Discard()
+	}
 	q.wmu.Lock()
 	defer q.wmu.Unlock()
 	q.fd.SetWriteDeadline(time.Now().Add(frameWriteTimeout))
-- 
2.43.0


From 4aff7880666b23bb696be3c19c1eece7b58f6312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 57/66] fix: neighbours of a transfer between shards go by the
 root block its block refers to

With more than 32 shards only some shards may send to each other. The check used
the node's own root tip, so while later shards took the number over 32 a block
that was valid where it was mined was refused for ever by nodes further ahead.
---
 core/minorblockchain_addon.go | 20 +++++++++++++++++---
 core/state_processor.go       | 24 +-----------------------
 2 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 3426aa0..c5e5578 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -221,6 +221,20 @@ func (m *MinorBlockChain) checkTxWithVersion2(tx *types.Transaction, evmState *s
 }
 
 func (m *MinorBlockChain) validateTx(tx *types.Transaction, evmState *state.StateDB, fromAddress *account.Address, gas, xShardGasLimit *uint64) (*types.Transaction, error) {
+	return m.validateTxAtRootHeight(tx, evmState, fromAddress, gas, xShardGasLimit, m.rootTip.Number())
+}
+
+// validateTxInBlock validates a transaction by the root block its block refers
+// to, whatever this node's root tip is.
+func (m *MinorBlockChain) validateTxInBlock(block *types.MinorBlock, tx *types.Transaction, evmState *state.StateDB, xShardGasLimit *uint64) (*types.Transaction, error) {
+	prevRootBlock := m.GetRootBlockByHash(block.PrevRootBlockHash())
+	if prevRootBlock == nil {
+		return nil, ErrRootBlockIsNil
+	}
+	return m.validateTxAtRootHeight(tx, evmState, nil, nil, xShardGasLimit, prevRootBlock.Number())
+}
+
+func (m *MinorBlockChain) validateTxAtRootHeight(tx *types.Transaction, evmState *state.StateDB, fromAddress *account.Address, gas, xShardGasLimit *uint64, rootHeight uint32) (*types.Transaction, error) {
 	if evmState == nil && fromAddress != nil {
 		return nil, errors.New("validateTx params err")
 	}
@@ -271,7 +285,7 @@ func (m *MinorBlockChain) validateTx(tx *types.Transaction, evmState *state.Stat
 	toBranch := account.Branch{Value: evmTx.ToFullShardId()}
 
 	if evmTx.IsCrossShard() {
-		initializedFullShardIDs := m.clusterConfig.Quarkchain.GetInitializedShardIdsBeforeRootHeight(m.rootTip.Number())
+		initializedFullShardIDs := m.clusterConfig.Quarkchain.GetInitializedShardIdsBeforeRootHeight(rootHeight)
 		hasInit := false
 		for _, v := range initializedFullShardIDs {
 			if toBranch.GetFullShardID() == v {
@@ -283,7 +297,7 @@ func (m *MinorBlockChain) validateTx(tx *types.Transaction, evmState *state.Stat
 		}
 	}
 
-	if evmTx.IsCrossShard() && !m.isNeighbor(toBranch, nil) {
+	if evmTx.IsCrossShard() && !m.isNeighbor(toBranch, &rootHeight) {
 		return nil, ErrNotNeighbor
 	}
 
@@ -851,7 +865,7 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 		snapshot, gasLeft := stateT.Snapshot(), *gp
 		var receipt *types.Receipt
 		// the block's validation will ask the same
-		_, err := m.validateTx(tx, stateT, nil, nil, &xShardGasLimit)
+		_, err := m.validateTxInBlock(block, tx, stateT, &xShardGasLimit)
 		if err == nil {
 			_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
 		}
diff --git a/core/state_processor.go b/core/state_processor.go
index 4b70d6e..5f5d885 100755
--- a/core/state_processor.go
+++ b/core/state_processor.go
@@ -75,13 +75,10 @@ func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB
 
 	// Iterate over and process the individual transactions
 	for i, tx := range block.GetTransactions() {
-		evmTx, err := p.bc.validateTx(tx, statedb, nil, nil, &xGas)
+		evmTx, err := p.bc.validateTxInBlock(block, tx, statedb, &xGas)
 		if err != nil {
 			return nil, nil, 0, err
 		}
-		if err := p.validateDestination(block, evmTx); err != nil {
-			return nil, nil, 0, err
-		}
 		statedb.Prepare(tx.Hash(), block.Hash(), i)
 		_, receipt, _, err := ApplyTransaction(p.config, p.bc, gp, statedb, header, evmTx, usedGas, cfg)
 		if err != nil {
@@ -101,25 +98,6 @@ func (p *StateProcessor) Process(block *types.MinorBlock, statedb *state.StateDB
 	return receipts, allLogs, *usedGas, nil
 }
 
-// validateDestination refuses a cross-shard transaction to a shard that is not
-// initialized at the root block the minor block refers to: the root tip, which
-// validateTx goes by, may be later.
-func (p *StateProcessor) validateDestination(block *types.MinorBlock, tx *types.Transaction) error {
-	if !tx.EvmTx.IsCrossShard() {
-		return nil
-	}
-	prevRootBlock := p.bc.GetRootBlockByHash(block.PrevRootBlockHash())
-	if prevRootBlock == nil {
-		return ErrRootBlockIsNil
-	}
-	for _, id := range p.bc.clusterConfig.Quarkchain.GetInitializedShardIdsBeforeRootHeight(prevRootBlock.Number()) {
-		if id == tx.EvmTx.ToFullShardId() {
-			return nil
-		}
-	}
-	return errors.New("shard is not initialized yet")
-}
-
 // ValidateTransaction validateTx before applyTx
 func ValidateTransaction(state vm.StateDB, chainConfig *params.ChainConfig, tx *types.Transaction, fromAddress *account.Address) error {
 	from := new(account.Recipient)
-- 
2.43.0


From 94307a8440dc8481733275c4d2332b13127bc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:09 +0000
Subject: [PATCH 58/66] fix: a transfer on its way when the 33rd shard starts
 is delivered

The sender's slave and AddRootBlock decide which shards are neighbours by the
root block the minor block refers to; the cursor took the root block that holds
it, and skipped lists that had been sent.
---
 core/xshard_tx_cursor.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/xshard_tx_cursor.go b/core/xshard_tx_cursor.go
index 736bf2c..351b868 100644
--- a/core/xshard_tx_cursor.go
+++ b/core/xshard_tx_cursor.go
@@ -101,6 +101,14 @@ func (x *XShardTxCursor) getCurrentTx() (*types.CrossShardTransactionDeposit, er
 	}
 }
 
+func (x *XShardTxCursor) isNeighbor(header *types.MinorBlockHeader, prevRootBlock *types.RootBlock) bool {
+	if prevRootBlock == nil {
+		return false
+	}
+	rootHeight := prevRootBlock.Number()
+	return x.bc.isNeighbor(header.Branch, &rootHeight)
+}
+
 func (x *XShardTxCursor) getNextTx() (*types.CrossShardTransactionDeposit, error) {
 	// Check if reach EOF
 	if x.rBlock == nil {
@@ -120,10 +128,11 @@ func (x *XShardTxCursor) getNextTx() (*types.CrossShardTransactionDeposit, error
 
 	// Iterate minor blocks' cross-shard transactions
 	for x.mBlockIndex <= uint64(len(x.rBlock.MinorBlockHeaders())) {
-		// If it is not neighbor, move to next minor block
 		mBlockHeader := x.rBlock.MinorBlockHeaders()[x.mBlockIndex-1]
-		t := x.rBlock.Number()
-		if mBlockHeader.Branch == x.bc.GetBranch() || !x.bc.isNeighbor(mBlockHeader.Branch, &t) {
+		prevRootHeader := x.bc.GetRootBlockByHash(mBlockHeader.PrevRootBlockHash)
+		// If it is not neighbor, move to next minor block. Which shards are neighbors
+		// depends on the root block the minor block refers to: its list was sent by that.
+		if mBlockHeader.Branch == x.bc.GetBranch() || !x.isNeighbor(mBlockHeader, prevRootHeader) {
 			if x.xShardDepositIndex != 0 {
 				return nil, errors.New("xShardDepositIndex should 0")
 			}
@@ -131,7 +140,6 @@ func (x *XShardTxCursor) getNextTx() (*types.CrossShardTransactionDeposit, error
 			continue
 		}
 		// Check if the neighbor has the permission to send tx to local shard
-		prevRootHeader := x.bc.GetRootBlockByHash(mBlockHeader.PrevRootBlockHash)
 		if prevRootHeader == nil || prevRootHeader.Number() <= x.bc.GetGenesisRootHeight() {
 			if x.xShardDepositIndex != 0 {
 				return nil, errors.New("should 0")
-- 
2.43.0


From 46a65fae93985cc6550958addd49a862c45801d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 59/66] fix: a coinbase amount of zero survives serialization

---
 core/minorblock_validator.go | 14 ++++++++------
 core/types/token.go          |  5 ++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/minorblock_validator.go b/core/minorblock_validator.go
index 84bcf7a..58a4139 100644
--- a/core/minorblock_validator.go
+++ b/core/minorblock_validator.go
@@ -252,13 +252,15 @@ func compareXshardTxCursor(a, b *types.XShardTxCursorInfo) bool {
 }
 
 func compareCoinbaseAmountMap(a, b map[uint64]*big.Int) bool {
-	if len(a) != len(b) {
-		return false
-	}
-	for k, v := range a {
-		data, ok := b[k]
+	// an amount of zero is the same as no entry: it does not survive serialization
+	return coversCoinbaseAmountMap(a, b) && coversCoinbaseAmountMap(b, a)
+}
+
+func coversCoinbaseAmountMap(a, b map[uint64]*big.Int) bool {
+	for k, v := range b {
+		data, ok := a[k]
 		if !ok {
-			return false
+			data = new(big.Int)
 		}
 		if data.Cmp(v) != 0 {
 			return false
diff --git a/core/types/token.go b/core/types/token.go
index 7d98ce9..674fc1e 100644
--- a/core/types/token.go
+++ b/core/types/token.go
@@ -314,7 +314,10 @@ func (t *TokenBalances) DecodeRLP(s *rlp.Stream) error {
 func (t *TokenBalances) Serialize(w *[]byte) error {
 	keys := make([]uint64, 0, t.Len())
 	num := uint32(0)
-	for k := range t.balances {
+	for k, v := range t.balances {
+		if v.Sign() == 0 { // Deserialize drops them too, and a header's hash must survive the way
+			continue
+		}
 		keys = append(keys, k)
 		num++
 	}
-- 
2.43.0


From 679c0bae04b4f9d15f278d6176a26f07ce8d8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:09 +0000
Subject: [PATCH 60/66] fix: a history query during a reorganisation does not
 kill the slave

---
 core/minorblockchain_addon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index c5e5578..7e88bb8 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1663,6 +1663,9 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 				})
 			}
 		} else {
+			if index >= uint32(len(mBlock.Transactions())) {
+				return nil, nil, errors.New("the chain was reorganised meanwhile")
+			}
 			tx := mBlock.Transactions()[index]
 			txHash := tx.Hash()
 			evmTx := tx.EvmTx
@@ -1670,6 +1673,9 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 			if !ok && !skipTx(evmTx) {
 				limit--
 				receipt, _, _ := rawdb.ReadReceipt(m.db, tx.Hash())
+				if receipt == nil {
+					return nil, nil, errors.New("the chain was reorganised meanwhile")
+				}
 				sender, err := types.Sender(m.signer, evmTx)
 				if err != nil {
 					return nil, nil, err
-- 
2.43.0


From ab3f2d75adbdd53da0450a643e5c89dd75f5b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 61/66] fix: no crash and no undone block leaves transaction
 index entries behind

---
 core/minorblockchain.go       | 18 +++++++++++++-----
 core/minorblockchain_addon.go | 33 ++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 036d39b..75ac75b 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -327,6 +327,9 @@ func (m *MinorBlockChain) setHead(head uint64) error {
 	for block := m.CurrentBlock(); block != nil && block.NumberU64() > head; block = m.CurrentBlock() {
 		rawdb.DeleteMinorBlockCommitStatus(batch, block.Hash())
 		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, block.NumberU64())
+		if err := m.removeTxIndexFromBlock(batch, block); err != nil {
+			return err
+		}
 		m.currentBlock.Store(m.GetMinorBlock(block.ParentHash()))
 	}
 	batch.Write()
@@ -529,13 +532,16 @@ func (m *MinorBlockChain) ExportN(w io.Writer, first uint64, last uint64) error
 //
 // Note, this function assumes that the `mu` mutex is held!
 func (m *MinorBlockChain) insert(block *types.MinorBlock) {
-	// Add the block to the canonical chain number scheme and mark as the head
-	rawdb.WriteCanonicalHash(m.db, rawdb.ChainTypeMinor, block.Hash(), block.NumberU64())
-	rawdb.WriteHeadBlockHash(m.db, block.Hash())
-
+	m.writeHead(m.db, block)
 	m.currentBlock.Store(block)
 }
 
+// writeHead adds the block to the canonical chain number scheme and marks it as the head
+func (m *MinorBlockChain) writeHead(db rawdb.DatabaseWriter, block *types.MinorBlock) {
+	rawdb.WriteCanonicalHash(db, rawdb.ChainTypeMinor, block.Hash(), block.NumberU64())
+	rawdb.WriteHeadBlockHash(db, block.Hash())
+}
+
 // Genesis retrieves the chain's genesis block.
 func (m *MinorBlockChain) Genesis() *types.MinorBlock {
 	return m.genesisBlock
@@ -987,6 +993,8 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 			panic(err)
 		}
 		rawdb.WritePreimages(batch, state.Preimages())
+		// the head moves together with the index: a crash leaves no index of a block that is not canonical
+		m.writeHead(batch, block)
 		status = CanonStatTy
 
 	} else {
@@ -999,7 +1007,7 @@ func (m *MinorBlockChain) WriteBlockWithState(block *types.MinorBlock, receipts
 
 	// Set new head.
 	if status == CanonStatTy {
-		m.insert(block)
+		m.currentBlock.Store(block)
 		if block.ParentHash() == currentBlock.Hash() {
 			m.subLogsFeed.Send(LoglistEvent{Logs: m.GetLogs(block.Hash()), IsRemoved: false})
 		}
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 7e88bb8..e3b9f6f 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1510,11 +1510,11 @@ func (m *MinorBlockChain) putTxIndexFromBlock(batch rawdb.DatabaseWriter, block
 		return errors.New("minor block is nil")
 	}
 	for index, tx := range minorBlock.Transactions() { // put qkc's inshard tx
-		if err := m.putTxHistoryIndex(tx, minorBlock.Number(), index); err != nil {
+		if err := m.putTxHistoryIndex(batch, tx, minorBlock.Number(), index); err != nil {
 			return err
 		}
 	}
-	return m.putTxHistoryIndexFromBlock(minorBlock) // put qkc's xshard tx
+	return m.putTxHistoryIndexFromBlock(batch, minorBlock) // put qkc's xshard tx
 }
 
 func (m *MinorBlockChain) removeTxIndexFromBlock(db rawdb.DatabaseDeleter, block *types.MinorBlock) error {
@@ -1532,7 +1532,7 @@ func (m *MinorBlockChain) removeTxIndexFromBlock(db rawdb.DatabaseDeleter, block
 			rawdb.DeleteBlockContentLookupEntry(db, hash)
 		}
 	}
-	return m.removeTxHistoryIndexFromBlock(block)
+	return m.removeTxHistoryIndexFromBlock(db, block)
 }
 
 func bytesSubOne(data []byte) []byte {
@@ -1761,13 +1761,16 @@ func (m *MinorBlockChain) GetLogsByFilterQuery(args *qrpc.FilterQuery) ([]*types
 	return filter.Logs()
 }
 
-func (m *MinorBlockChain) putTxIndexDB(key []byte) error {
-	err := m.db.Put(key, []byte("1")) //TODO????
-	return err
+func putTxIndexDB(db rawdb.DatabaseWriter) func(key []byte) error {
+	return func(key []byte) error {
+		return db.Put(key, []byte("1")) //TODO????
+	}
 }
 
-func (m *MinorBlockChain) deleteTxIndexDB(key []byte) error {
-	return m.db.Delete(key)
+func deleteTxIndexDB(db rawdb.DatabaseDeleter) func(key []byte) error {
+	return func(key []byte) error {
+		return db.Delete(key)
+	}
 }
 
 func (m *MinorBlockChain) updateTxHistoryIndex(tx *types.Transaction, height uint64, index int, f func(key []byte) error) error {
@@ -1797,13 +1800,13 @@ func (m *MinorBlockChain) updateTxHistoryIndex(tx *types.Transaction, height uin
 	return nil
 }
 
-func (m *MinorBlockChain) putTxHistoryIndex(tx *types.Transaction, height uint64, index int) error {
-	return m.updateTxHistoryIndex(tx, height, index, m.putTxIndexDB)
+func (m *MinorBlockChain) putTxHistoryIndex(db rawdb.DatabaseWriter, tx *types.Transaction, height uint64, index int) error {
+	return m.updateTxHistoryIndex(tx, height, index, putTxIndexDB(db))
 }
 
 func (m *MinorBlockChain) removeTxHistoryIndex(db rawdb.DatabaseDeleter, tx *types.Transaction, height uint64, index int) error {
 	rawdb.DeleteBlockContentLookupEntry(db, tx.Hash())
-	return m.updateTxHistoryIndex(tx, height, index, m.deleteTxIndexDB)
+	return m.updateTxHistoryIndex(tx, height, index, deleteTxIndexDB(db))
 }
 
 func (m *MinorBlockChain) updateTxHistoryIndexFromBlock(block *types.MinorBlock, f func([]byte) error) error {
@@ -1830,12 +1833,12 @@ func (m *MinorBlockChain) updateTxHistoryIndexFromBlock(block *types.MinorBlock,
 	return nil
 }
 
-func (m *MinorBlockChain) putTxHistoryIndexFromBlock(block *types.MinorBlock) error {
-	return m.updateTxHistoryIndexFromBlock(block, m.putTxIndexDB)
+func (m *MinorBlockChain) putTxHistoryIndexFromBlock(db rawdb.DatabaseWriter, block *types.MinorBlock) error {
+	return m.updateTxHistoryIndexFromBlock(block, putTxIndexDB(db))
 }
 
-func (m *MinorBlockChain) removeTxHistoryIndexFromBlock(block *types.MinorBlock) error {
-	return m.updateTxHistoryIndexFromBlock(block, m.deleteTxIndexDB)
+func (m *MinorBlockChain) removeTxHistoryIndexFromBlock(db rawdb.DatabaseDeleter, block *types.MinorBlock) error {
+	return m.updateTxHistoryIndexFromBlock(block, deleteTxIndexDB(db))
 }
 
 func (m *MinorBlockChain) ReadCrossShardTxList(hash common.Hash) *types.CrossShardTransactionDepositList {
-- 
2.43.0


From 77cec73b2d03eaa8b5931d901dec7d447abb3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 62/66] fix: a stored block that was never executed is not
 taken for an executed one

---
 core/minorblockchain.go       | 12 +++++++++---
 core/minorblockchain_addon.go |  4 ++--
 core/rawdb/accessors_chain.go |  5 +++++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 75ac75b..c864540 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -564,6 +564,12 @@ func (m *MinorBlockChain) HasState(hash common.Hash) bool {
 	return err == nil
 }
 
+// hasResults checks if a stored block was executed and its state is still there. The state alone does not
+// tell: another block may lead to the same one.
+func (m *MinorBlockChain) hasResults(block *types.MinorBlock) bool {
+	return rawdb.HasXShardDepositHashList(m.db, block.Hash()) && m.HasState(block.GetMetaData().Root)
+}
+
 // HasBlockAndState checks if a block and associated state trie is fully present
 // in the database or not, caching it if present.
 func (m *MinorBlockChain) HasBlockAndState(hash common.Hash) bool {
@@ -572,7 +578,7 @@ func (m *MinorBlockChain) HasBlockAndState(hash common.Hash) bool {
 	if block == nil {
 		return false
 	}
-	return m.HasState(block.GetMetaData().Root)
+	return m.hasResults(block)
 }
 
 // GetBlock retrieves a block from the database by hash and number,
@@ -1087,7 +1093,7 @@ func (m *MinorBlockChain) InsertChainForDeposits(chain []types.IBlock, isCheckDB
 // stop: a block on top of it can not be validated without. The chain mutex is held.
 func (m *MinorBlockChain) recoverState(hash common.Hash) error {
 	var lost []types.IBlock
-	for block := m.GetMinorBlock(hash); block != nil && !m.HasState(block.Root()); block = m.GetMinorBlock(block.ParentHash()) {
+	for block := m.GetMinorBlock(hash); block != nil && !m.hasResults(block); block = m.GetMinorBlock(block.ParentHash()) {
 		lost = append(lost, block)
 	}
 	for i := len(lost) - 1; i >= 0; i-- {
@@ -1324,7 +1330,7 @@ func (m *MinorBlockChain) insertSidechain(it *insertIterator, isCheckDB bool) (i
 		numbers []uint64
 	)
 	parent := m.GetBlock(it.previous().Hash())
-	for !qkcCommon.IsNil(parent) && !m.HasState(parent.(*types.MinorBlock).GetMetaData().Root) {
+	for !qkcCommon.IsNil(parent) && !m.hasResults(parent.(*types.MinorBlock)) {
 		hashes = append(hashes, parent.Hash())
 		numbers = append(numbers, parent.NumberU64())
 
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index e3b9f6f..2f9ed89 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -555,7 +555,7 @@ func reverseList(block []types.IBlock) {
 func (m *MinorBlockChain) reRunBlockWithState(block *types.MinorBlock) error {
 	blockWithoutState := make([]types.IBlock, 0)
 	for {
-		if _, err := m.StateAt(block.Meta().Root); err == nil {
+		if m.hasResults(block) {
 			log.Info("reRunBlockWithState blockchain to past state", "number", block.Number(), "hash", block.Hash().String())
 			break
 		}
@@ -1179,7 +1179,7 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		newBlock := m.GetMinorBlock(headerTipHash)
 		log.Warn(m.logInfo+" reWrite", "orig_number", origBlock.Number(), "orig_hash", origBlock.Hash().TerminalString(), "new_number", newBlock.Number(), "new_hash", newBlock.Hash().TerminalString())
 		var err error
-		if _, err = m.StateAt(newBlock.Root()); err != nil {
+		if !m.hasResults(newBlock) {
 			// states of side blocks and of most old blocks do not survive a restart
 			if err = m.reRunBlockWithState(newBlock); err != nil {
 				return false, err
diff --git a/core/rawdb/accessors_chain.go b/core/rawdb/accessors_chain.go
index adc33ad..1762813 100644
--- a/core/rawdb/accessors_chain.go
+++ b/core/rawdb/accessors_chain.go
@@ -628,6 +628,11 @@ func PutXShardDepositHashList(db DatabaseWriter, h common.Hash, hList *HashList)
 	}
 }
 
+func HasXShardDepositHashList(db DatabaseReader, h common.Hash) bool {
+	has, err := db.Has(makeXShardDepositHashList(h))
+	return has && err == nil
+}
+
 func GetXShardDepositHashList(db DatabaseReader, h common.Hash) *HashList {
 	data, _ := db.Get(makeXShardDepositHashList(h))
 	hList := new(HashList)
-- 
2.43.0


From 6bd75b9f5ba12c85a751965991d058780e6f27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:09 +0000
Subject: [PATCH 63/66] fix: a slave which cannot reach another slave does not
 start without it

---
 cluster/slave/conn_manager.go | 10 +++++++---
 cluster/slave/slave_grpc.go   |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cluster/slave/conn_manager.go b/cluster/slave/conn_manager.go
index 5230295..2a40dfe 100755
--- a/cluster/slave/conn_manager.go
+++ b/cluster/slave/conn_manager.go
@@ -48,7 +48,7 @@ func (s *ConnManager) addSlaveConnection(target string, conn *SlaveConn) {
 	s.slavesConn[target] = conn
 }
 
-func (s *ConnManager) SetConnectToMasterAndSlaves(cfgs []*config.SlaveConfig) {
+func (s *ConnManager) SetConnectToMasterAndSlaves(cfgs []*config.SlaveConfig) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -63,11 +63,15 @@ func (s *ConnManager) SetConnectToMasterAndSlaves(cfgs []*config.SlaveConfig) {
 		log.Info("slave conn manager, add connect to slave", "add target", target)
 
 		// Tell the remote slave who I am.
-		if ok := conn.SendPing(); ok {
-			s.addSlaveConnection(target, conn)
+		if ok := conn.SendPing(); !ok {
+			// without this slave its shards would silently miss the cross-shard transactions
+			conn.client.Close()
+			return fmt.Errorf("failed to connect to slave %s at %s", cfg.ID, target)
 		}
+		s.addSlaveConnection(target, conn)
 		log.Info("slave conn manager, add connect to slave", "add target", target)
 	}
+	return nil
 }
 
 func (s *ConnManager) GetConnectionsByFullShardId(id uint32) []*SlaveConn {
diff --git a/cluster/slave/slave_grpc.go b/cluster/slave/slave_grpc.go
index fa5be83..49e8571 100755
--- a/cluster/slave/slave_grpc.go
+++ b/cluster/slave/slave_grpc.go
@@ -59,7 +59,9 @@ func (s *SlaveServerSideOp) MasterInfo(ctx context.Context, req *rpc.Request) (*
 	}
 
 	//ping with other slaves
-	s.slave.connManager.SetConnectToMasterAndSlaves(s.slave.clstrCfg.SlaveList)
+	if err = s.slave.connManager.SetConnectToMasterAndSlaves(s.slave.clstrCfg.SlaveList); err != nil {
+		return nil, err
+	}
 
 	log.Info("slave master info response", "master endpoint", s.slave.connManager.masterClient.target)
 
-- 
2.43.0


From a1e74e63f1f12d30635a86d222686ed001ca3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 64/66] fix: switching the transaction history on does not kill
 the slave at the next undone block

---
 core/minorblockchain_addon.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 2f9ed89..7acd1d6 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1640,7 +1640,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		}
 		if crossShard {
 			xShardReceiveTxList := rawdb.ReadConfirmedCrossShardTxList(m.db, mBlock.Hash())
-			if index >= uint32(len(xShardReceiveTxList.TXList)) {
+			if xShardReceiveTxList == nil || index >= uint32(len(xShardReceiveTxList.TXList)) {
 				return nil, nil, errors.New("tx's index bigger than txs's len ")
 			}
 			tx := xShardReceiveTxList.TXList[index]
@@ -1814,6 +1814,9 @@ func (m *MinorBlockChain) updateTxHistoryIndexFromBlock(block *types.MinorBlock,
 		return nil
 	}
 	xShardReceiveTxList := rawdb.ReadConfirmedCrossShardTxList(m.db, block.Hash())
+	if xShardReceiveTxList == nil { // the block was added while the history was switched off
+		return nil
+	}
 	for index, tx := range xShardReceiveTxList.TXList {
 		//ignore dummy coinbase reward deposits
 		if tx.IsFromRootChain && (tx.Value.Value == nil || tx.Value.Value.Cmp(new(big.Int)) == 0) {
-- 
2.43.0


From f2467e30f1750f03de3ed6b532237d77c5fbcc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:05 +0000
Subject: [PATCH 65/66] fix: a call sees the block it was asked about, not the
 head

---
 core/minorblockchain_addon.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 7acd1d6..36d9551 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -739,7 +739,7 @@ func (m *MinorBlockChain) ExecuteTx(tx *types.Transaction, fromAddress *account.
 	}
 	gp := new(GasPool).AddGas(mBlock.GasLimit().Uint64())
 	gasUsed := new(uint64)
-	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, m.CurrentHeader(), evmTx, gasUsed, *m.GetVMConfig())
+	ret, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, state, mBlock.Header(), evmTx, gasUsed, *m.GetVMConfig())
 	if err != nil {
 		return nil, err
 	}
@@ -1285,17 +1285,18 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 	}
 	evmTxStartGas := uint32(tx.EvmTx.Gas())
 	lo := uint32(21000 - 1)
-	preBlock := m.GetBlock(m.CurrentBlock().ParentHash())
+	currBlock := m.CurrentBlock() // the head may move meanwhile
+	preBlock := m.GetBlock(currBlock.ParentHash())
 	var preCoinbase *account.Recipient
 	if qkcCommon.IsNil(preBlock) {
-		if m.CurrentBlock().Number() != 0 {
+		if currBlock.Number() != 0 {
 			panic("bug fix")
 		}
 	} else {
 		preCoinbase = new(account.Recipient)
 		*preCoinbase = preBlock.Coinbase().Recipient
 	}
-	currentState, err := m.stateAtWithSenderDisallowMap(m.CurrentBlock(), preCoinbase)
+	currentState, err := m.stateAtWithSenderDisallowMap(currBlock, preCoinbase)
 	if err != nil {
 		return 0, err
 	}
@@ -1328,7 +1329,7 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 		gp := new(GasPool).AddGas(evmState.GetGasLimit().Uint64())
 		gasUsed := new(uint64)
 		receipt := new(types.Receipt)
-		_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
+		_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, evmState, currBlock.Header(), evmTx, gasUsed, m.vmConfig)
 
 		if receipt.Status == types.ReceiptStatusFailed {
 			return errors.New("failed")
-- 
2.43.0


From 2918aaec9f2b84fe218e07419a9a4156a2d7a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:25 +0000
Subject: [PATCH 66/66] fix: the head and the index of a reorganised chain are
 written together

reorg removed the entries of the old blocks in one batch and then wrote
head, canonical hash and transaction index of each new block one by one.
After a crash in between, the head is found with transactions of its chain
missing from the index for good. Write everything in one batch.
---
 core/minorblockchain.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index c864540..b99c8f6 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -1461,17 +1461,22 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		}
 	}
 
-	batch.Write()
-
 	// Insert the new chain, taking care of the proper incremental order
 	for i := len(newChain) - 1; i >= 0; i-- {
 		// insert the block in the canonical way, re-writing history
-		m.insert(newChain[i].(*types.MinorBlock))
+		m.writeHead(batch, newChain[i].(*types.MinorBlock))
 		// write lookup entries for hash based transaction/receipt searches
-		if err := m.putTxIndexFromBlock(m.db, newChain[i]); err != nil {
+		if err := m.putTxIndexFromBlock(batch, newChain[i]); err != nil {
 			return err
 		}
 	}
+	// in one batch: a head must not be found without the entries of its chain after a crash
+	if err := batch.Write(); err != nil {
+		return err
+	}
+	if len(newChain) > 0 {
+		m.currentBlock.Store(newChain[0].(*types.MinorBlock))
+	}
 
 	if len(oldChain) > 0 {
 		for _, iB := range oldChain {
-- 
2.43.0

