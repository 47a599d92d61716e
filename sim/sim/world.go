//go:build go1.25

package sim

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/QuarkChain/goquarkchain/core/vm"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/log"
)

// Params is the shape of one simulated deployment.
type Params struct {
	Clusters, Chains, ShardSize, Slaves int
	RootTime, MinorTime                 uint32
	RootDiff, MinorDiff                 uint64
	RootFactor, MinorFactor             uint32
	RootCutoff, MinorCutoff             uint32
	ExtraBlocks                         uint32
	Epoch, RootEpoch                    uint64
	Accounts                            int
	GasLimit                            uint64
	PoSW                                bool
	PoSWWindow                          uint64
	PoSWDivider                         uint64
	PoSWStake                           *big.Int
	RootPoSW                            bool
	RootWindow, RootDivider             uint64
	RootStake                           *big.Int
	PoSWEnableAt, PoSWBoostAt           uint64 // block times
	EVMAt                               uint64
	PoSWDecayAt, PoSWBoostStep          uint64
	History                             bool
	MaxStaleRoot                        uint64
	LateShard                           uint32 // genesis root height of the last shard
	LateCount                           int    // so many last shards start late (0: one)
	PoolLimit                           uint64
	MinPoolPrice, MinMinePrice          int64
	GasMgr                              int64 // what the manager of native tokens has to buy gas tokens with
	DDOSFixHeight                       uint64
	Balance                             *big.Int
	RemoteMine                          bool
	Guardian                            bool
	NoPruning                           bool
	Overlap                             bool // every slave also runs another slave's shard
}

// DefaultParams suits most scenarios.
func DefaultParams() Params {
	return Params{
		Clusters: 1, Chains: 1, ShardSize: 2, Slaves: 1,
		RootTime: 60, MinorTime: 10,
		RootDiff: 500, MinorDiff: 100, RootFactor: 8, MinorFactor: 8, RootCutoff: 40, MinorCutoff: 7,
		ExtraBlocks: 3, Epoch: 1000000, RootEpoch: 1000000, Accounts: 4, GasLimit: 30000 * 400,
		PoSWWindow: 8, PoSWDivider: 20, PoSWStake: new(big.Int).Mul(big.NewInt(1000), config.QuarkashToJiaozi),
		RootWindow: 4, RootDivider: 10, RootStake: new(big.Int).Mul(big.NewInt(1000), config.QuarkashToJiaozi),
		History: true, MaxStaleRoot: 22500, PoolLimit: 10000, MinPoolPrice: 1, MinMinePrice: 1, DDOSFixHeight: 90000,
		Balance: new(big.Int).Mul(big.NewInt(1000000), config.QuarkashToJiaozi),
	}
}

// Genesis contracts, the same in every shard.
var (
	// counts its calls in slot 0 and logs the count under topic 0xaa
	CounterAddr = common.HexToAddress("0x00000000000000000000000000000000000c0de1")
	counterCode = common.FromHex("60005460010180600055600052" + "60aa60206000a1" + "00")
	// always reverts, after writing
	RevertAddr = common.HexToAddress("0x00000000000000000000000000000000000c0de2")
	revertCode = common.FromHex("600160005560006000fd")
	// stores the call value under the caller and logs value under topic caller
	VaultAddr = common.HexToAddress("0x00000000000000000000000000000000000c0de3")
	vaultCode = common.FromHex("3433540133553460005233" + "60206000a1" + "00")
	// burns all gas
	LoopAddr = common.HexToAddress("0x00000000000000000000000000000000000c0de4")
	loopCode = common.FromHex("5b600056")
	// flips slot 0 between 0 and 1
	// stands for the stakes contract of the root chain: a call with value adds to
	// the caller's stake, one without takes it back to nothing, and the query of
	// the root chain answers (stake, staker)
	StakeAddr  = vm.SystemContracts[vm.ROOT_CHAIN_POSW].Address()
	stakeCode  = common.FromHex("36602414601957341560135734335401335500" + "5b6000335500" + "5b60043580546000526020526040" + "6000f3")
	ToggleAddr = common.HexToAddress("0x00000000000000000000000000000000000c0de5")
	toggleCode = common.FromHex("60005415600055" + "00")
	// notes the number of the block under its time, and answers with number, time, coinbase, difficulty, gas limit and parent hash of the block it runs in
	EnvAddr = common.HexToAddress("0x00000000000000000000000000000000000c0de6")
	envCode = common.FromHex("434255" + "43600052" + "42602052" + "41604052" + "44606052" + "45608052" + "600143034060a052" + "60c06000f3")
	// stands for the manager of native tokens: it takes gas in any token at half of the
	// price, and gives back 60 % of what is not used
	GasMgrAddr = vm.SystemContracts[vm.GENERAL_NATIVE_TOKEN].Address()
	gasMgrCode = common.FromHex("602036033560029004602052" + "603c600052" + "60406000f3")
)

const gasMgrRate = 60

type Acct struct {
	Key  *ecdsa.PrivateKey
	Recp common.Address
}

// World is one simulated deployment: clusters, network, disks, clock.
type World struct {
	P        Params
	Run      *Run
	Net      *Net
	Clusters []*Cluster
	Accts    []*Acct
	FullIDs  []uint32
	QKC      uint64
	Tok2     uint64

	Minor map[common.Hash]*types.MinorBlock
	Root  map[common.Hash]*types.RootBlock
	Txs   map[common.Hash]*types.Transaction

	Events  []NodeEvent
	Counts  map[string]int
	RPCs    int
	P2PMsgs int
	Verbose bool
	LogLvl  log.Lvl
	Trace   []string
	keep    bool
	hash    uint64 // running hash of the trace, for replay comparison
	lines   int

	nextTag  uint32
	byTag    map[uint32]*Node
	byHost   map[string]*Node
	links    map[*Link]bool
	start    time.Time
	Broken   string // the simulator itself went wrong
	OnStall  func(what string)
	jobs     int // driver jobs under way
	nlinks   int
	NoRejoin bool
	ClockOff bool // some clock was off by more than any rule allows
	Tolerate bool // nodes may end themselves from here on
}

// Cluster is one full node of the network: a master and its slaves.
type Cluster struct {
	W        *World
	Idx      int
	Name     string
	Cfg      *config.ClusterConfig
	Switched bool // the operator has switched the transaction history on or off
	M        *Node
	S        []*Node
	Faulted  bool
	Boots    int
	api      *apiConn
}

// simNow is the time of the simulation: the clocks of the nodes may be off.
func simNow() time.Time { return time.Unix(0, runtime.SimNow()) }

func (w *World) Now() time.Duration { return simNow().Sub(w.start) }

func (w *World) nameOf(tag uint32) string {
	if n := w.byTag[tag]; n != nil {
		return n.Name
	}
	return "driver"
}

func (w *World) tracef(f string, a ...any) {
	s := unpoint(fmt.Sprintf("%9.3fs ", w.Now().Seconds()) + fmt.Sprintf(f, a...))
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.lines++
	if w.keep {
		w.Trace = append(w.Trace, s)
	}
	if w.Verbose {
		fmt.Fprintln(os.Stderr, s)
	}
}

var heapAddr = regexp.MustCompile(`0xc0[0-9a-f]{8}\b`)

// unpoint hides addresses of the heap, which some error messages print: they differ
// between executions that are the same otherwise.
func unpoint(s string) string {
	if !strings.Contains(s, "0xc0") {
		return s
	}
	return heapAddr.ReplaceAllString(s, "0xHEAP")
}

func (w *World) count(k string) { w.Counts[k]++ }

// notHarness reports whether the innermost frames are the code under test.
func notHarness(frames string) bool {
	for _, f := range strings.Split(frames, " < ") {
		if strings.Contains(f, "zzverif/sim/node.go") {
			continue // the panic hook
		}
		return f != "" && !strings.Contains(f, "zzverif")
	}
	return false
}

func (w *World) driverPanic(v any, st string) {
	if w.Run != nil && w.Run.other != nil {
		w.Run.giveUp()
	}
	if ff := firstFrames(trimStack(st), 8); w.Run != nil && notHarness(ff) {
		w.Run.Fail("*", "query-panic", "a query of a node panics: %v [%s]", v, ff)
	}
	fmt.Fprintf(os.Stderr, "SIMULATOR PANIC: %v\n%s\n", v, st)
	os.Exit(3)
}

// NewWorld lays out the deployment without starting it.
func NewWorld(p Params, seed uint64, verbose, keep bool) *World {
	w := &World{P: p, Minor: map[common.Hash]*types.MinorBlock{}, Root: map[common.Hash]*types.RootBlock{},
		Txs: map[common.Hash]*types.Transaction{}, Counts: map[string]int{}, byTag: map[uint32]*Node{},
		byHost: map[string]*Node{}, links: map[*Link]bool{}, start: simNow(), Verbose: verbose, keep: keep,
		LogLvl: log.LvlError, QKC: qcom.TokenIDEncode("QKC"), Tok2: qcom.TokenIDEncode("QETH"), hash: 14695981039346656037}
	w.Net = &Net{w: w, r: NewRng(Mix(seed, 77)), SlowMax: 2 * time.Second, P2PSlowMax: 5 * time.Second}
	rand.Reader = &randReader{NewRng(Mix(seed, 99))}
	Cur = w
	installHooks()
	for i := 0; i < p.Accounts; i++ {
		k, err := crypto.HexToECDSA(fmt.Sprintf("%064x", 0xabc000+i))
		if err != nil {
			panic(err)
		}
		w.Accts = append(w.Accts, &Acct{k, crypto.PubkeyToAddress(k.PublicKey)})
	}
	for i := 0; i < p.Clusters; i++ {
		w.Clusters = append(w.Clusters, w.newCluster(i))
	}
	return w
}

func (w *World) newCluster(i int) *Cluster {
	p := w.P
	c := &Cluster{W: w, Idx: i, Name: fmt.Sprintf("c%d", i)}
	cfg := config.NewClusterConfig()
	cfg.GenesisDir = ""
	cfg.EnableTransactionHistory = p.History
	cfg.NoPruning = p.NoPruning
	q := cfg.Quarkchain
	q.Update(uint32(p.Chains), uint32(p.ShardSize), p.RootTime, p.MinorTime)
	q.GuardianPublicKey = nil
	if p.Guardian {
		q.GuardianPublicKey = crypto.FromECDSAPub(&w.Accts[0].Key.PublicKey)
		if i == 0 {
			q.RootSignerPrivateKey = crypto.FromECDSA(w.Accts[0].Key)
		}
	}
	q.EnableEvmTimeStamp = max(1, p.EVMAt)
	q.MinTXPoolGasPrice, q.MinMiningGasPrice = big.NewInt(p.MinPoolPrice), big.NewInt(p.MinMinePrice)
	q.TransactionQueueSizeLimitPerShard = p.PoolLimit
	q.XShardGasDDOSFixRootHeight = p.DDOSFixHeight
	q.Root.ConsensusType = config.PoWDoubleSha256
	q.Root.ConsensusConfig.RemoteMine = p.RemoteMine
	q.Root.Genesis.Difficulty = p.RootDiff
	q.Root.DifficultyAdjustmentFactor, q.Root.DifficultyAdjustmentCutoffTime = p.RootFactor, p.RootCutoff
	q.Root.EpochInterval = p.RootEpoch
	q.Root.MaxStaleRootBlockHeightDiff = p.MaxStaleRoot
	q.Root.CoinbaseAddress = account.NewAddress(w.Accts[0].Recp, 0)
	q.Root.PoSWConfig.Enabled = p.RootPoSW
	q.Root.PoSWConfig.WindowSize, q.Root.PoSWConfig.DiffDivider = p.RootWindow, p.RootDivider
	q.Root.PoSWConfig.TotalStakePerBlock = new(big.Int).Set(p.RootStake)
	q.Root.PoSWConfig.BoostTimestamp, q.Root.PoSWConfig.BoostSteps = p.PoSWBoostAt, 2
	q.Root.PoSWConfig.BoostStepInterval = max(1, p.PoSWBoostStep)
	q.EnablePoswStakingDecayTimestamp = p.PoSWDecayAt
	if p.RootPoSW {
		q.RootChainPoSWContractBytecodeHash = crypto.Keccak256Hash(stakeCode)
	}
	q.GRPCHost, q.GRPCPort = fmt.Sprintf("c%dm", i), 38591
	cfg.P2P.PrivKey = nodeKey(i)
	ids := q.GetGenesisShardIds()
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	w.FullIDs = ids
	for k, id := range ids {
		s := q.GetShardConfigByFullShardID(id)
		s.ConsensusType = config.PoWDoubleSha256
		s.ConsensusConfig.RemoteMine = p.RemoteMine
		s.Genesis.Difficulty = p.MinorDiff
		s.Genesis.GasLimit = p.GasLimit
		s.DifficultyAdjustmentFactor, s.DifficultyAdjustmentCutoffTime = p.MinorFactor, p.MinorCutoff
		s.ExtraShardBlocksInRootBlock = p.ExtraBlocks
		s.EpochInterval = p.Epoch
		s.CoinbaseAddress = account.NewAddress(w.Accts[0].Recp, id)
		s.PoswConfig.Enabled = p.PoSW
		s.PoswConfig.EnableTimestamp = p.PoSWEnableAt
		s.PoswConfig.BoostTimestamp, s.PoswConfig.BoostSteps = p.PoSWBoostAt, 2
		s.PoswConfig.BoostStepInterval = max(1, p.PoSWBoostStep)
		s.PoswConfig.WindowSize = p.PoSWWindow
		s.PoswConfig.DiffDivider = p.PoSWDivider
		s.PoswConfig.TotalStakePerBlock = new(big.Int).Set(p.PoSWStake)
		if k >= len(ids)-max(1, p.LateCount) && p.LateShard > 0 {
			s.Genesis.RootHeight = p.LateShard
		}
		for _, a := range w.Accts {
			s.Genesis.Alloc[account.NewAddress(a.Recp, id)] = config.Allocation{Balances: map[string]*big.Int{"QKC": new(big.Int).Set(p.Balance), "QETH": new(big.Int).Set(p.Balance)}}
		}
		for _, g := range []struct {
			a common.Address
			c []byte
		}{{CounterAddr, counterCode}, {RevertAddr, revertCode}, {VaultAddr, vaultCode}, {LoopAddr, loopCode}, {ToggleAddr, toggleCode}, {EnvAddr, envCode}} {
			s.Genesis.Alloc[account.NewAddress(g.a, id)] = config.Allocation{Balances: map[string]*big.Int{}, Code: g.c}
		}
		if p.GasMgr > 0 {
			s.Genesis.Alloc[account.NewAddress(GasMgrAddr, id)] = config.Allocation{Balances: map[string]*big.Int{"QKC": big.NewInt(p.GasMgr)}, Code: gasMgrCode}
		}
		if p.RootPoSW && k == 0 {
			s.Genesis.Alloc[account.NewAddress(StakeAddr, id)] = config.Allocation{Balances: map[string]*big.Int{}, Code: stakeCode}
		}
	}
	cfg.SlaveList = nil
	for k := 0; k < p.Slaves; k++ {
		s := config.NewDefaultSlaveConfig()
		s.ID, s.IP, s.Port = fmt.Sprintf("S%d", k), fmt.Sprintf("c%ds%d", i, k), 38000
		for j, id := range ids {
			if j%p.Slaves == k || p.Overlap && (j+1)%p.Slaves == k {
				s.FullShardList = append(s.FullShardList, id)
			}
		}
		cfg.SlaveList = append(cfg.SlaveList, s)
	}
	c.Cfg = cfg
	c.M = &Node{W: w, Name: c.Name + "m", Host: fmt.Sprintf("c%dm:38591", i), Cluster: c, IsMast: true, Disks: map[string]*Disk{}}
	w.byHost[c.M.Host] = c.M
	for k, s := range cfg.SlaveList {
		n := &Node{W: w, Name: fmt.Sprintf("%ss%d", c.Name, k), Host: fmt.Sprintf("%s:%d", s.IP, s.Port), Cluster: c, SlvCfg: s, Disks: map[string]*Disk{}}
		w.byHost[n.Host] = n
		c.S = append(c.S, n)
	}
	return c
}

func (c *Cluster) Nodes() []*Node { return append(append([]*Node{}, c.S...), c.M) }

// Up reports whether every process of the cluster runs and is connected.
func (c *Cluster) Up() bool {
	if !c.M.Alive || !c.M.Up {
		return false
	}
	for _, s := range c.S {
		if !s.Alive || !s.Ready {
			return false
		}
	}
	return true
}

// Boot starts the slaves, then the master, as deployments do.
func (c *Cluster) Boot() error {
	c.Boots++
	for _, s := range c.S {
		if s.Alive {
			s.kill("restart")
		}
	}
	if c.M.Alive {
		c.M.kill("restart")
	}
	c.Faulted = false
	for _, s := range c.S {
		if err := s.StartSlave(); err != nil {
			return err
		}
	}
	if err := c.M.StartMaster(); err != nil {
		return err
	}
	c.M.Up = true
	c.W.tracef("%s is up (boot %d)", c.Name, c.Boots)
	return nil
}

// Kill ends every process of the cluster.
func (c *Cluster) Kill(why string) {
	for _, n := range c.Nodes() {
		n.kill(why)
	}
}

// Shard returns the cluster's backend for a full shard id, or nil.
func (c *Cluster) Shard(id uint32) *shard.ShardBackend {
	if n := c.SlaveOf(id); n != nil {
		return n.Shard(id)
	}
	return nil
}

func (c *Cluster) SlaveOf(id uint32) *Node {
	for _, n := range c.S {
		for _, f := range n.SlvCfg.FullShardList {
			if f == id {
				return n
			}
		}
	}
	return nil
}

// RootChain returns the master's chain.
func (c *Cluster) RootChain() *core.RootBlockChain {
	if c.M.Master == nil {
		return nil
	}
	return fieldOf[*core.RootBlockChain](c.M.Master)
}

// fieldOf finds the field of a given type, whatever its name.
func fieldOf[T any](ptr any) (r T) {
	v := reflect.ValueOf(ptr).Elem()
	want := reflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == want {
			return *(*T)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	panic(fmt.Sprintf("no field of type %v in %v", want, v.Type()))
}

// Busy counts the calls and messages under way among live nodes.
func (w *World) Busy() int {
	n := w.jobs
	for _, c := range w.Clusters {
		for _, d := range c.Nodes() {
			if d.Alive {
				n += d.inflight + d.jobs
			}
		}
	}
	for l := range w.links {
		if l.stall == nil {
			n += l.pending
		}
	}
	return n
}

// Settle lets the system run until nothing is under way, for at most d of
// simulated time. It reports whether it got there.
func (w *World) Settle(d time.Duration) bool {
	end := simNow().Add(d)
	calm := 0
	for calm < 4 {
		synctest.Wait()
		if w.Busy() == 0 {
			calm++
		} else {
			calm = 0
		}
		if simNow().After(end) {
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
	synctest.Wait()
	return true
}

// Pause advances the simulated clock.
func (w *World) Pause(d time.Duration) { time.Sleep(d) }

// Collect runs the garbage collector at a quiescent point.
func (w *World) Collect() { synctest.Wait(); runtime.GC() }

// ---- mining ----

// Seal finds the nonce. The simulated miner is honest.
func Seal(b types.IBlock, diff *big.Int) types.IBlock {
	target := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), diff)
	seal := b.IHeader().SealHash()
	var buf [40]byte
	copy(buf[:32], seal[:])
	tb := make([]byte, 32)
	if target.BitLen() > 256 {
		for i := range tb {
			tb[i] = 0xff
		}
	} else {
		t := target.Bytes()
		copy(tb[32-len(t):], t)
	}
	for nonce := uint64(1); ; nonce++ {
		binary.BigEndian.PutUint64(buf[32:], nonce)
		a := sha256.Sum256(buf[:])
		h := sha256.Sum256(a[:])
		if bytes.Compare(h[:], tb) <= 0 {
			return b.WithMingResult(nonce, common.Hash{}, nil)
		}
	}
}

// Sealed tells whether a header carries the work for a difficulty.
func Sealed(b types.IHeader, diff *big.Int) bool {
	target := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), diff)
	seal := b.SealHash()
	var buf [40]byte
	copy(buf[:32], seal[:])
	binary.BigEndian.PutUint64(buf[32:], b.GetNonce())
	a := sha256.Sum256(buf[:])
	h := sha256.Sum256(a[:])
	return new(big.Int).SetBytes(h[:]).Cmp(target) <= 0
}

// WrongSeal finds a nonce that fails the difficulty.
func WrongSeal(b types.IBlock, diff *big.Int) types.IBlock {
	target := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 256), diff)
	seal := b.IHeader().SealHash()
	var buf [40]byte
	copy(buf[:32], seal[:])
	for nonce := uint64(1); ; nonce++ {
		binary.BigEndian.PutUint64(buf[32:], nonce)
		a := sha256.Sum256(buf[:])
		h := sha256.Sum256(a[:])
		if new(big.Int).SetBytes(h[:]).Cmp(target) > 0 {
			return b.WithMingResult(nonce, common.Hash{}, nil)
		}
	}
}

func (w *World) noteMinor(b *types.MinorBlock) *types.MinorBlock {
	w.Minor[b.Hash()] = b
	for _, tx := range b.Transactions() {
		w.Txs[tx.Hash()] = tx
	}
	return b
}
func (w *World) noteRoot(b *types.RootBlock) *types.RootBlock { w.Root[b.Hash()] = b; return b }

// MakeMinor has a cluster build a block on its own head and seals it.
func (c *Cluster) MakeMinor(id uint32, coinbase account.Address) (b *types.MinorBlock, err error) {
	s := c.Shard(id)
	if s == nil {
		return nil, fmt.Errorf("no such shard")
	}
	err = fmt.Errorf("no answer")
	c.SlaveOf(id).Do(time.Minute, func() {
		var blk types.IBlock
		var diff *big.Int
		if blk, diff, _, err = s.CreateBlockToMine(&coinbase); err == nil {
			b = Seal(blk, diff).(*types.MinorBlock)
		}
	})
	if err == nil && b == nil {
		err = fmt.Errorf("died while sealing")
	}
	if err == nil {
		c.W.noteMinor(b)
	}
	return
}

// MakeRoot has a cluster build a root block on its own head and seals it.
func (c *Cluster) MakeRoot(coinbase account.Address) (b *types.RootBlock, err error) {
	err = fmt.Errorf("no answer")
	c.M.Do(time.Minute, func() {
		var blk types.IBlock
		var diff *big.Int
		if blk, diff, _, err = c.M.Master.CreateBlockToMine(&coinbase); err == nil {
			b = Seal(blk, diff).(*types.RootBlock)
		}
	})
	if err == nil && b == nil {
		err = fmt.Errorf("died while sealing")
	}
	if err == nil {
		c.W.noteRoot(b)
	}
	return
}

// AddMinor hands a sealed block to the cluster the way its miner does.
func (c *Cluster) AddMinor(b *types.MinorBlock) error {
	s := c.Shard(b.Branch().Value)
	if s == nil {
		return fmt.Errorf("no such shard")
	}
	err := fmt.Errorf("no answer")
	c.SlaveOf(b.Branch().Value).Do(10*time.Minute, func() { err = s.InsertMinedBlock(copyMinor(b)) })
	return err
}

// AddRoot hands a sealed root block to the cluster the way its miner does.
func (c *Cluster) AddRoot(b *types.RootBlock) error {
	err := fmt.Errorf("no answer")
	c.M.Do(10*time.Minute, func() { err = c.M.Master.InsertMinedBlock(copyRoot(b)) })
	return err
}

func short(h common.Hash) string { return h.Hex()[2:8] }
