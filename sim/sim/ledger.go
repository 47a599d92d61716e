//go:build go1.25

package sim

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/QuarkChain/goquarkchain/account"
	"github.com/QuarkChain/goquarkchain/cluster/config"
	qcom "github.com/QuarkChain/goquarkchain/common"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
)

// The reference ledger: a small re-implementation of what a block does to
// balances, nonces, storage and receipts. It knows nothing of the node's code
// except its configuration and the blocks; the contracts it can execute are
// the handful the simulated clients use.

type kind byte

const (
	kNone kind = iota
	kCounter
	kRevert
	kVault
	kLoop
	kToggle
	kEnv
	kGasMgr
	kStake
)

type lacct struct {
	bal   map[uint64]*big.Int
	nonce uint64
	code  kind
	stor  map[common.Hash]*big.Int
}

func (a *lacct) copy() *lacct {
	n := &lacct{nonce: a.nonce, code: a.code, bal: map[uint64]*big.Int{}, stor: map[common.Hash]*big.Int{}}
	for k, v := range a.bal {
		n.bal[k] = v
	}
	for k, v := range a.stor {
		n.stor[k] = v
	}
	return n
}

func (a *lacct) empty() bool {
	if a.nonce != 0 || a.code != kNone {
		return false
	}
	for _, v := range a.bal {
		if v.Sign() != 0 {
			return false
		}
	}
	return true
}

type deposit struct {
	hash     common.Hash
	from, to common.Address
	fromKey  uint32
	toKey    uint32
	value    *big.Int
	token    uint64
	gas      uint64
	price    *big.Int
	rate     uint64 // percent of unused gas that is given back; 0: all
	data     []byte
	create   bool
	root     bool
	rootH    uint64
}

type llog struct {
	addr  common.Address
	topic common.Hash
	data  []byte
}

type lreceipt struct {
	hash    common.Hash
	failed  bool
	gas     uint64
	cum     uint64
	xshard  bool // a cross-shard transaction at its source
	deposit bool
	silent  bool // credited before contracts were enabled: no receipt
	create  common.Address
	logs    []llog
}

// lblock is what the model says about one minor block.
type lblock struct {
	err      string
	acc      map[common.Address]*lacct
	out      []*deposit
	consumed int
	gasUsed  uint64
	xGasUsed uint64
	reward   *big.Int // coinbase amount announced in the header
	fee      *big.Int
	minted   *big.Int
	receipts []*lreceipt
	number   uint64
	minedBy  []common.Address // newest last
	burnt    *big.Int         // fees burnt in this block
	into     []*deposit
}

type Ledger struct {
	w    *World
	memo map[common.Hash]*lblock
	list map[string][]*deposit
	rmem map[common.Hash]*big.Int
}

func (run *Run) ledger() *Ledger {
	l, _ := run.X["ledger"].(*Ledger)
	if l == nil {
		l = &Ledger{w: run.W, memo: map[common.Hash]*lblock{}, list: map[string][]*deposit{}, rmem: map[common.Hash]*big.Int{}}
		run.X["ledger"] = l
	}
	return l
}

func (l *Ledger) q() *config.QuarkChainConfig { return l.w.Clusters[0].Cfg.Quarkchain }

func ratMul(v *big.Int, r *big.Rat) *big.Int {
	x := new(big.Int).Mul(v, r.Num())
	return x.Div(x, r.Denom())
}

func decayed(v *big.Int, r *big.Rat, height, interval uint64) *big.Int {
	e := big.NewInt(int64(height / interval))
	x := new(big.Int).Mul(v, new(big.Int).Exp(r.Num(), e, nil))
	return x.Div(x, new(big.Int).Exp(r.Denom(), e, nil))
}

// Block evaluates a block from the registry (and with it all it depends on).
func (l *Ledger) Block(h common.Hash) *lblock {
	if b := l.memo[h]; b != nil {
		return b
	}
	b := l.w.Minor[h]
	if b == nil {
		b = l.w.findGenesis(h)
	}
	if b == nil {
		return &lblock{err: "unknown block " + short(h)}
	}
	r := l.eval(b)
	if !r.open() {
		l.memo[h] = r
	}
	return r
}

// open: the model lacks something to decide.
func (b *lblock) open() bool {
	return strings.Contains(b.err, "unknown block") || strings.Contains(b.err, "not in the registry")
}

// findGenesis: genesis blocks are made by the nodes, not by miners.
func (w *World) findGenesis(h common.Hash) *types.MinorBlock {
	for _, c := range w.Clusters {
		for _, id := range w.FullIDs {
			if s := c.Shard(id); s != nil {
				if b := s.MinorBlockChain.GetMinorBlock(h); b != nil && b.NumberU64() == 0 {
					w.Minor[h] = copyMinor(b)
					return w.Minor[h]
				}
			}
		}
	}
	return nil
}

func (l *Ledger) genesis(b *types.MinorBlock) *lblock {
	r := &lblock{acc: map[common.Address]*lacct{}, reward: new(big.Int), fee: new(big.Int), minted: new(big.Int), burnt: new(big.Int), minedBy: []common.Address{{}}}
	s := l.q().GetShardConfigByFullShardID(b.Branch().Value)
	for a, al := range s.Genesis.Alloc {
		x := &lacct{bal: map[uint64]*big.Int{}, stor: map[common.Hash]*big.Int{}}
		if old := r.acc[a.Recipient]; old != nil {
			x = old
		}
		for t, v := range al.Balances {
			id := qcom.TokenIDEncode(t)
			if x.bal[id] == nil {
				x.bal[id] = new(big.Int)
			}
			x.bal[id] = new(big.Int).Add(x.bal[id], v)
		}
		if len(al.Code) > 0 {
			x.code, x.nonce = kindOf(al.Code), 1
		}
		r.acc[a.Recipient] = x
	}
	return r
}

func kindOf(code []byte) kind {
	for k, c := range map[kind][]byte{kCounter: counterCode, kRevert: revertCode, kVault: vaultCode, kLoop: loopCode, kToggle: toggleCode, kEnv: envCode, kGasMgr: gasMgrCode, kStake: stakeCode} {
		if bytes.Equal(c, code) {
			return k
		}
	}
	return kNone
}

// initCode deploys code.
func initCode(code []byte) []byte {
	// PUSH1 len PUSH1 12 PUSH1 0 CODECOPY PUSH1 len PUSH1 0 RETURN
	return append([]byte{0x60, byte(len(code)), 0x60, 12, 0x60, 0, 0x39, 0x60, byte(len(code)), 0x60, 0, 0xf3}, code...)
}

var revertInit = common.FromHex("60006000fd")

// exec is one state transition under way.
type exec struct {
	l    *Ledger
	st   *lblock
	lock map[common.Address]*big.Int
	b    *types.MinorBlock
	rate *big.Rat
	qkc  uint64
}

// evm: contracts can be made and called, and what arrives is executed.
func (x *exec) evm() bool { return x.b.Time() >= x.l.q().EnableEvmTimeStamp }

func (x *exec) acct(a common.Address) *lacct {
	v := x.st.acc[a]
	if v == nil {
		v = &lacct{bal: map[uint64]*big.Int{}, stor: map[common.Hash]*big.Int{}}
		x.st.acc[a] = v
	}
	return v
}

func (x *exec) bal(a common.Address, t uint64) *big.Int {
	if v := x.acct(a).bal[t]; v != nil {
		return v
	}
	return new(big.Int)
}

func (x *exec) add(a common.Address, v *big.Int, t uint64) {
	x.acct(a).bal[t] = new(big.Int).Add(x.bal(a, t), v)
}

func (x *exec) sub(a common.Address, v *big.Int, t uint64) {
	x.acct(a).bal[t] = new(big.Int).Sub(x.bal(a, t), v)
}

func (x *exec) locked(a common.Address, v *big.Int) bool {
	lk := x.lock[a]
	return lk != nil && new(big.Int).Add(v, lk).Cmp(x.bal(a, x.qkc)) > 0
}

const (
	gTx, gCreate, gNonZero, gZero, gXshard = 21000, 53000, 68, 4, 9000
	gSload, gSet, gReset, gClearRefund     = 200, 20000, 5000, 15000
)

func intrinsic(data []byte, create, x bool) uint64 {
	g := uint64(gTx)
	if create {
		g = gCreate
	}
	for _, c := range data {
		if c == 0 {
			g += gZero
		} else {
			g += gNonZero
		}
	}
	if x {
		g += gXshard
	}
	return g
}

type outcome struct {
	left   uint64
	refund uint64
	failed bool
	logs   []llog
}

// runCode executes one of the known contracts. The value has been moved.
func (x *exec) runCode(addr, caller common.Address, value *big.Int, token uint64, gas uint64) (o outcome) {
	a := x.acct(addr)
	use := func(g uint64) bool {
		if o.left < g {
			o = outcome{failed: true}
			return false
		}
		o.left -= g
		return true
	}
	o.left = gas
	store := func(k common.Hash, v *big.Int) bool {
		old := a.stor[k]
		isz := old == nil || old.Sign() == 0
		switch {
		case isz && v.Sign() != 0:
			if !use(gSet) {
				return false
			}
		case !isz && v.Sign() == 0:
			if !use(gReset) {
				return false
			}
			o.refund += gClearRefund
		default:
			if !use(gReset) {
				return false
			}
		}
		a.stor[k] = v
		return true
	}
	load := func(k common.Hash) *big.Int {
		if v := a.stor[k]; v != nil {
			return v
		}
		return new(big.Int)
	}
	const logGas = 375 + 375 + 8*32
	switch a.code {
	case kCounter:
		v := new(big.Int).Add(load(common.Hash{}), big.NewInt(1))
		if !use(3+gSload+3+3+3+3) || !store(common.Hash{}, v) || !use(3+6+9+logGas) {
			return
		}
		o.logs = []llog{{addr, common.BigToHash(big.NewInt(0xaa)), common.BigToHash(v).Bytes()}}
	case kVault:
		k := common.BytesToHash(caller.Bytes())
		v := new(big.Int).Add(load(k), value)
		if !use(2+2+gSload+3+2) || !store(k, v) || !use(2+3+6+2+6+logGas) {
			return
		}
		o.logs = []llog{{addr, k, common.BigToHash(value).Bytes()}}
	case kStake:
		k := common.BytesToHash(caller.Bytes())
		v := new(big.Int)
		if !use(2 + 3 + 3 + 3 + 10 + 2 + 3 + 3 + 10) {
			return
		}
		if value.Sign() == 0 {
			if !use(1+3+2) || !store(k, v) {
				return
			}
		} else if v.Add(load(k), value); !use(2+2+gSload+3+2) || !store(k, v) {
			return
		}
	case kToggle:
		v := new(big.Int)
		if load(common.Hash{}).Sign() == 0 {
			v.SetInt64(1)
		}
		if !use(3+gSload+3+3) || !store(common.Hash{}, v) {
			return
		}
	case kEnv:
		if !use(2+2) || !store(common.BigToHash(new(big.Int).SetUint64(x.b.Time())), new(big.Int).SetUint64(x.b.NumberU64())) || !use(5*8+34+6+6*3) {
			return
		}
	case kGasMgr:
		if !use(3 + 2 + 3 + 3 + 3 + 3 + 5 + 3 + 6 + 6 + 3 + 3 + 6) {
			return
		}
	case kRevert:
		if !use(6+gSet) || !use(6) {
			return
		}
		o.failed, o.refund = true, 0
		return
	case kLoop:
		return outcome{failed: true}
	}
	// a contract that does not ask for the token cannot take a foreign one
	if a.code != kNone && token != x.qkc && value.Sign() != 0 {
		o.failed, o.logs, o.refund = true, nil, 0
	}
	return
}

func (x *exec) snapshot() map[common.Address]*lacct {
	m := map[common.Address]*lacct{}
	for k, v := range x.st.acc {
		m[k] = v.copy()
	}
	return m
}

func (x *exec) call(from, to common.Address, value *big.Int, token, gas uint64) outcome {
	if x.locked(from, value) {
		return outcome{failed: true}
	}
	snap := x.snapshot()
	if a := x.st.acc[to]; (a == nil || a.empty()) && value.Sign() == 0 {
		return outcome{left: gas}
	}
	x.sub(from, value, token)
	x.add(to, value, token)
	o := x.runCode(to, from, value, token, gas)
	if o.failed {
		x.st.acc = snap
	}
	return o
}

func createAddr(from common.Address, key uint32, nonce uint64) common.Address {
	d, _ := rlp.EncodeToBytes([]any{from, key, nonce})
	return common.BytesToAddress(crypto.Keccak256(d)[12:])
}

func (x *exec) create(from, addr common.Address, code []byte, value *big.Int, token, gas uint64, bump bool) outcome {
	if bump {
		x.acct(from).nonce++
	}
	if token != x.qkc {
		return outcome{left: gas, failed: true}
	}
	if a := x.st.acc[addr]; a != nil && (a.nonce != 0 || a.code != kNone) {
		return outcome{failed: true}
	}
	if x.locked(from, value) {
		return outcome{failed: true}
	}
	snap := x.snapshot()
	old := x.acct(addr)
	old.nonce = 1
	x.sub(from, value, token)
	x.add(addr, value, token)
	fail := func(left uint64) outcome { x.st.acc = snap; return outcome{left: left, failed: true} }
	if bytes.Equal(code, revertInit) {
		if gas < 6 {
			return fail(0)
		}
		return fail(gas - 6)
	}
	if len(code) == 0 {
		return outcome{left: gas}
	}
	n := uint64(len(code) - 12)
	words := (n + 31) / 32
	g := 9 + 3 + 3*words + 3*words + 6 + 200*n
	if gas < g {
		return fail(0)
	}
	x.acct(addr).code = kindOf(code[12:])
	return outcome{left: gas - g}
}

// fee credits the block's miner and burns the rest.
func (x *exec) fee(gas uint64, price *big.Int) {
	all := new(big.Int).Mul(new(big.Int).SetUint64(gas), price)
	part := ratMul(all, x.rate)
	x.add(x.b.Coinbase().Recipient, part, x.qkc)
	x.st.fee = new(big.Int).Add(x.st.fee, part)
	x.st.burnt = new(big.Int).Add(x.st.burnt, new(big.Int).Sub(all, part))
	x.st.gasUsed += gas
}

// giveBack returns the price of unused gas, or what part of it the manager of gas
// tokens lets the sender have; the rest is nobody's.
func (x *exec) giveBack(from common.Address, gas uint64, price *big.Int, rate uint64) {
	all := new(big.Int).Mul(new(big.Int).SetUint64(gas), price)
	part := new(big.Int).Mul(all, new(big.Int).SetUint64(rate))
	part.Div(part, big.NewInt(100))
	x.add(from, part, x.qkc)
	if rate != 100 {
		x.add(common.Address{}, new(big.Int).Sub(all, part), x.qkc)
	}
}

func (x *exec) finish(from common.Address, initial uint64, price *big.Int, rate uint64, o outcome) uint64 {
	if !o.failed {
		o.left += min((initial-o.left)/2, o.refund)
	}
	x.giveBack(from, o.left, price, rate)
	used := initial - o.left
	x.fee(used, price)
	return used
}

func (x *exec) tx(t *types.Transaction) string {
	e := t.EvmTx
	from, err := types.Sender(types.MakeSigner(e.NetworkId()), e)
	if err != nil {
		return "signature: " + err.Error()
	}
	q := x.l.q()
	id := x.b.Branch().Value
	fid, err1 := q.GetFullShardIdByFullShardKey(e.FromFullShardKey())
	tid, err2 := q.GetFullShardIdByFullShardKey(e.ToFullShardKey())
	if err1 != nil || err2 != nil || fid != id {
		return "not of this shard"
	}
	if e.NetworkId() != q.NetworkID {
		return "wrong network"
	}
	xs := fid != tid
	create := e.To() == nil
	ig := intrinsic(e.Data(), create, xs)
	price, gas, rate := e.GasPrice(), e.Gas(), uint64(100)
	a := x.acct(from)
	if a.nonce != e.Nonce() {
		return fmt.Sprintf("nonce %d, account is at %d", e.Nonce(), a.nonce)
	}
	if gas < ig {
		return "intrinsic gas"
	}
	if !x.evm() && (create || len(e.Data()) != 0) {
		return "no contracts yet"
	}
	if rb := x.l.w.Root[x.b.PrevRootBlockHash()]; xs && rb != nil {
		if x.l.w.Root0(tid) >= rb.Number() {
			return "destination not started"
		}
		if !x.l.w.Near(id, tid, rb.Number()) {
			return "destination is not near"
		}
	}
	gasCost := new(big.Int).Mul(new(big.Int).SetUint64(gas), price)
	need := map[uint64]*big.Int{e.GasTokenID(): gasCost}
	if v := need[e.TransferTokenID()]; v != nil {
		need[e.TransferTokenID()] = new(big.Int).Add(v, e.Value())
	} else {
		need[e.TransferTokenID()] = e.Value()
	}
	for k, v := range need {
		if x.bal(from, k).Cmp(v) < 0 {
			return "cannot afford"
		}
		if k != x.qkc && x.bal(from, k).Sign() == 0 {
			return "no such token"
		}
	}
	if x.st.gasUsed+gas > x.b.GasLimit().Uint64() {
		return "block gas limit"
	}
	if xs && gas > x.b.GetXShardGasLimit().Uint64() {
		return "cross-shard gas limit"
	}
	rc := &lreceipt{hash: t.Hash(), xshard: xs}
	if tok := e.GasTokenID(); tok != x.qkc {
		// the manager buys the gas token at its price
		price, rate = new(big.Int).Div(price, big.NewInt(2)), gasMgrRate
		cost := new(big.Int).Mul(new(big.Int).SetUint64(gas), price)
		if x.acct(GasMgrAddr).code != kGasMgr || price.Sign() == 0 {
			return "gas token"
		}
		if x.bal(GasMgrAddr, x.qkc).Cmp(cost) < 0 {
			return "gas token reserve"
		}
		x.l.w.Counts["gas-token-tx"]++
		x.sub(GasMgrAddr, cost, x.qkc)
		x.add(GasMgrAddr, gasCost, tok)
		x.sub(from, gasCost, tok)
	} else {
		x.sub(from, gasCost, x.qkc)
	}
	value, token := e.Value(), e.TransferTokenID()
	switch {
	case xs:
		x.acct(from).nonce++
		if x.locked(from, value) {
			rc.failed = true
			x.fee(gas, price)
			break
		}
		x.sub(from, value, token)
		d := &deposit{hash: t.Hash(), from: from, fromKey: e.FromFullShardKey(), toKey: e.ToFullShardKey(), value: value, token: token, gas: gas - ig, price: price, rate: rate, data: e.Data(), create: create}
		if create {
			d.to = createAddr(from, e.FromFullShardKey(), x.acct(from).nonce)
		} else {
			d.to = *e.To()
		}
		x.st.out = append(x.st.out, d)
		x.fee(ig-gXshard, price)
		if !x.evm() {
			d.gas = 0
			x.giveBack(from, gas-ig, price, rate)
			x.st.gasUsed += gXshard
		}
	case create:
		addr := createAddr(from, e.ToFullShardKey(), x.acct(from).nonce)
		o := x.create(from, addr, e.Data(), value, token, gas-ig, true)
		rc.failed = o.failed
		if !o.failed {
			rc.create = addr
		}
		rc.gas = x.finish(from, gas, price, rate, o)
	default:
		x.acct(from).nonce++
		o := x.call(from, *e.To(), value, token, gas-ig)
		rc.failed, rc.logs = o.failed, o.logs
		rc.gas = x.finish(from, gas, price, rate, o)
	}
	rc.cum = x.st.gasUsed
	x.st.receipts = append(x.st.receipts, rc)
	return ""
}

func (x *exec) deposit(d *deposit) *lreceipt {
	start := uint64(gXshard)
	if d.rootH >= x.l.q().XShardGasDDOSFixRootHeight {
		if d.root {
			start = 0
		}
	} else if d.price.Sign() == 0 {
		start = 0
	}
	if !x.evm() {
		// credited without running anything; what gas came along is lost
		x.add(d.to, d.value, d.token)
		x.fee(gXshard, d.price)
		x.st.burnt = new(big.Int).Add(x.st.burnt, new(big.Int).Mul(new(big.Int).SetUint64(d.gas), d.price))
		x.st.gasUsed += start
		x.st.gasUsed -= gXshard
		x.l.w.Counts["plain-deposit"]++
		return &lreceipt{hash: d.hash, deposit: true, silent: true}
	}
	x.add(d.from, d.value, d.token)
	initial := d.gas + start
	var o outcome
	rc := &lreceipt{hash: d.hash, deposit: true}
	if d.create {
		o = x.create(d.from, d.to, d.data, d.value, d.token, d.gas, false)
		if !o.failed {
			rc.create = d.to
		}
	} else {
		o = x.call(d.from, d.to, d.value, d.token, d.gas)
	}
	rc.failed, rc.logs = o.failed, o.logs
	// the start gas has been paid at the source
	if !o.failed {
		o.left += min((initial-o.left)/2, o.refund)
	}
	rate := d.rate
	if rate == 0 {
		rate = 100
	}
	x.giveBack(d.from, o.left, d.price, rate)
	rc.gas = initial - o.left
	x.fee(rc.gas, d.price)
	return rc
}

// deposits lists everything the root chain up to a block delivers to a shard.
func (l *Ledger) deposits(id uint32, root common.Hash) ([]*deposit, string) {
	key := fmt.Sprintf("%x/%x", id, root)
	if d, ok := l.list[key]; ok {
		return d, ""
	}
	b := l.w.Root[root]
	if b == nil {
		return nil, "root block not in the registry"
	}
	q := l.q()
	gen := uint64(q.GetGenesisRootHeight(id))
	var ds []*deposit
	if b.NumberU64() > gen {
		p, e := l.deposits(id, b.ParentHash())
		if e != "" {
			return nil, e
		}
		ds = append(ds, p...)
	}
	if b.NumberU64() >= gen {
		v := new(big.Int)
		if cid, err := q.GetFullShardIdByFullShardKey(b.Coinbase().FullShardKey); err == nil && cid == id {
			v = new(big.Int).Set(b.CoinbaseAmount().GetTokenBalance(l.w.QKC))
		}
		ds = append(ds, &deposit{hash: b.Hash(), from: b.Coinbase().Recipient, to: b.Coinbase().Recipient, toKey: b.Coinbase().FullShardKey, value: v, token: l.w.QKC,
			price: new(big.Int), root: true, rootH: b.NumberU64()})
		for _, m := range b.MinorBlockHeaders() {
			if m.Branch.Value == id {
				continue
			}
			pr := l.w.Root[m.PrevRootBlockHash]
			if pr == nil || pr.NumberU64() <= gen {
				continue
			}
			lb := l.Block(m.Hash())
			if lb.err != "" {
				return nil, lb.err
			}
			for _, d := range lb.out {
				if t, _ := q.GetFullShardIdByFullShardKey(d.toKey); t == id {
					n := *d
					n.rootH = b.NumberU64()
					ds = append(ds, &n)
				}
			}
		}
	}
	l.list[key] = ds
	return ds, ""
}

func (l *Ledger) eval(b *types.MinorBlock) *lblock {
	if b.NumberU64() == 0 {
		return l.genesis(b)
	}
	p := l.Block(b.ParentHash())
	if p.err != "" {
		return &lblock{err: p.err}
	}
	q := l.q()
	sc := q.GetShardConfigByFullShardID(b.Branch().Value)
	st := &lblock{acc: map[common.Address]*lacct{}, consumed: p.consumed, number: b.NumberU64(), fee: new(big.Int), burnt: new(big.Int)}
	for k, v := range p.acc {
		st.acc[k] = v.copy()
	}
	x := &exec{l: l, st: st, b: b, rate: q.LocalFeeRate, qkc: l.w.QKC}
	st.minedBy = append(append([]common.Address{}, p.minedBy...), b.Coinbase().Recipient)
	if sc.PoswConfig.Enabled {
		x.lock = map[common.Address]*big.Int{}
		n := max(0, len(st.minedBy)-int(sc.PoswConfig.WindowSize))
		for _, a := range st.minedBy[n:] {
			if x.lock[a] == nil {
				x.lock[a] = new(big.Int)
			}
			x.lock[a] = new(big.Int).Add(x.lock[a], sc.PoswConfig.TotalStakePerBlock)
		}
	}
	ds, e := l.deposits(b.Branch().Value, b.PrevRootBlockHash())
	if e != "" {
		return &lblock{err: e}
	}
	if st.consumed > len(ds) {
		return &lblock{err: fmt.Sprintf("the parent of %s consumed %d deliveries, its root chain has %d", short(b.Hash()), st.consumed, len(ds))}
	}
	var drc []*lreceipt
	for st.consumed < len(ds) {
		d := ds[st.consumed]
		st.consumed++
		st.into = append(st.into, d)
		drc = append(drc, x.deposit(d))
		if st.gasUsed >= b.GetXShardGasLimit().Uint64() {
			break
		}
	}
	st.xGasUsed = st.gasUsed
	for _, t := range b.Transactions() {
		if e := x.tx(t); e != "" {
			st.err = fmt.Sprintf("block %d %s of shard %x contains the invalid transaction %s: %s", b.NumberU64(), short(b.Hash()), b.Branch().Value, short(t.Hash()), e)
			return st
		}
	}
	st.receipts = append(st.receipts, drc...)
	st.minted = decayed(ratMul(sc.CoinbaseAmount, q.LocalFeeRate), q.BlockRewardDecayFactor, b.NumberU64(), sc.EpochInterval)
	x.add(b.Coinbase().Recipient, st.minted, x.qkc)
	st.reward = new(big.Int).Add(st.minted, st.fee)
	return st
}

// rootReward is what a root block may pay its miner.
func (l *Ledger) rootReward(b *types.RootBlock) *big.Int {
	q := l.q()
	sum := new(big.Int)
	for _, m := range b.MinorBlockHeaders() {
		sum.Add(sum, m.CoinbaseAmount.GetTokenBalance(l.w.QKC))
	}
	r := new(big.Rat).Quo(q.RewardTaxRate, q.LocalFeeRate)
	sum = ratMul(sum, r)
	return sum.Add(sum, decayed(q.Root.CoinbaseAmount, q.BlockRewardDecayFactor, b.NumberU64(), q.Root.EpochInterval))
}

const ledgerProps = "C05,C06,C03,C10,C13,C17"

// checkLedger compares a shard's canonical chain with the model.
func (run *Run) checkLedger(c *Cluster, id uint32) {
	w := run.W
	s := c.Shard(id)
	if s == nil {
		return
	}
	mbc := s.MinorBlockChain
	l := run.ledger()
	done, _ := run.X["ledgered"+c.Name].(map[common.Hash]int)
	if done == nil {
		done = map[common.Hash]int{}
		run.X["ledgered"+c.Name] = done
	}
	var chain []*types.MinorBlock
	for b := mbc.CurrentBlock(); b != nil; b = mbc.GetMinorBlock(b.ParentHash()) {
		chain = append([]*types.MinorBlock{b}, chain...)
		if b.NumberU64() == 0 {
			break
		}
	}
	for i, b := range chain {
		h := b.Hash()
		if w.Minor[h] == nil {
			run.learnMinor(b)
		}
		if w.Minor[h] == nil {
			if b.NumberU64() != 0 {
				run.Fail("C08,C15,C02", "unknown-minor", "%s: canonical block %d %s of shard %x was mined by nobody", c.Name, b.NumberU64(), short(h), id)
			}
			w.Minor[h] = copyMinor(b)
		}
		if done[h] == c.Boots+1 && i != len(chain)-1 {
			continue
		}
		done[h] = c.Boots + 1
		m := l.Block(h)
		if m.err != "" {
			run.Fail(ledgerProps+",C08", "ledger-invalid", "%s: canonical block %d %s of shard %x is wrong: %s", c.Name, b.NumberU64(), short(h), id, m.err)
		}
		run.compareState(c, id, mbc, b, m)
		run.compareReceipts(c, id, mbc, b, m)
	}
	run.Did("ledger")
}

func (run *Run) compareState(c *Cluster, id uint32, mbc *core.MinorBlockChain, b *types.MinorBlock, m *lblock) {
	w := run.W
	st, err := mbc.StateAt(b.Root())
	if err != nil {
		if b.NumberU64()+128 > mbc.CurrentBlock().NumberU64() && c.Boots == 1 && !c.Faulted { // (a fault may have its slave set up the shard again)
			run.Fail("C13", "ledger-state", "%s: no state for block %d of shard %x: %v", c.Name, b.NumberU64(), id, err)
		}
		return
	}
	if b.NumberU64() > 0 {
		if g := b.GasUsed().Uint64(); g != m.gasUsed {
			run.Fail(ledgerProps, "ledger-gas", "%s: block %d %s of shard %x used %d gas, by the rules it is %d", c.Name, b.NumberU64(), short(b.Hash()), id, g, m.gasUsed)
		}
		if g := b.CrossShardGasUsed().Uint64(); g != m.xGasUsed {
			run.Fail(ledgerProps, "ledger-xgas", "%s: block %d %s of shard %x used %d gas for deliveries, by the rules it is %d", c.Name, b.NumberU64(), short(b.Hash()), id, g, m.xGasUsed)
		}
		if v := b.CoinbaseAmount().GetTokenBalance(w.QKC); v.Cmp(m.reward) != 0 {
			run.Fail(ledgerProps, "ledger-reward", "%s: block %d %s of shard %x rewards %v, by the rules it is %v", c.Name, b.NumberU64(), short(b.Hash()), id, v, m.reward)
		}
	}
	var as []common.Address
	for a := range m.acc {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i][:], as[j][:]) < 0 })
	for _, a := range as {
		x := m.acc[a]
		for _, t := range []uint64{w.QKC, w.Tok2} {
			want := x.bal[t]
			if want == nil {
				want = new(big.Int)
			}
			if got := st.GetBalance(a, t); got.Cmp(want) != 0 {
				run.Fail(ledgerProps, "ledger-balance", "%s: after block %d %s of shard %x account %x has %v of token %d, by the rules it has %v (off by %v)", c.Name, b.NumberU64(), short(b.Hash()), id, a[:4], got, t, want, new(big.Int).Sub(got, want))
			}
		}
		if got := st.GetNonce(a); got != x.nonce {
			run.Fail(ledgerProps, "ledger-nonce", "%s: after block %d %s of shard %x account %x has nonce %d, by the rules %d", c.Name, b.NumberU64(), short(b.Hash()), id, a[:4], got, x.nonce)
		}
		for k, v := range x.stor {
			if got := st.GetState(a, k); got != common.BigToHash(v) {
				run.Fail(ledgerProps, "ledger-storage", "%s: after block %d %s of shard %x contract %x stores %x at %x, by the rules %x", c.Name, b.NumberU64(), short(b.Hash()), id, a[:4], got, k, v)
			}
		}
		if got := kindOf(st.GetCode(a)); got != x.code {
			run.Fail(ledgerProps, "ledger-code", "%s: after block %d of shard %x account %x has the wrong code", c.Name, b.NumberU64(), id, a[:4])
		}
	}
	run.Did("ledger-state")
}

func (run *Run) compareReceipts(c *Cluster, id uint32, mbc *core.MinorBlockChain, b *types.MinorBlock, m *lblock) {
	if b.NumberU64() == 0 {
		return
	}
	rs := mbc.GetReceiptsByHash(b.Hash())
	const P = "C06,C12,C05,C03"
	var want []*lreceipt
	for _, x := range m.receipts {
		if !x.silent {
			want = append(want, x)
		}
	}
	if len(rs) != len(want) {
		run.Fail(P, "ledger-receipts", "%s: block %d %s of shard %x has %d receipts, by the rules %d", c.Name, b.NumberU64(), short(b.Hash()), id, len(rs), len(want))
	}
	for i, r := range rs {
		x := want[i]
		bad := func(what string, got, want any) {
			run.Fail(P, "ledger-receipt", "%s: receipt %d (%s) of block %d of shard %x: %s is %v, by the rules %v", c.Name, i, short(x.hash), b.NumberU64(), id, what, got, want)
		}
		if r.TxHash != x.hash {
			bad("hash", short(r.TxHash), short(x.hash))
		}
		if (r.Status != types.ReceiptStatusSuccessful) != x.failed {
			bad("failed", r.Status == 0, x.failed)
		}
		if !x.xshard && r.GasUsed != x.gas {
			bad("gas used", r.GasUsed, x.gas)
		}
		if !x.deposit && r.CumulativeGasUsed != x.cum {
			bad("cumulative gas", r.CumulativeGasUsed, x.cum)
		}
		if r.ContractAddress != x.create {
			bad("contract address", r.ContractAddress, x.create)
		}
		if len(r.Logs) != len(x.logs) {
			bad("log count", len(r.Logs), len(x.logs))
		}
		for k, lg := range r.Logs {
			y := x.logs[k]
			if lg.Recipient != y.addr || len(lg.Topics) != 1 || lg.Topics[0] != y.topic || !bytes.Equal(lg.Data, y.data) {
				bad("log", lg, y)
			}
		}
	}
	run.Did("ledger-receipts")
}

// checkSupply: what exists is what genesis and rewards made, minus what was burnt.
func (run *Run) checkSupply(c *Cluster) {
	w, l := run.W, run.ledger()
	rc := c.RootChain()
	if rc == nil {
		return
	}
	for _, b := range w.rootPath(rc.CurrentBlock().Hash()) {
		if b.NumberU64() == 0 {
			continue
		}
		if got, want := b.CoinbaseAmount().GetTokenBalance(w.QKC), l.rootReward(b); got.Cmp(want) != 0 {
			run.Fail("C06,C09", "root-reward", "%s: root block %d %s rewards %v, by the rules %v", c.Name, b.NumberU64(), short(b.Hash()), got, want)
		}
		if n := len(b.CoinbaseAmount().GetBalanceMap()); n > 1 {
			run.Fail("C06,C09", "root-reward", "%s: root block %d rewards %d kinds of token", c.Name, b.NumberU64(), n)
		}
	}
	tot := map[uint64]*big.Int{w.QKC: new(big.Int), w.Tok2: new(big.Int)}
	want := map[uint64]*big.Int{w.QKC: new(big.Int), w.Tok2: new(big.Int)}
	for _, id := range w.FullIDs {
		s := c.Shard(id)
		if s == nil {
			continue
		}
		mbc := s.MinorBlockChain
		st, err := mbc.StateAt(mbc.CurrentBlock().Root())
		if err != nil {
			return
		}
		// genesis, minted and burnt along the canonical chain
		for b := mbc.CurrentBlock(); ; b = mbc.GetMinorBlock(b.ParentHash()) {
			m := l.Block(b.Hash())
			if b.NumberU64() == 0 {
				for _, a := range m.acc {
					for t, v := range a.bal {
						want[t].Add(want[t], v)
					}
				}
				break
			}
			want[w.QKC].Add(want[w.QKC], m.minted)
			want[w.QKC].Sub(want[w.QKC], m.burnt)
			for _, d := range m.into { // arrivals
				want[d.token].Add(want[d.token], d.value)
				want[w.QKC].Add(want[w.QKC], new(big.Int).Mul(new(big.Int).SetUint64(d.gas), d.price))
				if !d.root {
					want[w.QKC].Add(want[w.QKC], new(big.Int).Mul(big.NewInt(gXshard), d.price))
				}
			}
			for _, d := range m.out { // departures
				want[d.token].Sub(want[d.token], d.value)
				want[w.QKC].Sub(want[w.QKC], new(big.Int).Mul(new(big.Int).SetUint64(d.gas+gXshard), d.price))
			}
		}
		dump := st.RawDump()
		for t := range tot {
			for _, a := range dump.Accounts {
				if v := a.Balance[t]; v != nil {
					tot[t].Add(tot[t], v)
				}
			}
		}
	}
	for t, v := range want {
		if tot[t].Cmp(v) != 0 {
			run.Fail("C05,C06", "supply", "%s: all accounts together hold %v of token %d, but %v were ever issued and not burnt", c.Name, tot[t], t, v)
		}
	}
	run.Did("supply")
}

var _ = account.Address{}
