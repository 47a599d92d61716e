//go:build go1.25

package sim

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/core"
	"github.com/QuarkChain/goquarkchain/core/types"
	qrpc "github.com/QuarkChain/goquarkchain/rpc"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"golang.org/x/net/websocket"
)

// Subscriptions: clients on websockets of the slaves, through the real HTTP
// server, websocket framing, RPC server, notifier and event system, over
// in-memory streams. What a client was told is replayed and compared with the
// canonical chain.

type listener struct {
	run   *Run
	c     *Cluster
	node  *Node
	tag   uint32
	boots int
	id    uint32
	name  string
	kind  string
	wire  *wireEnd
	ws    *websocket.Conn

	sub   string        // subscription id
	got   []note        // everything received, in order
	seen  int           // judged so far
	gone  bool          // the connection ended
	left  bool          // by the client itself
	muted bool          // it once stopped reading
	stop  chan struct{} // non-nil: not reading until closed
	slow  time.Duration // between reads
	calls map[int]chan *note

	addr   *common.Address // logs: only of this contract
	topic  *common.Hash
	have   map[string]int // logs: what the notifications leave standing
	want   []common.Hash  // heads: as seen from outside, to be told in this order
	told   int            // of those
	last   common.Hash
	heads  int
	ignore map[common.Hash]bool // transactions: pending before
	due    map[common.Hash]bool
	txs    map[common.Hash]int
}

type note struct {
	ID     *int            `json:"id"`
	Method string          `json:"method"`
	Result json.RawMessage `json:"result"`
	Error  json.RawMessage `json:"error"`
	Params struct {
		Subscription string          `json:"subscription"`
		Result       json.RawMessage `json:"result"`
	} `json:"params"`
	at time.Duration
}

type gate struct {
	tag uint32
	lis map[uint32]*wireListener
}

// wsGate is the websocket endpoints of a slave, one for each of its shards.
func (run *Run) wsGate(n *Node) *gate {
	key := "gate " + n.Name
	g, _ := run.X[key].(*gate)
	if g != nil && g.tag == n.Tag {
		return g
	}
	g = &gate{tag: n.Tag, lis: map[uint32]*wireListener{}}
	if !n.Do(time.Minute, func() {
		ctx := fieldOf[*service.ServiceContext](n.Slave)
		cfg := &service.Config{WSEndpoints: map[uint32]string{}}
		for _, id := range n.SlvCfg.FullShardList {
			cfg.WSEndpoints[id] = "sim"
		}
		setField(ctx, "config", cfg)
		apis := n.Slave.APIs()
		for _, id := range n.SlvCfg.FullShardList {
			h := qrpc.NewServer()
			for _, a := range apis { // as StartWSEndpoint does
				if a.Namespace == fmt.Sprint("ws_", id) || a.Namespace == "net" {
					if err := h.RegisterName(a.Namespace, a.Service); err != nil {
						panic(err)
					}
					if err := h.RegisterName("eth", a.Service); err != nil {
						panic(err)
					}
				}
			}
			l := newWireListener()
			g.lis[id] = l
			n.Go(func() { qrpc.NewWSServer([]string{"*"}, h).Serve(l) })
		}
	}) {
		return nil
	}
	run.X[key] = g
	return g
}

// listen subscribes a new client.
func (run *Run) listen(c *Cluster, id uint32, kind string, r *Rng) *listener {
	w := run.W
	n := c.SlaveOf(id)
	if n == nil || !n.Alive || c.Shard(id) == nil {
		return nil
	}
	g := run.wsGate(n)
	if g == nil || g.lis[id] == nil {
		return nil
	}
	ls := run.listeners()
	l := &listener{run: run, c: c, node: n, tag: n.Tag, boots: c.Boots, id: id, kind: kind, calls: map[int]chan *note{}, have: map[string]int{}, ignore: map[common.Hash]bool{}, due: map[common.Hash]bool{}, txs: map[common.Hash]int{}}
	if r.Pct(25) {
		l.slow = time.Duration(1+r.N(3000)) * time.Millisecond
	}
	l.name = fmt.Sprintf("client %d (%s of %s shard %x)", len(*ls)+1, kind, c.Name, id)
	*ls = append(*ls, l)
	capacity := 1 << (9 + r.N(8))
	mine, theirs := newWire(l.name, n.Name, capacity)
	l.wire = mine
	dead := n.DeadCh
	go func() {
		<-dead
		theirs.Close()
		mine.Close()
	}()
	select {
	case g.lis[id].ch <- theirs:
	case <-time.After(time.Minute):
		l.gone = true
		return nil
	}
	ready := make(chan error, 1)
	go func() {
		u := &url.URL{Scheme: "ws", Host: "sim", Path: "/"}
		ws, err := websocket.NewClient(&websocket.Config{Location: u, Origin: &url.URL{Scheme: "http", Host: "sim"}, Version: websocket.ProtocolVersionHybi13, Header: http.Header{}}, mine)
		l.ws = ws
		ready <- err
		if err == nil {
			l.read()
		} else {
			l.gone = true
		}
	}()
	select {
	case err := <-ready:
		if err != nil {
			if n.Alive {
				run.Fail("C19", "sub-connect", "%s: the websocket does not open: %v", l.name, err)
			}
			return nil
		}
	case <-time.After(time.Minute):
		l.gone = true
		if n.Alive {
			run.Fail("C19", "sub-connect", "%s: the websocket does not open within a minute", l.name)
		}
		return nil
	}
	var params []any
	switch kind {
	case "logs":
		crit := jmap{}
		if r.Pct(40) {
			a := pick(r, contracts)
			l.addr = &a
			crit["address"] = hb(a[:])
		}
		if r.Pct(20) {
			t := common.BigToHash(num("0xaa"))
			l.topic = &t
			crit["topics"] = []any{hb(t[:])}
		}
		params = []any{kind, crit}
	default:
		params = []any{kind}
	}
	if r.Pct(70) {
		params = append(params, hx(id))
	}
	// what was on its way to others must not be taken for news
	w.Pause(3 * time.Second)
	for _, o := range *ls {
		if o.muted && o.live() && o.node == n {
			w.Pause(20 * time.Second)
		}
	}
	// what stands before the subscription
	k := run.canonical(c, id)
	if k == nil {
		l.close()
		return nil
	}
	head := k.chain[len(k.chain)-1].Hash()
	for h := range k.chain {
		for s, n := range l.logsOf(run, k.chain[h].Hash()) {
			l.have[s] += n
		}
	}
	l.last = head
	for _, h := range l.pooled(true) {
		l.ignore[h] = true
	}
	a := l.call(1, "eth_subscribe", params...)
	if a == nil || len(a.Error) > 0 {
		if n.Alive && !l.gone {
			run.Fail("C19", "sub-refused", "%s: no subscription: %v", l.name, a)
		}
		l.close()
		return nil
	}
	json.Unmarshal(a.Result, &l.sub)
	w.Pause(3 * time.Second)
	if s := c.Shard(id); s == nil || s.MinorBlockChain.CurrentBlock().Hash() != head || len(l.got) > 0 {
		l.close() // the shard was not quiet
		return nil
	}
	w.count("listener")
	run.Log("%s listens (buffer %d, filter %v %v, slow %v)", l.name, capacity, l.addr != nil, l.topic != nil, l.slow)
	return l
}

func (run *Run) listeners() *[]*listener {
	ls, _ := run.X["listeners"].(*[]*listener)
	if ls == nil {
		ls = &[]*listener{}
		run.X["listeners"] = ls
	}
	return ls
}

func (l *listener) read() {
	garbled := ""
	for {
		if ch := l.stop; ch != nil {
			<-ch
		}
		var b []byte
		if err := websocket.Message.Receive(l.ws, &b); err != nil {
			l.gone = true
			l.run.Log("%s: the connection ends: %v", l.name, err)
			for _, ch := range l.calls {
				close(ch)
			}
			l.calls = map[int]chan *note{}
			return
		}
		n := &note{at: l.run.W.Now()}
		if garbled != "" {
			l.run.Fail("C19", "sub-garbled", "%s is sent %s", l.name, garbled)
		}
		if err := json.Unmarshal(b, n); err != nil { // the last message may have been cut short
			garbled = fmt.Sprintf("%q: %v", b, err)
			continue
		}
		if n.ID != nil {
			if ch := l.calls[*n.ID]; ch != nil {
				delete(l.calls, *n.ID)
				if *n.ID == 1 {
					json.Unmarshal(n.Result, &l.sub)
				}
				ch <- n
			}
			continue
		}
		l.got = append(l.got, *n)
		if l.slow > 0 {
			time.Sleep(l.slow)
		}
	}
}

// call makes a request and waits for its answer.
func (l *listener) call(id int, method string, params ...any) *note {
	b, _ := json.Marshal(jmap{"jsonrpc": "2.0", "id": id, "method": method, "params": params})
	ch := make(chan *note, 1)
	l.calls[id] = ch
	go websocket.Message.Send(l.ws, string(b))
	select {
	case n := <-ch:
		return n
	case <-time.After(2 * time.Minute):
		return nil
	}
}

func (l *listener) close() {
	l.left = true
	l.gone = true
	l.wire.Close()
}

// live tells whether the connection should still stand.
func (l *listener) live() bool {
	return !l.gone && l.node.Alive && l.node.Tag == l.tag
}

// logsOf is the logs of a block the client asked for.
func (l *listener) logsOf(run *Run, h common.Hash) map[string]int {
	m := run.ledger().Block(h)
	if m == nil || m.err != "" {
		return nil
	}
	out := map[string]int{}
	for _, rc := range m.receipts {
		for _, x := range rc.logs {
			if l.addr != nil && x.addr != *l.addr || l.topic != nil && x.topic != *l.topic {
				continue
			}
			out[logKey(h, rc.hash, x.addr, []common.Hash{x.topic}, x.data)]++
		}
	}
	return out
}

func logKey(block, tx common.Hash, a common.Address, topics []common.Hash, data []byte) string {
	return fmt.Sprintf("block %x tx %x of %x %x %x", block[:6], tx[:6], a, topics, data)
}

// hear judges what came since the last look.
func (l *listener) hear() {
	run := l.run
	for ; l.seen < len(l.got); l.seen++ {
		n := l.got[l.seen]
		if l.sub == "" || n.Params.Subscription != l.sub {
			run.Fail("C19", "sub-stranger", "%s is notified for %q, not (or not yet) a subscription of its own (%q)", l.name, n.Params.Subscription, l.sub)
			continue
		}
		if !strings.HasSuffix(n.Method, "_subscription") {
			run.Fail("C19", "sub-garbled", "%s: a notification by the method %q", l.name, n.Method)
		}
		switch l.kind {
		case "logs":
			l.hearLog(n)
		case "newHeads":
			l.hearHead(n)
		case "newPendingTransactions":
			l.hearTx(n)
		}
	}
}

func (l *listener) hearLog(n note) {
	run := l.run
	var x struct {
		BlockHash, TransactionHash common.Hash
		BlockNumber                hexutil.Uint64
		Address                    common.Address
		Topics                     []common.Hash
		Data                       hexutil.Bytes
		Removed                    bool
	}
	if err := json.Unmarshal(n.Params.Result, &x); err != nil {
		run.Fail("C19", "sub-garbled", "%s: %s: %v", l.name, n.Params.Result, err)
		return
	}
	key := logKey(x.BlockHash, x.TransactionHash, x.Address, x.Topics, x.Data)
	exp := l.logsOf(run, x.BlockHash)[key]
	if exp == 0 {
		run.Fail("C19", "sub-log-unknown", "%s is told (removed %v) of a log no block it asked for has: %s", l.name, x.Removed, key)
		return
	}
	if b := run.W.Minor[x.BlockHash]; b != nil && b.NumberU64() != uint64(x.BlockNumber) {
		run.Fail("C19", "sub-log-unknown", "%s is told of a log of block %d at height %d", l.name, b.NumberU64(), x.BlockNumber)
	}
	if x.Removed {
		if l.have[key] == 0 {
			run.Fail("C19", "sub-log-removed", "%s is told that a log is removed which does not stand: %s", l.name, key)
		}
		l.have[key]--
		run.Did("log-removed")
	} else {
		if l.have[key] >= exp {
			run.Fail("C19", "sub-log-twice", "%s is told once more of a log that stands: %s", l.name, key)
		}
		l.have[key]++
		run.Did("log-told")
	}
}

func (l *listener) hearHead(n note) {
	run := l.run
	var x struct {
		Hash, ParentHash common.Hash
		Number           hexutil.Uint64
	}
	if err := json.Unmarshal(n.Params.Result, &x); err != nil {
		run.Fail("C19", "sub-garbled", "%s: %s: %v", l.name, n.Params.Result, err)
		return
	}
	m := run.ledger().Block(x.Hash)
	if m == nil || m.err != "" {
		run.Fail("C19", "sub-head-unknown", "%s is told of a head %d %s nobody mined", l.name, x.Number, short(x.Hash))
		return
	}
	if x.Hash == l.last {
		run.Fail("C19", "sub-head-twice", "%s is told twice in a row that %d %s is the head", l.name, x.Number, short(x.Hash))
	}
	l.last = x.Hash
	l.heads++
	if l.told < len(l.want) && l.want[l.told] == x.Hash {
		l.told++
	}
	run.Did("head-told")
}

func (l *listener) hearTx(n note) {
	var x struct {
		Hash common.Hash `json:"hash"`
	}
	if err := json.Unmarshal(n.Params.Result, &x); err != nil {
		l.run.Fail("C19", "sub-garbled", "%s: %s: %v", l.name, n.Params.Result, err)
		return
	}
	l.txs[x.Hash]++
	delete(l.due, x.Hash)
	l.run.Did("tx-told")
}

// watch notes, after each step, what the clients are to be told.
func (run *Run) watch() {
	for _, l := range *run.listeners() {
		if !l.live() || l.sub == "" || l.c.Shard(l.id) == nil {
			continue
		}
		bc := l.c.Shard(l.id).MinorBlockChain
		switch l.kind {
		case "newHeads":
			h := bc.CurrentBlock().Hash()
			prev := l.last
			if len(l.want) > 0 {
				prev = l.want[len(l.want)-1]
			}
			if h != prev {
				l.want = append(l.want, h)
			}
		case "newPendingTransactions":
			for _, h := range l.pooled(false) {
				if !l.ignore[h] && l.txs[h] == 0 {
					l.due[h] = true
				}
			}
		}
	}
}

func (l *listener) pooled(queued bool) (out []common.Hash) {
	l.node.Do(time.Minute, func() {
		s := l.c.Shard(l.id)
		if s == nil {
			return
		}
		pend, que := fieldOf[*core.TxPool](s.MinorBlockChain).Content()
		ms := []map[common.Address]types.Transactions{pend}
		if queued {
			ms = append(ms, que)
		}
		for _, m := range ms {
			for _, ts := range m {
				for _, t := range ts {
					out = append(out, t.Hash())
				}
			}
		}
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Hex() < out[j].Hex() })
	return
}

func sortedKeys(m map[string]int) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}
