//go:build go1.25

package sim

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"time"

	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/p2p/enode"
)

// Net decides the fate of every message inside and between clusters.
type Net struct {
	w *World
	r *Rng
	// inside a cluster
	SlowPct           int // of calls that are slow
	LoseReq, LoseResp int // permille
	armed             bool
	SlowMax           time.Duration
	OneShot           *OneShot
	P2PSlow           int // percent of p2p messages that are slow
	P2PSlowMax        time.Duration
}

// OneShot is a fault aimed at the k-th call of a given kind.
type OneShot struct {
	Op   string
	From *Cluster
	K    int
	Kind string // losereq, loseresp, slow
}

type fate struct {
	pre, post         time.Duration
	loseReq, loseResp bool
	dup               bool
}

func (n *Net) decide(from *Node, host, op string) (f fate) {
	f.pre = time.Duration(n.r.N(1500)) * time.Microsecond
	f.post = time.Duration(n.r.N(1500)) * time.Microsecond
	if n.SlowPct > 0 && n.r.Pct(n.SlowPct) {
		f.pre += time.Duration(n.r.N(int(n.SlowMax)))
		f.post += time.Duration(n.r.N(int(n.SlowMax)))
		n.w.count("rpc-slow")
	}
	if o := n.OneShot; o != nil && from != nil && from.Cluster == o.From && (o.Op == "" || o.Op == op) && op != "HeartBeat" {
		if o.K--; o.K < 0 {
			n.OneShot = nil
			n.w.count("rpc-" + o.Kind)
			n.w.tracef("network: %s for %s from %s to %s", o.Kind, op, from.Name, host)
			o.From.Faulted = true
			switch o.Kind {
			case "losereq":
				f.loseReq = true
			case "loseresp":
				f.loseResp = true
			case "dup":
				f.dup = true
			case "slow":
				f.pre += 20 * time.Second
			}
		}
	}
	return
}

// Link carries the peer protocol between two masters: reliable, in order, with
// delay; it can stall (partition) and break.
type Link struct {
	w       *World
	id      int
	A, B    *Node
	ends    [2]*linkEnd
	closed  bool
	pending int
	stall   chan struct{} // non-nil while stalled; closed on heal
	down    chan struct{}
}

type linkEnd struct {
	l   *Link
	out chan []linkMsg1
	in  chan linkMsg1
}
type linkMsg1 struct {
	code uint64
	data []byte
	at   time.Time
}

func (l *Link) close() {
	if l.closed {
		return
	}
	l.closed = true
	close(l.down)
	if l.stall != nil {
		close(l.stall)
		l.stall = nil
	}
	delete(l.w.links, l)
}

// Stall holds every message on the link; Heal lets them through, in order.
func (l *Link) Stall() {
	if l.stall == nil && !l.closed {
		l.stall = make(chan struct{})
	}
}
func (l *Link) Heal() {
	if l.stall != nil {
		close(l.stall)
		l.stall = nil
	}
}

func (e *linkEnd) ReadMsg() (p2p.Msg, error) {
	select {
	case m := <-e.in:
		return p2p.Msg{Code: m.code, Size: uint32(len(m.data)), Payload: bytes.NewReader(m.data), ReceivedAt: simNow()}, nil
	case <-e.l.down:
		return p2p.Msg{}, io.EOF
	}
}

func (e *linkEnd) WriteMsg(m p2p.Msg) error {
	data, err := ioutil.ReadAll(m.Payload)
	if err != nil {
		return err
	}
	l := e.l
	if l.closed {
		return errors.New("write to a closed connection")
	}
	d := time.Duration(1+l.w.Net.r.N(20)) * time.Millisecond
	if l.w.Net.P2PSlow > 0 && l.w.Net.r.Pct(l.w.Net.P2PSlow) {
		d += time.Duration(l.w.Net.r.N(int(l.w.Net.P2PSlowMax)))
		l.w.count("p2p-slow")
	}
	l.w.P2PMsgs++
	select {
	case e.out <- []linkMsg1{{m.Code, data, simNow().Add(d)}}:
		l.pending++
		return nil
	default:
	}
	// the other side does not read: as p2p's frameWriteTimeout
	late := time.NewTimer(20 * time.Second)
	defer late.Stop()
	select {
	case e.out <- []linkMsg1{{m.Code, data, simNow().Add(d)}}:
		l.pending++
		return nil
	case <-late.C:
		l.w.count("p2p-write-timeout")
		l.close()
		return errors.New("write timeout")
	case <-l.down:
		return errors.New("write to a closed connection")
	}
}

func (l *Link) pump(from, to *linkEnd) {
	for {
		var m linkMsg1
		select {
		case b := <-from.out:
			m = b[0]
		case <-l.down:
			return
		}
		if d := m.at.Sub(simNow()); d > 0 {
			time.Sleep(d)
		}
		for l.stall != nil {
			<-l.stall
		}
		select {
		case to.in <- m:
			l.pending--
		case <-l.down:
			return
		}
	}
}

func nodeKey(i int) string { return fmt.Sprintf("%064x", 0x1000+i) }

func enodeID(i int) enode.ID {
	return enode.ID(crypto.Keccak256Hash([]byte(fmt.Sprintf("peer-%d", i))))
}

// Connect joins two masters as peers.
func (w *World) Connect(a, b *Cluster) *Link {
	if !a.Up() || !b.Up() || w.LinkOf(a, b) != nil {
		return nil
	}
	l := w.newLink(a.M, b.M)
	run := func(me, peer *Cluster, end *linkEnd) {
		p := me.M.Master.Protocols()[0]
		me.M.Go(func() {
			err := p.Run(p2p.NewPeer(enodeID(peer.Idx), peer.Name, nil), end)
			w.tracef("p2p: %s drops %s: %v", me.Name, peer.Name, err)
			l.close()
		})
	}
	run(a, b, l.ends[0])
	run(b, a, l.ends[1])
	return l
}

func (w *World) newLink(a, b *Node) *Link {
	l := &Link{w: w, A: a, B: b, down: make(chan struct{})}
	for i := range l.ends {
		l.ends[i] = &linkEnd{l: l, out: make(chan []linkMsg1, 256), in: make(chan linkMsg1)}
	}
	w.nlinks++
	l.id = w.nlinks
	w.links[l] = true
	if a != nil {
		a.links = append(a.links, l)
	}
	if b != nil {
		b.links = append(b.links, l)
	}
	go l.pump(l.ends[0], l.ends[1])
	go l.pump(l.ends[1], l.ends[0])
	return l
}

func (w *World) LinkOf(a, b *Cluster) *Link {
	for l := range w.links {
		if l.A == a.M && l.B == b.M || l.A == b.M && l.B == a.M {
			return l
		}
	}
	return nil
}
