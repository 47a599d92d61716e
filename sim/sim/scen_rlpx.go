//go:build go1.25

package sim

import (
	"bytes"
	"crypto/ecdsa"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"sort"
	"time"
	"unsafe"

	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/p2p/enode"
)

// The scenario "rlpx" runs real p2p servers, with their handshakes, framing,
// peers and redialling, over byte streams the simulator tampers with. What the
// applications on top send and receive is compared message by message.

const rlpxProps = "C18"

type rlpxNet struct {
	run     *Run
	nodes   []*rnode
	mallory *rnode // claims to be the first of them
	sess    []*rsess
	busy    map[[2]string]bool // pairs with a connection
	tapes   []tape
	statics []*rstatic
	calm    bool // no more faults
}

// tape is what one side of an old connection wrote.
type tape struct {
	from, to *rnode
	dialled  bool // by the one who dialled
	b        []byte
}

type rnode struct {
	x    *rlpxNet
	n    *Node
	key  *ecdsa.PrivateKey
	srv  *p2p.Server
	id   enode.ID
	live map[enode.ID]*rside
}

type rstatic struct {
	a, b *rnode
	up   map[*rsess]bool
}

type rsess struct {
	x       *rlpxNet
	no      int
	lax     bool      // only safety counts
	real    [2]*rnode // who really holds each end; nil: nobody
	dest    *rnode
	side    [2]*rside
	ret     [2]bool
	err     [2]error
	stalled time.Duration
	static  *rstatic
}

type rside struct {
	s        *rsess
	i        int
	end      *wireEnd
	out      *tamper
	up, over bool
	hs       int // bytes it wrote as handshake
	sent     []rmsg
	got      int
	quit     chan struct{}
	hush     chan struct{} // send no more
}

type rmsg struct {
	data []byte
	end  int // offset in the stream where it ends; 0 while it is written
}

// ---- tampering ----

type byteFault struct {
	at   int
	kind string
	n    int
	d    time.Duration
}

// tamper sits on one direction of a stream.
type tamper struct {
	s      *rsess
	r      *Rng
	faults []byteFault
	orig   int // bytes written
	at     int // where the stream was first changed, or -1
	lost   int // bytes dropped
	hist   []byte
	peer   *tamper
	drop   int
	hold   int
	held   []byte
	swap   int
	end    *wireEnd
}

func (t *tamper) emit(out, p []byte) []byte {
	t.orig += len(p)
	if len(t.hist) < 1<<16 {
		t.hist = append(t.hist, p...)
	}
	return append(out, p...)
}

func (t *tamper) changed() {
	if t.at < 0 {
		t.at = t.orig
	}
}

func (t *tamper) pass(p []byte) (out []byte) {
	for len(p) > 0 {
		switch {
		case t.drop > 0:
			k := min(t.drop, len(p))
			t.drop -= k
			t.orig += k
			p = p[k:]
			continue
		case t.hold > 0:
			k := min(t.hold, len(p))
			t.held = append(t.held, p[:k]...)
			t.hold -= k
			t.orig += k
			p = p[k:]
			continue
		case t.swap > 0:
			k := min(t.swap, len(p))
			t.swap -= k
			out = t.emit(out, p[:k])
			p = p[k:]
			if t.swap == 0 {
				out = append(out, t.held...)
			}
			continue
		}
		if len(t.faults) == 0 || t.s.x.calm || t.faults[0].at >= t.orig+len(p) {
			return t.emit(out, p)
		}
		f := t.faults[0]
		t.faults = t.faults[1:]
		if k := f.at - t.orig; k > 0 {
			out = t.emit(out, p[:k])
			p = p[k:]
		}
		run := t.s.x.run
		run.W.count("wire-" + f.kind)
		run.Log("s%d.%s: %s at %d, %d", t.s.no, t.end.name, f.kind, t.orig, f.n)
		switch f.kind {
		case "flip":
			t.changed()
			b := []byte{p[0] ^ byte(1<<(f.n%8))}
			t.orig++
			out = append(out, b...)
			p = p[1:]
		case "drop":
			t.changed()
			t.drop = f.n
			t.lost += f.n
		case "repeat":
			if n := min(f.n, len(t.hist)); n > 0 {
				t.changed()
				out = append(out, t.hist[len(t.hist)-n:]...)
			}
		case "inject":
			t.changed()
			b := make([]byte, f.n)
			for i := range b {
				b[i] = byte(t.r.U64())
			}
			out = append(out, b...)
		case "reflect":
			if n := min(f.n, len(t.peer.hist)); n > 0 {
				t.changed()
				out = append(out, t.peer.hist[len(t.peer.hist)-n:]...)
			}
		case "splice":
			if ts := t.s.x.tapes; len(ts) > 0 {
				b := pick(t.r, ts).b
				if n := min(f.n, len(b)); n > 0 {
					t.changed()
					o := t.r.N(len(b) - n + 1)
					out = append(out, b[o:o+n]...)
				}
			}
		case "swap":
			t.changed()
			t.hold, t.swap = f.n, f.n
			t.lost += f.n // until as many have followed
		case "cut":
			t.changed()
			t.end.Close()
			return out
		case "stall":
			t.s.stalled += f.d
			time.Sleep(f.d)
		}
	}
	return out
}

func (x *rlpxNet) faults(r *Rng) (fs []byteFault) {
	at := 0
	switch r.N(4) {
	case 0:
		at = r.N(1000) // in the handshake
	case 1:
		at = 400 + r.N(2000)
	default:
		at = r.N(200000)
	}
	for k := 1 + r.N(3)*r.N(2); k > 0; k-- {
		n := 1 + r.N(40)
		switch r.N(5) {
		case 0:
			n = 16
		case 1:
			n = 32
		case 2:
			n = 1 + r.N(3000)
		}
		fs = append(fs, byteFault{at, pick(r, []string{"flip", "flip", "flip", "drop", "repeat", "inject", "reflect", "splice", "swap", "cut", "stall"}), n, time.Duration(r.N(30000)) * time.Millisecond})
		at += r.N(3000)
	}
	return
}

// ---- the applications ----

func rlpxOf(run *Run) *rlpxNet { return run.X["rlpx"].(*rlpxNet) }

func newRlpxNet(run *Run) *rlpxNet {
	x := &rlpxNet{run: run, busy: map[[2]string]bool{}}
	run.X["rlpx"] = x
	for i := 0; i < 5; i++ {
		k, err := crypto.HexToECDSA(fmt.Sprintf("%064x", 0xdef000+i))
		if err != nil {
			panic(err)
		}
		nd := &rnode{x: x, key: k, live: map[enode.ID]*rside{}, id: enode.PubkeyToIDV4(&k.PublicKey)}
		nd.n = &Node{W: run.W, Name: fmt.Sprintf("n%d", i), Cluster: &Cluster{}}
		nd.n.newIncarnation()
		nd.srv = &p2p.Server{Config: p2p.Config{PrivateKey: k, MaxPeers: 20, Name: nd.n.Name, NoDiscovery: true, Dialer: &rdialer{nd},
			Protocols: []p2p.Protocol{{Name: "quarkchain", Version: 1, Length: 16, Run: nd.app}}}}
		if !nd.n.Do(time.Minute, func() { err = nd.srv.Start() }) || err != nil {
			panic(fmt.Sprint("p2p server: ", err))
		}
		x.nodes = append(x.nodes, nd)
	}
	x.mallory = x.nodes[4]
	x.nodes = x.nodes[:4]
	// mallory's server says it is the first node when it introduces itself
	h := reflect.ValueOf(x.mallory.srv).Elem().FieldByName("ourHandshake")
	id := reflect.NewAt(h.Type(), unsafe.Pointer(h.UnsafeAddr())).Elem().Elem().FieldByName("ID")
	id.SetBytes(crypto.FromECDSAPub(&x.nodes[0].key.PublicKey)[1:])
	return x
}

func (nd *rnode) addr() *enode.Node {
	return enode.NewV4(&nd.key.PublicKey, net.IP{127, 0, 0, 1}, 30303, 30303)
}

func (x *rlpxNet) pair(a, b *rnode) [2]string {
	p := [2]string{a.n.Name, b.n.Name}
	if p[0] > p[1] {
		p[0], p[1] = p[1], p[0]
	}
	return p
}

// session makes the stream and the bookkeeping of a connection.
func (x *rlpxNet) session(a, b, dest *rnode, r *Rng, faults bool) *rsess {
	s := &rsess{x: x, no: len(x.sess), real: [2]*rnode{a, b}, dest: dest}
	x.sess = append(x.sess, s)
	var e [2]*wireEnd
	e[0], e[1] = newWire(fmt.Sprintf("s%d.0", s.no), fmt.Sprintf("s%d.1", s.no), pick(r, []int{200, 4096, 65536, 1 << 20}))
	for i := range e {
		s.side[i] = &rside{s: s, i: i, end: e[i], quit: make(chan struct{}), hush: make(chan struct{})}
		s.side[i].out = &tamper{s: s, r: NewRng(r.U64()), at: -1, end: e[i]}
	}
	s.side[0].out.peer, s.side[1].out.peer = s.side[1].out, s.side[0].out
	if faults {
		i := r.N(2)
		s.side[i].out.faults = x.faults(r)
		if r.Pct(15) {
			s.side[1-i].out.faults = x.faults(r)
		}
	}
	for i := range e {
		e[i].out.mangle = s.side[i].out.pass
	}
	return s
}

// setup lets the real end i do its handshakes.
func (s *rsess) setup(i int) chan struct{} {
	nd, d := s.real[i], s.dest
	if i == 1 {
		d = nil
	}
	began := time.Now()
	return nd.n.Go(func() {
		var dest *enode.Node
		flags := 4 // inbound
		if d != nil {
			dest, flags = d.addr(), 1
		}
		err := setupConn(nd.srv, s.side[i].end, flags, dest)
		s.ret[i], s.err[i] = true, err
		s.x.run.Log("s%d.%d: set up: %v", s.no, i, err)
		s.x.run.Did("handshake")
		if t := time.Since(began); t > 20*time.Second+s.stalled {
			s.x.run.Fail(rlpxProps, "handshake-hang", "%s took %v over the handshakes of a connection", nd.n.Name, t)
		}
	})
}

func setupConn(srv *p2p.Server, fd net.Conn, flags int, dest *enode.Node) error {
	switch flags {
	case 4:
		return srv.SetupConn(fd, 4, dest)
	case 2:
		return srv.SetupConn(fd, 2, dest)
	}
	return srv.SetupConn(fd, 1, dest)
}

func (nd *rnode) app(p *p2p.Peer, rw p2p.MsgReadWriter) error {
	x, run := nd.x, nd.x.run
	var no, i int
	if _, err := fmt.Sscanf(p.LocalAddr().String(), "s%d.%d", &no, &i); err != nil {
		panic(err)
	}
	s := x.sess[no]
	e := s.side[i]
	other := s.real[1-i]
	run.Log("s%d.%d: up", no, i)
	run.Did("established")
	switch {
	case s.real[i] != nd:
		panic("the application of another node")
	case other == nil:
		run.Fail(rlpxProps, "nobody", "%s has a connection with %x made of what was recorded earlier", nd.n.Name, p.ID().Bytes()[:4])
	case nd == x.mallory:
		return errors.New("ha")
	case other == x.mallory:
		run.Fail(rlpxProps, "impostor", "%s accepts a node that claims the identity of another", nd.n.Name)
	case i == 0 && p.ID() != s.dest.id || p.ID() != other.id:
		run.Fail(rlpxProps, "wrong-identity", "%s believes to talk to %x, it is %s", nd.n.Name, p.ID().Bytes()[:4], other.n.Name)
	}
	if nd.live[p.ID()] != nil {
		run.Fail(rlpxProps, "twice", "%s has two connections with %s at a time", nd.n.Name, other.n.Name)
	}
	nd.live[p.ID()] = e
	defer func() {
		delete(nd.live, p.ID())
		e.over = true
		if s.static != nil {
			delete(s.static.up, s)
		}
	}()
	in := s.side[1-i]
	e.hs = e.out.orig
	e.up = true
	if s.static != nil {
		s.static.up[s] = true
	}
	for _, d := range [][2]*rside{{in, e}, {e, in}} {
		if t := d[0].out; t.at >= 0 && d[0].up && d[1].up && t.at < d[0].hs {
			run.Fail(rlpxProps, "tampered-handshake", "%s accepts a connection although the handshake of %s was changed at byte %d of %d", s.real[d[1].i].n.Name, s.real[d[0].i].n.Name, t.at, d[0].hs)
		}
	}
	r := NewRng(Mix(run.C.Seed, uint64(no*2+i)))
	run.W.jobs++
	go func() {
		defer func() { run.W.jobs-- }()
		pace := []int{10, 200, 3000}[r.N(3)]
		for {
			m := rmessage(r, no, i, len(e.sent))
			k := len(e.sent)
			e.sent = append(e.sent, rmsg{data: m})
			err := rw.WriteMsg(p2p.Msg{Code: 0, Size: uint32(len(m)), Payload: bytes.NewReader(append([]byte{}, m...))})
			if err != nil {
				return
			}
			e.sent[k].end = e.out.orig
			run.W.count("chat-sent")
			if k == 500 {
				pace = 5000
			}
			t := time.NewTimer(time.Duration(r.N(pace)) * time.Millisecond)
			select {
			case <-t.C:
			case <-e.hush:
				return
			case <-e.quit:
				return
			}
		}
	}()
	errc := make(chan error, 1)
	go func() {
		for {
			msg, err := rw.ReadMsg()
			if err != nil {
				errc <- err
				return
			}
			b, err := io.ReadAll(msg.Payload)
			if err != nil {
				errc <- err
				return
			}
			run.W.count("chat-got")
			run.Did("delivered")
			k := e.got
			e.got++
			switch {
			case k >= len(in.sent):
				run.Fail(rlpxProps, "delivered-unsent", "message %d (%d bytes) that %s receives from %s was never sent", k, len(b), nd.n.Name, other.n.Name)
			case !bytes.Equal(b, in.sent[k].data):
				run.Fail(rlpxProps, "delivered-other", "message %d that %s receives from %s (%d bytes) is not the one sent (%d bytes)", k, nd.n.Name, other.n.Name, len(b), len(in.sent[k].data))
			case int(msg.Size) != len(b) || msg.Code != 0:
				run.Fail(rlpxProps, "delivered-size", "message %d that %s receives has %d bytes and says %d, code %d", k, nd.n.Name, len(b), msg.Size, msg.Code)
			case in.out.at >= 0 && in.sent[k].end > in.out.at:
				run.Fail(rlpxProps, "delivered-tampered", "message %d that %s receives ends at byte %d of a stream changed at byte %d", k, nd.n.Name, in.sent[k].end, in.out.at)
			}
		}
	}()
	select {
	case err := <-errc:
		run.Log("s%d.%d: over: %v", no, i, err)
		return err
	case <-e.quit:
		run.Log("s%d.%d: leaves", no, i)
		return errors.New("done")
	}
}

func rmessage(r *Rng, no, i, k int) []byte {
	n := 13 + r.N(300)
	switch r.N(12) {
	case 0:
		n = 13 + r.N(4)
	case 1:
		n = []int{16, 32, 64, 256}[r.N(4)]
	case 2:
		n = r.N(20000)
	case 3:
		n = r.N(120000)
	case 4:
		n = r.N(13)
	}
	b := make([]byte, n)
	if r.Pct(50) {
		for j := range b {
			b[j] = byte(r.U64())
		}
	}
	copy(b, fmt.Sprintf("%d.%d.%d ", no, i, k))
	return b
}

// talk is the life of one connection between two nodes.
func (x *rlpxNet) talk(a, b, dest *rnode, r *Rng, faults bool) {
	run, w := x.run, x.run.W
	p := x.pair(a, b)
	if x.busy[p] {
		return
	}
	x.busy[p] = true
	s := x.session(a, b, dest, r, faults)
	run.Log("s%d: %s dials %s and gets %s, faults %v", s.no, a.n.Name, dest.n.Name, b.n.Name, faults)
	w.jobs++
	go func() {
		defer func() { w.jobs-- }()
		d0, d1 := s.setup(0), s.setup(1)
		<-d0
		<-d1
		time.Sleep(time.Second)
		tampered := s.side[0].out.at >= 0 || s.side[1].out.at >= 0
		fine := !tampered && s.stalled == 0 && b == dest && a != x.mallory && b != x.mallory
		if fine && !(s.side[0].up && s.side[1].up) {
			run.Fail(rlpxProps, "refused", "%s and %s do not get connected: %v, %v", a.n.Name, b.n.Name, s.err[0], s.err[1])
		}
		if s.side[0].up || s.side[1].up {
			time.Sleep(time.Duration(r.N([]int{2000, 20000, 100000}[r.N(3)])) * time.Millisecond)
			tampered = s.side[0].out.at >= 0 || s.side[1].out.at >= 0
			if !tampered && s.stalled == 0 {
				run.Did("intact")
				for i, e := range s.side {
					if !e.up || e.over {
						run.Fail(rlpxProps, "dropped", "the connection of %s with %s ended at %s although nothing happened to it", a.n.Name, b.n.Name, s.real[i].n.Name)
					}
				}
			}
			close(s.side[0].hush)
			close(s.side[1].hush)
			time.Sleep(40 * time.Second)
			for i, e := range s.side {
				from := s.side[1-i]
				t := from.out
				if t.at >= 0 && t.orig-t.at > t.lost+t.lost+140000 {
					run.Did("ended-by-tampering")
					if !e.over && e.up {
						run.Fail(rlpxProps, "tampered-on", "%s keeps a connection whose stream was changed %d bytes ago", s.real[i].n.Name, t.orig-t.at)
					}
				}
			}
			if s.side[0].out.at < 0 && s.side[1].out.at < 0 && s.stalled == 0 {
				for i, e := range s.side {
					if from := s.side[1-i]; e.got != len(from.sent) {
						run.Fail(rlpxProps, "undelivered", "%s has received %d of the %d messages %s sent", s.real[i].n.Name, e.got, len(from.sent), s.real[1-i].n.Name)
					}
				}
			}
			close(s.side[r.N(2)].quit)
			time.Sleep(40 * time.Second)
			for i, e := range s.side {
				if e.up && !e.over {
					run.Fail(rlpxProps, "left-open", "%s keeps a connection that %s has left", s.real[i].n.Name, s.real[1-i].n.Name)
				}
			}
		}
		x.record(s)
		time.Sleep(5 * time.Second)
		delete(x.busy, p)
	}()
}

func (x *rlpxNet) record(s *rsess) {
	for i, e := range s.side {
		if len(e.out.hist) > 0 && s.real[0] != nil && s.real[1] != nil {
			x.tapes = append(x.tapes, tape{s.real[i], s.real[1-i], i == 0, e.out.hist})
		}
	}
	if len(x.tapes) > 12 {
		x.tapes = x.tapes[2:]
	}
}

// replay plays one side of an old connection to a node again.
func (x *rlpxNet) replay(r *Rng) {
	if len(x.tapes) == 0 {
		return
	}
	t := pick(r, x.tapes)
	run, w := x.run, x.run.W
	s := x.session(nil, nil, t.from, r, false)
	i := 1 // the end of the victim
	if !t.dialled {
		i = 0
	}
	s.real[i] = t.to
	me := s.side[1-i].end
	run.Log("s%d: replay of %d bytes of %s to %s", s.no, len(t.b), t.from.n.Name, t.to.n.Name)
	w.count("wire-replay")
	w.jobs++
	go func() {
		defer func() { w.jobs-- }()
		d := s.setup(i)
		go io.Copy(io.Discard, me)
		me.SetWriteDeadline(time.Now().Add(time.Minute))
		me.Write(t.b)
		<-d
		time.Sleep(2 * time.Second)
		me.Close()
	}()
}

// ---- redialling ----

type rdialer struct{ nd *rnode }

func (d *rdialer) Dial(n *enode.Node) (net.Conn, error) {
	x := d.nd.x
	var st *rstatic
	for _, s := range x.statics {
		if s.a == d.nd && s.b.id == n.ID() {
			st = s
		}
	}
	if st == nil {
		return nil, errors.New("nobody there")
	}
	r := NewRng(Mix(x.run.C.Seed, uint64(1000+len(x.sess))))
	if !x.calm && r.Pct(20) {
		return nil, errors.New("connection refused")
	}
	s := x.session(st.a, st.b, st.b, r, !x.calm && r.Pct(70))
	s.lax, s.static = true, st
	x.run.Log("s%d: %s dials %s, its static node", s.no, st.a.n.Name, st.b.n.Name)
	x.run.W.count("wire-redial")
	s.setup(1)
	if r.Pct(40) {
		time.AfterFunc(time.Duration(r.N(120))*time.Second, func() {
			if !x.calm {
				close(s.side[r.N(2)].quit)
			}
		})
	}
	// a little later it says no more
	time.AfterFunc(time.Duration(5+r.N(40))*time.Second, func() { close(s.side[0].hush); close(s.side[1].hush) })
	return s.side[0].end, nil
}

func init() {
	register(&Scenario{
		Name: "rlpx", Props: []string{"C18"}, Bare: true,
		Cfg: func(r *Rng, p *Params) { p.Clusters, p.Accounts = 0, 0 },
		Gen: func(r *Rng) []Op {
			return weighted(r, 8+r.N(25), map[string]int{"talk": 10, "tamper": 20, "stranger": 3, "impostor": 2, "replay": 6, "wait": 8})
		},
		Setup: func(run *Run) {
			x := newRlpxNet(run)
			for k := run.R.N(3); k > 0; k-- {
				a, b := pick(run.R, x.nodes), pick(run.R, x.nodes)
				if a == b || x.busy[x.pair(a, b)] {
					continue
				}
				x.busy[x.pair(a, b)] = true
				x.statics = append(x.statics, &rstatic{a, b, map[*rsess]bool{}})
				a.n.Do(time.Minute, func() { a.srv.AddPeer(b.addr()) })
			}
		},
		Ops: map[string]func(*Run, *Rng, int){
			"talk":   func(run *Run, r *Rng, n int) { rlpxOf(run).some(r, false) },
			"tamper": func(run *Run, r *Rng, n int) { rlpxOf(run).some(r, true) },
			"stranger": func(run *Run, r *Rng, n int) { // somebody else answers
				x := rlpxOf(run)
				a, b, d := pick(r, x.nodes), pick(r, x.nodes), pick(r, x.nodes)
				if a != b && b != d && a != d {
					x.talk(a, b, d, r, false)
				}
			},
			"impostor": func(run *Run, r *Rng, n int) {
				x := rlpxOf(run)
				if b := pick(r, x.nodes); r.Pct(50) {
					x.talk(x.mallory, b, b, r, false)
				} else {
					x.talk(b, x.mallory, pick(r, append([]*rnode{x.mallory}, x.nodes[0])), r, false)
				}
			},
			"replay": func(run *Run, r *Rng, n int) { rlpxOf(run).replay(r) },
			"wait": func(run *Run, r *Rng, n int) {
				if r.Pct(50) {
					run.W.Pause(time.Duration(r.N(60)) * time.Second)
				} else {
					run.W.Settle(time.Duration(1+r.N(5)) * time.Minute)
				}
			},
		},
		End: func(run *Run) {
			x := rlpxOf(run)
			x.calm = true
			run.W.Settle(20 * time.Minute)
			run.W.Pause(3 * time.Minute)
			for _, st := range x.statics {
				run.Did("static")
				if len(st.up) == 0 {
					run.Fail(rlpxProps, "static-down", "%s does not get connected with its static node %s again", st.a.n.Name, st.b.n.Name)
				}
			}
			// every server still works
			for i, a := range x.nodes {
				for _, b := range x.nodes[i+1:] {
					x.talk(a, b, b, run.R, false)
				}
			}
			if !run.W.Settle(20 * time.Minute) {
				run.Fail(rlpxProps, "stuck", "connections do not come to an end")
			}
			var st []string
			for _, s := range x.sess {
				st = append(st, fmt.Sprintf("%v%v%v%v", s.side[0].up, s.side[1].up, s.side[0].out.at >= 0, s.side[1].out.at >= 0))
			}
			sort.Strings(st)
			for _, v := range st {
				run.State("sess:" + v)
			}
			run.events()
		},
	})
}

func (x *rlpxNet) some(r *Rng, faults bool) {
	a, b := pick(r, x.nodes), pick(r, x.nodes)
	if a != b {
		x.talk(a, b, b, r, faults)
	}
	if r.Pct(30) {
		x.run.W.Pause(time.Duration(r.N(20)) * time.Second)
	}
}
