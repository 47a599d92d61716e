//go:build go1.25

package sim

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/QuarkChain/goquarkchain/cluster/config"
	"github.com/QuarkChain/goquarkchain/cluster/master"
	"github.com/QuarkChain/goquarkchain/cluster/rpc"
	"github.com/QuarkChain/goquarkchain/cluster/service"
	"github.com/QuarkChain/goquarkchain/cluster/shard"
	"github.com/QuarkChain/goquarkchain/cluster/slave"
	"github.com/QuarkChain/goquarkchain/p2p"
	"github.com/QuarkChain/goquarkchain/p2p/nodefilter"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/event"
	"github.com/ethereum/go-ethereum/log"
	"github.com/ethereum/go-ethereum/p2p/enode"
)

// Node is one operating-system process of the deployment: a master or a slave.
// Its disks survive; everything else dies with the incarnation.
type Node struct {
	W       *World
	Name    string
	Host    string // host:port it serves RPC on
	Cluster *Cluster
	IsMast  bool
	SlvCfg  *config.SlaveConfig
	Disks   map[string]*Disk

	// of the current incarnation
	Tag      uint32
	Alive    bool
	Ready    bool // RPC server is up
	DeadCh   chan struct{}
	Why      string // why the last incarnation ended
	Master   *master.QKCMasterBackend
	Slave    *slave.SlaveBackend
	handler  reflect.Value
	shutdown chan os.Signal
	Starts   int
	Skew     time.Duration // of the clock of its machine
	Up       bool          // the master finished its start
	inflight int           // RPCs this incarnation has under way
	jobs     int           // driver jobs running in it
	links    []*Link
}

// Fail records what a node did that no node may do.
type NodeEvent struct {
	Node  string
	Kind  string // panic, crit, shutdown
	What  string
	Stack string
	At    time.Duration
	Fault bool // an infrastructure fault had been injected before it
}

func (n *Node) String() string { return n.Name }

// kill ends the incarnation at once: no defers, no flushes.
func (n *Node) kill(why string) {
	if !n.Alive {
		if runtime.SimTag() == n.Tag && n.Tag != 0 {
			select {}
		}
		return
	}
	n.Alive, n.Ready, n.Up = false, false, false
	n.inflight, n.jobs = 0, 0
	n.Why = why
	runtime.SimKill(n.Tag)
	close(n.DeadCh)
	for _, l := range n.links {
		l.close()
	}
	n.links = nil
	for _, d := range n.Disks {
		d.CrashAt, d.ErrAt = 0, 0
	}
	n.W.tracef("%s dies: %s", n.Name, why)
	if runtime.SimTag() == n.Tag {
		select {}
	}
}

func (n *Node) newIncarnation() {
	n.W.nextTag++
	n.Tag = n.W.nextTag
	n.W.byTag[n.Tag] = n
	runtime.SimSetSkew(n.Tag, int64(n.Skew))
	n.Alive, n.Ready = true, false
	n.DeadCh = make(chan struct{})
	n.shutdown = make(chan os.Signal, 1)
	n.Master, n.Slave = nil, nil
	n.Starts++
	for _, d := range n.Disks {
		d.locked = false
	}
}

// SetClock makes the clock of the machine be off by d.
func (n *Node) SetClock(d time.Duration) {
	n.Skew = d
	runtime.SimSetSkew(n.Tag, int64(d))
}

// Go runs f as part of the node's process and returns a channel closed when it
// is over (never, if the node dies first).
func (n *Node) Go(f func()) chan struct{} {
	done := make(chan struct{})
	tag := n.Tag
	go func() {
		runtime.SimSetTag(tag)
		f()
		close(done)
	}()
	return done
}

// Job runs f in the node without waiting; Settle waits for it.
func (n *Node) Job(f func()) {
	if !n.Alive {
		return
	}
	tag := n.Tag
	n.jobs++
	n.Go(func() {
		f()
		if n.Tag == tag {
			n.jobs--
		}
	})
}

// Do runs f in the node and waits for it, for the node's death, or for d of
// simulated time. It reports whether f came to an end.
func (n *Node) Do(d time.Duration, f func()) bool {
	if !n.Alive {
		return false
	}
	done := n.Go(f)
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-n.DeadCh:
		return false
	case <-t.C:
		return false
	}
}

func (n *Node) ctx() *service.ServiceContext {
	return &service.ServiceContext{Shutdown: n.shutdown, EventMux: new(event.TypeMux)}
}

// watchShutdown does what the process's signal handler does: an orderly stop.
func (n *Node) watchShutdown() {
	tag := n.Tag
	n.Go(func() {
		<-n.shutdown
		n.W.event(n, "shutdown", "the node asked for its own shutdown", "")
		if n.Master != nil {
			n.Master.Stop()
		} else if n.Slave != nil {
			n.Slave.Stop()
		}
		if n.Tag == tag {
			n.kill("shut down")
		}
	})
}

// StartSlave brings the process up; shards appear when a master introduces itself.
func (n *Node) StartSlave() error {
	n.newIncarnation()
	var err error
	ok := n.Do(time.Minute, func() {
		n.Slave, err = slave.New(n.ctx(), n.Cluster.Cfg, n.SlvCfg)
		if err == nil {
			n.handler = reflect.ValueOf(slave.NewServerSideOp(n.Slave))
			n.Ready = true
			n.watchShutdown()
		}
	})
	if err == nil && !ok {
		err = fmt.Errorf("%s did not start: %s", n.Name, n.Why)
	}
	return err
}

// StartMaster brings the master up and connects it to its slaves.
func (n *Node) StartMaster() error {
	n.newIncarnation()
	var err error
	stage := "New"
	ok := n.Do(20*time.Minute, func() {
		var m *master.QKCMasterBackend
		if m, err = master.New(n.ctx(), n.Cluster.Cfg); err != nil {
			return
		}
		n.Master = m
		n.handler = reflect.ValueOf(master.NewServerSideOp(m))
		n.Ready = true
		n.watchShutdown()
		stage = "Init"
		srv := &p2p.Server{Config: p2p.Config{MaxPeers: 25}}
		if reflect.TypeOf(*srv).NumField() > 0 {
			setFieldIf(srv, "blackNodeFilter", nodefilter.NewBlackList(map[string]*enode.Node{}))
		}
		if err = m.Init(srv); err != nil {
			return
		}
		stage = "Start"
		err = m.Start()
	})
	if err != nil {
		return fmt.Errorf("%s: master %s: %v", n.Name, stage, err)
	}
	if !ok {
		return fmt.Errorf("%s did not start (%s): %s", n.Name, stage, n.Why)
	}
	return nil
}

// Shard returns a shard of the current incarnation, or nil.
func (n *Node) Shard(id uint32) *shard.ShardBackend {
	if !n.Alive || n.Slave == nil {
		return nil
	}
	return n.Slave.GetShard(id)
}

// ---- hooks ----

func (w *World) event(n *Node, kind, what, stack string) {
	e := NodeEvent{Kind: kind, What: what, Stack: stack, At: w.Now()}
	if n != nil {
		e.Node = n.Name
		e.Fault = n.Cluster != nil && n.Cluster.Faulted
	}
	w.Events = append(w.Events, e)
	w.tracef("%s: %s: %s", e.Node, kind, what)
}

// Host is where the current world keeps itself for the hooks.
var Cur *World

func installHooks() {
	runtime.SimSetPanicHook(func(tag uint32, v any) {
		w := Cur
		st := string(debug.Stack())
		n := w.byTag[tag]
		if n == nil {
			w.driverPanic(v, st)
			return
		}
		if w.byTag[tag].Tag != tag || !n.Alive {
			return
		}
		w.event(n, "panic", fmt.Sprint(v), trimStack(st))
		n.kill("panic: " + fmt.Sprint(v))
	})
	log.Root().SetHandler(log.FuncHandler(func(r *log.Record) error {
		w := Cur
		if w == nil {
			return nil
		}
		if w.Verbose && r.Lvl <= w.LogLvl {
			w.tracef("LOG[%v] %s: %s %v", r.Lvl, w.nameOf(runtime.SimTag()), r.Msg, r.Ctx)
		}
		if r.Lvl == log.LvlCrit { // the real process exits here
			n := w.byTag[runtime.SimTag()]
			msg := r.Msg + " " + fmt.Sprint(r.Ctx...)
			if n == nil {
				w.driverPanic("log.Crit in the driver: "+msg, string(debug.Stack()))
				select {}
			}
			w.event(n, "crit", msg, trimStack(string(debug.Stack())))
			n.kill("exit: " + msg)
			select {}
		}
		return nil
	}))
	service.DatabaseHook = func(name string, clean, readOnly bool) (ethdb.Database, error) {
		w := Cur
		n := w.byTag[runtime.SimTag()]
		if n == nil {
			return nil, fmt.Errorf("database opened outside any node")
		}
		d := n.Disks[name]
		if d == nil || clean {
			d = NewDisk(n.Name + "/" + name)
			d.onCrash = func(d *Disk) {
				w.count("crash-at-write")
				n.Cluster.Faulted = true
				n.kill("crash at a write to " + d.Name)
			}
			d.onErr = func(d *Disk) { w.count("disk-error"); n.Cluster.Faulted = true }
			n.Disks[name] = d
		}
		db, _, err := OpenDB(d, readOnly)
		return db, err
	}
	rpc.ClientHook = func(toMaster bool, names map[uint32]string) rpc.Client {
		w := Cur
		n := w.byTag[runtime.SimTag()]
		return &simClient{w: w, from: n, names: names}
	}
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "runtime/") || strings.Contains(l, "debug.Stack") || strings.Contains(l, "zzverif/sim.installHooks") {
			continue
		}
		out = append(out, strings.TrimSpace(l))
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// ---- cluster RPC over the simulated network ----

type simClient struct {
	w     *World
	from  *Node
	names map[uint32]string
	id    int64
}

func (c *simClient) GetOpName(op uint32) string { return c.names[op] }
func (c *simClient) Close()                     {}

func (c *simClient) Call(hostport string, req *rpc.Request) (*rpc.Response, error) {
	name, ok := c.names[req.Op]
	if !ok {
		return nil, fmt.Errorf("invalid op")
	}
	c.id++
	req.RpcId = c.id
	w := c.w
	if from := c.from; from != nil {
		tag := from.Tag
		from.inflight++
		defer func() {
			if from.Tag == tag && from.inflight > 0 {
				from.inflight--
			}
		}()
	}
	w.RPCs++
	f := w.Net.decide(c.from, hostport, name)
	if f.pre > 0 {
		time.Sleep(f.pre)
	}
	n := w.byHost[hostport]
	if n == nil || !n.Alive || !n.Ready {
		return nil, fmt.Errorf("rpc error: code = Unavailable desc = connection refused by %s", hostport)
	}
	if w.Run != nil {
		w.Run.announced(c.from, n, name, req.Data)
	}
	if f.loseReq {
		return nil, fmt.Errorf("rpc error: code = Unavailable desc = transport is closing")
	}
	r := &rpc.Request{Op: req.Op, RpcId: req.RpcId, Data: append([]byte(nil), req.Data...)}
	m := n.handler.MethodByName(name)
	if !m.IsValid() {
		return nil, fmt.Errorf("rpc error: code = Unimplemented desc = unknown method %s", name)
	}
	run := func() (chan struct{}, *[]reflect.Value) {
		var rs []reflect.Value
		done := n.Go(func() {
			rs = m.Call([]reflect.Value{reflect.ValueOf(context.Background()), reflect.ValueOf(r)})
		})
		return done, &rs
	}
	done, rs := run()
	if f.dup {
		w.count("rpc-dup")
		run()
	}
	t := time.NewTimer(500 * time.Second)
	defer t.Stop()
	select {
	case <-done:
	case <-n.DeadCh:
		return nil, fmt.Errorf("rpc error: code = Unavailable desc = transport is closing")
	case <-t.C:
		return nil, fmt.Errorf("rpc error: code = DeadlineExceeded desc = context deadline exceeded")
	}
	if f.post > 0 {
		time.Sleep(f.post)
	}
	if f.loseResp {
		return nil, fmt.Errorf("rpc error: code = Unavailable desc = transport is closing")
	}
	out := *rs
	if !out[1].IsNil() {
		return nil, fmt.Errorf("rpc error: code = Unknown desc = %v", out[1].Interface())
	}
	if out[0].IsNil() {
		return nil, fmt.Errorf("rpc error: code = Internal desc = nil response")
	}
	resp := out[0].Interface().(*rpc.Response)
	return &rpc.Response{RpcId: resp.RpcId, Data: append([]byte(nil), resp.Data...)}, nil
}
