// Package cl runs the real protocols on an in-process cluster of servers: every
// case picks an ordered subset of the servers and an arbitrary tree over them.
package cl

import (
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

var (
	once    sync.Once
	local   *onet.LocalTest
	servers []*onet.Server
	treeNo  uint64
	confs   sync.Map // onet.TreeID -> func(onet.ProtocolInstance, *onet.TreeNodeInstance)
	ctors   = map[string]bool{}
	ctorsMu sync.Mutex
)

// Max is the number of servers of the cluster.
const Max = 8

// Register makes a protocol known to the cluster under its own name. Call it
// before the first case.
func Register(name string, ctor func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error)) {
	ctorsMu.Lock()
	defer ctorsMu.Unlock()
	if ctors[name] {
		return
	}
	ctors[name] = true
	_, err := onet.GlobalProtocolRegister(name, func(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := ctor(n)
		if err != nil {
			return nil, err
		}
		if f, ok := confs.Load(n.Tree().ID); ok {
			f.(func(onet.ProtocolInstance, *onet.TreeNodeInstance))(pi, n)
		}
		return pi, nil
	})
	if err != nil {
		hk.Infra("registering %s: %v", name, err)
	}
}

// Up starts the cluster.
func Up() *onet.LocalTest {
	once.Do(func() {
		local = onet.NewLocalTest(libunlynx.SuiTe)
		local.Check = onet.CheckNone
		// onet always starts at port 2000
		next := reflect.ValueOf(local).Elem().FieldByName("latestPort")
		*(*int)(unsafe.Pointer(next.UnsafeAddr())) = ports()
		servers = local.GenServers(Max)
		if os.Getenv("VERIF_LOG") == "" {
			hk.Quiet()
		}
	})
	return local
}

var reserved net.Listener

// ports reserves a range of ports: the servers listen for clients at fixed
// ports, and the checks of one property run at once in several processes.
func ports() int {
	for try := 0; try < 200; try++ {
		base := 10000 + 100*((os.Getpid()+try)%200)
		if l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", base+99)); err == nil {
			free := true
			for i := 0; i < Max; i++ {
				if w, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", base+10*i+1)); err == nil {
					w.Close()
				} else {
					free = false
				}
			}
			if free {
				reserved = l
				return base
			}
			l.Close()
		}
	}
	hk.Infra("no free ports")
	return 0
}

// Servers gives all servers.
func Servers() []*onet.Server { Up(); return servers }

// Net is the servers and the tree of one case.
type Net struct {
	Roster *onet.Roster
	Tree   *onet.Tree
	Desc   string
	Depth  int
}

// Priv is the sum of the private keys of the roster.
func Priv(r *onet.Roster) kyber.Scalar {
	s := libunlynx.SuiTe.Scalar().Zero()
	for _, si := range r.List {
		s = libunlynx.SuiTe.Scalar().Add(s, si.GetPrivate())
	}
	return s
}

// DrawRoster draws an ordered subset of between lo and hi servers.
func DrawRoster(t *rapid.T, lo, hi int) (*onet.Roster, string) {
	Up()
	n := rapid.IntRange(lo, hi).Draw(t, "servers")
	perm := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "order")[:n]
	ids := make([]*network.ServerIdentity, n)
	for i, p := range perm {
		ids[i] = servers[p].ServerIdentity
	}
	return onet.NewRoster(ids), fmt.Sprint(perm)
}

// DrawParents draws a random tree shape over n nodes: parent[i] < i.
func DrawParents(t *rapid.T, n int) []int {
	par := make([]int, n)
	par[0] = -1
	kind := rapid.IntRange(0, 3).Draw(t, "treeKind")
	for i := 1; i < n; i++ {
		switch kind {
		case 0: // star
			par[i] = 0
		case 1: // path
			par[i] = i - 1
		default:
			par[i] = rapid.IntRange(0, i-1).Draw(t, fmt.Sprintf("parent%d", i))
		}
	}
	return par
}

// Build makes a tree over the roster: node i of the shape is roster member
// order[i].
func Build(r *onet.Roster, order, par []int) *onet.Tree {
	nodes := make([]*onet.TreeNode, len(par))
	for i := range par {
		nodes[i] = onet.NewTreeNode(order[i], r.List[order[i]])
		if i > 0 {
			nodes[par[i]].AddChild(nodes[i])
		}
	}
	tr := onet.NewTree(r, nodes[0])
	// the library's tree identifiers collide for different shapes
	var id onet.TreeID
	binary.BigEndian.PutUint64(id[:8], atomic.AddUint64(&treeNo, 1))
	id[15] = 1
	tr.ID = id
	return tr
}

// Draw draws a roster and a tree of all its members.
func Draw(t *rapid.T, lo, hi int) Net {
	r, d := DrawRoster(t, lo, hi)
	return DrawTree(t, r, d)
}

// DrawTree draws another tree over a roster.
func DrawTree(t *rapid.T, r *onet.Roster, d string) Net {
	n := len(r.List)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	order := rapid.Permutation(idx).Draw(t, "treeOrder")
	par := DrawParents(t, n)
	depth := make([]int, n)
	max := 0
	for i := 1; i < n; i++ {
		depth[i] = depth[par[i]] + 1
		if depth[i] > max {
			max = depth[i]
		}
	}
	return Net{Roster: r, Tree: Build(r, order, par), Desc: fmt.Sprintf("roster %s tree order %v parents %v", d, order, par), Depth: max}
}

// Again is a fresh tree of the same shape.
func (n Net) Again() Net {
	var id onet.TreeID
	binary.BigEndian.PutUint64(id[:8], atomic.AddUint64(&treeNo, 1))
	id[15] = 2
	c := *n.Tree
	c.ID = id
	n.Tree = &c
	return n
}

// Classes describes the shape for the distribution of cases.
func (n Net) Classes() []string {
	return []string{fmt.Sprint("servers=", len(n.Roster.List)), fmt.Sprint("depth=", n.Depth)}
}

// IndexOf is the position of a server in the roster.
func (n Net) IndexOf(si *network.ServerIdentity) int {
	for i, s := range n.Roster.List {
		if s.ID.Equal(si.ID) {
			return i
		}
	}
	return -1
}

// Run creates an instance of the protocol at the root of the tree, configures
// every instance with conf and starts it; result must wait for its outcome. It
// returns false if there was no outcome in time.
func (n Net) Run(name string, limit time.Duration, conf func(onet.ProtocolInstance, *onet.TreeNodeInstance), result func(onet.ProtocolInstance, <-chan time.Time) bool) (bool, error) {
	l := Up()
	for _, si := range n.Roster.List {
		l.Overlays[si.ID].RegisterTree(n.Tree)
	}
	confs.Store(n.Tree.ID, conf)
	defer confs.Delete(n.Tree.ID)
	pi, err := l.CreateProtocol(name, n.Tree)
	if err != nil {
		return false, err
	}
	started := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				started <- fmt.Errorf("panic in Start: %v", r)
			}
		}()
		if err := pi.Start(); err != nil {
			started <- err
		}
	}()
	stop := make(chan time.Time)
	got := make(chan bool, 1)
	go func() { got <- result(pi, stop) }()
	select {
	case ok := <-got:
		return ok, nil
	case err := <-started:
		close(stop)
		return false, err
	case <-time.After(limit):
		close(stop)
		return false, nil
	}
}

// MustRun is Run, repeated when a run does not end (the network library can
// lose a message on a loaded machine); what comes out of the first run that
// ends is the result.
func (n Net) MustRun(t hk.TB, name string, conf func(onet.ProtocolInstance, *onet.TreeNodeInstance), result func(onet.ProtocolInstance, <-chan time.Time) bool) {
	t.Helper()
	for i, k := 0, hk.Attempts(); i < k; i++ {
		m := n
		if i > 0 {
			m = n.Again()
		}
		ok, err := m.Run(name, hk.HangLimit(), conf, result)
		if err != nil {
			t.Fatalf("%s: %s: Start failed: %v", name, n.Desc, err)
		}
		if ok {
			return
		}
		hk.Note("a protocol run did not end within the limit")
	}
	hk.Blocked()
	t.Fatalf("%s: %s: the protocol does not end", name, strings.TrimSpace(n.Desc))
}
