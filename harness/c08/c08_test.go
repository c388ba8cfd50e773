package c08

import (
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	cl.Register("vAggrPuppets", newPuppet)
	hk.Main(m,
		"Collective aggregation runs over 1 to 8 servers in any rooted tree; every server holds 0 to 12 (sometimes over 100) of a pool of groups, with 0 to 2 group attributes and vectors of equal or of drawn different lengths (0 to 6), or plain data, with and without proofs; and runs of the real root with scripted children that deliver their messages in every generated interleaving. The result must contain exactly the groups that occur somewhere, each with its attributes, each value decrypting (independently) to the exact sum over the servers, shorter vectors counted as padded with zeros; the proofs published by every server must verify and cover the values that server had and received. Non-trivial: at least two servers and one group held by two of them.",
		"all group keys of one run have the same length and all groups the same number of group attributes, as the tags of one survey have")
}

type group struct {
	by  []int64
	agg []int64
}

type world []map[string]group

func genWorld(t *rapid.T, servers int) (world, string) {
	pool := rapid.IntRange(1, 6).Draw(t, "pool")
	if rapid.IntRange(0, 14).Draw(t, "big") == 0 {
		pool = rapid.SampledFrom([]int{99, 101, 120}).Draw(t, "bigPool")
	}
	nby := rapid.IntRange(0, 2).Draw(t, "nby")
	lens := rapid.IntRange(0, 2).Draw(t, "lens") // 0: all equal, 1: per server, 2: per server and group
	l := rapid.IntRange(0, 6).Draw(t, "l")
	w := make(world, servers)
	shared := rapid.IntRange(0, 3).Draw(t, "holding")
	equal := lens != 2 && rapid.IntRange(0, 3).Draw(t, "equal") == 0 // the groups of a server have the same values
	for s := range w {
		w[s] = map[string]group{}
		ls := l
		if lens == 1 {
			ls = rapid.IntRange(0, 6).Draw(t, fmt.Sprint("l", s))
		}
		hold := uint64(0)
		switch shared {
		case 0: // everything everywhere
			hold = ^uint64(0)
		case 1: // nothing at some servers
			if rapid.Bool().Draw(t, fmt.Sprint("has", s)) {
				hold = rapid.Uint64().Draw(t, fmt.Sprint("hold", s))
			}
		default:
			hold = rapid.Uint64().Draw(t, fmt.Sprint("hold", s))
		}
		seed := rapid.IntRange(0, 1000).Draw(t, fmt.Sprint("seed", s))
		for g := 0; g < pool; g++ {
			if hold>>(uint(g)%64)&1 == 0 {
				continue
			}
			lg := ls
			if lens == 2 {
				lg = (seed + g*5 + s) % 7
			}
			gr := group{}
			for i := 0; i < nby; i++ {
				gr.by = append(gr.by, int64((g/(1+i*3))%5))
			}
			mul := g + 1
			if equal {
				mul = 1
			}
			for i := 0; i < lg; i++ {
				gr.agg = append(gr.agg, int64((seed*mul+7*i)%50-5))
			}
			w[s][fmt.Sprintf("group%04d", g)] = gr
		}
	}
	return w, fmt.Sprintf("%d groups, %d attributes, lengths mode %d (%d), holding mode %d, equal values %v: %v", pool, nby, lens, l, shared, equal, clip(w))
}

func clip(w world) string {
	s := fmt.Sprint([]map[string]group(w))
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// encrypt encrypts the groups of one server; groups of the same values share one vector
func encrypt(pub kyber.Point, m map[string]group) cl.Grouped {
	out := cl.Grouped{}
	vectors := map[string]libunlynx.CipherVector{}
	for k, g := range m {
		fr := libunlynx.FilteredResponse{GroupByEnc: hk.EncVec(pub, g.by)}
		if v, ok := vectors[fmt.Sprint(g.agg)]; ok {
			fr.AggregatingAttributes = v
			out[libunlynx.GroupingKey(k)] = fr
			continue
		}
		fr.AggregatingAttributes = hk.EncVec(pub, g.agg)
		if (len(g.by)+len(g.agg))%2 == 0 {
			hk.Pack(&fr.GroupByEnc, &fr.AggregatingAttributes)
		} else {
			hk.Pack(&fr.AggregatingAttributes, &fr.GroupByEnc)
		}
		vectors[fmt.Sprint(g.agg)] = fr.AggregatingAttributes
		out[libunlynx.GroupingKey(k)] = fr
	}
	return out
}

func expected(w world) map[string]group {
	out := map[string]group{}
	for _, m := range w {
		for k, g := range m {
			o := out[k]
			o.by = g.by
			for len(o.agg) < len(g.agg) {
				o.agg = append(o.agg, 0)
			}
			o.agg = append([]int64{}, o.agg...)
			for i, v := range g.agg {
				o.agg[i] += v
			}
			out[k] = o
		}
	}
	return out
}

func nontrivial(w world) bool {
	n := map[string]int{}
	for _, m := range w {
		for k := range m {
			n[k]++
			if n[k] > 1 {
				return true
			}
		}
	}
	return false
}

func check(t *rapid.T, priv kyber.Scalar, got cl.Grouped, want map[string]group) {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for k := range got {
		if _, ok := want[string(k)]; !ok {
			t.Fatalf("group %q occurs at no server", k)
		}
	}
	for _, k := range keys {
		g, ok := got[libunlynx.GroupingKey(k)]
		if !ok {
			t.Fatalf("group %q is missing", k)
		}
		if d := hk.VecDecryptsTo(priv, g.GroupByEnc, want[k].by); d != "" {
			t.Fatalf("group %q: attributes: %s", k, d)
		}
		w := want[k].agg
		if len(g.AggregatingAttributes) < len(w) {
			t.Fatalf("group %q: %d values, want %d", k, len(g.AggregatingAttributes), len(w))
		}
		for i, c := range g.AggregatingAttributes {
			v := int64(0) // padding
			if i < len(w) {
				v = w[i]
			}
			if !hk.DecryptsTo(priv, c, v) {
				t.Fatalf("group %q: value %d does not decrypt to %d", k, i, v)
			}
		}
	}
}

// checkProofs verifies what one server published.
func checkProofs(t *rapid.T, priv kyber.Scalar, c cl.AggrCall, own map[string]group, results map[string]group) {
	if len(c.Data) != len(c.Res) {
		t.Fatalf("server %d: %d sums for %d lists of values", c.Server, len(c.Res), len(c.Data))
	}
	l := libunlynxaggr.AggregationListProofCreation(c.Data, c.Res)
	hk.Accept(t, fmt.Sprintf("proofs published by server %d", c.Server), func() bool { return libunlynxaggr.AggregationListProofVerification(l, 1.0) })
	n := 0
	for _, g := range own {
		n += len(g.agg)
	}
	data := 0
	for _, d := range c.Data {
		data += len(d)
	}
	if data < n {
		t.Fatalf("server %d: the proofs cover %d values, it alone holds %d", c.Server, data, n)
	}
}

func TestGrouped(t *testing.T) {
	hk.Check(t, 300, 7000, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		w, desc := genWorld(t, len(n.Roster.List))
		proofs := rapid.Bool().Draw(t, "proofs")
		hk.Case("grouped", fmt.Sprintf("%s; proofs %v; %s", n.Desc, proofs, desc), nontrivial(w), n.Classes()...)
		priv := cl.Priv(n.Roster)
		want := expected(w)
		got, calls := n.Aggregate(t, func(i int) (cl.Grouped, []libunlynx.CipherText) { return encrypt(n.Roster.Aggregate, w[i]), nil }, proofs)
		check(t, priv, got, want)
		if !proofs {
			return
		}
		if len(calls) != len(w) {
			t.Fatalf("%d servers published proofs, want %d", len(calls), len(w))
		}
		for _, c := range calls {
			checkProofs(t, priv, c, w[c.Server], want)
		}
		// the root's sums are the result
		last := map[string]int{}
		for _, g := range got {
			for _, c := range g.AggregatingAttributes {
				last[string(hk.CB(c))]++
			}
		}
		for _, c := range calls {
			if c.Server == n.IndexOf(n.Tree.Root.ServerIdentity) {
				for _, r := range c.Res {
					last[string(hk.CB(r))]--
				}
			}
		}
		for _, k := range last {
			if k != 0 {
				t.Fatalf("the sums proved by the root are not the values of the result")
			}
		}
	})
}

func TestSimple(t *testing.T) {
	hk.Check(t, 110, 3000, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		w := make(world, len(n.Roster.List))
		diff := rapid.Bool().Draw(t, "different")
		l := rapid.SampledFrom([]int{0, 1, 2, 5, 100, 101}).Draw(t, "l")
		for s := range w {
			w[s] = map[string]group{}
			ls := l
			if diff {
				ls = rapid.IntRange(0, 8).Draw(t, fmt.Sprint("l", s))
			}
			if ls > 0 {
				w[s][string(protocolsunlynx.EMPTYKEY)] = group{agg: hk.Ints(t, fmt.Sprint("v", s), ls, hk.Small)}
			}
		}
		proofs := rapid.Bool().Draw(t, "proofs")
		hk.Case("simple", fmt.Sprintf("%s; proofs %v; %s", n.Desc, proofs, clip(w)), nontrivial(w), n.Classes()...)
		priv := cl.Priv(n.Roster)
		want := expected(w)
		got, calls := n.Aggregate(t, func(i int) (cl.Grouped, []libunlynx.CipherText) {
			return nil, hk.EncVec(n.Roster.Aggregate, w[i][string(protocolsunlynx.EMPTYKEY)].agg)
		}, proofs)
		check(t, priv, got, want)
		for _, c := range calls {
			checkProofs(t, priv, c, w[c.Server], want)
		}
		flat, err := protocolsunlynx.RetrieveSimpleDataFromMap(got)
		if (err == nil) != (len(want) == 1) {
			t.Fatalf("retrieving plain data of %d groups: %v", len(want), err)
		}
		if err == nil {
			if d := hk.VecDecryptsTo(priv, flat, want[string(protocolsunlynx.EMPTYKEY)].agg); d != "" {
				t.Fatalf("retrieved plain data: %s", d)
			}
		}
	})
}

// ---- scripted children ----

type step struct {
	child int
	data  bool
}

type script struct {
	mu    sync.Mutex
	ready int
	nodes map[int]*puppet
	kids  int
	go_   chan struct{}
}

type announce struct {
	*onet.TreeNode
	protocolsunlynx.DataReferenceMessage
}

type puppet struct {
	*onet.TreeNodeInstance
	Ann chan announce
	end chan struct{}
	scr *script
	id  int
}

func newPuppet(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
	if n.IsRoot() {
		return protocolsunlynx.NewCollectiveAggregationProtocol(n)
	}
	p := &puppet{TreeNodeInstance: n, end: make(chan struct{})}
	return p, p.RegisterChannel(&p.Ann)
}

func (p *puppet) Start() error { return nil }

func (p *puppet) Dispatch() error {
	defer p.Done()
	select {
	case <-p.Ann:
	case <-time.After(60 * time.Second):
		return nil
	}
	p.scr.mu.Lock()
	p.scr.nodes[p.id] = p
	if len(p.scr.nodes) == p.scr.kids {
		close(p.scr.go_)
	}
	p.scr.mu.Unlock()
	select {
	case <-p.end:
	case <-time.After(60 * time.Second):
	}
	return nil
}

func TestArrivalOrders(t *testing.T) {
	hk.Check(t, 170, 3500, func(t *rapid.T) {
		r, rd := cl.DrawRoster(t, 3, 6)
		k := len(r.List) - 1
		order := make([]int, len(r.List))
		par := make([]int, len(r.List))
		par[0] = -1
		for i := range order {
			order[i] = i
		}
		w, desc := genWorld(t, len(r.List))
		// an interleaving: each child's lengths before its data
		var steps []step
		next := make([]int, k)
		for len(steps) < 2*k {
			var can []int
			for c := 0; c < k; c++ {
				if next[c] < 2 {
					can = append(can, c)
				}
			}
			c := rapid.SampledFrom(can).Draw(t, fmt.Sprint("step", len(steps)))
			steps = append(steps, step{c + 1, next[c] == 1})
			next[c]++
		}
		proofs := rapid.Bool().Draw(t, "proofs")
		hk.Case("orders", fmt.Sprintf("%s; order %v; proofs %v; %s", rd, steps, proofs, desc), nontrivial(w))
		priv := cl.Priv(r)
		n := cl.Net{Roster: r, Tree: cl.Build(r, order, par), Desc: rd, Depth: 1}
		var got cl.Grouped
		var calls []cl.AggrCall
		var cur *script
		conf := func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
			srv := n.IndexOf(tn.ServerIdentity())
			if p, ok := pi.(*puppet); ok {
				p.scr, p.id = cur, srv
				return
			}
			cur = &script{nodes: map[int]*puppet{}, kids: k, go_: make(chan struct{})}
			p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
			g := encrypt(r.Aggregate, w[srv])
			p.GroupedData = &g
			p.Proofs = proofs
			p.ProofFunc = func(d []libunlynx.CipherVector, res libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
				calls = append(calls, cl.AggrCall{Server: srv, Data: d, Res: res})
				return nil
			}
		}
		var sendErr error
		n.MustRun(t, "vAggrPuppets", conf, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
			scr := cur
			go func() {
				<-scr.go_
				scr.mu.Lock()
				defer scr.mu.Unlock()
				msgs := map[int]*protocolsunlynx.ChildAggregatedDataBytesMessage{}
				for _, s := range steps {
					p := scr.nodes[s.child]
					if s.data {
						if err := p.SendToParent(msgs[s.child]); err != nil {
							sendErr = err
						}
					} else {
						// one server's groups as it would send them: vectors padded to the longest
						var list []libunlynx.FilteredResponseDet
						max := 0
						for _, g := range w[s.child] {
							if len(g.agg) > max {
								max = len(g.agg)
							}
						}
						for key, g := range w[s.child] {
							agg := append([]int64{}, g.agg...)
							for len(agg) < max {
								agg = append(agg, 0)
							}
							list = append(list, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(key), Fr: libunlynx.FilteredResponse{GroupByEnc: hk.EncVec(r.Aggregate, g.by), AggregatingAttributes: hk.EncVec(r.Aggregate, agg)}})
						}
						m := protocolsunlynx.ChildAggregatedDataMessage{ChildData: list}
						b, gl, al, dl, err := m.ToBytes()
						if err != nil {
							sendErr = err
							return
						}
						msgs[s.child] = &protocolsunlynx.ChildAggregatedDataBytesMessage{Data: b}
						if err := p.SendToParent(&protocolsunlynx.CADBLengthMessage{GacbLength: gl, AabLength: al, DtbLength: dl}); err != nil {
							sendErr = err
						}
					}
					time.Sleep(1500 * time.Microsecond)
				}
				for _, p := range scr.nodes {
					close(p.end)
				}
			}()
			select {
			case r := <-pi.(*protocolsunlynx.CollectiveAggregationProtocol).FeedbackChannel:
				got = r.GroupedData
				return true
			case <-stop:
				return false
			}
		})
		if sendErr != nil {
			hk.Infra("a scripted child could not send: %v", sendErr)
		}
		check(t, priv, got, expected(w))
		for _, c := range calls {
			checkProofs(t, priv, c, w[c.Server], nil)
		}
	})
}
