package c11

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
	"verif/harness/sv"
)

func TestMain(m *testing.M) {
	cl.Register("vAR", protocolsunlynxutils.NewAddRmProtocol)
	cl.Register("vLA", protocolsunlynxutils.NewLocalAggregationProtocol)
	cl.Register("vLCA", protocolsunlynxutils.NewLocalClearAggregationProtocol)
	cl.Register("vPV", protocolsunlynxutils.NewProofsVerificationProtocol)
	hk.Main(m,
		"Two to five generated surveys run at once on the same cluster (same or overlapping rosters, same or different entry servers), their creations, uploads and result queries started together after generated delays; uploads of one survey run at once, and the results may be asked for before, during or after them, by generated delays; up to 260 providers upload to one server before the results are asked for; two to sixteen protocol instances of eight protocols run at once in one process. Each survey and each instance must give exactly its own answer, known from its clear data. Non-trivial: at least two things run at once, with different answers.",
		"delays sample the schedules, which are otherwise the scheduler's; what does not end is repeated before it counts, because the network library can lose a message on a loaded machine")
}

// sub collects the failure of one of several concurrent parts.
type sub struct {
	mu  sync.Mutex
	msg string
}

func (s *sub) Fatalf(f string, a ...interface{}) {
	s.Errorf(f, a...)
	runtime.Goexit()
}
func (s *sub) Errorf(f string, a ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.msg == "" {
		s.msg = fmt.Sprintf(f, a...)
	}
}
func (s *sub) Logf(string, ...interface{}) {}
func (s *sub) Helper()                     {}

// together runs the parts at once and gives the first failure.
func together(parts []func(hk.TB)) string {
	subs := make([]*sub, len(parts))
	start := make(chan bool)
	var wg sync.WaitGroup
	for i, p := range parts {
		subs[i] = &sub{}
		wg.Add(1)
		go func(p func(hk.TB), s *sub) {
			defer wg.Done()
			<-start
			defer func() {
				if r := recover(); r != nil {
					s.Errorf("panic: %v", r)
				}
			}()
			p(s)
		}(p, subs[i])
	}
	close(start)
	wg.Wait()
	for i, s := range subs {
		if s.msg != "" {
			return fmt.Sprintf("part %d: %s", i, s.msg)
		}
	}
	return ""
}

func wait(us int) { time.Sleep(time.Duration(us) * time.Microsecond) }

// plan is when the steps of a survey start.
type plan struct {
	create, results int   // delays in microseconds
	uploads         []int // delays; the uploads run at once
	order           int   // 0: results after the uploads, 1: results at the same time
}

func drawPlan(t *rapid.T, s *sv.Survey) plan {
	delay := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 300), rapid.IntRange(0, 20000))
	p := plan{create: delay.Draw(t, "createAt"), results: delay.Draw(t, "resultsAt"), order: rapid.IntRange(0, 1).Draw(t, "order")}
	same := rapid.Bool().Draw(t, "sameTime")
	for range s.DPs {
		d := 0
		if !same {
			d = delay.Draw(t, "uploadAt")
		}
		p.uploads = append(p.uploads, d)
	}
	return p
}

// run does a survey after its plan.
func run(s *sv.Survey, p plan) ([]string, error) {
	wait(p.create)
	c, id, err := s.Create(false)
	if err != nil {
		return nil, err
	}
	errs := make(chan error, len(s.DPs))
	for i, d := range s.DPs {
		go func(i int, d sv.DP) {
			wait(p.uploads[i])
			errs <- s.Upload(id, d)
		}(i, d)
	}
	var got []string
	results := func() error {
		wait(p.results)
		var err error
		got, err = s.Results(c, id)
		return err
	}
	uploads := func() error {
		for range s.DPs {
			if err := <-errs; err != nil {
				return err
			}
		}
		return nil
	}
	if p.order == 0 {
		if err := uploads(); err != nil {
			return nil, err
		}
		return got, results()
	}
	done := make(chan error, 1)
	go func() { done <- results() }()
	if err := uploads(); err != nil {
		return nil, err
	}
	err = <-done
	return got, err
}

func differs(s *sv.Survey, got []string) string {
	want := s.Answer()
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("%v\nanswered %q\nexpected %q", s, got, want)
	}
	return ""
}

func TestSurveys(t *testing.T) {
	cl.Up()
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		k := rapid.IntRange(1, 5).Draw(t, "surveys")
		l := sv.Limits{Servers: 4, DPs: 8, Records: 3, Proofs: 12}
		if rapid.Bool().Draw(t, "sameRoster") {
			l.Roster, l.RosterDesc = cl.DrawRoster(t, 1, 4)
		}
		var ss []*sv.Survey
		var plans []plan
		desc := ""
		answers := map[string]bool{}
		uploads := 0
		for i := 0; i < k; i++ {
			s := sv.Draw(t, l)
			ss = append(ss, s)
			plans = append(plans, drawPlan(t, s))
			answers[fmt.Sprint(s.Answer())] = true
			desc += fmt.Sprintf("[%v; %v] ", s, plans[i])
			uploads += len(s.DPs)
		}
		hk.Case("surveys", desc, uploads > 1 && (k == 1 || len(answers) > 1), fmt.Sprint("surveys=", k))
		msg := ""
		ended, pm := hk.EventuallyEnds(func() func() {
			return func() {
				var parts []func(hk.TB)
				for i := range ss {
					i := i
					parts = append(parts, func(s hk.TB) {
						got, err := run(ss[i], plans[i])
						if err != nil {
							s.Fatalf("%v\n%v", ss[i], err)
						}
						if d := differs(ss[i], got); d != "" {
							s.Fatalf("%s", d)
						}
					})
				}
				msg = together(parts)
			}
		})
		if !ended {
			t.Fatalf("%s\nthe surveys do not all end", desc)
		}
		if pm+msg != "" {
			t.Fatalf("%d surveys at once: %s%s", k, pm, msg)
		}
	})
}

// TestManySurveys: many small surveys on the same three to eight servers, all
// their results asked for at once, so that the servers are at different steps
// of different surveys.
func TestManySurveys(t *testing.T) {
	cl.Up()
	hk.Check(t, 12, 200, func(t *rapid.T) {
		r, rd := cl.DrawRoster(t, 3, 8)
		n := len(r.List)
		k := rapid.IntRange(4, 16).Draw(t, "surveys")
		var ss []*sv.Survey
		for i := 0; i < k; i++ {
			s := &sv.Survey{Roster: r, RosterDesc: rd, Entry: rapid.IntRange(0, n-1).Draw(t, "entry"), Group: []string{"g0"}, Sum: []string{"s0"}}
			for j := 0; j < n; j++ {
				// some servers have much more to do than others
				d := sv.DP{Repeat: 1, Server: j}
				m := rapid.SampledFrom([]int{0, 1, 1, 2, 12}).Draw(t, "records")
				for x := 0; x < m; x++ {
					d.Records = append(d.Records, sv.Record{Group: []int64{int64(x % 3)}, Sum: []int64{int64(100*i + x)}, EncG: []bool{true}, EncS: []bool{true}})
				}
				if m > 0 {
					s.DPs = append(s.DPs, d)
				}
			}
			ss = append(ss, s)
		}
		hk.Case("manySurveys", fmt.Sprintf("%d surveys on %s", k, rd), true, fmt.Sprint("servers=", n))
		msg := ""
		ended, pm := hk.EventuallyEnds(func() func() {
			return func() {
				var clients []func(hk.TB)
				for i := range ss {
					s := ss[i]
					c, id, err := s.Create(false)
					for _, d := range s.DPs {
						if err == nil {
							err = s.Upload(id, d)
						}
					}
					if err != nil {
						msg = err.Error()
						return
					}
					clients = append(clients, func(t hk.TB) {
						got, err := s.Results(c, id)
						if err != nil {
							t.Fatalf("%v\n%v", s, err)
						}
						if d := differs(s, got); d != "" {
							t.Fatalf("%s", d)
						}
					})
				}
				msg = together(clients)
			}
		})
		if !ended {
			t.Fatalf("%d surveys on %s do not all end", k, rd)
		}
		if pm+msg != "" {
			t.Fatalf("%d surveys on %s: %s%s", k, rd, pm, msg)
		}
	})
}

// TestUploads: many providers at few servers, small records.
func TestUploads(t *testing.T) {
	cl.Up()
	hk.Check(t, 25, 500, func(t *rapid.T) {
		r, rd := cl.DrawRoster(t, 1, 3)
		n := rapid.OneOf(rapid.IntRange(2, 40), rapid.IntRange(2, 40), rapid.IntRange(2, 40), rapid.SampledFrom([]int{99, 100, 101, 102, 130, 260})).Draw(t, "providers")
		s := &sv.Survey{Roster: r, RosterDesc: rd, Entry: rapid.IntRange(0, len(r.List)-1).Draw(t, "entry"), Group: []string{"g0"}, Sum: []string{"s0", "count"}, Count: true}
		clear := rapid.Bool().Draw(t, "clear")
		spread := rapid.Bool().Draw(t, "spread")
		vals := hk.Ints(t, "values", n, func(t *rapid.T, n string) int64 { return rapid.Int64Range(0, 50).Draw(t, n) })
		per := rapid.IntRange(1, 3).Draw(t, "records")
		for i := 0; i < n; i++ {
			d := sv.DP{Repeat: 1}
			if spread {
				d.Server = i % len(r.List)
			}
			for j := 0; j < per; j++ {
				d.Records = append(d.Records, sv.Record{Group: []int64{int64((i + j) % 3)}, Sum: []int64{vals[i], 1}, EncG: []bool{!clear}, EncS: []bool{true, true}})
			}
			s.DPs = append(s.DPs, d)
		}
		p := drawPlan(t, s)
		oneByOne := rapid.IntRange(0, 3).Draw(t, "oneByOne") == 0
		hk.Case("uploads", fmt.Sprintf("%d providers x %d at %d servers (spread %v, clear %v, one by one %v)", n, per, len(r.List), spread, clear, oneByOne), true, hk.LenClass(n))
		var got []string
		var err error
		ended, msg := hk.EventuallyEnds(func() func() {
			return func() {
				if oneByOne {
					got, err = s.Run()
				} else {
					got, err = run(s, p)
				}
			}
		})
		if !ended {
			t.Fatalf("%d providers uploading (one by one: %v): does not end", n, oneByOne)
		}
		if msg != "" || err != nil {
			t.Fatalf("%d providers uploading: %v %v", n, msg, err)
		}
		if d := differs(s, got); d != "" {
			t.Fatalf("%d providers uploading: %s", n, d)
		}
	})
}

// TestDuring: the results are asked for while long uploads are being stored.
func TestDuring(t *testing.T) {
	cl.Up()
	hk.Check(t, 40, 800, func(t *rapid.T) {
		r, rd := cl.DrawRoster(t, 1, 3)
		s := &sv.Survey{Roster: r, RosterDesc: rd, Entry: rapid.IntRange(0, len(r.List)-1).Draw(t, "entry"), Group: []string{"g0"}, Sum: []string{"s0"}}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "providers"); i < n; i++ {
			d := sv.DP{Repeat: rapid.IntRange(20, 300).Draw(t, "records"), Server: s.Entry}
			if rapid.IntRange(0, 3).Draw(t, "elsewhere") == 0 {
				d.Server = rapid.IntRange(0, len(r.List)-1).Draw(t, "server")
			}
			d.Records = []sv.Record{{Group: []int64{int64(i % 2)}, Sum: []int64{rapid.Int64Range(0, 20).Draw(t, "value")}, EncG: []bool{false}, EncS: []bool{true}}}
			s.DPs = append(s.DPs, d)
		}
		p := drawPlan(t, s)
		p.order, p.results = 1, rapid.OneOf(rapid.IntRange(0, 5000), rapid.IntRange(0, 60000)).Draw(t, "resultsAfter")
		hk.Case("during", fmt.Sprint(s, " ", p), true, fmt.Sprint("providers=", len(s.DPs)))
		var got []string
		var err error
		ended, msg := hk.EventuallyEnds(func() func() {
			return func() { got, err = run(s, p) }
		})
		if !ended {
			t.Fatalf("%v\nresults asked for %d us after the uploads began: does not end", s, p.results)
		}
		if msg != "" || err != nil {
			t.Fatalf("%v\nresults asked for %d us after the uploads began: %v %v", s, p.results, msg, err)
		}
		if d := differs(s, got); d != "" {
			t.Fatalf("results asked for %d us after the uploads began: %s", p.results, d)
		}
	})
}

func sc(n int) kyber.Scalar {
	return libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.XOF([]byte(fmt.Sprint("c11-", n))))
}

var (
	aggrOnce          sync.Once
	goodAggr, badAggr libunlynxaggr.PublishedAggregationProof
)

// part is one protocol instance: it checks its own result.
func part(t *rapid.T, no int) (string, func(hk.TB)) {
	kind := rapid.IntRange(0, 8).Draw(t, "protocol")
	n := rapid.IntRange(0, 6).Draw(t, "values")
	key := sc(no)
	pub := libunlynx.SuiTe.Point().Mul(key, nil)
	vals := make([]int64, n)
	for i := range vals {
		vals[i] = int64(1000*(no+1) + i)
	}
	vector := func(pub kyber.Point) libunlynx.CipherVector {
		out := libunlynx.CipherVector{}
		for i, v := range vals {
			out = append(out, hk.EncRef(pub, v, sc(100*no+i)))
		}
		return out
	}
	same := func(t hk.TB, name string, k kyber.Scalar, got libunlynx.CipherVector) {
		if m := hk.VecDecryptsTo(k, got, vals); m != "" {
			t.Fatalf("%s with the values %v: %s", name, vals, m)
		}
	}
	if kind < 4 {
		net := cl.Draw(t, 1, 1)
		switch kind {
		case 0:
			add := rapid.Bool().Draw(t, "add")
			x := sc(5000 + no)
			after := libunlynx.SuiTe.Scalar().Sub(key, x)
			if add {
				after = libunlynx.SuiTe.Scalar().Add(key, x)
			}
			proofs := rapid.Bool().Draw(t, "proofs")
			return "addrm", func(t hk.TB) {
				var out []libunlynx.CipherText
				net.MustRun(t, "vAR", func(pi onet.ProtocolInstance, _ *onet.TreeNodeInstance) {
					p := pi.(*protocolsunlynxutils.AddRmServerProtocol)
					p.TargetOfTransformation, p.KeyToRm, p.Add, p.Proofs = vector(pub), x, add, proofs
				}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
					select {
					case out = <-pi.(*protocolsunlynxutils.AddRmServerProtocol).FeedbackChannel:
						return true
					case <-stop:
						return false
					}
				})
				same(t, "adding or removing a server", after, out)
			}
		case 1:
			return "localaggr", func(t hk.TB) {
				var list []libunlynx.FilteredResponseDet
				for i := 0; i < 3; i++ {
					list = append(list, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprint(no)), Fr: libunlynx.FilteredResponse{AggregatingAttributes: vector(pub)}})
				}
				var out cl.Grouped
				net.MustRun(t, "vLA", func(pi onet.ProtocolInstance, _ *onet.TreeNodeInstance) {
					pi.(*protocolsunlynxutils.LocalAggregationProtocol).TargetOfAggregation = list
				}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
					select {
					case out = <-pi.(*protocolsunlynxutils.LocalAggregationProtocol).FeedbackChannel:
						return true
					case <-stop:
						return false
					}
				})
				want := make([]int64, n)
				for i := range want {
					want[i] = 3 * vals[i]
				}
				fr, ok := out[libunlynx.GroupingKey(fmt.Sprint(no))]
				if !ok || len(out) != 1 {
					t.Fatalf("local aggregation of the group %d gives %d groups, not its own", no, len(out))
				}
				if m := hk.VecDecryptsTo(key, fr.AggregatingAttributes, want); m != "" {
					t.Fatalf("local aggregation: %s", m)
				}
			}
		case 2:
			return "localclear", func(t hk.TB) {
				var out []libunlynx.DpClearResponse
				in := []libunlynx.DpClearResponse{}
				for i := 0; i < 2; i++ {
					in = append(in, libunlynx.DpClearResponse{GroupByClear: map[string]int64{"g0": int64(no)}, AggregatingAttributesClear: map[string]int64{"s0": int64(7 * no)}})
				}
				net.MustRun(t, "vLCA", func(pi onet.ProtocolInstance, _ *onet.TreeNodeInstance) {
					pi.(*protocolsunlynxutils.LocalClearAggregationProtocol).TargetOfAggregation = in
				}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
					select {
					case out = <-pi.(*protocolsunlynxutils.LocalClearAggregationProtocol).FeedbackChannel:
						return true
					case <-stop:
						return false
					}
				})
				if len(out) != 1 || out[0].GroupByClear["g0"] != int64(no) || out[0].AggregatingAttributesClear["s0"] != int64(14*no) {
					t.Fatalf("clear aggregation of the group %d gives %v", no, out)
				}
			}
		default:
			a, b := rapid.Bool().Draw(t, "first"), rapid.Bool().Draw(t, "second")
			pick := func(ok bool) libunlynxaggr.PublishedAggregationListProof {
				aggrOnce.Do(func() {
					d := libunlynx.CipherVector{hk.EncRef(libunlynx.SuiTe.Point().Base(), 1, sc(1)), hk.EncRef(libunlynx.SuiTe.Point().Base(), 2, sc(2))}
					goodAggr = libunlynxaggr.AggregationProofCreation(d, d.Acum())
					badAggr = goodAggr
					badAggr.AggregationResult = d[0]
				})
				if ok {
					return libunlynxaggr.PublishedAggregationListProof{List: []libunlynxaggr.PublishedAggregationProof{goodAggr}}
				}
				return libunlynxaggr.PublishedAggregationListProof{List: []libunlynxaggr.PublishedAggregationProof{badAggr}}
			}
			return "verification", func(t hk.TB) {
				var out []bool
				net.MustRun(t, "vPV", func(pi onet.ProtocolInstance, _ *onet.TreeNodeInstance) {
					pi.(*protocolsunlynxutils.ProofsVerificationProtocol).TargetOfVerification = protocolsunlynxutils.ProofsToVerify{AggregationProofs: pick(a), CollectiveAggregationProofs: pick(b)}
				}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
					select {
					case out = <-pi.(*protocolsunlynxutils.ProofsVerificationProtocol).FeedbackChannel:
						return true
					case <-stop:
						return false
					}
				})
				if len(out) != 6 || out[3] != a || out[5] != b {
					t.Fatalf("verification with verdicts %v and %v gives %v", a, b, out)
				}
			}
		}
	}
	net := cl.Draw(t, 1, 5)
	priv := cl.Priv(net.Roster)
	switch kind {
	case 4, 5:
		return "keyswitch", func(t hk.TB) {
			out, _ := net.KeySwitch(t, vector(net.Roster.Aggregate), pub, false)
			same(t, "key switching", key, out)
		}
	case 6:
		return "shuffle", func(t hk.TB) {
			var in []libunlynx.CipherVector
			var want, got []string
			for _, c := range vector(net.Roster.Aggregate) {
				in = append(in, libunlynx.CipherVector{c})
			}
			out, _ := net.Shuffle(t, in, nil, false, nil)
			for i, v := range vals {
				want = append(want, hk.IntPoint(v).String())
				if i < len(out) && len(out[i]) == 1 {
					got = append(got, hk.DecPoint(priv, out[i][0]).String())
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			if len(out) != n || strings.Join(want, "") != strings.Join(got, "") {
				t.Fatalf("shuffling the values %v gives %d rows, not a permutation", vals, len(out))
			}
		}
	case 7:
		return "tag", func(t hk.TB) {
			sum, prod := libunlynx.SuiTe.Scalar().Zero(), libunlynx.SuiTe.Scalar().One()
			secrets := map[int]kyber.Scalar{}
			for i := range net.Roster.List {
				secrets[i] = sc(7000 + 10*no + i)
				sum.Add(sum, secrets[i])
				prod.Mul(prod, secrets[i])
			}
			out := net.Tag(t, vector(net.Roster.Aggregate), func(i int) kyber.Scalar { return secrets[i] }, false)
			if len(out) != n {
				t.Fatalf("tagging %d values gives %d tags", n, len(out))
			}
			for i, v := range vals {
				p := libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().Mul(prod, libunlynx.SuiTe.Scalar().Add(sum, libunlynx.SuiTe.Scalar().SetInt64(v))), nil)
				if !out[i].Point.Equal(p) {
					t.Fatalf("the tag of %d is not that of this value and survey", v)
				}
			}
		}
	}
	return "aggregate", func(t hk.TB) {
		name := libunlynx.GroupingKey(fmt.Sprint("group", no))
		out, _ := net.Aggregate(t, func(int) (cl.Grouped, []libunlynx.CipherText) {
			return cl.Grouped{name: {AggregatingAttributes: vector(pub)}}, nil
		}, false)
		want := make([]int64, n)
		for i := range want {
			want[i] = vals[i] * int64(len(net.Roster.List))
		}
		fr, ok := out[name]
		if !ok || len(out) != 1 {
			t.Fatalf("aggregation of the group %s gives %d groups, not its own", name, len(out))
		}
		if m := hk.VecDecryptsTo(key, fr.AggregatingAttributes, want); m != "" {
			t.Fatalf("aggregation: %s", m)
		}
	}
}

func TestProtocols(t *testing.T) {
	cl.Up()
	hk.Check(t, 200, 4000, func(t *rapid.T) {
		k := rapid.IntRange(2, 16).Draw(t, "instances")
		var parts []func(hk.TB)
		var names []string
		for i := 0; i < k; i++ {
			n, f := part(t, i+1)
			d := rapid.SampledFrom([]int{0, 0, 100, 2000}).Draw(t, "delay")
			names = append(names, n)
			parts = append(parts, func(t hk.TB) { wait(d); f(t) })
		}
		hk.Case("protocols", strings.Join(names, " "), true, fmt.Sprint("instances=", k))
		if m := together(parts); m != "" {
			t.Fatalf("%s at once: %s", strings.Join(names, " "), m)
		}
	})
}
