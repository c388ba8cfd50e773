package c09

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Stateful: a store and an exactly-once model of its four stages (responses, shuffled, locally aggregated, collectively aggregated, deliverable) are driven by generated sequences of insertions (clear, encrypted and mixed attributes, with attributes that are missing, ambiguous or superfluous), pushes and pulls, with and without proofs and noise; after every step everything that was ever pulled or passed in must be unchanged, the pending flags must match the model, and each pull must return exactly what the model holds. Concurrent: generated batches of responses are inserted by several goroutines at once (also with a goroutine pulling meanwhile) and the pulls together must contain every response exactly once. Non-trivial: at least three insertions and one pull of data.",
	)
}

type query struct {
	groupBy, sum []string
	where        []libunlynx.WhereQueryAttribute
	priv         kyber.Scalar
	pub          kyber.Point
	step         libunlynx.CipherText
	cur          libunlynx.CipherText
	mu           sync.Mutex
}

// enc encrypts v with randomness that differs from all other calls
func (q *query) enc(v int64) libunlynx.CipherText {
	q.cur = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(q.cur.K, q.step.K), C: libunlynx.SuiTe.Point().Add(q.cur.C, q.step.C)}
	return libunlynx.CipherText{K: q.cur.K, C: libunlynx.SuiTe.Point().Add(q.cur.C, hk.IntPoint(v))}
}

func names(t *rapid.T, p string, lo, hi int) []string {
	n := rapid.IntRange(lo, hi).Draw(t, "n"+p)
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("%s%d", p, i)
	}
	if n > 1 && rapid.Bool().Draw(t, "rev"+p) {
		for i := 0; i < n/2; i++ {
			out[i], out[n-1-i] = out[n-1-i], out[i]
		}
	}
	return out
}

func genQuery(t *rapid.T) *query {
	q := &query{groupBy: names(t, "g", 0, 3), sum: names(t, "s", 0, 4)}
	if rapid.IntRange(0, 24).Draw(t, "long") == 0 {
		q.sum = nil
		for i := 0; i < 102; i++ {
			q.sum = append(q.sum, fmt.Sprint("s", i))
		}
	}
	if rapid.Bool().Draw(t, "count") {
		q.sum = append(q.sum, "count")
	}
	q.priv, q.pub = hk.KeyPair(t, "key")
	q.step = hk.EncRef(q.pub, 0, hk.Scalar(t, "step"))
	q.cur = hk.EncRef(q.pub, 0, hk.Scalar(t, "r0"))
	for i, n := range names(t, "w", 0, 3) {
		q.where = append(q.where, libunlynx.WhereQueryAttribute{Name: n, Value: hk.EncRef(q.pub, int64(i), q.priv)})
	}
	return q
}

// resp is a response and what it means
type resp struct {
	dp     libunlynx.DpResponse
	clear  bool
	group  []int64
	where  []int64
	aggr   []int64
	gc, wc []*libunlynx.CipherText // the ciphertext that must be delivered, nil for a clear value
	ac     []*libunlynx.CipherText
}

var pool = []int64{0, 1, 2, 11, 12, 112, -1, -12, 1<<40 + 1, 99999}

func (q *query) genResp(t *rapid.T, clear bool) resp {
	r := resp{clear: clear}
	// few groups, so that they meet; [1 12] / [11 2] / [112] style values
	val := func(n string) int64 {
		if rapid.IntRange(0, 3).Draw(t, n+"k") > 0 {
			return pool[rapid.IntRange(0, 2).Draw(t, n)]
		}
		return rapid.SampledFrom(pool).Draw(t, n)
	}
	fill := func(attrs []string, p string, v func(string) int64, mode int) (map[string]int64, map[string]libunlynx.CipherText, []int64, []*libunlynx.CipherText) {
		// mode 0: only clear, 1: only encrypted, 2: mixed; the attributes with
		// even number are missing in some
		var c map[string]int64
		var e map[string]libunlynx.CipherText
		if mode != 1 {
			c = map[string]int64{}
		}
		if mode != 0 {
			e = map[string]libunlynx.CipherText{}
		}
		vals := make([]int64, len(attrs))
		cts := make([]*libunlynx.CipherText, len(attrs))
		pat := make([]int64, 4)
		for i := range pat {
			pat[i] = v(fmt.Sprint(p, i))
		}
		miss := rapid.IntRange(0, 7).Draw(t, p+"miss")
		for i, a := range attrs {
			x := pat[i%4]
			if miss == i%8 {
				vals[i] = 0
				continue
			}
			vals[i] = x
			if mode == 1 || (mode == 2 && i%2 == 0) {
				ct := q.enc(x)
				e[a] = ct
				cts[i] = &ct
				if mode == 2 && i%4 == 0 {
					c[a] = x // also known in clear
				}
			} else {
				c[a] = x
			}
		}
		if rapid.IntRange(0, 5).Draw(t, p+"extra") == 0 && mode != 1 {
			c[p+"x"] = 7
		}
		return c, e, vals, cts
	}
	gm, wm := 0, 0
	if !clear {
		gm = rapid.IntRange(0, 2).Draw(t, "gm")
		wm = rapid.IntRange(0, 2).Draw(t, "wm")
		if gm == 0 && wm == 0 {
			gm = rapid.IntRange(1, 2).Draw(t, "gm2")
		}
	}
	whereNames := make([]string, len(q.where))
	for i, w := range q.where {
		whereNames[i] = w.Name
	}
	r.dp.GroupByClear, r.dp.GroupByEnc, r.group, r.gc = fill(q.groupBy, "g", val, gm)
	r.dp.WhereClear, r.dp.WhereEnc, r.where, r.wc = fill(whereNames, "w", val, wm)
	r.dp.AggregatingAttributesClear, r.dp.AggregatingAttributesEnc, r.aggr, r.ac = fill(q.sum, "s", func(n string) int64 { return hk.Small(t, n) }, rapid.IntRange(0, 2).Draw(t, "am"))
	return r
}

func key(g, w []int64) string { return fmt.Sprint(g, "|", w) }

func intCT(v int64) libunlynx.CipherText {
	return libunlynx.CipherText{K: libunlynx.SuiTe.Point().Null(), C: hk.IntPoint(v)}
}

// row is the identity of an individually delivered response
func (r resp) row() string {
	f := func(vals []int64, cts []*libunlynx.CipherText) string {
		cv := libunlynx.CipherVector{}
		for i := range vals {
			if cts[i] != nil {
				cv = append(cv, *cts[i])
			} else {
				cv = append(cv, intCT(vals[i]))
			}
		}
		return fmt.Sprintf("%d:%x", len(cv), hk.VB(cv))
	}
	return f(r.group, r.gc) + "/" + f(r.where, r.wc) + "/" + f(r.aggr, r.ac)
}
func prRow(p libunlynx.ProcessResponse) string {
	f := func(cv libunlynx.CipherVector) string { return fmt.Sprintf("%d:%x", len(cv), hk.VB(cv)) }
	return f(p.GroupByEnc) + "/" + f(p.WhereEnc) + "/" + f(p.AggregatingAttributes)
}
func frRow(p libunlynx.FilteredResponse) string {
	f := func(cv libunlynx.CipherVector) string { return fmt.Sprintf("%d:%x", len(cv), hk.VB(cv)) }
	return f(p.GroupByEnc) + "/" + f(p.AggregatingAttributes)
}

// pending is the model of the responses that wait for a pull
type pending struct {
	single map[string]int
	groups map[string]*resp
}

func newPending() *pending { return &pending{map[string]int{}, map[string]*resp{}} }
func (p *pending) add(r resp) {
	if !r.clear {
		p.single[r.row()]++
		return
	}
	k := key(r.group, r.where)
	if p.groups[k] == nil {
		p.groups[k] = &resp{group: r.group, where: r.where, aggr: make([]int64, len(r.aggr))}
	}
	for i, v := range r.aggr {
		p.groups[k].aggr[i] += v
	}
}
func (p *pending) empty() bool { return len(p.single) == 0 && len(p.groups) == 0 }

// diff removes what was pulled from the model and describes what does not fit.
// partial: the groups may come in parts.
func (p *pending) take(q *query, got []libunlynx.ProcessResponse, onePerGroup bool) string {
	// groups are recognised by their clear ciphertexts
	ids := map[string]*resp{}
	for _, g := range p.groups {
		cv := libunlynx.CipherVector{}
		for _, v := range append(append([]int64{}, g.group...), g.where...) {
			cv = append(cv, intCT(v))
		}
		ids[fmt.Sprintf("%d:%x", len(g.group), hk.VB(cv))] = g
	}
	type acc struct {
		sum libunlynx.CipherVector
		n   int
	}
	seen := map[*resp]*acc{}
	for _, r := range got {
		k := prRow(r)
		if p.single[k] > 0 {
			p.single[k]--
			if p.single[k] == 0 {
				delete(p.single, k)
			}
			continue
		}
		id := fmt.Sprintf("%d:%x", len(r.GroupByEnc), hk.VB(append(append(libunlynx.CipherVector{}, r.GroupByEnc...), r.WhereEnc...)))
		g := ids[id]
		if g == nil {
			return "a response was delivered that was not inserted (or was delivered before)"
		}
		if len(r.AggregatingAttributes) != len(g.aggr) {
			return fmt.Sprintf("group %v/%v has %d aggregates instead of %d", g.group, g.where, len(r.AggregatingAttributes), len(g.aggr))
		}
		if seen[g] == nil {
			seen[g] = &acc{sum: r.AggregatingAttributes}
		} else {
			s := make(libunlynx.CipherVector, len(g.aggr))
			for i := range s {
				s[i] = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(seen[g].sum[i].K, r.AggregatingAttributes[i].K), C: libunlynx.SuiTe.Point().Add(seen[g].sum[i].C, r.AggregatingAttributes[i].C)}
			}
			seen[g].sum = s
		}
		seen[g].n++
	}
	for k, g := range p.groups {
		a := seen[g]
		if a == nil {
			return fmt.Sprintf("group %v/%v was not delivered", g.group, g.where)
		}
		if onePerGroup && a.n != 1 {
			return fmt.Sprintf("group %v/%v was delivered %d times", g.group, g.where, a.n)
		}
		if d := hk.VecDecryptsTo(q.priv, a.sum, g.aggr); d != "" {
			return fmt.Sprintf("group %v/%v: %s", g.group, g.where, d)
		}
		delete(p.groups, k)
	}
	if len(p.single) > 0 {
		return fmt.Sprintf("%d encrypted responses were not delivered", len(p.single))
	}
	return ""
}

// tagged is the model of a table of groups
type tagged map[string]*struct {
	group, aggr []int64
}

func sameTable(q *query, m tagged, got map[libunlynx.GroupingKey]libunlynx.FilteredResponse) string {
	if len(got) != len(m) {
		return fmt.Sprintf("%d groups instead of %d", len(got), len(m))
	}
	for k, v := range got {
		g := m[string(k)]
		if g == nil {
			return fmt.Sprintf("unknown tag %q", k)
		}
		if d := sameFR(q, v, g.group, g.aggr); d != "" {
			return fmt.Sprintf("tag %q: %s", k, d)
		}
	}
	return ""
}

func sameFR(q *query, v libunlynx.FilteredResponse, group, aggr []int64) string {
	if d := hk.VecDecryptsTo(q.priv, v.GroupByEnc, group); d != "" {
		return "group attributes: " + d
	}
	if d := hk.VecDecryptsTo(q.priv, v.AggregatingAttributes, aggr); d != "" {
		return "aggregates: " + d
	}
	return ""
}

func TestHistory(t *testing.T) {
	hk.Check(t, 250, 5000, func(t *rapid.T) {
		q := genQuery(t)
		s := libunlynxstore.NewStore()
		dp := newPending()
		var hist []string
		inserts, pulls := 0, 0
		// everything that was passed in or handed out, as it was then
		type snap struct {
			what string
			now  func() string
			then string
		}
		var snaps []snap
		watch := func(what string, f func() string) { snaps = append(snaps, snap{what, f, f()}) }
		log := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(what string) { t.Fatalf("%s\n  history: %s", what, strings.Join(hist, "; ")) }

		var shuffled []string // rows waiting
		local, coll := tagged{}, tagged{}
		type del struct{ group, aggr []int64 }
		var deliver []del

		// groups of the tagged stages: one plaintext group per tag
		tagGroups := map[string][]int64{}
		genFR := func(tag string, n int, name string) (libunlynx.FilteredResponse, []int64, []int64) {
			if tagGroups[tag] == nil {
				tagGroups[tag] = []int64{int64(len(tagGroups)), 5}[:1+len(tagGroups)%2]
			}
			g := tagGroups[tag]
			vals := hk.Ints(t, name, n, hk.Small)
			fr := libunlynx.FilteredResponse{}
			for _, v := range g {
				fr.GroupByEnc = append(fr.GroupByEnc, q.enc(v))
			}
			for _, v := range vals {
				fr.AggregatingAttributes = append(fr.AggregatingAttributes, q.enc(v))
			}
			hk.Pack(&fr.GroupByEnc, &fr.AggregatingAttributes)
			return fr, g, vals
		}
		nAggr := len(q.sum)
		merge := func(m tagged, tag string, g, v []int64) {
			e := m[tag]
			if e == nil {
				m[tag] = &struct{ group, aggr []int64 }{g, append([]int64{}, v...)}
				return
			}
			for i := range v {
				e.aggr[i] += v[i]
			}
		}
		tags := []string{"", "a", "b", "ab", "tag-4", "tag-5"}
		noiseGen := func() (bool, int64, libunlynx.CipherText) {
			if !rapid.Bool().Draw(t, "diffPri") {
				return false, 0, libunlynx.CipherText{}
			}
			v := int64(rapid.IntRange(-50, 50).Draw(t, "noise"))
			return true, v, q.enc(v)
		}
		shift := func(v []int64, n int64) []int64 {
			out := make([]int64, len(v))
			for i := range v {
				out[i] = v[i] + n
			}
			return out
		}
		watchPRs := func(what string, l []libunlynx.ProcessResponse) {
			watch(what, func() string {
				var o []string
				for _, v := range l {
					o = append(o, prRow(v))
				}
				return strings.Join(o, "\n")
			})
		}
		watchFRs := func(what string, l []libunlynx.FilteredResponse) {
			watch(what, func() string {
				var o []string
				for _, v := range l {
					o = append(o, frRow(v))
				}
				return strings.Join(o, "\n")
			})
		}
		watchTable := func(what string, m map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
			watch(what, func() string {
				var o []string
				for k, v := range m {
					o = append(o, string(k)+"="+frRow(v))
				}
				sort.Strings(o)
				return strings.Join(o, "\n")
			})
		}
		insert := func(clear bool) func(*rapid.T) {
			return func(*rapid.T) {
				r := q.genResp(t, clear)
				if rapid.IntRange(0, 9).Draw(t, "alias") == 0 && inserts > 0 {
					// the very same response twice
					s.InsertDpResponse(r.dp, false, q.groupBy, q.sum, q.where)
					dp.add(r)
				}
				proofs := rapid.Bool().Draw(t, "proofs")
				watch("an inserted response", func() string { return fmt.Sprint(dpDesc(r.dp)) })
				s.InsertDpResponse(r.dp, proofs, q.groupBy, q.sum, q.where)
				dp.add(r)
				inserts++
				log("insert clear=%v %v/%v->%v", clear, r.group, r.where, r.aggr)
			}
		}
		var lastPulled []libunlynx.ProcessResponse
		pullDp := func(*rapid.T) {
			got := s.PullDpResponses()
			log("pullDp->%d", len(got))
			if len(got) > 0 {
				pulls++
			}
			watchPRs("what PullDpResponses returned", got)
			lastPulled = got
			if d := dp.take(q, got, true); d != "" {
				fail("PullDpResponses: " + d)
			}
		}
		// rows to push, parts of one list
		var rows []libunlynx.ProcessResponse
		var parts [][]libunlynx.ProcessResponse
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "parts"); i < n; i++ {
			from := len(rows)
			for j, m := 0, rapid.IntRange(0, 4).Draw(t, "rows"); j < m; j++ {
				rows = append(rows, libunlynx.ProcessResponse{GroupByEnc: libunlynx.CipherVector{q.enc(1)}, AggregatingAttributes: libunlynx.CipherVector{q.enc(int64(j))}})
			}
			parts = append(parts, make([]libunlynx.ProcessResponse, len(rows)-from))
		}
		for i, from := 0, 0; i < len(parts); i++ {
			to := from + len(parts[i])
			parts[i] = rows[from:to]
			from = to
		}
		watchPRs("shuffled responses passed in", rows)
		acts := map[string]func(*rapid.T){
			"insertClear":  insert(true),
			"insertClear2": insert(true),
			"insertEnc":    insert(false),
			"pullDp":       pullDp,
			"pushShuffled": func(*rapid.T) {
				l := lastPulled
				if rapid.Bool().Draw(t, "freshRows") {
					// parts of one list, in any order
					k := rapid.IntRange(0, len(parts)-1).Draw(t, "part")
					l = parts[k]
					parts[k] = nil
				}
				s.PushShuffledProcessResponses(l)
				for _, v := range l {
					shuffled = append(shuffled, prRow(v))
				}
				log("pushShuffled %d", len(l))
			},
			"pullShuffled": func(*rapid.T) {
				got := s.PullShuffledProcessResponses()
				log("pullShuffled->%d", len(got))
				var rows []string
				for _, v := range got {
					rows = append(rows, prRow(v))
				}
				if len(got) > 0 {
					pulls++
				}
				watchPRs("what PullShuffledProcessResponses returned", got)
				sort.Strings(rows)
				sort.Strings(shuffled)
				if !hk.SameStrings(rows, shuffled) {
					fail(fmt.Sprintf("PullShuffledProcessResponses returned %d responses that are not the %d pending ones", len(rows), len(shuffled)))
				}
				shuffled = nil
			},
			"pushTagged": func(*rapid.T) {
				var l []libunlynx.FilteredResponseDet
				n := rapid.IntRange(0, 5).Draw(t, "nDet")
				for i := 0; i < n; i++ {
					tag := rapid.SampledFrom(tags).Draw(t, "tag")
					fr, g, v := genFR(tag, nAggr, fmt.Sprint("det", i))
					l = append(l, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(tag), Fr: fr})
					merge(local, tag, g, v)
				}
				watch("tagged responses passed in", func() string {
					var o []string
					for _, x := range l {
						o = append(o, string(x.DetTagGroupBy)+frRow(x.Fr))
					}
					return strings.Join(o, "\n")
				})
				s.PushDeterministicFilteredResponses(l, "server", rapid.Bool().Draw(t, "proofs"))
				inserts += n
				log("pushTagged %d", n)
			},
			"pullLocal": func(*rapid.T) {
				got := s.PullLocallyAggregatedResponses()
				log("pullLocal->%d", len(got))
				if len(got) > 0 {
					pulls++
				}
				if d := sameTable(q, local, got); d != "" {
					fail("PullLocallyAggregatedResponses: " + d)
				}
				watchTable("what PullLocallyAggregatedResponses returned", got)
				local = tagged{}
			},
			"pushCollective": func(*rapid.T) {
				m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
				for i, tag := range tags {
					if rapid.IntRange(0, 2).Draw(t, "has") > 0 {
						continue
					}
					fr, g, v := genFR(tag, nAggr, fmt.Sprint("coll", i))
					m[libunlynx.GroupingKey(tag)] = fr
					merge(coll, tag, g, v)
				}
				watchTable("collective results passed in", m)
				s.PushCothorityAggregatedFilteredResponses(m)
				inserts += len(m)
				log("pushCollective %d", len(m))
			},
			"pullCollective": func(*rapid.T) {
				dpf, nv, noise := noiseGen()
				got := s.PullCothorityAggregatedFilteredResponses(dpf, noise)
				log("pullCollective(noise %v)->%d", nv, len(got))
				if len(got) > 0 {
					pulls++
				}
				if len(got) != len(coll) {
					fail(fmt.Sprintf("PullCothorityAggregatedFilteredResponses returned %d groups instead of %d", len(got), len(coll)))
				}
				left := tagged{}
				for k, v := range coll {
					left[k] = v
				}
				for _, v := range got {
					ok := ""
					last := "no group left"
					for k, g := range left {
						if last = sameFR(q, v, g.group, shift(g.aggr, nv)); last == "" {
							ok = k
							break
						}
					}
					if last != "" {
						fail("PullCothorityAggregatedFilteredResponses returned a group that matches none of the pending ones: " + last)
					}
					delete(left, ok)
				}
				watchFRs("what PullCothorityAggregatedFilteredResponses returned", got)
				coll = tagged{}
			},
			"pushDeliverable": func(*rapid.T) {
				if len(deliver) > 0 {
					return
				}
				var l []libunlynx.FilteredResponse
				n := rapid.IntRange(0, 4).Draw(t, "nDel")
				for i := 0; i < n; i++ {
					fr, g, v := genFR(rapid.SampledFrom(tags).Draw(t, "tag"), nAggr, fmt.Sprint("del", i))
					l = append(l, fr)
					deliver = append(deliver, del{g, v})
				}
				watchFRs("results passed in", l)
				s.PushQuerierKeyEncryptedResponses(l)
				inserts += n
				log("pushDeliverable %d", n)
			},
			"pullDeliverable": func(*rapid.T) {
				dpf, nv, noise := noiseGen()
				got := s.PullDeliverableResults(dpf, noise)
				log("pullDeliverable(noise %v)->%d", nv, len(got))
				if len(got) > 0 {
					pulls++
				}
				if len(got) != len(deliver) {
					fail(fmt.Sprintf("PullDeliverableResults returned %d results instead of %d", len(got), len(deliver)))
				}
				for i, v := range got {
					if d := sameFR(q, v, deliver[i].group, shift(deliver[i].aggr, nv)); d != "" {
						fail(fmt.Sprintf("PullDeliverableResults, result %d: %s", i, d))
					}
				}
				watchFRs("what PullDeliverableResults returned", got)
				deliver = nil
			},
			"": func(*rapid.T) {
				if s.HasNextDpResponse() != !dp.empty() {
					fail(fmt.Sprintf("HasNextDpResponse says %v, pending: %v", s.HasNextDpResponse(), !dp.empty()))
				}
				if s.HasNextAggregatedResponse() != (len(local) > 0) {
					fail(fmt.Sprintf("HasNextAggregatedResponse says %v, pending: %d", s.HasNextAggregatedResponse(), len(local)))
				}
				if s.HasNextAggregatedFilteredResponses() != (len(coll) > 0) {
					fail(fmt.Sprintf("HasNextAggregatedFilteredResponses says %v, pending: %d", s.HasNextAggregatedFilteredResponses(), len(coll)))
				}
				from := 0
				if len(snaps) > 5 {
					from = len(snaps) - 5
				}
				for _, x := range snaps[from:] {
					if x.now() != x.then {
						fail(x.what + " was changed by a later operation")
					}
				}
			},
		}
		t.Repeat(acts)
		for _, x := range snaps {
			if x.now() != x.then {
				fail(x.what + " was changed by a later operation")
			}
		}
		pullDp(t)
		acts["pullShuffled"](t)
		acts["pullLocal"](t)
		acts["pullCollective"](t)
		acts["pullDeliverable"](t)
		hk.Case("history", strings.Join(hist, "; "), inserts >= 3 && pulls > 0, fmt.Sprint("groupBy=", len(q.groupBy)), fmt.Sprint("where=", len(q.where)), hk.LenClass(len(q.sum)))
	})
}

func dpDesc(d libunlynx.DpResponse) string {
	e := func(m map[string]libunlynx.CipherText) string {
		o := []string{}
		for k, v := range m {
			o = append(o, fmt.Sprintf("%s=%x", k, hk.CB(v)))
		}
		sort.Strings(o)
		return fmt.Sprint(m == nil, o)
	}
	return fmt.Sprint(d.GroupByClear, d.WhereClear, d.AggregatingAttributesClear, e(d.GroupByEnc), e(d.WhereEnc), e(d.AggregatingAttributesEnc))
}

func TestConcurrent(t *testing.T) {
	hk.Check(t, 400, 6000, func(t *rapid.T) {
		q := genQuery(t)
		dps := rapid.IntRange(2, 8).Draw(t, "dps")
		per := rapid.IntRange(1, 12).Draw(t, "per")
		puller := rapid.Bool().Draw(t, "puller")
		onlyClear := rapid.Bool().Draw(t, "onlyClear")
		proofs := rapid.Bool().Draw(t, "proofs")
		// a few templates, so that the case stays small
		var tmpl []resp
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "templates"); i < n; i++ {
			tmpl = append(tmpl, q.genResp(t, onlyClear || rapid.Bool().Draw(t, "clear")))
		}
		s := libunlynxstore.NewStore()
		model := newPending()
		start := make(chan struct{})
		var wg sync.WaitGroup
		panics := make(chan string, dps+1)
		for d := 0; d < dps; d++ {
			var batch []resp
			for i := 0; i < per; i++ {
				r := tmpl[(d+i)%len(tmpl)]
				batch = append(batch, r)
				model.add(r)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m := hk.NoPanic(func() {
					<-start
					for _, r := range batch {
						s.InsertDpResponse(r.dp, proofs, q.groupBy, q.sum, q.where)
					}
				}); m != "" {
					panics <- m
				}
			}()
		}
		var got []libunlynx.ProcessResponse
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			if !puller {
				return
			}
			if m := hk.NoPanic(func() {
				<-start
				for {
					select {
					case <-stop:
						return
					default:
						if s.HasNextDpResponse() {
							got = append(got, s.PullDpResponses()...)
						}
					}
				}
			}); m != "" {
				panics <- m
			}
		}()
		hk.Case("concurrent", fmt.Sprintf("%d providers x %d responses of %d kinds, puller %v, proofs %v", dps, per, len(tmpl), puller, proofs), dps*per >= 3, fmt.Sprint("puller=", puller))
		close(start)
		wg.Wait()
		close(stop)
		<-done
		select {
		case m := <-panics:
			t.Fatalf("concurrent insertions: %s", m)
		default:
		}
		got = append(got, s.PullDpResponses()...)
		if d := model.take(q, got, !puller); d != "" {
			t.Fatalf("%d providers inserting %d responses each at once: %s", dps, per, d)
		}
		if s.HasNextDpResponse() {
			t.Fatalf("data is reported pending after everything was pulled")
		}
	})
}
