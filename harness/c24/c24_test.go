package c24

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxstore "github.com/ldsec/unlynx/lib/store"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	cl.Register("vLA", protocolsunlynxutils.NewLocalAggregationProtocol)
	cl.Register("vLCA", protocolsunlynxutils.NewLocalClearAggregationProtocol)
	hk.Main(m,
		"Generated lists of tagged responses (0 to 250 responses over 1 to 40 tags, 0 to 201 aggregates) are aggregated by the local aggregation protocol, and the table must have exactly one entry per tag with the exact element-wise sums and the tag's group attributes. Generated clear records (any split into clear and encrypted attributes, negative values, several filter attributes, no attributes of a kind) go through the clear-text aggregation, directly and as a protocol, against a reference. Lists of responses with generated lengths are converted to matrices or flat vectors, exchanged for other ciphertexts there, and converted back. Non-trivial: at least two responses.",
		"records of one data set have the same attributes; attributes are named g0, w0, s0, ... with the clear ones first, as everywhere in the code")
}

// -- encrypted aggregation

func ct(a, b kyber.Point) libunlynx.CipherText { return libunlynx.CipherText{K: a, C: b} }

type encs struct {
	cur, step libunlynx.CipherText
}

func (q *encs) enc(v int64) libunlynx.CipherText {
	q.cur = ct(libunlynx.SuiTe.Point().Add(q.cur.K, q.step.K), libunlynx.SuiTe.Point().Add(q.cur.C, q.step.C))
	return ct(q.cur.K, libunlynx.SuiTe.Point().Add(q.cur.C, hk.IntPoint(v)))
}

func newEncs(t *rapid.T) (*encs, kyber.Scalar) {
	priv, pub := hk.KeyPair(t, "key")
	return &encs{hk.EncRef(pub, 0, hk.Scalar(t, "r0")), hk.EncRef(pub, 0, hk.Scalar(t, "step"))}, priv
}

func TestLocalAggregation(t *testing.T) {
	hk.Check(t, 130, 2500, func(t *rapid.T) {
		net := cl.Draw(t, 1, 1)
		q, priv := newEncs(t)
		n := hk.Len(t, "responses", 0, 40)
		if rapid.IntRange(0, 14).Draw(t, "many") == 0 {
			n = rapid.SampledFrom([]int{99, 100, 101, 250}).Draw(t, "n")
		}
		nt := rapid.IntRange(1, 6).Draw(t, "tags")
		if n > 20 && rapid.Bool().Draw(t, "manyTags") {
			nt = 40
		}
		na := rapid.IntRange(0, 5).Draw(t, "aggr")
		if n <= 12 && rapid.IntRange(0, 5).Draw(t, "wide") == 0 {
			na = rapid.SampledFrom([]int{99, 100, 101, 201}).Draw(t, "na")
		}
		ng := rapid.IntRange(0, 3).Draw(t, "groups")
		proofs := rapid.Bool().Draw(t, "proofs")
		vals := hk.Ints(t, "vals", n*na, hk.Small)
		sign := rapid.Bool().Draw(t, "sign")
		stride := rapid.IntRange(1, 5).Draw(t, "stride")
		tag := func(i int) int { return (i*stride + i/7) % nt }
		tagName := func(k int) libunlynx.GroupingKey {
			return libunlynx.GroupingKey(strings.Repeat("x", k%3) + fmt.Sprint(k))
		}
		groups := func(k int) []int64 {
			out := make([]int64, ng)
			for i := range out {
				out[i] = int64((k + i) % 7)
			}
			return out
		}
		var list []libunlynx.FilteredResponseDet
		want := map[libunlynx.GroupingKey][]int64{}
		wantG := map[libunlynx.GroupingKey][]int64{}
		for i := 0; i < n; i++ {
			k := tagName(tag(i))
			fr := libunlynx.FilteredResponse{}
			for _, g := range groups(tag(i)) {
				fr.GroupByEnc = append(fr.GroupByEnc, q.enc(g))
			}
			if want[k] == nil {
				want[k] = make([]int64, na)
				wantG[k] = groups(tag(i))
			}
			for j := 0; j < na; j++ {
				v := vals[i*na+j]
				if sign && (i+j)%3 == 0 {
					v = -v
				}
				want[k][j] += v
				fr.AggregatingAttributes = append(fr.AggregatingAttributes, q.enc(v))
			}
			list = append(list, libunlynx.FilteredResponseDet{DetTagGroupBy: k, Fr: fr})
		}
		if rapid.Bool().Draw(t, "packed") {
			var vs []*libunlynx.CipherVector
			for i := range list {
				vs = append(vs, &list[i].Fr.GroupByEnc, &list[i].Fr.AggregatingAttributes)
			}
			hk.Pack(vs...)
		}
		show := func() string {
			var b strings.Builder
			for _, v := range list {
				fmt.Fprintf(&b, "%s %x %x\n", v.DetTagGroupBy, hk.VB(v.Fr.GroupByEnc), hk.VB(v.Fr.AggregatingAttributes))
			}
			return b.String()
		}
		before := show()
		hk.Case("local", fmt.Sprintf("%d responses, %d tags, %d aggregates, %d groups, proofs %v", n, len(want), na, ng, proofs), n >= 2, fmt.Sprint("tags=", len(want)), hk.LenClass(na))
		var got map[libunlynx.GroupingKey]libunlynx.FilteredResponse
		net.MustRun(t, "vLA", func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
			p := pi.(*protocolsunlynxutils.LocalAggregationProtocol)
			p.TargetOfAggregation, p.Proofs = list, proofs
		}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
			select {
			case got = <-pi.(*protocolsunlynxutils.LocalAggregationProtocol).FeedbackChannel:
				return true
			case <-stop:
				return false
			}
		})
		if len(got) != len(want) {
			t.Fatalf("%d entries for %d tags", len(got), len(want))
		}
		for k, w := range want {
			g, ok := got[k]
			if !ok {
				t.Fatalf("no entry for tag %q", k)
			}
			if d := hk.VecDecryptsTo(priv, g.AggregatingAttributes, w); d != "" {
				t.Fatalf("tag %q: aggregates: %s", k, d)
			}
			if d := hk.VecDecryptsTo(priv, g.GroupByEnc, wantG[k]); d != "" {
				t.Fatalf("tag %q: group attributes: %s", k, d)
			}
		}
		if show() != before {
			t.Fatalf("the aggregation changed its input")
		}
	})
}

// -- clear aggregation

func mapOf(p string, start int, vals []int64) map[string]int64 {
	m := map[string]int64{}
	for i, v := range vals {
		m[fmt.Sprint(p, start+i)] = v
	}
	return m
}

func canon(d libunlynx.DpClearResponse) (id, all string) {
	f := func(m map[string]int64) string {
		o := []string{}
		for k, v := range m {
			o = append(o, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(o)
		return strings.Join(o, ",")
	}
	id = f(d.GroupByClear) + "|" + f(d.GroupByEnc) + "|" + f(d.WhereClear) + "|" + f(d.WhereEnc)
	return id, id + "|" + f(d.AggregatingAttributesClear) + "|" + f(d.AggregatingAttributesEnc)
}

func canonAll(l []libunlynx.DpClearResponse) []string {
	var o []string
	for _, d := range l {
		_, a := canon(d)
		o = append(o, a)
	}
	return o
}

func TestClear(t *testing.T) {
	hk.Check(t, 1500, 25000, func(t *rapid.T) {
		num := func(n string, hi int) int { return rapid.IntRange(0, hi).Draw(t, n) }
		gc, ge, wc, we, ac, ae := num("gc", 2), num("ge", 2), num("wc", 2), num("we", 2), num("ac", 3), num("ae", 3)
		if num("wide", 20) == 0 {
			ae = rapid.SampledFrom([]int{99, 100, 101, 201}).Draw(t, "ae2")
		}
		n := num("records", 25)
		gpool := rapid.SampledFrom([][]int64{{0, 1}, {0, 1, 2}, {1, 11, 111, -1, -11}, {10, 20, 0}, {1 << 50, -(1 << 50), 7}}).Draw(t, "gpool")
		wpool := rapid.SampledFrom([][]int64{{1}, {0, 1}, {1, 2}, {1, 10, -20, 100}, {0, 10, 1}}).Draw(t, "wpool")
		val := func(name string) int64 {
			return rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(-1000000, 1000000), rapid.Int64Range(-(1<<50), 1<<50)).Draw(t, name)
		}
		var data []libunlynx.DpClearResponse
		want := map[string]*libunlynx.DpClearResponse{}
		kept := 0
		for i := 0; i < n; i++ {
			pick := func(name string, pool []int64, k int) []int64 {
				o := make([]int64, k)
				for j := range o {
					o[j] = rapid.SampledFrom(pool).Draw(t, name)
				}
				return o
			}
			g, w := pick("g", gpool, gc+ge), pick("w", wpool, wc+we)
			a := hk.Ints(t, "a", ac+ae, func(_ *rapid.T, n string) int64 { return val(n) })
			d := libunlynx.DpClearResponse{GroupByClear: mapOf("g", 0, g[:gc]), GroupByEnc: mapOf("g", gc, g[gc:]), WhereClear: mapOf("w", 0, w[:wc]), WhereEnc: mapOf("w", wc, w[wc:]),
				AggregatingAttributesClear: mapOf("s", 0, a[:ac]), AggregatingAttributesEnc: mapOf("s", ac, a[ac:])}
			data = append(data, d)
			zero := false
			for _, v := range w {
				zero = zero || v == 0
			}
			if zero {
				continue
			}
			kept++
			id, _ := canon(d)
			if want[id] == nil {
				c := d
				c.AggregatingAttributesClear, c.AggregatingAttributesEnc = map[string]int64{}, map[string]int64{}
				want[id] = &c
			}
			for k, v := range d.AggregatingAttributesClear {
				want[id].AggregatingAttributesClear[k] += v
			}
			for k, v := range d.AggregatingAttributesEnc {
				want[id].AggregatingAttributesEnc[k] += v
			}
		}
		viaProtocol := num("protocol", 9) == 0
		before := canonAll(data)
		hk.Case("clear", fmt.Sprintf("%d records (%d kept) in %d groups, attributes g %d+%d w %d+%d s %d+%d, groups from %v, filters from %v, protocol %v: %v", n, kept, len(want), gc, ge, wc, we, ac, ae, gpool, wpool, viaProtocol, before), n >= 2, fmt.Sprint("noKey=", gc+ge+wc+we == 0), fmt.Sprint("protocol=", viaProtocol))
		var got []libunlynx.DpClearResponse
		if viaProtocol {
			cl.Draw(t, 1, 1).MustRun(t, "vLCA", func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
				pi.(*protocolsunlynxutils.LocalClearAggregationProtocol).TargetOfAggregation = data
			}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
				select {
				case got = <-pi.(*protocolsunlynxutils.LocalClearAggregationProtocol).FeedbackChannel:
					return true
				case <-stop:
					return false
				}
			})
		} else {
			got = libunlynxstore.AddInClear(data)
		}
		var w []libunlynx.DpClearResponse
		for _, d := range want {
			w = append(w, *d)
		}
		a, b := canonAll(got), canonAll(w)
		sort.Strings(a)
		sort.Strings(b)
		if !hk.SameStrings(a, b) {
			t.Fatalf("clear aggregation gives\n %q\ninstead of\n %q", a, b)
		}
		if !hk.SameStrings(before, canonAll(data)) {
			t.Fatalf("the clear aggregation changed its input")
		}
	})
}

// -- conversions

func TestConversions(t *testing.T) {
	hk.Check(t, 1200, 20000, func(t *rapid.T) {
		q, _ := newEncs(t)
		n := hk.Len(t, "n", 0, 30)
		same := rapid.Bool().Draw(t, "sameLengths")
		lens := func(name string) func(int) int {
			base := rapid.IntRange(0, 4).Draw(t, name)
			step := rapid.IntRange(0, 3).Draw(t, name+"s")
			return func(i int) int {
				if same {
					return base
				}
				return (base + i*step) % 5
			}
		}
		vec := func(k int) libunlynx.CipherVector {
			var o libunlynx.CipherVector
			for i := 0; i < k; i++ {
				o = append(o, q.enc(int64(i)))
			}
			return o
		}
		other := func(cv libunlynx.CipherVector) libunlynx.CipherVector {
			o := make(libunlynx.CipherVector, len(cv))
			for i := range cv {
				o[i] = ct(libunlynx.SuiTe.Point().Add(cv[i].K, q.step.K), libunlynx.SuiTe.Point().Add(cv[i].C, q.step.C))
			}
			return o
		}
		lg, lw, la := lens("lg"), lens("lw"), lens("la")
		hk.Case("conversions", fmt.Sprintf("%d responses, lengths %d/%d/%d.. same %v", n, lg(1), lw(1), la(1), same), n >= 2, hk.LenClass(n), fmt.Sprint("same=", same))

		// filtered responses <-> flat vector, with the content exchanged
		var frs []libunlynx.FilteredResponse
		for i := 0; i < n; i++ {
			frs = append(frs, libunlynx.FilteredResponse{GroupByEnc: vec(lg(i)), AggregatingAttributes: vec(la(i))})
		}
		packed := rapid.Bool().Draw(t, "packed")
		var vs []*libunlynx.CipherVector
		for i := range frs {
			vs = append(vs, &frs[i].GroupByEnc, &frs[i].AggregatingAttributes)
		}
		if packed {
			hk.Pack(vs...)
		}
		var frsBefore []byte
		for _, v := range vs {
			frsBefore = append(frsBefore, hk.VB(*v)...)
		}
		flat, ls := protocolsunlynx.FilteredResponseToCipherVector(frs)
		back := protocolsunlynx.CipherVectorToFilteredResponse(other(flat), ls)
		var frsAfter []byte
		for _, v := range vs {
			frsAfter = append(frsAfter, hk.VB(*v)...)
		}
		if string(frsBefore) != string(frsAfter) {
			t.Fatalf("the conversion to a flat vector changed the responses")
		}
		if len(back) != n {
			t.Fatalf("%d filtered responses came back as %d", n, len(back))
		}
		total := 0
		for i := range frs {
			total += len(frs[i].GroupByEnc) + len(frs[i].AggregatingAttributes)
			if !hk.VecEq(back[i].GroupByEnc, other(frs[i].GroupByEnc)) || !hk.VecEq(back[i].AggregatingAttributes, other(frs[i].AggregatingAttributes)) {
				t.Fatalf("filtered response %d was changed by the conversions", i)
			}
		}
		if len(flat) != total {
			t.Fatalf("the flat vector has %d elements instead of %d", len(flat), total)
		}

		// responses <-> matrix
		var prs []libunlynx.ProcessResponse
		for i := 0; i < n; i++ {
			prs = append(prs, libunlynx.ProcessResponse{GroupByEnc: vec(lg(i)), WhereEnc: vec(lw(i)), AggregatingAttributes: vec(la(i))})
		}
		if packed {
			var vs []*libunlynx.CipherVector
			for i := range prs {
				vs = append(vs, &prs[i].GroupByEnc, &prs[i].WhereEnc, &prs[i].AggregatingAttributes)
			}
			hk.Pack(vs...)
		}
		show := func() string {
			var b strings.Builder
			for _, p := range prs {
				fmt.Fprintf(&b, "%x|%x|%x\n", hk.VB(p.GroupByEnc), hk.VB(p.WhereEnc), hk.VB(p.AggregatingAttributes))
			}
			return b.String()
		}
		before := show()
		m, mls := protocolsunlynx.ProcessResponseToMatrixCipherText(prs)
		om := make([]libunlynx.CipherVector, len(m))
		for i := range m {
			om[i] = other(m[i])
		}
		bp := protocolsunlynx.MatrixCipherTextToProcessResponse(om, mls)
		rows := n
		if n == 1 {
			rows = 2
		}
		if len(m) != rows || len(bp) != rows {
			t.Fatalf("%d responses give %d rows and %d responses back", n, len(m), len(bp))
		}
		for i := range bp {
			src := prs[min(i, n-1)]
			if !hk.VecEq(bp[i].GroupByEnc, other(src.GroupByEnc)) || !hk.VecEq(bp[i].WhereEnc, other(src.WhereEnc)) {
				t.Fatalf("the attributes of response %d were changed by the conversions", i)
			}
			if i < n {
				if !hk.VecEq(bp[i].AggregatingAttributes, other(src.AggregatingAttributes)) {
					t.Fatalf("the aggregates of response %d were changed by the conversions", i)
				}
				continue
			}
			// the companion of a single response must not count
			if len(m[i]) != len(m[0]) {
				t.Fatalf("the companion row has %d elements instead of %d", len(m[i]), len(m[0]))
			}
			for _, c := range m[i][len(src.GroupByEnc)+len(src.WhereEnc):] {
				if !c.K.Equal(libunlynx.SuiTe.Point().Null()) || !c.C.Equal(libunlynx.SuiTe.Point().Null()) {
					t.Fatalf("the companion of a single response does not have zero aggregates")
				}
			}
		}

		// responses -> vector to tag -> tags at the right responses
		toTag := protocolsunlynx.ProcessResponseToCipherVector(prs)
		uniq := rapid.IntRange(1, 6).Draw(t, "plain")
		tags := make(libunlynx.DeterministCipherVector, len(toTag))
		cls := make([]int, len(toTag)) // which plaintext
		at := map[string]int{}
		for i, c := range toTag {
			at[string(hk.CB(c))] = i
			cls[i] = (i*i + i/3) % uniq
			tags[i] = libunlynx.DeterministCipherText{Point: hk.IntPoint(int64(1000 + cls[i]))}
		}
		det := protocolsunlynx.DeterCipherVectorToProcessResponseDet(tags, prs)
		if len(det) != n {
			t.Fatalf("%d responses became %d tagged ones", n, len(det))
		}
		whereKey, groupKey := map[int]libunlynx.GroupingKey{}, map[string]libunlynx.GroupingKey{}
		keyWhere, keyGroup := map[libunlynx.GroupingKey]int{}, map[libunlynx.GroupingKey]string{}
		for i, d := range det {
			if !hk.VecEq(d.PR.GroupByEnc, prs[i].GroupByEnc) || !hk.VecEq(d.PR.WhereEnc, prs[i].WhereEnc) || !hk.VecEq(d.PR.AggregatingAttributes, prs[i].AggregatingAttributes) {
				t.Fatalf("tagged response %d is not the response", i)
			}
			if len(d.DetTagWhere) != len(prs[i].WhereEnc) {
				t.Fatalf("response %d has %d filter tags instead of %d", i, len(d.DetTagWhere), len(prs[i].WhereEnc))
			}
			for j, c := range prs[i].WhereEnc {
				p, ok := at[string(hk.CB(c))]
				if !ok {
					t.Fatalf("filter attribute %d of response %d is not among the ciphertexts to tag", j, i)
				}
				k := d.DetTagWhere[j]
				if o, ok := whereKey[cls[p]]; ok && o != k {
					t.Fatalf("equal filter values have different tags (response %d)", i)
				}
				if o, ok := keyWhere[k]; ok && o != cls[p] {
					t.Fatalf("different filter values have equal tags (response %d)", i)
				}
				whereKey[cls[p]], keyWhere[k] = k, cls[p]
			}
			id := ""
			for j, c := range prs[i].GroupByEnc {
				p, ok := at[string(hk.CB(c))]
				if !ok {
					t.Fatalf("group attribute %d of response %d is not among the ciphertexts to tag", j, i)
				}
				id += fmt.Sprint(cls[p], ",")
			}
			if o, ok := groupKey[id]; ok && o != d.DetTagGroupBy {
				t.Fatalf("equal groups have different tags (response %d)", i)
			}
			if o, ok := keyGroup[d.DetTagGroupBy]; ok && o != id {
				t.Fatalf("different groups %s and %s have equal tags (response %d)", o, id, i)
			}
			groupKey[id], keyGroup[d.DetTagGroupBy] = d.DetTagGroupBy, id
		}
		if show() != before {
			t.Fatalf("the conversions changed their input")
		}

		// plain vector -> one-column matrix
		cv := vec(n)
		ad := protocolsunlynx.AdaptCipherTextArray(cv)
		if len(ad) != n {
			t.Fatalf("%d ciphertexts became %d rows", n, len(ad))
		}
		for i := range ad {
			if len(ad[i]) != 1 || string(hk.CB(ad[i][0])) != string(hk.CB(cv[i])) {
				t.Fatalf("row %d is not the ciphertext", i)
			}
		}
		// simple data
		table := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		kind := rapid.IntRange(0, 3).Draw(t, "table")
		if kind != 0 {
			table[protocolsunlynx.EMPTYKEY] = libunlynx.FilteredResponse{AggregatingAttributes: cv}
		}
		if kind == 2 {
			table["other"] = libunlynx.FilteredResponse{}
		}
		if kind == 3 {
			table = map[libunlynx.GroupingKey]libunlynx.FilteredResponse{"other": {AggregatingAttributes: cv}}
		}
		simple, err := protocolsunlynx.RetrieveSimpleDataFromMap(table)
		if (err == nil) != (kind == 1) {
			t.Fatalf("retrieving simple data from table kind %d: error %v", kind, err)
		}
		if err == nil && !hk.VecEq(simple, cv) {
			t.Fatalf("the simple data differ")
		}
	})
}
