package c15

import (
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Lists of generated aggregations (0 to 201 proofs of 0 to 201 ciphertexts, duplicates and neutral elements included) with the exact sum must verify alone, in the list and after serialisation; then one proof's claimed sum or data is altered, or elements are dropped, duplicated, added or exchanged between proofs, and the verdict must be exactly whether an independently computed sum equals the claim, for the single proof and the full list. Proof data formed from tagged responses of any grouping must verify against their group sums, and so must the proofs published by local and collective aggregation runs. Non-trivial: at least one proof with data.",
	)
}

func sum(cv libunlynx.CipherVector) libunlynx.CipherText {
	s := libunlynx.CipherText{K: libunlynx.SuiTe.Point().Null(), C: libunlynx.SuiTe.Point().Null()}
	for _, c := range cv {
		s = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(s.K, c.K), C: libunlynx.SuiTe.Point().Add(s.C, c.C)}
	}
	return s
}

func full(l libunlynxaggr.PublishedAggregationListProof) func() bool {
	return func() bool { return libunlynxaggr.AggregationListProofVerification(l, 1.0) }
}
func single(p libunlynxaggr.PublishedAggregationProof) func() bool {
	return func() bool { return libunlynxaggr.AggregationProofVerification(p) }
}

func genData(t *rapid.T, lo int) ([]libunlynx.CipherVector, string) {
	_, pub := hk.KeyPair(t, "pub")
	n := hk.ProofLen(t, "n", lo)
	base := hk.EncRef(pub, hk.Small(t, "m"), hk.Scalar(t, "r"))
	step := hk.EncRef(pub, 1, hk.Scalar(t, "r2"))
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	big := -1
	if n > 0 && rapid.IntRange(0, 5).Draw(t, "bigVec") == 0 {
		big = rapid.IntRange(0, n-1).Draw(t, "big")
	}
	bigLen := rapid.SampledFrom([]int{99, 100, 101, 201}).Draw(t, "bigLen")
	pat := []int{rapid.IntRange(0, 5).Draw(t, "l0"), rapid.IntRange(0, 5).Draw(t, "l1"), rapid.IntRange(1, 3).Draw(t, "l2")}
	c := base
	var out []libunlynx.CipherVector
	for i := 0; i < n; i++ {
		l := pat[i%3]
		if i == big {
			l = bigLen
		}
		cv := make(libunlynx.CipherVector, 0)
		for j := 0; j < l; j++ {
			switch {
			case kind == 1 && j%2 == 1:
			case kind == 2 && j%3 == 1:
				cv = append(cv, libunlynx.IntToCipherText(int64(j%3)))
				continue
			default:
				c = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(c.K, step.K), C: libunlynx.SuiTe.Point().Add(c.C, step.C)}
			}
			cv = append(cv, c)
		}
		out = append(out, cv)
	}
	return out, fmt.Sprintf("%d proofs, lengths %v, big %d:%d, kind %d", n, pat, big, bigLen, kind)
}

func build(data []libunlynx.CipherVector) libunlynxaggr.PublishedAggregationListProof {
	var sums []libunlynx.CipherText
	for _, cv := range data {
		sums = append(sums, sum(cv))
	}
	return libunlynxaggr.AggregationListProofCreation(data, sums)
}

func transported(t *rapid.T, l libunlynxaggr.PublishedAggregationListProof) libunlynxaggr.PublishedAggregationListProof {
	b, err := l.ToBytes()
	if err != nil {
		t.Fatalf("encoding the proofs: %v", err)
	}
	var out libunlynxaggr.PublishedAggregationListProof
	if err := out.FromBytes(b); err != nil {
		t.Fatalf("decoding the proofs: %v", err)
	}
	return out
}

func TestHonest(t *testing.T) {
	hk.Check(t, 200, 3000, func(t *rapid.T) {
		data, desc := genData(t, 0)
		l := build(data)
		hk.Case("honest", desc, len(data) > 0, hk.LenClass(len(data)))
		if len(l.List) != len(data) {
			t.Fatalf("%d proofs for %d aggregations", len(l.List), len(data))
		}
		before := string(hk.MB(data))
		for round, x := range []libunlynxaggr.PublishedAggregationListProof{l, transported(t, l)} {
			hk.Accept(t, fmt.Sprint("list, round ", round), full(x))
			for i, p := range x.List {
				if i < 8 || i == len(x.List)-1 {
					hk.Accept(t, fmt.Sprint("proof ", i), single(p))
				}
				if !hk.VecEq(p.Data, data[i]) {
					t.Fatalf("proof %d is about other data", i)
				}
			}
		}
		if string(hk.MB(data)) != before {
			t.Fatalf("verification changed the data")
		}
	})
}

func TestTampered(t *testing.T) {
	hk.Check(t, 1200, 20000, func(t *rapid.T) {
		data, desc := genData(t, 1)
		l := build(hk.CopyM(data))
		if rapid.Bool().Draw(t, "viaBytes") {
			l = transported(t, l)
		}
		n := len(l.List)
		i, j := hk.Pos(t, "i", n), hk.Pos(t, "j", n)
		p, s := l.List[i], l.List[j]
		p.Data = hk.Copy(p.Data)
		what := rapid.SampledFrom([]string{"sum", "element", "drop", "duplicate", "add", "exchange element", "exchange data", "exchange sum", "permute", "drop all"}).Draw(t, "what")
		kind := ""
		pos := 0
		if len(p.Data) > 0 {
			pos = hk.Pos(t, "pos", len(p.Data))
		} else if what != "sum" && what != "add" && what != "exchange data" && what != "exchange sum" {
			what = "sum"
		}
		switch what {
		case "sum":
			var sib []libunlynx.CipherText
			sib = append(sib, s.AggregationResult)
			if len(p.Data) > 0 {
				sib = append(sib, p.Data[pos])
			}
			p.AggregationResult, kind = hk.OtherCT(t, "p", p.AggregationResult, sib...)
		case "element":
			p.Data[pos], kind = hk.OtherCT(t, "p", p.Data[pos], p.Data[0])
		case "drop":
			p.Data = append(p.Data[:pos:pos], p.Data[pos+1:]...)
		case "duplicate":
			p.Data = append(p.Data, p.Data[pos])
		case "add":
			p.Data = append(p.Data, libunlynx.IntToCipherText(int64(rapid.IntRange(0, 2).Draw(t, "v"))))
		case "exchange element":
			if len(s.Data) == 0 {
				return
			}
			p.Data[pos] = s.Data[rapid.IntRange(0, len(s.Data)-1).Draw(t, "spos")]
		case "exchange data":
			p.Data = s.Data
		case "exchange sum":
			p.AggregationResult = s.AggregationResult
		case "permute":
			q := rapid.IntRange(0, len(p.Data)-1).Draw(t, "q")
			p.Data[pos], p.Data[q] = p.Data[q], p.Data[pos]
		case "drop all":
			p.Data = p.Data[:0]
		}
		want := string(hk.CB(sum(p.Data))) == string(hk.CB(p.AggregationResult))
		desc = fmt.Sprintf("%s, proof %d (sibling %d): %s at %d %s", desc, i, j, what, pos, kind)
		hk.Case("tampered", desc, true, what, hk.LenClass(n), fmt.Sprint("still true=", want))
		l.List[i] = p
		for _, x := range []libunlynxaggr.PublishedAggregationListProof{l, transported(t, l)} {
			if got := hk.Verdict(t, desc, single(x.List[i])); got != want {
				t.Fatalf("%s: verdict %v, the claim is %v", desc, got, want)
			}
			if got := hk.Verdict(t, desc, full(x)); got != want {
				t.Fatalf("%s: list verdict %v, the claim is %v", desc, got, want)
			}
		}
	})
}

// The data of the proofs formed from tagged responses.
func TestFormat(t *testing.T) {
	hk.Check(t, 300, 6000, func(t *rapid.T) {
		_, pub := hk.KeyPair(t, "pub")
		n := rapid.IntRange(0, 12).Draw(t, "n")
		w := rapid.IntRange(1, 4).Draw(t, "w")
		tags := rapid.IntRange(1, 4).Draw(t, "tags")
		res := map[libunlynx.GroupingKey][]libunlynx.CipherVector{}
		want := map[libunlynx.GroupingKey]libunlynx.CipherVector{}
		count := map[libunlynx.GroupingKey]int{}
		var all []libunlynx.FilteredResponseDet
		table := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		desc := ""
		step := hk.EncRef(pub, 1, hk.Scalar(t, "step"))
		c := step
		for i := 0; i < n; i++ {
			tag := libunlynx.GroupingKey(fmt.Sprint("tag", rapid.IntRange(0, tags-1).Draw(t, fmt.Sprint("t", i))))
			var cv libunlynx.CipherVector
			for j := 0; j < w; j++ {
				c = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(c.K, step.K), C: libunlynx.SuiTe.Point().Add(c.C, step.C)}
				cv = append(cv, c)
			}
			r := libunlynx.FilteredResponseDet{DetTagGroupBy: tag, Fr: libunlynx.FilteredResponse{AggregatingAttributes: cv}}
			all = append(all, r)
			desc += string(tag) + " "
			libunlynx.AddInMap(table, r.DetTagGroupBy, r.Fr)
			r.FormatAggregationProofs(res)
			if _, ok := want[tag]; !ok {
				want[tag] = make(libunlynx.CipherVector, w)
				for j := range want[tag] {
					want[tag][j] = sum(nil)
				}
			}
			for j := range cv {
				want[tag][j] = sum(libunlynx.CipherVector{want[tag][j], cv[j]})
			}
			count[tag]++
		}
		hk.Case("format", fmt.Sprintf("width %d: %s", w, desc), n > 1)
		if len(res) != len(want) {
			t.Fatalf("%d groups, want %d", len(res), len(want))
		}
		for tag, data := range res {
			if len(data) != w {
				t.Fatalf("group %s has data for %d attributes, want %d", tag, len(data), w)
			}
			for j := range data {
				if len(data[j]) != count[tag] {
					t.Fatalf("group %s attribute %d has %d values, want %d", tag, j, len(data[j]), count[tag])
				}
			}
			hk.Accept(t, "group "+string(tag), full(libunlynxaggr.AggregationListProofCreation(data, want[tag])))
			// what a server publishes: the group's entry of its table
			hk.Accept(t, "published for group "+string(tag), full(libunlynxaggr.AggregationListProofCreation(data, table[tag].AggregatingAttributes)))
		}
		for i, r := range all {
			if len(r.Fr.AggregatingAttributes) != w {
				t.Fatalf("response %d was changed", i)
			}
		}
	})
}

// Every server publishes proofs of what it adds up in a collective aggregation.
func TestPublished(t *testing.T) {
	hk.Check(t, 150, 3000, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		groups := rapid.IntRange(1, 5).Draw(t, "groups")
		width := rapid.IntRange(1, 4).Draw(t, "width")
		ragged := rapid.IntRange(0, 3).Draw(t, "ragged") == 0
		H := n.Roster.Aggregate
		held := make([]uint64, len(n.Roster.List))
		data := make([]cl.Grouped, len(held))
		total := map[libunlynx.GroupingKey]libunlynx.CipherVector{}
		for s := range data {
			held[s] = uint64(rapid.IntRange(0, 1<<uint(groups)-1).Draw(t, fmt.Sprint("held", s)))
			data[s] = cl.Grouped{}
			for g := 0; g < groups; g++ {
				if held[s]>>uint(g)&1 == 0 {
					continue
				}
				w := width
				if ragged {
					w = 1 + (s+g)%4
				}
				key := libunlynx.GroupingKey(fmt.Sprint("g", g))
				fr := libunlynx.FilteredResponse{GroupByEnc: hk.EncVec(H, []int64{int64(g)}), AggregatingAttributes: hk.EncVec(H, make([]int64, w))}
				data[s][key] = fr
				for len(total[key]) < w {
					total[key] = append(total[key], sum(nil))
				}
				for i, c := range fr.AggregatingAttributes {
					total[key][i] = sum(libunlynx.CipherVector{total[key][i], c})
				}
			}
		}
		hk.Case("published", fmt.Sprintf("%s; %d groups held %v width %d ragged %v", n.Desc, groups, held, width, ragged), len(held) > 1, n.Classes()...)
		out, calls := n.Aggregate(t, func(i int) (cl.Grouped, []libunlynx.CipherText) {
			m := cl.Grouped{}
			for k, v := range data[i] {
				m[k] = libunlynx.FilteredResponse{GroupByEnc: hk.Copy(v.GroupByEnc), AggregatingAttributes: hk.Copy(v.AggregatingAttributes)}
			}
			return m, nil
		}, true)
		if !ragged {
			for k, w := range total {
				if string(hk.VB(out[k].AggregatingAttributes)) != string(hk.VB(w)) {
					t.Fatalf("group %s: the result is not the sum of all servers' ciphertexts", k)
				}
			}
		}
		// every proven sum, so that each ciphertext of the result can be traced
		proven := map[string]bool{}
		for _, c := range calls {
			if len(c.Data) != len(c.Res) {
				t.Fatalf("server %d published %d sums for %d lists", c.Server, len(c.Res), len(c.Data))
			}
			l := libunlynxaggr.AggregationListProofCreation(c.Data, c.Res)
			hk.Accept(t, fmt.Sprint("published by server ", c.Server), full(l))
			hk.Accept(t, fmt.Sprint("published by server ", c.Server, ", transported"), full(transported(t, l)))
			if c.Server == n.IndexOf(n.Tree.Root.ServerIdentity) {
				for _, r := range c.Res {
					proven[string(hk.CB(r))] = true
				}
			}
			if len(l.List) > 0 {
				i := hk.Pos(t, "i", len(l.List))
				p := l.List[i]
				p.AggregationResult, _ = hk.OtherCT(t, "sum", p.AggregationResult)
				hk.Refuse(t, "altered sum", single(p))
			}
		}
		for k, fr := range out {
			for i, c := range fr.AggregatingAttributes {
				if !proven[string(hk.CB(c))] {
					t.Fatalf("value %d of group %s in the result is not proven by the root", i, k)
				}
			}
		}
	})
}
