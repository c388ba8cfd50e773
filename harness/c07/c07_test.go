package c07

import (
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Tagging runs of the real protocol over 1 to 8 servers in any tree, on lists of 0 to 250 ciphertexts with many equal plaintexts under different randomness, shared randomness, zeros, negatives and clear ciphertexts, with and without proofs: two positions must have equal tags exactly when their plaintexts are equal; a second run of the same secrets at another root, tree and list must give the same plaintext the same tag and other plaintexts other tags; after changing one server's secret no tag may stay. The combined shuffle-and-tag protocol must output, as rows in some order, exactly the equality pattern of the input rows (also for rows of 0 columns, and with precomputed lines for the right or a wrong key) and the same tags in a second run over the same order of servers. Local tagging steps: same equality relation for the formed grouping keys. Non-trivial: two positions with equal and two with different plaintexts.")
}

func genList(t *rapid.T, name string, pub kyber.Point, max int) (libunlynx.CipherVector, []int64) {
	n := hk.Len(t, name+"N", 0, max)
	vals := hk.Ints(t, name, n, func(t *rapid.T, s string) int64 {
		return int64(rapid.SampledFrom([]int{0, 1, 2, 3, 50, -1, -2, 1000}).Draw(t, s))
	})
	if n > 16 && rapid.Bool().Draw(t, name+"Cycle") {
		for i := range vals {
			vals[i] = vals[i%7]
		}
	}
	kind := rapid.IntRange(0, 3).Draw(t, name+"Kind")
	cv := make(libunlynx.CipherVector, n)
	for i, v := range vals {
		switch {
		case kind == 1 && i%2 == 1:
			cv[i] = libunlynx.IntToCipherText(v)
		case kind == 2 && i > 0: // same randomness as the first
			cv[i] = libunlynx.CipherText{K: cv[0].K.Clone(), C: libunlynx.SuiTe.Point().Add(cv[0].C, hk.IntPoint(v-vals[0]))}
		default:
			cv[i] = hk.Enc(pub, v)
		}
	}
	return cv, vals
}

func mixed(vals []int64) bool {
	m := map[int64]int{}
	for _, v := range vals {
		m[v]++
	}
	for _, c := range m {
		if c > 1 && len(m) > 1 {
			return true
		}
	}
	return false
}

// relation checks that equal tags are exactly equal plaintexts, over all runs
// collected in the maps.
type relation struct {
	tagOf map[int64]string
	valOf map[string]int64
}

func newRelation() *relation {
	return &relation{map[int64]string{}, map[string]int64{}}
}

func (r *relation) add(t *rapid.T, what string, v int64, tag string) {
	if old, ok := r.tagOf[v]; ok && old != tag {
		t.Fatalf("%s: plaintext %d has two different tags", what, v)
	}
	if old, ok := r.valOf[tag]; ok && old != v {
		t.Fatalf("%s: plaintexts %d and %d have the same tag", what, old, v)
	}
	r.tagOf[v], r.valOf[tag] = tag, v
}

func secrets(t *rapid.T) map[string]kyber.Scalar { // by server address
	out := map[string]kyber.Scalar{}
	for i, s := range cl.Servers() {
		sec, _ := hk.KeyPair(t, fmt.Sprint("secret", i))
		out[s.ServerIdentity.ID.String()] = sec
	}
	return out
}

func tagString(p kyber.Point) string { return string(hk.PB(p)) }

func TestProtocol(t *testing.T) {
	hk.Check(t, 110, 2500, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		secs := secrets(t)
		of := func(n cl.Net, s map[string]kyber.Scalar) func(int) kyber.Scalar {
			return func(i int) kyber.Scalar { return s[n.Roster.List[i].ID.String()] }
		}
		cv, vals := genList(t, "a", n.Roster.Aggregate, 250)
		proofs := rapid.Bool().Draw(t, "proofs") && len(cv) < 60
		hk.Case("protocol", fmt.Sprintf("%s; proofs %v; %v", n.Desc, proofs, vals), mixed(vals), append(n.Classes(), hk.LenClass(len(cv)))...)
		before := hk.VB(cv)
		rel := newRelation()
		tags := n.Tag(t, cv, of(n, secs), proofs)
		if len(tags) != len(cv) {
			t.Fatalf("%d tags for %d ciphertexts", len(tags), len(cv))
		}
		for i := range tags {
			rel.add(t, "one run", vals[i], tagString(tags[i].Point))
		}
		if string(hk.VB(cv)) != string(before) {
			t.Fatalf("the input was changed")
		}
		// another list, started elsewhere
		m := cl.DrawTree(t, n.Roster, "same")
		cv2, vals2 := genList(t, "b", n.Roster.Aggregate, 30)
		if len(vals) > 0 { // at least one plaintext in common
			cv2, vals2 = append(cv2, hk.Enc(n.Roster.Aggregate, vals[0])), append(vals2, vals[0])
		}
		tags2 := m.Tag(t, cv2, of(m, secs), false)
		if len(tags2) != len(cv2) {
			t.Fatalf("%d tags for %d ciphertexts", len(tags2), len(cv2))
		}
		for i := range tags2 {
			rel.add(t, "over two runs", vals2[i], tagString(tags2[i].Point))
		}
		// one secret changed
		i := rapid.IntRange(0, len(n.Roster.List)-1).Draw(t, "changed")
		secs[n.Roster.List[i].ID.String()], _ = hk.KeyPair(t, "newSecret")
		tags3 := n.Again().Tag(t, cv, of(n, secs), false)
		rel3 := newRelation()
		for i := range tags3 {
			rel3.add(t, "third run", vals[i], tagString(tags3[i].Point))
			if _, ok := rel.valOf[tagString(tags3[i].Point)]; ok {
				t.Fatalf("a tag did not change with the secret of a server")
			}
		}
	})
}

func TestCombined(t *testing.T) {
	hk.Check(t, 110, 2500, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		secs := secrets(t)
		of := func(i int) kyber.Scalar { return secs[n.Roster.List[i].ID.String()] }
		rows := rapid.IntRange(0, 12).Draw(t, "rows")
		cols := rapid.IntRange(0, 4).Draw(t, "cols")
		if rapid.IntRange(0, 11).Draw(t, "many") == 0 {
			rows, cols = rapid.SampledFrom([]int{99, 100, 101, 201}).Draw(t, "manyRows"), 1
		}
		gen := func(name string) ([]libunlynx.CipherVector, [][]int64) {
			vals := hk.Ints(t, name, rows*cols, func(t *rapid.T, s string) int64 { return int64(rapid.IntRange(0, 3).Draw(t, s)) })
			for i := range vals {
				vals[i] &= 3
			}
			var out []libunlynx.CipherVector
			var vv [][]int64
			for i := 0; i < rows; i++ {
				v := vals[i*cols : (i+1)*cols]
				out = append(out, hk.EncVec(n.Roster.Aggregate, v))
				vv = append(vv, v)
			}
			return out, vv
		}
		in, vals := gen("a")
		proofs := rapid.Bool().Draw(t, "proofs") && rows > 1 && rows < 20 && cols > 0
		preKind := rapid.IntRange(0, 3).Draw(t, "pre")
		pre := func(i int) []libunlynxshuffle.CipherVectorScalar {
			if preKind < 2 || cols == 0 {
				return nil
			}
			// the key that the server shuffles with: those before it in the circuit have removed theirs
			key := n.Roster.Aggregate.Clone()
			if preKind == 2 {
				list := n.Tree.List()
				for j := 1; j < len(list) && !list[j].ServerIdentity.ID.Equal(n.Roster.List[i].ID); j++ {
					key = libunlynx.SuiTe.Point().Sub(key, list[j].ServerIdentity.Public)
				}
			}
			return libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), key, libunlynx.SuiTe.RandomStream(), cols, 5)
		}
		flat := []int64{}
		for _, v := range vals {
			flat = append(flat, v...)
		}
		hk.Case("combined", fmt.Sprintf("%s; %dx%d; proofs %v; precomputed %d; %v", n.Desc, rows, cols, proofs, preKind, vals), mixed(flat), append(n.Classes(), fmt.Sprint("pre=", preKind))...)
		before := hk.MB(in)
		tags := n.ShuffleTag(t, in, of, pre, proofs)
		if string(hk.MB(in)) != string(before) {
			t.Fatalf("the input was changed")
		}
		dict := learn(t, n, of)
		check := func(what string, tags []libunlynx.DeterministCipherVector, vals [][]int64) {
			if len(tags) != len(vals) {
				t.Fatalf("%s: %d rows for %d", what, len(tags), len(vals))
			}
			got := make([][]int64, len(tags))
			for i, r := range tags {
				for _, c := range r {
					v, ok := dict[tagString(c.Point)]
					if !ok {
						t.Fatalf("%s: row %d has a tag that no plaintext has in another run of the same servers", what, i)
					}
					got[i] = append(got[i], v)
				}
				if len(r) == 0 {
					got[i] = []int64{}
				}
			}
			for i := range vals {
				if len(vals[i]) == 0 {
					vals[i] = []int64{}
				}
			}
			if !hk.SameStrings(hk.SortedRows(got), hk.SortedRows(vals)) {
				t.Fatalf("%s: the rows' tags are those of %v, want a permutation of %v", what, got, vals)
			}
		}
		check("one run", tags, vals)
		in2, vals2 := gen("b")
		check("second run", n.Again().ShuffleTag(t, in2, of, nil, false), vals2)
	})
}

// learn tags the plaintexts 0..3, one run per plaintext, with the same servers.
func learn(t *rapid.T, n cl.Net, of func(int) kyber.Scalar) map[string]int64 {
	dict := map[string]int64{}
	for v := int64(0); v < 4; v++ {
		out := n.Again().ShuffleTag(t, []libunlynx.CipherVector{hk.EncVec(n.Roster.Aggregate, []int64{v, v})}, of, nil, false)
		if len(out) != 1 || len(out[0]) != 2 || !out[0][0].Point.Equal(out[0][1].Point) {
			t.Fatalf("equal plaintexts of one row have different tags")
		}
		s := tagString(out[0][0].Point)
		if w, ok := dict[s]; ok {
			t.Fatalf("plaintexts %d and %d have the same tag", v, w)
		}
		dict[s] = v
	}
	return dict
}

// The helpers that turn a vector into one grouping key.
func TestLocalKey(t *testing.T) {
	hk.Check(t, 120, 2500, func(t *rapid.T) {
		priv, pub := hk.KeyPair(t, "priv")
		sec, _ := hk.KeyPair(t, "sec")
		n := rapid.IntRange(0, 4).Draw(t, "n")
		va := hk.Ints(t, "a", n, func(t *rapid.T, s string) int64 { return int64(rapid.IntRange(0, 2).Draw(t, s)) })
		m := n
		if rapid.IntRange(0, 3).Draw(t, "otherLen") == 0 {
			m = rapid.IntRange(0, 4).Draw(t, "m")
		}
		vb := hk.Ints(t, "b", m, func(t *rapid.T, s string) int64 { return int64(rapid.IntRange(0, 2).Draw(t, s)) })
		if rapid.Bool().Draw(t, "same") {
			vb = append([]int64{}, va...)
		}
		hk.Case("local key", fmt.Sprintf("%v %v", va, vb), n > 0)
		proofs := rapid.Bool().Draw(t, "proofs")
		key := func(vals []int64, which int) string {
			cv := hk.EncVec(pub, vals)
			before := hk.VB(cv)
			var k libunlynx.GroupingKey
			var err error
			if which == 0 {
				k, err = protocolsunlynx.CipherVectorToDeterministicTag(cv, priv, sec, pub, proofs)
			} else {
				k, _, err = libunlynxdetertag.CipherVectorToDeterministicTag(cv, priv, sec, pub, proofs)
			}
			if err != nil {
				t.Fatalf("tagging %v: %v", vals, err)
			}
			if string(hk.VB(cv)) != string(before) {
				t.Fatalf("tagging changed its input")
			}
			return string(k)
		}
		a0, b0, a1, b1 := key(va, 0), key(vb, 0), key(va, 1), key(vb, 1)
		same := hk.SameInts(va, vb)
		if (a0 == b0) != same || (a1 == b1) != same {
			t.Fatalf("grouping keys of %v and %v: equal %v and %v, want %v", va, vb, a0 == b0, a1 == b1, same)
		}
	})
}
