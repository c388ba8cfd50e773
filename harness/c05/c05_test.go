package c05

import (
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Key switching runs of the real protocol on an in-process cluster: 1 to 8 servers in any roster order, any rooted tree over them, vectors of 0 to 250 ciphertexts (duplicates, zeros, negatives, neutral and clear ciphertexts, sums of ciphertexts) under the collective key, querier keys random, equal to a server's key or the collective key, with and without proofs. Independent decryption with the querier's key must give the plaintexts in order, the collective key and each single server's key must not, no output component may equal an input component, and every server's contribution must be the formula's for some randomness that no other element or server uses. The same for the local step summed over generated key sets. Non-trivial: at least one ciphertext.")
}

func genTarget(t *rapid.T, pub kyber.Point) (libunlynx.CipherVector, []int64, string) {
	n := hk.Len(t, "n", 0, 250)
	vals := hk.Ints(t, "v", n, hk.Small)
	kind := rapid.IntRange(0, 4).Draw(t, "kind")
	cv := make(libunlynx.CipherVector, n)
	for i := range cv {
		switch {
		case kind == 1 && i%3 == 1: // clear value: neutral randomness
			cv[i] = libunlynx.IntToCipherText(vals[i])
		case kind == 2 && i > 0: // the same ciphertext everywhere
			cv[i], vals[i] = libunlynx.CipherText{K: cv[0].K.Clone(), C: cv[0].C.Clone()}, vals[0]
		case kind == 3 && i%2 == 1: // negative
			vals[i] = -vals[i]
			cv[i] = hk.Enc(pub, vals[i])
		case kind == 4 && i%2 == 1: // same randomness as the previous one, another value
			cv[i] = libunlynx.CipherText{K: cv[i-1].K.Clone(), C: libunlynx.SuiTe.Point().Add(cv[i-1].C, hk.IntPoint(1))}
			vals[i] = vals[i-1] + 1
		default:
			cv[i] = hk.Enc(pub, vals[i])
		}
	}
	return cv, vals, fmt.Sprintf("n=%d kind=%d values %v", n, kind, head(vals))
}

func head(v []int64) []int64 {
	if len(v) > 8 {
		return v[:8]
	}
	return v
}

// fresh fails if two elements share a component or an output component is an
// input component.
func fresh(t *rapid.T, in, out libunlynx.CipherVector) {
	seen := map[string]int{}
	for i, c := range in {
		if i < 400 {
			seen[string(hk.PB(c.K))] = -1
		}
		seen[string(hk.PB(c.C))] = -1
	}
	for i, c := range out {
		k := string(hk.PB(c.K))
		if j, ok := seen[k]; ok {
			t.Fatalf("element %d has the ephemeral point of element %d (-1: of the input)", i, j)
		}
		seen[k] = i
		d := string(hk.PB(c.C))
		if j, ok := seen[d]; ok {
			t.Fatalf("element %d has the second component of element %d (-1: of the input)", i, j)
		}
		seen[d] = i
	}
}

func TestProtocol(t *testing.T) {
	hk.Check(t, 260, 6000, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		priv := cl.Priv(n.Roster)
		target, vals, desc := genTarget(t, n.Roster.Aggregate)
		qk, Q := hk.KeyPair(t, "q")
		qkind := rapid.IntRange(0, 6).Draw(t, "querier")
		switch qkind {
		case 1: // the querier is a server
			i := rapid.IntRange(0, len(n.Roster.List)-1).Draw(t, "qs")
			qk, Q = n.Roster.List[i].GetPrivate(), n.Roster.List[i].Public
		case 2:
			qk, Q = priv, n.Roster.Aggregate
		}
		proofs := rapid.Bool().Draw(t, "proofs")
		if len(target) > 60 {
			proofs = false
		}
		before := hk.VB(target)
		hk.Case("protocol", fmt.Sprintf("%s; %s; querier kind %d; proofs %v", n.Desc, desc, qkind, proofs), len(target) > 0,
			append(n.Classes(), hk.LenClass(len(target)), fmt.Sprint("proofs=", proofs))...)
		out, calls := n.KeySwitch(t, target, Q, proofs)
		if d := hk.VecDecryptsTo(qk, out, vals); d != "" {
			t.Fatalf("result under the querier's key: %s", d)
		}
		if string(hk.VB(target)) != string(before) {
			t.Fatalf("the input vector was changed")
		}
		fresh(t, target, out)
		if qkind == 0 {
			for i, c := range out {
				if hk.DecryptsTo(priv, c, vals[i]) {
					t.Fatalf("element %d still decrypts under the collective key", i)
				}
				for _, si := range n.Roster.List {
					if hk.DecryptsTo(si.GetPrivate(), c, vals[i]) {
						t.Fatalf("element %d decrypts under a server's key", i)
					}
				}
			}
		}
		if proofs {
			if len(calls) != len(n.Roster.List) {
				t.Fatalf("%d servers published a proof, %d took part", len(calls), len(n.Roster.List))
			}
			used := map[string]bool{}
			for _, c := range calls {
				if len(c.Ks2) != len(target) || len(c.Vis) != len(target) || len(c.RbNeg) != len(target) {
					t.Fatalf("server %d contributed %d, %d, %d for %d elements", c.Server, len(c.Ks2), len(c.RbNeg), len(c.Vis), len(target))
				}
				for i, v := range c.Vis {
					if used[v.String()] {
						t.Fatalf("a blinding scalar was used twice")
					}
					used[v.String()] = true
					want := libunlynx.SuiTe.Point().Sub(libunlynx.SuiTe.Point().Mul(v, Q), libunlynx.SuiTe.Point().Mul(n.Roster.List[c.Server].GetPrivate(), target[i].K))
					if !want.Equal(c.Ks2[i]) {
						t.Fatalf("server %d element %d: the published contribution is not v*Q - k*rB", c.Server, i)
					}
				}
			}
			for i := range out {
				s := libunlynx.SuiTe.Point().Null()
				for _, c := range calls {
					s = libunlynx.SuiTe.Point().Add(s, libunlynx.SuiTe.Point().Mul(c.Vis[i], nil))
				}
				if !s.Equal(out[i].K) {
					t.Fatalf("element %d: the result's randomness is not the sum of the published ones", i)
				}
			}
		}
	})
}

// The local step, combined over key sets without a network.
func TestStep(t *testing.T) {
	hk.Check(t, 500, 8000, func(t *rapid.T) {
		k := rapid.IntRange(1, 6).Draw(t, "servers")
		priv := libunlynx.SuiTe.Scalar().Zero()
		var keys []kyber.Scalar
		for i := 0; i < k; i++ {
			s, _ := hk.KeyPair(t, fmt.Sprint("k", i))
			keys = append(keys, s)
			priv = libunlynx.SuiTe.Scalar().Add(priv, s)
		}
		target, vals, desc := genTarget(t, libunlynx.SuiTe.Point().Mul(priv, nil))
		qk, Q := hk.KeyPair(t, "q")
		var rbs []kyber.Point
		for _, c := range target {
			rbs = append(rbs, c.K)
		}
		hk.Case("step", fmt.Sprintf("%d keys; %s", k, desc), len(target) > 0, hk.LenClass(len(target)))
		before := hk.VB(target)
		res := make(libunlynx.CipherVector, len(target))
		for i, c := range target {
			res[i] = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Null(), C: c.C.Clone()}
		}
		for j, key := range keys {
			cv, ks2s, negs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, key)
			if len(cv) != len(target) || len(ks2s) != len(target) || len(negs) != len(target) || len(vis) != len(target) {
				t.Fatalf("lengths %d %d %d %d for %d elements", len(cv), len(ks2s), len(negs), len(vis), len(target))
			}
			fresh(t, target, cv)
			for i := range cv {
				if !cv[i].K.Equal(libunlynx.SuiTe.Point().Mul(vis[i], nil)) || !cv[i].C.Equal(ks2s[i]) || !negs[i].Equal(libunlynx.SuiTe.Point().Neg(rbs[i])) {
					t.Fatalf("server %d: what is reported for element %d is not what was used", j, i)
				}
				res[i] = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(res[i].K, cv[i].K), C: libunlynx.SuiTe.Point().Add(res[i].C, cv[i].C)}
			}
		}
		if d := hk.VecDecryptsTo(qk, res, vals); d != "" {
			t.Fatalf("%s", d)
		}
		if string(hk.VB(target)) != string(before) {
			t.Fatalf("the input was changed")
		}
	})
}
