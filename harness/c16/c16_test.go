package c16

import (
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Re-encryptions of generated vectors (length 0 to 201, duplicate, neutral and clear ciphertexts), computed by the reference formula for a joining or a leaving server, are proved and must verify alone and in the list in the right direction; then a component (either ciphertext, base point, key, proof bytes, direction) is altered or taken from a sibling with another statement, or the re-encryption or proof uses another secret, and single and full list verification must refuse without crashing. Non-trivial: at least one proof.",
		"the discrete logarithm in the group is hard; appending bytes to a proof is not an alteration (the proof library ignores them); the direction of a ciphertext with neutral randomness is not observable and not tested")
}

type inst struct {
	k    kyber.Scalar
	K    kyber.Point
	add  bool
	bef  libunlynx.CipherVector
	aft  libunlynx.CipherVector
	desc string
}

func reenc(bef libunlynx.CipherVector, k kyber.Scalar, add bool) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(bef))
	for i, c := range bef {
		x := libunlynx.SuiTe.Point().Mul(k, c.K)
		if add {
			out[i] = libunlynx.CipherText{K: c.K.Clone(), C: libunlynx.SuiTe.Point().Add(c.C, x)}
		} else {
			out[i] = libunlynx.CipherText{K: c.K.Clone(), C: libunlynx.SuiTe.Point().Sub(c.C, x)}
		}
	}
	return out
}

func gen(t *rapid.T, lo int) inst {
	var in inst
	in.k, in.K = hk.KeyPair(t, "k")
	_, pub := hk.KeyPair(t, "pub")
	in.add = rapid.Bool().Draw(t, "add")
	n := hk.ProofLen(t, "n", lo)
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	c := hk.EncRef(pub, hk.Small(t, "m"), hk.Scalar(t, "r"))
	d := hk.EncRef(pub, 1, hk.Scalar(t, "r2"))
	for i := 0; i < n; i++ {
		switch {
		case kind == 1 && i%2 == 1:
		case kind == 2 && i%3 == 2:
			in.bef = append(in.bef, libunlynx.IntToCipherText(int64(i%4)))
			continue
		default:
			c = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(c.K, d.K), C: libunlynx.SuiTe.Point().Add(c.C, d.C)}
		}
		in.bef = append(in.bef, c)
	}
	in.aft = reenc(in.bef, in.k, in.add)
	in.desc = fmt.Sprintf("n=%d add=%v kind=%d", n, in.add, kind)
	return in
}

func create(t *rapid.T, bef, aft libunlynx.CipherVector, K kyber.Point, k kyber.Scalar, add bool) (libunlynxaddrm.PublishedAddRmListProof, bool) {
	var l libunlynxaddrm.PublishedAddRmListProof
	var err error
	ended, msg := hk.EventuallyEnds(func() func() {
		return func() { l, err = libunlynxaddrm.AddRmListProofCreation(bef, aft, K, k, add) }
	})
	if !ended || msg != "" {
		t.Fatalf("creating proofs: ended=%v %s", ended, msg)
	}
	return l, err == nil
}

func full(l libunlynxaddrm.PublishedAddRmListProof) func() bool {
	return func() bool { return libunlynxaddrm.AddRmListProofVerification(l, 1.0) }
}
func single(p libunlynxaddrm.PublishedAddRmProof, K kyber.Point, add bool) func() bool {
	return func() bool { return libunlynxaddrm.AddRmProofVerification(p, K, add) }
}

func travel(p kyber.Point) kyber.Point {
	q := libunlynx.SuiTe.Point()
	if err := q.UnmarshalBinary(hk.PB(p)); err != nil {
		panic(err)
	}
	return q
}
func travelCT(c libunlynx.CipherText) libunlynx.CipherText {
	return libunlynx.CipherText{K: travel(c.K), C: travel(c.C)}
}
func travelList(l libunlynxaddrm.PublishedAddRmListProof) libunlynxaddrm.PublishedAddRmListProof {
	out := libunlynxaddrm.PublishedAddRmListProof{Krm: travel(l.Krm), ToAdd: l.ToAdd}
	for _, p := range l.List {
		out.List = append(out.List, libunlynxaddrm.PublishedAddRmProof{Proof: append([]byte{}, p.Proof...), CtBef: travelCT(p.CtBef), CtAft: travelCT(p.CtAft), RB: travel(p.RB)})
	}
	return out
}

func neutral(p kyber.Point) bool { return p.Equal(libunlynx.SuiTe.Point().Null()) }

func TestHonest(t *testing.T) {
	hk.Check(t, 150, 2500, func(t *rapid.T) {
		in := gen(t, 0)
		l, ok := create(t, in.bef, in.aft, in.K, in.k, in.add)
		if !ok || len(l.List) != len(in.bef) || l.ToAdd != in.add || string(hk.PB(l.Krm)) != string(hk.PB(in.K)) {
			t.Fatalf("creating honest proofs: ok=%v, %d proofs for %d elements, direction %v", ok, len(l.List), len(in.bef), l.ToAdd)
		}
		hk.Case("honest", in.desc, len(in.bef) > 0, hk.LenClass(len(in.bef)), fmt.Sprint("add=", in.add))
		for round, x := range []libunlynxaddrm.PublishedAddRmListProof{l, travelList(l)} {
			hk.Accept(t, fmt.Sprint("list, round ", round), full(x))
			for i, p := range x.List {
				if len(x.List) > 8 && i%23 != 0 && i != len(x.List)-1 && i != hk.Chunk {
					continue
				}
				hk.Accept(t, fmt.Sprint("proof ", i), single(p, in.K, in.add))
				if string(hk.CB(p.CtBef)) != string(hk.CB(in.bef[i])) || string(hk.CB(p.CtAft)) != string(hk.CB(in.aft[i])) {
					t.Fatalf("proof %d is about another element", i)
				}
			}
		}
	})
}

func TestTampered(t *testing.T) {
	hk.Check(t, 700, 12000, func(t *rapid.T) {
		in := gen(t, 1)
		l, ok := create(t, in.bef, in.aft, in.K, in.k, in.add)
		if !ok {
			t.Fatalf("creating honest proofs failed")
		}
		if rapid.Bool().Draw(t, "travel") {
			l = travelList(l)
		}
		n := len(l.List)
		i, j := hk.Pos(t, "i", n), hk.Pos(t, "j", n)
		p, s := l.List[i], l.List[j]
		same := string(hk.CB(p.CtBef)) == string(hk.CB(s.CtBef))
		// all clear values have the same statement: the neutral element
		sameStatement := same || (neutral(p.CtBef.K) && neutral(s.CtBef.K))
		what := rapid.SampledFrom([]string{"before", "after", "base", "proof", "key", "direction", "swapped"}).Draw(t, "what")
		kind := ""
		K, add := in.K, in.add
		switch what {
		case "before":
			p.CtBef, kind = hk.OtherCT(t, "p", p.CtBef, s.CtBef, p.CtAft)
		case "after":
			p.CtAft, kind = hk.OtherCT(t, "p", p.CtAft, s.CtAft, p.CtBef)
		case "base":
			p.RB, kind = hk.OtherPoint(t, "p", p.RB, s.RB, in.K)
		case "proof":
			var sib [][]byte
			if !sameStatement {
				sib = append(sib, s.Proof)
			}
			p.Proof, kind = hk.OtherBytes(t, "b", p.Proof, sib...)
		case "key":
			K, kind = hk.OtherPoint(t, "p", in.K, p.CtBef.K)
			l.Krm = K
		case "direction":
			if neutral(p.CtBef.K) {
				return
			}
			add = !add
			l.ToAdd = add
		case "swapped":
			if neutral(p.CtBef.K) {
				return
			}
			p.CtBef, p.CtAft = p.CtAft, p.CtBef
		}
		desc := fmt.Sprintf("%s element %d (sibling %d): %s %s", in.desc, i, j, what, kind)
		hk.Case("tampered", desc, true, what, hk.LenClass(n))
		l.List[i] = p
		hk.Refuse(t, desc, single(p, K, add))
		hk.Refuse(t, desc+" (list)", full(l))
	})
}

func TestWrongComputation(t *testing.T) {
	hk.Check(t, 400, 6000, func(t *rapid.T) {
		in := gen(t, 1)
		k2, _ := hk.KeyPair(t, "k2")
		what := rapid.SampledFrom([]string{"secret of the re-encryption", "secret of the proof", "direction", "one element", "swapped elements", "not re-encrypted"}).Draw(t, "what")
		pk := in.k
		aft := in.aft
		n := len(aft)
		i, j := hk.Pos(t, "i", n), hk.Pos(t, "j", n)
		switch what {
		case "secret of the re-encryption":
			aft = reenc(in.bef, k2, in.add)
		case "secret of the proof":
			pk = k2
		case "direction":
			aft = reenc(in.bef, in.k, !in.add)
		case "one element":
			aft = hk.Copy(aft)
			aft[i], _ = hk.OtherCT(t, "a", aft[i], aft[j], in.bef[i])
		case "swapped elements":
			aft = hk.Copy(aft)
			aft[i], aft[j] = aft[j], aft[i]
		case "not re-encrypted":
			aft = hk.Copy(aft)
			aft[i] = in.bef[i]
		}
		var bad []int
		for q := range aft {
			if string(hk.CB(aft[q])) != string(hk.CB(in.aft[q])) || what == "secret of the proof" {
				bad = append(bad, q)
			}
		}
		if len(bad) == 0 {
			return
		}
		desc := in.desc + ": wrong " + what
		hk.Case("wrong computation", desc, true, what)
		l, ok := create(t, in.bef, aft, in.K, pk, in.add)
		if !ok {
			hk.Note("creation refused")
			return
		}
		hk.Refuse(t, desc+" (list)", full(l))
		for n, q := range bad {
			if n < 4 {
				hk.Refuse(t, fmt.Sprint(desc, " element ", q), single(l.List[q], in.K, in.add))
			}
		}
	})
}
