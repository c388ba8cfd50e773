package c14

import (
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Honest tagging steps for generated vectors (length 0 to 201, duplicate and neutral ciphertexts) are proved and must verify alone and in the list, also after their points travelled through bytes; then one component (either ciphertext, the removal point, key, commitment, result, proof bytes) is altered or taken from a sibling with a different statement, or another secret is used, and single and full list verification must refuse without crashing. Same for secret additions. Non-trivial: at least one proof.",
		"the discrete logarithm in the group is hard; appending bytes to a proof is not an alteration (the proof library ignores them)")
}

// travel gives the point decoded from its encoding (another object).
func travel(p kyber.Point) kyber.Point {
	q := libunlynx.SuiTe.Point()
	if err := q.UnmarshalBinary(hk.PB(p)); err != nil {
		panic(err)
	}
	return q
}

func travelCT(c libunlynx.CipherText) libunlynx.CipherText {
	return libunlynx.CipherText{K: travel(c.K), C: travel(c.C)}
}

func genVec(t *rapid.T, pub kyber.Point, n int) libunlynx.CipherVector {
	var out libunlynx.CipherVector
	kind := rapid.IntRange(0, 4).Draw(t, "vecKind")
	c := hk.EncRef(pub, hk.Small(t, "m"), hk.Scalar(t, "r"))
	d := hk.EncRef(pub, 1, hk.Scalar(t, "r2"))
	for i := 0; i < n; i++ {
		switch {
		case kind == 1 && i%2 == 1: // duplicates
		case kind == 2 && i%3 == 2: // neutral
			out = append(out, *libunlynx.NewCipherText())
			continue
		case kind == 3 && i%3 == 2: // clear value
			out = append(out, libunlynx.IntToCipherText(int64(i)))
			continue
		default:
			x := libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(c.K, d.K), C: libunlynx.SuiTe.Point().Add(c.C, d.C)}
			c = x
		}
		out = append(out, c)
	}
	return out
}

type cr struct {
	k, s kyber.Scalar
	K    kyber.Point
	SB   kyber.Point
	bef  libunlynx.CipherVector
	aft  libunlynx.CipherVector
	desc string
}

func genCr(t *rapid.T, lo int) cr {
	var in cr
	in.k, in.K = hk.KeyPair(t, "k")
	in.s, in.SB = hk.KeyPair(t, "s")
	n := hk.ProofLen(t, "n", lo)
	in.bef = genVec(t, in.K, n)
	in.aft = libunlynxdetertag.DeterministicTagSequence(in.bef, in.k, in.s)
	in.desc = fmt.Sprintf("n=%d", n)
	return in
}

func full(l libunlynxdetertag.PublishedDDTCreationListProof) func() bool {
	return func() bool { return libunlynxdetertag.DeterministicTagCrListProofVerification(l, 1.0) }
}
func single(p libunlynxdetertag.PublishedDDTCreationProof, K, SB kyber.Point) func() bool {
	return func() bool { return libunlynxdetertag.DeterministicTagCrProofVerification(p, K, SB) }
}

func travelList(l libunlynxdetertag.PublishedDDTCreationListProof) libunlynxdetertag.PublishedDDTCreationListProof {
	out := libunlynxdetertag.PublishedDDTCreationListProof{K: travel(l.K), SB: travel(l.SB)}
	for _, p := range l.List {
		out.List = append(out.List, libunlynxdetertag.PublishedDDTCreationProof{Proof: append([]byte{}, p.Proof...), Ciminus11Si: travel(p.Ciminus11Si), CTbef: travelCT(p.CTbef), CTaft: travelCT(p.CTaft)})
	}
	return out
}

func create(t *rapid.T, bef, aft libunlynx.CipherVector, K kyber.Point, k, s kyber.Scalar) (libunlynxdetertag.PublishedDDTCreationListProof, bool) {
	var l libunlynxdetertag.PublishedDDTCreationListProof
	var err error
	ended, msg := hk.EventuallyEnds(func() func() {
		return func() { l, err = libunlynxdetertag.DeterministicTagCrListProofCreation(bef, aft, K, k, s) }
	})
	if !ended || msg != "" {
		t.Fatalf("creating proofs: ended=%v %s", ended, msg)
	}
	return l, err == nil
}

func some(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if n <= 8 || i%23 == 0 || i == n-1 || i == hk.Chunk || i == hk.Chunk-1 {
			out = append(out, i)
		}
	}
	return out
}

func TestCreationHonest(t *testing.T) {
	hk.Check(t, 80, 1200, func(t *rapid.T) {
		in := genCr(t, 0)
		before := string(hk.VB(in.bef)) + string(hk.VB(in.aft))
		l, ok := create(t, in.bef, in.aft, in.K, in.k, in.s)
		if !ok {
			t.Fatalf("creating an honest proof failed")
		}
		hk.Case("creation honest", in.desc, len(in.bef) > 0, hk.LenClass(len(in.bef)))
		if string(hk.VB(in.bef))+string(hk.VB(in.aft)) != before {
			t.Fatalf("creating the proofs changed the ciphertexts")
		}
		if len(l.List) != len(in.bef) || string(hk.PB(l.K)) != string(hk.PB(in.K)) || string(hk.PB(l.SB)) != string(hk.PB(in.SB)) {
			t.Fatalf("list of %d proofs for %d elements, or wrong key or commitment", len(l.List), len(in.bef))
		}
		for round, x := range []libunlynxdetertag.PublishedDDTCreationListProof{l, travelList(l)} {
			hk.Accept(t, fmt.Sprint("list, round ", round), full(x))
			for _, i := range some(len(x.List)) {
				p := x.List[i]
				hk.Accept(t, fmt.Sprint("proof ", i), single(p, in.K, in.SB))
				if string(hk.CB(p.CTbef)) != string(hk.CB(in.bef[i])) || string(hk.CB(p.CTaft)) != string(hk.CB(in.aft[i])) {
					t.Fatalf("proof %d is about another element", i)
				}
			}
		}
		// the proofs made while computing a tag
		n := len(in.bef)
		if n > 12 {
			n = 12
		}
		key, pl, err := libunlynxdetertag.CipherVectorToDeterministicTag(in.bef[:n], in.k, in.s, in.K, true)
		if err != nil || pl == nil {
			t.Fatalf("tagging with proofs: %v", err)
		}
		var tags libunlynx.DeterministCipherVector
		for _, c := range in.aft[:n] {
			tags = append(tags, libunlynx.DeterministCipherText{Point: c.C})
		}
		if key != tags.Key() || len(pl.List) != n {
			t.Fatalf("tag or number of proofs of CipherVectorToDeterministicTag is wrong")
		}
		hk.Accept(t, "proofs of CipherVectorToDeterministicTag", full(*pl))
	})
}

func TestCreationTampered(t *testing.T) {
	hk.Check(t, 500, 9000, func(t *rapid.T) {
		in := genCr(t, 1)
		l, ok := create(t, in.bef, in.aft, in.K, in.k, in.s)
		if !ok {
			t.Fatalf("creating an honest proof failed")
		}
		if rapid.Bool().Draw(t, "travel") {
			l = travelList(l)
		}
		n := len(l.List)
		i, j := hk.Pos(t, "i", n), hk.Pos(t, "j", n)
		p, s := l.List[i], l.List[j]
		same := string(hk.CB(p.CTbef)) == string(hk.CB(s.CTbef))
		what := rapid.SampledFrom([]string{"before", "after", "removal", "proof", "key", "commitment", "whole before", "whole after"}).Draw(t, "what")
		kind := ""
		K, SB := in.K, in.SB
		switch what {
		case "before":
			p.CTbef, kind = hk.OtherCT(t, "p", p.CTbef, s.CTbef, p.CTaft)
		case "after":
			p.CTaft, kind = hk.OtherCT(t, "p", p.CTaft, s.CTaft, p.CTbef)
		case "removal":
			p.Ciminus11Si, kind = hk.OtherPoint(t, "p", p.Ciminus11Si, s.Ciminus11Si, in.K)
		case "proof":
			var sib [][]byte
			if !same {
				sib = append(sib, s.Proof)
			}
			p.Proof, kind = hk.OtherBytes(t, "b", p.Proof, sib...)
		case "key":
			K, kind = hk.OtherPoint(t, "p", in.K, in.SB)
			l.K = K
		case "commitment":
			SB, kind = hk.OtherPoint(t, "p", in.SB, in.K)
			l.SB = SB
		case "whole before":
			if same {
				return
			}
			p.CTbef = s.CTbef
		case "whole after":
			if same {
				return
			}
			p.CTaft = s.CTaft
		}
		if what == "before" && !p.CTbef.K.Equal(l.List[i].CTbef.K) && false {
			return
		}
		desc := fmt.Sprintf("%s element %d (sibling %d): %s %s", in.desc, i, j, what, kind)
		hk.Case("creation tampered", desc, true, what, hk.LenClass(n))
		l.List[i] = p
		hk.Refuse(t, desc, single(p, K, SB))
		hk.Refuse(t, desc+" (list)", full(l))
	})
}

func TestCreationWrong(t *testing.T) {
	hk.Check(t, 250, 4000, func(t *rapid.T) {
		in := genCr(t, 1)
		k2, _ := hk.KeyPair(t, "k2")
		s2, _ := hk.KeyPair(t, "s2")
		ck, cs, pk, ps := in.k, in.s, in.k, in.s
		what := rapid.SampledFrom([]string{"key of the computation", "secret of the computation", "key of the proof", "secret of the proof", "swapped secrets", "swapped results"}).Draw(t, "what")
		switch what {
		case "key of the computation":
			ck = k2
		case "secret of the computation":
			cs = s2
		case "key of the proof":
			pk = k2
		case "secret of the proof":
			ps = s2
		case "swapped secrets":
			pk, ps = in.s, in.k
		}
		aft := libunlynxdetertag.DeterministicTagSequence(in.bef, ck, cs)
		i, j := hk.Pos(t, "i", len(aft)), hk.Pos(t, "j", len(aft))
		if what == "swapped results" {
			aft[i], aft[j] = aft[j], aft[i]
		}
		// only elements whose result really is wrong
		var bad []int
		for q := range aft {
			if string(hk.CB(aft[q])) != string(hk.CB(in.aft[q])) || what == "key of the proof" || what == "secret of the proof" || what == "swapped secrets" {
				bad = append(bad, q)
			}
		}
		if len(bad) == 0 {
			return
		}
		desc := in.desc + ": wrong " + what
		hk.Case("creation wrong", desc, true, what)
		l, ok := create(t, in.bef, aft, in.K, pk, ps)
		if !ok {
			hk.Note("creation refused")
			return
		}
		// the verifier knows the server's key and commitment
		l.SB = in.SB
		hk.Refuse(t, desc+" (list)", full(l))
		for n, q := range bad {
			if n < 4 {
				hk.Refuse(t, fmt.Sprint(desc, " element ", q), single(l.List[q], in.K, in.SB))
			}
		}
	})
}

// ---- additions

type add struct {
	c1, c2, r []kyber.Point
	s         []kyber.Scalar
	desc      string
}

func genAdd(t *rapid.T, lo int) add {
	var a add
	n := hk.ProofLen(t, "n", lo)
	one := rapid.Bool().Draw(t, "oneSecret")
	base := libunlynx.SuiTe.Point().Mul(hk.Scalar(t, "c"), nil)
	s := hk.Scalar(t, "s")
	step := hk.Scalar(t, "step")
	p := base
	for i := 0; i < n; i++ {
		if !one {
			s = libunlynx.SuiTe.Scalar().Add(s, step)
		}
		if rapid.IntRange(0, 9).Draw(t, fmt.Sprint("same", i%12)) > 0 {
			p = libunlynx.SuiTe.Point().Add(p, base)
		}
		c2 := libunlynx.SuiTe.Point().Mul(s, nil)
		a.c1, a.c2, a.s = append(a.c1, p), append(a.c2, c2), append(a.s, s)
		a.r = append(a.r, libunlynx.SuiTe.Point().Add(p, c2))
	}
	a.desc = fmt.Sprintf("n=%d oneSecret=%v", n, one)
	return a
}

func addFull(l libunlynxdetertag.PublishedDDTAdditionListProof) func() bool {
	return func() bool { return libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, 1.0) }
}
func addSingle(p libunlynxdetertag.PublishedDDTAdditionProof) func() bool {
	return func() bool { return libunlynxdetertag.DeterministicTagAdditionProofVerification(p) }
}
func addCreate(t *rapid.T, a add) (libunlynxdetertag.PublishedDDTAdditionListProof, bool) {
	var l libunlynxdetertag.PublishedDDTAdditionListProof
	var err error
	ended, msg := hk.EventuallyEnds(func() func() {
		return func() { l, err = libunlynxdetertag.DeterministicTagAdditionListProofCreation(a.c1, a.s, a.c2, a.r) }
	})
	if !ended || msg != "" {
		t.Fatalf("creating proofs: ended=%v %s", ended, msg)
	}
	return l, err == nil
}
func addTravel(l libunlynxdetertag.PublishedDDTAdditionListProof) libunlynxdetertag.PublishedDDTAdditionListProof {
	var out libunlynxdetertag.PublishedDDTAdditionListProof
	for _, p := range l.List {
		out.List = append(out.List, libunlynxdetertag.PublishedDDTAdditionProof{C1: travel(p.C1), C2: travel(p.C2), R: travel(p.R), Proof: append([]byte{}, p.Proof...)})
	}
	return out
}

func TestAdditionHonest(t *testing.T) {
	hk.Check(t, 120, 2000, func(t *rapid.T) {
		a := genAdd(t, 0)
		l, ok := addCreate(t, a)
		if !ok || len(l.List) != len(a.c1) {
			t.Fatalf("creating honest proofs: ok=%v, %d proofs for %d elements", ok, len(l.List), len(a.c1))
		}
		hk.Case("addition honest", a.desc, len(a.c1) > 0, hk.LenClass(len(a.c1)))
		for round, x := range []libunlynxdetertag.PublishedDDTAdditionListProof{l, addTravel(l)} {
			hk.Accept(t, fmt.Sprint("list, round ", round), addFull(x))
			for _, i := range some(len(x.List)) {
				p := x.List[i]
				hk.Accept(t, fmt.Sprint("proof ", i, " round ", round), addSingle(p))
				if string(hk.PB(p.C1)) != string(hk.PB(a.c1[i])) || string(hk.PB(p.C2)) != string(hk.PB(a.c2[i])) || string(hk.PB(p.R)) != string(hk.PB(a.r[i])) {
					t.Fatalf("proof %d is about another element", i)
				}
			}
		}
	})
}

func TestAdditionTampered(t *testing.T) {
	hk.Check(t, 600, 10000, func(t *rapid.T) {
		a := genAdd(t, 1)
		n := len(a.c1)
		i, j := hk.Pos(t, "i", n), hk.Pos(t, "j", n)
		what := rapid.SampledFrom([]string{"C1", "C2", "R", "proof", "wrong secret", "wrong sum", "wrong addend"}).Draw(t, "what")
		kind := ""
		switch what {
		case "wrong secret":
			a.s[i] = hk.Scalar(t, "other")
		case "wrong sum":
			a.r[i], kind = hk.OtherPoint(t, "r", a.r[i], a.c1[i], a.c2[i])
		case "wrong addend":
			a.c2[i], kind = hk.OtherPoint(t, "c2", a.c2[i], a.c1[i])
			a.r[i] = libunlynx.SuiTe.Point().Add(a.c1[i], a.c2[i])
		}
		l, ok := addCreate(t, a)
		desc := fmt.Sprintf("%s element %d (sibling %d): ", a.desc, i, j)
		if !ok {
			hk.Case("addition tampered", desc+what+" refused at creation", true, what)
			return
		}
		if rapid.Bool().Draw(t, "travel") {
			l = addTravel(l)
		}
		p, s := l.List[i], l.List[j]
		switch what {
		case "C1":
			p.C1, kind = hk.OtherPoint(t, "p", p.C1, s.C1, p.R)
		case "C2":
			p.C2, kind = hk.OtherPoint(t, "p", p.C2, s.C2, p.R)
		case "R":
			p.R, kind = hk.OtherPoint(t, "p", p.R, s.R, p.C1)
		case "proof":
			var sib [][]byte
			if !p.C2.Equal(s.C2) {
				sib = append(sib, s.Proof)
			}
			p.Proof, kind = hk.OtherBytes(t, "b", p.Proof, sib...)
		}
		desc += what + " " + kind
		hk.Case("addition tampered", desc, true, what, hk.LenClass(n))
		l.List[i] = p
		hk.Refuse(t, desc, addSingle(p))
		hk.Refuse(t, desc+" (list)", addFull(l))
	})
}
