package c12

import (
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Honest contributions for generated vectors (length 0 to 201, duplicate and neutral ephemeral points) are proved and must verify alone, in the list, for the whole list and after serialisation; then one component of one proof (point replaced by random/negated/shifted/null/sibling point, proof bytes flipped/truncated/emptied/permuted/taken from a sibling, list key) is altered, or the contribution is made with another secret or target key, and both the single and the full list verification must refuse without crashing. Protocol runs over generated trees publish proofs that must verify and cover the whole input. Non-trivial: at least one proof.",
		"the discrete logarithm in the group is hard; appending bytes to a proof is not an alteration (the proof library ignores them)")
}

type inst struct {
	k    kyber.Scalar
	K, Q kyber.Point
	rbs  []kyber.Point
	list libunlynxkeyswitch.PublishedKSListProof
	desc string
}

func gen(t *rapid.T, lo int) inst {
	var in inst
	in.k, in.K = hk.KeyPair(t, "k")
	_, in.Q = hk.KeyPair(t, "q")
	n := hk.ProofLen(t, "n", lo)
	dup := rapid.IntRange(0, 3).Draw(t, "dup")
	base := libunlynx.SuiTe.Point().Mul(hk.Scalar(t, "rb"), nil)
	p := base
	for i := 0; i < n; i++ {
		switch {
		case dup == 1 && i > 0:
		case dup == 2 && i%3 == 1:
			p = libunlynx.SuiTe.Point().Null()
		default:
			p = libunlynx.SuiTe.Point().Add(p, base)
		}
		in.rbs = append(in.rbs, p)
	}
	in.desc = fmt.Sprintf("n=%d dup=%d", n, dup)
	return in
}

func (in *inst) create(t *rapid.T) {
	_, ks2s, neg, vis := libunlynxkeyswitch.KeySwitchSequence(in.Q, in.rbs, in.k)
	var err error
	in.list, err = libunlynxkeyswitch.KeySwitchListProofCreation(in.K, in.Q, in.k, ks2s, neg, vis)
	if err != nil {
		t.Fatalf("proof creation: %v", err)
	}
	if len(in.list.List) != len(in.rbs) {
		t.Fatalf("%d proofs for %d elements", len(in.list.List), len(in.rbs))
	}
}

func full(l libunlynxkeyswitch.PublishedKSListProof) func() bool {
	return func() bool { return libunlynxkeyswitch.KeySwitchListProofVerification(l, 1.0) }
}

func single(p libunlynxkeyswitch.PublishedKSProof) func() bool {
	return func() bool { return libunlynxkeyswitch.KeySwitchProofVerification(p) }
}

// transported sends a list through its byte form.
func transported(t *rapid.T, l libunlynxkeyswitch.PublishedKSListProof) libunlynxkeyswitch.PublishedKSListProof {
	b, err := l.ToBytes()
	if err != nil {
		t.Fatalf("encoding the proofs: %v", err)
	}
	var out libunlynxkeyswitch.PublishedKSListProof
	if err := out.FromBytes(b); err != nil {
		t.Fatalf("decoding the proofs: %v", err)
	}
	return out
}

func checkHonest(t *rapid.T, in inst, l libunlynxkeyswitch.PublishedKSListProof, what string) {
	hk.Accept(t, what+" list", full(l))
	for i, p := range l.List {
		if len(l.List) > 8 && i%17 != 0 && i != len(l.List)-1 && i != hk.Chunk {
			continue
		}
		hk.Accept(t, fmt.Sprint(what, " proof ", i), single(p))
		// the proof is about this element
		if string(hk.PB(p.K)) != string(hk.PB(in.K)) || string(hk.PB(p.Q)) != string(hk.PB(in.Q)) ||
			string(hk.PB(p.RbNeg)) != string(hk.PB(libunlynx.SuiTe.Point().Neg(in.rbs[i]))) {
			t.Fatalf("%s proof %d is about other keys or another element", what, i)
		}
		// the published contribution is the right one: ks2 + k*rB = vi*Q; with the target secret unknown this is
		// checked through the difference of contributions in C05
	}
}

func TestHonest(t *testing.T) {
	hk.Check(t, 90, 1500, func(t *rapid.T) {
		in := gen(t, 0)
		in.create(t)
		hk.Case("honest", in.desc, len(in.rbs) > 0, hk.LenClass(len(in.rbs)))
		checkHonest(t, in, in.list, "honest")
		checkHonest(t, in, transported(t, in.list), "transported")
	})
}

func TestTampered(t *testing.T) {
	hk.Check(t, 500, 9000, func(t *rapid.T) {
		in := gen(t, 1)
		in.create(t)
		l := in.list
		if rapid.Bool().Draw(t, "viaBytes") {
			l = transported(t, l)
		}
		n := len(l.List)
		i := hk.Pos(t, "i", n)
		j := hk.Pos(t, "j", n)
		p := l.List[i]
		s := l.List[j]
		what := rapid.SampledFrom([]string{"K", "ViB", "Ks2", "RbNeg", "Q", "Proof"}).Draw(t, "what")
		kind := ""
		sib := func(x kyber.Point) []kyber.Point { return []kyber.Point{x, in.K, in.Q, p.ViB, p.Ks2} }
		switch what {
		case "K":
			p.K, kind = hk.OtherPoint(t, "p", p.K, sib(s.K)...)
		case "ViB":
			p.ViB, kind = hk.OtherPoint(t, "p", p.ViB, sib(s.ViB)...)
		case "Ks2":
			p.Ks2, kind = hk.OtherPoint(t, "p", p.Ks2, sib(s.Ks2)...)
		case "RbNeg":
			p.RbNeg, kind = hk.OtherPoint(t, "p", p.RbNeg, sib(s.RbNeg)...)
		case "Q":
			p.Q, kind = hk.OtherPoint(t, "p", p.Q, sib(s.Q)...)
		case "Proof":
			p.Proof, kind = hk.OtherBytes(t, "b", p.Proof, s.Proof)
		}
		desc := fmt.Sprintf("%s element %d (sibling %d): %s %s", in.desc, i, j, what, kind)
		hk.Case("tampered", desc, true, what, hk.LenClass(n))
		l.List[i] = p
		hk.Refuse(t, desc, single(p))
		hk.Refuse(t, desc+" (list)", full(l))
		hk.Refuse(t, desc+" (transported list)", full(transported(t, l)))
	})
}

// Contributions that were not computed as they should.
func TestWrongComputation(t *testing.T) {
	hk.Check(t, 250, 4000, func(t *rapid.T) {
		in := gen(t, 1)
		k2, K2 := hk.KeyPair(t, "k2")
		_, Q2 := hk.KeyPair(t, "q2")
		what := rapid.SampledFrom([]string{"secret of the contribution", "secret of the proof", "target of the contribution", "target of the proof", "input of the contribution", "blinding", "swapped contributions", "public key"}).Draw(t, "what")
		ck, pk, cQ, pQ, pK := in.k, in.k, in.Q, in.Q, in.K
		switch what {
		case "secret of the contribution":
			ck = k2
		case "secret of the proof":
			pk = k2
		case "target of the contribution":
			cQ = Q2
		case "target of the proof":
			pQ = Q2
		case "public key":
			pK = K2
		}
		_, ks2s, neg, vis := libunlynxkeyswitch.KeySwitchSequence(cQ, in.rbs, ck)
		i := hk.Pos(t, "i", len(in.rbs))
		j := hk.Pos(t, "j", len(in.rbs))
		only := -1
		switch what {
		case "input of the contribution":
			neg[i], _ = hk.OtherPoint(t, "neg", neg[i])
			only = i
		case "blinding":
			vis[i] = hk.Scalar(t, "vi")
			only = i
		case "swapped contributions":
			if i == j {
				return
			}
			ks2s[i], ks2s[j] = ks2s[j], ks2s[i]
			only = i
		case "secret of the contribution", "secret of the proof":
			// a neutral ephemeral point hides the secret in the contribution
			if what == "secret of the contribution" {
				for q, rb := range in.rbs {
					if !rb.Equal(libunlynx.SuiTe.Point().Null()) {
						only = q
					}
				}
				if only < 0 {
					return
				}
			}
		}
		desc := in.desc + ": wrong " + what
		hk.Case("wrong computation", desc, true, what)
		var l libunlynxkeyswitch.PublishedKSListProof
		var err error
		ended, msg := hk.EventuallyEnds(func() func() {
			return func() {
				l, err = libunlynxkeyswitch.KeySwitchListProofCreation(pK, pQ, pk, ks2s, neg, vis)
			}
		})
		if !ended || msg != "" {
			t.Fatalf("%s: creating the proofs: ended=%v %s", desc, ended, msg)
		}
		if err != nil {
			hk.Note("creation refused")
			return
		}
		hk.Refuse(t, desc+" (list)", full(l))
		for q := range l.List {
			if only >= 0 && q != only {
				continue
			}
			if q > 3 && q != only {
				break
			}
			hk.Refuse(t, fmt.Sprint(desc, " element ", q), single(l.List[q]))
		}
	})
}

// Every server publishes proofs during a run of the protocol.
func TestPublished(t *testing.T) {
	hk.Check(t, 130, 2500, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		_, Q := hk.KeyPair(t, "q")
		size := hk.ProofLen(t, "n", 0)
		target := make(libunlynx.CipherVector, size)
		step := hk.EncRef(n.Roster.Aggregate, 1, hk.Scalar(t, "step"))
		c := hk.EncRef(n.Roster.Aggregate, hk.Small(t, "m"), hk.Scalar(t, "r"))
		dup := rapid.IntRange(0, 2).Draw(t, "dup")
		for i := range target {
			if dup != 1 || i%2 == 0 {
				c = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(c.K, step.K), C: libunlynx.SuiTe.Point().Add(c.C, step.C)}
			}
			target[i] = c
			if dup == 2 && i%3 == 1 {
				target[i] = libunlynx.IntToCipherText(int64(i))
			}
		}
		hk.Case("published", fmt.Sprintf("%s; %d elements, dup %d", n.Desc, size, dup), size > 0, append(n.Classes(), hk.LenClass(size))...)
		in := hk.Copy(target)
		out, calls := n.KeySwitch(t, target, Q, true)
		if len(out) != size {
			t.Fatalf("result has %d elements, want %d", len(out), size)
		}
		seen := map[int]bool{}
		sum := make([]kyber.Point, size)
		for i := range sum {
			sum[i] = in[i].C
		}
		for _, k := range calls {
			if seen[k.Server] {
				t.Fatalf("server %d published twice", k.Server)
			}
			seen[k.Server] = true
			if k.Err != nil {
				t.Fatalf("server %d: creating the proofs: %v", k.Server, k.Err)
			}
			l := k.Proof
			if len(l.List) != size {
				t.Fatalf("server %d published %d proofs for %d elements", k.Server, len(l.List), size)
			}
			hk.Accept(t, fmt.Sprint("published by server ", k.Server), full(l))
			hk.Accept(t, fmt.Sprint("published by server ", k.Server, ", transported"), full(transported(t, l)))
			pub := n.Roster.List[k.Server].Public
			for i, p := range l.List {
				if !p.K.Equal(pub) || !p.Q.Equal(Q) || !p.RbNeg.Equal(libunlynx.SuiTe.Point().Neg(in[i].K)) {
					t.Fatalf("server %d: proof %d is about other keys or another element", k.Server, i)
				}
				sum[i] = libunlynx.SuiTe.Point().Add(sum[i], p.Ks2)
			}
		}
		if len(seen) != len(n.Roster.List) {
			t.Fatalf("%d of %d servers published proofs", len(seen), len(n.Roster.List))
		}
		for i := range out {
			if !sum[i].Equal(out[i].C) {
				t.Fatalf("element %d of the result is not the input plus the proven contributions", i)
			}
		}
	})
}
