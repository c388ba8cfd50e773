package c22

import (
	"fmt"
	"math"
	"math/big"
	"sync"
	"testing"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	cl.Register("vPV", protocolsunlynxutils.NewProofsVerificationProtocol)
	hk.Main(m,
		"Lists of 0 to 250 proofs of each of the six kinds are composed from honest proofs and from proofs broken in several ways, at generated positions (around the boundary of the requested fraction, around work-chunk boundaries, anywhere); each list is verified for a generated fraction (0, 1, k/n, k/n +- a little, any), and the verdict must be whether the first ceil(fraction*n) are all honest. The verification protocol is run with generated lists of every kind and must return the six verdicts in the documented order. Non-trivial: a list with at least one proof and a fraction above 0.",
		"where rounding of fraction*n in floating point and exactly give different counts, both are accepted; proofs are checked against honest/broken by construction (C12-C16 check single proofs)")
}

func sc(n int64) kyber.Scalar {
	return libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.XOF([]byte(fmt.Sprint("c22-", n))))
}
func pt(n int64) kyber.Point { return libunlynx.SuiTe.Point().Mul(sc(n), nil) }

// kind is one kind of proof: pools of honest and broken proofs that can stand in
// one list, and the list verification.
type kind struct {
	name   string
	good   int
	bad    []string
	verify func(pick []int, p float64) bool // >=0: honest one, <0: -1-i-th broken one
}

func flip(b []byte) []byte {
	c := append([]byte{}, b...)
	c[len(c)/2] ^= 4
	return c
}

var (
	once  sync.Once
	kinds []kind
	ksG   []libunlynxkeyswitch.PublishedKSProof
	ksB   []libunlynxkeyswitch.PublishedKSProof
	crG   libunlynxdetertag.PublishedDDTCreationListProof
	crB   []libunlynxdetertag.PublishedDDTCreationProof
	adG   []libunlynxdetertag.PublishedDDTAdditionProof
	adB   []libunlynxdetertag.PublishedDDTAdditionProof
	agG   []libunlynxaggr.PublishedAggregationProof
	agB   []libunlynxaggr.PublishedAggregationProof
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func shuffleProof(h kyber.Point, seed int64) libunlynxshuffle.PublishedShufflingProof {
	var in []libunlynx.CipherVector
	for i := int64(0); i < 3; i++ {
		in = append(in, libunlynx.CipherVector{hk.EncRef(h, i, sc(seed*10+i)), hk.EncRef(h, 5, sc(seed*10+5+i))})
	}
	orig := hk.CopyM(in)
	out, pi, beta := libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), h, nil)
	p, err := libunlynxshuffle.ShuffleProofCreation(orig, out, libunlynx.SuiTe.Point().Base(), h, beta, pi)
	must(err)
	return p
}

func badShuffles(h kyber.Point, seed int64) []libunlynxshuffle.PublishedShufflingProof {
	p := shuffleProof(h, seed)
	a, b, c := p, p, p
	a.HashProof = flip(p.HashProof)
	b.ShuffledList = hk.CopyM(p.ShuffledList)
	b.ShuffledList[1] = hk.Copy(b.ShuffledList[0])
	c.OriginalList = hk.CopyM(p.OriginalList)[:2]
	return []libunlynxshuffle.PublishedShufflingProof{a, b, c, shuffleProof(pt(777), seed+1)}
}

func shuffleList(g, b []libunlynxshuffle.PublishedShufflingProof, pick []int) libunlynxshuffle.PublishedShufflingListProof {
	var l libunlynxshuffle.PublishedShufflingListProof
	for _, i := range pick {
		if i >= 0 {
			l.List = append(l.List, g[i])
		} else {
			l.List = append(l.List, b[-1-i])
		}
	}
	return l
}
func ksList(pick []int) (l libunlynxkeyswitch.PublishedKSListProof) {
	for _, i := range pick {
		if i >= 0 {
			l.List = append(l.List, ksG[i])
		} else {
			l.List = append(l.List, ksB[-1-i])
		}
	}
	return
}
func crList(pick []int) (l libunlynxdetertag.PublishedDDTCreationListProof) {
	l.K, l.SB = crG.K, crG.SB
	for _, i := range pick {
		if i >= 0 {
			l.List = append(l.List, crG.List[i])
		} else {
			l.List = append(l.List, crB[-1-i])
		}
	}
	return
}
func adList(pick []int) (l libunlynxdetertag.PublishedDDTAdditionListProof) {
	for _, i := range pick {
		if i >= 0 {
			l.List = append(l.List, adG[i])
		} else {
			l.List = append(l.List, adB[-1-i])
		}
	}
	return
}
func agList(pick []int) (l libunlynxaggr.PublishedAggregationListProof) {
	for _, i := range pick {
		if i >= 0 {
			l.List = append(l.List, agG[i])
		} else {
			l.List = append(l.List, agB[-1-i])
		}
	}
	return
}

func setup() {
	once.Do(func() {
		const n = 5
		// key switching
		k, K, Q := sc(1), pt(1), pt(2)
		var ks2, neg []kyber.Point
		var vis []kyber.Scalar
		for i := int64(0); i < n; i++ {
			rb, v := pt(100+i), sc(200+i)
			rbNeg := libunlynx.SuiTe.Point().Neg(rb)
			a := libunlynx.SuiTe.Point().Mul(k, rbNeg)
			b := libunlynx.SuiTe.Point().Mul(v, Q)
			ks2, neg, vis = append(ks2, libunlynx.SuiTe.Point().Add(a, b)), append(neg, rbNeg), append(vis, v)
		}
		l, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2, neg, vis)
		must(err)
		ksG = l.List
		b0, b1, b2 := l.List[0], l.List[1], l.List[2]
		b0.Proof = flip(b0.Proof)
		b1.Ks2 = libunlynx.SuiTe.Point().Add(b1.Ks2, libunlynx.SuiTe.Point().Base())
		b2.Proof = l.List[3].Proof
		b3 := l.List[3]
		b3.Proof = nil
		ksB = []libunlynxkeyswitch.PublishedKSProof{b0, b1, b2, b3}
		kinds = append(kinds, kind{"key switch", n, []string{"proof bytes", "contribution", "proof of another", "no proof"}, func(pick []int, p float64) bool {
			return libunlynxkeyswitch.KeySwitchListProofVerification(ksList(pick), p)
		}})
		// tag creation
		var bef libunlynx.CipherVector
		for i := int64(0); i < n; i++ {
			bef = append(bef, hk.EncRef(K, i, sc(300+i)))
		}
		aft := libunlynxdetertag.DeterministicTagSequence(bef, k, sc(3))
		crG, err = libunlynxdetertag.DeterministicTagCrListProofCreation(bef, aft, K, k, sc(3))
		must(err)
		c0, c1, c2 := crG.List[0], crG.List[1], crG.List[2]
		c0.Proof = flip(c0.Proof)
		c1.CTaft = crG.List[0].CTaft
		c2.Proof = crG.List[0].Proof
		other, err := libunlynxdetertag.DeterministicTagCrListProofCreation(bef, libunlynxdetertag.DeterministicTagSequence(bef, k, sc(4)), K, k, sc(4))
		must(err)
		crB = []libunlynxdetertag.PublishedDDTCreationProof{c0, c1, c2, other.List[1]}
		kinds = append(kinds, kind{"tag creation", n, []string{"proof bytes", "after", "proof of another", "another secret"}, func(pick []int, p float64) bool {
			return libunlynxdetertag.DeterministicTagCrListProofVerification(crList(pick), p)
		}})
		// tag addition
		var c1s, c2s, rs []kyber.Point
		var ss []kyber.Scalar
		for i := int64(0); i < n; i++ {
			c1s, ss, c2s = append(c1s, pt(400+i)), append(ss, sc(450+i)), append(c2s, pt(450+i))
			rs = append(rs, libunlynx.SuiTe.Point().Add(pt(400+i), pt(450+i)))
		}
		al, err := libunlynxdetertag.DeterministicTagAdditionListProofCreation(c1s, ss, c2s, rs)
		must(err)
		adG = al.List
		a0, a1, a2 := al.List[0], al.List[1], al.List[2]
		a0.Proof = flip(a0.Proof)
		a1.R = libunlynx.SuiTe.Point().Add(a1.R, libunlynx.SuiTe.Point().Base())
		a2.C1 = libunlynx.SuiTe.Point().Neg(a2.C1)
		adB = []libunlynxdetertag.PublishedDDTAdditionProof{a0, a1, a2}
		kinds = append(kinds, kind{"tag addition", n, []string{"proof bytes", "sum", "term"}, func(pick []int, p float64) bool {
			return libunlynxdetertag.DeterministicTagAdditionListProofVerification(adList(pick), p)
		}})
		// aggregation
		for i := int64(0); i < n; i++ {
			var cv libunlynx.CipherVector
			s := libunlynx.CipherText{K: libunlynx.SuiTe.Point().Null(), C: libunlynx.SuiTe.Point().Null()}
			for j := int64(0); j < i; j++ {
				c := hk.EncRef(K, j, sc(500+10*i+j))
				cv = append(cv, c)
				s = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(s.K, c.K), C: libunlynx.SuiTe.Point().Add(s.C, c.C)}
			}
			agG = append(agG, libunlynxaggr.PublishedAggregationProof{Data: cv, AggregationResult: s})
		}
		g0, g1 := agG[3], agG[4]
		g0.Data = g0.Data[1:]
		g1.AggregationResult = agG[3].AggregationResult
		g2 := agG[2]
		g2.AggregationResult = libunlynx.CipherText{K: g2.AggregationResult.K, C: libunlynx.SuiTe.Point().Add(g2.AggregationResult.C, libunlynx.SuiTe.Point().Base())}
		agB = []libunlynxaggr.PublishedAggregationProof{g0, g1, g2}
		kinds = append(kinds, kind{"aggregation", n, []string{"element dropped", "sum of another", "sum"}, func(pick []int, p float64) bool {
			return libunlynxaggr.AggregationListProofVerification(agList(pick), p)
		}})
		// shuffle
		g := []libunlynxshuffle.PublishedShufflingProof{shuffleProof(K, 60), shuffleProof(K, 61), shuffleProof(K, 62)}
		bd := badShuffles(K, 63)
		kinds = append(kinds, kind{"shuffle", 3, []string{"proof bytes", "row duplicated", "row missing", "another key"}, func(pick []int, p float64) bool {
			return libunlynxshuffle.ShuffleListProofVerification(shuffleList(g, bd, pick), K, p)
		}})
		// joining and leaving servers
		for _, add := range []bool{true, false} {
			add := add
			var after libunlynx.CipherVector
			for _, c := range bef {
				x := libunlynx.SuiTe.Point().Mul(k, c.K)
				if !add {
					x = libunlynx.SuiTe.Point().Neg(x)
				}
				after = append(after, libunlynx.CipherText{K: c.K, C: libunlynx.SuiTe.Point().Add(c.C, x)})
			}
			rl, err := libunlynxaddrm.AddRmListProofCreation(bef, after, K, k, add)
			must(err)
			r0, r1, r2 := rl.List[0], rl.List[1], rl.List[2]
			r0.Proof = flip(r0.Proof)
			r1.CtAft, r1.CtBef = r1.CtBef, r1.CtAft
			r2.CtAft = libunlynx.CipherText{K: r2.CtAft.K, C: libunlynx.SuiTe.Point().Add(r2.CtAft.C, libunlynx.SuiTe.Point().Base())}
			rb := []libunlynxaddrm.PublishedAddRmProof{r0, r1, r2}
			kinds = append(kinds, kind{fmt.Sprint("add/remove add=", add), n, []string{"proof bytes", "direction", "after"}, func(pick []int, p float64) bool {
				l := libunlynxaddrm.PublishedAddRmListProof{Krm: K, ToAdd: add}
				for _, i := range pick {
					if i >= 0 {
						l.List = append(l.List, rl.List[i])
					} else {
						l.List = append(l.List, rb[-1-i])
					}
				}
				return libunlynxaddrm.AddRmListProofVerification(l, p)
			}})
		}
		// every pool is what it claims to be, proof by proof
		for _, k := range kinds {
			for i := 0; i < k.good; i++ {
				if !k.verify([]int{i}, 1) {
					pools += fmt.Sprintf("honest %s proof %d alone does not verify; ", k.name, i)
				}
			}
			for i, w := range k.bad {
				if k.verify([]int{-1 - i}, 1) {
					pools += fmt.Sprintf("%s proof with altered %s verifies; ", k.name, w)
				}
			}
		}
	})
}

var pools string

// ceilBoth gives ceil(p*n), computed exactly and in floating point.
func ceilBoth(p float64, n int) (int, int) {
	r := new(big.Rat).SetFloat64(p)
	r.Mul(r, new(big.Rat).SetInt64(int64(n)))
	q, m := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	e := int(q.Int64())
	if m.Sign() > 0 {
		e++
	}
	f := int(math.Ceil(p * float64(n)))
	if e > n {
		e = n
	}
	if f > n {
		f = n
	}
	return e, f
}

func drawFraction(t *rapid.T, n int) float64 {
	switch rapid.IntRange(0, 7).Draw(t, "fractionKind") {
	case 0:
		return 0
	case 1, 2:
		return 1
	case 3, 4:
		if n == 0 {
			return 0.5
		}
		return float64(rapid.IntRange(0, n).Draw(t, "kn")) / float64(n)
	case 5:
		if n == 0 {
			return 0.01
		}
		p := float64(rapid.IntRange(0, n).Draw(t, "kn"))/float64(n) + rapid.SampledFrom([]float64{-0.002, 0.002, 1e-9, -1e-9}).Draw(t, "eps")
		return math.Min(1, math.Max(0, p))
	case 6:
		return rapid.SampledFrom([]float64{1e-300, 1e-9, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 1 - 1e-12}).Draw(t, "fraction")
	}
	return rapid.Float64Range(0, 1).Draw(t, "fraction")
}

func drawPick(t *rapid.T, k kind, n int, around []int) []int {
	pick := make([]int, n)
	off := rapid.IntRange(0, 100).Draw(t, "offset")
	for i := range pick {
		pick[i] = (i + off) % k.good
	}
	if n == 0 {
		return pick
	}
	bads := rapid.IntRange(0, 3).Draw(t, "broken")
	for b := 0; b < bads; b++ {
		var cand []int
		for _, a := range around {
			for _, x := range []int{a - 1, a, a + 1} {
				if x >= 0 && x < n {
					cand = append(cand, x)
				}
			}
		}
		i := 0
		if len(cand) > 0 && rapid.Bool().Draw(t, "near") {
			i = rapid.SampledFrom(cand).Draw(t, "at")
		} else {
			i = hk.Pos(t, "at", n)
		}
		pick[i] = -1 - rapid.IntRange(0, len(k.bad)-1).Draw(t, "how")
	}
	return pick
}

func TestLists(t *testing.T) {
	setup()
	if pools != "" {
		t.Fatal(pools)
	}
	hk.Check(t, 1200, 20000, func(t *rapid.T) {
		k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")]
		n := rapid.IntRange(0, 9).Draw(t, "n")
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			n = rapid.SampledFrom([]int{hk.Chunk - 1, hk.Chunk, hk.Chunk + 1, 2 * hk.Chunk, 2*hk.Chunk + 1, 250}).Draw(t, "nLong")
			if k.name == "shuffle" && n > 101 {
				n = 101
			}
		}
		p := drawFraction(t, n)
		e, f := ceilBoth(p, n)
		pick := drawPick(t, k, n, []int{e, f})
		valid := func(m int) bool {
			for _, x := range pick[:m] {
				if x < 0 {
					return false
				}
			}
			return true
		}
		want, other := valid(e), valid(f)
		firstBad := -1
		for i, x := range pick {
			if x < 0 {
				firstBad = i
				break
			}
		}
		cls := "all honest"
		if firstBad >= 0 {
			cls = "broken inside"
			if firstBad >= e {
				cls = "broken outside"
			}
		}
		hk.Case("list", fmt.Sprintf("%s n=%d fraction=%v pick=%v", k.name, n, p, short(pick)), n > 0 && p > 0, k.name, cls, hk.LenClass(n))
		got := hk.Verdict(t, k.name, func() bool { return k.verify(pick, p) })
		if got != want && got != other {
			t.Fatalf("%s: list of %d, first broken %d, fraction %v (%d proofs): verdict %v, want %v", k.name, n, firstBad, p, e, got, want)
		}
	})
}

func short(p []int) interface{} {
	if len(p) <= 12 {
		return p
	}
	bad := map[int]int{}
	for i, x := range p {
		if x < 0 {
			bad[i] = x
		}
	}
	return bad
}

func TestProtocol(t *testing.T) {
	setup()
	if pools != "" {
		t.Fatal(pools)
	}
	hk.Check(t, 250, 4000, func(t *rapid.T) {
		net := cl.Draw(t, 1, 4)
		h := net.Roster.Aggregate
		g := []libunlynxshuffle.PublishedShufflingProof{shuffleProof(h, 70)}
		bd := badShuffles(h, 71)
		sh := kind{"shuffle", 1, []string{"", "", "", ""}, nil}
		draw := func(name string, k kind) ([]int, bool) {
			n := rapid.IntRange(0, 3).Draw(t, name+"N")
			pick := make([]int, n)
			for i := range pick {
				pick[i] = i % k.good
			}
			ok := true
			if n > 0 && rapid.IntRange(0, 2).Draw(t, name+"Broken") == 0 {
				pick[rapid.IntRange(0, n-1).Draw(t, name+"At")] = -1 - rapid.IntRange(0, len(k.bad)-1).Draw(t, name+"How")
				ok = false
			}
			return pick, ok
		}
		want := make([]bool, 6)
		var ks, cr, ad, ag, shp, ca []int
		ks, want[0] = draw("ks", kinds[0])
		cr, want[1] = draw("cr", kinds[1])
		ad, want[2] = draw("ad", kinds[2])
		ag, want[3] = draw("ag", kinds[3])
		shp, want[4] = draw("sh", sh)
		ca, want[5] = draw("ca", kinds[3])
		target := protocolsunlynxutils.ProofsToVerify{
			KeySwitchingProofs:          ksList(ks),
			DetTagCreationProofs:        crList(cr),
			DetTagAdditionProofs:        adList(ad),
			AggregationProofs:           agList(ag),
			ShufflingProofs:             shuffleList(g, bd, shp),
			CollectiveAggregationProofs: agList(ca),
		}
		bad := 0
		for _, w := range want {
			if !w {
				bad++
			}
		}
		hk.Case("protocol", fmt.Sprint(net.Desc, " ks ", ks, " cr ", cr, " ad ", ad, " ag ", ag, " sh ", shp, " ca ", ca), len(ks)+len(cr)+len(ad)+len(ag)+len(shp)+len(ca) > 0, append(net.Classes(), fmt.Sprint("kinds broken=", bad))...)
		var got []bool
		net.MustRun(t, "vPV", func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
			pi.(*protocolsunlynxutils.ProofsVerificationProtocol).TargetOfVerification = target
		}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
			select {
			case got = <-pi.(*protocolsunlynxutils.ProofsVerificationProtocol).FeedbackChannel:
				return true
			case <-stop:
				return false
			}
		})
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("verdicts %v, want %v", got, want)
		}
	})
}
