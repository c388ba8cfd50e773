package c23

import (
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
		os.Exit(0)
	}
	hk.Main(m,
		"Histories of calls of every function that draws randomness (single and vector encryption with and without reported randomness, of integers, scalars, zeros and whole responses, sequentially and by several goroutines; shuffles; key-switch contributions; proofs; random scalars, keys, shares, permutations; precomputed lines), on values that repeat within and between calls. Every ephemeral point and scalar of the whole process is kept: none may be neutral or zero, occur twice, or differ from its predecessors by a repeated or small step; reported randomness must be the one used; no 32-byte block of a proof may occur in another proof of the same statement; every permutation of small sizes must occur and none of large ones twice. A second process started afresh must have nothing in common with the first. Protocol runs repeated on the same input must share no ciphertext. Non-trivial: a history that produces at least two ephemeral points.",
		"a coincidence of honest randomness has probability below 2^-80 and is ignored; deterministic tags are deterministic on purpose; precomputed shuffling lines are reused by design and only checked within one precomputation")
}

var B = libunlynx.SuiTe.Point().Base()

// book keeps everything that must be unique in this process.
type book struct {
	mu     sync.Mutex
	seen   map[string]string
	steps  map[string]string
	last   kyber.Point
	recent []kyber.Point
}

var all = &book{seen: map[string]string{}, steps: map[string]string{}}

var small = func() map[string]bool {
	m := map[string]bool{}
	p := libunlynx.SuiTe.Point().Null()
	for i := 0; i < 300; i++ {
		m[string(hk.PB(p))] = true
		m[string(hk.PB(libunlynx.SuiTe.Point().Neg(p)))] = true
		p = libunlynx.SuiTe.Point().Add(p, B)
	}
	return m
}()

// point enters an ephemeral point r*base.
func (b *book) point(t hk.TB, what string, p kyber.Point) {
	t.Helper()
	b.mu.Lock()
	defer b.mu.Unlock()
	k := string(hk.PB(p))
	if small[k] {
		t.Fatalf("%s: the ephemeral point is neutral or belongs to a tiny scalar", what)
	}
	if w, ok := b.seen[k]; ok {
		t.Fatalf("%s: ephemeral point already used by %s", what, w)
	}
	b.seen[k] = what
	if b.last != nil {
		d := libunlynx.SuiTe.Point().Sub(p, b.last)
		s := string(hk.PB(d))
		if small[s] {
			t.Fatalf("%s: the ephemeral scalar is the previous one plus a small step", what)
		}
		if w, ok := b.steps[s]; ok {
			t.Fatalf("%s: the step between two ephemeral scalars is the same as in %s", what, w)
		}
		b.steps[s] = what
	}
	b.last = p
}

func (b *book) scalar(t hk.TB, what string, s kyber.Scalar) {
	t.Helper()
	b.point(t, what, libunlynx.SuiTe.Point().Mul(s, nil))
}

// bytes enters a string that must be unique.
func (b *book) bytes(t hk.TB, what, k string) {
	t.Helper()
	b.mu.Lock()
	defer b.mu.Unlock()
	if w, ok := b.seen[what[:4]+k]; ok {
		t.Fatalf("%s: the same as in %s", what, w)
	}
	b.seen[what[:4]+k] = what
}

// opens fails unless c is an encryption of v with randomness r.
func opens(t hk.TB, what string, c libunlynx.CipherText, pub kyber.Point, v kyber.Point, r kyber.Scalar) {
	t.Helper()
	K := libunlynx.SuiTe.Point().Mul(r, nil)
	C := libunlynx.SuiTe.Point().Add(v, libunlynx.SuiTe.Point().Mul(r, pub))
	if !K.Equal(c.K) || !C.Equal(c.C) {
		t.Fatalf("%s: the reported randomness is not the one used", what)
	}
}

func vals(t *rapid.T, name string, max int) []int64 {
	n := hk.Len(t, name+"Len", 0, max)
	if rapid.Bool().Draw(t, name+"Same") {
		v := hk.Small(t, name+"V")
		out := make([]int64, n)
		for i := range out {
			out[i] = v
		}
		return out
	}
	return hk.Ints(t, name, n, hk.Small)
}

func TestEncryption(t *testing.T) {
	hk.Check(t, 200, 4000, func(t *rapid.T) {
		priv, pub := hk.KeyPair(t, "pub")
		ops := rapid.SliceOfN(rapid.IntRange(0, 8), 1, 5).Draw(t, "ops")
		desc := ""
		points := 0
		for o, op := range ops {
			name := fmt.Sprint("op", o)
			v := hk.Small(t, name+"v")
			switch op {
			case 0:
				for i := 0; i < 2; i++ {
					all.point(t, "EncryptInt", libunlynx.EncryptInt(pub, v).K)
				}
				points += 2
			case 1:
				c, r := libunlynx.EncryptIntGetR(pub, v)
				all.point(t, "EncryptIntGetR", c.K)
				opens(t, "EncryptIntGetR", *c, pub, hk.IntPoint(v), r)
				points++
			case 2:
				all.point(t, "EncryptScalar", libunlynx.EncryptScalar(pub, libunlynx.SuiTe.Scalar().SetInt64(v)).K)
				points++
			case 3:
				vs := vals(t, name, 250)
				for _, c := range *libunlynx.EncryptIntVector(pub, vs) {
					all.point(t, "EncryptIntVector", c.K)
				}
				points += len(vs)
			case 4:
				vs := vals(t, name, 250)
				cv, rs := libunlynx.EncryptIntVectorGetRs(pub, vs)
				if len(rs) != len(vs) || len(*cv) != len(vs) {
					t.Fatalf("EncryptIntVectorGetRs: %d ciphertexts and %d scalars for %d values", len(*cv), len(rs), len(vs))
				}
				for i, c := range *cv {
					all.point(t, "EncryptIntVectorGetRs", c.K)
					opens(t, fmt.Sprint("EncryptIntVectorGetRs element ", i), c, pub, hk.IntPoint(vs[i]), rs[i])
				}
				points += len(vs)
			case 5:
				vs := vals(t, name, 250)
				ss := make([]kyber.Scalar, len(vs))
				for i := range ss {
					ss[i] = libunlynx.SuiTe.Scalar().SetInt64(vs[i])
				}
				for _, c := range *libunlynx.EncryptScalarVector(pub, ss) {
					all.point(t, "EncryptScalarVector", c.K)
				}
				points += len(vs)
			case 6:
				n := hk.Len(t, name+"n", 0, 210)
				for _, c := range *libunlynx.NullCipherVector(n, pub) {
					all.point(t, "NullCipherVector", c.K)
				}
				points += n
			case 7: // a whole response
				resp := libunlynx.DpClearResponse{GroupByClear: map[string]int64{"x": v}, GroupByEnc: map[string]int64{}, WhereEnc: map[string]int64{}, AggregatingAttributesEnc: map[string]int64{}}
				for i := 0; i < rapid.IntRange(0, 3).Draw(t, name+"a"); i++ {
					resp.GroupByEnc[fmt.Sprint("g", i)] = v
				}
				for i := 0; i < rapid.IntRange(0, 3).Draw(t, name+"b"); i++ {
					resp.WhereEnc[fmt.Sprint("w", i)] = v
				}
				for i := 0; i < rapid.IntRange(0, 3).Draw(t, name+"c"); i++ {
					resp.AggregatingAttributesEnc[fmt.Sprint("s", i)] = v
				}
				count := rapid.Bool().Draw(t, name+"count")
				out, err := libunlynx.EncryptDpClearResponse(resp, pub, count)
				if err != nil {
					t.Fatalf("EncryptDpClearResponse: %v", err)
				}
				n := len(resp.GroupByEnc) + len(resp.WhereEnc) + len(resp.AggregatingAttributesEnc)
				if count {
					n++
				}
				got := 0
				for _, m := range []map[string][]byte{out.GroupByEnc, out.WhereEnc, out.AggregatingAttributesEnc} {
					var ks []string
					for k := range m {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						var c libunlynx.CipherText
						if err := c.FromBytes(m[k]); err != nil {
							t.Fatalf("EncryptDpClearResponse %s: %v", k, err)
						}
						want := v
						if k == "count" {
							want = 1
						}
						if !hk.DecryptsTo(priv, c, want) {
							t.Fatalf("EncryptDpClearResponse %s does not decrypt to %d", k, want)
						}
						all.point(t, "EncryptDpClearResponse "+k, c.K)
						got++
					}
				}
				points += got
				if got != n {
					t.Fatalf("EncryptDpClearResponse: %d of %d ciphertexts", got, n)
				}
			case 8: // at the same time
				n := rapid.IntRange(2, 6).Draw(t, name+"n")
				vs := vals(t, name, 30)
				out := make([]*libunlynx.CipherVector, n)
				var wg sync.WaitGroup
				for i := range out {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						out[i] = libunlynx.EncryptIntVector(pub, vs)
					}(i)
				}
				wg.Wait()
				for _, cv := range out {
					for _, c := range *cv {
						all.point(t, "concurrent EncryptIntVector", c.K)
					}
				}
				points += n * len(vs)
			}
			desc += fmt.Sprint(op, ":", v, " ")
		}
		hk.Case("encryption", fmt.Sprint(desc, "points ", points), points >= 2, fmt.Sprint("points=", bucket(points)))
	})
}

func bucket(n int) string {
	switch {
	case n < 2:
		return "<2"
	case n < 20:
		return "2-19"
	}
	return "20+"
}

func TestShuffleAndSwitch(t *testing.T) {
	hk.Check(t, 130, 2500, func(t *rapid.T) {
		_, H := hk.KeyPair(t, "h")
		priv, _ := hk.KeyPair(t, "p")
		rows, cols := rapid.IntRange(1, 6).Draw(t, "rows"), rapid.IntRange(1, 4).Draw(t, "cols")
		same := rapid.Bool().Draw(t, "same")
		var in []libunlynx.CipherVector
		var flat libunlynx.CipherVector
		var rbs []kyber.Point
		for i := 0; i < rows; i++ {
			row := hk.EncVec(H, make([]int64, cols))
			if same && i > 0 {
				row = hk.Copy(in[0])
			}
			in = append(in, row)
			flat = append(flat, row...)
		}
		for _, c := range flat {
			rbs = append(rbs, c.K)
		}
		long := rapid.IntRange(0, 9).Draw(t, "long") == 0
		if long {
			n := rapid.SampledFrom([]int{hk.Chunk, hk.Chunk + 1, 2*hk.Chunk + 3}).Draw(t, "n")
			for len(rbs) < n {
				rbs = append(rbs, rbs[0])
			}
		}
		hk.Case("shuffle and switch", fmt.Sprintf("%dx%d same %v long %v %x", rows, cols, same, long, hk.PB(H)[:6]), true)
		for rep := 0; rep < 2; rep++ {
			out, pi, beta := libunlynxshuffle.ShuffleSequence(hk.CopyM(in), B, H, nil)
			for i, r := range out {
				for j, c := range r {
					all.point(t, "shuffle", libunlynx.SuiTe.Point().Sub(c.K, in[pi[i]][j].K))
					all.bytes(t, "outK shuffle output", string(hk.PB(c.K)))
					all.bytes(t, "outC shuffle output", string(hk.PB(c.C)))
					if !libunlynx.SuiTe.Point().Mul(beta[pi[i]][j], nil).Equal(libunlynx.SuiTe.Point().Sub(c.K, in[pi[i]][j].K)) {
						t.Fatalf("shuffle: the reported scalar is not the one used")
					}
				}
			}
			_, Q := hk.KeyPair(t, "q")
			cv, ks2, neg, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, priv)
			if len(cv) != len(rbs) || len(ks2) != len(rbs) || len(neg) != len(rbs) || len(vis) != len(rbs) {
				t.Fatalf("key switch: lengths %d %d %d %d, want %d", len(cv), len(ks2), len(neg), len(vis), len(rbs))
			}
			for i := range cv {
				all.point(t, "key switch", cv[i].K)
				all.bytes(t, "ksC  key switch contribution", string(hk.PB(cv[i].C)))
				if !libunlynx.SuiTe.Point().Mul(vis[i], nil).Equal(cv[i].K) {
					t.Fatalf("key switch element %d: the reported blinding is not the one used", i)
				}
			}
			c, _, vi := libunlynxkeyswitch.KeySwitch(Q, rbs[0], priv)
			all.point(t, "single key switch", c.K)
			if !libunlynx.SuiTe.Point().Mul(vi, nil).Equal(c.K) {
				t.Fatalf("key switch: the reported blinding is not the one used")
			}
		}
	})
}

// blocks enters every 32-byte block of a proof.
func blocks(t hk.TB, what string, p []byte) {
	if len(p) < 64 {
		t.Fatalf("%s: a proof of %d bytes", what, len(p))
	}
	for i := 0; i+32 <= len(p); i += 32 {
		all.bytes(t, "blk  "+what, string(p[i:i+32]))
	}
}

func TestProofs(t *testing.T) {
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		k, K := hk.KeyPair(t, "k")
		s, _ := hk.KeyPair(t, "s")
		_, Q := hk.KeyPair(t, "q")
		n := rapid.IntRange(1, 4).Draw(t, "n")
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			n = hk.Chunk + 1
		}
		v := hk.Small(t, "v")
		var cv libunlynx.CipherVector
		c := hk.EncRef(K, v, hk.Scalar(t, "r"))
		same := rapid.Bool().Draw(t, "same")
		for i := 0; i < n; i++ {
			if !same {
				c = hk.Enc(K, v)
			}
			cv = append(cv, c)
		}
		hk.Case("proofs", fmt.Sprintf("n=%d v=%d same=%v %x", n, v, same, hk.PB(K)[:6]), true)
		var rbs []kyber.Point
		for _, c := range cv {
			rbs = append(rbs, c.K)
		}
		_, ks2, neg, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, k)
		aft := libunlynxdetertag.DeterministicTagSequence(cv, k, s)
		var added libunlynx.CipherVector
		for _, c := range cv {
			added = append(added, libunlynx.CipherText{K: c.K, C: libunlynx.SuiTe.Point().Add(c.C, libunlynx.SuiTe.Point().Mul(k, c.K))})
		}
		in := []libunlynx.CipherVector{cv, hk.Copy(cv)}
		out, pi, beta := libunlynxshuffle.ShuffleSequence(hk.CopyM(in), B, K, nil)
		for rep := 0; rep < 2; rep++ {
			l, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2, neg, vis)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for _, p := range l.List {
				blocks(t, "key switch proof", p.Proof)
			}
			d, err := libunlynxdetertag.DeterministicTagCrListProofCreation(cv, aft, K, k, s)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for _, p := range d.List {
				blocks(t, "tag creation proof", p.Proof)
			}
			var c1, c2, r []kyber.Point
			var ss []kyber.Scalar
			for _, c := range cv {
				sb := libunlynx.SuiTe.Point().Mul(s, nil)
				c1, c2, ss, r = append(c1, c.C), append(c2, sb), append(ss, s), append(r, libunlynx.SuiTe.Point().Add(c.C, sb))
			}
			a, err := libunlynxdetertag.DeterministicTagAdditionListProofCreation(c1, ss, c2, r)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for _, p := range a.List {
				blocks(t, "tag addition proof", p.Proof)
			}
			m, err := libunlynxaddrm.AddRmListProofCreation(cv, added, K, k, true)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for _, p := range m.List {
				blocks(t, "add/remove proof", p.Proof)
			}
			sh, err := libunlynxshuffle.ShuffleProofCreation(in, out, B, K, beta, pi)
			if err != nil {
				t.Fatalf("%v", err)
			}
			blocks(t, "shuffle proof", sh.HashProof)
		}
	})
}

func perm(t hk.TB, n int) []int {
	pi := libunlynx.RandomPermutation(n)
	seen := make([]bool, n)
	for _, p := range pi {
		if p < 0 || p >= n || seen[p] {
			t.Fatalf("%v is not a permutation of %d", pi, n)
		}
		seen[p] = true
	}
	if len(pi) != n {
		t.Fatalf("permutation of %d has %d elements", n, len(pi))
	}
	return pi
}

func TestScalarsAndPermutations(t *testing.T) {
	hk.Check(t, 150, 3000, func(t *rapid.T) {
		k := hk.Len(t, "k", 0, 250)
		hk.Case("scalars", fmt.Sprint("k=", k, " ", rapid.Uint32().Draw(t, "case")), k >= 2, hk.LenClass(k))
		for rep := 0; rep < 2; rep++ {
			ss := libunlynx.RandomScalarSlice(k)
			if len(ss) != k {
				t.Fatalf("RandomScalarSlice(%d) gives %d", k, len(ss))
			}
			for _, s := range ss {
				all.scalar(t, "RandomScalarSlice", s)
			}
			p := perm(t, k)
			if k >= 30 {
				all.bytes(t, "perm RandomPermutation", fmt.Sprint(p))
			}
		}
		n := rapid.IntRange(0, 4).Draw(t, "keys")
		group, privs, pubs := libunlynx.GenKeys(n)
		sum := libunlynx.SuiTe.Point().Null()
		for i := range pubs {
			all.point(t, "GenKeys", pubs[i])
			if !libunlynx.SuiTe.Point().Mul(privs[i], nil).Equal(pubs[i]) {
				t.Fatalf("GenKeys: key %d does not match", i)
			}
			sum = libunlynx.SuiTe.Point().Add(sum, pubs[i])
		}
		if !sum.Equal(group) {
			t.Fatalf("GenKeys: the group key is not the sum")
		}
		priv, pub := libunlynx.GenKey()
		all.point(t, "GenKey", pub)
		if n > 0 {
			for _, s := range libunlynx.SplitScalar(priv, n) {
				all.scalar(t, "SplitScalar", s)
			}
		}
		// precomputed lines of one precomputation
		_, H := hk.KeyPair(t, "h")
		lineSize, lines := rapid.IntRange(0, 6).Draw(t, "lineSize"), rapid.IntRange(0, 5).Draw(t, "lines")
		secret := libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.RandomStream())
		var pre []libunlynxshuffle.CipherVectorScalar
		if rapid.Bool().Draw(t, "seeded") {
			var err error
			if pre, err = libunlynxshuffle.PrecomputationWritingForShuffling(false, "", "server", secret, H, lineSize); err != nil {
				t.Fatalf("precomputation: %v", err)
			}
			if len(pre) == 0 {
				t.Fatalf("no precomputed lines")
			}
		} else {
			pre = libunlynxshuffle.CreatePrecomputedRandomize(B, H, libunlynx.SuiTe.RandomStream(), lineSize, lines)
		}
		for _, l := range pre {
			if len(l.S) < lineSize || len(l.S) != len(l.CipherV) {
				t.Fatalf("a precomputed line has %d scalars and %d ciphertexts for a size of %d", len(l.S), len(l.CipherV), lineSize)
			}
			for j, s := range l.S {
				all.scalar(t, "precomputed", s)
				if !libunlynx.SuiTe.Point().Mul(s, nil).Equal(l.CipherV[j].K) || !libunlynx.SuiTe.Point().Mul(s, H).Equal(l.CipherV[j].C) {
					t.Fatalf("precomputed element %d is not the encryption of zero with its scalar", j)
				}
			}
		}
	})
}

// Every permutation of a small size occurs, each value at each position about
// as often as the others.
func TestPermutationCoverage(t *testing.T) {
	const runs = 3000
	for n := 1; n <= 7; n++ {
		count := map[string]int{}
		at := make([][]int, n)
		for i := range at {
			at[i] = make([]int, n)
		}
		for i := 0; i < runs; i++ {
			p := perm(t, n)
			count[fmt.Sprint(p)]++
			for j, v := range p {
				at[j][v]++
			}
		}
		hk.Case("permutation coverage", fmt.Sprint("n=", n, " runs=", runs), n > 1)
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		if n <= 4 && len(count) != f {
			t.Fatalf("only %d of %d permutations of %d occur in %d runs", len(count), f, n, runs)
		}
		for j := range at {
			for v, c := range at[j] {
				if c < runs/n/3 || c > runs/n*3 {
					t.Fatalf("size %d: value %d is at position %d in %d of %d runs", n, v, j, c, runs)
				}
			}
		}
	}
}

func TestProtocols(t *testing.T) {
	hk.Check(t, 35, 600, func(t *rapid.T) {
		n := cl.Draw(t, 1, 6)
		_, Q := hk.KeyPair(t, "q")
		size := rapid.IntRange(1, 4).Draw(t, "size")
		cv := hk.EncVec(n.Roster.Aggregate, make([]int64, size))
		m := []libunlynx.CipherVector{cv, hk.Copy(cv)}
		hk.Case("protocols", fmt.Sprintf("%s, %d elements", n.Desc, size), true, n.Classes()...)
		for rep := 0; rep < 2; rep++ {
			proofs := rapid.Bool().Draw(t, fmt.Sprint("proofs", rep))
			out, calls := n.Again().KeySwitch(t, hk.Copy(cv), Q, proofs)
			for _, c := range out {
				all.point(t, "key switch run", c.K)
			}
			if len(n.Roster.List) > 1 { // with one server its blinding is the result's
				for _, k := range calls {
					for _, v := range k.Vis {
						all.scalar(t, "key switch run, blinding", v)
					}
				}
			}
			sh, _ := n.Again().Shuffle(t, hk.CopyM(m), nil, proofs, n.Roster.Aggregate)
			for _, r := range sh {
				for _, c := range r {
					all.point(t, "shuffle run", c.K)
					all.bytes(t, "outC shuffle run", string(hk.PB(c.C)))
				}
			}
		}
	})
}

// child prints randomness of a fresh process.
func child() {
	_, pub := libunlynx.GenKey()
	fmt.Println("V key", hex.EncodeToString(hk.PB(pub)))
	fixed := libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(12345), nil)
	for i := 0; i < 3; i++ {
		fmt.Println("V enc", hex.EncodeToString(hk.PB(libunlynx.EncryptInt(fixed, 7).K)))
	}
	for _, c := range *libunlynx.EncryptIntVector(fixed, []int64{1, 1, 1}) {
		fmt.Println("V vec", hex.EncodeToString(hk.PB(c.K)))
	}
	for _, s := range libunlynx.RandomScalarSlice(4) {
		fmt.Println("V scalar", s)
	}
	fmt.Println("V perm", strings.ReplaceAll(fmt.Sprint(libunlynx.RandomPermutation(40)), " ", ","))
	in := []libunlynx.CipherVector{{hk.EncRef(fixed, 1, libunlynx.SuiTe.Scalar().SetInt64(5))}, {hk.EncRef(fixed, 2, libunlynx.SuiTe.Scalar().SetInt64(6))}}
	out, _, _ := libunlynxshuffle.ShuffleSequence(in, B, fixed, nil)
	for _, r := range out {
		fmt.Println("V shuffle", hex.EncodeToString(hk.CB(r[0])))
	}
	k := libunlynx.SuiTe.Scalar().SetInt64(99)
	cv, ks2, neg, vis := libunlynxkeyswitch.KeySwitchSequence(fixed, []kyber.Point{fixed, B}, k)
	for _, c := range cv {
		fmt.Println("V switch", hex.EncodeToString(hk.CB(c)))
	}
	l, err := libunlynxkeyswitch.KeySwitchListProofCreation(libunlynx.SuiTe.Point().Mul(k, nil), fixed, k, ks2, neg, vis)
	if err == nil {
		fmt.Println("V proof", hex.EncodeToString(l.List[0].Proof))
	}
	for _, line := range libunlynxshuffle.CreatePrecomputedRandomize(B, fixed, libunlynx.SuiTe.RandomStream(), 2, 2) {
		fmt.Println("V precomputed", line.S[0], line.S[1])
	}
}

func TestProcesses(t *testing.T) {
	seen := map[string]int{}
	runs := 4
	if hk.Thorough() {
		runs = 40
	}
	for i := 0; i < runs; i++ {
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
		b, err := cmd.Output()
		if err != nil {
			hk.Infra("starting a process: %v", err)
		}
		n := 0
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "V ") {
				continue
			}
			n++
			if j, ok := seen[l]; ok && j != i {
				t.Fatalf("processes %d and %d, started afresh, both produce: %s", j, i, l)
			} else if ok {
				t.Fatalf("process %d produces twice: %s", i, l)
			}
			seen[l] = i
		}
		if n < 15 {
			t.Fatalf("process %d reported %d values only: %s", i, n, b)
		}
		hk.Case("processes", fmt.Sprint("process ", i, " values ", n), true)
	}
}
