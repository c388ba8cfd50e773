package c01

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_HELPER") == "history" {
		helper()
		return
	}
	hk.Main(m,
		"Generated key pairs, integers, vectors (lengths around the work-chunk size) and decryption histories; every history runs in a fresh process so that the shared decryption table starts empty. Non-trivial: the case decrypts at least two different non-zero values, or a vector of at least two elements, or handles several keys.",
		"the group law and the scalar arithmetic of kyber are correct",
		"plain decryption of a negative plaintext is unspecified and not asserted")
}

// ---------------------------------------------------------------- histories

// Op is one step of a history: decrypt the given values (sequentially, or by
// one goroutine each) with one of the decryption functions.
type Op struct {
	Kind string  // plain, neg, zero, plainvec, negvec, zerovec, table
	Vals []int64 // plaintexts
	Par  bool
}

// Hist is a decryption history in a fresh process.
type Hist struct {
	Key []byte
	Ops []Op
}

func keyOf(seed []byte) (kyber.Scalar, kyber.Point) {
	s := libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.XOF(append([]byte("key"), seed...)))
	return s, libunlynx.SuiTe.Point().Mul(s, nil)
}

func helper() {
	var h Hist
	if err := json.NewDecoder(os.Stdin).Decode(&h); err != nil {
		fmt.Println("helper:", err)
		os.Exit(3)
	}
	priv, pub := keyOf(h.Key)
	var res [][]int64
	for _, op := range h.Ops {
		out := make([]int64, len(op.Vals))
		one := func(i int) {
			ct := *libunlynx.EncryptInt(pub, op.Vals[i])
			switch op.Kind {
			case "plain":
				out[i] = libunlynx.DecryptInt(priv, ct)
			case "neg":
				out[i] = libunlynx.DecryptIntWithNeg(priv, ct)
			case "zero":
				out[i] = libunlynx.DecryptCheckZero(priv, ct)
			case "plainvec":
				out[i] = libunlynx.DecryptIntVector(priv, &libunlynx.CipherVector{ct})[0]
			case "negvec":
				out[i] = libunlynx.DecryptIntVectorWithNeg(priv, &libunlynx.CipherVector{ct})[0]
			case "zerovec":
				out[i] = libunlynx.DecryptCheckZeroVector(priv, &libunlynx.CipherVector{ct})[0]
			case "table":
				libunlynx.CreateDecryptionTable(op.Vals[i], pub, priv)
				out[i] = op.Vals[i]
			}
		}
		if op.Par {
			var wg sync.WaitGroup
			for i := range op.Vals {
				wg.Add(1)
				go func(i int) { defer wg.Done(); one(i) }(i)
			}
			wg.Wait()
		} else {
			for i := range op.Vals {
				one(i)
			}
		}
		res = append(res, out)
	}
	b, _ := json.Marshal(res)
	os.Stdout.WriteString("\nRESULT " + string(b) + "\n")
}

func runHist(t hk.TB, h Hist) [][]int64 {
	in, _ := json.Marshal(h)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_HELPER=history", "VERIF_STATS=", "VERIF_JOURNAL=")
	cmd.Stdin = bytes.NewReader(in)
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	i := bytes.LastIndex(out, []byte("RESULT "))
	if err != nil || i < 0 {
		t.Fatalf("the process decrypting history %s failed: %v\n%s", in, err, tail(se.String()))
	}
	var res [][]int64
	if err := json.Unmarshal(bytes.TrimSpace(out[i+7:]), &res); err != nil {
		hk.Infra("helper output: %v", err)
	}
	return res
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

func want(kind string, v int64) int64 {
	if kind == "zero" || kind == "zerovec" {
		if v == 0 {
			return 0
		}
		return 1
	}
	return v
}

// genOp draws a step; a value may be a neighbour of one decrypted before.
func genOp(t *rapid.T, i int, max int, seen *[]int64) Op {
	kind := rapid.SampledFrom([]string{"plain", "neg", "neg", "negvec", "plainvec", "zero", "zerovec", "table"}).Draw(t, fmt.Sprintf("kind%d", i))
	n := rapid.IntRange(1, 5).Draw(t, fmt.Sprintf("n%d", i))
	lo := 0
	if kind != "plain" && kind != "plainvec" && kind != "table" {
		lo = -max
	}
	g := rapid.OneOf(rapid.IntRange(lo, max), rapid.IntRange(lo/20, max/20))
	op := Op{Kind: kind, Par: rapid.Bool().Draw(t, fmt.Sprintf("par%d", i))}
	for j := 0; j < n; j++ {
		v := int64(g.Draw(t, fmt.Sprintf("v%d_%d", i, j)))
		if len(*seen) > 0 && rapid.IntRange(0, 1).Draw(t, "near") == 0 {
			v = rapid.SampledFrom(*seen).Draw(t, "of") + int64(rapid.IntRange(-2, 3).Draw(t, "off"))
			if rapid.IntRange(0, 3).Draw(t, "flip") == 0 {
				v = -v
			}
			if v < int64(lo) {
				v = -v
			}
		}
		*seen = append(*seen, v)
		op.Vals = append(op.Vals, v)
	}
	return op
}

func checkHist(t *rapid.T, name string, h Hist) {
	distinct := map[int64]bool{}
	hasNeg, hasPar, kinds := false, false, map[string]bool{}
	for _, op := range h.Ops {
		kinds[op.Kind] = true
		hasPar = hasPar || (op.Par && len(op.Vals) > 1)
		for _, v := range op.Vals {
			if v != 0 {
				distinct[v] = true
			}
			hasNeg = hasNeg || v < 0
		}
	}
	cl := []string{fmt.Sprintf("ops=%d", len(h.Ops))}
	if hasNeg {
		cl = append(cl, "negative")
	}
	if hasPar {
		cl = append(cl, "concurrent")
	}
	for k := range kinds {
		cl = append(cl, "op="+k)
	}
	hk.Case(name, fmt.Sprintf("%v", h.Ops), len(distinct) >= 2, cl...)
	res := runHist(t, h)
	for i, op := range h.Ops {
		for j, v := range op.Vals {
			if res[i][j] != want(op.Kind, v) {
				t.Fatalf("history %+v: step %d (%s) of plaintext %d gave %d", h.Ops, i, op.Kind, v, res[i][j])
			}
		}
	}
}

func TestDecryptionHistories(t *testing.T) {
	hk.Check(t, 80, 1200, func(t *rapid.T) {
		max := rapid.SampledFrom([]int{3, 20, 300, 2500, 9000}).Draw(t, "max")
		var seen []int64
		h := Hist{Key: rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "key")}
		n := rapid.IntRange(1, 6).Draw(t, "ops")
		for i := 0; i < n; i++ {
			h.Ops = append(h.Ops, genOp(t, i, max, &seen))
		}
		checkHist(t, "DecryptionHistories", h)
	})
}

// The far end of the supported range.
func TestDecryptionRangeEnd(t *testing.T) {
	hk.Check(t, 4, 24, func(t *rapid.T) {
		h := Hist{Key: rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "key")}
		top := int(libunlynx.MaxHomomorphicInt) - 1
		n := rapid.IntRange(1, 3).Draw(t, "ops")
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom([]string{"neg", "plain", "plainvec", "negvec"}).Draw(t, fmt.Sprintf("kind%d", i))
			v := int64(rapid.OneOf(rapid.Just(top-1), rapid.IntRange(top-50, top-1), rapid.IntRange(8, top-1)).Draw(t, fmt.Sprintf("v%d", i)))
			if (kind == "neg" || kind == "negvec") && rapid.Bool().Draw(t, fmt.Sprintf("s%d", i)) {
				v = -v
			}
			h.Ops = append(h.Ops, Op{Kind: kind, Vals: []int64{v, v / 2, v - int64(rapid.IntRange(-1, 1).Draw(t, "near")), v/2 + int64(rapid.IntRange(-2, 3).Draw(t, "nearHalf"))}})
		}
		checkHist(t, "DecryptionRangeEnd", h)
	})
}

// ---------------------------------------------------------------- vectors

func TestVectors(t *testing.T) {
	hk.Check(t, 50, 1200, func(t *rapid.T) {
		priv, pub := hk.KeyPair(t, "key")
		n := hk.Len(t, "n", 0, 250)
		neg := rapid.Bool().Draw(t, "neg")
		vs := hk.Ints(t, "v", n, hk.Small)
		if neg {
			for i := range vs {
				if i%3 == 1 {
					vs[i] = -vs[i]
				}
			}
		}
		for _, how := range []string{"vector", "vectorR", "single", "scalars", "null", "clear"} {
			oneVector(t, how, priv, pub, vs, neg)
		}
	})
}

func oneVector(t *rapid.T, how string, priv kyber.Scalar, pub kyber.Point, all []int64, neg bool) {
	vs := append([]int64{}, all...)
	n := len(vs)
	{
		cl := []string{"how=" + how, hk.LenClass(n)}
		if neg {
			cl = append(cl, "negative")
		}
		hk.Case("Vectors", fmt.Sprintf("%s n=%d neg=%v %v", how, n, neg, head(vs)), n >= 2, cl...)
		in := append([]int64{}, vs...)
		var cv libunlynx.CipherVector
		switch how {
		case "vector":
			cv = *libunlynx.EncryptIntVector(pub, vs)
		case "vectorR":
			p, rs := libunlynx.EncryptIntVectorGetRs(pub, vs)
			cv = *p
			if len(rs) != n {
				t.Fatalf("%d random values for %d elements", len(rs), n)
			}
			for i := range rs {
				if !hk.EncRef(pub, vs[i], rs[i]).K.Equal(cv[i].K) || !hk.EncRef(pub, vs[i], rs[i]).C.Equal(cv[i].C) {
					t.Fatalf("element %d is not the encryption of %d with the returned randomness", i, vs[i])
				}
			}
		case "single":
			cv = make(libunlynx.CipherVector, n)
			for i := range vs {
				cv[i] = *libunlynx.EncryptInt(pub, vs[i])
			}
		case "scalars":
			ss := make([]kyber.Scalar, n)
			for i := range vs {
				ss[i] = libunlynx.SuiTe.Scalar().SetInt64(vs[i])
			}
			cv = *libunlynx.EncryptScalarVector(pub, ss)
			for i := range vs {
				if !ss[i].Equal(libunlynx.SuiTe.Scalar().SetInt64(vs[i])) {
					t.Fatalf("scalar %d was changed by encrypting it", i)
				}
			}
		case "null":
			cv = *libunlynx.NullCipherVector(n, pub)
			for i := range vs {
				vs[i] = 0
			}
			in = append([]int64{}, vs...)
		case "clear":
			cv = libunlynx.IntArrayToCipherVector(vs)
			for i := range vs {
				one := libunlynx.IntToCipherText(vs[i])
				if !one.Equal(&cv[i]) {
					t.Fatalf("element %d: single and vector clear encodings differ", i)
				}
			}
		}
		if !hk.SameInts(in, vs) {
			t.Fatalf("the plaintext slice was changed")
		}
		if d := hk.VecDecryptsTo(priv, cv, vs); d != "" {
			t.Fatalf("%s of %v: %s", how, head(vs), d)
		}
		before := hk.VB(cv)
		got := libunlynx.DecryptIntVectorWithNeg(priv, &cv)
		if !hk.SameInts(got, vs) {
			t.Fatalf("%s: sign-aware decryption of %v gave %v", how, head(vs), head(got))
		}
		if !neg || how == "null" {
			if got := libunlynx.DecryptIntVector(priv, &cv); !hk.SameInts(got, vs) {
				t.Fatalf("%s: decryption of %v gave %v", how, head(vs), head(got))
			}
		}
		z := libunlynx.DecryptCheckZeroVector(priv, &cv)
		if len(z) != n {
			t.Fatalf("zero test of %d elements gave %d", n, len(z))
		}
		for i := range z {
			if (z[i] == 0) != (vs[i] == 0) {
				t.Fatalf("%s: zero test of %d gave %d", how, vs[i], z[i])
			}
		}
		if !bytes.Equal(before, hk.VB(cv)) {
			t.Fatalf("decryption changed the ciphertexts")
		}
	}
}

func head(v []int64) []int64 {
	if len(v) > 8 {
		return v[:8]
	}
	return v
}

// ---------------------------------------------------------------- keys

func TestKeysAndSplitting(t *testing.T) {
	hk.Check(t, 150, 4000, func(t *rapid.T) {
		n := rapid.IntRange(0, 9).Draw(t, "keys")
		v := int64(rapid.IntRange(-2000, 2000).Draw(t, "v"))
		k := rapid.IntRange(0, 12).Draw(t, "splits")
		hk.Case("KeysAndSplitting", fmt.Sprintf("keys=%d v=%d splits=%d", n, v, k), n >= 2 && k >= 1, fmt.Sprintf("keys=%d", n), fmt.Sprintf("splits=%d", k))
		group, priv, pub := libunlynx.GenKeys(n)
		if len(priv) != n || len(pub) != n {
			t.Fatalf("GenKeys(%d) returned %d/%d keys", n, len(priv), len(pub))
		}
		sum := libunlynx.SuiTe.Scalar().Zero()
		sumP := libunlynx.SuiTe.Point().Null()
		for i := range priv {
			if !libunlynx.SuiTe.Point().Mul(priv[i], nil).Equal(pub[i]) {
				t.Fatalf("key pair %d does not match", i)
			}
			for j := 0; j < i; j++ {
				if priv[i].Equal(priv[j]) {
					t.Fatalf("keys %d and %d are the same", i, j)
				}
			}
			sum.Add(sum, priv[i])
			sumP.Add(sumP, pub[i])
		}
		if !sumP.Equal(group) {
			t.Fatalf("the group key is not the sum of the keys")
		}
		ct := *libunlynx.EncryptInt(group, v)
		if !hk.DecryptsTo(sum, ct, v) || libunlynx.DecryptIntWithNeg(sum, ct) != v {
			t.Fatalf("%d under the group key does not decrypt with the sum of the secrets", v)
		}
		p1, q1 := libunlynx.GenKey()
		if !libunlynx.SuiTe.Point().Mul(p1, nil).Equal(q1) {
			t.Fatalf("GenKey returned keys that do not match")
		}
		sc := hk.Scalar(t, "scalar")
		es := libunlynx.EncryptScalar(group, sc)
		if !hk.DecPoint(sum, *es).Equal(libunlynx.SuiTe.Point().Mul(sc, nil)) {
			t.Fatalf("scalar encryption does not decrypt to the scalar's point")
		}
		root := sc.Clone()
		parts := libunlynx.SplitScalar(sc, k)
		if !sc.Equal(root) {
			t.Fatalf("splitting a scalar changed the caller's scalar")
		}
		if len(parts) != k+1 {
			t.Fatalf("SplitScalar(_, %d) returned %d shares", k, len(parts))
		}
		acc := libunlynx.SuiTe.Scalar().Zero()
		for i, x := range parts {
			acc.Add(acc, x)
			for j := 0; j < i; j++ {
				if x.Equal(parts[j]) {
					t.Fatalf("shares %d and %d are the same", i, j)
				}
			}
		}
		if !acc.Equal(root) {
			t.Fatalf("the shares of a split scalar do not add up to it")
		}
		pt := libunlynx.PointToCipherText(hk.IntPoint(v))
		if !hk.DecryptsTo(sum, pt, v) || !hk.IntPoint(v).Equal(libunlynx.IntToPoint(v)) {
			t.Fatalf("clear encoding of %d does not decrypt to it", v)
		}
	})
}
