package c02

import (
	"bytes"
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Generated programs over a pool of ciphertext vectors (add, subtract, multiply by a scalar, accumulate, with the destination aliasing operands or not), checked after every step against the same program on plaintext scalars; generated pairs of values for equality; generated sequences of merges into a group table against a map of sums. Non-trivial: at least two operations on vectors of at least one element (programs), vectors of at least one element (equality), at least two merges into one group (tables).",
		"the group law of kyber is correct",
		"both operands of a vector operation have the length of the destination")
}

type vec struct {
	cv libunlynx.CipherVector
	m  []kyber.Scalar // plaintexts
	b  []byte         // bytes when last written
}

func sc(v int64) kyber.Scalar { return libunlynx.SuiTe.Scalar().SetInt64(v) }

func ok(priv kyber.Scalar, c libunlynx.CipherText, m kyber.Scalar) bool {
	return hk.DecPoint(priv, c).Equal(libunlynx.SuiTe.Point().Mul(m, nil))
}

func TestPrograms(t *testing.T) {
	hk.Check(t, 150, 1500, func(t *rapid.T) {
		priv, pub := hk.KeyPair(t, "key")
		n := hk.Len(t, "n", 0, 230)
		k := rapid.IntRange(2, 4).Draw(t, "pool")
		pool := make([]*vec, k)
		for i := range pool {
			vs := hk.Ints(t, fmt.Sprintf("v%d", i), n, func(t *rapid.T, s string) int64 {
				return int64(rapid.IntRange(-3000, 3000).Draw(t, s))
			})
			v := &vec{cv: hk.EncVec(pub, vs)}
			for _, x := range vs {
				v.m = append(v.m, sc(x))
			}
			v.b = hk.VB(v.cv)
			pool[i] = v
		}
		packed := rapid.Bool().Draw(t, "packed")
		if packed {
			var vs []*libunlynx.CipherVector
			for _, v := range pool {
				vs = append(vs, &v.cv)
			}
			hk.Pack(vs...)
		}
		maxSteps := 8
		if n > 50 {
			maxSteps = 3
		}
		steps := rapid.IntRange(1, maxSteps).Draw(t, "steps")
		desc, alias := "", false
		type res struct{ err string }
		var failure string
		for s := 0; s < steps && failure == ""; s++ {
			nm := func(x string) string { return fmt.Sprintf("%s%d", x, s) }
			op := rapid.SampledFrom([]string{"add", "sub", "mul", "acum", "add1", "sub1", "copy", "append"}).Draw(t, nm("op"))
			a := rapid.IntRange(0, k-1).Draw(t, nm("a"))
			b := rapid.IntRange(0, k-1).Draw(t, nm("b"))
			d := rapid.IntRange(0, k-1).Draw(t, nm("d"))
			desc += fmt.Sprintf(" %s(%d,%d)->%d", op, a, b, d)
			alias = alias || d == a || d == b || a == b
			A, B, D := pool[a], pool[b], pool[d]
			newm := append([]kyber.Scalar{}, D.m...)
			changed := true
			switch op {
			case "add", "sub":
				for i := range newm {
					if op == "add" {
						newm[i] = libunlynx.SuiTe.Scalar().Add(A.m[i], B.m[i])
					} else {
						newm[i] = libunlynx.SuiTe.Scalar().Sub(A.m[i], B.m[i])
					}
				}
				if op == "add" {
					D.cv.Add(A.cv, B.cv)
				} else {
					D.cv.Sub(A.cv, B.cv)
				}
			case "mul":
				var x kyber.Scalar
				if rapid.Bool().Draw(t, nm("sm")) {
					x = sc(int64(rapid.IntRange(-5, 5).Draw(t, nm("x"))))
				} else {
					x = hk.Scalar(t, nm("x"))
				}
				xb := x.Clone()
				for i := range newm {
					newm[i] = libunlynx.SuiTe.Scalar().Mul(A.m[i], x)
					D.cv[i].MulCipherTextbyScalar(A.cv[i], x)
				}
				if !x.Equal(xb) {
					failure = "the scalar was changed by the multiplication"
				}
			case "copy": // of the values, which share the points
				D.cv = append(libunlynx.CipherVector{}, A.cv...)
				copy(newm, A.m)
				alias = true
			case "append": // in a slice with spare capacity
				D.cv = append(make(libunlynx.CipherVector, 0, n+7), A.cv...)
				copy(newm, A.m)
				alias = true
			case "acum":
				changed = false
				want := libunlynx.SuiTe.Scalar().Zero()
				for _, m := range A.m {
					want.Add(want, m)
				}
				got := A.cv.Acum()
				if !ok(priv, got, want) {
					failure = "accumulation is not the sum of the elements"
				}
			default: // one element only, possibly within the same vector
				if n == 0 {
					changed = false
					break
				}
				i := rapid.IntRange(0, n-1).Draw(t, nm("i"))
				j := rapid.IntRange(0, n-1).Draw(t, nm("j"))
				l := rapid.IntRange(0, n-1).Draw(t, nm("l"))
				if op == "add1" {
					newm[l] = libunlynx.SuiTe.Scalar().Add(A.m[i], B.m[j])
					D.cv[l].Add(A.cv[i], B.cv[j])
				} else {
					newm[l] = libunlynx.SuiTe.Scalar().Sub(A.m[i], B.m[j])
					D.cv[l].Sub(A.cv[i], B.cv[j])
				}
			}
			if changed {
				D.m = newm
				D.b = hk.VB(D.cv)
				if len(D.cv) != n {
					failure = fmt.Sprintf("the destination has %d elements instead of %d", len(D.cv), n)
				}
				for i := 0; i < len(D.cv) && failure == ""; i++ {
					if !ok(priv, D.cv[i], D.m[i]) {
						failure = fmt.Sprintf("element %d of the result does not decrypt to the result on plaintexts", i)
					}
				}
			}
			for i, p := range pool {
				if !bytes.Equal(p.b, hk.VB(p.cv)) {
					failure = fmt.Sprintf("vector %d, which is not the destination, was changed", i)
				}
			}
		}
		cl := []string{hk.LenClass(n), fmt.Sprintf("steps=%d", steps)}
		if alias {
			cl = append(cl, "aliased")
		}
		hk.Case("Programs", fmt.Sprintf("n=%d%s", n, desc), n > 0 && steps > 1, cl...)
		if failure != "" {
			t.Fatalf("n=%d, after%s: %s", n, desc, failure)
		}
	})
}

// TestLengths: any length, with ciphertexts that are cheap to make, against
// sums of the single points.
func TestLengths(t *testing.T) {
	s := libunlynx.SuiTe
	hk.Check(t, 150, 3000, func(t *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(0, 460), rapid.IntRange(0, 1100)).Draw(t, "n")
		if rapid.Bool().Draw(t, "nearChunk") {
			n = hk.Chunk*rapid.IntRange(1, 5).Draw(t, "chunks") + rapid.IntRange(-2, 3).Draw(t, "off")
		}
		one, two := s.Point().Mul(hk.Scalar(t, "one"), nil), s.Point().Mul(hk.Scalar(t, "two"), nil)
		make1 := func(step kyber.Point) libunlynx.CipherVector {
			out := make(libunlynx.CipherVector, n)
			p, q := step.Clone(), s.Point().Add(step, step)
			for i := range out {
				out[i] = libunlynx.CipherText{K: p.Clone(), C: q.Clone()}
				p.Add(p, step)
				q.Add(q, p)
			}
			return out
		}
		a, b := make1(one), make1(two)
		ab, bb := hk.VB(a), hk.VB(b)
		hk.Case("Lengths", fmt.Sprint("n=", n), n > 1, hk.LenClass(n))
		k, c := s.Point().Null(), s.Point().Null()
		sum, diff := libunlynx.NewCipherVector(n), libunlynx.NewCipherVector(n)
		sum.Add(a, b)
		diff.Sub(a, b)
		if len(*sum) != n || len(*diff) != n {
			t.Fatalf("sums of %d elements have %d and %d", n, len(*sum), len(*diff))
		}
		for i := range a {
			k.Add(k, a[i].K)
			c.Add(c, a[i].C)
			if !(*sum)[i].K.Equal(s.Point().Add(a[i].K, b[i].K)) || !(*sum)[i].C.Equal(s.Point().Add(a[i].C, b[i].C)) {
				t.Fatalf("addition of %d elements: element %d is wrong", n, i)
			}
			if !(*diff)[i].K.Equal(s.Point().Sub(a[i].K, b[i].K)) || !(*diff)[i].C.Equal(s.Point().Sub(a[i].C, b[i].C)) {
				t.Fatalf("subtraction of %d elements: element %d is wrong", n, i)
			}
		}
		if g := a.Acum(); !g.K.Equal(k) || !g.C.Equal(c) {
			t.Fatalf("accumulation of %d elements is not their sum", n)
		}
		cp := recodeAll(a)
		if !a.Equal(&cp) {
			t.Fatalf("a vector of %d elements is not equal to itself", n)
		}
		if n > 0 {
			i := rapid.IntRange(0, n-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "last") {
				i = n - 1
			}
			if rapid.Bool().Draw(t, "K") {
				cp[i].K = s.Point().Add(cp[i].K, one)
			} else {
				cp[i].C = s.Point().Add(cp[i].C, one)
			}
			if a.Equal(&cp) || cp.Equal(&a) {
				t.Fatalf("vectors of %d elements that differ at %d are equal", n, i)
			}
		}
		if !bytes.Equal(ab, hk.VB(a)) || !bytes.Equal(bb, hk.VB(b)) {
			t.Fatalf("operations on %d elements changed their operands", n)
		}
	})
}

func recodeAll(v libunlynx.CipherVector) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(v))
	for i := range v {
		out[i] = libunlynx.CipherText{K: v[i].K.Clone(), C: v[i].C.Clone()}
	}
	return out
}

// same value in another representation of the points
func recode(c libunlynx.CipherText) libunlynx.CipherText {
	k, p := libunlynx.SuiTe.Point(), libunlynx.SuiTe.Point()
	if k.UnmarshalBinary(hk.PB(c.K)) != nil || p.UnmarshalBinary(hk.PB(c.C)) != nil {
		hk.Infra("point does not round-trip")
	}
	return libunlynx.CipherText{K: k, C: p}
}

func TestEquality(t *testing.T) {
	hk.Check(t, 150, 3000, func(t *rapid.T) {
		_, pub := hk.KeyPair(t, "key")
		n := hk.Len(t, "n", 0, 210)
		vs := hk.Ints(t, "v", n, hk.Small)
		a := hk.EncVec(pub, vs)
		b := make(libunlynx.CipherVector, n)
		da, db := make(libunlynx.DeterministCipherVector, n), make(libunlynx.DeterministCipherVector, n)
		for i := range a {
			b[i] = recode(a[i])
			da[i], db[i] = libunlynx.DeterministCipherText{Point: a[i].C}, libunlynx.DeterministCipherText{Point: b[i].C}
		}
		how := rapid.SampledFrom([]string{"same", "K", "C", "shorter", "longer", "swap"}).Draw(t, "how")
		i := 0
		if n > 0 {
			i = rapid.IntRange(0, n-1).Draw(t, "at")
		} else if how == "K" || how == "C" || how == "shorter" || how == "swap" {
			how = "same"
		}
		want, wantD := true, true
		other := hk.EncRef(pub, 7, hk.Scalar(t, "r"))
		switch how {
		case "K":
			b[i].K = other.K
			want = false
		case "C":
			b[i].C = other.C
			db[i].Point = other.C
			want, wantD = false, false
		case "shorter":
			b, db = b[:n-1], db[:n-1]
			want, wantD = false, false
		case "longer":
			b, db = append(b, other), append(db, libunlynx.DeterministCipherText{Point: other.C})
			want, wantD = false, false
		case "swap":
			if n < 2 {
				how = "same"
				break
			}
			j := (i + 1) % n
			b[i], b[j] = b[j], b[i]
			db[i], db[j] = db[j], db[i]
			want, wantD = false, false
		}
		hk.Case("Equality", fmt.Sprintf("n=%d %s at %d", n, how, i), n > 0, "how="+how, hk.LenClass(n))
		if a.Equal(&b) != want || b.Equal(&a) != want {
			t.Fatalf("n=%d, %s at %d: vector equality is %v/%v, want %v", n, how, i, a.Equal(&b), b.Equal(&a), want)
		}
		if da.Equal(&db) != wantD || db.Equal(&da) != wantD {
			t.Fatalf("n=%d, %s at %d: equality of deterministic vectors is %v/%v, want %v", n, how, i, da.Equal(&db), db.Equal(&da), wantD)
		}
		if n > 0 && len(b) == n && how != "swap" {
			if a[i].Equal(&b[i]) != want || b[i].Equal(&a[i]) != want {
				t.Fatalf("%s: ciphertext equality is wrong", how)
			}
			if da[i].Equal(&db[i]) != wantD {
				t.Fatalf("%s: equality of deterministic ciphertexts is wrong", how)
			}
			if (da.Key() == db.Key()) != wantD {
				t.Fatalf("%s: keys of deterministic vectors: equal=%v, want %v", how, da.Key() == db.Key(), wantD)
			}
		}
		var nilv *libunlynx.CipherVector
		if a.Equal(nilv) || nilv.Equal(&a) || !nilv.Equal(nilv) {
			t.Fatalf("a missing vector is equal to an existing one, or not to a missing one")
		}
	})
}

func TestGroupTable(t *testing.T) {
	hk.Check(t, 120, 2500, func(t *rapid.T) {
		priv, pub := hk.KeyPair(t, "key")
		n := hk.Len(t, "aggr", 1, 205)
		g := rapid.IntRange(0, 4).Draw(t, "grp")
		max := 10
		if n > 50 {
			max = 4
		}
		steps := rapid.IntRange(1, max).Draw(t, "steps")
		table := make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
		model := map[libunlynx.GroupingKey][]int64{}
		grp := map[libunlynx.GroupingKey][]byte{}
		type given struct {
			fr libunlynx.FilteredResponse
			b  []byte
		}
		var all []given
		repeat := false
		desc := ""
		for s := 0; s < steps; s++ {
			id := rapid.IntRange(0, 3).Draw(t, fmt.Sprintf("g%d", s))
			key := libunlynx.GroupingKey(fmt.Sprintf("tag%d", id))
			gv := make([]int64, g)
			for i := range gv {
				gv[i] = int64(id*10 + i)
			}
			av := hk.Ints(t, fmt.Sprintf("a%d_", s), n, hk.Small)
			fr := libunlynx.FilteredResponse{GroupByEnc: hk.EncVec(pub, gv), AggregatingAttributes: hk.EncVec(pub, av)}
			if rapid.Bool().Draw(t, fmt.Sprintf("packed%d", s)) {
				hk.Pack(&fr.GroupByEnc, &fr.AggregatingAttributes)
			}
			fb := append(hk.VB(fr.GroupByEnc), hk.VB(fr.AggregatingAttributes)...)
			all = append(all, given{fr, fb})
			desc += fmt.Sprintf(" %d", id)
			if _, in := model[key]; in {
				repeat = true
				for i := range av {
					model[key][i] += av[i]
				}
			} else {
				model[key] = append([]int64{}, av...)
				grp[key] = nil
				for _, v := range gv {
					grp[key] = append(grp[key], byte(v))
				}
			}
			libunlynx.AddInMap(table, key, fr)
		}
		cl := []string{hk.LenClass(n), fmt.Sprintf("groups=%d", len(model))}
		if repeat {
			cl = append(cl, "repeated-group")
		}
		hk.Case("GroupTable", fmt.Sprintf("aggr=%d grp=%d merges:%s", n, g, desc), repeat, cl...)
		if len(table) != len(model) {
			t.Fatalf("merges%s: %d groups, want %d", desc, len(table), len(model))
		}
		for k, want := range model {
			fr, in := table[k]
			if !in {
				t.Fatalf("merges%s: group %s is missing", desc, k)
			}
			if d := hk.VecDecryptsTo(priv, fr.AggregatingAttributes, want); d != "" {
				t.Fatalf("merges%s: aggregates of %s: %s", desc, k, d)
			}
			gw := make([]int64, len(grp[k]))
			for i, b := range grp[k] {
				gw[i] = int64(b)
			}
			if d := hk.VecDecryptsTo(priv, fr.GroupByEnc, gw); d != "" {
				t.Fatalf("merges%s: group attributes of %s: %s", desc, k, d)
			}
		}
		for i, x := range all {
			if !bytes.Equal(x.b, append(hk.VB(x.fr.GroupByEnc), hk.VB(x.fr.AggregatingAttributes)...)) {
				t.Fatalf("merges%s: merged response %d was changed", desc, i)
			}
		}
		// the two-operand form
		x, y := all[0].fr, all[len(all)-1].fr
		sum := libunlynx.NewFilteredResponse(g, n)
		r := (&sum).Add(x, y)
		_ = r
		for i := range x.AggregatingAttributes {
			p := libunlynx.SuiTe.Point().Add(hk.DecPoint(priv, x.AggregatingAttributes[i]), hk.DecPoint(priv, y.AggregatingAttributes[i]))
			if !hk.DecPoint(priv, sum.AggregatingAttributes[i]).Equal(p) {
				t.Fatalf("sum of two responses is wrong at %d", i)
			}
		}
		if !hk.VecEq(sum.GroupByEnc, x.GroupByEnc) {
			t.Fatalf("sum of two responses does not keep the group attributes")
		}
	})
}
