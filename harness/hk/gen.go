package hk

import (
	"bytes"
	"fmt"
	"sort"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"
)

// Chunk is the size of the parallel work chunks of the library.
const Chunk = libunlynx.VPARALLELIZE

// Len draws a vector length between lo and max that favours the boundaries of
// the library's work chunks.
func Len(t *rapid.T, name string, lo, max int) int {
	var special []int
	for _, v := range []int{0, 1, 2, 3, Chunk - 1, Chunk, Chunk + 1, Chunk + 2, 2*Chunk - 1, 2 * Chunk, 2*Chunk + 1, 2*Chunk + 2, 2*Chunk + 50} {
		if v >= lo && v <= max {
			special = append(special, v)
		}
	}
	if len(special) == 0 || rapid.IntRange(0, 2).Draw(t, name+"Kind") > 0 {
		hi := lo + 12
		if hi > max {
			hi = max
		}
		return rapid.IntRange(lo, hi).Draw(t, name)
	}
	return rapid.SampledFrom(special).Draw(t, name)
}

// LenClass names the size class of a length.
func LenClass(n int) string {
	switch {
	case n == 0:
		return "len=0"
	case n == 1:
		return "len=1"
	case n < Chunk:
		return "len<chunk"
	case n == Chunk:
		return "len=chunk"
	case n <= 2*Chunk:
		return "len<=2chunks"
	}
	return "len>2chunks"
}

// Small draws an integer whose decryption is cheap, favouring collisions.
func Small(t *rapid.T, name string) int64 {
	return int64(rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 200), rapid.IntRange(0, 2000)).Draw(t, name))
}

// Ints draws n integers through gen; long vectors are derived from a drawn
// pattern so that the number of random choices stays small.
func Ints(t *rapid.T, name string, n int, gen func(*rapid.T, string) int64) []int64 {
	out := make([]int64, n)
	if n <= 16 {
		for i := range out {
			out[i] = gen(t, fmt.Sprintf("%s%d", name, i))
		}
		return out
	}
	k := rapid.IntRange(1, 8).Draw(t, name+"Pat")
	base := make([]int64, k)
	for i := range base {
		base[i] = gen(t, fmt.Sprintf("%sP%d", name, i))
	}
	step := int64(rapid.IntRange(0, 3).Draw(t, name+"Step"))
	for i := range out {
		out[i] = base[i%k] + step*int64(i)
	}
	return out
}

// Scalar draws a scalar that is a pure function of the drawn data.
func Scalar(t *rapid.T, name string) kyber.Scalar {
	seed := rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, name)
	return libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.XOF(append([]byte("hk"), seed...)))
}

// KeyPair draws a key pair.
func KeyPair(t *rapid.T, name string) (kyber.Scalar, kyber.Point) {
	s := Scalar(t, name)
	return s, libunlynx.SuiTe.Point().Mul(s, nil)
}

// DecPoint is the reference decryption to a curve point.
func DecPoint(priv kyber.Scalar, c libunlynx.CipherText) kyber.Point {
	s := libunlynx.SuiTe.Point().Mul(priv, c.K)
	return libunlynx.SuiTe.Point().Sub(c.C, s)
}

// IntPoint is the reference encoding of an integer.
func IntPoint(v int64) kyber.Point {
	return libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(v), nil)
}

// DecryptsTo tells whether c decrypts to v, without using the code under test.
func DecryptsTo(priv kyber.Scalar, c libunlynx.CipherText, v int64) bool {
	if c.K == nil || c.C == nil {
		return false
	}
	return DecPoint(priv, c).Equal(IntPoint(v))
}

// VecDecryptsTo checks a whole vector; it returns a description of the first
// difference.
func VecDecryptsTo(priv kyber.Scalar, cv libunlynx.CipherVector, want []int64) string {
	if len(cv) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(cv), len(want))
	}
	for i := range cv {
		if !DecryptsTo(priv, cv[i], want[i]) {
			return fmt.Sprintf("element %d does not decrypt to %d", i, want[i])
		}
	}
	return ""
}

// EncRef is a reference encryption with given randomness.
func EncRef(pub kyber.Point, v int64, r kyber.Scalar) libunlynx.CipherText {
	K := libunlynx.SuiTe.Point().Mul(r, nil)
	S := libunlynx.SuiTe.Point().Mul(r, pub)
	return libunlynx.CipherText{K: K, C: libunlynx.SuiTe.Point().Add(S, IntPoint(v))}
}

// Enc encrypts reference-style with fresh randomness (a function of nothing).
func Enc(pub kyber.Point, v int64) libunlynx.CipherText {
	return EncRef(pub, v, libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.RandomStream()))
}

// EncVec encrypts a vector reference-style.
func EncVec(pub kyber.Point, vs []int64) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(vs))
	for i, v := range vs {
		out[i] = Enc(pub, v)
	}
	return out
}

// PB is the byte encoding of a point ("nil" for none).
func PB(p kyber.Point) []byte {
	if p == nil {
		return []byte("nil")
	}
	b, err := p.MarshalBinary()
	if err != nil {
		return []byte(err.Error())
	}
	return b
}

// CB is the byte encoding of a ciphertext.
func CB(c libunlynx.CipherText) []byte {
	return append(append([]byte{}, PB(c.K)...), PB(c.C)...)
}

// VB is the byte encoding of a vector, with its length.
func VB(cv libunlynx.CipherVector) []byte {
	b := []byte(fmt.Sprintf("[%d]", len(cv)))
	for _, c := range cv {
		b = append(b, CB(c)...)
	}
	return b
}

// MB is the byte encoding of a list of vectors.
func MB(m []libunlynx.CipherVector) []byte {
	b := []byte(fmt.Sprintf("{%d}", len(m)))
	for _, cv := range m {
		b = append(b, VB(cv)...)
	}
	return b
}

// VecEq compares two vectors by value, nil and empty alike.
func VecEq(a, b libunlynx.CipherVector) bool { return bytes.Equal(VB(a), VB(b)) }

// Copy copies a vector deeply.
func Copy(cv libunlynx.CipherVector) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(cv))
	for i, c := range cv {
		out[i] = libunlynx.CipherText{K: c.K.Clone(), C: c.C.Clone()}
	}
	return out
}

// Pack moves vectors into one array, one behind the other, so that appending to
// one of them in place overwrites the next one.
func Pack(vs ...*libunlynx.CipherVector) {
	n := 0
	for _, v := range vs {
		n += len(*v)
	}
	all := make(libunlynx.CipherVector, 0, n)
	for _, v := range vs {
		i := len(all)
		all = append(all, *v...)
		*v = all[i:len(all)]
	}
}

// CopyM copies a matrix deeply.
func CopyM(m []libunlynx.CipherVector) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(m))
	for i, cv := range m {
		out[i] = Copy(cv)
	}
	return out
}

// DecTable is an independent decryption of integers in [-n, n].
type DecTable struct{ m map[string]int64 }

// NewDecTable builds the table by repeated addition.
func NewDecTable(n int64) *DecTable {
	d := &DecTable{m: make(map[string]int64, 2*n+1)}
	B := libunlynx.SuiTe.Point().Base()
	p := libunlynx.SuiTe.Point().Null()
	q := libunlynx.SuiTe.Point().Null()
	for i := int64(0); i <= n; i++ {
		d.m[string(PB(p))] = i
		d.m[string(PB(q))] = -i
		p = libunlynx.SuiTe.Point().Add(p, B)
		q = libunlynx.SuiTe.Point().Sub(q, B)
	}
	return d
}

// Dec decrypts c; ok is false if the plaintext is not in the table.
func (d *DecTable) Dec(priv kyber.Scalar, c libunlynx.CipherText) (int64, bool) {
	if c.K == nil || c.C == nil {
		return 0, false
	}
	v, ok := d.m[string(PB(DecPoint(priv, c)))]
	return v, ok
}

// DecVec decrypts a vector, with a sentinel for unknown plaintexts.
func (d *DecTable) DecVec(priv kyber.Scalar, cv libunlynx.CipherVector) []int64 {
	out := make([]int64, len(cv))
	for i := range cv {
		v, ok := d.Dec(priv, cv[i])
		if !ok {
			v = -1 << 40
		}
		out[i] = v
	}
	return out
}

// SortedRows renders rows as a sorted list of strings (a multiset).
func SortedRows(rows [][]int64) []string {
	out := make([]string, len(rows))
	for i, r := range rows {
		out[i] = fmt.Sprint(r)
	}
	sort.Strings(out)
	return out
}

// SameInts compares two integer slices.
func SameInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SameStrings compares two string slices.
func SameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
