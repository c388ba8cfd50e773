package hk

import (
	"bytes"
	"fmt"
	"os"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3/log"
	"pgregory.net/rapid"
)

// quiet keeps only the messages of a program that is about to end.
type quiet struct{}

func (quiet) Log(level int, msg string) {
	if level == -18 || level == -17 { // fatal, panic
		fmt.Println(msg)
	}
}
func (quiet) Close()                         {}
func (quiet) GetLoggerInfo() *log.LoggerInfo { return &log.LoggerInfo{DebugLvl: -1} }

// Quiet silences the log of the code under test (refused proofs are logged).
func Quiet() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return
	}
	out, errOut := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	log.OutputToOs()
	os.Stdout, os.Stderr = out, errOut
	log.RegisterLogger(quiet{})
}

// OtherPoint draws a point that differs from p.
func OtherPoint(t *rapid.T, name string, p kyber.Point, siblings ...kyber.Point) (kyber.Point, string) {
	kinds := []string{"random", "negated", "plusBase", "null"}
	if len(siblings) > 0 {
		kinds = append(kinds, "sibling", "sibling")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, name+"Kind")
	var q kyber.Point
	switch kind {
	case "random":
		q = libunlynx.SuiTe.Point().Mul(Scalar(t, name+"Rnd"), nil)
	case "negated":
		q = libunlynx.SuiTe.Point().Neg(p)
	case "plusBase":
		q = libunlynx.SuiTe.Point().Add(p, libunlynx.SuiTe.Point().Base())
	case "null":
		q = libunlynx.SuiTe.Point().Null()
	case "sibling":
		q = siblings[rapid.IntRange(0, len(siblings)-1).Draw(t, name+"Sib")].Clone()
	}
	if bytes.Equal(PB(q), PB(p)) {
		q = libunlynx.SuiTe.Point().Add(p, libunlynx.SuiTe.Point().Base())
		kind = "plusBase"
	}
	return q, kind
}

// OtherCT draws a ciphertext that differs from c in one or both components.
func OtherCT(t *rapid.T, name string, c libunlynx.CipherText, siblings ...libunlynx.CipherText) (libunlynx.CipherText, string) {
	var ks, cs []kyber.Point
	for _, s := range siblings {
		ks, cs = append(ks, s.K), append(cs, s.C)
	}
	out := libunlynx.CipherText{K: c.K.Clone(), C: c.C.Clone()}
	what := rapid.SampledFrom([]string{"K", "C", "both", "whole"}).Draw(t, name+"Part")
	if what == "whole" && len(siblings) > 0 {
		s := siblings[rapid.IntRange(0, len(siblings)-1).Draw(t, name+"SibCT")]
		if !bytes.Equal(CB(s), CB(c)) {
			return libunlynx.CipherText{K: s.K.Clone(), C: s.C.Clone()}, "whole sibling"
		}
	}
	kind := ""
	if what == "K" || what == "both" {
		out.K, kind = OtherPoint(t, name+"K", c.K, ks...)
	}
	if what != "K" {
		k2 := ""
		out.C, k2 = OtherPoint(t, name+"C", c.C, cs...)
		kind += k2
	}
	return out, what + " " + kind
}

// OtherBytes draws a byte string that differs from b and does not only extend
// it. A sibling is another element's string.
func OtherBytes(t *rapid.T, name string, b []byte, siblings ...[]byte) ([]byte, string) {
	kinds := []string{"flip", "truncate", "empty", "zeroBlock", "swapBlocks"}
	if len(siblings) > 0 {
		kinds = append(kinds, "sibling", "sibling")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, name+"Kind")
	out := append([]byte{}, b...)
	switch kind {
	case "truncate":
		k := rapid.SampledFrom([]int{1, 32, 64, 0}).Draw(t, name+"Cut")
		if k == 0 || k > len(b) {
			k = rapid.IntRange(1, len(b)).Draw(t, name+"CutAny")
		}
		out = out[:len(b)-k]
	case "empty":
		out = nil
	case "zeroBlock":
		i := rapid.IntRange(0, len(b)/32-1).Draw(t, name+"Blk") * 32
		for j := i; j < i+32; j++ {
			out[j] = 0
		}
	case "swapBlocks":
		i := rapid.IntRange(0, len(b)/32-1).Draw(t, name+"BlkA") * 32
		j := rapid.IntRange(0, len(b)/32-1).Draw(t, name+"BlkB") * 32
		copy(out[i:i+32], b[j:j+32])
		copy(out[j:j+32], b[i:i+32])
	case "sibling":
		out = append([]byte{}, siblings[rapid.IntRange(0, len(siblings)-1).Draw(t, name+"Sib")]...)
	}
	if kind == "flip" || bytes.Equal(out, b) {
		kind = "flip"
		out = append([]byte{}, b...)
		p := rapid.IntRange(0, len(b)*8-1).Draw(t, name+"Bit")
		out[p/8] ^= 1 << uint(p%8)
	}
	return out, kind
}

// Pos draws a position of a list of n, favouring the ends and the boundaries of
// the work chunks.
func Pos(t *rapid.T, name string, n int) int {
	var s []int
	for _, v := range []int{0, n - 1, Chunk - 1, Chunk, 2*Chunk - 1, 2 * Chunk} {
		if v >= 0 && v < n {
			s = append(s, v)
		}
	}
	if rapid.Bool().Draw(t, name+"Edge") {
		return rapid.SampledFrom(s).Draw(t, name)
	}
	return rapid.IntRange(0, n-1).Draw(t, name)
}

// ProofLen draws the length of a list of proofs.
func ProofLen(t *rapid.T, name string, lo int) int {
	if rapid.IntRange(0, 7).Draw(t, name+"Big") == 0 {
		return rapid.SampledFrom([]int{Chunk - 1, Chunk, Chunk + 1, 2*Chunk + 1}).Draw(t, name)
	}
	return rapid.IntRange(lo, 6).Draw(t, name)
}

// Verdict runs a verification that must end without a crash.
func Verdict(t TB, what string, f func() bool) bool {
	t.Helper()
	var v bool
	ended, msg := EventuallyEnds(func() func() { return func() { v = f() } })
	if !ended {
		t.Fatalf("%s: verification does not end", what)
	}
	if msg != "" {
		t.Fatalf("%s: verification crashed: %s", what, msg)
	}
	return v
}

// Accept fails unless f verifies, Refuse fails if it does.
func Accept(t TB, what string, f func() bool) {
	t.Helper()
	if !Verdict(t, what, f) {
		t.Fatalf("%s: refused, should verify", what)
	}
}

// Refuse fails if f verifies.
func Refuse(t TB, what string, f func() bool) {
	t.Helper()
	if Verdict(t, what, f) {
		t.Fatalf("%s: verified, should be refused", what)
	}
}
