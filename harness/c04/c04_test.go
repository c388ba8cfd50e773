package c04

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"For every decoder a valid encoding of a generated value is mutated: truncated at any byte (biased to element boundaries), extended, bits flipped, bytes overwritten, blocks duplicated or removed, replaced by random bytes or nothing; announced lengths are kept or replaced by wrong ones (off by one, negative, huge, overflowing products). The decoder must return (no panic in any goroutine, within the time limit); a truncated input with unchanged lengths must be refused. Data providers send such values to the servers of generated surveys, among their proper uploads: short ones must be refused, and the survey's answer must be that of the proper uploads. Non-trivial: the mutated input differs from the valid one.",
		"announced lengths are machine integers")
}

const P, C = 32, 64

type mut struct {
	b       []byte
	kind    string
	short   bool // strictly shorter than the valid encoding, prefix of it
	changed bool
}

func mutate(t *rapid.T, n string, valid []byte) mut {
	b := append([]byte{}, valid...)
	kind := rapid.SampledFrom([]string{"none", "truncate", "truncateUnit", "extend", "flip", "overwrite", "drop", "duplicate", "random", "empty", "nil"}).Draw(t, n+"kind")
	at := func(max int) int {
		if max <= 0 {
			return 0
		}
		return rapid.IntRange(0, max).Draw(t, n+"at")
	}
	switch kind {
	case "truncate":
		b = b[:at(len(b))]
	case "truncateUnit":
		u := rapid.SampledFrom([]int{1, 4, P, C}).Draw(t, n+"unit")
		k := u * (1 + at(3))
		if k > len(b) {
			k = len(b)
		}
		b = b[:len(b)-k]
	case "extend":
		b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 80).Draw(t, n+"ext")...)
	case "flip":
		for i := 0; i < 1+at(3) && len(b) > 0; i++ {
			p := rapid.IntRange(0, len(b)*8-1).Draw(t, fmt.Sprint(n, "bit", i))
			b[p/8] ^= 1 << uint(p%8)
		}
	case "overwrite":
		if len(b) > 0 {
			p := at(len(b) - 1)
			v := rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}).Draw(t, n+"val")
			for i := p; i < len(b) && i < p+1+at(64); i++ {
				b[i] = v
			}
		}
	case "drop":
		if len(b) > 0 {
			p, k := at(len(b)-1), rapid.SampledFrom([]int{1, 4, P, C}).Draw(t, n+"blk")
			if p+k > len(b) {
				k = len(b) - p
			}
			b = append(b[:p:p], b[p+k:]...)
		}
	case "duplicate":
		if len(b) > 0 {
			p := at(len(b) - 1)
			b = append(append(append([]byte{}, b[:p]...), b[p/2:]...), b[p:]...)
		}
	case "random":
		b = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, n+"rnd")
	case "empty":
		b = []byte{}
	case "nil":
		b = nil
	}
	m := mut{b: b, kind: kind, changed: string(b) != string(valid)}
	m.short = len(b) < len(valid) && string(valid[:len(b)]) == string(b)
	return m
}

// length draws an announced length: the right one or a wrong one.
func length(t *rapid.T, n string, right int) int {
	switch rapid.IntRange(0, 6).Draw(t, n+"lk") {
	case 0, 1, 2, 3:
		return right
	case 4:
		return right + rapid.IntRange(-3, 3).Draw(t, n+"off")
	case 5:
		return rapid.IntRange(-200, 200).Draw(t, n+"small")
	}
	return rapid.SampledFrom([]int{-1, -1 << 63, 1<<63 - 1, 1 << 58, 1 << 57, -1 << 58, 1<<58 + 1, 1 << 40, 1 << 31, 1 << 32, 1<<57 + 1, 1 << 62, 1 << 26}).Draw(t, n+"huge")
}

func vec(t *rapid.T, n string, l int) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, l)
	base := libunlynx.SuiTe.Point().Mul(hk.Scalar(t, n), nil)
	p := base
	for i := range out {
		q := libunlynx.SuiTe.Point().Add(p, base)
		out[i] = libunlynx.CipherText{K: p, C: q}
		p = q
	}
	return out
}

// run calls a decoder under the no-crash and refuse-truncation oracle. Panics in
// goroutines of the decoder end the process, which the runner reports.
func run(t *rapid.T, name, desc string, changed, mustRefuse bool, f func() error) {
	hk.Case(name, desc, changed)
	var err error
	ended, msg := hk.EventuallyEnds(func() func() { return func() { err = f() } })
	if !ended {
		t.Fatalf("%s: did not return", name)
	}
	if msg != "" {
		t.Fatalf("%s crashed: %s", name, msg)
	}
	if err != nil {
		hk.Note(name + " refused")
	} else {
		hk.Note(name + " accepted")
	}
	if mustRefuse && err == nil {
		t.Fatalf("%s: input too short for its announced lengths was accepted", name)
	}
}

func TestCipherTexts(t *testing.T) {
	hk.Check(t, 6000, 120000, func(t *rapid.T) {
		v := vec(t, "c", 1)[0]
		m := mutate(t, "m", hk.CB(v))
		run(t, "ciphertext", fmt.Sprintf("%s %x", m.kind, m.b), m.changed, len(m.b) < C, func() error { var c libunlynx.CipherText; return c.FromBytes(m.b) })
		s := base64.URLEncoding.EncodeToString(m.b)
		tm := mutate(t, "tm", []byte(s))
		txt := string(tm.b)
		run(t, "ciphertext text", fmt.Sprintf("%s %q", tm.kind, txt), tm.changed || m.changed, base64.URLEncoding.DecodedLen(len(txt)) < C, func() error {
			var c libunlynx.CipherText
			err := c.Deserialize(txt)
			_, err2 := libunlynx.NewCipherTextFromBase64(txt)
			if (err == nil) != (err2 == nil) {
				t.Fatalf("the two text decoders disagree on %q: %v, %v", txt, err, err2)
			}
			return err
		})
		pm := mutate(t, "pm", hk.PB(v.K))
		ptxt := base64.URLEncoding.EncodeToString(pm.b)
		run(t, "point text", fmt.Sprintf("%s %q", pm.kind, ptxt), pm.changed, len(pm.b) < P, func() error { _, err := libunlynx.DeserializePoint(ptxt); return err })
		run(t, "scalar text", fmt.Sprintf("%s %q", pm.kind, ptxt), pm.changed, len(pm.b) < P, func() error { _, err := libunlynx.DeserializeScalar(ptxt); return err })
		run(t, "point text raw", fmt.Sprintf("%s %q", tm.kind, txt), true, false, func() error {
			_, err := libunlynx.DeserializePoint(txt)
			_, _ = libunlynx.DeserializeScalar(txt)
			return err
		})
	})
}

func TestVectors(t *testing.T) {
	hk.Check(t, 4000, 60000, func(t *rapid.T) {
		n := hk.Len(t, "n", 0, 210)
		m := mutate(t, "m", hk.VB(vec(t, "v", n))[len(fmt.Sprintf("[%d]", n)):])
		l := length(t, "l", n)
		run(t, "vector", fmt.Sprintf("%s %d bytes for %d, announced %d", m.kind, len(m.b), n, l), m.changed || l != n, l > len(m.b)/C, func() error {
			var d libunlynx.CipherVector
			return d.FromBytes(m.b, l)
		})
		run(t, "points", fmt.Sprintf("%s %d bytes", m.kind, len(m.b)), m.changed, len(m.b)%P != 0, func() error {
			_, err := libunlynx.FromBytesToAbstractPoints(m.b)
			return err
		})
		run(t, "tagging message", fmt.Sprintf("%s %d bytes", m.kind, len(m.b)), m.changed, len(m.b)%C != 0, func() error {
			var d protocolsunlynx.DeterministicTaggingMessage
			return d.FromBytes(m.b)
		})
	})
}

func raw(cvs ...libunlynx.CipherVector) []byte {
	var b []byte
	for _, v := range cvs {
		for _, c := range v {
			b = append(b, hk.CB(c)...)
		}
	}
	return b
}

func TestMatrices(t *testing.T) {
	hk.Check(t, 4000, 60000, func(t *rapid.T) {
		rows := rapid.IntRange(0, 6).Draw(t, "rows")
		var lens []int
		var m []libunlynx.CipherVector
		for i := 0; i < rows; i++ {
			l := rapid.IntRange(0, 4).Draw(t, fmt.Sprint("l", i))
			lens = append(lens, l)
			m = append(m, vec(t, fmt.Sprint("v", i), l))
		}
		d := mutate(t, "d", raw(m...))
		lb := libunlynxtools.UnsafeCastIntsToBytes(lens)
		l := mutate(t, "l", lb)
		need := 0
		if !l.changed {
			for _, x := range lens {
				need += x * C
			}
		}
		bad := !l.changed && len(d.b) < need
		desc := fmt.Sprintf("lens %v data %s (%d bytes) lengths %s %x", lens, d.kind, len(d.b), l.kind, l.b)
		run(t, "matrix", desc, d.changed || l.changed, bad, func() error { _, err := libunlynx.FromBytesToArrayCipherVector(d.b, l.b); return err })
		run(t, "shuffling message", desc, d.changed || l.changed, bad, func() error { var x protocolsunlynx.ShufflingMessage; return x.FromBytes(d.b, l.b) })
		k := mutate(t, "k", hk.PB(libunlynx.SuiTe.Point().Base()))
		run(t, "shuffling+DDT message", desc+" key "+k.kind, d.changed || l.changed || k.changed, bad || len(k.b) < P, func() error {
			var x protocolsunlynx.ShufflingPlusDDTMessage
			return x.FromBytes(d.b, k.b, l.b)
		})
		_ = libunlynxtools.UnsafeCastBytesToInts(l.b)
		// a shuffling proof
		opt := func(n string, b []byte) *[]byte {
			if rapid.IntRange(0, 11).Draw(t, n+"nil") == 0 {
				return nil
			}
			return &b
		}
		base := hk.PB(libunlynx.SuiTe.Point().Base())
		h := mutate(t, "h", base)
		pb := libunlynxshuffle.PublishedShufflingProofBytes{OriginalList: opt("o", d.b), OriginalListLength: opt("ol", l.b), ShuffledList: opt("s", raw(m...)), ShuffledListLength: opt("sl", lb),
			G: opt("g", k.b), H: opt("hh", h.b), HashProof: h.b}
		miss := pb.OriginalList == nil || pb.OriginalListLength == nil || pb.ShuffledList == nil || pb.ShuffledListLength == nil || pb.G == nil || pb.H == nil
		run(t, "shuffling proof", fmt.Sprintf("%s key %s %s missing=%v", desc, k.kind, h.kind, miss), true, bad || miss || len(k.b) < P || len(h.b) < P, func() error {
			var x libunlynxshuffle.PublishedShufflingProof
			return x.FromBytes(pb)
		})
	})
}

// huge tells whether the announced lengths need more than n bytes.
func needs(n int, cts []int, bs ...int) bool {
	for _, c := range cts {
		if c > n/C {
			return true
		}
		if c > 0 {
			n -= c * C
		}
	}
	for _, b := range bs {
		if b > n {
			return true
		}
		if b > 0 {
			n -= b
		}
	}
	return false
}

func TestResponses(t *testing.T) {
	hk.Check(t, 6000, 120000, func(t *rapid.T) {
		n := func(s string) int { return rapid.IntRange(0, 4).Draw(t, s) }
		g, a, w := n("g"), n("a"), n("w")
		tags := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "tag")
		wt := rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "wtag")
		body := raw(vec(t, "x", g+a+w))
		gl, al, wl := length(t, "gl", g), length(t, "al", a), length(t, "wl", w)
		dl, ul := length(t, "dl", len(tags)), length(t, "ul", len(wt))
		wrong := gl != g || al != a
		m := mutate(t, "m", raw(vec(t, "y", g+a)))
		desc := fmt.Sprintf("%s %d bytes, %d/%d announced %d/%d", m.kind, len(m.b), g, a, gl, al)
		run(t, "filtered response", desc, m.changed || wrong, needs(len(m.b), []int{gl, al}), func() error { var x libunlynx.FilteredResponse; return x.FromBytes(m.b, al, gl) })
		m = mutate(t, "md", append(raw(vec(t, "z", g+a)), tags...))
		desc = fmt.Sprintf("%s %d bytes, %d/%d/%d announced %d/%d/%d", m.kind, len(m.b), g, a, len(tags), gl, al, dl)
		run(t, "tagged filtered response", desc, m.changed || wrong || dl != len(tags), needs(len(m.b), []int{gl, al}, dl), func() error {
			var x libunlynx.FilteredResponseDet
			return x.FromBytes(m.b, gl, al, dl)
		})
		m = mutate(t, "mp", body)
		desc = fmt.Sprintf("%s %d bytes, %d/%d/%d announced %d/%d/%d", m.kind, len(m.b), g, a, w, gl, al, wl)
		run(t, "process response", desc, m.changed || wrong || wl != w, needs(len(m.b), []int{gl, al, wl}), func() error {
			var x libunlynx.ProcessResponse
			return x.FromBytes(m.b, gl, al, wl)
		})
		m = mutate(t, "mpd", append(append(append([]byte{}, body...), tags...), wt...))
		desc = fmt.Sprintf("%s %d bytes, %d/%d/%d %d %d announced %d/%d/%d %d %d", m.kind, len(m.b), g, a, w, len(tags), len(wt), gl, al, wl, dl, ul)
		run(t, "tagged process response", desc, m.changed || wrong || wl != w || dl != len(tags) || ul != len(wt), needs(len(m.b), []int{gl, al, wl}, dl, ul), func() error {
			var x libunlynx.ProcessResponseDet
			return x.FromBytes(m.b, gl, al, wl, dl, ul)
		})
		// several responses in one aggregation message
		k := rapid.IntRange(0, 3).Draw(t, "k")
		var all []byte
		for i := 0; i < k; i++ {
			all = append(append(all, raw(vec(t, fmt.Sprint("q", i), g+a))...), tags...)
		}
		m = mutate(t, "mc", all)
		desc = fmt.Sprintf("%d responses %s %d bytes, %d/%d/%d announced %d/%d/%d", k, m.kind, len(m.b), g, a, len(tags), gl, al, dl)
		run(t, "aggregation message", desc, m.changed || wrong || dl != len(tags), needs(len(m.b), []int{gl, al}, dl), func() error {
			var x protocolsunlynx.ChildAggregatedDataMessage
			return x.FromBytes(m.b, gl, al, dl)
		})
	})
}

func TestProviderResponses(t *testing.T) {
	hk.Check(t, 4000, 60000, func(t *rapid.T) {
		bad, changed := false, false
		mp := func(n string) map[string][]byte {
			o := map[string][]byte{}
			for i := 0; i < rapid.IntRange(0, 3).Draw(t, n+"n"); i++ {
				m := mutate(t, fmt.Sprint(n, i), raw(vec(t, fmt.Sprint(n, "v", i), 1)))
				o[fmt.Sprint("a", i)] = m.b
				bad = bad || len(m.b) < C
				changed = changed || m.changed
			}
			return o
		}
		s := libunlynx.DpResponseToSend{GroupByEnc: mp("g"), WhereEnc: mp("w"), AggregatingAttributesEnc: mp("a")}
		run(t, "provider response", fmt.Sprintf("%d/%d/%d attributes %v", len(s.GroupByEnc), len(s.WhereEnc), len(s.AggregatingAttributesEnc), s), changed, bad, func() error { var d libunlynx.DpResponse; return d.FromDpResponseToSend(s) })
	})
}

func TestProofs(t *testing.T) {
	hk.Check(t, 4000, 60000, func(t *rapid.T) {
		n := rapid.IntRange(0, 4).Draw(t, "n")
		var ks libunlynxkeyswitch.PublishedKSListProofBytes
		var ag libunlynxaggr.PublishedAggregationListProofBytes
		kbad, abad, kch, ach := false, false, false, false
		desc := ""
		for i := 0; i < n; i++ {
			m := mutate(t, fmt.Sprint("k", i), raw(vec(t, fmt.Sprint("kv", i), 3))[:5*P])
			ks.List = append(ks.List, libunlynxkeyswitch.PublishedKSProofBytes{KVibKs2RbNegQ: m.b, Proof: m.b})
			kbad = kbad || len(m.b) < 5*P
			kch = kch || m.changed
			d := rapid.IntRange(0, 4).Draw(t, fmt.Sprint("d", i))
			dm := mutate(t, fmt.Sprint("a", i), raw(vec(t, fmt.Sprint("av", i), d)))
			rm := mutate(t, fmt.Sprint("r", i), raw(vec(t, fmt.Sprint("rv", i), 1)))
			l := length(t, fmt.Sprint("l", i), d)
			ag.List = append(ag.List, libunlynxaggr.PublishedAggregationProofBytes{Data: dm.b, DataLen: int64(l), AggregationResult: rm.b})
			abad = abad || len(rm.b) < C || l > len(dm.b)/C
			ach = ach || dm.changed || rm.changed || l != d
			desc += fmt.Sprintf("%s(%d) %s(%d/%d) %s(%d);", m.kind, len(m.b), dm.kind, len(dm.b), l, rm.kind, len(rm.b))
		}
		run(t, "key-switch proofs", desc, kch, kbad, func() error { var x libunlynxkeyswitch.PublishedKSListProof; return x.FromBytes(ks) })
		run(t, "aggregation proofs", desc, ach, abad, func() error { var x libunlynxaggr.PublishedAggregationListProof; return x.FromBytes(ag) })
		// precomputed shuffling material
		var enc []libunlynxshuffle.CipherVectorScalarBytes
		bad, ch := false, false
		for i := 0; i < n; i++ {
			var l libunlynxshuffle.CipherVectorScalarBytes
			for j := 0; j < rapid.IntRange(0, 2).Draw(t, fmt.Sprint("len", i)); j++ {
				parts := [][]byte{}
				np := rapid.SampledFrom([]int{2, 2, 2, 2, 0, 1, 3}).Draw(t, fmt.Sprint("parts", i, j))
				for q := 0; q < np; q++ {
					m := mutate(t, fmt.Sprint("pp", i, j, q), hk.PB(libunlynx.SuiTe.Point().Base()))
					parts = append(parts, m.b)
					bad = bad || (len(m.b) < P && q < 2)
					ch = ch || m.changed
				}
				bad = bad || np < 2
				l.CipherV = append(l.CipherV, parts)
				m := mutate(t, fmt.Sprint("ss", i, j), hk.PB(libunlynx.SuiTe.Point().Base()))
				l.S = append(l.S, m.b)
				bad = bad || len(m.b) < P
				ch = ch || m.changed
			}
			enc = append(enc, l)
		}
		run(t, "precomputed material", fmt.Sprintf("%d lines bad=%v", n, bad), ch, bad, func() error { _, err := libunlynxshuffle.DecodeCipherVectorScalar(enc); return err })
	})
}

func TestFiles(t *testing.T) {
	dir := t.TempDir()
	hk.Check(t, 1600, 16000, func(t *rapid.T) {
		var x []libunlynxshuffle.CipherVectorScalar
		for i := 0; i < rapid.IntRange(1, 3).Draw(t, "lines"); i++ {
			n := rapid.IntRange(0, 3).Draw(t, fmt.Sprint("n", i))
			l := libunlynxshuffle.CipherVectorScalar{CipherV: vec(t, fmt.Sprint("c", i), n)}
			for j := 0; j < n; j++ {
				l.S = append(l.S, hk.Scalar(t, fmt.Sprint("s", i, j)))
			}
			x = append(x, l)
		}
		e, err := libunlynxshuffle.EncodeCipherVectorScalar(x)
		if err != nil {
			t.Fatalf("encode: %v", err)
		}
		f := filepath.Join(dir, "p.gob")
		if err := libunlynxtools.WriteToGobFile(f, e); err != nil {
			t.Fatalf("write: %v", err)
		}
		b, _ := os.ReadFile(f)
		m := mutate(t, "m", b)
		if err := os.WriteFile(f, m.b, 0o600); err != nil {
			hk.Infra("%v", err)
		}
		run(t, "precomputed file", fmt.Sprintf("%s %d of %d bytes", m.kind, len(m.b), len(b)), m.changed, m.short, func() error { _, err := libunlynxshuffle.ReadPrecomputedFile(f); return err })
		run(t, "missing file", "none", false, true, func() error { var y []byte; return libunlynxtools.ReadFromGobFile(filepath.Join(dir, "none"), &y) })
		run(t, "unwritable file", "none", false, true, func() error { return libunlynxtools.WriteToGobFile(filepath.Join(dir, "no", "such"), e) })
	})
}

func TestTexts(t *testing.T) {
	hk.Check(t, 12000, 200000, func(t *rapid.T) {
		s := rapid.OneOf(rapid.StringMatching(`[0-9,-]{0,30}`), rapid.StringMatching(`[0-9 -]{0,30}`), rapid.String()).Draw(t, "s")
		run(t, "group key", fmt.Sprintf("%q", s), s != "", false, func() error { _, err := libunlynx.UnKey(libunlynx.GroupingKey(s)); return err })
		run(t, "integer list", fmt.Sprintf("%q", s), s != "", false, func() error { libunlynxtools.StringToInt64Array(s); return nil })
		run(t, "lengths", fmt.Sprintf("%x", s), len(s)%4 != 0, false, func() error { libunlynxtools.UnsafeCastBytesToInts([]byte(s)); return nil })
		var p kyber.Point
		_ = p
	})
}
