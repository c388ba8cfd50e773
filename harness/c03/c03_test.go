package c03

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Values of every exchanged type are generated (vector lengths across the work-chunk boundaries, empty and nil parts, different lengths per part, unicode-free group tags, negative clear values), encoded, decoded and compared by value; the value must be unchanged by encoding and the second encoding must equal the first. Non-trivial: the value has at least one ciphertext, point, scalar, tag or integer.",
		"parts of a response that are nil or empty are the same value",
		"group and filter tags are not empty and do not contain the separator /-/ (tags are printed curve points)",
		"all responses of one aggregation message have the same shape, as the protocol sends them")
}

// ct draws a ciphertext of arbitrary points, null point and base included.
func ct(t *rapid.T, n string) libunlynx.CipherText {
	return libunlynx.CipherText{K: pt(t, n+"K"), C: pt(t, n+"C")}
}

func pt(t *rapid.T, n string) kyber.Point {
	switch rapid.IntRange(0, 9).Draw(t, n+"kind") {
	case 0:
		return libunlynx.SuiTe.Point().Null()
	case 1:
		return libunlynx.SuiTe.Point().Base()
	}
	return libunlynx.SuiTe.Point().Mul(hk.Scalar(t, n), nil)
}

// cv draws a vector; long ones repeat a drawn pattern shifted by the position.
func cv(t *rapid.T, n string, length int) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, length)
	if length == 0 {
		if rapid.Bool().Draw(t, n+"nil") {
			return nil
		}
		return out
	}
	k := length
	if k > 6 {
		k = 6
	}
	base := make([]libunlynx.CipherText, k)
	for i := range base {
		base[i] = ct(t, fmt.Sprintf("%s%d", n, i))
	}
	shift := libunlynx.SuiTe.Point().Null()
	for i := range out {
		out[i] = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(base[i%k].K, shift), C: base[i%k].C.Clone()}
		if i%k == k-1 {
			shift = libunlynx.SuiTe.Point().Add(shift, libunlynx.SuiTe.Point().Base())
		}
	}
	return out
}

func tag(t *rapid.T, n string) libunlynx.GroupingKey {
	return libunlynx.GroupingKey(rapid.StringMatching(`[0-9a-f,:. -]{1,70}`).Draw(t, n))
}

func must(t hk.TB, what string, err error) {
	t.Helper()
	if err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}

func TestCipherTexts(t *testing.T) {
	hk.Check(t, 600, 16000, func(t *rapid.T) {
		c := ct(t, "c")
		before := hk.CB(c)
		hk.Case("CipherTexts", fmt.Sprintf("%x", before), true)
		b, err := c.ToBytes()
		must(t, "encode", err)
		if len(b) != libunlynx.CipherTextByteSize() {
			t.Fatalf("encoding of %d bytes, announced %d", len(b), libunlynx.CipherTextByteSize())
		}
		in := append([]byte{}, b...)
		var d libunlynx.CipherText
		must(t, "decode", d.FromBytes(b))
		if !bytes.Equal(hk.CB(d), before) || !bytes.Equal(hk.CB(c), before) || !bytes.Equal(b, in) {
			t.Fatalf("ciphertext changed")
		}
		b2, err := d.ToBytes()
		must(t, "re-encode", err)
		if !bytes.Equal(b, b2) {
			t.Fatalf("second encoding differs")
		}
		s, err := c.Serialize()
		must(t, "serialize", err)
		var e libunlynx.CipherText
		must(t, "deserialize", e.Deserialize(s))
		f, err := libunlynx.NewCipherTextFromBase64(s)
		must(t, "from base64", err)
		if !bytes.Equal(hk.CB(e), before) || !bytes.Equal(hk.CB(*f), before) {
			t.Fatalf("text encoding does not round-trip")
		}
		// decoding into a used value
		must(t, "decode again", f.FromBytes(hk.CB(ct(t, "other"))))
		must(t, "decode back", f.FromBytes(b))
		if !bytes.Equal(hk.CB(*f), before) {
			t.Fatalf("decoding into a used value")
		}
		p := pt(t, "p")
		ps, err := libunlynx.SerializePoint(p)
		must(t, "point", err)
		p2, err := libunlynx.DeserializePoint(ps)
		must(t, "point", err)
		if !p2.Equal(p) {
			t.Fatalf("point changed")
		}
		sc := hk.Scalar(t, "s")
		ss, err := libunlynx.SerializeScalar(sc)
		must(t, "scalar", err)
		s2, err := libunlynx.DeserializeScalar(ss)
		must(t, "scalar", err)
		if !s2.Equal(sc) {
			t.Fatalf("scalar changed")
		}
	})
}

func TestVectors(t *testing.T) {
	hk.Check(t, 480, 6000, func(t *rapid.T) {
		n := hk.Len(t, "n", 0, 230)
		v := cv(t, "v", n)
		before := hk.VB(v)
		hk.Case("Vectors", fmt.Sprintf("n=%d %x", n, before[:min(len(before), 60)]), n > 0, hk.LenClass(n))
		b, l, err := v.ToBytes()
		must(t, "encode", err)
		if l != n {
			t.Fatalf("announced length %d of %d", l, n)
		}
		var d libunlynx.CipherVector
		if rapid.Bool().Draw(t, "used") {
			d = cv(t, "dest", 3)
		}
		must(t, "decode", d.FromBytes(b, l))
		if !bytes.Equal(hk.VB(d), before) || !bytes.Equal(hk.VB(v), before) {
			t.Fatalf("vector changed: %d -> %d elements", n, len(d))
		}
		b2, _, err := d.ToBytes()
		must(t, "re-encode", err)
		if !bytes.Equal(b, b2) {
			t.Fatalf("second encoding differs")
		}
		ps := make([]kyber.Point, 0)
		for _, c := range v {
			ps = append(ps, c.K, c.C)
		}
		pb, err := libunlynx.AbstractPointsToBytes(ps)
		must(t, "points", err)
		ps2, err := libunlynx.FromBytesToAbstractPoints(pb)
		must(t, "points", err)
		if len(ps2) != len(ps) {
			t.Fatalf("%d points became %d", len(ps), len(ps2))
		}
		for i := range ps {
			if !ps[i].Equal(ps2[i]) {
				t.Fatalf("point %d changed", i)
			}
		}
		dtm := protocolsunlynx.DeterministicTaggingMessage{Data: v}
		mb, err := dtm.ToBytes()
		must(t, "tagging message", err)
		var dtm2 protocolsunlynx.DeterministicTaggingMessage
		must(t, "tagging message", dtm2.FromBytes(mb))
		if !bytes.Equal(hk.VB(dtm2.Data), before) || !bytes.Equal(hk.VB(v), before) {
			t.Fatalf("tagging message of %d elements changed", n)
		}
	})
}

// held is a value, its encoding and its decoding.
type held struct {
	desc   string
	encode func() error
	decode func() error
	same   func() bool
}

// draws a value of one of the kinds that have an encoding of points.
func drawHeld(t *rapid.T, n int) *held {
	kind := rapid.SampledFrom([]string{"vector", "points", "matrix", "filtered", "process", "tagged", "text", "point", "scalar", "map", "precomputed", "ks", "shuffleproof"}).Draw(t, "kind")
	h := &held{desc: fmt.Sprint(kind, n)}
	v := cv(t, "v", n)
	want := hk.VB(v)
	switch kind {
	case "vector":
		var b []byte
		var d libunlynx.CipherVector
		h.encode = func() (err error) { b, _, err = v.ToBytes(); return }
		h.decode = func() error { return d.FromBytes(b, n) }
		h.same = func() bool { return bytes.Equal(hk.VB(d), want) }
	case "points":
		var ps, d []kyber.Point
		for _, c := range v {
			ps = append(ps, c.K, c.C)
		}
		var b []byte
		h.encode = func() (err error) { b, err = libunlynx.AbstractPointsToBytes(ps); return }
		h.decode = func() (err error) { d, err = libunlynx.FromBytesToAbstractPoints(b); return }
		h.same = func() bool {
			for i := range ps {
				if i >= len(d) || !ps[i].Equal(d[i]) {
					return false
				}
			}
			return len(ps) == len(d)
		}
	case "matrix":
		m := []libunlynx.CipherVector{v, cv(t, "v2", 2), cv(t, "v3", n)}
		mb := hk.MB(m)
		var b []byte
		var l []byte
		var d []libunlynx.CipherVector
		h.encode = func() (err error) { b, l, err = libunlynx.ArrayCipherVectorToBytes(m); return }
		h.decode = func() (err error) { d, err = libunlynx.FromBytesToArrayCipherVector(b, l); return }
		h.same = func() bool { return bytes.Equal(hk.MB(d), mb) }
	case "filtered":
		fr := libunlynx.FilteredResponse{GroupByEnc: v, AggregatingAttributes: cv(t, "a", 2)}
		w := frDesc(fr)
		var b []byte
		var g, a int
		var d libunlynx.FilteredResponse
		h.encode = func() (err error) { b, g, a, err = fr.ToBytes(); return }
		h.decode = func() error { return d.FromBytes(b, a, g) }
		h.same = func() bool { return bytes.Equal(frDesc(d), w) }
	case "process":
		pr := libunlynx.ProcessResponse{WhereEnc: v, GroupByEnc: cv(t, "g", 1), AggregatingAttributes: cv(t, "a", n)}
		w := prDesc(pr)
		var b []byte
		var g, a, wl int
		var d libunlynx.ProcessResponse
		h.encode = func() (err error) { b, g, a, wl, err = pr.ToBytes(); return }
		h.decode = func() error { return d.FromBytes(b, g, a, wl) }
		h.same = func() bool { return bytes.Equal(prDesc(d), w) }
	case "tagged":
		tg := tag(t, "tag")
		msg := protocolsunlynx.ChildAggregatedDataMessage{}
		for i := 0; i < 3; i++ {
			msg.ChildData = append(msg.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: tg, Fr: libunlynx.FilteredResponse{AggregatingAttributes: v}})
		}
		var b []byte
		var g, a, dl int
		var d protocolsunlynx.ChildAggregatedDataMessage
		h.encode = func() (err error) { b, g, a, dl, err = msg.ToBytes(); return }
		h.decode = func() error { return d.FromBytes(b, g, a, dl) }
		h.same = func() bool {
			for _, x := range d.ChildData {
				if x.DetTagGroupBy != tg || !bytes.Equal(hk.VB(x.Fr.AggregatingAttributes), want) {
					return false
				}
			}
			return len(d.ChildData) == 3
		}
	case "text":
		c := ct(t, "c")
		w := hk.CB(c)
		var s string
		var d libunlynx.CipherText
		h.encode = func() (err error) { s, err = c.Serialize(); return }
		h.decode = func() error { return d.Deserialize(s) }
		h.same = func() bool { return bytes.Equal(hk.CB(d), w) }
	case "point":
		p := pt(t, "p")
		w := hk.PB(p)
		var s string
		var d kyber.Point
		h.encode = func() (err error) { s, err = libunlynx.SerializePoint(p); return }
		h.decode = func() (err error) { d, err = libunlynx.DeserializePoint(s); return }
		h.same = func() bool { return bytes.Equal(hk.PB(d), w) }
	case "scalar":
		x := hk.Scalar(t, "s")
		w := x.Clone()
		var s string
		var d kyber.Scalar
		h.encode = func() (err error) { s, err = libunlynx.SerializeScalar(x); return }
		h.decode = func() (err error) { d, err = libunlynx.DeserializeScalar(s); return }
		h.same = func() bool { return d.Equal(w) }
	case "map":
		m := map[string]libunlynx.CipherText{}
		for i := 0; i < n && i < 4; i++ {
			m[fmt.Sprint("a", i)] = v[i]
		}
		enc := map[string][]byte{}
		var d map[string]libunlynx.CipherText
		h.encode = func() (err error) {
			for k, c := range m {
				c := c
				if enc[k], err = c.ToBytes(); err != nil {
					return
				}
			}
			return
		}
		h.decode = func() (err error) { d, err = libunlynx.MapBytesToMapCipherText(enc); return }
		h.same = func() bool {
			for i := 0; i < n && i < 4; i++ {
				c, ok := d[fmt.Sprint("a", i)]
				if !ok || !bytes.Equal(hk.CB(c), hk.CB(v[i])) {
					return false
				}
			}
			return len(d) == len(m)
		}
	case "precomputed":
		x := []libunlynxshuffle.CipherVectorScalar{{CipherV: v}}
		for i := 0; i < n; i++ {
			x[0].S = append(x[0].S, libunlynx.SuiTe.Scalar().SetInt64(int64(i+n)))
		}
		w := preDesc(x)
		var e []libunlynxshuffle.CipherVectorScalarBytes
		var d []libunlynxshuffle.CipherVectorScalar
		h.encode = func() (err error) { e, err = libunlynxshuffle.EncodeCipherVectorScalar(x); return }
		h.decode = func() (err error) { d, err = libunlynxshuffle.DecodeCipherVectorScalar(e); return }
		h.same = func() bool { return preDesc(d) == w }
	case "ks":
		l := libunlynxkeyswitch.PublishedKSListProof{}
		for _, c := range v {
			l.List = append(l.List, libunlynxkeyswitch.PublishedKSProof{K: c.K, ViB: c.C, Ks2: c.K, RbNeg: c.C, Q: c.K, Proof: hk.PB(c.C)})
		}
		var e libunlynxkeyswitch.PublishedKSListProofBytes
		var d libunlynxkeyswitch.PublishedKSListProof
		h.encode = func() (err error) {
			p, err := l.ToBytes()
			e = p
			return err
		}
		h.decode = func() error { return d.FromBytes(e) }
		h.same = func() bool {
			for i, p := range d.List {
				if i >= n || !p.K.Equal(v[i].K) || !p.ViB.Equal(v[i].C) || !p.Ks2.Equal(v[i].K) || !p.RbNeg.Equal(v[i].C) || !p.Q.Equal(v[i].K) || !bytes.Equal(p.Proof, hk.PB(v[i].C)) {
					return false
				}
			}
			return len(d.List) == n
		}
	default:
		m := []libunlynx.CipherVector{v, cv(t, "v3", n)}
		w := hk.MB(m)
		key := pt(t, "H")
		p := libunlynxshuffle.PublishedShufflingProof{OriginalList: m, ShuffledList: m, G: key, H: key, HashProof: want}
		var e libunlynxshuffle.PublishedShufflingProofBytes
		var d libunlynxshuffle.PublishedShufflingProof
		h.encode = func() (err error) { e, err = p.ToBytes(); return }
		h.decode = func() error { return d.FromBytes(e) }
		h.same = func() bool {
			return bytes.Equal(hk.MB(d.OriginalList), w) && bytes.Equal(hk.MB(d.ShuffledList), w) && d.G.Equal(key) && d.H.Equal(key) && bytes.Equal(d.HashProof, want)
		}
	}
	return h
}

// TestHeld: several values are encoded before the first one is decoded, and all
// are decoded before the first one is compared, one after the other or at once.
func TestHeld(t *testing.T) {
	hk.Check(t, 160, 3200, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{1, 2, 3, 6, 9, 40}).Draw(t, "n")
		k := rapid.IntRange(2, 8).Draw(t, "values")
		par := rapid.Bool().Draw(t, "parallel")
		var hs []*held
		desc := ""
		for i := 0; i < k; i++ {
			m := n
			if rapid.IntRange(0, 3).Draw(t, "otherLen") == 0 {
				m = rapid.IntRange(0, 12).Draw(t, "len")
			}
			hs = append(hs, drawHeld(t, m))
			desc += hs[i].desc + " "
		}
		hk.Case("Held", fmt.Sprintf("%s parallel=%v", desc, par), true, fmt.Sprint("parallel=", par))
		each := func(what string, f func(*held) error) {
			errs := make([]error, k)
			var wg sync.WaitGroup
			for i := range hs {
				if !par {
					errs[i] = f(hs[i])
					continue
				}
				wg.Add(1)
				go func(i int) { defer wg.Done(); errs[i] = f(hs[i]) }(i)
			}
			wg.Wait()
			for i, err := range errs {
				must(t, what+" "+hs[i].desc, err)
			}
		}
		each("encode", func(h *held) error { return h.encode() })
		each("decode", func(h *held) error { return h.decode() })
		for i, h := range hs {
			if !h.same() {
				t.Fatalf("%sencoded together (parallel %v): value %d (%s) changed", desc, par, i, h.desc)
			}
		}
	})
}

func matrix(t *rapid.T, name string) ([]libunlynx.CipherVector, string) {
	var m []libunlynx.CipherVector
	rows := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 99, 100, 101, 130}).Draw(t, name+"rows")
	desc := fmt.Sprint("rows=", rows, " lens=")
	var pool []libunlynx.CipherVector
	for i := 0; i < rows && i < 6; i++ {
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 7}).Draw(t, fmt.Sprintf("%slen%d", name, i))
		if rows < 4 && rapid.IntRange(0, 5).Draw(t, name+"big") == 0 {
			n = hk.Len(t, name+"bign", 0, 230)
		}
		pool = append(pool, cv(t, fmt.Sprintf("%s%d", name, i), n))
		desc += fmt.Sprint(n, ",")
	}
	for i := 0; i < rows; i++ {
		m = append(m, pool[i%len(pool)])
	}
	return m, desc
}

func TestMatrices(t *testing.T) {
	hk.Check(t, 480, 6000, func(t *rapid.T) {
		m, desc := matrix(t, "m")
		before := hk.MB(m)
		hk.Case("Matrices", desc, len(m) > 0)
		b, l, err := libunlynx.ArrayCipherVectorToBytes(m)
		must(t, "encode", err)
		d, err := libunlynx.FromBytesToArrayCipherVector(b, l)
		must(t, "decode", err)
		if !bytes.Equal(hk.MB(d), before) || !bytes.Equal(hk.MB(m), before) {
			t.Fatalf("list of vectors changed (%s)", desc)
		}
		b2, l2, err := libunlynx.ArrayCipherVectorToBytes(d)
		must(t, "re-encode", err)
		if !bytes.Equal(b, b2) || !bytes.Equal(l, l2) {
			t.Fatalf("second encoding differs")
		}
		sm := protocolsunlynx.ShufflingMessage{Data: m}
		sb, sl, err := sm.ToBytes()
		must(t, "shuffling message", err)
		var sm2 protocolsunlynx.ShufflingMessage
		must(t, "shuffling message", sm2.FromBytes(sb, sl))
		if !bytes.Equal(hk.MB(sm2.Data), before) {
			t.Fatalf("shuffling message changed (%s)", desc)
		}
		key := pt(t, "key")
		kb, err := libunlynx.AbstractPointsToBytes([]kyber.Point{key})
		must(t, "key", err)
		pm := protocolsunlynx.ShufflingPlusDDTMessage{Data: m, ShuffKey: key}
		pb, pl, err := pm.ToBytes()
		must(t, "shuffling+DDT message", err)
		var pm2 protocolsunlynx.ShufflingPlusDDTMessage
		must(t, "shuffling+DDT message", pm2.FromBytes(pb, kb, pl))
		if !bytes.Equal(hk.MB(pm2.Data), before) || !pm2.ShuffKey.Equal(key) {
			t.Fatalf("shuffling+DDT message changed (%s)", desc)
		}
	})
}

func frDesc(f libunlynx.FilteredResponse) []byte {
	return append(append([]byte{}, hk.VB(f.GroupByEnc)...), hk.VB(f.AggregatingAttributes)...)
}

func prDesc(p libunlynx.ProcessResponse) []byte {
	b := append(append([]byte{}, hk.VB(p.WhereEnc)...), hk.VB(p.GroupByEnc)...)
	return append(b, hk.VB(p.AggregatingAttributes)...)
}

func prdDesc(p libunlynx.ProcessResponseDet) []byte {
	return append(prDesc(p.PR), []byte(fmt.Sprintf("%q %q", p.DetTagGroupBy, p.DetTagWhere))...)
}

func TestResponses(t *testing.T) {
	hk.Check(t, 800, 16000, func(t *rapid.T) {
		l := func(n string) int { return hk.Len(t, n, 0, 5) }
		fr := libunlynx.FilteredResponse{GroupByEnc: cv(t, "fg", l("ng")), AggregatingAttributes: cv(t, "fa", l("na"))}
		nw := rapid.IntRange(0, 5).Draw(t, "nw")
		pr := libunlynx.ProcessResponse{GroupByEnc: cv(t, "pg", l("npg")), AggregatingAttributes: cv(t, "pa", l("npa")), WhereEnc: cv(t, "pw", nw)}
		frd := libunlynx.FilteredResponseDet{DetTagGroupBy: tag(t, "ftag"), Fr: fr}
		if rapid.IntRange(0, 4).Draw(t, "emptyTag") == 0 {
			frd.DetTagGroupBy = ""
		}
		prd := libunlynx.ProcessResponseDet{PR: pr, DetTagGroupBy: frd.DetTagGroupBy}
		for i := 0; i < nw; i++ {
			prd.DetTagWhere = append(prd.DetTagWhere, tag(t, fmt.Sprintf("wtag%d", i)))
		}
		n := len(fr.GroupByEnc) + len(fr.AggregatingAttributes) + len(pr.GroupByEnc) + len(pr.AggregatingAttributes) + nw
		hk.Case("Responses", fmt.Sprintf("fr %d/%d pr %d/%d/%d tag %q where %q", len(fr.GroupByEnc), len(fr.AggregatingAttributes),
			len(pr.WhereEnc), len(pr.GroupByEnc), len(pr.AggregatingAttributes), frd.DetTagGroupBy, prd.DetTagWhere), n > 0)
		frB, prB := frDesc(fr), prDesc(pr)

		b, g, a, err := fr.ToBytes()
		must(t, "filtered response", err)
		var fr2 libunlynx.FilteredResponse
		must(t, "filtered response", fr2.FromBytes(b, a, g))
		if !bytes.Equal(frDesc(fr2), frB) {
			t.Fatalf("filtered response changed")
		}
		b2, _, _, _ := fr2.ToBytes()
		if !bytes.Equal(b, b2) {
			t.Fatalf("filtered response: second encoding differs")
		}

		b, g, a, dl, err := frd.ToBytes()
		must(t, "tagged filtered response", err)
		var frd2 libunlynx.FilteredResponseDet
		must(t, "tagged filtered response", frd2.FromBytes(b, g, a, dl))
		if !bytes.Equal(frDesc(frd2.Fr), frB) || frd2.DetTagGroupBy != frd.DetTagGroupBy {
			t.Fatalf("tagged filtered response changed: tag %q -> %q", frd.DetTagGroupBy, frd2.DetTagGroupBy)
		}

		b, g, a, w, err := pr.ToBytes()
		must(t, "process response", err)
		var pr2 libunlynx.ProcessResponse
		must(t, "process response", pr2.FromBytes(b, g, a, w))
		if !bytes.Equal(prDesc(pr2), prB) {
			t.Fatalf("process response changed")
		}

		b, g, a, w, dg, dw, err := prd.ToBytes()
		must(t, "tagged process response", err)
		var prd2 libunlynx.ProcessResponseDet
		must(t, "tagged process response", prd2.FromBytes(b, g, a, w, dg, dw))
		if !bytes.Equal(prdDesc(prd2), prdDesc(prd)) {
			t.Fatalf("tagged process response changed: tags %q %q -> %q %q", prd.DetTagGroupBy, prd.DetTagWhere, prd2.DetTagGroupBy, prd2.DetTagWhere)
		}
		b3, _, _, _, _, _, _ := prd2.ToBytes()
		if !bytes.Equal(b, b3) {
			t.Fatalf("tagged process response: second encoding differs")
		}
		if !bytes.Equal(frDesc(fr), frB) || !bytes.Equal(prDesc(pr), prB) {
			t.Fatalf("encoding changed the value")
		}
	})
}

func TestAggregationMessage(t *testing.T) {
	hk.Check(t, 480, 6000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 10, 99, 100, 101, 120}).Draw(t, "n")
		g := rapid.IntRange(0, 3).Draw(t, "g")
		a := rapid.IntRange(1, 4).Draw(t, "a")
		tl := rapid.SampledFrom([]int{0, 1, 10, 64}).Draw(t, "tagLen")
		var msg protocolsunlynx.ChildAggregatedDataMessage
		pool := []libunlynx.FilteredResponse{}
		for i := 0; i < n && i < 4; i++ {
			pool = append(pool, libunlynx.FilteredResponse{GroupByEnc: cv(t, fmt.Sprint("g", i), g), AggregatingAttributes: cv(t, fmt.Sprint("a", i), a)})
		}
		for i := 0; i < n; i++ {
			tg := fmt.Sprintf("%064d", i)[64-tl:]
			msg.ChildData = append(msg.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(tg), Fr: pool[i%4%len(pool)]})
		}
		hk.Case("AggregationMessage", fmt.Sprintf("n=%d g=%d a=%d tag=%d", n, g, a, tl), n > 0, hk.LenClass(n))
		b, gl, al, dl, err := msg.ToBytes()
		must(t, "encode", err)
		var d protocolsunlynx.ChildAggregatedDataMessage
		must(t, "decode", d.FromBytes(b, gl, al, dl))
		if len(d.ChildData) != n {
			t.Fatalf("%d responses became %d", n, len(d.ChildData))
		}
		for i := range d.ChildData {
			if d.ChildData[i].DetTagGroupBy != msg.ChildData[i].DetTagGroupBy || !bytes.Equal(frDesc(d.ChildData[i].Fr), frDesc(msg.ChildData[i].Fr)) {
				t.Fatalf("response %d of %d changed", i, n)
			}
		}
	})
}

func clear(t *rapid.T, n string) map[string]int64 {
	m := map[string]int64{}
	k := rapid.IntRange(0, 4).Draw(t, n+"n")
	for i := 0; i < k; i++ {
		m[rapid.StringMatching(`[a-z]{1,3}[0-9]{0,2}`).Draw(t, fmt.Sprint(n, "k", i))] = int64(rapid.IntRange(-500, 5000).Draw(t, fmt.Sprint(n, "v", i)))
	}
	return m
}

func copyMap(m map[string]int64) map[string]int64 {
	o := map[string]int64{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func TestProviderResponses(t *testing.T) {
	hk.Check(t, 480, 6000, func(t *rapid.T) {
		priv, pub := hk.KeyPair(t, "key")
		r := libunlynx.DpClearResponse{WhereClear: clear(t, "wc"), WhereEnc: clear(t, "we"), GroupByClear: clear(t, "gc"), GroupByEnc: clear(t, "ge"),
			AggregatingAttributesClear: clear(t, "ac"), AggregatingAttributesEnc: clear(t, "ae")}
		count := rapid.Bool().Draw(t, "count")
		n := len(r.WhereEnc) + len(r.GroupByEnc) + len(r.AggregatingAttributesEnc)
		hk.Case("ProviderResponses", fmt.Sprintf("%v count=%v", r, count), n > 0)
		before := libunlynx.DpClearResponse{WhereClear: copyMap(r.WhereClear), WhereEnc: copyMap(r.WhereEnc), GroupByClear: copyMap(r.GroupByClear),
			GroupByEnc: copyMap(r.GroupByEnc), AggregatingAttributesClear: copyMap(r.AggregatingAttributesClear), AggregatingAttributesEnc: copyMap(r.AggregatingAttributesEnc)}
		s, err := libunlynx.EncryptDpClearResponse(r, pub, count)
		must(t, "encrypt", err)
		if !reflect.DeepEqual(r, before) {
			t.Fatalf("the clear response was changed: %v -> %v", before, r)
		}
		// through the network encoding
		q := &servicesunlynx.SurveyResponseQuery{SurveyID: "s", Responses: []libunlynx.DpResponseToSend{s}}
		raw, err := network.Marshal(q)
		must(t, "marshal", err)
		_, back, err := network.Unmarshal(raw, libunlynx.SuiTe)
		must(t, "unmarshal", err)
		q2, ok := back.(*servicesunlynx.SurveyResponseQuery)
		if !ok || q2.SurveyID != "s" || len(q2.Responses) != 1 {
			t.Fatalf("upload changed on the wire: %v", back)
		}
		for k, src := range []libunlynx.DpResponseToSend{s, q2.Responses[0]} {
			var d libunlynx.DpResponse
			must(t, "decode", d.FromDpResponseToSend(src))
			want := copyMap(r.AggregatingAttributesEnc)
			if count {
				want["count"] = 1
			}
			for what, x := range map[string]struct {
				got  map[string]libunlynx.CipherText
				want map[string]int64
			}{"where": {d.WhereEnc, r.WhereEnc}, "groupBy": {d.GroupByEnc, r.GroupByEnc}, "aggregating": {d.AggregatingAttributesEnc, want}} {
				if len(x.got) != len(x.want) {
					t.Fatalf("source %d %s: %d attributes, want %d", k, what, len(x.got), len(x.want))
				}
				for name, v := range x.want {
					c, ok := x.got[name]
					if !ok || !hk.DecryptsTo(priv, c, v) {
						t.Fatalf("source %d %s: attribute %s does not decrypt to %d", k, what, name, v)
					}
				}
			}
			for what, x := range map[string][2]map[string]int64{"where": {d.WhereClear, r.WhereClear}, "groupBy": {d.GroupByClear, r.GroupByClear}, "aggregating": {d.AggregatingAttributesClear, r.AggregatingAttributesClear}} {
				if len(x[0]) != len(x[1]) {
					t.Fatalf("clear %s changed: %v -> %v", what, x[1], x[0])
				}
				for n, v := range x[1] {
					if g, ok := x[0][n]; !ok || g != v {
						t.Fatalf("clear %s changed: %v -> %v", what, x[1], x[0])
					}
				}
			}
		}
		enc := map[string][]byte{}
		for name, v := range s.GroupByEnc {
			enc[name] = v
		}
		m, err := libunlynx.MapBytesToMapCipherText(enc)
		must(t, "map", err)
		if len(m) != len(enc) {
			t.Fatalf("map of %d became %d", len(enc), len(m))
		}
	})
}

func TestSurveyQuery(t *testing.T) {
	hk.Check(t, 320, 3200, func(t *rapid.T) {
		n := rapid.IntRange(1, 4).Draw(t, "servers")
		var ids []*network.ServerIdentity
		for i := 0; i < n; i++ {
			ids = append(ids, network.NewServerIdentity(pt(t, fmt.Sprint("pub", i)), network.NewAddress(network.PlainTCP, fmt.Sprintf("127.0.0.1:%d", 2000+i))))
		}
		words := rapid.SliceOfN(rapid.StringMatching(`[a-z]{1,4}[0-9]?`), 0, 4)
		q := &servicesunlynx.SurveyCreationQuery{SurveyID: servicesunlynx.SurveyID(rapid.StringMatching(`[a-z0-9-]{0,12}`).Draw(t, "id")), Roster: *onet.NewRoster(ids),
			ClientPubKey: pt(t, "client"), MapDPs: map[string]int64{}, Proofs: rapid.Bool().Draw(t, "p"), AppFlag: rapid.Bool().Draw(t, "a"), IntraMessage: rapid.Bool().Draw(t, "i"),
			Source: ids[0], Sum: words.Draw(t, "sum"), Count: rapid.Bool().Draw(t, "c"), Predicate: rapid.StringMatching(`[a-z0-9 =&|()!]{0,30}`).Draw(t, "pred"), GroupBy: words.Draw(t, "grp")}
		for i, w := range words.Draw(t, "where") {
			q.Where = append(q.Where, libunlynx.WhereQueryAttribute{Name: w, Value: ct(t, fmt.Sprint("w", i))})
		}
		for _, id := range ids {
			q.MapDPs[id.String()] = int64(rapid.IntRange(0, 300).Draw(t, "dps"))
		}
		hk.Case("SurveyQuery", fmt.Sprintf("%v %v %v %v %q", q.Sum, q.Count, q.GroupBy, len(q.Where), q.Predicate), len(q.Sum)+len(q.Where)+len(q.GroupBy) > 0)
		raw, err := network.Marshal(q)
		must(t, "marshal", err)
		_, back, err := network.Unmarshal(raw, libunlynx.SuiTe)
		must(t, "unmarshal", err)
		d, ok := back.(*servicesunlynx.SurveyCreationQuery)
		if !ok {
			t.Fatalf("type changed")
		}
		same := d.SurveyID == q.SurveyID && d.ClientPubKey.Equal(q.ClientPubKey) && reflect.DeepEqual(d.MapDPs, q.MapDPs) && d.Proofs == q.Proofs && d.AppFlag == q.AppFlag &&
			d.IntraMessage == q.IntraMessage && d.Count == q.Count && d.Predicate == q.Predicate && hk.SameStrings(d.Sum, q.Sum) && hk.SameStrings(d.GroupBy, q.GroupBy) &&
			len(d.Where) == len(q.Where) && len(d.Roster.List) == n && d.Source.Equal(q.Source)
		if !same {
			t.Fatalf("query changed:\n%+v\n%+v", q, d)
		}
		for i := range q.Where {
			if d.Where[i].Name != q.Where[i].Name || !bytes.Equal(hk.CB(d.Where[i].Value), hk.CB(q.Where[i].Value)) {
				t.Fatalf("where attribute %d changed", i)
			}
		}
		res := &servicesunlynx.ServiceResult{Results: []libunlynx.FilteredResponse{{GroupByEnc: cv(t, "rg", rapid.IntRange(0, 3).Draw(t, "rgn")), AggregatingAttributes: cv(t, "ra", rapid.IntRange(0, 3).Draw(t, "ran"))}}}
		raw, err = network.Marshal(res)
		must(t, "marshal", err)
		_, back, err = network.Unmarshal(raw, libunlynx.SuiTe)
		must(t, "unmarshal", err)
		if r2 := back.(*servicesunlynx.ServiceResult); len(r2.Results) != 1 || !bytes.Equal(frDesc(r2.Results[0]), frDesc(res.Results[0])) {
			t.Fatalf("result changed on the wire")
		}
	})
}

func TestKeysAndIntegers(t *testing.T) {
	hk.Check(t, 8000, 240000, func(t *rapid.T) {
		wide := rapid.OneOf(rapid.Int64Range(-12, 120), rapid.Int64(), rapid.SampledFrom([]int64{0, 9, 10, -1, 1 << 62, -1 << 63, 1<<63 - 1}))
		ints := rapid.SliceOfN(wide, 0, 6).Draw(t, "ints")
		hk.Case("KeysAndIntegers", fmt.Sprint(ints), len(ints) > 0)
		cp := append([]int64{}, ints...)
		k := libunlynx.Key(ints)
		back, err := libunlynx.UnKey(k)
		must(t, "UnKey", err)
		if !hk.SameInts(back, ints) {
			t.Fatalf("key %q of %v reads back as %v", k, ints, back)
		}
		if k2 := libunlynx.Key(back); k2 != k {
			t.Fatalf("second encoding %q of %q", k2, k)
		}
		other := rapid.SliceOfN(wide, 0, 6).Draw(t, "other")
		if (libunlynx.Key(other) == k) != hk.SameInts(other, ints) {
			t.Fatalf("keys of %v and %v: %q %q", ints, other, k, libunlynx.Key(other))
		}
		s := libunlynxtools.Int64ArrayToString(ints)
		if g := libunlynxtools.StringToInt64Array(s); !hk.SameInts(g, ints) {
			t.Fatalf("text %q of %v reads back as %v", s, ints, g)
		}
		first := rapid.SampledFrom([]string{"s", "g", "w", "attr", ""}).Draw(t, "prefix")
		start := rapid.IntRange(0, 12).Draw(t, "start")
		m := libunlynxtools.ConvertDataToMap(ints, first, start)
		if len(m) != len(ints) {
			t.Fatalf("map of %d values has %d", len(ints), len(m))
		}
		for i, v := range ints {
			if g, ok := m[fmt.Sprint(first, start+i)]; !ok || g != v {
				t.Fatalf("attribute %s%d is %d, want %d", first, start+i, g, v)
			}
		}
		if g := libunlynxtools.ConvertMapToData(m, first, start); !hk.SameInts(g, ints) {
			t.Fatalf("map %v reads back as %v, want %v", m, g, ints)
		}
		if !hk.SameInts(ints, cp) {
			t.Fatalf("encoding changed the value")
		}
		lens := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 1<<31-1), rapid.SampledFrom([]int{255, 256, 65535, 65536, 1<<24 - 1, 1 << 24})), 0, 8).Draw(t, "lens")
		bs := libunlynxtools.UnsafeCastIntsToBytes(lens)
		ls := libunlynxtools.UnsafeCastBytesToInts(bs)
		if fmt.Sprint(ls) != fmt.Sprint(lens) {
			t.Fatalf("lengths %v read back as %v", lens, ls)
		}
	})
}

func TestProofs(t *testing.T) {
	hk.Check(t, 240, 2400, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 7, 101}).Draw(t, "n")
		hk.Case("Proofs", fmt.Sprint("n=", n), n > 0, hk.LenClass(n))
		pool := cv(t, "pool", 8)
		blob := rapid.SliceOfN(rapid.Byte(), 0, 200)
		ks := libunlynxkeyswitch.PublishedKSListProof{}
		ag := libunlynxaggr.PublishedAggregationListProof{}
		for i := 0; i < n; i++ {
			a, b, c := pool[i%8], pool[(i*3+1)%8], pool[(i*5+2)%8]
			var pf []byte
			if i < 3 {
				pf = blob.Draw(t, fmt.Sprint("proof", i))
			}
			ks.List = append(ks.List, libunlynxkeyswitch.PublishedKSProof{K: a.K, ViB: a.C, Ks2: b.K, RbNeg: b.C, Q: c.K, Proof: pf})
			data := libunlynx.CipherVector{a, b, c}[:i%4]
			if i == 0 {
				data = cv(t, "data", hk.Len(t, "dn", 0, 120))
			}
			ag.List = append(ag.List, libunlynxaggr.PublishedAggregationProof{Data: data, AggregationResult: c})
		}
		kb, err := ks.ToBytes()
		must(t, "key-switch proofs", err)
		var ks2 libunlynxkeyswitch.PublishedKSListProof
		must(t, "key-switch proofs", ks2.FromBytes(kb))
		if len(ks2.List) != n {
			t.Fatalf("%d key-switch proofs became %d", n, len(ks2.List))
		}
		for i, p := range ks.List {
			q := ks2.List[i]
			if !p.K.Equal(q.K) || !p.ViB.Equal(q.ViB) || !p.Ks2.Equal(q.Ks2) || !p.RbNeg.Equal(q.RbNeg) || !p.Q.Equal(q.Q) || !bytes.Equal(p.Proof, q.Proof) {
				t.Fatalf("key-switch proof %d changed", i)
			}
		}
		ab, err := ag.ToBytes()
		must(t, "aggregation proofs", err)
		var ag2 libunlynxaggr.PublishedAggregationListProof
		must(t, "aggregation proofs", ag2.FromBytes(ab))
		if len(ag2.List) != n {
			t.Fatalf("%d aggregation proofs became %d", n, len(ag2.List))
		}
		for i, p := range ag.List {
			if !hk.VecEq(p.Data, ag2.List[i].Data) || !bytes.Equal(hk.CB(p.AggregationResult), hk.CB(ag2.List[i].AggregationResult)) {
				t.Fatalf("aggregation proof %d changed", i)
			}
		}
		orig, _ := matrix(t, "orig")
		shuf, _ := matrix(t, "shuf")
		sp := libunlynxshuffle.PublishedShufflingProof{OriginalList: orig, ShuffledList: shuf, G: pt(t, "G"), H: pt(t, "H"), HashProof: blob.Draw(t, "hp")}
		sb, err := sp.ToBytes()
		must(t, "shuffling proof", err)
		var sp2 libunlynxshuffle.PublishedShufflingProof
		must(t, "shuffling proof", sp2.FromBytes(sb))
		if !bytes.Equal(hk.MB(sp2.OriginalList), hk.MB(orig)) || !bytes.Equal(hk.MB(sp2.ShuffledList), hk.MB(shuf)) || !sp2.G.Equal(sp.G) || !sp2.H.Equal(sp.H) || !bytes.Equal(sp2.HashProof, sp.HashProof) {
			t.Fatalf("shuffling proof changed")
		}
	})
}

func preDesc(x []libunlynxshuffle.CipherVectorScalar) string {
	s := fmt.Sprint(len(x))
	for _, l := range x {
		s += fmt.Sprintf("[%x %v]", hk.VB(l.CipherV), l.S)
	}
	return s
}

func TestPrecomputed(t *testing.T) {
	dir := t.TempDir()
	k := 0
	hk.Check(t, 240, 2400, func(t *rapid.T) {
		lines := rapid.IntRange(0, 4).Draw(t, "lines")
		var x []libunlynxshuffle.CipherVectorScalar
		for i := 0; i < lines; i++ {
			n := rapid.IntRange(0, 6).Draw(t, fmt.Sprint("n", i))
			l := libunlynxshuffle.CipherVectorScalar{CipherV: cv(t, fmt.Sprint("c", i), n)}
			for j := 0; j < n; j++ {
				l.S = append(l.S, hk.Scalar(t, fmt.Sprint("s", i, j)))
			}
			x = append(x, l)
		}
		hk.Case("Precomputed", preDesc(x)[:min(len(preDesc(x)), 100)], lines > 0)
		before := preDesc(x)
		e, err := libunlynxshuffle.EncodeCipherVectorScalar(x)
		must(t, "encode", err)
		d, err := libunlynxshuffle.DecodeCipherVectorScalar(e)
		must(t, "decode", err)
		if preDesc(d) != before || preDesc(x) != before {
			t.Fatalf("precomputed material changed")
		}
		k++
		f := filepath.Join(dir, fmt.Sprint("pre", k%3, ".gob"))
		must(t, "write", libunlynxtools.WriteToGobFile(f, e))
		r, err := libunlynxshuffle.ReadPrecomputedFile(f)
		must(t, "read", err)
		if preDesc(r) != before {
			t.Fatalf("precomputed material changed in the file")
		}
		var raw []libunlynxshuffle.CipherVectorScalarBytes
		must(t, "read", libunlynxtools.ReadFromGobFile(f, &raw))
		d, err = libunlynxshuffle.DecodeCipherVectorScalar(raw)
		must(t, "decode", err)
		if preDesc(d) != before {
			t.Fatalf("precomputed material changed in the file")
		}
		os.Remove(f)
		if rapid.IntRange(0, 3).Draw(t, "real") == 0 {
			_, pub := hk.KeyPair(t, "key")
			ls := rapid.IntRange(1, 3).Draw(t, "lineSize")
			p, err := libunlynxshuffle.PrecomputeForShuffling("s", f, hk.Scalar(t, "secret"), pub, ls)
			must(t, "precompute", err)
			r, err := libunlynxshuffle.ReadPrecomputedFile(f)
			must(t, "read", err)
			if preDesc(r) != preDesc(p) {
				t.Fatalf("the stored precomputed material is not the returned one")
			}
			os.Remove(f)
		}
	})
}
