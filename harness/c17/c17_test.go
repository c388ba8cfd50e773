package c17

import (
	"fmt"
	"testing"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynxutils "github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	cl.Register("vAR", protocolsunlynxutils.NewAddRmProtocol)
	hk.Main(m,
		"Histories of one to six joins and departures (any server may leave, in any order; keys random or small) are run with the protocol on ciphertext vectors of 0 to 500 values of one or several encryptions, with and without proofs. After every step each value must decrypt, in its place, to the original plaintext point under the sum of the keys of the present servers, must not under the sum before the step, and the input of the step must be unaltered; whenever the set of servers is one that was there before, the ciphertexts must be those of that time. Non-trivial: at least two values and at least two steps.",
		"plaintext points are compared directly, so values need not be small")
}

func TestHistory(t *testing.T) {
	hk.Check(t, 250, 4000, func(t *rapid.T) {
		net := cl.Draw(t, 1, 1)
		n := hk.Len(t, "values", 0, 30)
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			n = rapid.SampledFrom([]int{99, 100, 101, 200, 201, 500}).Draw(t, "n")
		}
		steps := rapid.IntRange(1, 6).Draw(t, "steps")
		if n > 50 {
			steps = rapid.IntRange(1, 2).Draw(t, "fewSteps")
		}
		type server struct {
			id int
			k  kyber.Scalar
		}
		var present []server
		next := 0
		join := func() server {
			k := libunlynx.SuiTe.Scalar().SetInt64(int64(next + 1))
			if rapid.IntRange(0, 3).Draw(t, "smallKey") > 0 {
				k = hk.Scalar(t, "key")
			}
			s := server{next, k}
			next++
			return s
		}
		sum := func(l []server) kyber.Scalar {
			s := libunlynx.SuiTe.Scalar().Zero()
			for _, x := range l {
				s = libunlynx.SuiTe.Scalar().Add(s, x.k)
			}
			return s
		}
		ids := func(l []server) string {
			m := make([]bool, next)
			for _, x := range l {
				m[x.id] = true
			}
			out := ""
			for i, b := range m {
				if b {
					out += fmt.Sprint(i, ",")
				}
			}
			return out
		}
		for i, k := 0, rapid.IntRange(1, 3).Draw(t, "initially"); i < k; i++ {
			present = append(present, join())
		}
		pub := libunlynx.SuiTe.Point().Mul(sum(present), nil)
		r0, rs := hk.Scalar(t, "r0"), hk.Scalar(t, "rs")
		vals := hk.Ints(t, "vals", n, hk.Small)
		plain := make([]kyber.Point, n)
		cur := make([]libunlynx.CipherText, n)
		base, step := hk.EncRef(pub, 0, r0), hk.EncRef(pub, 0, rs)
		same := rapid.IntRange(0, 5).Draw(t, "sameRandomness") == 0
		for i := range cur {
			plain[i] = hk.IntPoint(vals[i])
			if !same {
				base = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(base.K, step.K), C: libunlynx.SuiTe.Point().Add(base.C, step.C)}
			}
			cur[i] = libunlynx.CipherText{K: base.K, C: libunlynx.SuiTe.Point().Add(base.C, plain[i])}
		}
		seen := map[string][]byte{ids(present): hk.VB(cur)}
		history := ""
		for s := 0; s < steps; s++ {
			add := len(present) == 0 || rapid.Bool().Draw(t, "add")
			before := sum(present)
			var key kyber.Scalar
			if add {
				x := join()
				present, key = append(append([]server{}, present...), x), x.k
				history += fmt.Sprintf(" +%d", x.id)
			} else {
				i := rapid.IntRange(0, len(present)-1).Draw(t, "leaves")
				key = present[i].k
				history += fmt.Sprintf(" -%d", present[i].id)
				present = append(append([]server{}, present[:i]...), present[i+1:]...)
			}
			proofs := n <= 12 && rapid.Bool().Draw(t, "proofs")
			if proofs {
				history += "p"
			}
			in := append([]libunlynx.CipherText{}, cur...)
			inBytes, keyBytes := hk.VB(in), fmt.Sprint(key)
			var out []libunlynx.CipherText
			net = net.Again()
			net.MustRun(t, "vAR", func(pi onet.ProtocolInstance, _ *onet.TreeNodeInstance) {
				p := pi.(*protocolsunlynxutils.AddRmServerProtocol)
				p.TargetOfTransformation, p.KeyToRm, p.Proofs, p.Add = in, key, proofs, add
			}, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
				select {
				case out = <-pi.(*protocolsunlynxutils.AddRmServerProtocol).FeedbackChannel:
					return true
				case <-stop:
					return false
				}
			})
			if len(out) != n {
				t.Fatalf("%d values became %d (%s)", n, len(out), history)
			}
			if string(hk.VB(in)) != string(inBytes) || fmt.Sprint(key) != keyBytes {
				t.Fatalf("the step altered its input (%s)", history)
			}
			after := sum(present)
			for i := range out {
				if !hk.DecPoint(after, out[i]).Equal(plain[i]) {
					t.Fatalf("value %d of %d does not decrypt to %d under the new key (%s)", i, n, vals[i], history)
				}
				if !after.Equal(before) && !out[i].K.Equal(libunlynx.SuiTe.Point().Null()) && hk.DecPoint(before, out[i]).Equal(plain[i]) {
					t.Fatalf("value %d of %d still decrypts under the key before the step (%s)", i, n, history)
				}
			}
			if b, ok := seen[ids(present)]; ok && string(b) != string(hk.VB(out)) {
				t.Fatalf("the servers are {%s} again, but the ciphertexts are not those of that time (%s)", ids(present), history)
			}
			seen[ids(present)] = hk.VB(out)
			cur = out
		}
		hk.Case("rekey", fmt.Sprintf("%d values%s", n, history), n > 1 && steps > 1, hk.LenClass(n), fmt.Sprint("steps=", steps))
	})
}
