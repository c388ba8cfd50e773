package cl

import (
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"

	"verif/harness/hk"
)

func init() {
	Register("vKS", protocolsunlynx.NewKeySwitchingProtocol)
	Register("vShuffle", protocolsunlynx.NewShufflingProtocol)
	Register("vDDT", protocolsunlynx.NewDeterministicTaggingProtocol)
	Register("vSDDT", protocolsunlynx.NewShufflingPlusDDTProtocol)
	Register("vAggr", protocolsunlynx.NewCollectiveAggregationProtocol)
}

// KSCall is what a server handed to its proof function.
type KSCall struct {
	Server     int
	Pub, Q     kyber.Point
	Priv       kyber.Scalar
	Ks2, RbNeg []kyber.Point
	Vis        []kyber.Scalar
	Proof      libunlynxkeyswitch.PublishedKSListProof
	Err        error
}

// KeySwitch runs the key switching protocol.
func (n Net) KeySwitch(t hk.TB, target libunlynx.CipherVector, Q kyber.Point, proofs bool) (libunlynx.CipherVector, []KSCall) {
	t.Helper()
	var mu sync.Mutex
	var calls []KSCall
	var out libunlynx.CipherVector
	var conf = func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		p.Proofs = proofs
		if proofs {
			srv := n.IndexOf(tn.ServerIdentity())
			p.ProofFunc = func(pub, q kyber.Point, priv kyber.Scalar, ks2, neg []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
				c := KSCall{Server: srv, Pub: pub, Q: q, Priv: priv, Ks2: ks2, RbNeg: neg, Vis: vis}
				c.Proof, c.Err = libunlynxkeyswitch.KeySwitchListProofCreation(pub, q, priv, ks2, neg, vis)
				mu.Lock()
				calls = append(calls, c)
				mu.Unlock()
				return &c.Proof
			}
		}
		if tn.IsRoot() {
			mu.Lock()
			calls = nil
			mu.Unlock()
			p.TargetOfSwitch = &target
			p.TargetPublicKey = &Q
		}
	}
	n.MustRun(t, "vKS", conf, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
		select {
		case out = <-pi.(*protocolsunlynx.KeySwitchingProtocol).FeedbackChannel:
			return true
		case <-stop:
			return false
		}
	})
	mu.Lock()
	defer mu.Unlock()
	return out, calls
}

// ShuffleCall is what a server handed to its proof function.
type ShuffleCall struct {
	Server  int
	In, Out []libunlynx.CipherVector
	H       kyber.Point
	Beta    [][]kyber.Scalar
	Pi      []int
}

// Shuffle runs the shuffling protocol. pre gives the precomputed lines of the
// server with this roster index (may be nil).
func (n Net) Shuffle(t hk.TB, target []libunlynx.CipherVector, pre func(int) []libunlynxshuffle.CipherVectorScalar, proofs bool, key kyber.Point) ([]libunlynx.CipherVector, []ShuffleCall) {
	t.Helper()
	var mu sync.Mutex
	var calls []ShuffleCall
	var out []libunlynx.CipherVector
	conf := func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		p.Proofs = proofs
		srv := n.IndexOf(tn.ServerIdentity())
		p.CollectiveKey = key
		if pre != nil {
			p.Precomputed = pre(srv)
		}
		if proofs {
			p.ProofFunc = func(in, o []libunlynx.CipherVector, h kyber.Point, beta [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
				mu.Lock()
				calls = append(calls, ShuffleCall{srv, hk.CopyM(in), hk.CopyM(o), h, beta, perm})
				mu.Unlock()
				return nil
			}
		}
		if tn.IsRoot() {
			mu.Lock()
			calls = nil
			mu.Unlock()
			p.ShuffleTarget = &target
		}
	}
	n.MustRun(t, "vShuffle", conf, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
		select {
		case out = <-pi.(*protocolsunlynx.ShufflingProtocol).FeedbackChannel:
			return true
		case <-stop:
			return false
		}
	})
	mu.Lock()
	defer mu.Unlock()
	return out, calls
}

// Tag runs the deterministic tagging protocol with the servers' survey secrets.
func (n Net) Tag(t hk.TB, target libunlynx.CipherVector, secret func(int) kyber.Scalar, proofs bool) []libunlynx.DeterministCipherText {
	t.Helper()
	var out []libunlynx.DeterministCipherText
	conf := func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
		p := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
		p.Proofs = proofs
		s := secret(n.IndexOf(tn.ServerIdentity()))
		p.SurveySecretKey = &s
		if tn.IsRoot() {
			p.TargetOfSwitch = &target
		}
	}
	n.MustRun(t, "vDDT", conf, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
		select {
		case out = <-pi.(*protocolsunlynx.DeterministicTaggingProtocol).FeedbackChannel:
			return true
		case <-stop:
			return false
		}
	})
	return out
}

// ShuffleTag runs the combined protocol.
func (n Net) ShuffleTag(t hk.TB, target []libunlynx.CipherVector, secret func(int) kyber.Scalar, pre func(int) []libunlynxshuffle.CipherVectorScalar, proofs bool) []libunlynx.DeterministCipherVector {
	t.Helper()
	var out []libunlynx.DeterministCipherVector
	conf := func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
		p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
		p.Proofs = proofs
		i := n.IndexOf(tn.ServerIdentity())
		s := secret(i)
		p.SurveySecretKey = &s
		if pre != nil {
			p.Precomputed = pre(i)
		}
		if tn.IsRoot() {
			p.TargetData = &target
		}
	}
	n.MustRun(t, "vSDDT", conf, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
		select {
		case out = <-pi.(*protocolsunlynx.ShufflingPlusDDTProtocol).FeedbackChannel:
			return true
		case <-stop:
			return false
		}
	})
	return out
}

// AggrCall is what a server handed to its proof function.
type AggrCall struct {
	Server int
	Data   []libunlynx.CipherVector
	Res    libunlynx.CipherVector
}

// Grouped is the data of one server.
type Grouped = map[libunlynx.GroupingKey]libunlynx.FilteredResponse

// Aggregate runs the collective aggregation; data gives each server's groups or
// plain values.
func (n Net) Aggregate(t hk.TB, data func(int) (Grouped, []libunlynx.CipherText), proofs bool) (Grouped, []AggrCall) {
	t.Helper()
	var mu sync.Mutex
	var calls []AggrCall
	var out Grouped
	conf := func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		p.Proofs = proofs
		srv := n.IndexOf(tn.ServerIdentity())
		g, s := data(srv)
		if g != nil {
			p.GroupedData = &g
		} else {
			p.SimpleData = &s
		}
		if tn.IsRoot() {
			mu.Lock()
			calls = nil
			mu.Unlock()
		}
		if proofs {
			p.ProofFunc = func(d []libunlynx.CipherVector, r libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
				mu.Lock()
				calls = append(calls, AggrCall{srv, hk.CopyM(d), hk.Copy(r)})
				mu.Unlock()
				return nil
			}
		}
	}
	n.MustRun(t, "vAggr", conf, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
		select {
		case r := <-pi.(*protocolsunlynx.CollectiveAggregationProtocol).FeedbackChannel:
			out = r.GroupedData
			return true
		case <-stop:
			return false
		}
	})
	mu.Lock()
	defer mu.Unlock()
	return out, calls
}
