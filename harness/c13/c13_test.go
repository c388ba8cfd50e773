package c13

import (
	"fmt"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Honest shuffles of generated matrices (2 to 12 rows, sometimes more, 1 to 6 columns, sometimes over 100; duplicate and clear rows; with and without precomputed randomness) are proved and must verify alone, in a list and after serialisation; then the output or input (ciphertext altered, rows dropped, duplicated, swapped, replaced, values moved between rows or columns, values shifted between ciphertexts), a key, the seed or the proof bytes are altered, or the proof is made for an output that is not a shuffle, and verification must refuse without crashing, alone and in a list. What the servers hand to their proof function in protocol runs over generated trees must form verifying proofs, one per server, that chain from the input to the output. Non-trivial: every case (at least two rows).",
		"the discrete logarithm in the group is hard; appending bytes to a proof is not an alteration (the proof library ignores them); fewer than two rows cannot be proved and must be refused with an error")
}

type inst struct {
	H    kyber.Point
	in   []libunlynx.CipherVector
	pre  []libunlynxshuffle.CipherVectorScalar
	desc string
}

func gen(t *rapid.T) inst {
	var x inst
	_, x.H = hk.KeyPair(t, "h")
	rows, cols := rapid.IntRange(2, 7).Draw(t, "rows"), rapid.IntRange(1, 5).Draw(t, "cols")
	switch rapid.IntRange(0, 19).Draw(t, "shape") {
	case 0:
		rows, cols = rapid.IntRange(8, 40).Draw(t, "manyRows"), 1
	case 1:
		rows, cols = 2, rapid.SampledFrom([]int{99, 100, 101, 130}).Draw(t, "manyCols")
	}
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	step := hk.EncRef(x.H, 1, hk.Scalar(t, "step"))
	c := hk.EncRef(x.H, hk.Small(t, "m"), hk.Scalar(t, "r"))
	for i := 0; i < rows; i++ {
		row := make(libunlynx.CipherVector, cols)
		for j := range row {
			c = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(c.K, step.K), C: libunlynx.SuiTe.Point().Add(c.C, step.C)}
			row[j] = c
			if kind == 2 && (i+j)%3 == 0 {
				row[j] = libunlynx.IntToCipherText(int64(i % 2))
			}
		}
		if kind == 1 && i%2 == 1 {
			row = hk.Copy(x.in[i-1])
		}
		if kind == 3 && i > 0 { // shares some columns with the first row
			row[0] = x.in[0][0]
		}
		x.in = append(x.in, row)
	}
	pre := rapid.IntRange(0, 2).Draw(t, "pre")
	if pre > 0 {
		x.pre = libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), x.H, libunlynx.SuiTe.RandomStream(), cols*pre, rapid.IntRange(1, 10).Draw(t, "lines"))
	}
	x.desc = fmt.Sprintf("%dx%d kind %d precomputed %d", rows, cols, kind, pre)
	return x
}

func (x inst) prove(t *rapid.T) (libunlynxshuffle.PublishedShufflingProof, []int, [][]kyber.Scalar) {
	out, pi, beta := libunlynxshuffle.ShuffleSequence(x.in, libunlynx.SuiTe.Point().Base(), x.H, x.pre)
	p, err := libunlynxshuffle.ShuffleProofCreation(x.in, out, libunlynx.SuiTe.Point().Base(), x.H, beta, pi)
	if err != nil {
		t.Fatalf("%s: creating an honest proof: %v", x.desc, err)
	}
	return p, pi, beta
}

func single(p libunlynxshuffle.PublishedShufflingProof, seed kyber.Point) func() bool {
	return func() bool { return libunlynxshuffle.ShuffleProofVerification(p, seed) }
}
func list(seed kyber.Point, p ...libunlynxshuffle.PublishedShufflingProof) func() bool {
	return func() bool {
		return libunlynxshuffle.ShuffleListProofVerification(libunlynxshuffle.PublishedShufflingListProof{List: p}, seed, 1.0)
	}
}

func transported(t *rapid.T, p libunlynxshuffle.PublishedShufflingProof) libunlynxshuffle.PublishedShufflingProof {
	b, err := p.ToBytes()
	if err != nil {
		t.Fatalf("encoding the proof: %v", err)
	}
	var out libunlynxshuffle.PublishedShufflingProof
	if err := out.FromBytes(b); err != nil {
		t.Fatalf("decoding the proof: %v", err)
	}
	return out
}

func TestHonest(t *testing.T) {
	hk.Check(t, 90, 1500, func(t *rapid.T) {
		x := gen(t)
		before := string(hk.MB(x.in))
		p, _, _ := x.prove(t)
		hk.Case("honest", x.desc, true, fmt.Sprint("precomputed=", x.pre != nil))
		hk.Accept(t, x.desc, single(p, x.H))
		hk.Accept(t, x.desc+" transported", single(transported(t, p), x.H))
		n := rapid.IntRange(0, 3).Draw(t, "list")
		ps := []libunlynxshuffle.PublishedShufflingProof{p}
		for i := 0; i < n; i++ {
			y := x
			q, _, _ := y.prove(t)
			ps = append(ps, transported(t, q))
		}
		hk.Accept(t, x.desc+" list", list(x.H, ps...))
		if string(hk.MB(p.OriginalList)) != before || string(hk.MB(x.in)) != before {
			t.Fatalf("%s: the proof is about another input, or the input was changed", x.desc)
		}
	})
}

// Several proofs made by the list function, with different shapes.
func TestHonestList(t *testing.T) {
	hk.Check(t, 40, 600, func(t *rapid.T) {
		var ins, outs [][]libunlynx.CipherVector
		var gs, hs []kyber.Point
		var betas [][][]kyber.Scalar
		var pis [][]int
		n := rapid.IntRange(0, 4).Draw(t, "n")
		desc := ""
		var first inst
		for i := 0; i < n; i++ {
			x := gen(t)
			if i == 0 {
				first = x
			}
			x.H, x.pre = first.H, nil
			out, pi, beta := libunlynxshuffle.ShuffleSequence(x.in, libunlynx.SuiTe.Point().Base(), x.H, nil)
			ins, outs, gs, hs, betas, pis = append(ins, x.in), append(outs, out), append(gs, libunlynx.SuiTe.Point().Base()), append(hs, x.H), append(betas, beta), append(pis, pi)
			desc += x.desc + "; "
		}
		hk.Case("honest list", desc, n > 0)
		l, err := libunlynxshuffle.ShuffleListProofCreation(ins, outs, gs, hs, betas, pis)
		if err != nil || len(l.List) != n {
			t.Fatalf("creating %d proofs: %d, %v", n, len(l.List), err)
		}
		hk.Accept(t, desc, list(first.H, l.List...))
		for i, p := range l.List {
			if string(hk.MB(p.OriginalList)) != string(hk.MB(ins[i])) || string(hk.MB(p.ShuffledList)) != string(hk.MB(outs[i])) {
				t.Fatalf("proof %d is about other lists", i)
			}
		}
	})
}

// alter changes a matrix; it returns false if nothing was changed.
func alter(t *rapid.T, n string, m, other []libunlynx.CipherVector) ([]libunlynx.CipherVector, string) {
	out := hk.CopyM(m)
	rows := len(m)
	i, j := rapid.IntRange(0, rows-1).Draw(t, n+"i"), rapid.IntRange(0, rows-1).Draw(t, n+"j")
	cols := len(m[i])
	a, b := rapid.IntRange(0, cols-1).Draw(t, n+"a"), rapid.IntRange(0, cols-1).Draw(t, n+"b")
	kind := rapid.SampledFrom([]string{"alter", "drop", "drop and duplicate", "duplicate", "swap rows", "replace by other side", "swap values of a row", "swap values of a column", "move", "shift", "shift keys", "drop column", "copy value", "clear row", "all empty"}).Draw(t, n+"kind")
	d := libunlynx.SuiTe.Point().Mul(hk.Scalar(t, n+"d"), nil)
	switch kind {
	case "alter":
		out[i][a], _ = hk.OtherCT(t, n+"ct", out[i][a], m[j][b])
	case "drop":
		out = append(out[:i:i], out[i+1:]...)
	case "drop and duplicate":
		out[i] = hk.Copy(m[j])
	case "duplicate":
		out = append(out, hk.Copy(m[j]))
	case "swap rows":
		out[i], out[j] = out[j], out[i]
	case "replace by other side":
		if len(other) > 0 {
			out[i] = hk.Copy(other[j%len(other)])
		}
	case "swap values of a row":
		out[i][a], out[i][b] = out[i][b], out[i][a]
	case "swap values of a column":
		out[i][a], out[j][a] = out[j][a], out[i][a]
	case "move":
		out[i] = append(out[i], out[j][a])
		out[j] = append(out[j][:a:a], out[j][a+1:]...)
	case "shift": // sums over the row or the column stay the same
		out[i][a].C = libunlynx.SuiTe.Point().Add(out[i][a].C, d)
		out[j][b].C = libunlynx.SuiTe.Point().Sub(out[j][b].C, d)
	case "shift keys":
		out[i][a].K = libunlynx.SuiTe.Point().Add(out[i][a].K, d)
		out[j][b].K = libunlynx.SuiTe.Point().Sub(out[j][b].K, d)
	case "drop column":
		for q := range out {
			out[q] = append(out[q][:a:a], out[q][a+1:]...)
		}
	case "copy value":
		out[i][a] = out[j][b]
	case "clear row":
		out[i] = out[i][:0]
	case "all empty":
		out = out[:0]
	}
	return out, fmt.Sprintf("%s (%d,%d) (%d,%d)", kind, i, a, j, b)
}

func TestTampered(t *testing.T) {
	hk.Check(t, 800, 12000, func(t *rapid.T) {
		x := gen(t)
		p, _, _ := x.prove(t)
		q := p
		seed := x.H
		what := rapid.SampledFrom([]string{"output", "output", "output", "input", "both", "proof", "G", "H", "seed"}).Draw(t, "what")
		kind := ""
		switch what {
		case "output":
			q.ShuffledList, kind = alter(t, "o", p.ShuffledList, p.OriginalList)
		case "input":
			q.OriginalList, kind = alter(t, "o", p.OriginalList, p.ShuffledList)
		case "both":
			k2 := ""
			q.ShuffledList, kind = alter(t, "o", p.ShuffledList, p.OriginalList)
			q.OriginalList, k2 = alter(t, "p", p.OriginalList, p.ShuffledList)
			kind += k2
		case "proof":
			y, _, _ := x.prove(t)
			q.HashProof, kind = hk.OtherBytes(t, "b", p.HashProof, y.HashProof)
		case "G":
			q.G, kind = hk.OtherPoint(t, "g", p.G, p.H)
		case "H":
			q.H, kind = hk.OtherPoint(t, "h", p.H, p.G)
		case "seed":
			seed, kind = hk.OtherPoint(t, "s", seed, p.G)
		}
		if string(hk.MB(p.OriginalList)) == string(hk.MB(q.OriginalList)) && string(hk.MB(p.ShuffledList)) == string(hk.MB(q.ShuffledList)) && (what == "output" || what == "input" || what == "both") {
			return
		}
		desc := x.desc + ": " + what + " " + kind
		hk.Case("tampered", desc, true, what)
		hk.Refuse(t, desc, single(q, seed))
		if what == "seed" {
			return
		}
		if rapid.IntRange(0, 3).Draw(t, "inList") == 0 {
			hk.Refuse(t, desc+" (list, last)", list(seed, p, q))
			hk.Refuse(t, desc+" (list, first)", list(seed, q, p))
		}
	})
}

// Proofs made for outputs that are not shuffles of the input.
func TestWrongShuffle(t *testing.T) {
	hk.Check(t, 500, 8000, func(t *rapid.T) {
		x := gen(t)
		G := libunlynx.SuiTe.Point().Base()
		out, pi, beta := libunlynxshuffle.ShuffleSequence(x.in, G, x.H, x.pre)
		out2, pi2 := out, append([]int{}, pi...)
		in2 := x.in
		H2 := x.H
		what := rapid.SampledFrom([]string{"output", "output", "input", "permutation", "randomness", "key"}).Draw(t, "what")
		kind := ""
		switch what {
		case "output":
			out2, kind = alter(t, "o", out, x.in)
			if string(hk.MB(out2)) == string(hk.MB(out)) {
				return
			}
		case "input":
			in2, kind = alter(t, "o", x.in, out)
			if string(hk.MB(in2)) == string(hk.MB(x.in)) {
				return
			}
		case "permutation":
			i, j := rapid.IntRange(0, len(pi)-1).Draw(t, "i"), rapid.IntRange(0, len(pi)-1).Draw(t, "j")
			if i == j {
				return
			}
			// the same output may be explained by both permutations if the rows and their randomness agree
			if string(hk.VB(x.in[pi[i]])) == string(hk.VB(x.in[pi[j]])) {
				return
			}
			pi2[i], pi2[j] = pi2[j], pi2[i]
		case "randomness":
			i := rapid.IntRange(0, len(beta)-1).Draw(t, "i")
			nb := make([][]kyber.Scalar, len(beta))
			copy(nb, beta)
			nb[i] = append([]kyber.Scalar{}, beta[i]...)
			nb[i][rapid.IntRange(0, len(nb[i])-1).Draw(t, "j")] = hk.Scalar(t, "other")
			beta = nb
		case "key":
			_, H2 = hk.KeyPair(t, "h2")
		}
		desc := x.desc + ": proof for a wrong " + what + " " + kind
		hk.Case("wrong shuffle", desc, true, what)
		var p libunlynxshuffle.PublishedShufflingProof
		var err error
		ended, msg := hk.EventuallyEnds(func() func() {
			return func() { p, err = libunlynxshuffle.ShuffleProofCreation(in2, out2, G, H2, beta, pi2) }
		})
		if !ended {
			t.Fatalf("%s: creating the proof does not end", desc)
		}
		if msg != "" && (what == "permutation" || what == "randomness" || what == "key") {
			t.Fatalf("%s: creating the proof crashed: %s", desc, msg)
		}
		if err != nil || msg != "" {
			hk.Note("creation refused")
			return
		}
		p.H = x.H
		hk.Refuse(t, desc, single(p, x.H))
	})
}

// A prover that knows how the rows are compressed tries to change values in a
// way that the compressed rows do not show.
func TestForged(t *testing.T) {
	hk.Check(t, 150, 2500, func(t *rapid.T) {
		x := gen(t)
		if len(x.in[0]) < 2 {
			return
		}
		p, pi, beta := x.prove(t)
		i := rapid.IntRange(0, len(x.in)-1).Draw(t, "i")
		a, b := 0, rapid.IntRange(1, len(x.in[0])-1).Draw(t, "b")
		// factors a verifier may use: derived from the input only, from the output only, or from the key only
		src := rapid.SampledFrom([]string{"input row", "output row", "first input row", "first output row"}).Draw(t, "src")
		var base libunlynx.CipherVector
		switch src {
		case "input row":
			base = p.OriginalList[i]
		case "output row":
			base = p.ShuffledList[i]
		case "first input row":
			base = p.OriginalList[0]
		case "first output row":
			base = p.ShuffledList[0]
		}
		e, err := libunlynxshuffle.CipherVectorComputeE(x.H, base)
		if err != nil || len(e) != len(base) {
			t.Fatalf("computing factors: %v", err)
		}
		out := hk.CopyM(p.ShuffledList)
		d := libunlynx.SuiTe.Point().Mul(hk.Scalar(t, "d"), nil)
		// add e_b*d to value a and subtract e_a*d from value b: e_a*va + e_b*vb is unchanged
		out[i][a].C = libunlynx.SuiTe.Point().Add(out[i][a].C, libunlynx.SuiTe.Point().Mul(e[b], d))
		out[i][b].C = libunlynx.SuiTe.Point().Sub(out[i][b].C, libunlynx.SuiTe.Point().Mul(e[a], d))
		desc := fmt.Sprintf("%s: values %d and %d of row %d changed with factors of the %s", x.desc, a, b, i, src)
		hk.Case("forged", desc, true, src)
		q := p
		q.ShuffledList = out
		hk.Refuse(t, desc, single(q, x.H))
		var r libunlynxshuffle.PublishedShufflingProof
		if msg := hk.NoPanic(func() {
			r, err = libunlynxshuffle.ShuffleProofCreation(x.in, out, libunlynx.SuiTe.Point().Base(), x.H, beta, pi)
		}); msg == "" && err == nil {
			hk.Refuse(t, desc+" (new proof)", single(r, x.H))
		}
	})
}

// Too few rows: no proof, no crash.
func TestDegenerate(t *testing.T) {
	hk.Check(t, 60, 600, func(t *rapid.T) {
		x := gen(t)
		k := rapid.IntRange(0, 1).Draw(t, "rows")
		in := x.in[:k]
		hk.Case("degenerate", fmt.Sprint(k, " rows ", x.desc), true)
		var beta [][]kyber.Scalar
		var pi []int
		out := hk.CopyM(in)
		for i := 0; i < k; i++ {
			beta = append(beta, libunlynx.RandomScalarSlice(len(in[i])))
			pi = append(pi, i)
		}
		ended, msg := hk.EventuallyEnds(func() func() {
			return func() {
				p, err := libunlynxshuffle.ShuffleProofCreation(in, out, libunlynx.SuiTe.Point().Base(), x.H, beta, pi)
				if err == nil && libunlynxshuffle.ShuffleProofVerification(p, x.H) && k == 0 {
					panic("a proof about no rows")
				}
			}
		})
		if !ended || msg != "" {
			t.Fatalf("%d rows: ended=%v %s", k, ended, msg)
		}
	})
}

// Every server publishes a proof of its shuffle during a run of the protocol.
func TestPublished(t *testing.T) {
	hk.Check(t, 110, 2000, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		rows, cols := rapid.IntRange(2, 6).Draw(t, "rows"), rapid.IntRange(1, 4).Draw(t, "cols")
		H := n.Roster.Aggregate
		step := hk.EncRef(H, 1, hk.Scalar(t, "step"))
		c := hk.EncRef(H, hk.Small(t, "m"), hk.Scalar(t, "r"))
		dup := rapid.Bool().Draw(t, "dup")
		var target []libunlynx.CipherVector
		for i := 0; i < rows; i++ {
			row := make(libunlynx.CipherVector, cols)
			for j := range row {
				c = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(c.K, step.K), C: libunlynx.SuiTe.Point().Add(c.C, step.C)}
				row[j] = c
			}
			if dup && i%2 == 1 {
				row = hk.Copy(target[i-1])
			}
			target = append(target, row)
		}
		var pre func(int) []libunlynxshuffle.CipherVectorScalar
		usePre := rapid.Bool().Draw(t, "pre")
		if usePre {
			pre = func(int) []libunlynxshuffle.CipherVectorScalar {
				return libunlynxshuffle.CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), H, libunlynx.SuiTe.RandomStream(), cols*2, 10)
			}
		}
		hk.Case("published", fmt.Sprintf("%s; %dx%d dup %v precomputed %v", n.Desc, rows, cols, dup, usePre), true, n.Classes()...)
		in := hk.CopyM(target)
		out, calls := n.Shuffle(t, target, pre, true, H)
		if len(calls) != len(n.Roster.List) {
			t.Fatalf("%d of %d servers published a proof", len(calls), len(n.Roster.List))
		}
		servers := map[int]bool{}
		next := string(hk.MB(in))
		for len(calls) > 0 {
			found := -1
			for i, k := range calls {
				if string(hk.MB(k.In)) == next {
					found = i
				}
			}
			if found < 0 {
				t.Fatalf("no published proof starts from the %d-th list of the chain", len(servers))
			}
			k := calls[found]
			servers[k.Server] = true
			next = string(hk.MB(k.Out))
			p, err := libunlynxshuffle.ShuffleProofCreation(k.In, k.Out, libunlynx.SuiTe.Point().Base(), k.H, k.Beta, k.Pi)
			if err != nil {
				t.Fatalf("server %d: creating the proof: %v", k.Server, err)
			}
			hk.Accept(t, fmt.Sprint("published by server ", k.Server), single(p, H))
			hk.Accept(t, fmt.Sprint("published by server ", k.Server, ", transported"), single(transported(t, p), H))
			calls = append(calls[:found], calls[found+1:]...)
		}
		if len(servers) != len(n.Roster.List) || next != string(hk.MB(out)) {
			t.Fatalf("the published proofs do not lead from the input to the output through all servers")
		}
	})
}
