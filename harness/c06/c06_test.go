package c06

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Shuffles of generated matrices (0 to 230 rows, 0 to 130 columns; duplicate, zero, negative and clear entries), with no precomputed randomness and with lines that are longer, exact, too short, missing, made for another key or base, mixtures of these, or read back from a file that earlier surveys with other keys, secrets and sizes wrote; and runs of the shuffling protocol over 1 to 8 servers in any tree, each server with its own precomputed lines. Independent decryption must give exactly the input rows as a multiset, row i of the output must be row pi[i] of the input re-randomised with the reported scalars, pi must be a permutation that varies, no output component may be an input component, unprecomputed randomness must never repeat, the input must be unchanged, and in a chain every server's input is the previous server's output. Non-trivial: at least two rows and one column.",
		"rows of one matrix have the same number of columns, as the responses of one survey do")
}

type mat struct {
	cts  []libunlynx.CipherVector
	vals [][]int64
	desc string
}

func gen(t *rapid.T, pub kyber.Point, lo, maxRows int) mat {
	var m mat
	rows := rapid.IntRange(lo, 8).Draw(t, "rows")
	cols := rapid.IntRange(0, 5).Draw(t, "cols")
	if cols == 0 && rapid.IntRange(0, 3).Draw(t, "reallyEmpty") > 0 {
		cols = 1
	}
	switch rapid.IntRange(0, 14).Draw(t, "shape") {
	case 0:
		rows, cols = rapid.SampledFrom([]int{99, 100, 101, 201, 230}).Draw(t, "manyRows"), 1
	case 1:
		rows, cols = rapid.IntRange(1, 3).Draw(t, "fewRows"), rapid.SampledFrom([]int{99, 100, 101, 130}).Draw(t, "manyCols")
	case 2:
		rows = rapid.IntRange(9, 30).Draw(t, "someRows")
	}
	if rows > maxRows {
		rows = maxRows
	}
	kind := rapid.IntRange(0, 4).Draw(t, "kind")
	vals := hk.Ints(t, "v", rows*cols, hk.Small)
	for i := 0; i < rows; i++ {
		row := make(libunlynx.CipherVector, cols)
		v := append([]int64{}, vals[i*cols:(i+1)*cols]...)
		for j := range row {
			switch {
			case kind == 1 && i%2 == 1: // the same row again
				row[j], v[j] = libunlynx.CipherText{K: m.cts[i-1][j].K.Clone(), C: m.cts[i-1][j].C.Clone()}, m.vals[i-1][j]
			case kind == 2 && (i+j)%2 == 0: // clear values
				row[j] = libunlynx.IntToCipherText(v[j])
			case kind == 3 && i > 0: // equal plaintexts in other rows
				v[j] = m.vals[0][j]
				row[j] = hk.Enc(pub, v[j])
			case kind == 4 && j%2 == 1:
				v[j] = -v[j]
				row[j] = hk.Enc(pub, v[j])
			default:
				row[j] = hk.Enc(pub, v[j])
			}
		}
		m.cts = append(m.cts, row)
		m.vals = append(m.vals, v)
	}
	if rapid.Bool().Draw(t, "packed") { // the rows are parts of one array
		var vs []*libunlynx.CipherVector
		for i := range m.cts {
			vs = append(vs, &m.cts[i])
		}
		hk.Pack(vs...)
	}
	m.desc = fmt.Sprintf("%dx%d kind %d", rows, cols, kind)
	return m
}

// genPre draws precomputed lines, good and bad ones.
func genPre(t *rapid.T, h kyber.Point, cols int) ([]libunlynxshuffle.CipherVectorScalar, string) {
	kind := rapid.SampledFrom([]string{"none", "none", "exact", "longer", "short", "empty", "otherKey", "otherBase", "mixed", "emptyLines"}).Draw(t, "pre")
	base := libunlynx.SuiTe.Point().Base()
	lines := rapid.IntRange(1, 12).Draw(t, "lines")
	seed := libunlynx.SuiTe.RandomStream()
	_, other := hk.KeyPair(t, "other")
	switch kind {
	case "none":
		return nil, kind
	case "exact":
		return libunlynxshuffle.CreatePrecomputedRandomize(base, h, seed, cols, lines), kind
	case "longer":
		return libunlynxshuffle.CreatePrecomputedRandomize(base, h, seed, cols*2+1, lines), kind
	case "short":
		return libunlynxshuffle.CreatePrecomputedRandomize(base, h, seed, cols/2, lines), kind
	case "empty":
		return []libunlynxshuffle.CipherVectorScalar{}, kind
	case "otherKey":
		return libunlynxshuffle.CreatePrecomputedRandomize(base, other, seed, cols*2, lines), kind
	case "otherBase":
		return libunlynxshuffle.CreatePrecomputedRandomize(other, h, seed, cols*2, lines), kind
	case "emptyLines":
		return make([]libunlynxshuffle.CipherVectorScalar, lines), kind
	}
	p := libunlynxshuffle.CreatePrecomputedRandomize(base, h, seed, cols, lines)
	p = append(p, libunlynxshuffle.CreatePrecomputedRandomize(base, other, seed, cols*2, 2)...)
	p = append(p, libunlynxshuffle.CreatePrecomputedRandomize(base, h, seed, cols/2, 2)...)
	return p, kind
}

func isPerm(pi []int, n int) bool {
	if len(pi) != n {
		return false
	}
	seen := make([]bool, n)
	for _, p := range pi {
		if p < 0 || p >= n || seen[p] {
			return false
		}
		seen[p] = true
	}
	return true
}

// checkStep checks one server's shuffle.
func checkStep(t *rapid.T, what string, in, out []libunlynx.CipherVector, h kyber.Point, pi []int, beta [][]kyber.Scalar, freshScalars map[string]bool) {
	if len(out) != len(in) || !isPerm(pi, len(in)) || len(beta) != len(in) {
		t.Fatalf("%s: %d rows in, %d out, permutation %v, %d lines of scalars", what, len(in), len(out), pi, len(beta))
	}
	inK, inC := map[string]bool{}, map[string]bool{}
	for _, r := range in {
		for _, c := range r {
			inK[string(hk.PB(c.K))] = true
			inC[string(hk.PB(c.C))] = true
		}
	}
	for i, row := range out {
		src := in[pi[i]]
		b := beta[pi[i]]
		if len(row) != len(src) || len(b) < len(src) {
			t.Fatalf("%s: row %d has %d columns and %d scalars, its source %d", what, i, len(row), len(b), len(src))
		}
		for j, c := range row {
			if inK[string(hk.PB(c.K))] || inC[string(hk.PB(c.C))] {
				t.Fatalf("%s: output %d,%d keeps a component of an input", what, i, j)
			}
			k := libunlynx.SuiTe.Point().Add(src[j].K, libunlynx.SuiTe.Point().Mul(b[j], nil))
			d := libunlynx.SuiTe.Point().Add(src[j].C, libunlynx.SuiTe.Point().Mul(b[j], h))
			if !k.Equal(c.K) || !d.Equal(c.C) {
				t.Fatalf("%s: output row %d is not input row %d re-randomised with the reported scalars (column %d)", what, i, pi[i], j)
			}
			if freshScalars != nil {
				s := b[j].String()
				if freshScalars[s] || b[j].Equal(libunlynx.SuiTe.Scalar().Zero()) {
					t.Fatalf("%s: a blinding scalar is zero or used twice", what)
				}
				freshScalars[s] = true
			}
		}
	}
}

func checkRows(t *rapid.T, what string, priv kyber.Scalar, out []libunlynx.CipherVector, want [][]int64, dec *hk.DecTable) {
	got := make([][]int64, len(out))
	for i, r := range out {
		got[i] = dec.DecVec(priv, r)
	}
	if !hk.SameStrings(hk.SortedRows(got), hk.SortedRows(want)) {
		t.Fatalf("%s: rows %v, want a permutation of %v", what, clip(got), clip(want))
	}
}

func clip(m [][]int64) [][]int64 {
	if len(m) > 12 {
		return m[:12]
	}
	return m
}

var table = hk.NewDecTable(3000)

func TestSequence(t *testing.T) {
	orders, runs := map[string]bool{}, 0
	hk.Check(t, 350, 6000, func(t *rapid.T) {
		priv, H := hk.KeyPair(t, "h")
		m := gen(t, H, 0, 1<<20)
		cols := 0
		if len(m.cts) > 0 {
			cols = len(m.cts[0])
		}
		pre, kind := genPre(t, H, cols)
		nt := len(m.cts) > 1 && cols > 0
		hk.Case("sequence", fmt.Sprintf("%s precomputed %s %v", m.desc, kind, clip(m.vals)), nt, "pre="+kind, hk.LenClass(len(m.cts)))
		before := hk.MB(m.cts)
		out, pi, beta := libunlynxshuffle.ShuffleSequence(m.cts, libunlynx.SuiTe.Point().Base(), H, pre)
		var fresh map[string]bool
		if kind == "none" {
			fresh = map[string]bool{}
		}
		checkStep(t, m.desc+" "+kind, m.cts, out, H, pi, beta, fresh)
		checkRows(t, m.desc+" "+kind, priv, out, m.vals, table)
		if string(hk.MB(m.cts)) != string(before) {
			t.Fatalf("%s: the input was changed", m.desc)
		}
		if len(pi) == 8 {
			orders[fmt.Sprint(pi)] = true
			runs++
		}
	})
	if runs > 10 && len(orders) < runs/2 {
		t.Fatalf("%d shuffles of 8 rows used only %d permutations", runs, len(orders))
	}
}

// TestOrders: whatever the number of rows, every row can come to every place.
func TestOrders(t *testing.T) {
	hk.Check(t, 12, 60, func(t *rapid.T) {
		n := rapid.IntRange(2, 9).Draw(t, "rows")
		_, H := hk.KeyPair(t, "h")
		seen := make([][]bool, n)
		for i := range seen {
			seen[i] = make([]bool, n)
		}
		in := make([]libunlynx.CipherVector, n)
		for i := range in {
			in[i] = libunlynx.CipherVector{hk.EncRef(H, int64(i), libunlynx.SuiTe.Scalar().SetInt64(int64(i+1)))}
		}
		// with n places, the chance to miss one of them in 60n runs is below n*n*exp(-60)
		for r := 0; r < 60*n; r++ {
			var pi []int
			if r < 8 {
				_, pi, _ = libunlynxshuffle.ShuffleSequence(in, libunlynx.SuiTe.Point().Base(), H, nil)
			} else {
				pi = libunlynx.RandomPermutation(n)
			}
			if !isPerm(pi, n) {
				t.Fatalf("%v is not a permutation", pi)
			}
			for i, j := range pi {
				seen[i][j] = true
			}
		}
		hk.Case("orders", fmt.Sprint("rows=", n), true)
		for i := range seen {
			for j := range seen[i] {
				if !seen[i][j] {
					t.Fatalf("in %d permutations of %d rows, row %d never comes to place %d", 60*n, n, j, i)
				}
			}
		}
	})
}

// The material of a file belongs to whichever survey wrote it.
func TestFile(t *testing.T) {
	dir, err := os.MkdirTemp("", "c06")
	if err != nil {
		hk.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	n := 0
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		n++
		file := filepath.Join(dir, fmt.Sprintf("pre%d.gob", n))
		surveys := rapid.IntRange(1, 4).Draw(t, "surveys")
		desc := ""
		for s := 0; s < surveys; s++ {
			key := fmt.Sprint(rapid.IntRange(0, 1).Draw(t, fmt.Sprint("key", s)))
			priv := libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.XOF([]byte("c06" + key)))
			H := libunlynx.SuiTe.Point().Mul(priv, nil)
			sec, _ := hk.KeyPair(t, fmt.Sprint("secret", s))
			m := gen(t, H, 1, 6)
			cols := len(m.cts[0])
			if cols > 12 {
				cols = 12
				for i := range m.cts {
					m.cts[i], m.vals[i] = m.cts[i][:cols], m.vals[i][:cols]
				}
			}
			app := rapid.IntRange(0, 3).Draw(t, fmt.Sprint("app", s)) > 0
			line := rapid.SampledFrom([]int{cols, cols, 1 + cols/2, cols + 3}).Draw(t, fmt.Sprint("line", s))
			desc += fmt.Sprintf("[key %s app %v line size %d, %s] ", key, app, line, m.desc)
			var pre []libunlynxshuffle.CipherVectorScalar
			if rapid.IntRange(0, 4).Draw(t, fmt.Sprint("read", s)) == 0 {
				pre, err = libunlynxshuffle.ReadPrecomputedFile(file)
				desc += "(read) "
			} else {
				pre, err = libunlynxshuffle.PrecomputationWritingForShuffling(app, file, "server", sec, H, line)
			}
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			out, pi, beta := libunlynxshuffle.ShuffleSequence(m.cts, libunlynx.SuiTe.Point().Base(), H, pre)
			checkStep(t, desc, m.cts, out, H, pi, beta, nil)
			checkRows(t, desc, priv, out, m.vals, table)
		}
		_ = os.Remove(file)
		hk.Case("file", desc, surveys > 1)
	})
}

func TestProtocol(t *testing.T) {
	hk.Check(t, 160, 3500, func(t *rapid.T) {
		n := cl.Draw(t, 1, cl.Max)
		priv := cl.Priv(n.Roster)
		H := n.Roster.Aggregate
		var key kyber.Point
		if rapid.IntRange(0, 4).Draw(t, "ownKey") == 0 {
			priv, key = hk.KeyPair(t, "key")
			H = key
		}
		m := gen(t, H, 0, 101)
		cols := 0
		if len(m.cts) > 0 {
			cols = len(m.cts[0])
		}
		proofs := rapid.IntRange(0, 3).Draw(t, "proofs") > 0
		kinds := ""
		var pres [][]libunlynxshuffle.CipherVectorScalar
		allNone := true
		for i := range n.Roster.List {
			p, k := []libunlynxshuffle.CipherVectorScalar(nil), "none"
			if i < 3 {
				p, k = genPre(t, H, cols)
			}
			pres = append(pres, p)
			kinds += k + " "
			allNone = allNone && k == "none"
		}
		hk.Case("protocol", fmt.Sprintf("%s; %s; precomputed %s; proofs %v", n.Desc, m.desc, kinds, proofs), len(m.cts) > 1 && cols > 0,
			append(n.Classes(), hk.LenClass(len(m.cts)))...)
		before := hk.MB(m.cts)
		out, calls := n.Shuffle(t, m.cts, func(i int) []libunlynxshuffle.CipherVectorScalar { return pres[i] }, proofs, key)
		checkRows(t, n.Desc+" "+m.desc, priv, out, m.vals, table)
		if string(hk.MB(m.cts)) != string(before) {
			t.Fatalf("the input was changed")
		}
		if !proofs {
			return
		}
		if len(calls) != len(n.Roster.List) {
			t.Fatalf("%d servers shuffled, want %d", len(calls), len(n.Roster.List))
		}
		var fresh map[string]bool
		if allNone {
			fresh = map[string]bool{}
		}
		prev := m.cts
		done := map[int]bool{}
		for _, c := range calls {
			if done[c.Server] {
				t.Fatalf("server %d shuffled twice", c.Server)
			}
			done[c.Server] = true
			if string(hk.MB(c.In)) != string(hk.MB(prev)) {
				t.Fatalf("server %d did not shuffle what the previous one produced", c.Server)
			}
			if !c.H.Equal(H) {
				t.Fatalf("server %d used another key", c.Server)
			}
			checkStep(t, fmt.Sprint("server ", c.Server), c.In, c.Out, H, c.Pi, c.Beta, fresh)
			prev = c.Out
		}
		if string(hk.MB(out)) != string(hk.MB(prev)) {
			t.Fatalf("the result is not what the last server produced")
		}
	})
}
