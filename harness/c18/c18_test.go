package c18

import (
	"fmt"
	"strings"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Generated boolean predicates (and, or, not, parentheses, ==, != between query and record attributes, up to 12 attributes, redundant and minimal parentheses, varying white space) are evaluated by a reference evaluator of the generated syntax tree on generated records whose tags come from small pools; the filter must keep exactly the records for which it is true, in order and unaltered. Invalid predicates (broken syntax, unknown attributes, non-boolean, arbitrary text) must neither crash nor keep a record. Non-trivial: at least two records of which some are kept and some are not, or an invalid predicate with records.",
		"a predicate is invalid only if it is so for every record")
}

// node is a predicate: op and/or/not/eq/ne
type node struct {
	op   string
	a, b *node
	i, j int
}

func gen(t *rapid.T, nv, depth int) *node {
	k := rapid.IntRange(0, 5).Draw(t, "node")
	if depth == 0 || k < 2 {
		n := &node{op: rapid.SampledFrom([]string{"==", "==", "!="}).Draw(t, "cmp"), i: rapid.IntRange(0, nv-1).Draw(t, "i")}
		if rapid.IntRange(0, 3).Draw(t, "pair") > 0 {
			n.j = n.i ^ 1
		} else {
			n.j = rapid.IntRange(0, nv-1).Draw(t, "j")
		}
		return n
	}
	switch k {
	case 2, 3:
		return &node{op: "&&", a: gen(t, nv, depth-1), b: gen(t, nv, depth-1)}
	case 4:
		return &node{op: "||", a: gen(t, nv, depth-1), b: gen(t, nv, depth-1)}
	}
	return &node{op: "!", a: gen(t, nv, depth-1)}
}

func (n *node) eval(v []string) bool {
	switch n.op {
	case "==":
		return v[n.i] == v[n.j]
	case "!=":
		return v[n.i] != v[n.j]
	case "&&":
		return n.a.eval(v) && n.b.eval(v)
	case "||":
		return n.a.eval(v) || n.b.eval(v)
	}
	return !n.a.eval(v)
}

var level = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "!": 4}

// text writes the predicate; par decides about parentheses that are not needed
func (n *node) text(outer int, sp string, par func() bool) string {
	var s string
	l := level[n.op]
	switch n.op {
	case "==", "!=":
		s = fmt.Sprintf("v%d%s%s%sv%d", n.i, sp, n.op, sp, n.j)
	case "!":
		s = "!" + n.a.text(5, sp, par)
	default:
		// both operators are associative, but the reference tree is kept
		right := n.b.text(l, sp, par)
		gap := sp
		if right[0] == '!' && gap == "" {
			gap = " " // "&&!" would be one (unknown) operator of the predicate language
		}
		s = n.a.text(l, sp, par) + sp + n.op + gap + right
	}
	if l < outer || par() {
		return "(" + s + ")"
	}
	return s
}

type setup struct {
	query   []libunlynx.WhereQueryAttributeTagged
	records []libunlynx.ProcessResponseDet
	vars    [][]string
}

func draw(t *rapid.T, loAttr int) setup {
	nw := rapid.OneOf(rapid.IntRange(loAttr, 3), rapid.IntRange(loAttr, 12)).Draw(t, "attributes")
	pool := rapid.SampledFrom([][]libunlynx.GroupingKey{{"a", "b"}, {"a", "b", "c"}, {"0a10", "0a1", "a10", "10"}, {"1", "1e0", "1.0", "01"}, {"true", "false"}, {"2014-01-02", "2014-01-02 00:00:00"}, {"a", "A"}, {"v0", "v1", "v2"}}).Draw(t, "pool")
	tag := func(n string) libunlynx.GroupingKey { return rapid.SampledFrom(pool).Draw(t, n) }
	var s setup
	for i := 0; i < nw; i++ {
		s.query = append(s.query, libunlynx.WhereQueryAttributeTagged{Name: fmt.Sprint("w", i), Value: tag("q")})
	}
	cs := hk.EncRef(libunlynx.SuiTe.Point().Base(), 3, libunlynx.SuiTe.Scalar().SetInt64(5))
	cur := cs
	next := func() libunlynx.CipherText {
		cur = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(cur.K, cs.K), C: libunlynx.SuiTe.Point().Add(cur.C, cs.C)}
		return cur
	}
	n := hk.Len(t, "records", 0, 25)
	if rapid.IntRange(0, 19).Draw(t, "manyRecords") == 0 {
		n = 120
	}
	for i := 0; i < n; i++ {
		r := libunlynx.ProcessResponseDet{DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprint("g", i%3))}
		var v []string
		for j := 0; j < nw; j++ {
			w := tag("w")
			r.DetTagWhere = append(r.DetTagWhere, w)
			v = append(v, string(s.query[j].Value), string(w))
			r.PR.WhereEnc = append(r.PR.WhereEnc, cs)
		}
		for j := 0; j < i%3; j++ {
			r.PR.GroupByEnc = append(r.PR.GroupByEnc, next())
		}
		for j := 0; j < 1+i%2; j++ {
			r.PR.AggregatingAttributes = append(r.PR.AggregatingAttributes, next())
		}
		s.records = append(s.records, r)
		s.vars = append(s.vars, v)
	}
	return s
}

func show(d libunlynx.FilteredResponseDet) string {
	return fmt.Sprintf("%s|%x|%x", d.DetTagGroupBy, hk.VB(d.Fr.GroupByEnc), hk.VB(d.Fr.AggregatingAttributes))
}
func showRec(r libunlynx.ProcessResponseDet) string {
	return show(libunlynx.FilteredResponseDet{DetTagGroupBy: r.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: r.PR.GroupByEnc, AggregatingAttributes: r.PR.AggregatingAttributes}})
}

func compare(t *rapid.T, what string, got []libunlynx.FilteredResponseDet, want []string) {
	if len(got) != len(want) {
		t.Fatalf("%s: %d records kept instead of %d", what, len(got), len(want))
	}
	for i := range want {
		if show(got[i]) != want[i] {
			t.Fatalf("%s: kept record %d is not the one that should be there", what, i)
		}
	}
}

func TestPredicate(t *testing.T) {
	hk.Check(t, 3000, 40000, func(t *rapid.T) {
		s := draw(t, 1)
		tree := gen(t, 2*len(s.query), rapid.IntRange(0, 4).Draw(t, "depth"))
		sp := rapid.SampledFrom([]string{" ", "", "  "}).Draw(t, "space")
		mode := rapid.IntRange(0, 2).Draw(t, "parens")
		pred := tree.text(0, sp, func() bool {
			return mode == 2 || (mode == 1 && rapid.IntRange(0, 3).Draw(t, "paren") == 0)
		})
		pred = rapid.SampledFrom([]string{"", " "}).Draw(t, "lead") + pred
		var want, all []string
		for i, r := range s.records {
			all = append(all, showRec(r))
			if tree.eval(s.vars[i]) {
				want = append(want, showRec(r))
			}
		}
		hk.Case("predicate", fmt.Sprintf("%q on %d records (%d kept) with tags %v", pred, len(s.records), len(want), s.vars), len(s.records) > 1 && len(want) > 0 && len(want) < len(s.records), hk.LenClass(len(s.records)), fmt.Sprint("attributes=", len(s.query)))
		var got []libunlynx.FilteredResponseDet
		if m := hk.NoPanic(func() { got = servicesunlynx.FilterResponses(pred, s.query, s.records) }); m != "" {
			t.Fatalf("filtering by %q: %s", pred, m)
		}
		compare(t, fmt.Sprintf("%q", pred), got, want)
		compare(t, "without predicate", servicesunlynx.FilterNone(s.records), all)
		for i, r := range s.records {
			if showRec(r) != all[i] || len(r.DetTagWhere) != len(s.query) {
				t.Fatalf("filtering changed record %d", i)
			}
			for j := range r.DetTagWhere {
				if string(r.DetTagWhere[j]) != s.vars[i][2*j+1] || string(s.query[j].Value) != s.vars[i][2*j] {
					t.Fatalf("filtering changed a tag")
				}
			}
		}
	})
}

func TestInvalid(t *testing.T) {
	hk.Check(t, 3000, 60000, func(t *rapid.T) {
		s := draw(t, 0)
		nv := 2 * len(s.query)
		kind := rapid.IntRange(0, 6).Draw(t, "kind")
		pred := ""
		mustKeepNone := true
		good := "1 == 1"
		if nv > 0 {
			good = gen(t, nv, 2).text(0, " ", func() bool { return false })
		}
		switch kind {
		case 0: // syntax
			pred = rapid.SampledFrom([]string{"(" + good, good + ")", good + " &&", "== v0", good + " && && " + good, "'" + good, good + " [", "v0 = v1", good + " " + good, "&& " + good}).Draw(t, "broken")
		case 1: // unknown attribute, in a place where it is always needed
			bad := fmt.Sprint(rapid.SampledFrom([]string{"v%d == v%d", "v%d != 'a'", "x%d == x%d"}).Draw(t, "bad"))
			k := nv + rapid.IntRange(0, 3).Draw(t, "beyond")
			if strings.Count(bad, "%d") == 2 {
				bad = fmt.Sprintf(bad, k, k+1)
			} else {
				bad = fmt.Sprintf(bad, k)
			}
			pred = rapid.SampledFrom([]string{bad, "(" + bad + ") && (" + good + ")", "!(" + bad + ")", "(" + bad + ") || (" + good + ")"}).Draw(t, "where")
		case 2: // not boolean
			o := []string{"1 + 1", "'text'", "1", "3 - 2 * 4", "(1, 2)", "2 ** 8"}
			if nv > 0 {
				o = append(o, "v0", "v0 + v1", "v0 + '1'", "v0 + (v0 == v1)")
			}
			pred = rapid.SampledFrom(o).Draw(t, "value")
		case 3: // wrong types
			o := []string{"1 && 2", "!'a'", "'a' > 1", "-'a' == 1"}
			if nv > 0 {
				o = append(o, "v0 && v1", "!v0", "v0 - v1 == 1", "v0 > 1", "v0 =~ '('", "v0 && (v0 == v1)", "v0 ? v1 : v0 && v1", "v0()", "v0.x == v1", "v0.x()")
			}
			pred = rapid.SampledFrom(o).Draw(t, "types")
		case 4: // arbitrary text
			pred = rapid.String().Draw(t, "text")
			mustKeepNone = false
		case 5: // tokens in any order
			toks := rapid.SliceOfN(rapid.SampledFrom([]string{"v0", "v1", "v2", "v99", "==", "!=", "&&", "||", "!", "(", ")", "'a'", "1", "-", ",", "in", "?", ":", "??", "=~", "[", "]", "true", ".", "~", "<<", "%", "/", "0", "''"}), 1, 9).Draw(t, "tokens")
			pred = strings.Join(toks, " ")
			mustKeepNone = false
		case 6: // a good one with an edit
			b := []byte(good)
			b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] = byte(rapid.IntRange(0, 255).Draw(t, "byte"))
			pred = string(b)
			mustKeepNone = false
		}
		hk.Case("invalid", fmt.Sprintf("kind %d %q on %d records, %d attributes", kind, pred, len(s.records), len(s.query)), len(s.records) > 0, fmt.Sprint("kind=", kind))
		var got []libunlynx.FilteredResponseDet
		if m := hk.NoPanic(func() { got = servicesunlynx.FilterResponses(pred, s.query, s.records) }); m != "" {
			t.Fatalf("the predicate %q crashes the filter: %s", pred, m)
		}
		if mustKeepNone && len(got) > 0 {
			t.Fatalf("the invalid predicate %q keeps %d of %d records", pred, len(got), len(s.records))
		}
		// whatever is kept must be records, in order
		i := 0
		for _, g := range got {
			for i < len(s.records) && showRec(s.records[i]) != show(g) {
				i++
			}
			if i == len(s.records) {
				t.Fatalf("%q: a kept record is not one of the given ones or out of order", pred)
			}
			i++
		}
	})
}

func TestCountDPs(t *testing.T) {
	hk.Check(t, 1000, 10000, func(t *rapid.T) {
		m := map[string]int64{}
		var want int64
		for i, n := 0, rapid.IntRange(0, 12).Draw(t, "servers"); i < n; i++ {
			v := rapid.OneOf(rapid.Int64Range(0, 3), rapid.Int64Range(0, 1<<40)).Draw(t, "dps")
			m[fmt.Sprint("server", i)] = v
			want += v
		}
		hk.Case("countDPs", fmt.Sprint(m), len(m) > 1)
		if got := servicesunlynx.CountDPs(m); got != want {
			t.Fatalf("%v has %d data providers, counted %d", m, want, got)
		}
	})
	if got := servicesunlynx.CountDPs(nil); got != 0 {
		t.Fatalf("a query without servers has %d data providers", got)
	}
}
