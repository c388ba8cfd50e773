package c19

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Generated parameter sets for the data generator (sizes, splits into clear and encrypted attributes, group counts, random or exhaustive groups) against the documented shape; generated data sets (any provider names, sizes, integers, empty parts) written to a file that may already hold something else and read back; expected results for generated data, repetitions and both output forms against a reference sum, with shared maps and repeated calls; pairs of results related by permutation, duplication, omission and alteration against multiset equality; text and map conversions there and back. Non-trivial: at least one record.",
		"a record passes the filter when none of its filter attributes is 0 (generated ones are all 1 or all 0)")
}

func mapOf(p string, start int, vals []int64) map[string]int64 {
	m := map[string]int64{}
	for i, v := range vals {
		m[fmt.Sprint(p, start+i)] = v
	}
	return m
}

func mapStr(m map[string]int64) string {
	o := []string{}
	for k, v := range m {
		o = append(o, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

func canon(d libunlynx.DpClearResponse) string {
	return strings.Join([]string{mapStr(d.GroupByClear), mapStr(d.GroupByEnc), mapStr(d.WhereClear), mapStr(d.WhereEnc), mapStr(d.AggregatingAttributesClear), mapStr(d.AggregatingAttributesEnc)}, "|")
}

func canonAll(l []libunlynx.DpClearResponse) []string {
	o := []string{}
	for _, d := range l {
		o = append(o, canon(d))
	}
	return o
}

func canonData(m map[string][]libunlynx.DpClearResponse) []string {
	var o []string
	for k, v := range m {
		o = append(o, fmt.Sprintf("%q: %q", k, canonAll(v)))
	}
	sort.Strings(o)
	return o
}

type shape struct{ gc, ge, wc, we, ac, ae int }

func drawShape(t *rapid.T) shape {
	n := func(s string, hi int) int { return rapid.IntRange(0, hi).Draw(t, s) }
	return shape{n("gc", 2), n("ge", 2), n("wc", 2), n("we", 2), n("ac", 3), n("ae", 3)}
}

func (s shape) rec(g, w, a []int64) libunlynx.DpClearResponse {
	return libunlynx.DpClearResponse{GroupByClear: mapOf("g", 0, g[:s.gc]), GroupByEnc: mapOf("g", s.gc, g[s.gc:]), WhereClear: mapOf("w", 0, w[:s.wc]), WhereEnc: mapOf("w", s.wc, w[s.wc:]),
		AggregatingAttributesClear: mapOf("s", 0, a[:s.ac]), AggregatingAttributesEnc: mapOf("s", s.ac, a[s.ac:])}
}

func value(t *rapid.T, name string) int64 {
	return rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(-1000000, 1000000), rapid.Int64Range(-(1<<50), 1<<50)).Draw(t, name)
}

// vals returns the attribute values in order and false if the names are wrong
func vals(c, e map[string]int64, p string, nc, ne int) ([]int64, bool) {
	if len(c) != nc || len(e) != ne {
		return nil, false
	}
	var o []int64
	for i := 0; i < nc+ne; i++ {
		m := c
		if i >= nc {
			m = e
		}
		v, ok := m[fmt.Sprint(p, i)]
		if !ok {
			return nil, false
		}
		o = append(o, v)
	}
	return o, true
}

func TestGenerate(t *testing.T) {
	hk.Check(t, 400, 5000, func(t *rapid.T) {
		s := drawShape(t)
		dps := rapid.IntRange(0, 4).Draw(t, "providers")
		types := make([]int64, s.gc+s.ge)
		total := int64(1)
		for i := range types {
			types[i] = int64(rapid.IntRange(1, 4).Draw(t, "type"))
			total *= types[i]
		}
		rnd := rapid.Bool().Draw(t, "random")
		entries := int64(rapid.IntRange(0, 20).Draw(t, "entries"))
		fit := true
		if !rnd {
			if rapid.IntRange(0, 5).Draw(t, "misfit") > 0 {
				entries = total
			}
			fit = entries == total
		}
		filtered := int64(rapid.IntRange(0, int(entries)+1).Draw(t, "filtered"))
		pass := types
		wrongTypes := rapid.IntRange(0, 14).Draw(t, "wrongTypes") == 0
		if wrongTypes {
			pass = append(append([]int64{}, types...), 2)
		}
		given := append([]int64{}, pass...)
		hk.Case("generate", fmt.Sprintf("%d providers, %d entries, %d filtered, %+v, types %v, random %v", dps, entries, filtered, s, pass, rnd), dps > 0 && entries > 0, fmt.Sprint("random=", rnd), fmt.Sprint("valid=", fit && !wrongTypes))
		var data map[string][]libunlynx.DpClearResponse
		var err error
		if m := hk.NoPanic(func() {
			data, err = dataunlynx.GenerateData(int64(dps), entries, filtered, int64(s.gc), int64(s.ge), int64(s.wc), int64(s.we), int64(s.ac), int64(s.ae), pass, rnd)
		}); m != "" {
			t.Fatalf("generating data: %s", m)
		}
		if !hk.SameInts(given, pass) {
			t.Fatalf("the generator changed the group types")
		}
		if !fit || wrongTypes {
			if err == nil {
				t.Fatalf("parameters that do not fit (%d entries, types %v) were accepted", entries, pass)
			}
			return
		}
		if err != nil {
			t.Fatalf("valid parameters refused: %v", err)
		}
		if len(data) != dps {
			t.Fatalf("%d providers instead of %d", len(data), dps)
		}
		for i := 0; i < dps; i++ {
			l, ok := data[fmt.Sprint(i)]
			if !ok || int64(len(l)) != entries {
				t.Fatalf("provider %d has %d records instead of %d", i, len(l), entries)
			}
			seen := map[string]bool{}
			for j, r := range l {
				g, ok1 := vals(r.GroupByClear, r.GroupByEnc, "g", s.gc, s.ge)
				w, ok2 := vals(r.WhereClear, r.WhereEnc, "w", s.wc, s.we)
				a, ok3 := vals(r.AggregatingAttributesClear, r.AggregatingAttributesEnc, "s", s.ac, s.ae)
				if !ok1 || !ok2 || !ok3 {
					t.Fatalf("record %d of provider %d does not have the requested attributes %+v: %s", j, i, s, canon(r))
				}
				for k, v := range g {
					if v < 0 || v >= types[k] {
						t.Fatalf("group value %d of attribute %d is not below %d", v, k, types[k])
					}
				}
				for _, v := range a {
					if v != 0 && v != 1 {
						t.Fatalf("aggregate %d is neither 0 nor 1", v)
					}
				}
				for _, v := range w {
					if (v == 1) != (int64(j) < filtered) || (v != 0 && v != 1) {
						t.Fatalf("record %d of %d to keep has filter value %d", j, filtered, v)
					}
				}
				if !rnd {
					if seen[fmt.Sprint(g)] {
						t.Fatalf("provider %d has group %v twice", i, g)
					}
					seen[fmt.Sprint(g)] = true
				}
			}
		}
		groups := make([][]int64, 0)
		dataunlynx.AllPossibleGroups(types, []int64{}, 0, &groups)
		all := map[string]bool{}
		for _, g := range groups {
			if len(g) != len(types) || all[fmt.Sprint(g)] {
				t.Fatalf("group %v is listed twice or has the wrong size", g)
			}
			for k, v := range g {
				if v < 0 || v >= types[k] {
					t.Fatalf("group %v is out of range %v", g, types)
				}
			}
			all[fmt.Sprint(g)] = true
		}
		if int64(len(groups)) != total {
			t.Fatalf("%d groups listed instead of %d", len(groups), total)
		}
		lo, span := value(t, "lo")/2, int64(rapid.IntRange(1, 50).Draw(t, "span"))
		size := rapid.IntRange(0, 30).Draw(t, "size")
		sl := dataunlynx.CreateInt64Slice(int64(size), lo, lo+span)
		if len(sl) != size {
			t.Fatalf("slice of %d values instead of %d", len(sl), size)
		}
		for _, v := range sl {
			if v < lo || v >= lo+span {
				t.Fatalf("value %d is outside [%d, %d)", v, lo, lo+span)
			}
		}
		dataunlynx.FillInt64Slice(sl, lo)
		for _, v := range sl {
			if v != lo {
				t.Fatalf("filled with %d instead of %d", v, lo)
			}
		}
	})
}

func drawData(t *rapid.T, s shape, gpool, wpool []int64, value func(*rapid.T, string) int64) map[string][]libunlynx.DpClearResponse {
	data := map[string][]libunlynx.DpClearResponse{}
	names := rapid.SliceOfNDistinct(rapid.OneOf(rapid.SampledFrom([]string{"0", "1", "2", "10", "11"}), rapid.StringMatching(`[a-zA-Z0-9#_ .:-]{1,12}`)), 0, 5, rapid.ID[string]).Draw(t, "providers")
	for _, n := range names {
		var l []libunlynx.DpClearResponse
		for j, k := 0, rapid.IntRange(0, 7).Draw(t, "records"); j < k; j++ {
			g := hk.Ints(t, "g", s.gc+s.ge, func(t *rapid.T, n string) int64 { return rapid.SampledFrom(gpool).Draw(t, n) })
			w := hk.Ints(t, "w", s.wc+s.we, func(t *rapid.T, n string) int64 { return rapid.SampledFrom(wpool).Draw(t, n) })
			a := hk.Ints(t, "a", s.ac+s.ae, value)
			l = append(l, s.rec(g, w, a))
		}
		data[n] = l
	}
	return data
}

func count(m map[string][]libunlynx.DpClearResponse) int {
	n := 0
	for _, l := range m {
		n += len(l)
	}
	return n
}

func TestFile(t *testing.T) {
	dir, err := os.MkdirTemp("", "c19")
	if err != nil {
		hk.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "data.txt") // the same file again and again
	hk.Check(t, 350, 8000, func(t *rapid.T) {
		s := drawShape(t)
		wide := rapid.IntRange(0, 90).Draw(t, "wide") == 0
		if wide {
			s.ae = rapid.SampledFrom([]int{300, 9000, 40000}).Draw(t, "ae")
		}
		pool := []int64{0, 1, -1, 10, 123456789, -(1 << 62), 1<<63 - 1, -(1 << 63)}
		ext := func(t *rapid.T, n string) int64 {
			return rapid.OneOf(rapid.SampledFrom(pool), rapid.Int64()).Draw(t, n)
		}
		data := drawData(t, s, pool, pool, ext)
		hk.Case("file", fmt.Sprintf("%d providers, %d records, %+v", len(data), count(data), s), count(data) > 0, fmt.Sprint("wide=", wide))
		before := canonData(data)
		if err := dataunlynx.WriteDataToFile(name, data); err != nil {
			t.Fatalf("writing: %v", err)
		}
		if !hk.SameStrings(canonData(data), before) {
			t.Fatalf("writing changed the data")
		}
		var back map[string][]libunlynx.DpClearResponse
		var err error
		if m := hk.NoPanic(func() { back, err = dataunlynx.ReadDataFromFile(name) }); m != "" || err != nil {
			t.Fatalf("reading: %v %s", err, m)
		}
		if got := canonData(back); !hk.SameStrings(got, before) {
			t.Fatalf("read back\n %.2000q\ninstead of\n %.2000q", got, before)
		}
		if err := dataunlynx.WriteDataToFile(filepath.Join(dir, "no", "such", "dir"), data); err == nil {
			t.Fatalf("writing to an impossible place gives no error")
		}
		if _, err := dataunlynx.ReadDataFromFile(filepath.Join(dir, "missing.txt")); err == nil {
			t.Fatalf("reading a missing file gives no error")
		}
	})
}

func join(a, b map[string]int64) map[string]int64 {
	o := map[string]int64{}
	for k, v := range a {
		o[k] = v
	}
	for k, v := range b {
		o[k] = v
	}
	return o
}

func TestExpected(t *testing.T) {
	hk.Check(t, 1500, 25000, func(t *rapid.T) {
		s := drawShape(t)
		if rapid.IntRange(0, 30).Draw(t, "wide") == 0 {
			s.ae, s.ac = rapid.SampledFrom([]int{99, 101, 201}).Draw(t, "ae"), 1
		}
		gpool := rapid.SampledFrom([][]int64{{0, 1}, {0, 1, 2}, {1, 11, 111, -1, -11}, {10, 20, 0}, {1 << 50, -(1 << 50), 7}}).Draw(t, "gpool")
		// one value that passes: the result of records of one group with other filter values is not specified
		pass := rapid.SampledFrom([]int64{1, 1, 1, -1, 10, 1 << 32, -1 << 63}).Draw(t, "pass")
		wpool := []int64{pass, pass, pass, 0}
		data := drawData(t, s, gpool, wpool, value)
		shared := rapid.IntRange(0, 3).Draw(t, "shared") == 0
		if shared && count(data) > 0 {
			// the records of one provider are those of another one
			for _, l := range data {
				data["copy"] = l
				break
			}
		}
		rep := rapid.IntRange(1, 5).Draw(t, "repetitions")
		clear := rapid.Bool().Draw(t, "clear")
		type acc struct{ d libunlynx.DpClearResponse }
		want := map[string]*acc{}
		for _, l := range data {
			for _, d := range l {
				zero := false
				for _, v := range join(d.WhereClear, d.WhereEnc) {
					zero = zero || v == 0
				}
				if zero {
					continue
				}
				id := mapStr(join(d.GroupByClear, d.GroupByEnc))
				if want[id] == nil {
					c := d
					c.AggregatingAttributesClear, c.AggregatingAttributesEnc = map[string]int64{}, map[string]int64{}
					want[id] = &acc{c}
				}
				for k, v := range d.AggregatingAttributesClear {
					want[id].d.AggregatingAttributesClear[k] += v * int64(rep)
				}
				for k, v := range d.AggregatingAttributesEnc {
					want[id].d.AggregatingAttributesEnc[k] += v * int64(rep)
				}
			}
		}
		var wl []libunlynx.DpClearResponse
		for _, a := range want {
			d := a.d
			if clear {
				d.WhereClear, d.WhereEnc = nil, nil
				d.GroupByClear, d.GroupByEnc = join(d.GroupByClear, d.GroupByEnc), nil
				d.AggregatingAttributesClear, d.AggregatingAttributesEnc = join(d.AggregatingAttributesClear, d.AggregatingAttributesEnc), nil
			}
			wl = append(wl, d)
		}
		w := canonAll(wl)
		sort.Strings(w)
		before := canonData(data)
		hk.Case("expected", fmt.Sprintf("%+v, %d records -> %d groups, x%d, clear %v, shared %v: %v", s, count(data), len(want), rep, clear, shared, before), count(data) > 1, fmt.Sprint("clear=", clear), fmt.Sprint("rep=", rep), fmt.Sprint("noKey=", s.gc+s.ge+s.wc+s.we == 0))
		for round := 0; round < 2; round++ {
			var got []libunlynx.DpClearResponse
			if m := hk.NoPanic(func() { got = dataunlynx.ComputeExpectedResult(data, rep, clear) }); m != "" {
				t.Fatalf("computing the expected result: %s", m)
			}
			g := canonAll(got)
			sort.Strings(g)
			if !hk.SameStrings(g, w) {
				t.Fatalf("expected result (call %d)\n %q\ninstead of\n %q", round, g, w)
			}
			if !hk.SameStrings(canonData(data), before) {
				t.Fatalf("computing the expected result changed the data")
			}
			if !clear {
				c := canonAll(dataunlynx.ClearExpectedResult(got))
				if len(c) != len(got) {
					t.Fatalf("clearing changed the number of results")
				}
				g2 := canonAll(got)
				sort.Strings(g2)
				if !hk.SameStrings(g2, w) {
					t.Fatalf("clearing the result changed it")
				}
			}
		}
	})
}

func TestCompare(t *testing.T) {
	hk.Check(t, 3000, 40000, func(t *rapid.T) {
		s := drawShape(t)
		small := func(t *rapid.T, n string) int64 { return int64(rapid.IntRange(0, 1).Draw(t, n)) }
		maps := func(d *libunlynx.DpClearResponse) []*map[string]int64 {
			return []*map[string]int64{&d.GroupByClear, &d.GroupByEnc, &d.WhereClear, &d.WhereEnc, &d.AggregatingAttributesClear, &d.AggregatingAttributesEnc}
		}
		mk := func(name string) libunlynx.DpClearResponse {
			d := s.rec(hk.Ints(t, "g", s.gc+s.ge, small), hk.Ints(t, "w", s.wc+s.we, small), hk.Ints(t, "a", s.ac+s.ae, small))
			// absent and empty are the same
			if rapid.IntRange(0, 3).Draw(t, "nil") == 0 {
				for _, m := range maps(&d) {
					if len(*m) == 0 {
						*m = nil
					}
				}
			}
			return d
		}
		var x []libunlynx.DpClearResponse
		for i, n := 0, rapid.IntRange(0, 6).Draw(t, "n"); i < n; i++ {
			x = append(x, mk("x"))
		}
		y := append([]libunlynx.DpClearResponse{}, x...)
		if len(y) > 1 {
			y = rapid.Permutation(y).Draw(t, "order")
		}
		what := rapid.IntRange(0, 6).Draw(t, "what")
		if len(y) == 0 && (what < 4 && what > 0 || what == 6) {
			what = 4
		}
		switch what {
		case 1: // one less
			y = y[1:]
		case 2: // one instead of another
			y[0] = y[len(y)-1]
		case 3: // one value differs
			d := y[0]
			for _, m := range []*map[string]int64{&d.AggregatingAttributesEnc, &d.AggregatingAttributesClear, &d.GroupByEnc, &d.GroupByClear, &d.WhereEnc, &d.WhereClear} {
				if len(*m) > 0 && rapid.Bool().Draw(t, "here") {
					c := join(*m, nil)
					for k := range c {
						c[k] += 1 << 40
						break
					}
					*m = c
					break
				}
			}
			y[0] = d
		case 4: // one more
			y = append(y, mk("y"))
		case 5: // unrelated
			y = nil
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "m"); i < n; i++ {
				y = append(y, mk("y"))
			}
		case 6: // one has no values of a kind
			d := y[0]
			*maps(&d)[rapid.IntRange(0, 5).Draw(t, "kind")] = map[string]int64{}
			y[0] = d
		}
		if rapid.Bool().Draw(t, "otherForm") {
			for i := range y {
				for _, m := range maps(&y[i]) {
					if len(*m) == 0 {
						if *m == nil {
							*m = map[string]int64{}
						} else {
							*m = nil
						}
					}
				}
			}
		}
		a, b := canonAll(x), canonAll(y)
		sort.Strings(a)
		sort.Strings(b)
		want := hk.SameStrings(a, b)
		hk.Case("compare", fmt.Sprintf("%d and %d records, relation %d: %q %q", len(x), len(y), what, a, b), len(x)+len(y) > 0, fmt.Sprint("relation=", what), fmt.Sprint("equal=", want))
		if got := dataunlynx.CompareClearResponses(x, y); got != want {
			t.Fatalf("comparison says %v for\n %q\n %q", got, a, b)
		}
		if got := dataunlynx.CompareClearResponses(y, x); got != want {
			t.Fatalf("comparison says %v for\n %q\n %q", got, b, a)
		}
	})
}

func TestConversions(t *testing.T) {
	hk.Check(t, 2000, 30000, func(t *rapid.T) {
		l := rapid.SliceOfN(rapid.OneOf(rapid.Int64Range(-20, 20), rapid.Int64()), 0, 30).Draw(t, "list")
		p := rapid.SampledFrom([]string{"g", "w", "s", "test", ""}).Draw(t, "prefix")
		start := rapid.IntRange(0, 12).Draw(t, "start")
		hk.Case("conversion", fmt.Sprint(l, p, start), len(l) > 0)
		if got := libunlynxtools.StringToInt64Array(libunlynxtools.Int64ArrayToString(l)); !hk.SameInts(got, l) {
			t.Fatalf("%v became %v as text and back", l, got)
		}
		m := libunlynxtools.ConvertDataToMap(l, p, start)
		if mapStr(m) != mapStr(mapOf(p, start, l)) {
			t.Fatalf("%v became the map %v", l, m)
		}
		if got := libunlynxtools.ConvertMapToData(m, p, start); !hk.SameInts(got, l) {
			t.Fatalf("%v became %v as map and back", l, got)
		}
	})
}
