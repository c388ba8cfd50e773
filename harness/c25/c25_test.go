package c25

import (
	"encoding/csv"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	timedataunlynx "github.com/ldsec/unlynx/simul/test_data/time_data"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Timing tables with 0 to 6 runs and 1 to 60 columns (per step and server: wall, user and system clock times with sum, average, minimum, maximum and deviation; parameter columns; steps whose names contain one another; quoted cells) are written and parsed for generated lists of requested steps; the result must be a reference's. Setup files with several runs, with anything before the table, are read for every run. Reports are written for every run and each step must be in each once with its value. Non-trivial: a table with at least two runs and a step with several columns.",
		"step names have no underscore, which separates the parts of a column name; a parameter column occurs once")
}

var steps = []string{"Shuffling(START)", "Shuffling(DISPATCH)", "Shuffling", "Shuffling(START-noProof)", "DetTagging1(DISPATCH)", "DetTagging(DISPATCH)", "LocalAggregation(PROTOCOL)", "KeySwitchingPhase", "Simulation", "wall", "sum", "ShufflingPhase+TaggingPhase", "x"}
var params = []string{"bf", "depth", "rounds", "runwait", "servers", "hosts", "Proofs"}

func dir(t *rapid.T) (string, func()) {
	d, err := os.MkdirTemp("", "c25-")
	if err != nil {
		hk.Infra("scratch directory: %v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

type col struct {
	parts []string
	cells []string
}

func drawTable(t *rapid.T) (cols []col, runs int) {
	runs = rapid.IntRange(0, 6).Draw(t, "runs")
	cell := func() string {
		return rapid.SampledFrom([]string{"0.12", "3", "1e-05", "NaN", "12.500000", "", "a, b", "say \"x\"", "7"}).Draw(t, "cell") + rapid.SampledFrom([]string{"", "1", "42"}).Draw(t, "more")
	}
	add := func(parts ...string) {
		c := col{parts: parts}
		for i := 0; i < runs; i++ {
			c.cells = append(c.cells, cell())
		}
		cols = append(cols, c)
	}
	for _, p := range params {
		if rapid.Bool().Draw(t, "param") {
			add(p)
		}
	}
	pre := []string{"ShufflingPlusDDT", "tls://127.0.0.1:2000", "tls://127.0.0.1:2002", "Simulation", "server-0", "individual"}
	for i, n := 0, rapid.IntRange(0, 12).Draw(t, "measures"); i < n; i++ {
		step := rapid.SampledFrom(steps[:9]).Draw(t, "step")
		for j, k := 0, rapid.IntRange(1, 4).Draw(t, "columns"); j < k; j++ {
			var head []string
			switch rapid.IntRange(0, 3).Draw(t, "prefix") {
			case 0:
				head = []string{step}
			case 1:
				head = []string{rapid.SampledFrom(pre).Draw(t, "pre"), step}
			case 2:
				head = []string{step, rapid.SampledFrom(pre).Draw(t, "post")}
			default:
				head = []string{rapid.SampledFrom(pre).Draw(t, "pre"), rapid.SampledFrom(pre).Draw(t, "pre2"), step}
			}
			clocks := []string{"wall", "wall", "user", "system"}
			stats := []string{"sum", "sum", "avg", "min", "max", "dev"}
			add(append(append([]string{}, head...), rapid.SampledFrom(clocks).Draw(t, "clock"), rapid.SampledFrom(stats).Draw(t, "stat"))...)
		}
	}
	if len(cols) == 0 {
		add("bf")
	}
	idx := make([]int, len(cols))
	for i := range idx {
		idx[i] = i
	}
	out := make([]col, len(cols))
	for i, p := range rapid.Permutation(idx).Draw(t, "order") {
		out[i] = cols[p]
	}
	return out, runs
}

func write(d string, cols []col, runs int) string {
	var rows [][]string
	for r := -1; r < runs; r++ {
		var row []string
		for _, c := range cols {
			if r < 0 {
				row = append(row, strings.Join(c.parts, "_"))
			} else {
				row = append(row, c.cells[r])
			}
		}
		if len(row) == 1 && row[0] == "" {
			row[0] = "0"
			cols[0].cells[r] = "0"
		}
		rows = append(rows, row)
	}
	f := filepath.Join(d, "times.csv")
	h, err := os.Create(f)
	if err == nil {
		w := csv.NewWriter(h)
		if err = w.WriteAll(rows); err == nil {
			err = h.Close()
		}
	}
	if err != nil {
		hk.Infra("writing the table: %v", err)
	}
	return f
}

func drawFlags(t *rapid.T) []string {
	all := append(append([]string{}, steps[:9]...), params...)
	all = append(all, "Absent(STEP)")
	var flags []string
	for _, i := range rapid.Permutation(seq(len(all))).Draw(t, "flagOrder") {
		if rapid.IntRange(0, 2).Draw(t, "request") > 0 {
			flags = append(flags, all[i])
		}
	}
	return flags
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// expected is the reference: per step and run the cells of its columns
func expected(cols []col, runs int, flags []string) map[string][]string {
	want := map[string][]string{}
	for _, f := range flags {
		for r := 0; r < runs; r++ {
			var cells []string
			found := false
			for _, c := range cols {
				n := len(c.parts)
				if n > 1 && (c.parts[n-1] != "sum" || c.parts[n-2] != "wall") {
					continue
				}
				for _, p := range c.parts {
					if p == f {
						cells, found = append(cells, c.cells[r]), true
					}
				}
			}
			if found {
				want[f] = append(want[f], strings.Join(cells, ", "))
			}
		}
	}
	return want
}

func TestTable(t *testing.T) {
	hk.Check(t, 4000, 60000, func(t *rapid.T) {
		cols, runs := drawTable(t)
		flags := drawFlags(t)
		d, done := dir(t)
		defer done()
		file := write(d, cols, runs)
		want := expected(cols, runs, flags)
		multi := false
		for _, v := range want {
			for _, c := range v {
				multi = multi || strings.Contains(c, ", ")
			}
		}
		var heads []string
		for _, c := range cols {
			heads = append(heads, strings.Join(c.parts, "_"))
		}
		hk.Case("table", fmt.Sprintf("%d runs, requested %v, columns %v", runs, flags, heads), runs > 1 && multi, fmt.Sprint("runs=", runs))
		got, err := timedataunlynx.ReadDataFromCSVFile(file, flags)
		if err != nil {
			t.Fatalf("reading the table: %v", err)
		}
		if a, b := show(got), show(want); a != b {
			t.Fatalf("columns %v\nrequested %v\nread     %s\nexpected %s", heads, flags, a, b)
		}
	})
}

func show(m map[string][]string) string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func TestSetup(t *testing.T) {
	hk.Check(t, 3000, 40000, func(t *rapid.T) {
		d, done := dir(t)
		defer done()
		names := append([]string{"Hosts"}, rapid.Permutation([]string{"NbrResponses", "Proofs", "PreCompute", "NbrDPs", "Count", "HostsTotal"}).Draw(t, "names")[:rapid.IntRange(0, 6).Draw(t, "n")]...)
		runs := rapid.IntRange(0, 8).Draw(t, "runs")
		lines := []string{}
		for _, l := range []string{"Simulation = \"ShufflingPlusDDT\"", "Servers = 3", "Bf = 2", "# Hosts, Count", "", "Hosts = 3", "RunWait = \"24h\"", "NbrGroupAttributes = [2, 5]", " Hosts, x"} {
			if rapid.Bool().Draw(t, "line") {
				lines = append(lines, l)
			}
		}
		lines = append(lines, strings.Join(names, ", "))
		var table []map[string]string
		for r := 0; r < runs; r++ {
			m := map[string]string{}
			var cells []string
			for _, n := range names {
				v := rapid.SampledFrom([]string{"3", "20", "true", "false", "[2,5]", "\"x y\"", "0", "-1", "Hosts2"}).Draw(t, "v")
				cells, m[n] = append(cells, v), v
			}
			table = append(table, m)
			lines = append(lines, strings.Join(cells, ", "))
		}
		file := filepath.Join(d, "run.toml")
		text := strings.Join(lines, "\n")
		if rapid.Bool().Draw(t, "newline") {
			text += "\n"
		}
		if err := os.WriteFile(file, []byte(text), 0600); err != nil {
			hk.Infra("%v", err)
		}
		hk.Case("setup", fmt.Sprintf("%d runs of %v", runs, names), runs > 1 && len(names) > 1, fmt.Sprint("runs=", runs))
		for r := 0; r <= runs; r++ {
			got, err := timedataunlynx.ReadTomlSetup(file, r)
			if err != nil && r < runs {
				t.Fatalf("reading run %d: %v", r, err)
			}
			want := map[string]string{}
			if r < runs {
				want = table[r]
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("run %d of\n%s\nread %v instead of %v", r, text, got, want)
			}
		}
		if _, err := timedataunlynx.ReadTomlSetup(file+".none", 0); err == nil {
			t.Fatalf("a setup file that does not exist was read")
		}
		if _, err := timedataunlynx.ReadDataFromCSVFile(file+".none", names); err == nil {
			t.Fatalf("a table that does not exist was read")
		}
	})
}

func TestReport(t *testing.T) {
	hk.Check(t, 2000, 30000, func(t *rapid.T) {
		cols, runs := drawTable(t)
		flags := drawFlags(t)
		withBreaks := []string{}
		for _, f := range flags {
			if rapid.IntRange(0, 4).Draw(t, "break") == 0 {
				withBreaks = append(withBreaks, "\n")
			}
			withBreaks = append(withBreaks, f)
		}
		d, done := dir(t)
		defer done()
		file := write(d, cols, runs)
		want := expected(cols, runs, flags)
		got, err := timedataunlynx.ReadDataFromCSVFile(file, withBreaks)
		if err != nil {
			t.Fatalf("reading the table: %v", err)
		}
		out := filepath.Join(d, "report.txt")
		if rapid.Bool().Draw(t, "old") {
			if err := os.WriteFile(out, []byte("an old report\nx: 3\n"), 0600); err != nil {
				hk.Infra("%v", err)
			}
		}
		if err := timedataunlynx.CreateCSVFile(out); err != nil {
			t.Fatalf("creating the report: %v", err)
		}
		if b, err := os.ReadFile(out); err != nil || len(b) != 0 {
			t.Fatalf("the new report is not empty: %q %v", b, err)
		}
		hk.Case("report", fmt.Sprintf("%d runs, requested %v", runs, withBreaks), runs > 1 && len(flags) > 1, fmt.Sprint("runs=", runs))
		var lines []string
		for r := 0; r < runs; r++ {
			// names of the setup that no step has
			setup := map[string]string{}
			for i, k := 0, rapid.IntRange(0, 3).Draw(t, "setup"); i < k; i++ {
				setup[fmt.Sprintf("Par%d", i)] = fmt.Sprint("v", r, i)
			}
			if err := timedataunlynx.WriteDataFromCSVFile(out, withBreaks, got, r, setup); err != nil {
				t.Fatalf("writing run %d: %v", r, err)
			}
			b, err := os.ReadFile(out)
			if err != nil {
				hk.Infra("%v", err)
			}
			all := strings.Split(string(b), "\n")
			if len(all) < len(lines) || strings.Join(all[:len(lines)], "\n") != strings.Join(lines, "\n") {
				t.Fatalf("writing run %d changed what was written before", r)
			}
			part := all[len(lines):]
			lines = all[:len(all)-1]
			vals := map[string][]string{}
			for _, l := range part {
				if i := strings.Index(l, ": "); i >= 0 {
					vals[l[:i]] = append(vals[l[:i]], strings.TrimLeft(l[i+1:], " "))
				}
			}
			for k, v := range setup {
				if len(vals[k]) != 1 || vals[k][0] != v {
					t.Fatalf("run %d: parameter %s is reported as %q instead of %q", r, k, vals[k], v)
				}
				delete(vals, k)
			}
			for _, f := range flags {
				w := ""
				if len(want[f]) > 0 {
					w = want[f][r]
				}
				if len(vals[f]) != 1 || vals[f][0] != w {
					t.Fatalf("run %d: step %s is reported as %q instead of %q", r, f, vals[f], w)
				}
				delete(vals, f)
			}
			if len(vals) > 0 {
				t.Fatalf("run %d: the report has %v, which was not asked for", r, vals)
			}
		}
	})
}
