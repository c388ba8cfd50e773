package c10

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
	"verif/harness/sv"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Whole surveys are drawn: roster (1 to 6 servers of the cluster in any order) and entry server, data providers (0 to 12) assigned to servers in any way including servers without any, records per provider (0 to some 60), attributes clear or encrypted (uniformly, or per provider, or per record), where attributes with generated predicates, group-by, sums, count, repetitions, proofs; values small, zero and negative. Each is run through the real client and service on an in-process cluster, and the decrypted answer must be the set of groups with exact sums computed on the clear data. Application mode (servers read a data file, and precomputed values left by earlier surveys) and operations on unknown surveys or with unusable predicates are run the same way. Non-trivial: at least two records pass the filter and at least one does not.",
		"a survey that does not end is repeated before it counts, because the network library can lose a message on a loaded machine; sums stay in the range that can be decrypted")
}

func check(t *rapid.T, s *sv.Survey, f func() ([]string, error)) {
	all, pass, at := s.Total()
	hk.Case("survey", s.String(), pass > 1 && pass < all, fmt.Sprint("servers=", len(s.Roster.List)), fmt.Sprint("servers with data=", at), fmt.Sprint("proofs=", s.Proofs), fmt.Sprint("groupBy=", len(s.Group)), fmt.Sprint("where=", len(s.Where)))
	var got []string
	var err error
	ended, msg := hk.EventuallyEnds(func() func() {
		return func() { got, err = f() }
	})
	if !ended {
		t.Fatalf("%v\nthe survey does not end", s)
	}
	if msg != "" {
		t.Fatalf("%v\n%s", s, msg)
	}
	if err != nil {
		t.Fatalf("%v\n%v", s, err)
	}
	want := s.Answer()
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		t.Fatalf("%v\nanswered %q\nexpected %q", s, got, want)
	}
}

func TestSurvey(t *testing.T) {
	cl.Up()
	hk.Check(t, 300, 6000, func(t *rapid.T) {
		s := sv.Draw(t, sv.Limits{Servers: 5, DPs: 8, Records: 4})
		check(t, s, s.Run)
	})
}

func TestProofs(t *testing.T) {
	cl.Up()
	hk.Check(t, 25, 500, func(t *rapid.T) {
		s := sv.Draw(t, sv.Limits{Servers: 4, DPs: 4, Records: 3, Proofs: 1})
		check(t, s, s.Run)
	})
}

func TestLarge(t *testing.T) {
	cl.Up()
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		l := sv.Limits{Servers: 6, DPs: 12, Records: 12, LargeSums: true}
		if rapid.IntRange(0, 4).Draw(t, "few") == 0 {
			l = sv.Limits{Servers: 3, DPs: 2, Records: 60}
		}
		s := sv.Draw(t, l)
		check(t, s, s.Run)
	})
}

// TestApp: every server reads its data from a file, and takes precomputed values
// from a file that an earlier survey of other servers left.
func TestApp(t *testing.T) {
	cl.Up()
	home, err := os.Getwd()
	if err != nil {
		hk.Infra("%v", err)
	}
	dir, err := os.MkdirTemp("", "c10-")
	if err != nil {
		hk.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	there := false
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		l := sv.Limits{Servers: 4, Records: 4, App: true}
		if !there || rapid.IntRange(0, 9).Draw(t, "fresh") == 0 {
			// the servers share a directory here, so only one may write the file
			l.Servers = 1
			if err := os.RemoveAll(filepath.Join(dir, "pre_compute_multiplications.gob")); err != nil {
				hk.Infra("%v", err)
			}
		}
		s := sv.Draw(t, l)
		data := map[string][]libunlynx.DpClearResponse{}
		for i, d := range s.DPs {
			if len(d.Records) > 0 || rapid.Bool().Draw(t, "emptyProvider") {
				data[fmt.Sprint(i)] = s.Clear(d)
			}
		}
		if err := os.Chdir(dir); err != nil {
			hk.Infra("%v", err)
		}
		defer func() {
			if err := os.Chdir(home); err != nil {
				hk.Infra("%v", err)
			}
		}()
		if err := dataunlynx.WriteDataToFile("unlynx_test_data.txt", data); err != nil {
			t.Fatalf("writing the data: %v", err)
		}
		check(t, s, func() ([]string, error) {
			c, id, err := s.Create(true)
			if err != nil {
				return nil, err
			}
			return s.Results(c, id)
		})
		there = true
	})
}

// TestRefused: operations on unknown surveys are errors, and surveys whose
// predicate cannot be evaluated have an empty answer; the servers go on working.
func TestRefused(t *testing.T) {
	cl.Up()
	hk.Check(t, 40, 800, func(t *rapid.T) {
		s := sv.Draw(t, sv.Limits{Servers: 3, DPs: 4, Records: 3})
		if len(s.DPs) == 0 {
			s.DPs = append(s.DPs, sv.DP{Repeat: 1})
		}
		var real servicesunlynx.SurveyID
		var c *servicesunlynx.API
		var err error
		step := func(what string, f func()) {
			ended, msg := hk.EventuallyEnds(func() func() { return f })
			if !ended {
				t.Fatalf("%s does not end", what)
			}
			if msg != "" {
				t.Fatalf("%s: %s", what, msg)
			}
		}
		step("creating a survey", func() { c, real, err = s.Create(false) })
		if err != nil {
			t.Fatalf("%v", err)
		}
		id := servicesunlynx.SurveyID(rapid.SampledFrom([]string{"", "x", "00000000-0000-0000-0000-000000000000", string(real) + " ", string(real[1:])}).Draw(t, "id"))
		hk.Case("unknown", fmt.Sprintf("%q", id), len(s.DPs[0].Records) > 0)
		for i := 0; i < 2; i++ {
			step("uploading to an unknown survey", func() { err = s.Upload(id, s.DPs[0]) })
			if err == nil {
				t.Fatalf("an upload to the unknown survey %q is accepted", id)
			}
			var got []string
			step("asking for the results of an unknown survey", func() { got, err = s.Results(s.Client(s.Entry), id) })
			if err == nil {
				t.Fatalf("the unknown survey %q has results %v", id, got)
			}
		}
		if rapid.Bool().Draw(t, "unusable") && len(s.Where) > 0 {
			u := *s
			u.Pred = &sv.Pred{Op: "==", I: 98, J: 99}
			var got []string
			step("a survey with an unusable predicate", func() { got, err = u.Run() })
			if err == nil && len(got) > 0 {
				t.Fatalf("%v\nanswered %v", &u, got)
			}
		}
		// the first survey still works
		first := true
		check(t, s, func() ([]string, error) {
			if !first {
				return s.Run()
			}
			first = false
			for _, d := range s.DPs {
				if err := s.Upload(real, d); err != nil {
					return nil, err
				}
			}
			return s.Results(c, real)
		})
	})
}
