package c04

import (
	"fmt"
	"sort"
	"testing"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/onet/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
	"verif/harness/sv"
)

// bad is an upload of one provider of which one value is replaced.
type bad struct {
	dp, record, attr int
	bytes            []byte
	short            bool
}

// at lists the encrypted values of a response.
func at(r *libunlynx.DpResponseToSend) (set []func([]byte), get [][]byte) {
	for _, m := range []map[string][]byte{r.GroupByEnc, r.WhereEnc, r.AggregatingAttributesEnc} {
		m := m
		var names []string
		for n := range m {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			n := n
			set = append(set, func(b []byte) { m[n] = b })
			get = append(get, m[n])
		}
	}
	return set, get
}

// TestUploads: data providers send malformed values to the servers of a running
// survey. The ones that are too short must be refused and leave no trace.
func TestUploads(t *testing.T) {
	cl.Up()
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		s := sv.Draw(t, sv.Limits{Servers: 3, DPs: 4, Records: 4})
		sample := make([]byte, C)
		var bads []bad
		for d, dp := range s.DPs {
			for k, n := 0, rapid.IntRange(0, 3).Draw(t, "malformed"); k < n && len(dp.Records) > 0; k++ {
				b := bad{dp: d, record: rapid.IntRange(0, len(dp.Records)-1).Draw(t, "record"), attr: rapid.IntRange(0, 20).Draw(t, "attr")}
				if rapid.Bool().Draw(t, "short") {
					b.short = true
					b.bytes = sample[:rapid.IntRange(0, C-1).Draw(t, "length")]
				} else {
					b.bytes = mutate(t, "value", sample).b
				}
				bads = append(bads, b)
			}
		}
		desc := s.String()
		shorts, others := 0, 0
		var got []string
		var err error
		var wrong string
		ended, msg := hk.EventuallyEnds(func() func() {
			return func() {
				shorts, others, wrong = 0, 0, ""
				var c *servicesunlynx.API
				var id, scratch servicesunlynx.SurveyID
				if c, id, err = s.Create(false); err != nil {
					return
				}
				if _, scratch, err = s.Create(false); err != nil {
					return
				}
				for d, dp := range s.DPs {
					for _, b := range bads {
						if b.dp != d {
							continue
						}
						to := id
						if !b.short {
							to = scratch
						}
						var q *servicesunlynx.SurveyResponseQuery
						if q, err = servicesunlynx.EncryptDataToSurvey("dp", to, s.Clear(dp), s.Roster.Aggregate, 1, s.Count); err != nil {
							return
						}
						set, get := at(&q.Responses[b.record])
						if len(set) == 0 {
							continue
						}
						k := b.attr % len(set)
						if b.short {
							shorts++
							set[k](get[k][:len(b.bytes)])
						} else {
							others++
							v := append([]byte{}, b.bytes...)
							for i := range v { // most of the valid value stays
								if v[i] == 0 && i < len(get[k]) {
									v[i] = get[k][i]
								}
							}
							set[k](v)
						}
						client := onet.NewClient(libunlynx.SuiTe, servicesunlynx.ServiceName)
						e := client.SendProtobuf(s.Roster.List[dp.Server], q, &servicesunlynx.ServiceState{})
						if cerr := client.Close(); cerr != nil {
							hk.Note("client not closed")
						}
						if b.short && e == nil {
							wrong = fmt.Sprintf("a response with a value of %d bytes is accepted", len(b.bytes))
							return
						}
					}
					if err = s.Upload(id, dp); err != nil {
						return
					}
				}
				got, err = s.Results(c, id)
			}
		})
		hk.Case("uploads", fmt.Sprintf("%d short and %d other malformed uploads; %s", shorts, others, desc), shorts+others > 0, fmt.Sprint("short uploads=", shorts))
		if !ended {
			t.Fatalf("%s\nthe survey does not end after malformed uploads", desc)
		}
		if msg != "" {
			t.Fatalf("%s\n%s", desc, msg)
		}
		if wrong != "" {
			t.Fatalf("%s\n%s", desc, wrong)
		}
		if err != nil {
			t.Fatalf("%s\n%v", desc, err)
		}
		if want := s.Answer(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			t.Fatalf("%s\nafter refused uploads answered %q\nexpected %q", desc, got, want)
		}
	})
}
