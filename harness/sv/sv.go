// Package sv draws surveys (roster, query, data providers and their records),
// runs them with the real service and client on the in-process cluster, and
// knows the answer the clear-text query has.
package sv

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
)

// Pred is a predicate: op and/or/not/eq/ne.
type Pred struct {
	Op   string
	A, B *Pred
	I, J int
}

// DrawPred draws a predicate over nv variables.
func DrawPred(t *rapid.T, nv, depth int) *Pred {
	k := rapid.IntRange(0, 5).Draw(t, "node")
	if depth == 0 || k < 2 {
		i := rapid.IntRange(0, nv-1).Draw(t, "i")
		n := &Pred{Op: rapid.SampledFrom([]string{"==", "==", "!="}).Draw(t, "cmp"), I: i, J: i ^ 1}
		if rapid.IntRange(0, 5).Draw(t, "cross") == 0 {
			n.J = rapid.IntRange(0, nv-1).Draw(t, "j")
		}
		return n
	}
	switch k {
	case 2, 3:
		return &Pred{Op: "&&", A: DrawPred(t, nv, depth-1), B: DrawPred(t, nv, depth-1)}
	case 4:
		return &Pred{Op: "||", A: DrawPred(t, nv, depth-1), B: DrawPred(t, nv, depth-1)}
	}
	return &Pred{Op: "!", A: DrawPred(t, nv, depth-1)}
}

// Eval is the reference evaluator.
func (n *Pred) Eval(v []int64) bool {
	switch n.Op {
	case "==":
		return v[n.I] == v[n.J]
	case "!=":
		return v[n.I] != v[n.J]
	case "&&":
		return n.A.Eval(v) && n.B.Eval(v)
	case "||":
		return n.A.Eval(v) || n.B.Eval(v)
	}
	return !n.A.Eval(v)
}

func (n *Pred) String() string {
	switch n.Op {
	case "==", "!=":
		return fmt.Sprintf("v%d %s v%d", n.I, n.Op, n.J)
	case "!":
		return "!(" + n.A.String() + ")"
	}
	return "(" + n.A.String() + " " + n.Op + " " + n.B.String() + ")"
}

// Record is one record in clear, and which attributes are sent encrypted.
type Record struct {
	Group, Where, Sum []int64
	EncG, EncW, EncS  []bool
}

// DP is a data provider.
type DP struct {
	Server  int
	Records []Record
	Repeat  int
}

// Survey is a survey with its data.
type Survey struct {
	Roster            *onet.Roster
	RosterDesc        string
	Entry             int
	Group, Where, Sum []string // names; Sum may contain "count"
	Query             []int64  // values of the where attributes in the query
	Pred              *Pred    // nil: none
	Count, Proofs     bool
	DPs               []DP
	ZeroEntries       bool // servers without data providers are listed with 0
	Ask               int  // the server that is asked for the results, by another client than the one that sent the query (-1: by the same)
	KeyDesc           string
	Key               kyber.Point // a client key sent with the query (nil: none)
}

// Limits bounds what is drawn.
type Limits struct {
	Servers, DPs, Records int
	Proofs                int // one in so many surveys has proofs (0: none)
	Roster                *onet.Roster
	RosterDesc            string
	App                   bool // one provider per server; attributes named by position, clear ones first
	LargeSums             bool
}

// Draw draws a survey.
func Draw(t *rapid.T, l Limits) *Survey {
	s := &Survey{Roster: l.Roster, RosterDesc: l.RosterDesc}
	if s.Roster == nil {
		s.Roster, s.RosterDesc = cl.DrawRoster(t, 1, l.Servers)
	}
	n := len(s.Roster.List)
	s.Entry = rapid.IntRange(0, n-1).Draw(t, "entry")
	if l.Proofs > 0 {
		s.Proofs = rapid.IntRange(0, l.Proofs-1).Draw(t, "proofs") == 0
	}
	s.Ask = -1
	if rapid.IntRange(0, 4).Draw(t, "otherClient") == 0 {
		s.Ask = rapid.IntRange(0, n-1).Draw(t, "askedServer")
	}
	s.KeyDesc = rapid.SampledFrom([]string{"none", "none", "some", "server's", "neutral"}).Draw(t, "queryKey")
	switch s.KeyDesc {
	case "some":
		_, s.Key = hk.KeyPair(t, "clientKey")
	case "server's":
		s.Key = s.Roster.List[n-1].Public
	case "neutral":
		s.Key = libunlynx.SuiTe.Point().Null()
	}
	sameNames := !l.App && rapid.IntRange(0, 7).Draw(t, "sameNames") == 0 // one name may be grouped by, filtered and summed
	names := func(p string, lo, hi int) []string {
		k := rapid.IntRange(lo, hi).Draw(t, "n"+p)
		var out []string
		if sameNames {
			p = "a"
		}
		if l.App {
			for i := 0; i < k; i++ {
				out = append(out, fmt.Sprint(p, i))
			}
			return out
		}
		for _, i := range rapid.Permutation([]int{0, 1, 2, 10, 11, 5}).Draw(t, "names"+p)[:k] {
			out = append(out, fmt.Sprint(p, i))
		}
		return out
	}
	s.Group = names("g", 0, 3)
	s.Where = names("w", 0, 3)
	s.Count = rapid.IntRange(0, 2).Draw(t, "count") == 0
	lo := 1
	if s.Count {
		lo = 0
	}
	s.Sum = names("s", lo, 4)
	if s.Count {
		i := rapid.IntRange(0, len(s.Sum)).Draw(t, "countAt")
		s.Sum = append(append(append([]string{}, s.Sum[:i]...), "count"), s.Sum[i:]...)
	}
	wpool := rapid.SampledFrom([][]int64{{0, 1}, {1, 2, 3}, {0, -1, 1}, {27, 28}, {1 << 33, 1, 0, -1 << 33, 1<<33 + 1}}).Draw(t, "wherePool")
	gpool := rapid.SampledFrom([][]int64{{0, 1}, {1, 2, 3}, {0, -1, 1}, {11, 1}, {7}}).Draw(t, "groupPool")
	wherev := rapid.SampledFrom(wpool)
	groupv := rapid.SampledFrom(gpool)
	for range s.Where {
		s.Query = append(s.Query, wherev.Draw(t, "query"))
	}
	if len(s.Where) > 0 && rapid.IntRange(0, 7).Draw(t, "noPredicate") > 0 {
		s.Pred = DrawPred(t, 2*len(s.Where), rapid.IntRange(0, 3).Draw(t, "depth"))
	}
	s.ZeroEntries = rapid.Bool().Draw(t, "zeroEntries")
	// which attributes are encrypted: everywhere the same, or drawn per provider or per record
	mode := rapid.IntRange(0, 7).Draw(t, "encryption")
	bits := func(k int, name string) []bool {
		out := make([]bool, k)
		for i := range out {
			out[i] = rapid.Bool().Draw(t, name) || (l.App && i > 0 && out[i-1])
		}
		return out
	}
	fill := func(k int, b bool) []bool {
		out := make([]bool, k)
		for i := range out {
			out[i] = b
		}
		return out
	}
	shape := func() (g, w, x []bool) {
		switch mode {
		case 0:
			return fill(len(s.Group), false), fill(len(s.Where), false), fill(len(s.Sum), true)
		case 1:
			return fill(len(s.Group), true), fill(len(s.Where), true), fill(len(s.Sum), true)
		case 2:
			return fill(len(s.Group), true), fill(len(s.Where), false), fill(len(s.Sum), true)
		case 3:
			return fill(len(s.Group), false), fill(len(s.Where), true), fill(len(s.Sum), false)
		}
		return bits(len(s.Group), "encG"), bits(len(s.Where), "encW"), bits(len(s.Sum), "encS")
	}
	eg, ew, es := shape()
	sumv := rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(0, 300), rapid.SampledFrom([]int64{0, 0, 1}))
	if l.LargeSums {
		sumv = rapid.OneOf(sumv, rapid.Int64Range(-2000, 2000))
	}
	concentrate := rapid.IntRange(0, 3).Draw(t, "concentrate") == 0 // all data at one server
	one := rapid.IntRange(0, n-1).Draw(t, "dataServer")
	providers := n
	if !l.App {
		providers = rapid.IntRange(0, l.DPs).Draw(t, "providers")
	}
	for i := 0; i < providers; i++ {
		d := DP{Server: one, Repeat: 1}
		if l.App {
			d.Server = i
		} else if !concentrate {
			d.Server = rapid.IntRange(0, n-1).Draw(t, "server")
		}
		if !l.App && rapid.IntRange(0, 7).Draw(t, "repeat") == 0 {
			d.Repeat = rapid.IntRange(1, 3).Draw(t, "repetitions")
		}
		if mode == 6 {
			eg, ew, es = shape()
		}
		for j, m := 0, rapid.IntRange(0, l.Records).Draw(t, "records"); j < m; j++ {
			if mode == 7 {
				eg, ew, es = shape()
			}
			r := Record{EncG: eg, EncW: ew, EncS: es}
			for range s.Group {
				r.Group = append(r.Group, groupv.Draw(t, "g"))
			}
			for range s.Where {
				r.Where = append(r.Where, wherev.Draw(t, "w"))
			}
			for _, nm := range s.Sum {
				v := int64(1)
				if nm != "count" {
					v = sumv.Draw(t, "s")
				}
				r.Sum = append(r.Sum, v)
			}
			d.Records = append(d.Records, r)
		}
		s.DPs = append(s.DPs, d)
	}
	return s
}

// Passes says whether a record satisfies the query.
func (s *Survey) Passes(r Record) bool {
	if s.Pred == nil {
		return true
	}
	var v []int64
	for i := range s.Where {
		v = append(v, s.Query[i], r.Where[i])
	}
	return s.Pred.Eval(v)
}

// Answer is the clear-text answer: one line per group.
func (s *Survey) Answer() []string {
	sums := map[string][]int64{}
	for _, d := range s.DPs {
		for _, r := range d.Records {
			if !s.Passes(r) {
				continue
			}
			k := fmt.Sprint(r.Group)
			if sums[k] == nil {
				sums[k] = make([]int64, len(s.Sum))
			}
			for i, v := range r.Sum {
				sums[k][i] += v * int64(d.Repeat)
			}
		}
	}
	var out []string
	for k, v := range sums {
		out = append(out, fmt.Sprint(k, " -> ", v))
	}
	sort.Strings(out)
	return out
}

// Total counts the records and those that pass.
func (s *Survey) Total() (all, pass, servers int) {
	at := map[int]bool{}
	for _, d := range s.DPs {
		for _, r := range d.Records {
			all++
			at[d.Server] = true
			if s.Passes(r) {
				pass++
			}
		}
	}
	return all, pass, len(at)
}

func (s *Survey) String() string {
	if s == nil {
		return "-"
	}
	var b strings.Builder
	p := ""
	if s.Pred != nil {
		p = s.Pred.String()
	}
	fmt.Fprintf(&b, "roster %s entry %d sum %v count %v where %v=%v predicate %q groupBy %v proofs %v, key %s, asked at %d", s.RosterDesc, s.Entry, s.Sum, s.Count, s.Where, s.Query, p, s.Group, s.Proofs, s.KeyDesc, s.Ask)
	for i, d := range s.DPs {
		fmt.Fprintf(&b, "\n  provider %d at server %d x%d:", i, d.Server, d.Repeat)
		for j, r := range d.Records {
			if j == 6 {
				fmt.Fprintf(&b, " ... (%d records)", len(d.Records))
				break
			}
			fmt.Fprintf(&b, " g%v%s w%v%s s%v%s", r.Group, enc(r.EncG), r.Where, enc(r.EncW), r.Sum, enc(r.EncS))
		}
	}
	return b.String()
}

func enc(b []bool) string {
	out := ""
	for _, x := range b {
		if x {
			out += "e"
		} else {
			out += "c"
		}
	}
	return out
}

// Clear gives the records as the data provider hands them to its client.
func (s *Survey) Clear(d DP) []libunlynx.DpClearResponse {
	out := make([]libunlynx.DpClearResponse, 0, len(d.Records))
	put := func(clear, encr *map[string]int64, e bool, name string, v int64) {
		m := clear
		if e {
			m = encr
		}
		if *m == nil {
			*m = map[string]int64{}
		}
		(*m)[name] = v
	}
	for _, r := range d.Records {
		c := libunlynx.DpClearResponse{}
		for i, n := range s.Group {
			put(&c.GroupByClear, &c.GroupByEnc, r.EncG[i], n, r.Group[i])
		}
		for i, n := range s.Where {
			put(&c.WhereClear, &c.WhereEnc, r.EncW[i], n, r.Where[i])
		}
		for i, n := range s.Sum {
			if n != "count" {
				put(&c.AggregatingAttributesClear, &c.AggregatingAttributesEnc, r.EncS[i], n, r.Sum[i])
			}
		}
		out = append(out, c)
	}
	return out
}

var clientNo int
var clientMu sync.Mutex

// Client is a client connected to a server of the roster.
func (s *Survey) Client(server int) *servicesunlynx.API {
	clientMu.Lock()
	clientNo++
	n := clientNo
	clientMu.Unlock()
	return servicesunlynx.NewUnLynxClient(s.Roster.List[server], fmt.Sprint(n))
}

// Create sends the query and returns the client that is to ask for the results, and the survey's id.
func (s *Survey) Create(app bool) (*servicesunlynx.API, servicesunlynx.SurveyID, error) {
	c := s.Client(s.Entry)
	dps := map[string]int64{}
	if s.ZeroEntries {
		for _, si := range s.Roster.List {
			dps[si.String()] = 0
		}
	}
	for _, d := range s.DPs {
		dps[s.Roster.List[d.Server].String()]++
	}
	var where []libunlynx.WhereQueryAttribute
	for i, n := range s.Where {
		where = append(where, libunlynx.WhereQueryAttribute{Name: n, Value: *libunlynx.EncryptInt(s.Roster.Aggregate, s.Query[i])})
	}
	pred := ""
	if s.Pred != nil {
		pred = s.Pred.String()
	}
	id, err := c.SendSurveyCreationQuery(s.Roster, servicesunlynx.SurveyID(""), s.Key, dps, s.Proofs, app, s.Sum, s.Count, where, pred, s.Group)
	if err != nil {
		return nil, "", fmt.Errorf("creating the survey: %v", err)
	}
	if s.Ask >= 0 {
		c = s.Client(s.Ask)
	}
	return c, *id, nil
}

// Upload sends the records of one data provider.
func (s *Survey) Upload(id servicesunlynx.SurveyID, d DP) error {
	if err := s.Client(d.Server).SendSurveyResponseQuery(id, s.Clear(d), s.Roster.Aggregate, d.Repeat, s.Count); err != nil {
		return fmt.Errorf("uploading: %v", err)
	}
	return nil
}

// Results asks for the results, one line per group.
func (s *Survey) Results(c *servicesunlynx.API, id servicesunlynx.SurveyID) ([]string, error) {
	grp, aggr, err := c.SendSurveyResultsQuery(id)
	if err != nil {
		return nil, fmt.Errorf("asking for results: %v", err)
	}
	if len(*grp) != len(*aggr) {
		return nil, fmt.Errorf("%d groups and %d aggregates", len(*grp), len(*aggr))
	}
	var out []string
	for i := range *grp {
		out = append(out, fmt.Sprint((*grp)[i], " -> ", (*aggr)[i]))
	}
	sort.Strings(out)
	return out, nil
}

// Run does the whole survey, one step after the other.
func (s *Survey) Run() ([]string, error) {
	c, id, err := s.Create(false)
	if err != nil {
		return nil, err
	}
	for _, d := range s.DPs {
		if err := s.Upload(id, d); err != nil {
			return nil, err
		}
	}
	return s.Results(c, id)
}
