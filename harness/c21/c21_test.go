package c21

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/app"
	"go.dedis.ch/onet/v3/network"
	"pgregory.net/rapid"

	"verif/harness/hk"
	"verif/harness/sv"
)

var (
	scratch, binary string
	server          *onet.Server
)

func TestMain(m *testing.M) {
	var err error
	if scratch, err = os.MkdirTemp("", "c21-"); err != nil {
		hk.Infra("%v", err)
	}
	hk.AtExit(func() { os.RemoveAll(scratch) })
	binary = filepath.Join(scratch, "unlynx")
	build := exec.Command("go", "build", "-mod=readonly", "-buildvcs=false", "-o", binary, "./cmd/unlynx")
	build.Dir = "/repo"
	build.Env = append(os.Environ(), "GOFLAGS=")
	if out, err := build.CombinedOutput(); err != nil {
		hk.Infra("building the command: %v %s", err, out)
	}
	if err := onet.UnregisterService(servicesunlynx.ServiceName); err != nil {
		hk.Infra("%v", err)
	}
	if _, err := onet.RegisterNewService(servicesunlynx.ServiceName, newStub); err != nil {
		hk.Infra("%v", err)
	}
	local := onet.NewTCPTest(libunlynx.SuiTe)
	local.Check = onet.CheckNone
	server = local.GenServers(1)[0]
	hk.Main(m,
		"The real command line program, built from the tree, is started with generated options (sum attributes and count, where attributes with values, predicate, group-by attributes, proofs; any number of attributes, digits and spaces; short and long option names; group files of 1 to 8 servers) against a recording server; one survey with exactly the written query must arrive, and the answers of the server must be printed. Options changed so that they leave the syntax (by an independent parser) must be refused with an error and without a query. Non-trivial: more than one attribute, or a refused option.",
		"only the first server of the group file runs: the client contacts no other")
}

// stub records what arrives and answers with what the case wants.
type stub struct{ *onet.ServiceProcessor }

var (
	mu       sync.Mutex
	created  []servicesunlynx.SurveyCreationQuery
	asked    []servicesunlynx.SurveyResultsQuery
	groups   [][]int64
	sums     [][]int64
	surveyID servicesunlynx.SurveyID
)

func newStub(c *onet.Context) (onet.Service, error) {
	s := &stub{onet.NewServiceProcessor(c)}
	return s, s.RegisterHandlers(s.Create, s.Results)
}

func (s *stub) Create(q *servicesunlynx.SurveyCreationQuery) (network.Message, error) {
	mu.Lock()
	defer mu.Unlock()
	created = append(created, *q)
	return &servicesunlynx.ServiceState{SurveyID: surveyID}, nil
}

func (s *stub) Results(q *servicesunlynx.SurveyResultsQuery) (network.Message, error) {
	mu.Lock()
	defer mu.Unlock()
	asked = append(asked, *q)
	out := &servicesunlynx.ServiceResult{}
	for i := range groups {
		out.Results = append(out.Results, libunlynx.FilteredResponse{GroupByEnc: hk.EncVec(q.ClientPublic, groups[i]), AggregatingAttributes: hk.EncVec(q.ClientPublic, sums[i])})
	}
	return out, nil
}

func (s *stub) NewProtocol(*onet.TreeNodeInstance, *onet.GenericConfig) (onet.ProtocolInstance, error) {
	return nil, nil
}

// group is a group file and what it means.
type group struct {
	file  string
	ids   []*network.ServerIdentity
	agg   kyber.Point
	priv  kyber.Scalar
	proof bool
}

func drawGroup(t *rapid.T) group {
	n := rapid.IntRange(1, 8).Draw(t, "servers")
	g := group{file: filepath.Join(scratch, "group.toml"), agg: libunlynx.SuiTe.Point().Null(), priv: libunlynx.SuiTe.Scalar().Zero()}
	var list []*app.ServerToml
	for i := 0; i < n; i++ {
		priv, pub := server.ServerIdentity.GetPrivate(), server.ServerIdentity.Public
		addr := server.ServerIdentity.Address
		if i > 0 {
			priv, pub = hk.KeyPair(t, "key")
			addr = network.NewAddress(network.PlainTCP, fmt.Sprintf("127.0.0.1:%d", 2000+10*i))
		}
		g.agg.Add(g.agg, pub)
		g.priv.Add(g.priv, priv)
		g.ids = append(g.ids, network.NewServerIdentity(pub, addr))
		list = append(list, app.NewServerToml(libunlynx.SuiTe, pub, addr, fmt.Sprint("server ", i), nil))
	}
	if err := app.NewGroupToml(list...).Save(g.file); err != nil {
		hk.Infra("%v", err)
	}
	return g
}

// query is what the user wants.
type query struct {
	sum, group []string
	count      bool
	proofs     bool
	where      []string
	values     []int64
	pred       string
}

func drawNames(t *rapid.T, prefix string, lo int) []string {
	digits := rapid.OneOf(rapid.StringMatching("[0-9]"), rapid.StringMatching("[0-9]{1,3}"), rapid.StringMatching("[0-9]{1,12}"))
	n := rapid.OneOf(rapid.IntRange(lo, 4), rapid.IntRange(lo, 12)).Draw(t, prefix+"n")
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, prefix+digits.Draw(t, prefix))
	}
	return out
}

func drawQuery(t *rapid.T) query {
	q := query{sum: drawNames(t, "s", 1), count: rapid.IntRange(0, 2).Draw(t, "count") == 0, proofs: rapid.Bool().Draw(t, "proofs")}
	if q.count {
		if rapid.IntRange(0, 4).Draw(t, "countOnly") == 0 {
			q.sum = nil
		}
		i := rapid.IntRange(0, len(q.sum)).Draw(t, "countAt")
		q.sum = append(q.sum[:i:i], append([]string{"count"}, q.sum[i:]...)...)
	}
	q.group = drawNames(t, "g", 0)
	if rapid.IntRange(0, 4).Draw(t, "noWhere") > 0 {
		q.where = drawNames(t, "w", 1)
		for range q.where {
			q.values = append(q.values, rapid.OneOf(rapid.Int64Range(0, 9), rapid.Int64Range(0, 100000), rapid.Int64Range(0, 1<<62)).Draw(t, "value"))
		}
		q.pred = sv.DrawPred(t, 2*len(q.where), 3).String()
		if rapid.IntRange(0, 5).Draw(t, "oddPred") == 0 {
			q.pred = rapid.StringMatching(`[v0-9=!&|() {}",'$\\é-]{1,40}`).Filter(func(s string) bool { return s[0] != '-' }).Draw(t, "pred")
		}
	}
	return q
}

func space(t *rapid.T) string {
	return rapid.OneOf(rapid.Just(""), rapid.Just(" "), rapid.StringMatching("[ ]{0,3}"), rapid.StringMatching("[ \t]{0,2}")).Draw(t, "space")
}

func list(t *rapid.T, names []string) string {
	s := "{"
	for i, n := range names {
		if i > 0 {
			s += "," + space(t)
		}
		s += n
	}
	return s + "}"
}

// options are the option values as written.
type options struct {
	sum, where, pred, group string
	count, proofs           bool
}

func write(t *rapid.T, q query) options {
	o := options{sum: list(t, q.sum), count: q.count, proofs: q.proofs, pred: q.pred}
	if len(q.where) > 0 {
		var toks []string
		for i := range q.where {
			zeros := rapid.SampledFrom([]string{"", "", "", "0", "00"}).Draw(t, "zeros")
			toks = append(toks, q.where[i], zeros+strconv.FormatInt(q.values[i], 10))
		}
		o.where = list(t, toks)
	}
	if len(q.group) > 0 {
		o.group = list(t, q.group)
	}
	return o
}

// args gives the command line.
func (o options) args(t *rapid.T, file string) []string {
	var out [][]string
	put := func(short, long, v string) {
		if v == "" && rapid.IntRange(0, 3).Draw(t, "omit") > 0 {
			return
		}
		switch rapid.IntRange(0, 2).Draw(t, "form") {
		case 0:
			out = append(out, []string{"-" + short, v})
		case 1:
			out = append(out, []string{"--" + long, v})
		default:
			out = append(out, []string{"--" + long + "=" + v})
		}
	}
	put("f", "file", file)
	put("s", "sum", o.sum)
	put("w", "where", o.where)
	put("p", "predicate", o.pred)
	put("g", "groupBy", o.group)
	if o.count {
		out = append(out, []string{rapid.SampledFrom([]string{"-c", "--count"}).Draw(t, "countForm")})
	}
	if o.proofs {
		out = append(out, []string{"--proofs"})
	}
	var args []string
	for _, i := range rapid.Permutation(index(len(out))).Draw(t, "order") {
		args = append(args, out[i]...)
	}
	return append([]string{"-d", "1", rapid.SampledFrom([]string{"run", "r"}).Draw(t, "command")}, args...)
}

func index(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// start runs the program: its output and whether it ended without an error.
func start(t *rapid.T, args []string) (string, bool) {
	for try := 0; ; try++ {
		mu.Lock()
		created, asked = nil, nil
		mu.Unlock()
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, binary, args...)
		cmd.Dir = scratch
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		late := ctx.Err() != nil
		cancel()
		if late {
			if try < 2 {
				continue
			}
			t.Fatalf("%q does not end\n%s", args, out.String())
		}
		if _, exited := err.(*exec.ExitError); err != nil && !exited {
			hk.Infra("starting the command: %v", err)
		}
		if strings.Contains(out.String(), "goroutine ") {
			t.Fatalf("%q crashes\n%s", args, out.String())
		}
		return out.String(), err == nil
	}
}

var line = regexp.MustCompile(`(\[[-0-9 ]*\]) -> (\[[-0-9 ]*\])`)

func TestValid(t *testing.T) {
	hk.Check(t, 150, 3000, func(t *rapid.T) {
		g := drawGroup(t)
		q := drawQuery(t)
		o := write(t, q)
		n := rapid.IntRange(0, 4).Draw(t, "results")
		var gs, ss [][]int64
		for i := 0; i < n; i++ {
			val := func(t *rapid.T, n string) int64 { return rapid.Int64Range(-40, 300).Draw(t, n) }
			gs = append(gs, hk.Ints(t, "group", len(q.group), val))
			ss = append(ss, hk.Ints(t, "sum", len(q.sum), val))
		}
		id := servicesunlynx.SurveyID(rapid.StringMatching("[a-z0-9-]{1,36}").Draw(t, "id"))
		args := o.args(t, g.file)
		hk.Case("valid", fmt.Sprintf("%q", args), len(q.sum)+len(q.where)+len(q.group) > 1, hk.LenClass(len(q.sum)), fmt.Sprint("where=", hk.LenClass(len(q.where))), fmt.Sprint("group=", hk.LenClass(len(q.group))), fmt.Sprint("count=", q.count))
		mu.Lock()
		groups, sums, surveyID = gs, ss, id
		mu.Unlock()
		out, ok := start(t, args)
		if !ok {
			t.Fatalf("%q is refused: %s", args, out)
		}
		mu.Lock()
		defer mu.Unlock()
		if len(created) != 1 || len(asked) != 1 {
			t.Fatalf("%q: %d surveys and %d results queries arrived", args, len(created), len(asked))
		}
		c, a := created[0], asked[0]
		if !hk.SameStrings(c.Sum, q.sum) || !hk.SameStrings(c.GroupBy, q.group) || c.Count != q.count || c.Proofs != q.proofs || c.Predicate != q.pred || !c.AppFlag || c.IntraMessage {
			t.Fatalf("%q sends sum %q, group by %q, count %v, proofs %v, predicate %q, app %v, intra %v", args, c.Sum, c.GroupBy, c.Count, c.Proofs, c.Predicate, c.AppFlag, c.IntraMessage)
		}
		if len(c.Where) != len(q.where) {
			t.Fatalf("%q sends %d where attributes", args, len(c.Where))
		}
		for i, w := range c.Where {
			if w.Name != q.where[i] {
				t.Fatalf("%q sends %q as where attribute %d", args, w.Name, i)
			}
			if !hk.DecryptsTo(g.priv, w.Value, q.values[i]) {
				t.Fatalf("%q: where value %d does not decrypt to %d with the servers' keys", args, i, q.values[i])
			}
			for j := 0; j < i; j++ {
				if w.Value.K.Equal(c.Where[j].Value.K) {
					t.Fatalf("%q: where values %d and %d are encrypted with the same randomness", args, j, i)
				}
			}
		}
		if len(c.Roster.List) != len(g.ids) || !c.Roster.Aggregate.Equal(g.agg) {
			t.Fatalf("%q sends a roster of %d servers, or one with another key", args, len(c.Roster.List))
		}
		if len(c.MapDPs) != len(g.ids) {
			t.Fatalf("%q expects data at %d servers of %d", args, len(c.MapDPs), len(g.ids))
		}
		for i, id := range g.ids {
			if !c.Roster.List[i].Public.Equal(id.Public) || c.Roster.List[i].Address != id.Address {
				t.Fatalf("%q: server %d of the roster is not that of the group file", args, i)
			}
			if c.MapDPs[c.Roster.List[i].String()] != 1 {
				t.Fatalf("%q expects %d data providers at server %d", args, c.MapDPs[c.Roster.List[i].String()], i)
			}
		}
		if a.SurveyID != surveyID || a.IntraMessage {
			t.Fatalf("%q asks for the results of %q, not of %q", args, a.SurveyID, surveyID)
		}
		printed := line.FindAllStringSubmatch(out, -1)
		if len(printed) != n {
			t.Fatalf("%q prints %d results of %d: %s", args, len(printed), n, out)
		}
		for i, m := range printed {
			if m[1] != fmt.Sprint(groups[i]) || m[2] != fmt.Sprint(sums[i]) {
				t.Fatalf("%q prints %s -> %s as result %d, the server answered %v -> %v", args, m[1], m[2], i, groups[i], sums[i])
			}
		}
	})
}

// parse reads a list of the documented syntax; ok is false when it is none.
func parse(s string) (toks []string, ok bool) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, false
	}
	for i, tok := range strings.Split(s[1:len(s)-1], ",") {
		if i > 0 {
			tok = strings.TrimLeft(tok, " \t\n\v\f\r")
		}
		toks = append(toks, tok)
	}
	return toks, true
}

func name(s, prefix string) bool {
	return strings.HasPrefix(s, prefix) && number(s[len(prefix):])
}

func number(s string) bool {
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// valid is the syntax of the options.
func (o options) valid() bool {
	toks, ok := parse(o.sum)
	if !ok || o.group != "" && !allNames(o.group, "g") || (o.where == "") != (o.pred == "") {
		return false
	}
	counts := false
	for _, s := range toks {
		counts = counts || s == "count"
		if s != "count" && !name(s, "s") {
			return false
		}
	}
	if o.count && !counts {
		return false
	}
	if o.where != "" {
		toks, ok := parse(o.where)
		if !ok || len(toks)%2 != 0 {
			return false
		}
		for i := 0; i < len(toks); i += 2 {
			if !name(toks[i], "w") || !number(toks[i+1]) {
				return false
			}
			if _, err := strconv.ParseInt(toks[i+1], 10, 64); err != nil {
				return false
			}
		}
	}
	return true
}

func allNames(s, prefix string) bool {
	toks, ok := parse(s)
	for _, s := range toks {
		ok = ok && name(s, prefix)
	}
	return ok
}

// mutate changes one character or inserts a piece.
func mutate(t *rapid.T, s string) string {
	if s == "" {
		return rapid.SampledFrom([]string{"x", "s1", "{", "}", "{s}", "{1}", "{s1,}", "{w1}", "{g}"}).Draw(t, "instead")
	}
	i := rapid.IntRange(0, len(s)).Draw(t, "at")
	piece := rapid.OneOf(rapid.SampledFrom([]string{"{", "}", ",", ",,", "s", "w", "g", "x", "-", "-1", ".5", ";", "{s1}", "{w1, 1}", "{g1}", "count", "s1", "w1, 1", "99999999999999999999", "\n", "é"}), rapid.StringMatching(`[a-z0-9,{}._-]{1,5}`)).Draw(t, "piece")
	switch rapid.IntRange(0, 4).Draw(t, "change") {
	case 0:
		return s[:i] + piece + s[i:]
	case 1: // in front
		return piece + s
	case 2: // behind
		return s + piece
	case 3: // drop
		j := rapid.IntRange(i, len(s)).Draw(t, "to")
		return s[:i] + s[j:]
	}
	if i == len(s) {
		i--
	}
	return s[:i] + piece + s[i+1:]
}

func TestInvalid(t *testing.T) {
	hk.Check(t, 250, 5000, func(t *rapid.T) {
		g := drawGroup(t)
		o := write(t, drawQuery(t))
		kind := rapid.SampledFrom([]string{"sum", "sum", "where", "where", "group", "group", "noSum", "noWhere", "noPred", "count", "file"}).Draw(t, "kind")
		file := g.file
		switch kind {
		case "sum":
			o.sum = mutate(t, o.sum)
		case "where":
			o.where = mutate(t, o.where)
			if o.pred == "" {
				o.pred = "v0 == v1"
			}
		case "group":
			o.group = mutate(t, o.group)
		case "noSum":
			o.sum = ""
		case "noWhere":
			o.where, o.pred = "", "v0 == v1"
		case "noPred":
			if o.where == "" {
				o.where = "{w1, 1}"
			}
			o.pred = ""
		case "count":
			o.sum = list(t, drawNames(t, "s", 1))
			o.count = true
		case "file":
			file = filepath.Join(scratch, "other.toml")
			content := rapid.SampledFrom([]string{"-", "", "[[servers]]", "x = ", "[[servers]]\nAddress = \"tcp://127.0.0.1:2000\"\nPublic = \"00\"\n"}).Draw(t, "file")
			os.Remove(file)
			if content != "-" {
				if err := os.WriteFile(file, []byte(content), 0600); err != nil {
					hk.Infra("%v", err)
				}
			}
		}
		// unspecified: surrounding white space, empty braces, a count attribute without the option
		for _, s := range []string{o.sum, o.where, o.group} {
			if strings.TrimSpace(s) != s || s == "{}" || s == "" && kind == "sum" || s != "" && s[0] == '-' {
				t.Skip()
			}
		}
		if strings.Contains(o.sum, "count") && !o.count || strings.Contains(o.group, "count") {
			t.Skip()
		}
		if kind != "file" && o.valid() {
			t.Skip()
		}
		args := o.args(t, file)
		hk.Case("invalid", fmt.Sprintf("%s: %q", kind, args), true, kind)
		out, ok := start(t, args)
		mu.Lock()
		defer mu.Unlock()
		if len(created)+len(asked) != 0 {
			c := "none"
			if len(created) > 0 {
				c = fmt.Sprintf("sum %q, where %d, group by %q, predicate %q", created[0].Sum, len(created[0].Where), created[0].GroupBy, created[0].Predicate)
			}
			t.Fatalf("%q does not follow the syntax (%s) but is sent: %s", args, kind, c)
		}
		if ok {
			t.Fatalf("%q does not follow the syntax (%s) but ends without an error: %s", args, kind, out)
		}
	})
}
