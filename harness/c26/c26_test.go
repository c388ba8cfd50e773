package c26

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
	"pgregory.net/rapid"

	"verif/harness/cl"
	"verif/harness/hk"
	"verif/harness/sv"
)

func TestMain(m *testing.M) {
	cl.Register("vFKS", faulty(protocolsunlynx.NewKeySwitchingProtocol))
	cl.Register("vFShuffle", faulty(protocolsunlynx.NewShufflingProtocol))
	cl.Register("vFDDT", faulty(protocolsunlynx.NewDeterministicTaggingProtocol))
	cl.Register("vFSDDT", faulty(protocolsunlynx.NewShufflingPlusDDTProtocol))
	cl.Register("vFAggr", faulty(protocolsunlynx.NewCollectiveAggregationProtocol))
	hk.Main(m,
		"Several runs at once of the five distributed protocols over 2 to 6 servers in any rooted tree, each with one faulty server: it is silent, sends only a part of its messages, or sends messages of which one is cut, has a point that is no point, has wrong lengths or another number of elements; every other server runs the real protocol. No such run may deliver a result and no server may crash (a panic of Dispatch or Start counts, and so does the end of the process), while a correct run at the same time on the same servers gives its correct result. Surveys in which a data provider never sends its data, or a server forgets the survey at a generated moment, must give no answer, an error or (if the server forgot it too late to matter) the exact answer. Non-trivial: the fault was really injected (every case but surveys in which the server forgot the survey too late).",
		"a run is taken to deliver nothing when it has not delivered anything some hundred milliseconds after the faulty message was handled or the time-out passed")
}

// fault is a run with one faulty server.
type fault struct {
	name   string
	bad    network.ServerIdentityID
	kind   string
	a, b   int
	second bool // the round of the tagging protocol
	vec    libunlynx.CipherVector
	shape  string

	sent  chan bool // closed when the faulty message is sent
	once  sync.Once
	mu    sync.Mutex
	panic string
	ended chan error // the nodes that handled their messages
}

func (f *fault) done() { f.once.Do(func() { close(f.sent) }) }

var faults sync.Map // onet.TreeID -> *fault

// watched is the protocol of a correct server.
type watched struct {
	onet.ProtocolInstance
	f *fault
}

func (w *watched) Dispatch() (err error) {
	defer func() {
		if r := recover(); r != nil {
			w.f.mu.Lock()
			w.f.panic = fmt.Sprint(r)
			w.f.mu.Unlock()
			err = fmt.Errorf("panic: %v", r)
		}
		w.f.ended <- err
	}()
	return w.ProtocolInstance.Dispatch()
}

func faulty(ctor func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error)) func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
	return func(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		v, ok := faults.Load(n.Tree().ID)
		if !ok {
			return nil, fmt.Errorf("no such run")
		}
		f := v.(*fault)
		if n.ServerIdentity().ID.Equal(f.bad) {
			return newPuppet(n, f)
		}
		pi, err := ctor(n)
		if err != nil {
			return nil, err
		}
		return &watched{pi, f}, nil
	}
}

// the messages, as the puppets receive them
type (
	ksDown struct {
		*onet.TreeNode
		protocolsunlynx.DownMessageBytes
	}
	ksLen struct {
		*onet.TreeNode
		protocolsunlynx.LengthMessage
	}
	ksUp struct {
		*onet.TreeNode
		protocolsunlynx.UpBytesMessage
	}
	agDown struct {
		*onet.TreeNode
		protocolsunlynx.DataReferenceMessage
	}
	agLen struct {
		*onet.TreeNode
		protocolsunlynx.CADBLengthMessage
	}
	agUp struct {
		*onet.TreeNode
		protocolsunlynx.ChildAggregatedDataBytesMessage
	}
	ddtMsg struct {
		*onet.TreeNode
		protocolsunlynx.DeterministicTaggingBytesMessage
	}
	shLen struct {
		*onet.TreeNode
		protocolsunlynx.ShufflingBytesMessageLength
	}
	shMsg struct {
		*onet.TreeNode
		protocolsunlynx.ShufflingBytesMessage
	}
	sdLen struct {
		*onet.TreeNode
		protocolsunlynx.ShufflingPlusDDTBytesLength
	}
	sdMsg struct {
		*onet.TreeNode
		protocolsunlynx.ShufflingPlusDDTBytesMessage
	}
)

// puppet is the faulty server.
type puppet struct {
	*onet.TreeNodeInstance
	f       *fault
	KsDown  chan ksDown
	KsLen   chan []ksLen
	KsUp    chan []ksUp
	AgDown  chan agDown
	AgLen   chan []agLen
	AgUp    chan []agUp
	Ddt     chan ddtMsg
	ShLen   chan shLen
	ShMsg   chan shMsg
	SdLen   chan sdLen
	SdMsg   chan sdMsg
	forward bool
}

func newPuppet(n *onet.TreeNodeInstance, f *fault) (onet.ProtocolInstance, error) {
	p := &puppet{TreeNodeInstance: n, f: f, forward: f.a%3 > 0}
	return p, p.RegisterChannels(&p.KsDown, &p.KsLen, &p.KsUp, &p.AgDown, &p.AgLen, &p.AgUp, &p.Ddt, &p.ShLen, &p.ShMsg, &p.SdLen, &p.SdMsg)
}

func (p *puppet) Start() error { return nil }

// enc is a message in bytes.
type enc struct {
	data, lens, key []byte
	ints            [3]int
}

var noPoint []byte

func init() {
	for i := 0; ; i++ {
		b := make([]byte, libunlynx.SuiTe.PointLen())
		for j := range b {
			b[j] = byte(i*31 + j*7 + 2)
		}
		if libunlynx.SuiTe.Point().UnmarshalBinary(b) != nil {
			noPoint = b
			return
		}
	}
}

func spoil(points []byte, at int) []byte {
	k := len(noPoint)
	out := append([]byte{}, points...)
	n := len(out) / k
	at %= 3 * n // often the last one
	if at >= n {
		at = n - 1
	}
	copy(out[at*k:], noPoint)
	return out
}

// damage makes the message one that cannot be decoded.
func (f *fault) damage(e enc) enc {
	switch f.kind {
	case "cut":
		e.data = e.data[:len(e.data)-1-f.a%(len(noPoint)*2-1)]
	case "no point":
		if f.name == "vFAggr" {
			// the points are somewhere between the tags
			c := f.vec[f.b%len(f.vec)]
			p, _ := c.K.MarshalBinary()
			if f.a%2 == 0 {
				p, _ = c.C.MarshalBinary()
			}
			e.data = append([]byte{}, e.data...)
			at := bytes.Index(e.data, p)
			if f.a%4 > 1 {
				at = bytes.LastIndex(e.data, p)
			}
			if at < 0 {
				hk.Infra("the encoding does not contain the point")
			}
			copy(e.data[at:], noPoint)
			break
		}
		e.data = spoil(e.data, f.b)
	case "no data":
		e.data = nil
	case "lengths":
		ints := libunlynxtools.UnsafeCastBytesToInts(e.lens)
		switch f.name {
		case "vFKS":
			switch f.a % 5 {
			case 0:
				e.lens = nil
			case 1:
				e.lens = e.lens[:f.b%len(e.lens)]
			case 2:
				e.lens = libunlynxtools.UnsafeCastIntsToBytes([]int{ints[0] + 1 + f.b})
			case 3:
				e.lens = libunlynxtools.UnsafeCastIntsToBytes([]int{-1 - f.b})
			case 4:
				e.lens = libunlynxtools.UnsafeCastIntsToBytes([]int{1<<31 - 1 - f.b})
			}
		case "vFAggr":
			i := f.b % 3
			switch f.a % 4 {
			case 0:
				e.ints[i] = -1 - f.b
			case 1:
				e.ints[i] = len(e.data) + 1 + f.b
			case 2:
				e.ints = [3]int{}
			case 3:
				e.ints[i] = 1<<40 + f.b
			}
		default:
			switch f.a % 3 {
			case 0:
				e.lens = e.lens[:len(e.lens)-1-f.b%3]
			case 1:
				ints[f.b%len(ints)] += len(e.data)
				e.lens = libunlynxtools.UnsafeCastIntsToBytes(ints)
			case 2:
				ints[f.b%len(ints)] = -1
				e.lens = libunlynxtools.UnsafeCastIntsToBytes(ints)
			}
		}
	case "key":
		switch f.a % 4 {
		case 0:
			e.key = nil
		case 1:
			e.key = e.key[:len(e.key)-1-f.b%len(e.key)]
		case 2:
			e.key = spoil(e.key, 0)
		case 3:
			e.key = append(append([]byte{}, e.key...), e.key...)
		}
	}
	return e
}

// reshape gives the message another number of elements.
func (f *fault) reshape(e enc) enc {
	c := 2 * len(noPoint)
	switch f.name {
	case "vFKS", "vFDDT":
		n := len(e.data) / c
		m := f.b % (n + 1) // what is kept
		data := append([]byte{}, e.data[:m*c]...)
		if m == n || f.a%2 == 0 {
			data = append([]byte{}, e.data...)
			for i := 0; i <= f.a%3; i++ {
				data = append(data, e.data[(f.b%n)*c:(f.b%n+1)*c]...)
			}
		}
		e.data = data
		e.lens = libunlynxtools.UnsafeCastIntsToBytes([]int{len(data) / c})
	default:
		ints := libunlynxtools.UnsafeCastBytesToInts(e.lens)
		var rows [][]byte
		at := 0
		for _, l := range ints {
			rows = append(rows, append([]byte{}, e.data[at:at+l*c]...))
			at += l * c
		}
		i := f.b % len(rows)
		switch f.a % 6 {
		case 0: // a row less
			rows = append(append([][]byte{}, rows[:i]...), rows[i+1:]...)
		case 1: // a row more
			rows = append(rows, rows[i])
		case 2: // a row is too long
			rows[i] = append(rows[i], rows[i][:c]...)
		case 3: // a row is too short
			rows[i] = rows[i][c:]
		case 4: // all rows are too short
			for j := range rows {
				rows[j] = rows[j][c:]
			}
		case 5: // all rows are too long
			for j := range rows {
				rows[j] = append(rows[j], rows[j][:c]...)
			}
		}
		e.data, ints = nil, nil
		for _, r := range rows {
			e.data = append(e.data, r...)
			ints = append(ints, len(r)/c)
		}
		e.lens = libunlynxtools.UnsafeCastIntsToBytes(ints)
	}
	return e
}

func (f *fault) apply(e enc) enc {
	if f.kind == "elements" {
		return f.reshape(e)
	}
	return f.damage(e)
}

// message is what the faulty server of a tree protocol would send to its parent.
func (f *fault) message() enc {
	if f.name == "vFKS" {
		data, n, err := f.vec.ToBytes()
		if err != nil {
			hk.Infra("encoding: %v", err)
		}
		return enc{data: data, lens: libunlynxtools.UnsafeCastIntsToBytes([]int{n})}
	}
	m := protocolsunlynx.ChildAggregatedDataMessage{}
	for i := 0; i <= f.b%3; i++ {
		m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprint("g", i)), Fr: libunlynx.FilteredResponse{AggregatingAttributes: f.vec}})
	}
	e := enc{}
	var err error
	if e.data, e.ints[0], e.ints[1], e.ints[2], err = m.ToBytes(); err != nil {
		hk.Infra("encoding: %v", err)
	}
	return e
}

func (p *puppet) Dispatch() error {
	defer p.Done()
	f := p.f
	stop := time.After(60 * time.Second)
	silent := f.kind == "silent"
	if !silent && f.kind != "half" {
		defer f.done()
	}
	next := func() *onet.TreeNode {
		l := p.Tree().List()
		for i, n := range l {
			if n.Equal(p.TreeNode()) {
				return l[(i+1)%len(l)]
			}
		}
		return nil
	}()
	switch f.name {
	case "vFKS":
		select {
		case d := <-p.KsDown:
			if f.kind == "announcement" {
				down := enc{data: d.Data}
				switch f.a % 3 {
				case 0:
					down.data = nil
				case 1:
					down.data = spoil(down.data, f.b)
				case 2:
					down.data = down.data[:len(down.data)-1-f.b%(len(noPoint)-1)]
				}
				p.SendToChildren(&protocolsunlynx.DownMessageBytes{Data: down.data})
				return nil
			}
			if p.forward {
				p.SendToChildren(&d.DownMessageBytes)
			}
		case <-stop:
			return nil
		}
		if silent {
			break
		}
		e := f.apply(f.message())
		if f.kind != "half" || f.a%2 == 0 {
			p.SendToParent(&protocolsunlynx.LengthMessage{Length: e.lens})
		}
		if f.kind != "half" || f.a%2 == 1 {
			p.SendToParent(&protocolsunlynx.UpBytesMessage{Data: e.data})
		}
	case "vFAggr":
		select {
		case d := <-p.AgDown:
			if p.forward {
				p.SendToChildren(&d.DataReferenceMessage)
			}
		case <-stop:
			return nil
		}
		if silent {
			break
		}
		e := f.apply(f.message())
		if f.kind != "half" || f.a%2 == 0 {
			p.SendToParent(&protocolsunlynx.CADBLengthMessage{GacbLength: e.ints[0], AabLength: e.ints[1], DtbLength: e.ints[2]})
		}
		if f.kind != "half" || f.a%2 == 1 {
			p.SendToParent(&protocolsunlynx.ChildAggregatedDataBytesMessage{Data: e.data})
		}
	case "vFDDT":
		var m ddtMsg
		for r := 0; r < 2; r++ {
			select {
			case m = <-p.Ddt:
			case <-stop:
				return nil
			}
			if f.second && r == 0 {
				p.SendTo(next, &m.DeterministicTaggingBytesMessage)
				continue
			}
			break
		}
		if silent || f.kind == "half" {
			break
		}
		p.SendTo(next, &protocolsunlynx.DeterministicTaggingBytesMessage{Data: f.apply(enc{data: m.Data}).data})
	case "vFShuffle":
		var l shLen
		var m shMsg
		for i := 0; i < 2; i++ {
			select {
			case l = <-p.ShLen:
			case m = <-p.ShMsg:
			case <-stop:
				return nil
			}
		}
		if silent {
			break
		}
		e := f.apply(enc{data: m.Data, lens: l.CVLengths})
		if f.kind != "half" || f.a%2 == 0 {
			p.SendTo(next, &protocolsunlynx.ShufflingBytesMessageLength{CVLengths: e.lens})
		}
		if f.kind != "half" || f.a%2 == 1 {
			p.SendTo(next, &protocolsunlynx.ShufflingBytesMessage{Data: e.data})
		}
	case "vFSDDT":
		var l sdLen
		var m sdMsg
		for i := 0; i < 2; i++ {
			select {
			case l = <-p.SdLen:
			case m = <-p.SdMsg:
			case <-stop:
				return nil
			}
		}
		if silent {
			break
		}
		e := f.apply(enc{data: m.Data, lens: l.CVLengths, key: m.ShuffKey})
		if f.kind != "half" || f.a%2 == 0 {
			p.SendTo(next, &protocolsunlynx.ShufflingPlusDDTBytesLength{CVLengths: e.lens})
		}
		if f.kind != "half" || f.a%2 == 1 {
			p.SendTo(next, &protocolsunlynx.ShufflingPlusDDTBytesMessage{Data: e.data, ShuffKey: e.key})
		}
	}
	if silent || f.kind == "half" {
		f.done()
	}
	return nil
}

// run is one faulty run, ready to go.
type run struct {
	f    *fault
	n    cl.Net
	desc string
	conf func(onet.ProtocolInstance, *onet.TreeNodeInstance)
}

var names = []string{"vFKS", "vFShuffle", "vFDDT", "vFSDDT", "vFAggr"}

func drawRun(t *rapid.T, kinds func(name string) []string) run {
	n := cl.Draw(t, 2, 6)
	f := &fault{name: rapid.SampledFrom(names).Draw(t, "protocol"), sent: make(chan bool), ended: make(chan error, 16)}
	f.kind = rapid.SampledFrom(kinds(f.name)).Draw(t, "kind")
	list := n.Tree.List()
	f.bad = list[rapid.IntRange(1, len(list)-1).Draw(t, "faultyNode")].ServerIdentity.ID
	if f.kind == "announcement" {
		for _, v := range list[1:] {
			if len(v.Children) > 0 {
				f.bad = v.ServerIdentity.ID
			}
		}
	}
	f.a, f.b = rapid.IntRange(0, 1000).Draw(t, "a"), rapid.IntRange(0, 1000).Draw(t, "b")
	f.second = rapid.Bool().Draw(t, "secondRound")
	k := rapid.IntRange(1, 5).Draw(t, "elements")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		k = rapid.SampledFrom([]int{99, 101, 120}).Draw(t, "manyElements")
	}
	width := 1
	if f.name == "vFShuffle" || f.name == "vFSDDT" {
		width = rapid.IntRange(1, 3).Draw(t, "width")
	}
	// the values do not matter
	vec := make(libunlynx.CipherVector, k*width)
	for i := range vec {
		if i < 8 {
			vec[i] = *libunlynx.EncryptInt(n.Roster.Aggregate, int64(i))
		} else {
			vec[i] = vec[i%8]
		}
	}
	f.vec = vec
	rows := make([]libunlynx.CipherVector, k)
	for i := range rows {
		rows[i] = vec[i*width : (i+1)*width]
	}
	q := libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(77), nil)
	conf := func(pi onet.ProtocolInstance, tn *onet.TreeNodeInstance) {
		w, ok := pi.(*watched)
		if !ok {
			return
		}
		secret := libunlynx.SuiTe.Scalar().SetInt64(int64(5 + n.IndexOf(tn.ServerIdentity())))
		root := tn.IsRoot()
		switch p := w.ProtocolInstance.(type) {
		case *protocolsunlynx.KeySwitchingProtocol:
			if root {
				p.TargetOfSwitch, p.TargetPublicKey = &vec, &q
			}
		case *protocolsunlynx.ShufflingProtocol:
			if root {
				p.ShuffleTarget = &rows
			}
		case *protocolsunlynx.DeterministicTaggingProtocol:
			p.SurveySecretKey = &secret
			if root {
				p.TargetOfSwitch = &vec
			}
		case *protocolsunlynx.ShufflingPlusDDTProtocol:
			p.SurveySecretKey = &secret
			if root {
				p.TargetData = &rows
			}
		case *protocolsunlynx.CollectiveAggregationProtocol:
			g := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{"g0": {AggregatingAttributes: append(libunlynx.CipherVector{}, vec...)}}
			p.GroupedData = &g
		}
	}
	desc := fmt.Sprintf("%s: %s, the faulty server is number %d: %s (%d, %d), %d elements of width %d", strings.TrimPrefix(f.name, "vF"), n.Desc, n.IndexOf(&network.ServerIdentity{ID: f.bad}), f.kind, f.a, f.b, k, width)
	if f.name == "vFDDT" {
		desc += fmt.Sprintf(", second round %v", f.second)
	}
	return run{f, n, desc, conf}
}

// outcome lets the run go and says what is wrong with what comes out.
func (r run) outcome(wait time.Duration) string {
	f := r.f
	faults.Store(r.n.Tree.ID, f)
	var val string
	ok, err := r.n.Run(f.name, 100*time.Second, r.conf, func(pi onet.ProtocolInstance, stop <-chan time.Time) bool {
		feedback := reflect.ValueOf(pi.(*watched).ProtocolInstance).Elem().FieldByName("FeedbackChannel")
		got := make(chan bool)
		end := make(chan bool)
		defer close(end)
		go func() {
			i, v, _ := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: feedback}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(end)}})
			if i == 0 {
				val = fmt.Sprintf("%d elements", v.Type().Size())
				if v.Kind() == reflect.Slice {
					val = fmt.Sprintf("a result of %d elements", v.Len())
				} else {
					val = "a result"
				}
				select {
				case got <- true:
				case <-end:
				}
			}
		}()
		select {
		case <-got:
			return true
		case <-stop:
			return false
		case <-f.sent:
		case <-time.After(20 * time.Second):
			// the network lost a message
			return false
		}
		// a server that carries on leads to a result soon
		limit := time.After(wait)
		for {
			select {
			case <-got:
				return true
			case <-stop:
				return false
			case err := <-f.ended:
				if err != nil && f.kind != "silent" && f.kind != "half" {
					// refused
					limit = time.After(wait / 10)
				}
			case <-limit:
				return false
			}
		}
	})
	f.mu.Lock()
	defer f.mu.Unlock()
	switch {
	case f.panic != "":
		return "a server panics in Dispatch: " + f.panic
	case err != nil && strings.Contains(err.Error(), "panic"):
		return err.Error()
	case ok:
		return "delivers " + val
	}
	return ""
}

// all runs the faulty runs at once, with a correct one beside them.
func all(t *rapid.T, runs []run, wait time.Duration, correct func(hk.TB)) {
	res := make([]string, len(runs))
	var wg sync.WaitGroup
	for i := range runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i] = runs[i].outcome(wait)
		}(i)
	}
	if correct != nil {
		correct(t)
	}
	wg.Wait()
	for i, r := range res {
		if r != "" {
			t.Fatalf("%s: %s", runs[i].desc, r)
		}
	}
}

// drawCorrect draws a correct run.
func drawCorrect(t *rapid.T) (func(hk.TB), string) {
	n := cl.Draw(t, 1, 6)
	vals := hk.Ints(t, "v", rapid.IntRange(1, 6).Draw(t, "values"), hk.Small)
	cv := make(libunlynx.CipherVector, len(vals))
	for i, v := range vals {
		cv[i] = *libunlynx.EncryptInt(n.Roster.Aggregate, v)
	}
	switch rapid.IntRange(0, 2).Draw(t, "correct") {
	case 0:
		q, Q := hk.KeyPair(t, "Q")
		return func(tb hk.TB) {
			out, _ := n.KeySwitch(tb, cv, Q, false)
			if msg := hk.VecDecryptsTo(q, out, vals); msg != "" {
				tb.Fatalf("the correct key switching: %s", msg)
			}
		}, fmt.Sprintf("key switching of %v over %s", vals, n.Desc)
	case 1:
		return func(tb hk.TB) {
			rows := []libunlynx.CipherVector{cv, cv}
			out, _ := n.Shuffle(tb, rows, nil, false, nil)
			if len(out) != 2 {
				tb.Fatalf("the correct shuffling: %d rows", len(out))
			}
			for _, r := range out {
				if msg := hk.VecDecryptsTo(cl.Priv(n.Roster), r, vals); msg != "" {
					tb.Fatalf("the correct shuffling: %s", msg)
				}
			}
		}, fmt.Sprintf("shuffling of %v over %s", vals, n.Desc)
	}
	return func(tb hk.TB) {
		sec := func(i int) kyber.Scalar { return libunlynx.SuiTe.Scalar().SetInt64(int64(3 + i)) }
		out := n.Tag(tb, cv, sec, false)
		if len(out) != len(vals) {
			tb.Fatalf("the correct tagging: %d tags", len(out))
		}
		for i := range vals {
			for j := range vals {
				if (vals[i] == vals[j]) != out[i].Point.Equal(out[j].Point) {
					tb.Fatalf("the correct tagging: tags %d and %d of %v", i, j, vals)
				}
			}
		}
	}, fmt.Sprintf("tagging of %v over %s", vals, n.Desc)
}

func batch(t *rapid.T, test string, k int, kinds func(string) []string) []run {
	var runs []run
	var classes, desc []string
	for i := 0; i < k; i++ {
		r := drawRun(t, kinds)
		runs = append(runs, r)
		classes = append(classes, r.f.name[2:]+" "+r.f.kind)
		desc = append(desc, r.desc)
	}
	hk.Case(test, strings.Join(desc, "\n  "), true, classes...)
	return runs
}

func TestSilent(t *testing.T) {
	libunlynx.TIMEOUT = 400 * time.Millisecond
	hk.Check(t, 30, 500, func(t *rapid.T) {
		runs := batch(t, "silent", rapid.IntRange(4, 8).Draw(t, "runs"), func(name string) []string {
			if name == "vFDDT" {
				return []string{"silent"}
			}
			return []string{"silent", "half"}
		})
		all(t, runs, 1200*time.Millisecond, nil)
	})
}

func TestDamaged(t *testing.T) {
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		runs := batch(t, "damaged", rapid.IntRange(3, 8).Draw(t, "runs"), func(name string) []string {
			switch name {
			case "vFDDT":
				return []string{"cut", "no point"}
			case "vFSDDT":
				return []string{"cut", "no point", "lengths", "key", "no data"}
			}
			if name == "vFKS" {
				return []string{"cut", "no point", "lengths", "no data", "announcement"}
			}
			return []string{"cut", "no point", "lengths", "no data"}
		})
		correct, desc := drawCorrect(t)
		hk.Case("beside", desc, true)
		all(t, runs, time.Second, correct)
	})
}

func TestElements(t *testing.T) {
	hk.Check(t, 60, 1200, func(t *rapid.T) {
		runs := batch(t, "elements", rapid.IntRange(3, 8).Draw(t, "runs"), func(name string) []string {
			return []string{"elements"}
		})
		for i := range runs {
			for runs[i].f.name == "vFAggr" { // has no number of elements
				runs[i] = drawRun(t, func(string) []string { return []string{"elements"} })
			}
		}
		correct, desc := drawCorrect(t)
		hk.Case("beside", desc, true)
		all(t, runs, time.Second, correct)
	})
}

func service(si *network.ServerIdentity) *servicesunlynx.Service {
	for _, s := range cl.Servers() {
		if s.ServerIdentity.ID.Equal(si.ID) {
			return s.Service(servicesunlynx.ServiceName).(*servicesunlynx.Service)
		}
	}
	return nil
}

// broken is a survey with a fault.
type broken struct {
	s      *sv.Survey
	kind   string
	who    int           // the server that forgets, or the provider that sends nothing
	after  time.Duration // after the results are asked for
	tagged bool          // not before the servers have tagged their data
	back   time.Duration // when the server remembers (0: never)
}

func (b broken) String() string {
	return fmt.Sprintf("%s %d after %v (tagged %v), back after %v: %s", b.kind, b.who, b.after, b.tagged, b.back, b.s)
}

// stored is a server's state of a survey.
func stored(si *network.ServerIdentity, id servicesunlynx.SurveyID) (servicesunlynx.Survey, bool) {
	v, err := service(si).Survey.Get(string(id))
	if err != nil || v == nil {
		return servicesunlynx.Survey{}, false
	}
	return v.(servicesunlynx.Survey), true
}

// waitTagged waits until the servers that have data have tagged it.
func (b broken) waitTagged(id servicesunlynx.SurveyID) {
	for end := time.Now().Add(time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		all := true
		for _, d := range b.s.DPs {
			if len(d.Records) == 0 {
				continue
			}
			v, ok := stored(b.s.Roster.List[d.Server], id)
			if ok && len(v.LocAggregatedProcessResponse) == 0 {
				all = false
			}
		}
		if all {
			return
		}
	}
}

func (b broken) outcome(wait time.Duration) (msg, how string) {
	c, id, err := b.s.Create(false)
	if err != nil {
		return "creating: " + err.Error(), ""
	}
	for i, d := range b.s.DPs {
		if b.kind == "missing" && i == b.who {
			continue
		}
		if err := b.s.Upload(id, d); err != nil {
			return "uploading: " + err.Error(), ""
		}
	}
	forget := func() {
		m := service(b.s.Roster.List[b.who]).Survey
		v, err := m.Remove(string(id))
		if err != nil || v == nil || b.back == 0 {
			return
		}
		time.AfterFunc(b.back, func() { m.PutIfAbsent(string(id), v) })
	}
	if b.kind == "forgotten" && b.after < 0 {
		forget()
	}
	type answer struct {
		a   []string
		err error
	}
	got := make(chan answer, 1)
	go func() {
		a, err := b.s.Results(c, id)
		got <- answer{a, err}
	}()
	if b.kind == "forgotten" && b.after >= 0 {
		if b.tagged {
			b.waitTagged(id)
		} else {
			time.Sleep(b.after)
		}
		forget()
	}
	select {
	case r := <-got:
		if r.err != nil {
			return "", "error"
		}
		if b.kind == "missing" {
			return fmt.Sprintf("an answer without the data of provider %d: %v", b.who, r.a), ""
		}
		if !hk.SameStrings(r.a, b.s.Answer()) {
			return fmt.Sprintf("the answer is %v, not %v", r.a, b.s.Answer()), ""
		}
		return "", "exact answer"
	case <-time.After(wait):
		return "", "no answer"
	}
}

func TestSurvey(t *testing.T) {
	libunlynx.TIMEOUT = 1500 * time.Millisecond
	hk.Check(t, 12, 250, func(t *rapid.T) {
		var bs []broken
		for i, k := 0, rapid.IntRange(3, 8).Draw(t, "surveys"); i < k; i++ {
			b := broken{kind: rapid.SampledFrom([]string{"missing", "forgotten", "forgotten"}).Draw(t, "fault")}
			b.s = sv.Draw(t, sv.Limits{Servers: 5, DPs: 5, Records: 5, Proofs: 6})
			if b.kind == "missing" && len(b.s.DPs) == 0 {
				b.kind = "forgotten"
			}
			if b.kind == "missing" {
				b.who = rapid.IntRange(0, len(b.s.DPs)-1).Draw(t, "provider")
			} else {
				b.who = rapid.IntRange(0, len(b.s.Roster.List)-1).Draw(t, "forgetful")
				b.after = time.Duration(rapid.IntRange(-20, 300).Draw(t, "after")) * time.Millisecond
				b.tagged = rapid.Bool().Draw(t, "tagged")
				if b.tagged {
					b.after = 0
				}
				b.back = time.Duration(rapid.SampledFrom([]int{0, 20, 300, 800}).Draw(t, "back")) * time.Millisecond
			}
			bs = append(bs, b)
		}
		msgs, hows := make([]string, len(bs)), make([]string, len(bs))
		var wg sync.WaitGroup
		for i := range bs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				msgs[i], hows[i] = bs[i].outcome(3 * time.Second)
			}(i)
		}
		wg.Wait()
		for i, b := range bs {
			hk.Case("survey", b.String(), hows[i] != "exact answer", b.kind+": "+hows[i])
		}
		sort.Strings(hows)
		for i, m := range msgs {
			if m != "" {
				t.Fatalf("%s\n%s", bs[i], m)
			}
		}
	})
}

// TestProofs: what a server does with data from the others for which it cannot
// create a proof.
func TestProofs(t *testing.T) {
	hk.Check(t, 40, 600, func(t *rapid.T) {
		s := sv.Draw(t, sv.Limits{Servers: 4, DPs: 0, Records: 0, Proofs: 1})
		_, id, err := s.Create(false)
		if err != nil {
			t.Fatalf("creating: %v", err)
		}
		tree := s.Roster.GenerateNaryTreeWithRoot(2, s.Roster.List[0])
		list := tree.List()
		node := list[rapid.IntRange(0, len(list)-1).Draw(t, "node")]
		if node.IsRoot() && len(list) > 1 {
			node = list[1]
		}
		srv := service(node.ServerIdentity)
		// a second instance of the same type is no trouble: it is never started
		tn := srv.NewTreeNodeInstance(tree, node, protocolsunlynx.ShufflingProtocolName)
		pi, err := srv.NewProtocol(tn, &onet.GenericConfig{Data: []byte(string(id))})
		if err != nil {
			t.Fatalf("creating an instance: %v", err)
		}
		k := rapid.IntRange(0, 3).Draw(t, "rows")
		rows := make([]libunlynx.CipherVector, k)
		out := make([]libunlynx.CipherVector, k)
		beta := make([][]kyber.Scalar, k)
		perm := make([]int, k)
		var widths []int
		for i := range rows {
			w := rapid.IntRange(0, 3).Draw(t, "width")
			widths = append(widths, w)
			rows[i] = *libunlynx.NewCipherVector(w)
			out[i] = *libunlynx.NewCipherVector(w)
			for j := range rows[i] {
				rows[i][j] = *libunlynx.EncryptInt(s.Roster.Aggregate, int64(j))
				out[i][j] = *libunlynx.EncryptInt(s.Roster.Aggregate, int64(j))
			}
			beta[i] = libunlynx.RandomScalarSlice(w)
			perm[i] = i
		}
		hk.Case("proofs", fmt.Sprintf("%d servers, rows of %v elements", len(list), widths), k < 2 || len(list) > 1)
		if msg := hk.NoPanic(func() {
			pi.(*protocolsunlynx.ShufflingProtocol).ProofFunc(rows, out, s.Roster.Aggregate, beta, perm)
		}); msg != "" {
			t.Fatalf("the proof function: %s", msg)
		}
	})
}
