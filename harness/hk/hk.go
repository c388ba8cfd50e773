// Package hk is the shared machinery of the property checks: it runs rapid
// properties with per-test case counts, records what was generated, keeps a
// journal of the running case for crash replays, and knows the listed findings.
package hk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is what one test process reports to the runner.
type Stats struct {
	Evaluations int64            `json:"evaluations"`
	Nontrivial  []uint64         `json:"nontrivial"` // hashes of distinct non-trivial cases
	Classes     map[string]int64 `json:"classes"`
	Samples     []string         `json:"samples"`
	Notes       map[string]int64 `json:"notes"`
	Known       []string         `json:"known"`
	Rule        string           `json:"rule"`
	Assumptions []string         `json:"assumptions"`
	Violation   string           `json:"violation,omitempty"`
	Infra       string           `json:"infra,omitempty"`
}

var (
	mu      sync.Mutex
	st      = Stats{Classes: map[string]int64{}, Notes: map[string]int64{}}
	seen    = map[uint64]bool{}
	perTest = map[string]int{}
	known   = map[string]string{}
)

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is the non-zero seed of this run.
func Seed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil || n == 0 {
		n = 7919
	}
	return n
}

// Main runs the tests of one property and writes the statistics file.
func Main(m *testing.M, rule string, assumptions ...string) {
	st.Rule = rule
	st.Assumptions = assumptions
	if os.Getenv("VERIF_LOG") == "" {
		Quiet()
	}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if k != "" {
			known[k] = k
		}
	}
	flag.Parse()
	code := m.Run()
	Flush()
	atExit()
	os.Exit(code)
}

var atExit = func() {}

// AtExit has f run before the process ends in an orderly way.
func AtExit(f func()) { atExit = f }

// Flush writes the statistics file.
func Flush() {
	mu.Lock()
	defer mu.Unlock()
	flushLocked()
}

func flushLocked() {
	st.Nontrivial = st.Nontrivial[:0]
	for h := range seen {
		st.Nontrivial = append(st.Nontrivial, h)
	}
	sort.Slice(st.Nontrivial, func(i, j int) bool { return st.Nontrivial[i] < st.Nontrivial[j] })
	if p := os.Getenv("VERIF_STATS"); p != "" {
		b, _ := json.Marshal(&st)
		_ = os.WriteFile(p, b, 0o644)
	}
}

// Infra ends the process with an error that is not a verdict about the code.
func Infra(format string, args ...interface{}) {
	mu.Lock()
	st.Infra = fmt.Sprintf(format, args...)
	flushLocked()
	fmt.Fprintln(os.Stderr, "INFRASTRUCTURE: "+st.Infra)
	atExit()
	os.Exit(3)
}

// Check runs a rapid property with a case count for each tier.
func Check(t *testing.T, quick, thorough int, prop func(t *rapid.T)) {
	t.Helper()
	n := quick
	if Thorough() {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n)*f) + 1
		}
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			Infra("flag %s: %v", k, err)
		}
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(Seed(), 10))
	if flag.Lookup("rapid.shrinktime").Value.String() == "30s" {
		set("rapid.shrinktime", "12s")
	}
	rapid.Check(t, prop)
}

// Case records one generated case. desc identifies it; nontrivial is decided by
// the rule of the property; classes are counted for the distribution.
func Case(name, desc string, nontrivial bool, classes ...string) {
	mu.Lock()
	defer mu.Unlock()
	st.Evaluations++
	full := name + ": " + desc
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(full))
		seen[h.Sum64()] = true
	}
	st.Classes["test="+name]++
	for _, c := range classes {
		st.Classes[name+"/"+c]++
	}
	perTest[name]++
	// the first non-trivial ones, then some at exponentially growing distance
	k := perTest[name]
	if nontrivial && (k <= 2 || k&(k-1) == 0) && len(st.Samples) < 200 {
		s := full
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		st.Samples = append(st.Samples, s)
	}
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		_ = os.WriteFile(j, []byte(full+"\n"), 0o644)
	}
}

// Note counts something worth reporting that is not a generated case.
func Note(k string) {
	mu.Lock()
	st.Notes[k]++
	mu.Unlock()
}

// KnownFinding reports that the listed finding key was reproduced. It returns
// false if the key is not listed, in which case the caller must fail.
func KnownFinding(key string) bool {
	mu.Lock()
	defer mu.Unlock()
	if _, ok := known[key]; !ok {
		return false
	}
	for _, k := range st.Known {
		if k == key {
			return true
		}
	}
	st.Known = append(st.Known, key)
	return true
}

// TB is what both testing.T and rapid.T offer.
type TB interface {
	Fatalf(format string, args ...interface{})
	Errorf(format string, args ...interface{})
	Logf(format string, args ...interface{})
	Helper()
}

// NoPanic runs f and returns a description of the panic, if any.
func NoPanic(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

// Within runs f in its own goroutine and tells whether it ended in time. A
// panic of f is returned in msg.
func Within(d time.Duration, f func()) (ended bool, msg string) {
	done := make(chan string, 1)
	go func() { done <- NoPanic(f) }()
	select {
	case m := <-done:
		return true, m
	case <-time.After(d):
		return false, ""
	}
}

var blocked atomic.Bool

// Blocked records that a step was found not to end: the repetitions that the
// shrinker makes afterwards are given less time.
func Blocked() { blocked.Store(true) }

// HangLimit is the time after which a step that normally takes milliseconds is
// regarded as not ending. A step is only called blocked after Attempts attempts.
func HangLimit() time.Duration {
	if blocked.Load() {
		return 10 * time.Second
	}
	return 40 * time.Second
}

// Attempts is how often a step must fail to end before it is called blocked.
func Attempts() int {
	if blocked.Load() {
		return 1
	}
	return 3
}

// EventuallyEnds runs attempt (which must build everything afresh) up to
// Attempts times, until one ends within HangLimit. It returns the panic message
// of the attempt that ended, and false if all of them blocked.
func EventuallyEnds(attempt func() func()) (ended bool, msg string) {
	for i, n := 0, Attempts(); i < n; i++ {
		f := attempt()
		ok, m := Within(HangLimit(), f)
		if ok {
			return true, m
		}
		Note("attempt did not end within the limit")
	}
	Blocked()
	return false, ""
}
