package c20

import (
	"fmt"
	"math"
	"testing"

	libunlynxdiffprivacy "github.com/ldsec/unlynx/lib/differential_privacy"
	"pgregory.net/rapid"

	"verif/harness/hk"
)

func TestMain(m *testing.M) {
	hk.Main(m,
		"Noise lists are generated for sizes 0 to some 20000 and for generated means, scale parameters, quanta (or limits), and scales, and compared with an independent model: exactly the requested length; zeros first, then for k = 1, 2, ... copies of the pair (k, -k), where the number of copies is the Laplace density divided by the quantum and rounded up; a quantum that is not given follows from the limit. Two calls give the same list. Non-trivial: a list with zeros and at least two magnitudes.",
		"where rounding (of the density or of a limit on a step boundary) can go either way, both are accepted; parameters without quantum and limit, negative sizes and non-positive scales are outside the domain")
}

func pdf(mean, b, x float64) float64 { return math.Exp(-math.Abs(x-mean)/b) / (2 * b) }

// follows says whether the list follows the model for a quantum, "" if so
func follows(list []float64, mean, b, quanta, scale float64) string {
	const eps = 1e-7
	pos := 0
	for k := 0; pos < len(list); k++ {
		r := pdf(mean, b, float64(k)/scale) / quanta
		lo, hi := math.Max(1, math.Ceil(r*(1-eps))), math.Max(1, math.Ceil(r*(1+eps)))
		copies := 0.0
		is := func(x float64, v int) bool { return math.Abs(x-float64(v)) <= 1e-6*math.Max(1, float64(k)) }
		for pos < len(list) {
			if k == 0 {
				if list[pos] != 0 {
					break
				}
				pos++
			} else {
				a := list[pos]
				if !is(a, k) && !is(a, -k) {
					break
				}
				pos++
				if pos < len(list) {
					if math.Abs(list[pos]+a) > 1e-6 {
						return fmt.Sprintf("value %d is %g without its opposite %g beside it", pos-1, a, list[pos])
					}
					pos++
				}
			}
			copies++
			if copies > hi {
				return fmt.Sprintf("more than %g copies of +-%d", hi, k)
			}
		}
		if pos < len(list) && copies < lo {
			return fmt.Sprintf("%g copies of +-%d instead of %g (position %d has %g)", copies, k, lo, pos, list[pos])
		}
	}
	return ""
}

// fromLimit gives the quanta that can follow from a limit
func fromLimit(n int, mean, b, scale, limit float64) []float64 {
	sum := func(steps int) float64 {
		s := 0.0
		for k := 0; k < steps; k++ {
			p := pdf(mean, b, float64(k)/scale)
			if k > 0 {
				p *= 2
			}
			s += p
		}
		return s / float64(n)
	}
	steps := math.Ceil(limit * scale)
	out := []float64{sum(int(steps))}
	if r := math.Round(limit * scale); math.Abs(r-limit*scale) < 1e-6*math.Max(1, r) {
		out = []float64{sum(int(r)), sum(int(r) + 1)}
	}
	return out
}

func logUniform(t *rapid.T, name string, lo, hi float64) float64 {
	return math.Pow(10, rapid.Float64Range(lo, hi).Draw(t, name))
}

func TestNoise(t *testing.T) {
	hk.Check(t, 6000, 120000, func(t *rapid.T) {
		n := hk.Len(t, "n", 0, 300)
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			n = rapid.IntRange(300, 20000).Draw(t, "longN")
		}
		mean := rapid.SampledFrom([]float64{0, 0, 0, 1, -2, 2.5, 30}).Draw(t, "mean")
		b := rapid.OneOf(rapid.SampledFrom([]float64{1, 0.5, 2, 15, 0.1}), rapid.Custom(func(t *rapid.T) float64 { return logUniform(t, "logb", -2, 3) })).Draw(t, "b")
		scale := rapid.OneOf(rapid.SampledFrom([]float64{1, 1, 2, 10, 100, 0.5}), rapid.Custom(func(t *rapid.T) float64 { return logUniform(t, "logs", -2, 3) })).Draw(t, "scale")
		plain := rapid.Bool().Draw(t, "plain")
		if plain {
			scale = 1
		}
		mode := rapid.IntRange(0, 3).Draw(t, "mode") // 0,1: quantum, 2: limit, 3: both
		quanta, limit := 0.0, 0.0
		if mode != 2 {
			quanta = rapid.OneOf(rapid.SampledFrom([]float64{0.1, 0.01, 0.001, 0.5, 1, 0.25}), rapid.Custom(func(t *rapid.T) float64 { return logUniform(t, "logq", -6, 2) }), rapid.Custom(func(t *rapid.T) float64 { return logUniform(t, "logq", -300, 0) })).Draw(t, "quanta")
		}
		if mode >= 2 {
			limit = rapid.OneOf(rapid.SampledFrom([]float64{1, 5, 10, 100, 0.5, 2.5}), rapid.Custom(func(t *rapid.T) float64 { return logUniform(t, "logl", -2, 2) })).Draw(t, "limit")
		}
		if mode == 2 && n == 0 {
			n = 1
		}
		if mode == 2 && math.Abs(mean)/b > 500 {
			b = 1 // the density below the limit must not vanish
		}
		call := func() []float64 {
			if plain {
				return libunlynxdiffprivacy.GenerateNoiseValues(int64(n), mean, b, quanta, limit)
			}
			return libunlynxdiffprivacy.GenerateNoiseValuesScale(int64(n), mean, b, quanta, scale, limit)
		}
		var got, again []float64
		text := fmt.Sprintf("n=%d mean=%g b=%g quanta=%g scale=%g limit=%g", n, mean, b, quanta, scale, limit)
		ended, msg := hk.Within(hk.HangLimit(), func() { got, again = call(), call() })
		if !ended {
			hk.Blocked()
			t.Fatalf("%s: no list after %v", text, hk.HangLimit())
		}
		if msg != "" {
			t.Fatalf("%s: %s", text, msg)
		}
		if len(got) != n {
			t.Fatalf("%s: %d values instead of %d", text, len(got), n)
		}
		for i := range got {
			if got[i] != again[i] {
				t.Fatalf("%s: value %d differs between two calls", text, i)
			}
		}
		qs := []float64{quanta}
		if mode == 2 {
			qs = fromLimit(n, mean, b, scale, limit)
		}
		why := ""
		ok := false
		for _, q := range qs {
			if why = follows(got, mean, b, q, scale); why == "" {
				ok = true
			}
		}
		hk.Case("noise", text+fmt.Sprintf(" -> %.4v", got[:min(8, len(got))]), n > 4 && got[0] == 0 && got[n-1] != 0 && math.Abs(got[n-1]) != 1, hk.LenClass(n), fmt.Sprint("mode=", mode), fmt.Sprint("zeroMean=", mean == 0))
		if !ok {
			t.Fatalf("%s: %s", text, why)
		}
	})
}
