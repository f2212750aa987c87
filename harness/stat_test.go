package harness

import "math"

// Statistical tests reject only what has a probability far below one in a billion, so that they stay quiet
// for every seed, yet detect any sizeable deviation given enough samples.
const maxSigma = 6.5

// zScore is how many standard deviations a count is away from what's expected.
func zScore(count, n int, p float64) float64 {
	sd := math.Sqrt(float64(n) * p * (1 - p))
	if sd == 0 {
		if float64(count) == float64(n)*p {
			return 0
		}
		return math.Inf(1)
	}
	return (float64(count) - float64(n)*p) / sd
}

// chiSquare returns the normalised statistic (about standard normal for many bins) of counts against
// probabilities. Bins should have expected counts of at least 20.
func chiSquare(counts []int, probs []float64) float64 {
	n := 0
	for _, c := range counts {
		n += c
	}
	x, bins := 0., 0
	for i, c := range counts {
		e := float64(n) * probs[i]
		if e == 0 {
			continue
		}
		x += (float64(c) - e) * (float64(c) - e) / e
		bins++
	}
	df := float64(bins - 1)
	// Wilson-Hilferty: the cube root is close to normal, also for few bins
	return (math.Cbrt(x/df) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
}

func uniformProbs(n int) []float64 {
	p := make([]float64, n)
	for i := range p {
		p[i] = 1 / float64(n)
	}
	return p
}

// normalCDF is the distribution function of the standard normal distribution.
func normalCDF(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

// normalBins are borders dividing the real line into bins by the normal distribution, with their probabilities.
// The outermost borders are at ±limit.
func normalBins(step, limit float64) (borders, probs []float64) {
	n := int(2 * limit / step)
	last := 0.
	for i := 0; i <= n; i++ {
		b := -limit + float64(i)*step
		borders = append(borders, b)
		probs = append(probs, normalCDF(b)-last)
		last = normalCDF(b)
	}
	return borders, append(probs, 0.5*math.Erfc(borders[n]/math.Sqrt2))
}

// correlation is the sample correlation coefficient of two sequences times the square root of their length,
// which is about standard normal if they are independent.
func correlation(a, b []float64) float64 {
	n := float64(len(a))
	var ma, mb float64
	for i := range a {
		ma += a[i] / n
		mb += b[i] / n
	}
	var ab, aa, bb float64
	for i := range a {
		ab += (a[i] - ma) * (b[i] - mb)
		aa += (a[i] - ma) * (a[i] - ma)
		bb += (b[i] - mb) * (b[i] - mb)
	}
	if aa == 0 || bb == 0 {
		return 0
	}
	return ab / math.Sqrt(aa*bb) * math.Sqrt(n)
}
