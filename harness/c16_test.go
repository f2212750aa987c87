package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
	"pgregory.net/rapid"
)

// methodKind is a mutation method with its parameters.
type methodKind struct {
	name   string
	method mutation.Method
	rate   float64
	amount float64
	normal bool
}

func newMethod(name string, rate, amount float64, n int) methodKind {
	switch name {
	case "gaussian":
		return methodKind{fmt.Sprintf("gaussian(%v, %v)", rate, amount), mutation.NewGaussianMethod(rate, amount), rate, amount, true}
	case "random":
		return methodKind{fmt.Sprintf("random(%v, %v)", rate, amount), mutation.NewRandomMethod(rate, amount), rate, amount, false}
	}
	return methodKind{fmt.Sprintf("default for %d points", n), mutation.DefaultGaussianMethod(n), math.Min(1, 2/float64(n)), 0.3, true}
}

func checkReports(before, after normgeom.NormPointGroup, ms []mutation.Mutation) error {
	if len(before) != len(after) {
		return fmt.Errorf("the number of points changed")
	}
	replay := before.Copy()
	last := -1
	for _, m := range ms {
		if m.Index <= last || m.Index >= len(before) {
			return fmt.Errorf("index %d is reported after %d", m.Index, last)
		}
		last = m.Index
		if m.Old != before[m.Index] || m.New != after[m.Index] {
			return fmt.Errorf("point %d was %v and is %v, but the report is %v -> %v", m.Index, before[m.Index], after[m.Index], m.Old, m.New)
		}
		replay[m.Index] = m.New
	}
	if !sameGroup(replay, after) {
		return fmt.Errorf("a point that wasn't reported changed: %v -> %v, reported %v", before, after, ms)
	}
	for i, p := range after {
		if !(p.X >= 0 && p.X <= 1 && p.Y >= 0 && p.Y <= 1) {
			return fmt.Errorf("point %d is at %v", i, p)
		}
	}
	return nil
}

func TestC16(t *testing.T) {
	reports := func(rt *rapid.T, c *Case, minPoints, maxPoints int) {
		n := drawCount(rt, "n", minPoints, maxPoints)
		r := drawRng(rt, "group")
		g := randomGroup(r, n)
		for i := range g { // also on the borders
			if r.chance(0.1) {
				g[i].X = float64(r.intn(2))
			}
			if r.chance(0.1) {
				g[i].Y = float64(r.intn(2))
			}
		}
		rate := pick(rt, "rate", 0, 1, 0.02, 0.2, 0.5, 0.97)
		amount := pick(rt, "amount", 0, 0.001, 0.3, 1, 4, 100)
		if r.chance(0.3) {
			rate, amount = r.float(), 2*r.float()
		}
		if r.chance(0.05) {
			amount = math.Exp(-40 * r.float())
		}
		m := newMethod(pick(rt, "method", "gaussian", "random", "default"), rate, amount, max(1, n))
		seedAll(r.next())
		count := 0
		for k := 0; k < 3; k++ {
			before := g.Copy()
			var ms []mutation.Mutation
			m.method.Mutate(g, func(mu mutation.Mutation) { ms = append(ms, mu) })
			if err := checkReports(before, g, ms); err != nil {
				rt.Fatalf("%s: %v", m.name, err)
			}
			if m.rate == 0 && len(ms) > 0 {
				rt.Fatalf("%s mutated %d points", m.name, len(ms))
			}
			if m.rate == 1 && len(ms) != n {
				rt.Fatalf("%s mutated %d of %d points", m.name, len(ms), n)
			}
			for _, mu := range ms {
				if !m.normal {
					if d := math.Max(math.Abs(mu.New.X-mu.Old.X), math.Abs(mu.New.Y-mu.Old.Y)); d > m.amount/2+1e-12 {
						rt.Fatalf("%s moved a point by %v", m.name, d)
					}
				}
				if m.amount > 1e-6 && mu.New == mu.Old && mu.Old.X*mu.Old.Y*(1-mu.Old.X)*(1-mu.Old.Y) != 0 {
					rt.Fatalf("%s left point %v where it was", m.name, mu.Old)
				}
			}
			count += len(ms)
		}
		c.Label("%s", m.name[:6])
		c.Done(count > 0, "%s, %d points, %d mutations, %v", m.name, n, count, g)
	}
	sub(t, "reports", 24000, 800000,
		"mutated groups against the reports; non-trivial: a mutation was reported",
		func(rt *rapid.T, c *Case) { reports(rt, c, 0, 60) })
	sub(t, "reports-large", 80, 4000,
		"the same for groups of up to 100000 points; non-trivial: a mutation was reported",
		func(rt *rapid.T, c *Case) {
			reports(rt, c, 60, []int{1000, 10000, 100000}[rapid.IntRange(0, 2).Draw(rt, "magnitude")])
		})
	sub(t, "distribution", 240, 6000,
		"how often and how far points move, over many mutations; non-trivial: at least 1000 mutations",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "group")
			n := 1 + r.intn(60)
			rate := r.float()
			switch r.intn(6) {
			case 0:
				rate *= 0.05
			case 1:
				rate = 1
			case 2: // rates for many points
				rate = math.Pow(10, -1-4*r.float())
			}
			if r.chance(0.2) {
				n = 1000 + r.intn(20000)
			}
			amount := 0.001 + 0.1*r.float() // never clamped: starting from the middle
			m := newMethod(pick(rt, "method", "gaussian", "random", "default"), rate, amount, n)
			seedAll(r.next())
			draws := 40000
			if m.rate > 0 { // a thousand mutations, if possible
				draws = int(math.Max(40000, math.Min(4e6, 1500/m.rate)))
			}
			reps := max(1, draws/n)
			start := make(normgeom.NormPointGroup, n)
			for i := range start {
				start[i] = normgeom.NormPoint{X: 0.5, Y: 0.5}
			}
			perPoint := make([]int, n)
			total, pairs := 0, 0
			var dx, dy []float64
			for k := 0; k < reps; k++ {
				g := start.Copy()
				lastIndex := -2
				m.method.Mutate(g, func(mu mutation.Mutation) {
					perPoint[mu.Index]++
					total++
					if lastIndex == mu.Index-1 {
						pairs++
					}
					lastIndex = mu.Index
					dx = append(dx, (mu.New.X-mu.Old.X)/(m.amount*0.5))
					dy = append(dy, (mu.New.Y-mu.Old.Y)/(m.amount*0.5))
				})
			}
			if z := zScore(total, reps*n, m.rate); math.Abs(z) > maxSigma {
				rt.Fatalf("%s: %d of %d points were mutated (%.1f sigma)", m.name, total, reps*n, z)
			}
			for i, v := range perPoint {
				if z := zScore(v, reps, m.rate); math.Abs(z) > maxSigma && float64(reps)*m.rate > 50 && float64(reps)*(1-m.rate) > 50 {
					rt.Fatalf("%s: point %d was mutated %d of %d times (%.1f sigma)", m.name, i, v, reps, z)
				}
			}
			// Independence: neighbours are both mutated with the rate squared
			if e := float64(reps*(n-1)) * m.rate * m.rate; e > 100 {
				// a sum of dependent indicators: variance at most 3 times the independent one
				if z := zScore(pairs, reps*(n-1), m.rate*m.rate) / math.Sqrt(3); math.Abs(z) > maxSigma {
					rt.Fatalf("%s: %d of %d neighbours were both mutated, expected about %v", m.name, pairs, reps*(n-1), e)
				}
			}
			if total >= 1000 {
				if z := correlation(dx, dy); math.Abs(z) > maxSigma {
					rt.Fatalf("%s: x and y displacements are correlated (%.1f sigma)", m.name, z)
				}
				if z := correlation(dx[1:], dx[:len(dx)-1]); math.Abs(z) > maxSigma {
					rt.Fatalf("%s: displacements are correlated with the ones before (%.1f sigma)", m.name, z)
				}
				for axis, d := range [][]float64{dx, dy} {
					var counts []int
					var probs []float64
					if m.normal {
						var borders []float64
						borders, probs = normalBins(0.25, 2)
						counts = make([]int, len(probs))
						for _, v := range d {
							k := 0
							for k < len(borders) && v >= borders[k] {
								k++
							}
							counts[k]++
						}
					} else {
						counts, probs = make([]int, 20), uniformProbs(20)
						for _, v := range d {
							k := int(math.Floor((v + 1) * 10))
							counts[clampInt(k, 0, 19)]++
						}
					}
					if z := chiSquare(counts, probs); z > maxSigma {
						rt.Fatalf("%s: displacements along axis %d are distributed as %v, expected %v (%.1f sigma)", m.name, axis, counts, probs, z)
					}
				}
			}
			c.Label("%s", m.name[:6])
			c.Done(total >= 1000, "%s, %d points mutated %d times, %d", m.name, n, reps, r.s)
		})
	sub(t, "clamping", 160, 4000,
		"points end up on a border as often as the displacement would take them beyond it; non-trivial: some do",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "group")
			p := normgeom.NormPoint{X: r.float(), Y: r.float()}
			amount := 0.2 + 3*r.float()
			m := newMethod(pick(rt, "method", "gaussian", "random"), 1, amount, 1)
			seedAll(r.next())
			n := 20000
			g := make(normgeom.NormPointGroup, n)
			for i := range g {
				g[i] = p
			}
			m.method.Mutate(g, func(mutation.Mutation) {})
			cdf := func(d float64) float64 { // probability of a displacement below d
				if m.normal {
					return normalCDF(d / (amount * 0.5))
				}
				return clamp01(d/amount + 0.5)
			}
			at := [4]int{}
			half := [2]int{} // closer to the border than the start, a cut inside the range
			for _, q := range g {
				for k, v := range [4]bool{q.X == 0, q.X == 1, q.Y == 0, q.Y == 1} {
					if v {
						at[k]++
					}
				}
				if q.X < p.X/2 {
					half[0]++
				}
				if q.Y < p.Y/2 {
					half[1]++
				}
			}
			want := [4]float64{cdf(-p.X), 1 - cdf(1-p.X), cdf(-p.Y), 1 - cdf(1-p.Y)}
			for k := range at {
				if z := zScore(at[k], n, want[k]); math.Abs(z) > maxSigma && math.Abs(float64(at[k])-float64(n)*want[k]) > 20 {
					rt.Fatalf("%s from %v: %d of %d points at border %d, expected a share of %v (%.1f sigma)", m.name, p, at[k], n, k, want[k], z)
				}
			}
			for k, w := range [2]float64{cdf(-p.X / 2), cdf(-p.Y / 2)} {
				if z := zScore(half[k], n, w); math.Abs(z) > maxSigma && math.Abs(float64(half[k])-float64(n)*w) > 20 {
					rt.Fatalf("%s from %v: %d of %d points below half of the coordinate, expected a share of %v (%.1f sigma)", m.name, p, half[k], n, w, z)
				}
			}
			c.Label("%s", m.name[:6])
			c.Done(at[0]+at[1]+at[2]+at[3] > 0, "%s from %v: %v", m.name, p, at)
		})
	regress(t, "rate 1 with a random float rounded up to 1", func(t testing.TB) {
		random.Seed(90327987)
		g := normgeom.NormPointGroup{{X: 0.5, Y: 0.5}}
		n := 0
		mutation.NewGaussianMethod(1, 0.3).Mutate(g, func(mutation.Mutation) { n++ })
		if n != 1 {
			t.Fatalf("no point was mutated with a rate of 1")
		}
	})
}
