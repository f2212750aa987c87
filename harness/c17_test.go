package harness

import (
	"math"
	"math/rand"
	"testing"

	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/normgeom"
	"pgregory.net/rapid"
)

func minDist(g normgeom.NormPointGroup) float64 {
	m := math.Inf(1)
	for i := range g {
		for j := 0; j < i; j++ {
			m = math.Min(m, math.Hypot(g[i].X-g[j].X, g[i].Y-g[j].Y))
		}
	}
	return m
}

// meanNearest is the mean distance of the points to their nearest neighbour.
func meanNearest(g normgeom.NormPointGroup) float64 {
	s := 0.
	for i := range g {
		m := math.Inf(1)
		for j := range g {
			if j != i {
				m = math.Min(m, math.Hypot(g[i].X-g[j].X, g[i].Y-g[j].Y))
			}
		}
		s += m / float64(len(g))
	}
	return s
}

func inUnitSquare(g normgeom.NormPointGroup) bool {
	for _, p := range g {
		if !(p.X >= 0 && p.X <= 1 && p.Y >= 0 && p.Y <= 1) {
			return false
		}
	}
	return true
}

func TestC17(t *testing.T) {
	sub(t, "groups", 4000, 100000,
		"number and range of the points, and independence of the groups; non-trivial: at least 2 points",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			n := drawCount(rt, "n", 0, 200)
			var gen generator.Generator = generator.RandomGenerator{}
			kind := "random"
			if rapid.Bool().Draw(rt, "spaced") {
				kind = "spaced"
				n = max(n, 1)
				gen = generator.NewSpacedGenerator(drawCount(rt, "iterations", 0, 300))
			}
			rand.Seed(int64(r.next()))
			var all, copies []normgeom.NormPointGroup
			for k := 2 + r.intn(3); k > 0; k-- {
				m := n
				if r.chance(0.3) {
					m = 1 + r.intn(20)
				}
				g := gen.Generate(m)
				if len(g) != m {
					rt.Fatalf("%s: %d points instead of %d", kind, len(g), m)
				}
				if !inUnitSquare(g) {
					rt.Fatalf("%s: points outside the unit square: %v", kind, g)
				}
				for _, o := range copies {
					if (kind == "random" || m >= 10) && m > 0 && sameGroup(o, g) {
						rt.Fatalf("%s: the same group twice: %v", kind, g)
					}
				}
				all, copies = append(all, g), append(copies, g.Copy())
			}
			for k, g := range all { // changing one, and growing it, must not affect the others
				for i := range g {
					g[i] = normgeom.NormPoint{X: 7, Y: 7}
				}
				_ = append(g, normgeom.NormPoint{X: 8, Y: 8})
				for j := k + 1; j < len(all); j++ {
					if !sameGroup(all[j], copies[j]) {
						rt.Fatalf("%s: group %d changed with group %d", kind, j, k)
					}
				}
			}
			c.Label("%s", kind)
			c.Done(n >= 2, "%s %d %v", kind, n, copies[0])
		})
	sub(t, "large groups", 80, 2000,
		"number, range and spread of up to 300000 random or 2000 spaced points; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			rand.Seed(int64(r.next()))
			var gen generator.Generator = generator.RandomGenerator{}
			n := int(math.Exp(r.float() * math.Log(300000)))
			kind := "random"
			if rapid.Bool().Draw(rt, "spaced") {
				kind = "spaced"
				n = 1 + r.intn(2000)
				gen = generator.NewSpacedGenerator(r.intn(100))
			}
			g := gen.Generate(n)
			if len(g) != n {
				rt.Fatalf("%s: %d points instead of %d", kind, len(g), n)
			}
			if !inUnitSquare(g) {
				rt.Fatalf("%s: points outside the unit square among %d", kind, n)
			}
			seen := map[normgeom.NormPoint]bool{}
			for _, p := range g {
				if seen[p] {
					rt.Fatalf("%s: %v twice among %d points", kind, p, n)
				}
				seen[p] = true
			}
			if kind == "random" { // coordinates with 53 random bits
				coords := map[float64]bool{}
				counts := make([]int, 64)
				var xs, ys []float64
				for _, p := range g {
					coords[p.X], coords[p.Y] = true, true
					counts[clampInt(int(p.X*8), 0, 7)*8+clampInt(int(p.Y*8), 0, 7)]++
					xs, ys = append(xs, p.X), append(ys, p.Y)
				}
				if len(coords) < 2*n-2 {
					rt.Fatalf("%d points have only %d different coordinates", n, len(coords))
				}
				if n >= 1000 {
					if z := chiSquare(counts, uniformProbs(64)); z > maxSigma {
						rt.Fatalf("%d points are spread as %v (%.1f sigma)", n, counts, z)
					}
					if z := correlation(xs, ys); math.Abs(z) > maxSigma {
						rt.Fatalf("x and y of %d points are correlated (%.1f sigma)", n, z)
					}
					if z := correlation(xs[1:], xs[:n-1]); math.Abs(z) > maxSigma {
						rt.Fatalf("%d points are correlated (%.1f sigma)", n, z)
					}
				}
			}
			c.Label("%s", kind)
			c.Done(true, "%s %d %v", kind, n, g[0])
		})
	sub(t, "spacing", 2400, 60000,
		"the smallest distance after some iterations compared with the group before any, from the same seed; non-trivial: a point was moved",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			s := int64(r.next())
			n := drawCount(rt, "n", 2, 120)
			iterations := drawCount(rt, "iterations", 1, 600)
			if r.chance(0.02) {
				n, iterations = 2+r.intn(20), r.intn(20000)
			} else if r.chance(0.02) {
				n, iterations = 200+r.intn(1300), r.intn(40)
			}
			rand.Seed(s)
			start := generator.NewSpacedGenerator(0).Generate(n)
			rand.Seed(s)
			g := generator.NewSpacedGenerator(iterations).Generate(n)
			if len(g) != n || !inUnitSquare(g) {
				rt.Fatalf("%d points, %d iterations: %v", n, iterations, g)
			}
			if a, b := minDist(start), minDist(g); b < a {
				rt.Fatalf("%d points: the smallest distance fell from %v to %v in %d iterations", n, a, b, iterations)
			}
			c.LabelIf(minDist(g) > minDist(start), "smallest distance grew")
			c.Done(!sameGroup(start, g), "%d points, %d iterations, seed %d", n, iterations, s)
		})
	sub(t, "trend", 24, 800,
		"the average distance to the nearest neighbour grows with the iterations; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			rand.Seed(int64(r.next()))
			n := 15 + r.intn(30)
			var mean [4]float64
			for k, iterations := range []int{0, n * 2, n * 10, n * 50} {
				gen := generator.NewSpacedGenerator(iterations)
				for i := 0; i < 40; i++ {
					mean[k] += meanNearest(gen.Generate(n)) / 40
				}
			}
			for k := 1; k < 4; k++ {
				if !(mean[k] > mean[k-1]) {
					rt.Fatalf("%d points: mean distances to the nearest neighbour are %v for more and more iterations", n, mean)
				}
			}
			c.Done(true, "%d points: %v", n, mean)
		})
	sub(t, "large trend", 16, 320,
		"the average distance to the nearest neighbour of 200 to 2500 points grows with the iterations; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			n := int(200 * math.Exp(r.float()*math.Log(12.5)))
			s := int64(r.next())
			var mean [3]float64
			for k, iterations := range []int{0, n * 5, n * 25} {
				rand.Seed(s)
				mean[k] = meanNearest(generator.NewSpacedGenerator(iterations).Generate(n))
				tick()
			}
			if !(mean[1] > mean[0] && mean[2] > mean[1]) {
				rt.Fatalf("%d points: mean distances to the nearest neighbour are %v for more and more iterations", n, mean)
			}
			c.Done(true, "%d points: %v", n, mean)
		})
	sub(t, "uniform", 80, 2000,
		"random points are spread evenly, coordinates and points are independent; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			rand.Seed(int64(r.next()))
			n := 1 + r.intn(50)
			counts := make([]int, 64)
			var xs, ys, next []float64
			for k := 0; k < 40000/n; k++ {
				for i, p := range (generator.RandomGenerator{}).Generate(n) {
					counts[clampInt(int(p.X*8), 0, 7)*8+clampInt(int(p.Y*8), 0, 7)]++
					xs, ys = append(xs, p.X), append(ys, p.Y)
					if i > 0 {
						next = append(next, p.X)
					}
				}
			}
			if z := chiSquare(counts, uniformProbs(64)); z > maxSigma {
				rt.Fatalf("groups of %d: points are spread as %v (%.1f sigma)", n, counts, z)
			}
			if z := correlation(xs, ys); math.Abs(z) > maxSigma {
				rt.Fatalf("groups of %d: x and y are correlated (%.1f sigma)", n, z)
			}
			if z := correlation(xs[1:], xs[:len(xs)-1]); math.Abs(z) > maxSigma {
				rt.Fatalf("groups of %d: points are correlated (%.1f sigma)", n, z)
			}
			c.Done(true, "groups of %d, %v", n, counts)
		})
	regress(t, "points constrained to the same corner", func(t testing.TB) {
		for s := int64(0); s < 300; s++ {
			rand.Seed(s)
			a := minDist(generator.NewSpacedGenerator(0).Generate(50))
			rand.Seed(s)
			if b := minDist(generator.NewSpacedGenerator(1000).Generate(50)); b < a {
				t.Fatalf("seed %d: the smallest distance fell from %v to %v", s, a, b)
			}
		}
	})
}
