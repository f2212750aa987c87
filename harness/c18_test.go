package harness

import (
	"fmt"
	"math"
	"math/bits"
	"testing"

	"github.com/RH12503/Triangula/random"
	"pgregory.net/rapid"
)

// binStart is the lowest number below bound that falls into a bin.
func binStart(i, bound, bins int) uint64 {
	hi, lo := bits.Mul64(uint64(i), uint64(bound))
	lo, carry := bits.Add64(lo, uint64(bins)-1, 0)
	v, _ := bits.Div64(hi+carry, lo, uint64(bins))
	return v
}

func TestC18(t *testing.T) {
	sub(t, "reproducible", 8000, 200000,
		"sequences of calls repeated after seeding again; non-trivial: at least two kinds of calls",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			s := rapid.Int64().Draw(rt, "s")
			if r.chance(0.5) {
				s = int64(r.next())
			}
			ops := make([]int, 1+r.intn(60))
			kinds := map[int]bool{}
			for i := range ops {
				ops[i] = r.intn(5)
				kinds[ops[i]] = true
			}
			bound := 1 + r.intn(1<<uint(1+r.intn(62)))
			play := func(s int64) []uint64 {
				random.Seed(s)
				var out []uint64
				for _, o := range ops {
					switch o {
					case 0:
						v := random.Intn(bound)
						if v < 0 || v >= bound {
							rt.Fatalf("seed %d: Intn(%d) = %d", s, bound, v)
						}
						out = append(out, uint64(v))
					case 1:
						f := random.Float32()
						if !(f >= 0 && f <= 1) {
							rt.Fatalf("seed %d: Float32() = %v", s, f)
						}
						out = append(out, uint64(math.Float32bits(f)))
					case 2:
						v := random.Int63()
						if v < 0 {
							rt.Fatalf("seed %d: Int63() = %d", s, v)
						}
						out = append(out, uint64(v))
					case 3:
						out = append(out, uint64(random.Uint32()))
					default:
						v := random.NormFloat64()
						if math.IsNaN(v) || math.IsInf(v, 0) {
							rt.Fatalf("seed %d: NormFloat64() = %v", s, v)
						}
						out = append(out, math.Float64bits(v))
					}
				}
				return out
			}
			raw := func(s int64) [6]uint32 {
				random.Seed(s)
				return [6]uint32{random.Uint32(), random.Uint32(), random.Uint32(), random.Uint32(), random.Uint32(), random.Uint32()}
			}
			other := s ^ int64(1)<<uint(r.intn(64))
			switch r.intn(8) {
			case 0, 1:
				other = int64(r.next())
			case 2:
				other = -s
			case 3:
				other = ^s
			case 4:
				other = s + int64(r.intn(9)) - 4
			case 5:
				s = int64(r.intn(5)) - 2 // also after another seed
				other = int64(r.intn(2000)) - 1000
			}
			random.Seed(int64(r.next()))
			a := fmt.Sprint(play(s))
			if s != other && raw(s) == raw(other) {
				rt.Fatalf("seeds %d and %d give the same sequence", s, other)
			}
			for i := r.intn(5); i > 0; i-- {
				random.NormFloat64() // leave it in some other state
			}
			if b := fmt.Sprint(play(s)); a != b {
				rt.Fatalf("seed %d gives %v, then %v", s, a, b)
			}
			c.Done(len(kinds) >= 2, "seed %d, calls %v", s, ops)
		})
	sub(t, "bounded", 400, 10000,
		"Intn and Float32 are uniform, and independent of the one before; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "seed")
			random.Seed(int64(r.next()))
			const n = 20000
			bound := 1 + r.intn(60)
			switch {
			case r.chance(0.3):
				bound = 1 + r.intn(1<<31-1)
			case r.chance(0.3):
				bound = 1 + r.intn(1<<uint(31+r.intn(32)))
			case r.chance(0.1):
				bound = 1<<uint(30+r.intn(33)) + r.intn(3) - 1
			case r.chance(0.2):
				bound = 3 << 29 // uneven parts of 2^32
			case r.chance(0.1):
				bound = 3 << 31
			case r.chance(0.1):
				bound = 3 << 61 // uneven parts of 2^63
			}
			bins := min(bound, 50)
			counts := make([]int, bins)
			probs := make([]float64, bins)
			for i := range probs {
				// values v with v*bins/bound == i
				lo, hi := binStart(i, bound, bins), binStart(i+1, bound, bins)
				probs[i] = float64(hi-lo) / float64(bound)
			}
			var prev, cur []float64
			for i := 0; i < n; i++ {
				v := random.Intn(bound)
				if v < 0 || v >= bound {
					rt.Fatalf("Intn(%d) = %d", bound, v)
				}
				hi, lo := bits.Mul64(uint64(v), uint64(bins))
				bin, _ := bits.Div64(hi, lo, uint64(bound))
				counts[bin]++
				cur = append(cur, float64(v))
			}
			prev, cur = cur[1:], cur[:n-1]
			if bins > 1 {
				if z := chiSquare(counts, probs); z > maxSigma {
					rt.Fatalf("Intn(%d) is distributed as %v (%.1f sigma)", bound, counts, z)
				}
				if z := correlation(prev, cur); math.Abs(z) > maxSigma {
					rt.Fatalf("Intn(%d) is correlated with the one before (%.1f sigma)", bound, z)
				}
			}
			fc := make([]int, 64)
			for i := 0; i < n; i++ {
				f := random.Float32()
				if !(f >= 0 && f <= 1) {
					rt.Fatalf("Float32() = %v", f)
				}
				fc[clampInt(int(f*64), 0, 63)]++
			}
			if z := chiSquare(fc, uniformProbs(64)); z > maxSigma {
				rt.Fatalf("Float32() is distributed as %v (%.1f sigma)", fc, z)
			}
			// At a finer scale
			lowest, deep := 0, make([]int, 8)
			const many = 1 << 18
			for i := 0; i < many; i++ {
				f := float64(random.Float32())
				if f < 1./(1<<18) {
					lowest++
				}
				v := f * (1 << 16)
				deep[int((v-math.Floor(v))*8)]++
			}
			if lowest > 40 { // 1 on average
				rt.Fatalf("%d of %d floats are below 2^-18", lowest, many)
			}
			if z := chiSquare(deep, uniformProbs(8)); z > maxSigma {
				rt.Fatalf("within intervals of 2^-16, floats are distributed as %v (%.1f sigma)", deep, z)
			}
			var ones [63]int
			var ones32 [32]int
			for i := 0; i < n; i++ {
				v := random.Int63()
				if v < 0 {
					rt.Fatalf("Int63() = %d", v)
				}
				for b := uint64(v); b != 0; b &= b - 1 {
					ones[bits.TrailingZeros64(b)]++
				}
				for b := random.Uint32(); b != 0; b &= b - 1 {
					ones32[bits.TrailingZeros32(b)]++
				}
			}
			for b, v := range append(ones[:], ones32[:]...) {
				if z := zScore(v, n, 0.5); math.Abs(z) > maxSigma {
					rt.Fatalf("bit %d (of Int63, Uint32) is set in %d of %d (%.1f sigma)", b, v, n, z)
				}
			}
			c.Done(true, "Intn(%d): %v", bound, counts)
		})
	normal := func(rt *rapid.T, c *Case, n int) {
		r := drawRng(rt, "seed")
		s := int64(r.next())
		random.Seed(s)
		const limit, perUnit = 8, 100
		fine := make([]int, 2*limit*perUnit+2)
		beyond := 0
		var sum, sq float64
		signs, last := 0, false
		for i := 0; i < n; i++ {
			if i&(1<<22-1) == 0 {
				tick()
			}
			v := random.NormFloat64()
			k := int(math.Floor(v*perUnit)) + limit*perUnit + 1
			if k < 0 || k >= len(fine) {
				beyond++
				k = clampInt(k, 0, len(fine)-1)
			}
			fine[k]++
			sum += v
			sq += v * v
			if neg := v < 0; neg != last {
				signs++
				last = neg
			}
		}
		if z := sum / math.Sqrt(float64(n)); math.Abs(z) > maxSigma {
			rt.Fatalf("seed %d: mean %v (%.1f sigma)", s, sum/float64(n), z)
		}
		if z := (sq/float64(n) - 1) * math.Sqrt(float64(n)/2); math.Abs(z) > maxSigma {
			rt.Fatalf("seed %d: variance %v (%.1f sigma)", s, sq/float64(n), z)
		}
		if z := zScore(signs, n, 0.5); math.Abs(z) > maxSigma {
			rt.Fatalf("seed %d: %d changes of sign in %d (%.1f sigma)", s, signs, n, z)
		}
		// Merge the fine bins until at least 30 values are expected in each
		var counts []int
		var probs []float64
		count, prob := 0, 0.
		var edges []float64
		for k := range fine {
			lo, hi := float64(k-limit*perUnit-1)/perUnit, float64(k-limit*perUnit)/perUnit
			p := normalCDF(hi) - normalCDF(lo)
			if lo > 0 {
				p = normalCDF(-lo) - normalCDF(-hi)
			}
			if k == 0 {
				p = normalCDF(hi)
			}
			if k == len(fine)-1 {
				p = normalCDF(-lo)
			}
			count += fine[k]
			prob += p
			if prob*float64(n) >= 30 {
				counts, probs, edges = append(counts, count), append(probs, prob), append(edges, hi)
				count, prob = 0, 0
			}
		}
		counts[len(counts)-1] += count
		probs[len(probs)-1] += prob
		if z := chiSquare(counts, probs); z > maxSigma {
			worst, at := 0., 0
			for k := range counts {
				if d := math.Abs(zScore(counts[k], n, probs[k])); d > worst {
					worst, at = d, k
				}
			}
			rt.Fatalf("seed %d: %d values aren't normally distributed (%.1f sigma), for example %d below %v where %v are expected",
				s, n, z, counts[at], edges[at], probs[at]*float64(n))
		}
		// Each bin by itself, and the tails
		for k := range counts {
			if z := zScore(counts[k], n, probs[k]); math.Abs(z) > maxSigma+1.5 {
				rt.Fatalf("seed %d: %d values in the bin below %v, expected %v (%.1f sigma)", s, counts[k], edges[k], probs[k]*float64(n), z)
			}
		}
		for _, cut := range []float64{3, 3.44, 3.45, 3.6, 4, 4.5} {
			lo, hi := 0, 0
			k := int(math.Round(cut * perUnit))
			for i := range fine {
				if i <= limit*perUnit-k {
					lo += fine[i]
				}
				if i > limit*perUnit+k {
					hi += fine[i]
				}
			}
			p := normalCDF(-float64(k) / perUnit)
			for side, v := range []int{lo, hi} {
				if z := zScore(v, n, p); math.Abs(z) > maxSigma && math.Abs(float64(v)-float64(n)*p) > 25 {
					rt.Fatalf("seed %d: %d values beyond %v on side %d, expected %v (%.1f sigma)", s, v, cut, side, float64(n)*p, z)
				}
			}
		}
		c.Count("values", n)
		c.Done(true, "seed %d, %d values, mean %v, variance %v", s, n, sum/float64(n), sq/float64(n))
	}
	sub(t, "normal", 80, 800,
		"normal variates from many seeds against the distribution function, in fine bins and tails; all are non-trivial",
		func(rt *rapid.T, c *Case) { normal(rt, c, 1000000) })
	sub(t, "normal-many", 8, 80,
		"one long sequence of normal variates each; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			n := 200000000
			if thorough {
				n = 1000000000
			}
			normal(rt, c, n)
		})
}
