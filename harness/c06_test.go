package harness

import (
	"math"
	"math/big"
	"testing"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"pgregory.net/rapid"
)

// drawFitBlock draws a block size: mostly small, sometimes larger than the image.
func drawFitBlock(rt *rapid.T, w, h int) int {
	block := 0
	switch rapid.IntRange(0, 4).Draw(rt, "blockKind") {
	case 0:
		block = rapid.IntRange(1, max(w, h)+3).Draw(rt, "block")
	default:
		block = rapid.IntRange(1, min(9, 2+max(w, h)/3)).Draw(rt, "block")
	}
	// Large blocks of large images take too long to add up
	for (w-block)*(h-block)*block*block > 4000000 && block < w && block < h {
		block = block * 2 / 3
	}
	return block
}

// brightImage is a madeImage with the darkness of each pixel halved a few times.
type brightImage struct {
	madeImage
	shift uint
}

func (m *brightImage) at(x, y int) [3]uint8 {
	p := m.madeImage.at(x, y)
	for i := range p {
		p[i] = 255 - p[i]>>m.shift
	}
	return p
}
func (m *brightImage) RGBAt(x, y int) color.RGB {
	p := m.at(x, y)
	return color.RGB{R: float64(p[0]) / 255, G: float64(p[1]) / 255, B: float64(p[2]) / 255}
}

// hugeSum is a shapeSum of any number of pixels, all of which are inside the image.
type hugeSum struct {
	m           *brightImage
	n           int64
	r, g, b, sq int64
}

func (s *hugeSum) add(x, y int) {
	p := s.m.at(x, y)
	r, g, b := int64(p[0]), int64(p[1]), int64(p[2])
	s.n++
	s.r += r
	s.g += g
	s.b += b
	s.sq += r*r + g*g + b*b
}

// error is the squared deviation of the pixels from their mean colour.
func (s *hugeSum) error() float64 {
	if s.n == 0 {
		return 0
	}
	v := new(big.Int).Mul(big.NewInt(s.n), big.NewInt(s.sq))
	for _, x := range []int64{s.r, s.g, s.b} {
		v.Sub(v, new(big.Int).Mul(big.NewInt(x), big.NewInt(x)))
	}
	e, _ := new(big.Rat).SetFrac(v, big.NewInt(s.n)).Float64()
	return e
}

func TestC06(t *testing.T) { fitnessProperties(t, false) }
func TestC07(t *testing.T) { fitnessProperties(t, true) }

// expected is the scoring the documentation asks for, computed from the shapes and their pixels.
func fitnessProperties(t *testing.T, polygons bool) {
	q := func(n int) int {
		if polygons {
			return n / 2
		}
		return n
	}
	sub(t, "value", q(24000), q(800000),
		"image, points and block size against the error added up pixel by pixel; non-trivial: a shape covers more than one pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 48)
			exact := rapid.IntRange(0, 3).Draw(rt, "exact") > 0
			m := drawImage(rt, w, h, exact)
			n := drawCount(rt, "n", 1, 40)
			g, kind := drawNormGroup(rt, n, w, h)
			block := drawFitBlock(rt, w, h)
			var s scoring
			if polygons {
				s = expectPolygons(g, m)
			} else if tris, unique := uniqueTriangulation(scaledAll(g, w, h), w, h); unique {
				s = scoreTriangles(sortedTris(tris), m)
				c.Label("unique triangulation")
			} else {
				s = scoreTriangles(scoringTriangles(g, w, h), m)
			}
			f := newFunctions(polygons, m, block, 1)[0]
			if !polygons && rapid.Bool().Draw(rt, "single") {
				f = fitness.NewTrianglesImageFunction(m, block)
			}
			before := g.Copy()
			fit := f.Calculate(fitness.PointsData{Points: g})
			if err := s.check(fit, m, exact); err != nil {
				rt.Fatalf("%v, block size %d, %s: %v", m, block, ptsString(scaledAll(g, w, h)), err)
			}
			for i := range g {
				if g[i] != before[i] {
					rt.Fatalf("Calculate changed point %d", i)
				}
			}
			c.Label("%s", kind)
			c.LabelIf(block > min(w, h), "block larger than image")
			c.LabelIf(s.covered >= 5, "5+ shapes with pixels")
			c.LabelIf(exact, "without tolerance")
			c.Done(s.pixels > int64(s.covered), "%v, block size %d, %s", m, block, ptsString(scaledAll(g, w, h)))
		})
	sub(t, "blocks", q(1600), q(40000),
		"large images where blocks fit into the shapes, several block sizes; non-trivial: block of at least 3 pixels fits in the largest shape",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			w, h := 30+r.intn(90), 30+r.intn(90)
			exact := rapid.IntRange(0, 3).Draw(rt, "exact") > 0
			m := drawImage(rt, w, h, exact)
			n := rapid.IntRange(3, 9).Draw(rt, "n")
			g, _ := drawNormGroup(rt, n, w, h, "uniform", "border", "coarse")
			var s scoring
			if polygons {
				s = expectPolygons(g, m)
			} else {
				s = scoreTriangles(scoringTriangles(g, w, h), m)
			}
			blocks := []int{2 + r.intn(4), 4 + r.intn(12), 16 + r.intn(max(w, h))}
			for _, block := range blocks {
				if block < min(w, h) && (w-block)*(h-block)*block*block > 4000000 {
					block = 3
				}
				fit := freshFitness(polygons, m, block, g)
				if err := s.check(fit, m, exact); err != nil {
					rt.Fatalf("%v, block size %d, %s: %v", m, block, ptsString(scaledAll(g, w, h)), err)
				}
			}
			c.LabelIf(exact, "without tolerance")
			c.Done(s.covered > 0, "%v, block sizes %v, %s", m, blocks, ptsString(scaledAll(g, w, h)))
		})
	sub(t, "repainted", q(2000), q(60000),
		"several sets of functions for one image object that is painted over in between: functions score the image as it was when they were made; non-trivial: a shape covers more than one pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 30)
			m := drawImage(rt, w, h, true)
			g, _ := drawNormGroup(rt, drawCount(rt, "n", 1, 20), w, h)
			block := drawFitBlock(rt, w, h)
			r := drawRng(rt, "paint")
			var fs []fitness.CacheFunction
			var fits []float64
			pixels := int64(0)
			for i := 0; i < 3; i++ {
				var s scoring
				if polygons {
					s = expectPolygons(g, m)
				} else {
					s = scoreTriangles(scoringTriangles(g, w, h), m)
				}
				f := newFunctions(polygons, m, block, 1)[0]
				fit := f.Calculate(fitness.PointsData{Points: g.Copy()})
				if err := s.check(fit, m, true); err != nil {
					rt.Fatalf("%v, painted over %d times, block size %d, %s: %v", m, i, block, ptsString(scaledAll(g, w, h)), err)
				}
				pixels = s.pixels - int64(s.covered)
				fs, fits = append(fs, f), append(fits, fit)
				for k := r.intn(len(m.pix)) + 1; k > 0; k-- {
					p := &m.pix[r.intn(len(m.pix))]
					for ch := range p {
						p[ch] = exactBoth[r.intn(len(exactBoth))]
					}
				}
			}
			for i, f := range fs {
				if again := f.Calculate(fitness.PointsData{Points: g.Copy()}); !closeFitness(again, fits[i]) {
					rt.Fatalf("%v, block size %d, %s: fitness %v became %v after the image was painted over", m, block, ptsString(scaledAll(g, w, h)), fits[i], again)
				}
			}
			c.Done(pixels > 0, "%v, block size %d, %s", m, block, ptsString(scaledAll(g, w, h)))
		})
	sub(t, "relations", q(6000), q(200000),
		"the fitness doesn't change with the order of the points, repeated points, other points in the same pixel, the block size, and permuted or inverted colour channels; non-trivial: a shape covers more than one pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 40)
			m := drawImage(rt, w, h, true)
			n := drawCount(rt, "n", 1, 30)
			src := drawPointSource(rt, w, h)
			var pts []ipt
			for i := 0; i < n; i++ {
				pts = append(pts, src.next())
			}
			r := drawRng(rt, "relation")
			g := normGroup(pts, w, h, r)
			block := drawFitBlock(rt, w, h)
			fit := freshFitness(polygons, m, block, g)
			_, unique := uniqueTriangulation(pts, w, h)
			same := func(what string, f float64) {
				if !closeFitness(f, fit) {
					rt.Fatalf("%v, block size %d, %s: fitness %v, %v with %s", m, block, ptsString(pts), fit, f, what)
				}
			}
			other := drawFitBlock(rt, w, h)
			same("another block size", freshFitness(polygons, m, other, g))
			perm := [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[r.intn(5)]
			inv := r.intn(8)
			mapped := m.mapped(func(p [3]uint8) [3]uint8 {
				q := [3]uint8{p[perm[0]], p[perm[1]], p[perm[2]]}
				for i := range q {
					if inv>>i&1 == 1 {
						q[i] = 255 - q[i]
					}
				}
				return q
			})
			same("mapped channels", freshFitness(polygons, mapped, block, g))
			same("points moved within their pixels", freshFitness(polygons, m, block, normGroup(pts, w, h, r)))
			if polygons || unique {
				same("shuffled points", freshFitness(polygons, m, block, shuffled(g, r)))
				d := g.Copy()
				for i := 1 + r.intn(4); i > 0; i-- {
					d = append(d, d[r.intn(len(d))])
				}
				same("repeated points", freshFitness(polygons, m, block, shuffled(d, r)))
			}
			c.LabelIf(unique, "unique triangulation")
			c.Done(len(distinct(pts)) >= 3 && w*h > 4, "%v, block size %d, %s", m, block, ptsString(pts))
		})
	sub(t, "large", q(80), q(1600),
		"images of up to 13106 pixels a side with up to 120 points and blocks of up to 24 pixels; non-trivial: a shape covers more than one pixel",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			w, h := drawLarge(rt, 250000)
			m := drawImage(rt, w, h, true)
			n := drawCount(rt, "n", 1, 120)
			g, _ := drawNormGroup(rt, n, w, h, "uniform", "border", "cluster", "circle")
			var s scoring
			if polygons {
				s = expectPolygons(g, m)
			} else {
				s = scoreTriangles(scoringTriangles(g, w, h), m)
			}
			block := 1 + r.intn(24)
			if err := s.check(freshFitness(polygons, m, block, g), m, true); err != nil {
				rt.Fatalf("%v, block size %d, %s: %v", m, block, ptsString(scaledAll(g, w, h)), err)
			}
			c.Done(s.pixels > int64(s.covered), "%v, block size %d, %s", m, block, ptsString(scaledAll(g, w, h)))
		})
	sub(t, "megapixels", 16, 160,
		"images of up to 25 million pixels, mostly bright, with few points, so that shapes cover up to all of them; non-trivial: a shape covers more than 1000000 pixels",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			w, h := 1000+r.intn(4000), 1000+r.intn(4000)
			if r.chance(0.3) {
				w, h = min(maxSide, w*2), h/2
			}
			m := &brightImage{madeImage{w, h, r.next(), r.intn(256), r.intn(256)}, uint(r.intn(8))}
			g := normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: 1, Y: 1}}
			if polygons {
				g = g[r.intn(4):]
			}
			if r.chance(0.7) {
				g = append(g, randomGroup(r, r.intn(6))...)
			}
			block := max(w, h) + 1
			if r.chance(0.3) {
				block = 1 + r.intn(3)
			}
			var s scoring
			largest := int64(0)
			shape := func(sum *hugeSum) {
				s.errors += sum.error()
				s.pixels += sum.n
				s.shapes++
				largest = max(largest, sum.n)
			}
			if polygons {
				for _, p := range polygonation.Polygonate(g, w, h) {
					sum := &hugeSum{m: m}
					rasterize.DDAPolygon(p, sum.add)
					shape(sum)
					tick()
				}
			} else {
				area := 0.
				for _, t := range scoringTriangles(g, w, h) {
					sum := &hugeSum{m: m}
					rasterize.DDATriangle(gtri(t, nil), sum.add)
					shape(sum)
					area += math.Abs(float64(orient(t[0], t[1], t[2]))) / 2
					tick()
				}
				s.errors += maxPixelError * (float64(w*h) - area)
			}
			fit := newFunctions(polygons, m, block, 1)[0].Calculate(fitness.PointsData{Points: g.Copy()})
			if err := s.check(fit, &testImage{w: w, h: h}, false); err != nil {
				rt.Fatalf("%dx%d, brightness %d, block size %d, %v: %v", w, h, m.shift, block, g, err)
			}
			c.LabelIf(largest > 7000000, "a shape of more than 7 million pixels")
			c.Done(largest > 1000000, "%dx%d, brightness %d, block size %d, %v", w, h, m.shift, block, g)
		})
	sub(t, "dense", q(80), q(1600),
		"hundreds to thousands of points; non-trivial: a shape covers more than one pixel",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			w, h := 40+r.intn(500), 40+r.intn(500)
			m := drawImage(rt, w, h, true)
			g, kind := drawNormGroup(rt, 200+r.intn(2500), w, h, "uniform", "border", "cluster", "wheel")
			var s scoring
			if polygons {
				s = expectPolygons(g, m)
			} else {
				s = scoreTriangles(scoringTriangles(g, w, h), m)
			}
			block := 1 + r.intn(12)
			if err := s.check(freshFitness(polygons, m, block, g), m, true); err != nil {
				rt.Fatalf("%v, block size %d, %s: %v", m, block, ptsString(scaledAll(g, w, h)), err)
			}
			c.Label("%s", kind)
			c.Done(s.pixels > int64(s.covered), "%v, block size %d, %s", m, block, ptsString(scaledAll(g, w, h)))
		})
	// The largest sums of colours in a block need more bits the larger it is
	regress(t, "large blocks", func(t testing.TB) {
		blocks := []int{16, 17, 18, 149, 150}
		for _, block := range blocks {
			side := 2*block + 2
			m := &testImage{w: side, h: side, pix: make([][3]uint8, side*side)}
			for i := range m.pix {
				m.pix[i] = [3]uint8{255, 255, 255}
			}
			m.pix[0] = [3]uint8{}
			g := normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: 1, Y: 1}}
			var s scoring
			if polygons {
				g = g[:1]
				s = expectPolygons(g, m)
			} else {
				s = scoreTriangles(scoringTriangles(g, side, side), m)
			}
			fit := freshFitness(polygons, m, block, g)
			if err := s.check(fit, m, false); err != nil {
				t.Fatalf("white image, block size %d: %v", block, err)
			}
			tick()
		}
	})
}
