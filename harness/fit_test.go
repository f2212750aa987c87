package harness

import (
	"fmt"
	"math"

	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/geom"
	imageData "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
)

// maxPixelError is the largest possible squared error of a pixel.
const maxPixelError = 3 * 255 * 255

// shapeSum adds up the pixels a shape covers, in exact integers.
type shapeSum struct {
	m       *testImage
	n       int64
	r, g, b int64
	sq      int64
	outside int
}

func (s *shapeSum) add(x, y int) {
	if x < 0 || y < 0 || x >= s.m.w || y >= s.m.h {
		s.outside++
		return
	}
	p := s.m.at(x, y)
	r, g, b := int64(p[0]), int64(p[1]), int64(p[2])
	s.n++
	s.r += r
	s.g += g
	s.b += b
	s.sq += r*r + g*g + b*b
}

// error is the squared deviation of the pixels from their mean colour.
func (s *shapeSum) error() float64 {
	if s.n == 0 {
		return 0
	}
	// (n*sq - r² - g² - b²) / n, all exact in 64 bits for less than 2^20 pixels
	return float64(s.n*s.sq-s.r*s.r-s.g*s.g-s.b*s.b) / float64(s.n)
}

// scoring is an expected fitness and how much lower the error may be because of rounding.
type scoring struct {
	errors  float64 // sum of all errors, including the blank area's
	pixels  int64   // covered pixels, each of which may be rounded down by a squared level
	covered int     // shapes covering at least one pixel
	shapes  int
	outside int
}

func (s scoring) String() string {
	return fmt.Sprintf("error %v over %d shapes and %d pixels", s.errors, s.shapes, s.pixels)
}

// check decides if a fitness is what was expected.
func (s scoring) check(fit float64, m *testImage, exact bool) error {
	maxError := maxPixelError * float64(m.w*m.h)
	got := (1 - fit) * maxError
	eps := 1e-11 * maxError
	slack := 0.
	if !exact {
		slack = float64(s.pixels)
	}
	if math.IsNaN(fit) || got > s.errors+eps || got < s.errors-slack-eps {
		return fmt.Errorf("fitness %v means an error of %v, expected %v (up to -%v)", fit, got, s, slack)
	}
	if fit > 1+(slack+eps)/maxError {
		return fmt.Errorf("fitness %v is above 1", fit)
	}
	return nil
}

func scoreTriangles(ts []tri3, m *testImage) scoring {
	var s scoring
	area := 0.
	for _, t := range ts {
		sum := &shapeSum{m: m}
		rasterize.DDATriangle(gtri(t, nil), sum.add)
		s.errors += sum.error()
		s.pixels += sum.n
		s.outside += sum.outside
		s.shapes++
		if sum.n > 0 {
			s.covered++
		}
		area += math.Abs(float64(orient(t[0], t[1], t[2]))) / 2
	}
	s.errors += maxPixelError * (float64(m.w*m.h) - area)
	return s
}

func scorePolygons(ps []geom.Polygon, m *testImage) scoring {
	var s scoring
	for _, p := range ps {
		sum := &shapeSum{m: m}
		rasterize.DDAPolygon(p, sum.add)
		s.errors += sum.error()
		s.pixels += sum.n
		s.outside += sum.outside
		s.shapes++
		if sum.n > 0 {
			s.covered++
		}
	}
	return s
}

// scoringTriangles are the triangles a fresh scoring triangulation of the points consists of.
func scoringTriangles(g normgeom.NormPointGroup, w, h int) []tri3 {
	d := incrdelaunay.NewDelaunay(w, h)
	for _, p := range scaledAll(g, w, h) {
		d.Insert(p)
	}
	return triangles(d)
}

// newFunctions returns n functions scoring triangles or polygons.
func newFunctions(polygons bool, m imageData.Data, block, n int) []fitness.CacheFunction {
	if polygons {
		return fitness.PolygonsImageFunctions(m, block, n)
	}
	return fitness.TrianglesImageFunctions(m, block, n)
}

func freshFitness(polygons bool, m *testImage, block int, g normgeom.NormPointGroup) float64 {
	return newFunctions(polygons, m, block, 1)[0].Calculate(fitness.PointsData{Points: g.Copy()})
}

func sortedTris(set map[tri3]bool) []tri3 {
	var ts []tri3
	for t := range set {
		ts = append(ts, t)
	}
	return ts
}

// closeFitness tells if two fitnesses are equal up to the order in which errors were added up.
func closeFitness(a, b float64) bool { return math.Abs(a-b) <= 1e-11 }

func expectPolygons(g normgeom.NormPointGroup, m *testImage) scoring {
	return scorePolygons(polygonation.Polygonate(g, m.w, m.h), m)
}

// shuffled is a permutation of a group.
func shuffled(g normgeom.NormPointGroup, r *rng) normgeom.NormPointGroup {
	o := g.Copy()
	for i := len(o) - 1; i > 0; i-- {
		j := r.intn(i + 1)
		o[i], o[j] = o[j], o[i]
	}
	return o
}
