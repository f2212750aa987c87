package harness

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"runtime"
	"testing"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	tcolor "github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/generator"
	imageData "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/utils"
	"pgregory.net/rapid"
)

// nrgba turns an image into one of the standard library, partly transparent or not.
func (m *testImage) nrgba(alpha func() uint8) *image.NRGBA {
	o := image.NewNRGBA(image.Rect(0, 0, m.w, m.h))
	for y := 0; y < m.h; y++ {
		for x := 0; x < m.w; x++ {
			p := m.at(x, y)
			o.SetNRGBA(x, y, color.NRGBA{R: p[0], G: p[1], B: p[2], A: alpha()})
		}
	}
	return o
}

// options is a drawn configuration of a whole run.
type options struct {
	m            *testImage
	transparent  bool
	polygons     bool
	modified     bool
	n            int
	size, cutoff int
	block, pow   int
	procs        int
	generator    string
	newGroup     func() normgeom.NormPointGroup
	mutator      string
	mutate       mutation.Method
	seed         uint64
}

func (o options) String() string {
	kind, shape := "simple", "triangles"
	if o.modified {
		kind = "modified genetic"
	}
	if o.polygons {
		shape = "polygons"
	}
	return fmt.Sprintf("%v (transparent: %v), %s, %s algorithm, %d points, size %d, cutoff %d, block size %d, cache %d, %d threads, %s generator, %s mutations, seed %d",
		o.m, o.transparent, shape, kind, o.n, o.size, o.cutoff, o.block, o.pow, o.procs, o.generator, o.mutator, o.seed)
}

// checkRendered checks what the best group of a run is rendered to.
func checkRendered(rt *rapid.T, o fmt.Stringer, g normgeom.NormPointGroup, d imageData.Data) (shapes int) {
	w, h := d.Size()
	coord := func(p normgeom.NormPoint, what string) {
		if !(p.X >= 0 && p.X <= 1 && p.Y >= 0 && p.Y <= 1) {
			rt.Fatalf("%v: %s has vertex %v", o, what, p)
		}
	}
	colour := func(c tcolor.RGB, what string) {
		for _, v := range []float64{c.R, c.G, c.B} {
			if !(v >= 0 && v <= 1) {
				rt.Fatalf("%v: %s has colour %v", o, what, c)
			}
		}
	}
	inImage := func(x, y int, what string) {
		if x < 0 || y < 0 || x >= w || y >= h {
			rt.Fatalf("%v: %s covers pixel (%d, %d)", o, what, x, y)
		}
	}
	ts := triangulation.Triangulate(g, w, h)
	for _, t := range render.TrianglesOnImage(ts, d) {
		for _, p := range t.Triangle.Points {
			coord(p, "a triangle")
		}
		colour(t.Color, "a triangle")
	}
	owner := make([]int32, w*h)
	for i, t := range ts {
		rasterize.DDATriangle(t, func(x, y int) {
			inImage(x, y, "a triangle")
			if owner[y*w+x] != 0 {
				rt.Fatalf("%v: two rendered triangles cover pixel (%d, %d)", o, x, y)
			}
			owner[y*w+x] = int32(i + 1)
		})
	}
	ps := polygonation.Polygonate(g, w, h)
	if len(ps) == 0 {
		rt.Fatalf("%v: no polygons", o)
	}
	for _, p := range render.PolygonsOnImage(ps, d) {
		for _, q := range p.Polygon.Points {
			coord(q, "a polygon")
		}
		colour(p.Color, "a polygon")
	}
	covered := make([]bool, w*h)
	for _, p := range ps {
		rasterize.DDAPolygon(p, func(x, y int) {
			inImage(x, y, "a polygon")
			covered[y*w+x] = true
		})
	}
	for i, ok := range covered {
		if !ok {
			rt.Fatalf("%v: no polygon covers pixel (%d, %d)\n%s", o, i%w, i/w, ptsString(scaledAll(g, w, h)))
		}
	}
	return len(ts) + len(ps)
}

// pipeline runs an algorithm from the image to the rendered shapes.
func pipeline(rt *rapid.T, c *Case, o options, steps, checks int) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(o.procs))
	seedAll(o.seed)
	r := &rng{o.seed}
	var d imageData.Data = imageData.ToData(o.m.nrgba(func() uint8 {
		if o.transparent {
			return uint8(r.next())
		}
		return 255
	}))
	p := &panics{}
	newEvaluators := func(n int) evaluator.Evaluator {
		return &bare{Evaluator: evaluator.NewParallel(newFunctions(o.polygons, d, o.block, n), o.pow), delay: "none", panics: p}
	}
	var algo algorithm.Algorithm
	if o.modified {
		algo = algorithm.NewModifiedGenetic(o.newGroup, o.size, o.cutoff, newEvaluators, o.mutate)
	} else {
		algo = algorithm.NewSimple(o.newGroup, o.size, o.cutoff, newEvaluators, o.mutate)
	}
	shapes := 0
	first := algo.Stats().BestFitness
	for i := 0; i <= steps; i++ {
		if i > 0 {
			algo.Step()
		}
		tick()
		if f := p.check(); f != "" {
			rt.Fatalf("%v, generation %d: %s", o, i, f)
		}
		g, s := algo.Best(), algo.Stats()
		if len(g) != o.n {
			rt.Fatalf("%v, generation %d: the best group has %d points", o, i, len(g))
		}
		for _, q := range g {
			if !(q.X >= 0 && q.X <= 1 && q.Y >= 0 && q.Y <= 1) {
				rt.Fatalf("%v, generation %d: the best group has point %v", o, i, q)
			}
		}
		if s.Generation != i || math.IsNaN(s.BestFitness) || math.IsInf(s.BestFitness, 0) || s.TimeForGen < 0 {
			rt.Fatalf("%v, generation %d: statistics %+v", o, i, s)
		}
		if i == steps || i%max(1, steps/checks) == 0 {
			shapes = checkRendered(rt, o, g.Copy(), d)
		}
	}
	shape := "triangles"
	if o.polygons {
		shape = "polygons"
	}
	c.Label("%s", shape)
	c.Label("%s generator", o.generator)
	c.LabelIf(o.modified, "modified genetic")
	c.LabelIf(o.m.w*o.m.h <= 4, "at most 4 pixels")
	c.LabelIf(o.n < 3, "fewer than 3 points")
	c.LabelIf(o.block > o.m.w || o.block > o.m.h, "block larger than image")
	c.LabelIf(o.pow == 0, "cache with one entry")
	c.Done(algo.Stats().BestFitness > first && shapes > 0, "%v, %d steps", o, steps)
}

func drawOptions(rt *rapid.T, maxDim, maxPoints, maxSize int) options {
	var o options
	w, h := drawSize(rt, maxDim)
	o.m = drawImage(rt, w, h, false)
	o.transparent = rapid.IntRange(0, 5).Draw(rt, "transparent") == 0
	o.polygons = rapid.Bool().Draw(rt, "polygons")
	o.modified = rapid.Bool().Draw(rt, "modified")
	o.n = drawCount(rt, "n", 1, maxPoints)
	o.cutoff = rapid.IntRange(1, max(1, min(6, maxSize/2))).Draw(rt, "cutoff")
	lo := o.cutoff
	if o.modified {
		lo = 2 * o.cutoff
	}
	o.size = rapid.IntRange(lo, max(lo, maxSize)).Draw(rt, "size")
	o.block = drawFitBlock(rt, w, h)
	o.pow = rapid.IntRange(0, 14).Draw(rt, "cache")
	o.procs = rapid.IntRange(1, 8).Draw(rt, "threads")
	r := drawRng(rt, "options")
	o.seed = r.next() >> 1
	o.generator = pick(rt, "generator", "random", "spaced", "adversarial")
	switch o.generator {
	case "random":
		o.newGroup = func() normgeom.NormPointGroup { return generator.RandomGenerator{}.Generate(o.n) }
	case "spaced":
		its := pick(rt, "iterations", 0, 1, 20, 200)
		o.newGroup = func() normgeom.NormPointGroup { return generator.NewSpacedGenerator(its).Generate(o.n) }
	default:
		src := drawPointSource(rt, w, h)
		n := o.n
		o.newGroup = func() normgeom.NormPointGroup {
			var pts []ipt
			for i := 0; i < n; i++ {
				pts = append(pts, src.next())
			}
			return normGroup(pts, w, h, r)
		}
	}
	o.mutate, o.mutator = drawMutator(rt, o.n)
	return o
}

func TestC23(t *testing.T) {
	sub(t, "runs", 2400, 80000,
		"whole runs with arbitrary options, rendered in between and at the end; non-trivial: the best fitness improved and something was rendered",
		func(rt *rapid.T, c *Case) {
			o := drawOptions(rt, 40, 30, 24)
			pipeline(rt, c, o, rapid.IntRange(0, 8).Draw(rt, "steps"), 2)
		})
	sub(t, "tiny images", 2400, 80000,
		"whole runs on images of a few pixels; non-trivial: the best fitness improved and something was rendered",
		func(rt *rapid.T, c *Case) {
			o := drawOptions(rt, 5, 12, 16)
			pipeline(rt, c, o, rapid.IntRange(0, 12).Draw(rt, "steps"), 3)
		})
	sub(t, "long", 80, 2400,
		"longer runs; non-trivial: the best fitness improved and something was rendered",
		func(rt *rapid.T, c *Case) {
			o := drawOptions(rt, 60, 40, 16)
			pipeline(rt, c, o, rapid.IntRange(40, 150).Draw(rt, "steps"), 4)
		})
	sub(t, "endless", 24, 800,
		"hundreds to thousands of steps; non-trivial: the best fitness improved and something was rendered",
		func(rt *rapid.T, c *Case) {
			o := drawOptions(rt, 20, 12, 10)
			r := drawRng(rt, "steps")
			pipeline(rt, c, o, 300+r.intn(1500), 5)
		})
	sub(t, "populous", 32, 1000,
		"populations of hundreds; non-trivial: the best fitness improved and something was rendered",
		func(rt *rapid.T, c *Case) {
			o := drawOptions(rt, 20, 12, 10)
			r := drawRng(rt, "size")
			o.size = 20 + r.intn(1200)
			o.cutoff = 1 + r.intn(o.size/2)
			pipeline(rt, c, o, 1+r.intn(3), 1)
		})
	dims := func(n int) int {
		if thorough {
			return 2 * n
		}
		return n
	}
	sub(t, "large", 16, 160,
		"runs on images of up to 1500 pixels (thorough: 3000) with up to 1500 (3000) points; non-trivial: the best fitness improved and something was rendered",
		func(rt *rapid.T, c *Case) {
			o := drawOptions(rt, 10, 10, 6)
			r := drawRng(rt, "large")
			w, h := 100+r.intn(dims(1400)), 100+r.intn(dims(1400))
			o.m = drawImage(rt, w, h, false)
			o.n = 100 + r.intn(dims(1400))
			n := o.n
			o.block = 2 + r.intn(8)
			o.generator = "random"
			o.newGroup = func() normgeom.NormPointGroup { return generator.RandomGenerator{}.Generate(n) }
			o.mutate, o.mutator = mutatorFor(n), "default"
			pipeline(rt, c, o, 3, 1)
		})
	sub(t, "documented", 16, 160,
		"the documented options (population 400, cutoff 5, cache 22) and the default algorithm; non-trivial: something was rendered",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "options")
			w, h := 1+r.intn(120), 1+r.intn(120)
			m := drawImage(rt, w, h, false)
			n := 1 + r.intn(300)
			if rapid.Bool().Draw(rt, "default") {
				seedAll(r.next() >> 1)
				img := m.nrgba(func() uint8 { return 255 })
				algo := utils.DefaultAlgorithm(n, img)
				o := options{m: m, n: n, generator: "default", mutator: "default"}
				last := algo.Stats().BestFitness
				for i := 0; i < 3; i++ {
					algo.Step()
					tick()
					s := algo.Stats()
					if s.Generation != i+1 || !(s.BestFitness >= last) || len(algo.Best()) != n {
						rt.Fatalf("%v: the default algorithm has %+v and %d points after %d steps", o, s, len(algo.Best()), i+1)
					}
					last = s.BestFitness
				}
				c.Label("default algorithm")
				c.Done(checkRendered(rt, o, algo.Best(), imageData.ToData(img)) > 0, "default algorithm, %d points, %v", n, m)
				return
			}
			o := options{m: m, n: n, polygons: r.chance(0.5), modified: true, size: 400, cutoff: 5, block: 5, pow: 22, procs: 8,
				generator: "random", mutator: "documented", mutate: mutation.NewGaussianMethod(0.01, 0.3), seed: r.next() >> 1}
			o.newGroup = func() normgeom.NormPointGroup { return generator.RandomGenerator{}.Generate(n) }
			pipeline(rt, c, o, 3, 1)
		})
	regress(t, "one pixel, one point", func(t testing.TB) {
		g := normgeom.NormPointGroup{{X: 0.5, Y: 0.5}}
		ps := polygonation.Polygonate(g, 1, 1)
		n := 0
		for _, p := range ps {
			rasterize.DDAPolygon(p, func(x, y int) { n++ })
		}
		if len(ps) != 1 || n != 1 {
			t.Fatalf("a single pixel is covered %d times by %v", n, ps)
		}
		if ts := triangulation.Triangulate(g, 1, 1); len(ts) != 0 {
			t.Fatalf("triangles %v of one point", ts)
		}
	})
}
