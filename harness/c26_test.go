package harness

import (
	"fmt"
	"image/color"
	"testing"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	tcolor "github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/geom"
	imageData "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/fogleman/delaunay"
	"pgregory.net/rapid"
)

// kept is a value that was handed out, or that functions are given: it must not change but by the caller.
type kept struct {
	id      int
	kind    string
	snap    func() string
	was     string
	version int
	spoil   func(r *rng) // the caller changes the value

	// how it was made, to make it again
	redo func() string
	from []*kept
	vers []int

	value  interface{}
	packed bool // followed by something else in its array
}

// world is everything kept in one case.
type world struct {
	m    *testImage
	w, h int
	all  []*kept
	log  []string
}

func (s *world) add(kind string, value interface{}, snap func() string, spoil func(r *rng)) *kept {
	k := &kept{id: len(s.all), kind: kind, snap: snap, was: snap(), spoil: spoil, value: value}
	s.all = append(s.all, k)
	return k
}

func (k *kept) made(redo func() string, from ...*kept) *kept {
	k.redo = redo
	k.from = from
	for _, f := range from {
		k.vers = append(k.vers, f.version)
	}
	return k
}

// check tells if anything changed.
func (s *world) check() error {
	for _, k := range s.all {
		if now := k.snap(); now != k.was {
			return fmt.Errorf("after %v, the %s #%d has changed from %s to %s", s.log, k.kind, k.id, k.was, now)
		}
	}
	return nil
}

func (s *world) some(r *rng, kind string) *kept {
	return s.pick(r, func(k *kept) bool { return k.kind == kind })
}

func (s *world) pick(r *rng, suits func(k *kept) bool) *kept {
	var ks []*kept
	for _, k := range s.all {
		if suits(k) {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return nil
	}
	return ks[r.intn(len(ks))]
}

func exactString(vals ...interface{}) string { return fmt.Sprintf("%v", vals) }

func (s *world) group(g normgeom.NormPointGroup) *kept {
	return s.add("group", g, func() string { return exactString(g) }, func(r *rng) {
		for i := range g {
			if r.chance(0.5) {
				g[i] = normgeom.NormPoint{X: r.float(), Y: r.float()}
			}
		}
	})
}

func (s *world) triangles(ts []geom.Triangle) *kept {
	return s.add("triangles", ts, func() string { return exactString(ts) }, func(r *rng) {
		for i := range ts {
			ts[i].Points[r.intn(3)] = geom.Point{X: r.intn(s.w + 1), Y: r.intn(s.h + 1)}
		}
	})
}

func (s *world) polygons(ps []geom.Polygon) *kept {
	return s.add("polygons", ps, func() string { return exactString(ps) }, func(r *rng) {
		for i := range ps {
			if n := len(ps[i].Points); n > 0 {
				ps[i].Points[r.intn(n)] = geom.Point{X: r.intn(s.w + 1), Y: r.intn(s.h + 1)}
			}
		}
	})
}

// sortedForm of triangles or polygons doesn't depend on their order.
func sortedForm(v interface{}) string {
	switch v := v.(type) {
	case []geom.Triangle:
		return canonicalTriangles(v)
	case []geom.Polygon:
		return canonicalPolygons(v)
	}
	return exactString(v)
}

var worldOps = map[string]func(s *world, r *rng) bool{
	"copy": func(s *world, r *rng) bool {
		g := s.some(r, "group")
		c := g.value.(normgeom.NormPointGroup).Copy()
		s.group(c)
		return true
	},
	"set": func(s *world, r *rng) bool {
		a, b := s.some(r, "group"), s.some(r, "group")
		x, y := a.value.(normgeom.NormPointGroup), b.value.(normgeom.NormPointGroup)
		if len(x) != len(y) || a == b {
			return false
		}
		x.Set(y)
		a.was = a.snap()
		a.version++
		return true
	},
	"generate": func(s *world, r *rng) bool {
		n := 1 + r.intn(12)
		if r.chance(0.5) {
			s.group(generator.NewSpacedGenerator(r.intn(20) + 1).Generate(n))
		} else {
			s.group(generator.RandomGenerator{}.Generate(n))
		}
		return true
	},
	"mutate": func(s *world, r *rng) bool {
		k := s.some(r, "group")
		g := k.value.(normgeom.NormPointGroup)
		var ms []mutation.Mutation
		method := newMethod([]string{"gaussian", "random", "default"}[r.intn(3)], r.float(), r.float(), len(g)).method
		method.Mutate(g, func(m mutation.Mutation) { ms = append(ms, m) })
		k.was = k.snap()
		k.version++
		s.add("mutations", ms, func() string { return exactString(ms) }, nil)
		return true
	},
	"triangulate": func(s *world, r *rng) bool {
		k := s.some(r, "group")
		g := k.value.(normgeom.NormPointGroup)
		ts := triangulation.Triangulate(g, s.w, s.h)
		n := s.triangles(ts)
		n.made(func() string { return sortedForm(triangulation.Triangulate(g, s.w, s.h)) }, k)
		return true
	},
	"polygonate": func(s *world, r *rng) bool {
		k := s.some(r, "group")
		g := k.value.(normgeom.NormPointGroup)
		n := s.polygons(polygonation.Polygonate(g, s.w, s.h))
		n.made(func() string { return sortedForm(polygonation.Polygonate(g, s.w, s.h)) }, k)
		return true
	},
	"render triangles": func(s *world, r *rng) bool {
		k, d := s.some(r, "triangles"), s.some(r, "image data")
		if k == nil {
			return false
		}
		ts, m := k.value.([]geom.Triangle), d.value.(imageData.Data)
		ds := render.TrianglesOnImage(ts, m)
		n := s.add("rendered triangles", ds, func() string { return exactString(ds) }, func(r *rng) {
			for i := range ds {
				ds[i].Color = tcolor.RGB{R: r.float()}
				ds[i].Triangle.Points[r.intn(3)].X = r.float()
			}
		})
		n.made(func() string { return exactString(render.TrianglesOnImage(ts, m)) }, k, d)
		return true
	},
	"render polygons": func(s *world, r *rng) bool {
		k, d := s.some(r, "polygons"), s.some(r, "image data")
		if k == nil {
			return false
		}
		ps, m := k.value.([]geom.Polygon), d.value.(imageData.Data)
		ds := render.PolygonsOnImage(ps, m)
		n := s.add("rendered polygons", ds, func() string { return exactString(ds) }, func(r *rng) {
			for i := range ds {
				ds[i].Color = tcolor.RGB{R: r.float()}
				if l := len(ds[i].Polygon.Points); l > 0 {
					ds[i].Polygon.Points[r.intn(l)].X = r.float()
				}
			}
		})
		n.made(func() string { return exactString(render.PolygonsOnImage(ps, m)) }, k, d)
		return true
	},
	// Shapes and groups that lie next to others in one array
	"pack": func(s *world, r *rng) bool {
		if k := s.some(r, "polygons"); k != nil && r.chance(0.5) {
			var all []geom.Point
			var ends []int
			for _, p := range k.value.([]geom.Polygon) {
				all = append(all, p.Points...)
				ends = append(ends, len(all))
			}
			all = append(all, geom.Point{X: r.intn(s.w + 1), Y: r.intn(s.h + 1)})
			ps := make([]geom.Polygon, len(ends), len(ends)+2)
			start := 0
			for i, end := range ends {
				ps[i].Points = all[start:end]
				start = end
			}
			n := s.polygons(ps)
			n.snap = func() string { return exactString(ps[:cap(ps)], all) }
			n.was, n.packed = n.snap(), true
			return true
		}
		if k := s.some(r, "triangles"); k != nil && r.chance(0.3) {
			ts := append(append([]geom.Triangle(nil), k.value.([]geom.Triangle)...), geom.NewTriangle(0, 0, 1, 0, 0, 1))
			n := s.triangles(ts[:len(ts)-1])
			n.snap = func() string { return exactString(ts) }
			n.was, n.packed = n.snap(), true
			return true
		}
		k := s.some(r, "group")
		g := append(k.value.(normgeom.NormPointGroup).Copy(), randomGroup(r, 3)...)
		n := s.group(g[:len(g)-3])
		n.snap = func() string { return exactString(g) }
		n.was, n.packed = n.snap(), true
		return true
	},
	"normalise": func(s *world, r *rng) bool {
		k := s.some(r, "polygons")
		if k == nil {
			return false
		}
		ps := k.value.([]geom.Polygon)
		var out []normgeom.NormPolygon
		for _, p := range ps {
			out = append(out, p.ToNorm(s.w, s.h))
		}
		s.add("normalised polygons", out, func() string { return exactString(out) }, func(r *rng) {
			for i := range out {
				if l := len(out[i].Points); l > 0 {
					out[i].Points[r.intn(l)].Y = r.float()
				}
			}
		})
		return true
	},
	"rasterize": func(s *world, r *rng) bool {
		line, pixel := func(x0, x1, y int) {}, func(x, y int) {}
		block := 1 + r.intn(6)
		if k := s.some(r, "polygons"); k != nil {
			for _, p := range k.value.([]geom.Polygon) {
				rasterize.DDAPolygon(p, pixel)
				rasterize.DDAPolygonBlocks(p, block, line, pixel)
				p.Triangulate(func(geom.Triangle) {})
			}
		}
		if k := s.some(r, "triangles"); k != nil {
			for _, t := range k.value.([]geom.Triangle) {
				rasterize.DDATriangle(t, pixel)
				rasterize.DDATriangleLines(t, line)
				rasterize.DDATriangleBlocks(t, block, line, pixel)
			}
		}
		return true
	},
	"convert": func(s *world, r *rng) bool {
		k := s.some(r, "source image")
		src := k.value.(*testImage)
		n := src.nrgba(func() uint8 { return 255 })
		d := imageData.ToData(n)
		if r.chance(0.5) {
			// The source is the caller's, who goes on to use it for something else
			for i := range n.Pix {
				n.Pix[i] = uint8(r.next())
			}
			n.SetNRGBA(0, 0, color.NRGBA{R: 9, A: 255})
		}
		s.add("image data", imageData.Data(d), func() string { return dataString(d) }, nil)
		return true
	},
	"empty": func(s *world, r *rng) bool {
		d := imageData.NewData(s.w, s.h)
		s.add("image data", imageData.Data(d), func() string { return dataString(d) }, nil)
		return true
	},
	"score": func(s *world, r *rng) bool {
		k, d := s.some(r, "group"), s.some(r, "image data")
		g := k.value.(normgeom.NormPointGroup)
		polygons := r.chance(0.5)
		own := g.Copy()
		block := 1 + r.intn(5)
		f := newFunctions(polygons, d.value.(imageData.Data), block, 1)[0]
		fit := f.Calculate(fitness.PointsData{Points: g})
		n := s.add("fitness function", f, func() string {
			// Built in the same order from the same points, so ambiguity doesn't matter
			if now := f.Calculate(fitness.PointsData{Points: own}); closeFitness(now, fit) {
				return "same"
			} else {
				return fmt.Sprintf("fitness %v instead of %v of %v", now, fit, own)
			}
		}, nil)
		n.made(func() string {
			if now := newFunctions(polygons, d.value.(imageData.Data), block, 1)[0].Calculate(fitness.PointsData{Points: g}); !closeFitness(now, fit) {
				return fmt.Sprintf("fitness %v instead of %v", now, fit)
			}
			return "same"
		}, k, d)
		return true
	},
	"derive": func(s *world, r *rng) bool {
		k, d := s.some(r, "group"), s.some(r, "image data")
		g := k.value.(normgeom.NormPointGroup)
		fs := newFunctions(r.chance(0.5), d.value.(imageData.Data), 1+r.intn(5), 2)
		fs[0].Calculate(fitness.PointsData{Points: g})
		fs[1].Calculate(fitness.PointsData{Points: g})
		src := &pointSource{next: func() incrdelaunay.Point { return pt(r.intn(s.w+1), r.intn(s.h+1)) }}
		next, ms := mutateGroup(r, g, s.w, s.h, src)
		s.group(next)
		s.add("mutations", ms, func() string { return exactString(ms) }, nil)
		fs[1].SetBase(fs[0])
		fs[1].Calculate(fitness.PointsData{Points: next, Mutations: ms})
		return true
	},
	"mesh": func(s *world, r *rng) bool {
		k := s.some(r, "group")
		d := incrdelaunay.NewDelaunay(s.w, s.h)
		v := incrdelaunay.NewVoronoi(s.w, s.h)
		pts := scaledAll(k.value.(normgeom.NormPointGroup), s.w, s.h)
		for _, p := range pts {
			d.Insert(p)
			v.Insert(p)
		}
		s.add("triangulation", d, func() string { return triSet(triangles(d)) + fmt.Sprint(d.NumPoints()) }, func(r *rng) {
			d.Insert(pt(r.intn(s.w+1), r.intn(s.h+1)))
		})
		s.add("diagram", v, func() string { return polySet(v) }, func(r *rng) {
			v.Insert(pt(r.intn(s.w+1), r.intn(s.h+1)))
		})
		return true
	},
	"ask mesh": func(s *world, r *rng) bool {
		k := s.some(r, "triangulation")
		if k == nil {
			return false
		}
		d := k.value.(*incrdelaunay.Delaunay)
		p := pt(r.intn(s.w+1), r.intn(s.h+1))
		d.HasPoint(p)
		d.GetClosestTo(p)
		d.NumPoints()
		incrdelaunay.Voronoi(d, func(ps []incrdelaunay.FloatPoint) {}, s.w, s.h)
		o := incrdelaunay.NewDelaunay(s.w, s.h)
		o.Set(d)
		o.Insert(p)
		if o.NumPoints() > 1 {
			o.Remove(p)
		}
		return true
	},
	"ask diagram": func(s *world, r *rng) bool {
		k := s.some(r, "diagram")
		if k == nil {
			return false
		}
		o := incrdelaunay.NewVoronoi(s.w, s.h)
		o.Set(k.value.(*incrdelaunay.IVoronoi))
		o.Insert(pt(r.intn(s.w+1), r.intn(s.h+1)))
		return true
	},
	"area": func(s *world, r *rng) bool {
		var ps []delaunay.Point
		for i := 0; i < 3+r.intn(6); i++ {
			ps = append(ps, delaunay.Point{X: float64(r.intn(50)), Y: float64(r.intn(50))})
		}
		before := exactString(ps)
		triangulation.Area(ps)
		if exactString(ps) != before {
			s.add("area", nil, func() string { return exactString(ps) }, nil).was = before
		}
		return true
	},
	"run": func(s *world, r *rng) bool {
		d := s.some(r, "image data")
		polygons, modified := r.chance(0.5), r.chance(0.5)
		n := 1 + r.intn(8)
		cutoff := 1 + r.intn(2)
		size := 2*cutoff + r.intn(5)
		seed := r.next()
		p := &panics{}
		start := func() algorithm.Algorithm {
			sr := &rng{seed}
			newGroup := func() normgeom.NormPointGroup { return randomGroup(sr, n) }
			newEvaluators := func(m int) evaluator.Evaluator {
				var e evaluator.Evaluator = pureEvaluator(towards(seed), "many", 0)(m)
				if !modified {
					e = evaluator.NewParallel(newFunctions(polygons, d.value.(imageData.Data), 2, m), 6)
				}
				return &bare{Evaluator: e, delay: "none", panics: p}
			}
			method := &jump{r: &rng{seed + 1}, rate: 0.5, grid: 8}
			if modified {
				return algorithm.NewModifiedGenetic(newGroup, size, cutoff, newEvaluators, method)
			}
			return algorithm.NewSimple(newGroup, size, cutoff, newEvaluators, method)
		}
		// The same run, left alone and with a caller who changes the groups it is given
		a, b := start(), start()
		for i := 0; i < 4; i++ {
			a.Step()
			b.Step()
			x, y := a.Best(), b.Best()
			if !sameGroup(x, y) || a.Stats().BestFitness != b.Stats().BestFitness {
				k := s.add("run", nil, func() string { return "differs" }, nil)
				k.was = fmt.Sprintf("same (step %d, %d points, size %d, cutoff %d: best %v with fitness %v, but %v with %v after the caller changed the group it got)",
					i, n, size, cutoff, x, a.Stats().BestFitness, y, b.Stats().BestFitness)
				return true
			}
			for j := range y {
				y[j] = normgeom.NormPoint{X: r.float(), Y: r.float()}
			}
		}
		if f := p.check(); f != "" {
			s.add("run", nil, func() string { return f }, nil).was = "no panic"
		}
		return true
	},
	"spoil": func(s *world, r *rng) bool {
		k := s.pick(r, func(k *kept) bool { return k.spoil != nil })
		if k == nil {
			return false
		}
		k.spoil(r)
		k.was = k.snap()
		k.version++
		return true
	},
	// Appending to a slice changes nothing that is in use
	"append": func(s *world, r *rng) bool {
		k := s.pick(r, func(k *kept) bool { return k.value != nil && !k.packed })
		if k == nil {
			return false
		}
		switch v := k.value.(type) {
		case normgeom.NormPointGroup:
			_ = append(v, normgeom.NormPoint{X: 0.5, Y: 0.25})
		case []mutation.Mutation:
			_ = append(v, mutation.Mutation{Index: 7})
		case []geom.Triangle:
			_ = append(v, geom.Triangle{})
		case []geom.Polygon:
			_ = append(v, geom.Polygon{})
			for i := range v {
				_ = append(v[i].Points, geom.Point{X: -1, Y: -2})
			}
		case []normgeom.NormPolygon:
			for i := range v {
				_ = append(v[i].Points, normgeom.NormPoint{X: 7})
			}
		case []render.TriangleData:
			_ = append(v, render.TriangleData{})
		case []render.PolygonData:
			_ = append(v, render.PolygonData{})
			for i := range v {
				_ = append(v[i].Polygon.Points, normgeom.NormPoint{X: 7})
			}
		default:
			return false
		}
		return true
	},
	"redo": func(s *world, r *rng) bool {
		k := s.pick(r, func(k *kept) bool {
			for i, f := range k.from {
				if f.version != k.vers[i] {
					return false
				}
			}
			return k.redo != nil && k.version == 0
		})
		if k == nil {
			return false
		}
		was := k.was
		if ts, ok := k.value.([]geom.Triangle); ok {
			was = sortedForm(ts)
		} else if ps, ok := k.value.([]geom.Polygon); ok {
			was = sortedForm(ps)
		}
		if now := k.redo(); now != was {
			s.add("repetition", nil, func() string { return now }, nil).was = was + " (the first time)"
		}
		return true
	},
}

// dataString is a digest of image data.
func dataString(d imageData.Data) string {
	w, h := d.Size()
	r := &rng{uint64(w*10007 + h)}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := d.RGBAt(x, y)
			r.s ^= uint64(c.R*255+0.5)<<32 | uint64(c.G*255+0.5)<<16 | uint64(c.B*255+0.5)
			r.s = r.next()
		}
	}
	return fmt.Sprintf("%dx%d #%016x", w, h, r.next())
}

func TestC26(t *testing.T) {
	var kinds []string
	for k := range worldOps {
		kinds = append(kinds, k)
	}
	sortedStrings(kinds)
	prop := func(maxDim, maxPoints, maxOps int) func(rt *rapid.T, c *Case) {
		return func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, maxDim)
			s := &world{m: drawImage(rt, w, h, false), w: w, h: h}
			s.add("source image", s.m, func() string { return s.m.String() }, nil)
			s.add("image data", imageData.Data(s.m), func() string { return s.m.String() }, func(r *rng) {
				for i := range s.m.pix {
					if r.chance(0.3) {
						s.m.pix[i] = [3]uint8{uint8(r.next()), uint8(r.next()), uint8(r.next())}
					}
				}
				s.all[0].was = s.m.String()
			})
			n := drawCount(rt, "n", 1, maxPoints)
			g, _ := drawNormGroup(rt, n, w, h)
			s.group(g)
			r := drawRng(rt, "ops")
			seedAll(r.next())
			count := rapid.IntRange(2, maxOps).Draw(rt, "count")
			spoiled := false
			for i := 0; i < count; i++ {
				op := kinds[r.intn(len(kinds))]
				if r.chance(0.2) {
					op = []string{"spoil", "redo"}[r.intn(2)]
				}
				tick()
				s.log = append(s.log, op)
				if !worldOps[op](s, r) {
					s.log = s.log[:len(s.log)-1]
					continue
				}
				c.Label("%s", op)
				spoiled = spoiled || op == "spoil"
				if err := s.check(); err != nil {
					rt.Fatalf("%v", err)
				}
			}
			c.Done(spoiled, "%v, %d points, %v", s.m, n, s.log)
		}
	}
	sub(t, "values", 24000, 500000,
		"sequences of calls whose inputs and results are kept, changed by the caller now and then, and asked for again; non-trivial: the caller changed a value",
		prop(24, 20, 45))
	sub(t, "large", 1200, 20000,
		"larger images and groups; non-trivial: as above",
		prop(200, 300, 30))
}
