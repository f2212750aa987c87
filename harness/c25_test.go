package harness

import (
	"fmt"
	"image"
	"math"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/geom"
	imageData "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"pgregory.net/rapid"
)

// shared is what tasks running at the same time may read.
type sharedInputs struct {
	m      *testImage
	src    image.Image
	data   imageData.RGBData
	groups []normgeom.NormPointGroup
	source *pointSource
	tris   []geom.Triangle
	polys  []geom.Polygon

	tri, poly   []fitness.CacheFunction // one per task
	triB, polyB fitness.CacheFunction   // evaluated for groups[0], a base for others
	d           *incrdelaunay.Delaunay
	v           *incrdelaunay.IVoronoi
	pts         []incrdelaunay.Point // held by d and v
}

// task is some work whose result is a function of its inputs.
type task struct {
	kind string
	run  func() string
}

func fingerprint(vals ...interface{}) string {
	s := fmt.Sprintf("%v", vals)
	if len(s) > 300 {
		r := &rng{uint64(len(s))}
		for _, b := range []byte(s) {
			r.s = (r.s ^ uint64(b)) * 0x100000001b3
		}
		s = fmt.Sprintf("%s...#%016x", s[:60], r.next())
	}
	return s
}

// canonicalTriangles and canonicalPolygons don't depend on the order of shapes.
func canonicalTriangles(ts []geom.Triangle) string {
	var all []tri3
	for _, t := range ts {
		p := t.Points
		all = append(all, mkTri(pt(p[0].X, p[0].Y), pt(p[1].X, p[1].Y), pt(p[2].X, p[2].Y)))
	}
	return triSet(all)
}

func canonicalPolygons(ps []geom.Polygon) string {
	var s []string
	for _, p := range ps {
		s = append(s, ring(p.Points))
	}
	return sortedStrings(s)
}

// tasks with shared inputs; k is the number of the task.
var taskKinds = map[string]func(in *sharedInputs, k int, s uint64) string{
	"triangulate": func(in *sharedInputs, k int, s uint64) string {
		return canonicalTriangles(triangulation.Triangulate(in.groups[s%uint64(len(in.groups))], in.m.w, in.m.h))
	},
	"polygonate": func(in *sharedInputs, k int, s uint64) string {
		return canonicalPolygons(polygonation.Polygonate(in.groups[s%uint64(len(in.groups))], in.m.w, in.m.h))
	},
	"render triangles": func(in *sharedInputs, k int, s uint64) string {
		return fingerprint(render.TrianglesOnImage(in.tris, in.data))
	},
	"render polygons": func(in *sharedInputs, k int, s uint64) string {
		return fingerprint(render.PolygonsOnImage(in.polys, in.data))
	},
	"rasterize": func(in *sharedInputs, k int, s uint64) string {
		var sum int
		block := 1 + int(s%7)
		add := func(x, y int) { sum += (x*131 + y + 7) % 1009 }
		for _, t := range in.tris {
			rasterize.DDATriangle(t, add)
			rasterize.DDATriangleLines(t, func(x0, x1, y int) { sum += (x0*31+x1*17+y)%997 + (x1 - x0) })
			rasterize.DDATriangleBlocks(t, block, func(x0, x1, y int) { sum += x1 - x0 }, func(x, y int) { sum += block * block })
		}
		for _, p := range in.polys {
			rasterize.DDAPolygon(p, add)
			rasterize.DDAPolygonBlocks(p, block, func(x0, x1, y int) { sum += x1 - x0 }, func(x, y int) { sum += block * block })
		}
		return fmt.Sprint(sum)
	},
	"convert": func(in *sharedInputs, k int, s uint64) string {
		d := imageData.ToData(in.src)
		w, h := d.Size()
		r := &rng{s}
		out := fmt.Sprint(w, h)
		for i := 0; i < 20; i++ {
			out += fmt.Sprint(d.RGBAt(r.intn(w), r.intn(h)))
		}
		return out
	},
	"own triangle functions": func(in *sharedInputs, k int, s uint64) string { return ownFunctions(in, false, s) },
	"own polygon functions":  func(in *sharedInputs, k int, s uint64) string { return ownFunctions(in, true, s) },
	"one triangle function of a set": func(in *sharedInputs, k int, s uint64) string {
		return derive(in, in.tri[k], in.triB, s)
	},
	"one polygon function of a set": func(in *sharedInputs, k int, s uint64) string {
		return derive(in, in.poly[k], in.polyB, s)
	},
	"triangulation": func(in *sharedInputs, k int, s uint64) string {
		r := &rng{s}
		d := incrdelaunay.NewDelaunay(in.m.w, in.m.h)
		var pts []incrdelaunay.Point
		if r.chance(0.5) && in.d != nil {
			d.Set(in.d)
			pts = append(pts, in.pts...)
		}
		editPoints(r, pts, in, func(p incrdelaunay.Point) { d.Insert(p) }, d.Remove)
		d.IterTriangles(func(incrdelaunay.Triangle) {})
		return triSet(triangles(d))
	},
	"diagram": func(in *sharedInputs, k int, s uint64) string {
		r := &rng{s}
		v := incrdelaunay.NewVoronoi(in.m.w, in.m.h)
		var pts []incrdelaunay.Point
		if r.chance(0.5) && in.v != nil {
			v.Set(in.v)
			pts = append(pts, in.pts...)
		}
		editPoints(r, pts, in, v.Insert, v.Remove)
		return polySet(v)
	},
	"algorithm": func(in *sharedInputs, k int, s uint64) string {
		r := &rng{s}
		p := &panics{}
		n := len(in.groups[0])
		cutoff := 1 + r.intn(3)
		size := 2*cutoff + r.intn(8)
		sr := &rng{r.next()}
		newGroup := func() normgeom.NormPointGroup { return randomGroup(sr, n) }
		method := &jump{r: &rng{r.next()}, rate: 1.5 / float64(n), grid: 8}
		kind := r.intn(3)
		f := towards(r.next())
		block, pow := 1+r.intn(4), r.intn(8)
		newEvaluators := func(m int) evaluator.Evaluator {
			var e evaluator.Evaluator
			if kind == 0 {
				e = pureEvaluator(f, "many", 0)(m)
			} else {
				e = evaluator.NewParallel(newFunctions(kind == 1, in.m, block, m), pow)
			}
			return &bare{Evaluator: e, delay: "none", panics: p}
		}
		var algo algorithm.Algorithm
		if kind == 0 && r.chance(0.7) {
			algo = algorithm.NewModifiedGenetic(newGroup, size, cutoff, newEvaluators, method)
		} else {
			algo = algorithm.NewSimple(newGroup, size, cutoff, newEvaluators, method)
		}
		out := ""
		for i := 0; i < 4; i++ {
			algo.Step()
			out += fmt.Sprint(algo.Stats().Generation, algo.Stats().BestFitness, groupHash(algo.Best()), ";")
		}
		return out + p.check()
	},
	"generate": func(in *sharedInputs, k int, s uint64) string {
		n := 1 + int(s%40)
		a := generator.RandomGenerator{}.Generate(n)
		b := generator.NewSpacedGenerator(20).Generate(n)
		mutation.NewRandomMethod(1, 0.5).Mutate(a, func(m mutation.Mutation) {
			if m.New != a[m.Index] {
				a = nil
			}
		})
		return fmt.Sprint(len(a) == n, len(b) == n, inUnitSquare(a), inUnitSquare(b))
	},
	"normalise": func(in *sharedInputs, k int, s uint64) string {
		var out []interface{}
		for _, t := range in.tris {
			out = append(out, t.ToNorm(in.m.w, in.m.h))
		}
		for _, p := range in.polys {
			out = append(out, p.ToNorm(in.m.w, in.m.h))
		}
		g := in.groups[0].Copy()
		g.Set(in.groups[0])
		return fingerprint(out, g)
	},
}

func ownFunctions(in *sharedInputs, polygons bool, s uint64) string {
	r := &rng{s}
	fs := newFunctions(polygons, in.m, 1+r.intn(6), 2)
	g := in.groups[r.intn(len(in.groups))]
	out := fmt.Sprint(fs[0].Calculate(fitness.PointsData{Points: g}))
	fs[0].SetCache(make([]fitness.CacheData, 64))
	for i := 0; i < 3; i++ {
		next, ms := mutateGroup(r, g, in.m.w, in.m.h, &pointSource{next: func() incrdelaunay.Point { return in.pts[r.intn(len(in.pts))] }})
		fs[1].SetBase(fs[0])
		out += fmt.Sprint(" ", fs[1].Calculate(fitness.PointsData{Points: next, Mutations: ms}))
		fs[0], fs[1] = fs[1], fs[0]
		g = next
	}
	return out
}

// derive evaluates a mutated group with the base shared by all tasks.
func derive(in *sharedInputs, f, base fitness.CacheFunction, s uint64) string {
	r := &rng{s}
	next, ms := mutateGroup(r, in.groups[0], in.m.w, in.m.h, &pointSource{next: func() incrdelaunay.Point { return in.pts[r.intn(len(in.pts))] }})
	// The function has to have been used before for its base to matter
	f.Calculate(fitness.PointsData{Points: in.groups[1]})
	f.SetBase(base)
	a := f.Calculate(fitness.PointsData{Points: next, Mutations: ms})
	b := f.Calculate(fitness.PointsData{Points: in.groups[1]})
	return fmt.Sprint(a, b)
}

// editPoints inserts and removes points.
func editPoints(r *rng, pts []incrdelaunay.Point, in *sharedInputs, insert, remove func(incrdelaunay.Point)) {
	for i := 0; i < 25; i++ {
		if len(pts) > 0 && r.chance(0.45) {
			k := r.intn(len(pts))
			remove(pts[k])
			pts[k] = pts[len(pts)-1]
			pts = pts[:len(pts)-1]
			continue
		}
		p := in.pts[r.intn(len(in.pts))]
		if r.chance(0.6) {
			p = pt(r.intn(in.m.w+1), r.intn(in.m.h+1))
		}
		insert(p)
		pts = append(pts, p)
	}
}

func sortedKinds() []string {
	var ks []string
	for k := range taskKinds {
		ks = append(ks, k)
	}
	return strings.Split(sortedStrings(ks), "\n")
}

func drawShared(rt *rapid.T, tasks, maxDim, maxPoints int) *sharedInputs {
	w, h := drawSize(rt, maxDim)
	in := &sharedInputs{m: drawImage(rt, w, h, false)}
	in.src = in.m.nrgba(func() uint8 { return 255 })
	in.data = imageData.ToData(in.src)
	r := drawRng(rt, "shared")
	n := drawCount(rt, "n", 3, maxPoints)
	for i := 0; i < 3; i++ {
		g, _ := drawNormGroup(rt, n, w, h)
		in.groups = append(in.groups, g)
	}
	in.tris = triangulation.Triangulate(in.groups[1], w, h)
	in.polys = polygonation.Polygonate(in.groups[2], w, h)
	block := 1 + r.intn(6)
	in.tri = newFunctions(false, in.m, block, tasks+1)
	in.poly = newFunctions(true, in.m, block, tasks+1)
	in.triB, in.polyB = in.tri[tasks], in.poly[tasks]
	cache := make([]fitness.CacheData, 256)
	for _, f := range []fitness.CacheFunction{in.triB, in.polyB} {
		f.Calculate(fitness.PointsData{Points: in.groups[0]})
	}
	if r.chance(0.5) {
		// As an evaluator does: a cache of the last generation that all functions read
		for _, d := range in.triB.Cache() {
			d.SetCachedHash(uint32(d.Hash() & 255))
			cache[d.CachedHash()] = d
		}
		for _, f := range in.tri {
			f.SetCache(cache)
		}
	}
	in.pts = scaledAll(in.groups[0], w, h)
	in.d = incrdelaunay.NewDelaunay(w, h)
	in.v = incrdelaunay.NewVoronoi(w, h)
	for _, p := range in.pts {
		in.d.Insert(p)
		in.v.Insert(p)
	}
	return in
}

func TestC25(t *testing.T) {
	prop := func(maxDim, maxPoints, maxTasks int) func(rt *rapid.T, c *Case) {
		kinds := sortedKinds()
		return func(rt *rapid.T, c *Case) {
			count := rapid.IntRange(2, maxTasks).Draw(rt, "tasks")
			in := drawShared(rt, count, maxDim, maxPoints)
			r := drawRng(rt, "tasks")
			same := r.chance(0.4) // all of one kind
			var tasks []task
			kind := kinds[r.intn(len(kinds))]
			for k := 0; k < count; k++ {
				k, s := k, r.next()
				if !same {
					kind = kinds[r.intn(len(kinds))]
				}
				f := taskKinds[kind]
				tasks = append(tasks, task{kind, func() (out string) {
					defer func() {
						if p := recover(); p != nil {
							out = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
						}
					}()
					return f(in, k, s)
				}})
				c.Label("%s", kind)
			}
			procs := 2 + r.intn(7)
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
			together := func() []string {
				out := make([]string, count)
				var wg sync.WaitGroup
				start := make(chan struct{})
				for k := range tasks {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						out[k] = tasks[k].run()
					}()
				}
				close(start)
				wg.Wait()
				tick()
				return out
			}
			// First together, so that whatever is set up on first use is set up by several at once
			first := together()
			var alone []string
			for _, t := range tasks {
				alone = append(alone, t.run())
			}
			second := together()
			for k, t := range tasks {
				if strings.Contains(alone[k], "panic: ") || strings.Contains(first[k], "panic: ") || strings.Contains(second[k], "panic: ") {
					rt.Fatalf("%v: task %d (%s) alone: %s; with others: %s; again: %s", in.m, k, t.kind, alone[k], first[k], second[k])
				}
				for _, o := range [][]string{first, second} {
					if o[k] != alone[k] && !closeNumbers(o[k], alone[k]) {
						rt.Fatalf("%v: task %d (%s) of %d gives %s alone, but %s while the others run", in.m, k, t.kind, count, alone[k], o[k])
					}
				}
			}
			c.LabelIf(same, "all of one kind")
			c.Done(count >= 3, "%v, %d points, %d tasks, first %s, %d processors", in.m, len(in.groups[0]), count, tasks[0].kind, procs)
		}
	}
	sub(t, "tasks", 1400, 60000,
		"two to eight pieces of work sharing read-only inputs, run at the same time and alone (race detector on); non-trivial: at least three",
		prop(40, 40, 8))
	sub(t, "large", 80, 2400,
		"larger images and groups, up to 24 at the same time; non-trivial: as above",
		prop(300, 400, 24))
	sub(t, "cold", 240, 6000,
		"new processes, in which several goroutines are the first to use each part of the code (race detector on); every case is non-trivial",
		coldProperty)
}

// closeNumbers tells if two results are the same fitnesses up to the order in which errors were added up.
func closeNumbers(a, b string) bool {
	x, y := strings.Fields(a), strings.Fields(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		var p, q float64
		if _, err := fmt.Sscanf(x[i], "%g", &p); err != nil {
			return false
		}
		if _, err := fmt.Sscanf(y[i], "%g", &q); err != nil {
			return false
		}
		if math.Abs(p-q) > 1e-11 {
			return false
		}
	}
	return len(x) > 0
}
