package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	imageData "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/utils"
	"pgregory.net/rapid"
)

// usage is what a process holds on to.
type usage struct {
	heap       uint64
	goroutines int
	files      int
}

func (u usage) String() string {
	return fmt.Sprintf("%d KiB, %d goroutines, %d files", u.heap>>10, u.goroutines, u.files)
}

// measure measures what is live.
func measure() usage {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // pools are emptied by the second one
	runtime.ReadMemStats(&m)
	fds, _ := os.ReadDir("/proc/self/fd")
	return usage{m.HeapAlloc, runtime.NumGoroutine(), len(fds)}
}

// bounded tells if the growth from one measurement to one after several times the work is only that of buffers,
// which grow with the largest amount held so far.
func bounded(from, to, before usage, held, slack uint64, workers int) error {
	if to.heap > from.heap+held/4+slack {
		return fmt.Errorf("memory grows: %v before, then %v, finally %v", before, from, to)
	}
	if to.goroutines > before.goroutines+workers+8 && to.goroutines > from.goroutines {
		return fmt.Errorf("goroutines are left behind: %v before, then %v, finally %v", before, from, to)
	}
	if to.files > from.files+2 {
		return fmt.Errorf("files are left open: %v before, then %v, finally %v", before, from, to)
	}
	return nil
}

var warm sync.Once

// warmUp makes the runtime allocate the descriptors of many goroutines, which it keeps and reuses: otherwise memory
// would grow with the largest number of goroutines that ever waited for a processor at once.
func warmUp() {
	var wg sync.WaitGroup
	hold := make(chan struct{})
	for i := 0; i < 50000; i++ {
		wg.Add(1)
		go func() {
			<-hold
			wg.Done()
		}()
	}
	close(hold)
	wg.Wait()
}

// grow does some work, and then three times as much. What seems to grow has to grow again when as much work is
// done once more, and once more, as there may be other such high-water marks, which don't keep rising at that rate.
func grow(rt *rapid.T, what string, amount int, slack uint64, workers int, work func(i int)) {
	done := 0
	more := func(n int) usage {
		for i := done; i < done+n; i++ {
			tick()
			work(i)
		}
		done += n
		return measure()
	}
	warm.Do(warmUp)
	before := measure()
	first := more(amount)
	held := first.heap - min(first.heap, before.heap)
	from := first
	var last usage
	for round := 0; ; round++ {
		last = more(3 * amount)
		err := bounded(from, last, before, held, slack, workers)
		for i := 0; i < 20 && err != nil; i++ { // goroutines of workers may take a moment to end
			time.Sleep(50 * time.Millisecond)
			last = measure()
			err = bounded(from, last, before, held, slack, workers)
		}
		if err == nil {
			break
		}
		if round == 2 {
			rt.Fatalf("%s, %d and %d times: %v", what, done-3*amount, done, err)
		}
		from = last
	}
	if os.Getenv("VERIF_GROWTH") != "" {
		fmt.Printf("GROWTH %s: held %d KiB, more %d KiB of %d\n", what, int64(first.heap-before.heap)>>10, (int64(last.heap)-int64(first.heap))>>10, slack>>10)
	}
}

func TestC27(t *testing.T) {
	sub(t, "algorithms", 160, 4800,
		"an algorithm is run for some generations and then for three times as many; non-trivial: it has real fitness functions",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "run")
			modified := rapid.Bool().Draw(rt, "modified")
			kind := pick(rt, "fitness", "points", "triangles", "polygons")
			w, h := 8+r.intn(30), 8+r.intn(30)
			m := drawImage(rt, w, h, false)
			n := 3 + r.intn(20)
			cutoff := 1 + r.intn(3)
			size := 2*cutoff + r.intn(12)
			pow, block := r.intn(8), 1+r.intn(4)
			steps := 150
			if kind == "points" {
				steps = 1500
			}
			desc := fmt.Sprintf("a run with %s fitness (%v), modified %v, %d points, size %d, cutoff %d, cache %d", kind, m, modified, n, size, cutoff, pow)
			seedAll(r.next())
			var algo algorithm.Algorithm
			grow(rt, desc, steps, 64<<10, size, func(i int) {
				if algo == nil {
					f := towards(uint64(w*h + n))
					newEvaluators := func(k int) evaluator.Evaluator {
						if kind == "points" {
							return pureEvaluator(f, []string{"many", "one", "parallel"}[pow%3], pow)(k)
						}
						return evaluator.NewParallel(newFunctions(kind == "polygons", m, block, k), pow)
					}
					newGroup := func() normgeom.NormPointGroup { return generator.RandomGenerator{}.Generate(n) }
					if modified {
						algo = algorithm.NewModifiedGenetic(newGroup, size, cutoff, newEvaluators, mutation.DefaultGaussianMethod(n))
					} else {
						algo = algorithm.NewSimple(newGroup, size, cutoff, newEvaluators, mutation.NewRandomMethod(0.3, 0.5))
					}
				}
				algo.Step()
			})
			runtime.KeepAlive(algo)
			c.Label("%s", kind)
			c.Done(kind != "points", "%s, seed %d", desc, r.s)
		})
	sub(t, "meshes", 96, 4800,
		"points are inserted into, removed from and copied between triangulations and diagrams, about as many staying; non-trivial: at least 10 points",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 200)
			src := drawPointSource(rt, w, h)
			r := drawRng(rt, "history")
			voronoi := rapid.Bool().Draw(rt, "voronoi")
			n := 3 + r.intn(40)
			sets := r.chance(0.5)
			d := [2]*incrdelaunay.Delaunay{incrdelaunay.NewDelaunay(w, h), incrdelaunay.NewDelaunay(w, h)}
			v := [2]*incrdelaunay.IVoronoi{incrdelaunay.NewVoronoi(w, h), incrdelaunay.NewVoronoi(w, h)}
			var pts [2][]ipt
			desc := fmt.Sprintf("%dx%d, about %d %s points, voronoi %v, copies %v", w, h, n, src.kind, voronoi, sets)
			grow(rt, desc, 5000, 32<<10, 0, func(i int) {
				k := r.intn(2)
				if sets && r.chance(0.1) {
					if voronoi {
						v[k].Set(v[1-k])
					} else {
						d[k].Set(d[1-k])
					}
					pts[k] = append(pts[k][:0], pts[1-k]...)
				}
				if len(pts[k]) < n {
					p := src.next()
					if voronoi {
						v[k].Insert(p)
					} else {
						d[k].Insert(p)
					}
					pts[k] = append(pts[k], p)
					return
				}
				for len(pts[k]) > n/2 {
					j := r.intn(len(pts[k]))
					if voronoi {
						v[k].Remove(pts[k][j])
					} else {
						d[k].Remove(pts[k][j])
					}
					pts[k][j] = pts[k][len(pts[k])-1]
					pts[k] = pts[k][:len(pts[k])-1]
				}
			})
			runtime.KeepAlive(d)
			runtime.KeepAlive(v)
			c.LabelIf(voronoi, "diagrams")
			c.Done(n >= 10, "%s", desc)
		})
	sub(t, "functions", 160, 4800,
		"fitness functions are asked about group after group, with and without bases; non-trivial: with bases",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 40)
			m := drawImage(rt, w, h, false)
			r := drawRng(rt, "history")
			polygons, based := rapid.Bool().Draw(rt, "polygons"), rapid.Bool().Draw(rt, "based")
			n := 3 + r.intn(25)
			fs := newFunctions(polygons, m, 1+r.intn(5), 2)
			g := randomGroup(r, n)
			fs[0].Calculate(fitness.PointsData{Points: g})
			fs[1].Calculate(fitness.PointsData{Points: g})
			src := &pointSource{next: func() ipt { return pt(r.intn(w+1), r.intn(h+1)) }}
			desc := fmt.Sprintf("%v, %d points, polygons %v, with bases %v", m, n, polygons, based)
			grow(rt, desc, 150, 64<<10, 0, func(i int) {
				if !based {
					fs[0].Calculate(fitness.PointsData{Points: randomGroup(r, n)})
					return
				}
				next, ms := mutateGroup(r, g, w, h, src)
				fs[1].SetBase(fs[0])
				fs[1].Calculate(fitness.PointsData{Points: next, Mutations: ms})
				fs[0], fs[1] = fs[1], fs[0]
				g = next
			})
			runtime.KeepAlive(fs)
			c.LabelIf(polygons, "polygons")
			c.Done(based, "%s", desc)
		})
	sub(t, "calls", 160, 4800,
		"functions without state are called with ever different inputs and their results dropped; non-trivial: at least 3 points",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 30)
			m := drawImage(rt, w, h, false)
			r := drawRng(rt, "inputs")
			seedAll(r.next())
			n := 1 + r.intn(30)
			kind := pick(rt, "call", "triangles", "polygons", "generators", "images", "functions")
			desc := fmt.Sprintf("%s (%v, %d points)", kind, m, n)
			grow(rt, desc, 60, 64<<10, 0, func(i int) {
				g := randomGroup(r, n)
				switch kind {
				case "triangles":
					ts := triangulation.Triangulate(g, w, h)
					render.TrianglesOnImage(ts, m)
					for _, t := range ts {
						t.ToNorm(w, h)
						rasterize.DDATriangleBlocks(t, 3, func(x0, x1, y int) {}, func(x, y int) {})
					}
				case "polygons":
					ps := polygonation.Polygonate(g, w, h)
					render.PolygonsOnImage(ps, m)
					for _, p := range ps {
						p.ToNorm(w, h)
						rasterize.DDAPolygonBlocks(p, 3, func(x0, x1, y int) {}, func(x, y int) {})
					}
				case "generators":
					a := generator.RandomGenerator{}.Generate(100)
					b := generator.NewSpacedGenerator(30).Generate(100)
					a.Set(b.Copy())
					mutation.DefaultGaussianMethod(100).Mutate(a, func(mutation.Mutation) {})
					mutation.NewRandomMethod(1, 1).Mutate(b, func(mutation.Mutation) {})
				case "images":
					m.pix[r.intn(len(m.pix))] = [3]uint8{uint8(r.next()), uint8(r.next()), uint8(r.next())}
					d := imageData.ToData(m.nrgba(func() uint8 { return uint8(r.next()) }))
					d.RGBAt(0, 0)
					imageData.NewData(w, h)
				case "functions":
					m.pix[r.intn(len(m.pix))] = [3]uint8{uint8(r.next()), uint8(r.next()), uint8(r.next())}
					newFunctions(i%2 == 0, m, 1+i%4, 2)[0].Calculate(fitness.PointsData{Points: g})
				}
			})
			c.Label("%s", kind)
			c.Done(n >= 3, "%s", desc)
		})
	sub(t, "output", 48, 1200,
		"an algorithm is run with file output, and without, for many batches; non-trivial: with file output",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "algo")
			reps := rapid.IntRange(1, 4).Draw(rt, "reps")
			files := rapid.IntRange(0, 2).Draw(rt, "files") > 0
			batches := 60
			dir, err := os.MkdirTemp("", "c27")
			must(err)
			defer os.RemoveAll(dir)
			var at []usage
			s := &stubAlgo{r: r, best: randomGroup(r, 6), fit: 0.5}
			s.before = func(gen int) {
				tick()
				switch gen {
				case 0, batches * reps:
					at = append(at, measure())
				case 4 * batches * reps:
					at = append(at, measure())
				case 7 * batches * reps:
					at = append(at, measure())
					runtime.Goexit()
				}
			}
			var failure interface{}
			warm.Do(warmUp)
			captured(dir, func(func() string) {
				failure = runEndless(func() {
					if files {
						utils.GenerateAlgorithmOutput(filepath.Join(dir, "out"), s, reps)
					} else {
						utils.RunAlgorithm(s, reps)
					}
				})
			})
			if failure != nil || len(at) != 4 {
				rt.Fatalf("%d measurements, %v", len(at), failure)
			}
			held := at[1].heap - min(at[1].heap, at[0].heap)
			if err := bounded(at[1], at[2], at[0], held, 64<<10, 0); err != nil {
				if err := bounded(at[2], at[3], at[0], held, 64<<10, 0); err != nil { // growing further
					rt.Fatalf("output (files %v) every %d generations, %d and %d batches: %v", files, reps, 4*batches, 7*batches, err)
				}
			}
			c.Done(files, "files %v, every %d generations, %d batches, seed %d", files, reps, 7*batches, r.s)
		})
}
