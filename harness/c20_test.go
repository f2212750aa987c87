package harness

import (
	"fmt"
	"runtime"
	"testing"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/normgeom"
	"pgregory.net/rapid"
)

// trajectory is what an algorithm reported after each generation.
type trajectory struct {
	fits []float64
	best []normgeom.NormPointGroup
}

// bareRun runs an algorithm under a schedule.
func bareRun(rt *rapid.T, a algoConfig, groups []normgeom.NormPointGroup, steps, procs int, delay string, s uint64) trajectory {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	seedAll(a.rngSeed)
	p := &panics{}
	next := 0
	newGroup := func() normgeom.NormPointGroup {
		next++
		return groups[(next-1)%len(groups)].Copy()
	}
	newEvaluators := func(n int) evaluator.Evaluator {
		return &bare{Evaluator: a.newInner(n), delay: delay, seed: s, panics: p}
	}
	var algo algorithm.Algorithm
	if a.modified {
		algo = algorithm.NewModifiedGenetic(newGroup, a.size, a.cutoff, newEvaluators, a.mutate)
	} else {
		algo = algorithm.NewSimple(newGroup, a.size, a.cutoff, newEvaluators, a.mutate)
	}
	var tr trajectory
	for i := 0; ; i++ {
		tick()
		if f := p.check(); f != "" {
			rt.Fatalf("%v, generation %d, %d processors, delay %s: %s", a, i, procs, delay, f)
		}
		tr.fits = append(tr.fits, algo.Stats().BestFitness)
		tr.best = append(tr.best, algo.Best().Copy())
		if i == steps {
			return tr
		}
		algo.Step()
	}
}

func TestC20(t *testing.T) {
	// draw draws a configuration whose mutations depend on the random package only, so that runs can be repeated.
	draw := func(rt *rapid.T, scope algoScope, real bool) (algoConfig, []normgeom.NormPointGroup) {
		a := drawAlgo(rt, scope, !real, false)
		for a.modified && !real && !a.distinct {
			a.modified = false
		}
		switch a.mutate.(type) {
		case *jump, *backwards:
			a.mutate, a.mutKind = mutatorFor(a.n), "default gaussian"
		}
		if real {
			r := drawRng(rt, "image")
			w, h := 3+r.intn(30), 3+r.intn(30)
			m := drawImage(rt, w, h, false)
			block := 1 + r.intn(6)
			polygons := rapid.Bool().Draw(rt, "polygons")
			pow := rapid.IntRange(0, 10).Draw(rt, "pow")
			many := rapid.IntRange(0, 3).Draw(rt, "many") == 0
			a.pure = nil
			a.fitKind = fmt.Sprintf("triangles (%v, block size %d, cache %d)", m, block, pow)
			a.evalKind = "parallel"
			if polygons {
				a.fitKind = "polygons" + a.fitKind[9:]
			}
			if many {
				a.evalKind = "many"
			}
			a.newInner = func(n int) evaluator.Evaluator {
				fs := newFunctions(polygons, m, block, n)
				if many {
					i := 0
					return evaluator.NewMany(func() fitness.Function {
						i++
						return fs[i-1]
					}, n)
				}
				return evaluator.NewParallel(fs, pow)
			}
		}
		var groups []normgeom.NormPointGroup
		for i := 0; i < a.size; i++ {
			groups = append(groups, a.newGroup())
		}
		return a, groups
	}
	compare := func(rt *rapid.T, c *Case, a algoConfig, groups []normgeom.NormPointGroup, steps, schedules int, exact bool) {
		r := drawRng(rt, "schedules")
		var ref trajectory
		for k := 0; k < schedules; k++ {
			procs := []int{1, 2, 4, 8, 3}[r.intn(5)]
			delay := delays[r.intn(len(delays))]
			if k == 0 {
				procs, delay = 1, "none"
			}
			tr := bareRun(rt, a, groups, steps, procs, delay, r.next())
			c.Label("delay: %s", delay)
			c.Label("processors: %d", procs)
			if k == 0 {
				ref = tr
				continue
			}
			if !exact {
				continue
			}
			for i := range ref.fits {
				if tr.fits[i] != ref.fits[i] || !sameGroup(tr.best[i], ref.best[i]) {
					rt.Fatalf("%v: generation %d has best fitness %v and group %v with 1 processor, but %v and %v with %d processors and delay %q",
						a, i, ref.fits[i], ref.best[i], tr.fits[i], tr.best[i], procs, delay)
				}
			}
		}
		c.LabelIf(a.modified, "modified genetic")
		c.Label("evaluator %s", a.evalKind)
		c.Done(ref.fits[steps] > ref.fits[0], "%v, %d steps", a, steps)
	}
	sub(t, "synthetic", 800, 24000,
		"runs with a fitness depending only on the points, under several schedules (race detector on); non-trivial: the best fitness improved",
		func(rt *rapid.T, c *Case) {
			a, groups := draw(rt, usual, false)
			compare(rt, c, a, groups, rapid.IntRange(1, 8).Draw(rt, "steps"), 3, true)
		})
	sub(t, "simple", 480, 16000,
		"runs of the simple algorithm with triangle and polygon fitness under several schedules (race detector on); non-trivial: the best fitness improved",
		func(rt *rapid.T, c *Case) {
			a, groups := draw(rt, usual, true)
			a.modified = false
			compare(rt, c, a, groups, rapid.IntRange(1, 8).Draw(rt, "steps"), 3, true)
		})
	sub(t, "races", 480, 16000,
		"runs of the modified algorithm with triangle and polygon fitness under several schedules, observed by the race detector only; non-trivial: the best fitness improved",
		func(rt *rapid.T, c *Case) {
			a, groups := draw(rt, usual, true)
			a.modified = true
			if a.size < 2*a.cutoff {
				a.cutoff = 1
				if a.size < 2 {
					a.size = 2
				}
			}
			compare(rt, c, a, groups, rapid.IntRange(1, 12).Draw(rt, "steps"), 2, false)
		})
	sub(t, "long", 160, 4000,
		"longer runs of the simple algorithm with triangle and polygon fitness under two schedules (race detector on); non-trivial: the best fitness improved",
		func(rt *rapid.T, c *Case) {
			a, groups := draw(rt, upTo(12), true)
			a.modified = false
			compare(rt, c, a, groups, rapid.IntRange(8, 30).Draw(rt, "steps"), 2, true)
		})
	sub(t, "thousands", 8, 160,
		"a few members of thousands of points with triangle fitness under two schedules (race detector on); non-trivial: the best fitness improved",
		func(rt *rapid.T, c *Case) {
			a, _ := draw(rt, algoScope{3, 5, 2, 2200, 3300, 1, 2}, true)
			r := drawRng(rt, "thousands")
			w, h := 150+r.intn(150), 150+r.intn(150)
			m := drawImage(rt, w, h, false)
			block, pow := 1+r.intn(6), r.intn(16)
			a.evalKind, a.fitKind = "parallel", fmt.Sprintf("triangles (%v, block size %d, cache %d)", m, block, pow)
			a.newInner = func(n int) evaluator.Evaluator {
				return evaluator.NewParallel(newFunctions(false, m, block, n), pow)
			}
			var groups []normgeom.NormPointGroup
			for i := 0; i < a.size; i++ {
				groups = append(groups, randomGroup(r, a.n))
			}
			compare(rt, c, a, groups, rapid.IntRange(2, 4).Draw(rt, "steps"), 2, !a.modified)
		})
	sub(t, "scopes", 80, 2000, scopesRule,
		func(rt *rapid.T, c *Case) {
			scope := drawScope(rt)
			real := rapid.Bool().Draw(rt, "real")
			if real {
				scope.minSteps, scope.maxSteps = min(scope.minSteps, 30), min(scope.maxSteps, 100)
				scope.maxSize = min(scope.maxSize, 300)
			}
			a, groups := draw(rt, scope, real)
			if real {
				a.modified = false
			}
			compare(rt, c, a, groups, scope.steps(rt), 2, true)
		})
}
