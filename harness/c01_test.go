package harness

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"pgregory.net/rapid"
)

func TestC01(t *testing.T) {
	check := func(rt *rapid.T, c *Case, scope algoScope) {
		a := drawAlgo(rt, scope, true, true)
		steps := scope.steps(rt)
		last := math.Inf(-1)
		first := 0
		improved := 0
		combined := 0
		a.run(rt, steps, func(i int, g generation) {
			if i == 0 {
				first = g.stats.Generation
			}
			if g.stats.Generation != first+i {
				rt.Fatalf("%v: after %d steps the generation is %d (at first %d)", a, i, g.stats.Generation, first)
			}
			if len(g.evals) == 0 {
				rt.Fatalf("%v, generation %d: nothing was evaluated", a, i)
			}
			top := math.Inf(-1)
			own := false
			for _, e := range g.evals {
				top = math.Max(top, e.fitness)
				own = own || (e.fitness == g.stats.BestFitness && sameGroup(e.points, g.best))
			}
			if g.stats.BestFitness != top {
				rt.Fatalf("%v, generation %d: the best fitness is reported as %v, but the highest is %v", a, i, g.stats.BestFitness, top)
			}
			if !own {
				rt.Fatalf("%v, generation %d: the best group %v wasn't evaluated with fitness %v", a, i, g.best, g.stats.BestFitness)
			}
			if a.pure != nil {
				if f := a.pure(g.best); f != g.stats.BestFitness {
					rt.Fatalf("%v, generation %d: the best group has fitness %v, not %v", a, i, f, g.stats.BestFitness)
				}
			}
			slack := 0.
			if a.pure == nil {
				slack = 1e-11 // errors may be added up in another order
			}
			if g.stats.BestFitness < last-slack {
				rt.Fatalf("%v, generation %d: the best fitness fell from %v to %v", a, i, last, g.stats.BestFitness)
			}
			if g.stats.BestFitness > last && i > 0 {
				improved++
			}
			last = g.stats.BestFitness
			if len(g.evals) > a.batch() {
				combined++
			}
		})
		c.LabelIf(a.modified, "modified genetic")
		c.LabelIf(!a.modified, "simple")
		c.LabelIf(a.pure == nil, "stateful functions")
		c.LabelIf(a.pure != nil && !a.distinct, "ties")
		c.LabelIf(combined > 0, "with combined members")
		c.LabelIf(last < 0, "negative best fitness")
		c.Label("%s workers", a.gateMode)
		c.Done(improved > 0, "%v, %d steps", a, steps)
	}
	sub(t, "runs", 4000, 120000,
		"runs of an algorithm of at most 24 members; non-trivial: the best fitness improved in at least one step",
		func(rt *rapid.T, c *Case) { check(rt, c, usual) })
	sub(t, "long", 160, 4000,
		"runs of up to 80 members and 60 steps; non-trivial: the best fitness improved in at least one step",
		func(rt *rapid.T, c *Case) { check(rt, c, longer) })
	sub(t, "generations", 8, 80,
		"runs of tens of thousands of generations of a few members with a point each; all are non-trivial",
		manyGenerations)
	sub(t, "time", 240, 4000,
		"the time reported for a generation, with fitness functions that take a while; all are non-trivial",
		generationTime)
	sub(t, "scopes", 160, 4000, scopesRule,
		func(rt *rapid.T, c *Case) { check(rt, c, drawScope(rt)) })
}

// towardsPlace is the distance of the first point from a place, negated.
type towardsPlace struct{ x, y float64 }

func (f towardsPlace) Calculate(d fitness.PointsData) float64 {
	return -math.Hypot(d.Points[0].X-f.x, d.Points[0].Y-f.y)
}

// manyGenerations lets an algorithm run past the limits of 16-bit counters.
func manyGenerations(rt *rapid.T, c *Case) {
	r := drawRng(rt, "run")
	modified := rapid.Bool().Draw(rt, "modified")
	size := 2 + r.intn(3)
	f := towardsPlace{r.float(), r.float()}
	start := func() normgeom.NormPointGroup { return normgeom.NormPointGroup{{X: r.float(), Y: r.float()}} }
	evaluators := func(n int) evaluator.Evaluator { return evaluator.NewOne(f) }
	rand.Seed(int64(r.next()))
	mutator := mutation.NewRandomMethod(1, 0.001)
	var a algorithm.Algorithm
	if modified {
		a = algorithm.NewModifiedGenetic(start, size+1, 1, evaluators, mutator)
	} else {
		a = algorithm.NewSimple(start, size, 1, evaluators, mutator)
	}
	first, last := a.Stats().Generation, a.Stats().BestFitness
	steps := 66000 + r.intn(10000)
	if r.chance(0.3) {
		steps += 70000
	}
	what := fmt.Sprintf("modified %v, size %d, fitness %v, %d generations", modified, size, f, steps)
	improved := 0
	for i := 1; i <= steps; i++ {
		if i%1000 == 0 {
			tick()
		}
		a.Step()
		s := a.Stats()
		if s.Generation != first+i {
			rt.Fatalf("%s: after %d steps the generation is %d (at first %d)", what, i, s.Generation, first)
		}
		if fit := f.Calculate(fitness.PointsData{Points: a.Best()}); fit != s.BestFitness || fit < last {
			rt.Fatalf("%s: after %d steps the best group has fitness %v, reported is %v, and before it was %v", what, i, fit, s.BestFitness, last)
		}
		if s.BestFitness > last {
			improved++
		}
		last = s.BestFitness
	}
	c.Count("improvements", improved)
	c.Done(true, "%s", what)
}

// slowFunction takes a while.
type slowFunction struct {
	towardsPlace
	wait time.Duration
}

func (f slowFunction) Calculate(d fitness.PointsData) float64 {
	time.Sleep(f.wait)
	return f.towardsPlace.Calculate(d)
}

func generationTime(rt *rapid.T, c *Case) {
	r := drawRng(rt, "run")
	modified := rapid.Bool().Draw(rt, "modified")
	f := slowFunction{towardsPlace{r.float(), r.float()}, time.Duration(r.intn(2000)) * time.Microsecond}
	start := func() normgeom.NormPointGroup { return normgeom.NormPointGroup{{X: r.float(), Y: r.float()}} }
	evaluators := func(n int) evaluator.Evaluator { return evaluator.NewOne(f) }
	rand.Seed(int64(r.next()))
	mutator := mutation.NewRandomMethod(1, 0.1)
	var a algorithm.Algorithm
	if modified {
		a = algorithm.NewModifiedGenetic(start, 4, 1, evaluators, mutator)
	} else {
		a = algorithm.NewSimple(start, 4, 1, evaluators, mutator)
	}
	for i := 1; i <= 4; i++ {
		t := time.Now()
		a.Step()
		took := time.Since(t)
		if s := a.Stats(); s.TimeForGen < f.wait || s.TimeForGen > took {
			rt.Fatalf("modified %v: step %d took %v (each evaluation %v), reported are %v", modified, i, took, f.wait, s.TimeForGen)
		}
		time.Sleep(time.Duration(r.intn(2000)) * time.Microsecond)
	}
	c.Done(true, "modified %v, %v", modified, f.wait)
}
