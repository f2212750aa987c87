package harness

import (
	"fmt"
	"testing"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/normgeom"
	"pgregory.net/rapid"
)

func TestC24(t *testing.T) {
	reuse := func(rt *rapid.T, c *Case, w, h int, polygons bool, most int, kinds ...string) {
		m := drawImage(rt, w, h, false)
		block := drawFitBlock(rt, w, h)
		r := drawRng(rt, "groups")
		src := drawPointSource(rt, w, h, kinds...)
		f := newFunctions(polygons, m, block, 1)[0]
		if !polygons && r.chance(0.5) {
			f = fitness.NewTrianglesImageFunction(m, block)
		}
		base := newFunctions(polygons, m, block, 1)[0]
		var asked []normgeom.NormPointGroup
		log := fmt.Sprintf("%v, block size %d:", m, block)
		changes := 0
		var g normgeom.NormPointGroup
		for k := 2 + r.intn(6); k > 0; k-- {
			how := r.intn(6)
			switch {
			case len(asked) == 0 || how == 0: // something else, of any size
				g = nil
				for i := r.intn(most); i > 0; i-- {
					p := src.next()
					g = append(g, normGroup([]ipt{p}, w, h, r)...)
				}
			case how == 1: // asked before
				g = asked[r.intn(len(asked))].Copy()
			case how == 2 && len(g) > 0: // changed in place
				i := r.intn(len(g))
				p := src.next()
				g[i] = normGroup([]ipt{p}, w, h, r)[0]
			case how == 3 && len(g) > 0: // fewer points
				g = g[:r.intn(len(g))]
			case how == 4: // one more
				g = append(g.Copy(), normGroup([]ipt{src.next()}, w, h, r)...)
			}
			// otherwise the same again
			if len(asked) > 0 && r.chance(0.15) { // inherit from another function first
				b := asked[r.intn(len(asked))].Copy()
				if len(b) == 0 {
					b = normGroup([]ipt{src.next(), src.next(), src.next()}, w, h, r)
				}
				base.Calculate(fitness.PointsData{Points: b})
				o, ms := mutateGroup(r, b, w, h, src)
				f.SetBase(base)
				f.Calculate(fitness.PointsData{Points: o, Mutations: ms})
				log += fmt.Sprintf(" (from %s by%s)", ptsString(scaledAll(b, w, h)), mutationsString(ms, w, h))
			}
			fit := f.Calculate(fitness.PointsData{Points: g})
			pts := scaledAll(g, w, h)
			log += " " + ptsString(pts) + ";"
			unique := true
			if !polygons {
				_, unique = uniqueTriangulation(pts, w, h)
			}
			if unique {
				c.LabelIf(len(g) > 500, "more than 500 points, one triangulation")
				if want := freshFitness(polygons, m, block, g); !closeFitness(fit, want) {
					rt.Fatalf("%s fitness %v, but a new function gives %v", log, fit, want)
				}
			}
			if len(asked) > 0 && !sameGroup(asked[len(asked)-1], g) {
				changes++
			}
			asked = append(asked, g.Copy())
		}
		c.Label("%s", src.kind)
		c.Done(changes > 0, "%s", log)
	}
	sub(t, "triangles", 12000, 300000,
		"one triangle function asked about several groups, compared with new functions; non-trivial: two different groups in a row",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 40)
			reuse(rt, c, w, h, false, 14)
		})
	sub(t, "polygons", 8000, 200000,
		"one polygon function asked about several groups, compared with new functions; non-trivial: two different groups in a row",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 40)
			reuse(rt, c, w, h, true, 14)
		})
	sub(t, "large", 160, 4000,
		"the same on images of up to 13106 pixels a side; non-trivial: two different groups in a row",
		func(rt *rapid.T, c *Case) {
			w, h := drawLarge(rt, 60000)
			reuse(rt, c, w, h, rapid.Bool().Draw(rt, "polygons"), 14)
		})
	sub(t, "many points", 80, 2000,
		"the same with up to 1500 points; non-trivial: two different groups in a row",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			w, h := 20+r.intn(300), 20+r.intn(300)
			polygons := rapid.Bool().Draw(rt, "polygons")
			most := 1500
			if polygons { // many times slower
				most = 400
			}
			reuse(rt, c, w, h, polygons, most)
		})
	sub(t, "spread points", 40, 1000,
		"the same with up to 3000 points, most of which have no four on a circle; non-trivial: two different groups in a row",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			reuse(rt, c, 600+r.intn(1000), 600+r.intn(1000), false, 3000, "uniform")
		})
	sub(t, "lookup", 4000, 100000,
		"which function an evaluator hands out for a member; non-trivial: a swap took place",
		func(rt *rapid.T, c *Case) {
			n := rapid.IntRange(1, 12).Draw(rt, "n")
			r := drawRng(rt, "ops")
			if r.chance(0.05) {
				n = 1 + r.intn(1500)
			}
			kind := pick(rt, "evaluator", "one", "many", "parallel")
			var e evaluator.Evaluator
			want := make([]*pureFunction, n)
			made := 0
			mk := func() *pureFunction {
				made++
				v := float64(made)
				return &pureFunction{f: func(normgeom.NormPointGroup) float64 { return v }}
			}
			switch kind {
			case "one":
				f := mk()
				for i := range want {
					want[i] = f
				}
				e = evaluator.NewOne(f)
			case "many":
				i := 0
				e = evaluator.NewMany(func() fitness.Function {
					f := mk()
					if i < n {
						want[i] = f
					}
					i++
					return f
				}, n)
				if made != n {
					rt.Fatalf("%d functions were created for %d members", made, n)
				}
			default:
				var fs []fitness.CacheFunction
				for i := range want {
					want[i] = mk()
					fs = append(fs, want[i])
				}
				e = evaluator.NewParallel(fs, rapid.IntRange(0, 8).Draw(rt, "cache"))
			}
			swaps := 0
			for k := r.intn(20); k >= 0; k-- {
				for i := range want {
					if e.Get(i) != fitness.Function(want[i]) {
						rt.Fatalf("%s evaluator: member %d's function is not the expected one", kind, i)
					}
				}
				i, j := r.intn(n), r.intn(n)
				switch r.intn(4) {
				case 0:
					if i != j {
						want[i].base = nil
						e.SetBase(i, j)
						if kind == "parallel" && want[i].base != fitness.CacheFunction(want[j]) {
							rt.Fatalf("the base of member %d isn't member %d's function", i, j)
						}
					}
				case 1:
					e.Prepare()
					e.Update(i)
				default:
					e.Swap(i, j)
					if kind == "parallel" {
						want[i], want[j] = want[j], want[i]
					}
					if i != j {
						swaps++
					}
				}
			}
			c.Label("%s", kind)
			c.Done(swaps > 0, "%s evaluator for %d members, %d functions, %d swaps, %d", kind, n, made, swaps, r.s)
		})
	equivalence := func(rt *rapid.T, c *Case, scope algoScope) {
		a := drawAlgo(rt, scope, false, false)
		if _, ok := a.mutate.(*jump); ok || a.mutKind[0] == 'b' {
			a.mutate, a.mutKind = mutatorFor(a.n), "default gaussian"
		}
		steps := scope.steps(rt)
		groups := make([]normgeom.NormPointGroup, 0, a.size)
		for i := 0; i < a.size; i++ {
			groups = append(groups, a.newGroup())
		}
		pow := rapid.IntRange(0, 8).Draw(rt, "pow")
		var ref []string
		improved := false
		for _, kind := range []string{"one", "many", "parallel"} {
			b := a
			b.evalKind = kind
			b.newInner = pureEvaluator(a.pure, kind, pow)
			next := 0
			b.newGroup = func() normgeom.NormPointGroup {
				next++
				return groups[(next-1)%len(groups)].Copy()
			}
			var got []string
			last := 0.
			b.run(rt, steps, func(i int, g generation) {
				got = append(got, fmt.Sprint(g.stats.Generation, g.stats.BestFitness, g.best))
				improved = improved || (i > 0 && g.stats.BestFitness > last)
				last = g.stats.BestFitness
			})
			if ref == nil {
				ref = got
			}
			for i := range ref {
				if ref[i] != got[i] {
					rt.Fatalf("%v, generation %d: %s, but %s with the evaluator \"one\"", b, i, got[i], ref[i])
				}
			}
		}
		c.LabelIf(a.modified, "modified genetic")
		c.Done(improved, "%v, %d steps", a, steps)
	}
	sub(t, "equivalence", 1200, 40000,
		"the same run with each evaluator gives the same members in every generation; non-trivial: the best fitness improved",
		func(rt *rapid.T, c *Case) { equivalence(rt, c, usual) })
	sub(t, "equivalence-scopes", 80, 2000, scopesRule,
		func(rt *rapid.T, c *Case) { equivalence(rt, c, drawScope(rt)) })
}
