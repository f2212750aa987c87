package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"pgregory.net/rapid"
)

func TestC04(t *testing.T) { incrementalProperties(t, false) }
func TestC05(t *testing.T) { incrementalProperties(t, true) }

// member is the model of what a fitness function was last asked about.
type member struct {
	points normgeom.NormPointGroup // nil if it was never asked
	fit    float64
}

// mutateGroup mutates a copy of a group in one of several ways and returns the mutations.
func mutateGroup(r *rng, base normgeom.NormPointGroup, w, h int, src *pointSource) (normgeom.NormPointGroup, []mutation.Mutation) {
	g := base.Copy()
	var ms []mutation.Mutation
	count := 1 + r.intn(3)
	if r.chance(0.1) {
		count = 1 + r.intn(len(g))
	}
	if r.chance(0.05) {
		count = 0
	}
	perm := make([]int, len(g))
	for i := range perm {
		perm[i] = i
	}
	for i := len(perm) - 1; i > 0; i-- {
		j := r.intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	inside := func(p normgeom.NormPoint) normgeom.NormPoint {
		return normgeom.NormPoint{X: clamp01(p.X), Y: clamp01(p.Y)}
	}
	for k := 0; k < min(count, len(g)); k++ {
		i := perm[k]
		old := base[i]
		var p normgeom.NormPoint
		switch r.intn(8) {
		case 0: // to another member of the group's place
			p = base[r.intn(len(base))]
		case 1: // a pixel along one axis
			p = old
			d := float64(r.intn(3) - 1)
			if r.chance(0.5) {
				p.X += d / float64(w)
			} else {
				p.Y += d / float64(h)
			}
		case 2: // within its pixel, mostly
			p = old
			p.X += (r.float() - 0.5) * 0.5 / float64(w)
			p.Y += (r.float() - 0.5) * 0.5 / float64(h)
		case 3: // anywhere
			p = normgeom.NormPoint{X: r.float(), Y: r.float()}
		case 4: // far beyond the border, constrained
			p = normgeom.NormPoint{X: old.X + (r.float()-0.5)*3, Y: old.Y + (r.float()-0.5)*3}
		case 5: // nearby
			p = normgeom.NormPoint{X: old.X + (r.float()-0.5)*0.2, Y: old.Y + (r.float()-0.5)*0.2}
		case 6:
			p = old
		default:
			q := src.next()
			p = normgeom.NormPoint{X: float64(q.X) / float64(w), Y: float64(q.Y) / float64(h)}
		}
		p = inside(p)
		g[i] = p
		ms = append(ms, mutation.Mutation{Old: old, New: p, Index: i})
	}
	return g, ms
}

func mutationsString(ms []mutation.Mutation, w, h int) string {
	s := ""
	for _, m := range ms {
		s += fmt.Sprintf(" %v->%v", scaled(m.Old, w, h), scaled(m.New, w, h))
	}
	return s
}

func incrementalProperties(t *testing.T, polygons bool) {
	// check runs generations of members through fitness functions, with the calls an algorithm makes: bases are
	// evaluated unchanged, others are derived from them, some after the bases were evaluated; then members are swapped.
	check := func(rt *rapid.T, c *Case, w, h, maxPoints, maxGens int, kinds ...string) {
		m := drawImage(rt, w, h, false)
		block := drawFitBlock(rt, w, h)
		n := drawCount(rt, "n", 1, maxPoints)
		src := drawPointSource(rt, w, h, kinds...)
		size := rapid.IntRange(2, 7).Draw(rt, "members")
		pow := rapid.IntRange(0, 9).Draw(rt, "cache")
		gens := rapid.IntRange(1, maxGens).Draw(rt, "generations")
		r := drawRng(rt, "history")
		if r.chance(0.03) { // much larger
			pow = 10 + r.intn(10)
		}
		if maxPoints < 20 && r.chance(0.005) {
			gens = 50 + r.intn(250)
		}
		if maxPoints > 200 {
			n = 100 + r.intn(maxPoints-100)
		}
		cached := rapid.IntRange(0, 5).Draw(rt, "cached") > 0

		fs := newFunctions(polygons, m, block, size)
		par := evaluator.NewParallel(fs, pow)
		members := make([]member, size)
		group := func() normgeom.NormPointGroup {
			var pts []ipt
			for i := 0; i < n; i++ {
				pts = append(pts, src.next())
			}
			return normGroup(pts, w, h, r)
		}
		log := fmt.Sprintf("%v, block size %d, cache %d (%v)", m, block, pow, cached)
		derived, checked, again := 0, 0, 0
		eval := func(i int, g normgeom.NormPointGroup, ms []mutation.Mutation, reevaluation bool) {
			fit := par.Get(i).Calculate(fitness.PointsData{Points: g, Mutations: ms})
			if reevaluation {
				if !closeFitness(fit, members[i].fit) {
					rt.Fatalf("%s\nthe unchanged member %d had fitness %v, now %v", log, i, members[i].fit, fit)
				}
				again++
			}
			pts := scaledAll(g, w, h)
			unique := true
			if !polygons {
				_, unique = uniqueTriangulation(pts, w, h)
			}
			if unique {
				if want := freshFitness(polygons, m, block, g); !closeFitness(fit, want) {
					rt.Fatalf("%s\nfitness %v, but a new function gives %v for %s", log, fit, want, ptsString(pts))
				}
				checked++
				if len(ms) > 0 {
					derived++
				}
			} else if math.IsNaN(fit) || math.IsInf(fit, 0) {
				rt.Fatalf("%s\nfitness %v", log, fit)
			}
			members[i] = member{g, fit}
		}
		for gen := 0; gen < gens; gen++ {
			log += fmt.Sprintf("\ngeneration %d:", gen)
			// Roles of this generation
			var bases, evaluated []int
			role := make([]int, size) // 0 base, 1 derived, 2 derived late, 3 not evaluated
			for i := range role {
				role[i] = r.intn(4)
				if members[i].points == nil {
					role[i] = 1 + r.intn(2) // starts anew if there's no base
				}
			}
			if gen == 0 {
				for i := range role {
					role[i] = 1
				}
			}
			for i := range role {
				if (role[i] == 0 || role[i] == 3) && members[i].points != nil {
					bases = append(bases, i)
				}
			}
			derive := func(i int) (normgeom.NormPointGroup, []mutation.Mutation) {
				if len(bases) == 0 || (members[i].points == nil && r.chance(0.3)) {
					if members[i].points != nil {
						return nil, nil
					}
					g := group()
					log += fmt.Sprintf(" %d starts at %s;", i, ptsString(scaledAll(g, w, h)))
					return g, nil
				}
				b := bases[r.intn(len(bases))]
				if members[i].points != nil && r.chance(0.1) {
					b = i // changed from what it was itself
				}
				par.SetBase(i, b)
				g, ms := mutateGroup(r, members[b].points, w, h, src)
				log += fmt.Sprintf(" %d from %d with%s;", i, b, mutationsString(ms, w, h))
				return g, ms
			}
			type job struct {
				g  normgeom.NormPointGroup
				ms []mutation.Mutation
			}
			jobs := make([]job, size)
			for i := range role {
				if role[i] == 1 {
					g, ms := derive(i)
					jobs[i] = job{g, ms}
				}
			}
			order := make([]int, size)
			for i := range order {
				order[i] = i
				j := r.intn(i + 1)
				order[i], order[j] = order[j], order[i]
			}
			for _, i := range order {
				if role[i] == 0 {
					log += fmt.Sprintf(" %d again;", i)
					eval(i, members[i].points, nil, true)
					evaluated = append(evaluated, i)
				} else if role[i] == 1 && jobs[i].g != nil {
					log += fmt.Sprintf(" evaluate %d;", i)
					eval(i, jobs[i].g, jobs[i].ms, false)
					evaluated = append(evaluated, i)
				}
			}
			if cached {
				par.Prepare()
				for _, i := range evaluated {
					par.Update(i)
				}
			}
			for _, i := range order {
				if role[i] == 2 {
					if g, ms := derive(i); g != nil {
						eval(i, g, ms, false)
						if cached {
							par.Update(i)
						}
					}
				}
			}
			for k := r.intn(size); k > 0; k-- {
				i, j := r.intn(size), r.intn(size)
				par.Swap(i, j)
				members[i], members[j] = members[j], members[i]
				log += fmt.Sprintf(" swap %d %d;", i, j)
			}
		}
		c.Label("%s", src.kind)
		c.LabelIf(cached, "shared cache")
		c.Count("evaluations compared", checked)
		c.Count("with mutations", derived)
		c.Count("re-evaluations", again)
		c.Done(derived > 0, "%s", log)
	}
	sub(t, "history", 8000, 240000,
		"generations of derived, unchanged and swapped members over fitness functions, compared with new functions; non-trivial: a member derived with mutations was compared",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 40)
			check(rt, c, w, h, 16, 9)
		})
	sub(t, "large", 400, 12000,
		"larger images, groups and histories; non-trivial: as above",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 90)
			check(rt, c, w, h, 80, 25)
		})
	sub(t, "wide", 160, 5000,
		"images of up to 13106 pixels a side; non-trivial: as above",
		func(rt *rapid.T, c *Case) {
			w, h := drawLarge(rt, 60000)
			check(rt, c, w, h, 40, 9)
		})
	sub(t, "dense", 80, 2500,
		"hundreds of points; non-trivial: as above",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			check(rt, c, 100+r.intn(600), 100+r.intn(600), 500, 6, "uniform", "uniform", "cluster", "border", "wheel")
		})
	sub(t, "thousands", 16, 480,
		"thousands of points, unchanged members evaluated again and members derived, compared with new functions where the triangulation is unique; non-trivial: a member derived with mutations",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			w, h := 200+r.intn(1200), 200+r.intn(1200)
			n := 1500 + r.intn(3500)
			if polygons { // many times slower
				n = 500 + r.intn(1000)
			}
			m := drawImage(rt, w, h, false)
			src := drawPointSource(rt, w, h, "uniform", "uniform", "cluster", "border")
			pow := rapid.IntRange(0, 16).Draw(rt, "cache")
			size := 2 + r.intn(2)
			block := drawFitBlock(rt, w, h)
			par := evaluator.NewParallel(newFunctions(polygons, m, block, size), pow)
			members := make([]member, size)
			log := fmt.Sprintf("%dx%d %s, %d points, block size %d, cache %d:", w, h, src.kind, n, block, pow)
			derived := 0
			eval := func(i int, g normgeom.NormPointGroup, ms []mutation.Mutation) {
				tick()
				fit := par.Get(i).Calculate(fitness.PointsData{Points: g, Mutations: ms})
				if len(ms) == 0 && members[i].points != nil && !closeFitness(fit, members[i].fit) {
					rt.Fatalf("%s\nthe unchanged member %d had fitness %v, now %v", log, i, members[i].fit, fit)
				}
				members[i] = member{g, fit}
			}
			var pts []ipt
			for i := 0; i < n; i++ {
				pts = append(pts, src.next())
			}
			// The shared cache is used for all evaluations or for none, as the algorithms do.
			cached := r.chance(0.7)
			update := func(i int) {
				if cached {
					if r.chance(0.5) {
						par.Prepare()
					}
					par.Update(i)
				}
			}
			eval(0, normGroup(pts, w, h, r), nil)
			update(0)
			for k := 3 + r.intn(4); k > 0; k-- {
				b := r.intn(size)
				for members[b].points == nil {
					b = r.intn(size)
				}
				i := r.intn(size)
				if r.chance(0.1) {
					i = b // changed from what it was itself
				} else if i == b || r.chance(0.4) {
					i = -1
				}
				if i < 0 {
					log += fmt.Sprintf(" %d again;", b)
					eval(b, members[b].points, nil)
					i = b
				} else {
					par.SetBase(i, b)
					g, ms := mutateGroup(r, members[b].points, w, h, src)
					if len(ms) == 0 {
						members[i] = members[b] // an unchanged copy
					}
					log += fmt.Sprintf(" %d from %d with %d mutations;", i, b, len(ms))
					eval(i, g, ms)
					derived += min(len(ms), 1)
				}
				update(i)
			}
			for i, x := range members {
				if x.points == nil {
					continue
				}
				unique := polygons
				if !polygons {
					_, unique = uniqueTriangulation(scaledAll(x.points, w, h), w, h)
				}
				if unique {
					if want := freshFitness(polygons, m, block, x.points); !closeFitness(x.fit, want) {
						rt.Fatalf("%s\nmember %d has fitness %v, but a new function gives %v", log, i, x.fit, want)
					}
					c.Count("compared with a new function", 1)
				}
			}
			c.Label("%s", src.kind)
			c.LabelIf(cached, "shared cache")
			c.Done(derived > 0, "%s", log)
		})
	sub(t, "entry", 800, 32000,
		"groups in which one point was nudged, each scored with a cache holding a single shape of the group before; non-trivial: one of the shapes is still there, another one isn't",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "group")
			w, h := 20+r.intn(180), 20+r.intn(180)
			m := drawImage(rt, w, h, false)
			block := drawFitBlock(rt, w, h)
			// Hubs amid rings of points: vertices and cells with many neighbours.
			var pts []ipt
			for hubs := 1 + r.intn(2); hubs > 0; hubs-- {
				rad := 4 + r.float()*float64(min(w, h))*0.45
				cx, cy := r.intn(w), r.intn(h)
				if hubs == 1 {
					cx, cy = w/4+r.intn(w/2+1), h/4+r.intn(h/2+1)
				}
				jit := r.float() * 3
				pts = append(pts, pt(cx, cy))
				for k, n := 0, 5+r.intn(30); k < n; k++ {
					a := (float64(k) + r.float()*0.3) / float64(n) * 2 * math.Pi
					d := rad + jit*(r.float()-0.5)
					pts = append(pts, pt(clampInt(cx+int(math.Round(d*math.Cos(a))), 0, w), clampInt(cy+int(math.Round(d*math.Sin(a))), 0, h)))
				}
			}
			for k := r.intn(6); k > 0; k-- {
				pts = append(pts, pt(r.intn(w+1), r.intn(h+1)))
			}
			base := normGroup(pts, w, h, r)
			fs := newFunctions(polygons, m, block, 1)
			fs[0].Calculate(fitness.PointsData{Points: base})
			entries := append([]fitness.CacheData(nil), fs[0].Cache()...)
			hits, misses := 0, 0
			for k := 1 + r.intn(3); k > 0; k-- {
				g := base.Copy()
				i := r.intn(len(g))
				axis := r.intn(3)
				d := float64(1+r.intn(3)) * float64(1-2*r.intn(2))
				if axis != 1 {
					g[i].X = clamp01(g[i].X + d/float64(w))
				}
				if axis != 0 {
					g[i].Y = clamp01(g[i].Y + d/float64(h))
				}
				if !polygons {
					if _, unique := uniqueTriangulation(scaledAll(g, w, h), w, h); !unique {
						continue
					}
				}
				tick()
				want := freshFitness(polygons, m, block, g)
				fns := newFunctions(polygons, m, block, len(entries))
				for j, d := range entries {
					fns[j].SetCache([]fitness.CacheData{d})
					fit := fns[j].Calculate(fitness.PointsData{Points: g})
					if !closeFitness(fit, want) {
						rt.Fatalf("%v, block size %d, base %s, then %s: fitness %v with shape %d of the base cached, but a new function gives %v",
							m, block, ptsString(scaledAll(base, w, h)), ptsString(scaledAll(g, w, h)), fit, j, want)
					}
					hit := false
					for _, e := range fns[j].Cache() {
						hit = hit || e.Equals(d)
					}
					if hit {
						hits++
					} else {
						misses++
					}
				}
			}
			c.Count("shapes used from the cache", hits)
			c.Count("shapes not used", misses)
			c.Done(hits > 0 && misses > 0, "%v, block size %d, base %s: %d shapes used, %d not", m, block, ptsString(scaledAll(base, w, h)), hits, misses)
		})
	sub(t, "algorithm", 400, 12000,
		"runs of both algorithms with caching functions, each evaluation compared with a new function's; non-trivial: a member derived with mutations was compared",
		func(rt *rapid.T, c *Case) {
			a := drawAlgo(rt, usual, false, false)
			r := drawRng(rt, "image")
			w, h := 3+r.intn(60), 3+r.intn(60)
			m := drawImage(rt, w, h, false)
			block := drawFitBlock(rt, w, h)
			pow := rapid.IntRange(0, 12).Draw(rt, "pow")
			a.pure = nil
			a.fitKind = fmt.Sprintf("real (%v, block size %d, cache %d)", m, block, pow)
			a.newInner = func(n int) evaluator.Evaluator {
				return evaluator.NewParallel(newFunctions(polygons, m, block, n), pow)
			}
			steps := rapid.IntRange(1, 12).Draw(rt, "steps")
			derived := 0
			a.run(rt, steps, func(i int, g generation) {
				for k, e := range g.evals {
					if k%3 != i%3 {
						continue
					}
					if !polygons {
						if _, unique := uniqueTriangulation(scaledAll(e.points, w, h), w, h); !unique {
							continue
						}
					}
					if want := freshFitness(polygons, m, block, e.points); !closeFitness(e.fitness, want) {
						rt.Fatalf("%v, generation %d: fitness %v, but a new function gives %v for %s", a, i, e.fitness, want, ptsString(scaledAll(e.points, w, h)))
					}
					if len(e.muts) > 0 {
						derived++
					}
				}
			})
			c.Count("with mutations", derived)
			c.Done(derived > 0, "%v, %d steps", a, steps)
		})
}
