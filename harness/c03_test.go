package harness

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"pgregory.net/rapid"
)

func groupKey(g normgeom.NormPointGroup) string { return fmt.Sprint(len(g), groupHash(g)) }

// sameMultiset compares groups regardless of their order.
func sameMultiset(a, b []normgeom.NormPointGroup) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, g := range a {
		n[groupKey(g)]++
	}
	for _, g := range b {
		n[groupKey(g)]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

// family is a survivor with its mutants and its combined member, if any.
type family struct {
	survivor *evalRec
	derived  []*evalRec // in order of start
	mutants  []*evalRec
	combined *evalRec
}

// isCombination tells if a group is a survivor with every point changed by an improving mutant taken from
// the fittest mutant that changed it.
func isCombination(g normgeom.NormPointGroup, s *evalRec, mutants []*evalRec) error {
	type cand struct {
		fit float64
		at  []normgeom.NormPoint
	}
	want := map[int]*cand{}
	for _, m := range mutants {
		if !(m.fitness > s.fitness) {
			continue
		}
		for _, mu := range m.muts {
			c := want[mu.Index]
			if c == nil || m.fitness > c.fit {
				c = &cand{fit: m.fitness}
				want[mu.Index] = c
			}
			if m.fitness == c.fit {
				c.at = append(c.at, mu.New)
			}
		}
	}
	if len(g) != len(s.points) {
		return fmt.Errorf("it has %d points", len(g))
	}
	for i, p := range g {
		c := want[i]
		if c == nil {
			if p != s.points[i] {
				return fmt.Errorf("point %d is %v, but should have stayed at %v", i, p, s.points[i])
			}
			continue
		}
		ok := false
		for _, q := range c.at {
			ok = ok || p == q
		}
		if !ok {
			return fmt.Errorf("point %d is %v, but the fittest mutant that changed it has %v", i, p, c.at)
		}
	}
	return nil
}

// checkGeneration decides if a generation follows from the previous one: see property C03.
// It returns how many combined members there were and how many points two mutants competed for.
func checkGeneration(a algoConfig, prev, cur generation) (combined, contested int, err error) {
	fits := func(es []*evalRec) []float64 {
		var f []float64
		for _, e := range es {
			f = append(f, e.fitness)
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(f)))
		return f
	}
	// Survivors: the top of the previous generation, unchanged
	var survivors []*evalRec
	fam := map[*slotFn]*family{}
	for _, e := range cur.evals {
		if e.base == nil {
			survivors = append(survivors, e)
			fam[e.fn] = &family{survivor: e}
		}
	}
	if len(survivors) != a.cutoff {
		return 0, 0, fmt.Errorf("%d members survived, not %d", len(survivors), a.cutoff)
	}
	top := fits(prev.evals)[:a.cutoff]
	left := map[string]int{}
	for _, e := range prev.evals {
		left[groupKey(e.points)]++
	}
	for _, s := range survivors {
		k := groupKey(s.points)
		if left[k] == 0 {
			return 0, 0, fmt.Errorf("survivor %v wasn't in the last generation (that often)", s.points)
		}
		left[k]--
	}
	for i, f := range fits(survivors) {
		// Stateful functions may add the same errors up in another order when asked again
		if f != top[i] && (a.pure != nil || math.Abs(f-top[i]) > 1e-11) {
			return 0, 0, fmt.Errorf("the survivors' fitnesses are %v, but the highest were %v", fits(survivors), top)
		}
	}
	// The others are derived from the survivors
	evals := append([]*evalRec(nil), cur.evals...)
	sort.Slice(evals, func(i, j int) bool { return evals[i].started < evals[j].started })
	for _, e := range evals {
		if e.base == nil {
			continue
		}
		f := fam[e.base]
		if f == nil {
			return 0, 0, fmt.Errorf("a member is derived from one that didn't survive")
		}
		f.derived = append(f.derived, e)
	}
	total := 0
	lo, hi := 1<<30, 0
	var mutants []normgeom.NormPointGroup
	for _, f := range fam {
		f.mutants = f.derived
		if n := len(f.derived); a.modified && n > 0 {
			improving := func(es []*evalRec) bool {
				for _, e := range es {
					if e.fitness > f.survivor.fitness {
						return true
					}
				}
				return false
			}
			if improving(f.derived[:n-1]) {
				f.mutants, f.combined = f.derived[:n-1], f.derived[n-1]
				for _, m := range f.mutants {
					if m.ended > f.combined.started {
						return 0, 0, fmt.Errorf("mutants of %v improve it, but they weren't combined", f.survivor.points)
					}
				}
				if err := isCombination(f.combined.points, f.survivor, f.mutants); err != nil {
					return 0, 0, fmt.Errorf("survivor %v with fitness %v: combined member %v: %v\nmutants: %s",
						f.survivor.points, f.survivor.fitness, f.combined.points, err, describe(f.mutants))
				}
				combined++
				count := map[int]int{}
				for _, m := range f.mutants {
					if m.fitness > f.survivor.fitness {
						for _, mu := range m.muts {
							count[mu.Index]++
						}
					}
				}
				for _, n := range count {
					if n > 1 {
						contested++
					}
				}
			} else if improving(f.derived) {
				return 0, 0, fmt.Errorf("a mutant improves %v, but there's no combined member", f.survivor.points)
			}
		}
		total += len(f.mutants)
		lo, hi = min(lo, len(f.mutants)), max(hi, len(f.mutants))
		for _, m := range f.mutants {
			mutants = append(mutants, m.points)
		}
	}
	if want := a.batch() - a.cutoff; total != want {
		return 0, 0, fmt.Errorf("there are %d mutants, not %d", total, want)
	}
	if hi-lo > 1 {
		return 0, 0, fmt.Errorf("some survivors have %d mutants, others %d", lo, hi)
	}
	// Each mutant comes from one call of the mutation method
	var after []normgeom.NormPointGroup
	calls := map[string]int{}
	sig := func(before, after normgeom.NormPointGroup, ms []mutation.Mutation) string {
		s := append([]mutation.Mutation(nil), ms...)
		sort.Slice(s, func(i, j int) bool { return s[i].Index < s[j].Index })
		return groupKey(before) + groupKey(after) + fmt.Sprint(s)
	}
	for _, m := range cur.muts {
		after = append(after, m.after)
		calls[sig(m.before, m.after, m.reported)]++
	}
	if !sameMultiset(after, mutants) {
		return 0, 0, fmt.Errorf("the mutation method made %v, but the mutants are %v", after, mutants)
	}
	for _, f := range fam {
		for _, m := range f.mutants {
			k := sig(f.survivor.points, m.points, m.muts)
			if calls[k] == 0 {
				return 0, 0, fmt.Errorf("mutant %v of %v with %v isn't the result of one mutation", m.points, f.survivor.points, m.muts)
			}
			calls[k]--
		}
	}
	return combined, contested, nil
}

func describe(es []*evalRec) string {
	s := ""
	for _, e := range es {
		s += fmt.Sprintf("%v %v; ", e.fitness, e.muts)
	}
	return s
}

func TestC03(t *testing.T) {
	check := func(rt *rapid.T, c *Case, scope algoScope) {
		a := drawAlgo(rt, scope, true, true)
		steps := scope.steps(rt)
		var prev generation
		combined, contested, changed := 0, 0, 0
		a.run(rt, steps, func(i int, g generation) {
			if i > 0 {
				n, m, err := checkGeneration(a, prev, g)
				if err != nil {
					rt.Fatalf("%v, generation %d: %v", a, i, err)
				}
				combined += n
				contested += m
				if !sameGroup(prev.best, g.best) {
					changed++
				}
			} else if len(g.evals) < a.cutoff {
				rt.Fatalf("%v: %d members were evaluated at first", a, len(g.evals))
			}
			prev = g
		})
		c.LabelIf(a.modified, "modified genetic")
		c.LabelIf(!a.modified, "simple")
		c.LabelIf(a.pure != nil && !a.distinct, "ties")
		c.LabelIf(contested > 0, "several improving mutants changed the same point")
		c.Count("combined members", combined)
		c.Label("%s workers", a.gateMode)
		c.Done(changed > 0 && (combined > 0 || !a.modified), "%v, %d steps", a, steps)
	}
	sub(t, "generations", 4000, 120000,
		"runs of an algorithm of at most 24 members, each generation compared with a model of the previous one; non-trivial: the best member changed, and members were combined (modified genetic)",
		func(rt *rapid.T, c *Case) { check(rt, c, usual) })
	sub(t, "long", 160, 4000,
		"runs of up to 80 members and 60 steps; non-trivial: as above",
		func(rt *rapid.T, c *Case) { check(rt, c, longer) })
	sub(t, "scopes", 160, 4000, scopesRule,
		func(rt *rapid.T, c *Case) { check(rt, c, drawScope(rt)) })
}
