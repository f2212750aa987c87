package harness

import (
	"testing"

	"pgregory.net/rapid"
)

func TestC02(t *testing.T) {
	check := func(rt *rapid.T, c *Case, scope algoScope) {
		a := drawAlgo(rt, scope, true, true)
		steps := scope.steps(rt)
		derived, combined := 0, 0
		// run checks every call against the recorder's model
		rec := a.run(rt, steps, func(i int, g generation) {
			for _, e := range g.evals {
				if e.base != nil && len(e.muts) > 0 {
					derived++
				}
			}
			if len(g.evals) > a.batch() {
				combined++
			}
			if i > 0 && len(g.evals) < a.batch() {
				rt.Fatalf("%v, generation %d: only %d of %d members were evaluated", a, i, len(g.evals), a.batch())
			}
		})
		c.LabelIf(a.modified, "modified genetic")
		c.LabelIf(!a.modified, "simple")
		c.LabelIf(combined > 0, "with combined members")
		c.LabelIf(a.pure != nil && !a.distinct, "ties")
		c.Count("derived evaluations", derived)
		c.Count("swaps", rec.swaps)
		c.Label("%s workers", a.gateMode)
		c.Done(derived > 0 && rec.swaps > 0, "%v, %d steps", a, steps)
	}
	sub(t, "calls", 4000, 120000,
		"runs of an algorithm of at most 24 members whose evaluator follows every call with a model; non-trivial: members were derived with mutations, and members were swapped",
		func(rt *rapid.T, c *Case) { check(rt, c, usual) })
	sub(t, "long", 160, 4000,
		"runs of up to 80 members and 60 steps; non-trivial: as above",
		func(rt *rapid.T, c *Case) { check(rt, c, longer) })
	sub(t, "scopes", 160, 4000, scopesRule,
		func(rt *rapid.T, c *Case) { check(rt, c, drawScope(rt)) })
}
