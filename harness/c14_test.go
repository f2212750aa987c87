package harness

import (
	"fmt"
	"testing"

	"github.com/RH12503/Triangula/normgeom"
	"pgregory.net/rapid"
)

// checkSameTriangles decides if the final triangles are the scoring triangles plus, possibly, flat ones along
// the convex hull. It returns how many were added.
func checkSameTriangles(scored, final []tri3, w, h int) (int, error) {
	in := map[tri3]bool{}
	for _, t := range final {
		in[t] = true
	}
	known := map[tri3]bool{}
	for _, t := range scored {
		if !in[t] {
			return 0, fmt.Errorf("triangle %v was scored, but isn't in the final triangulation", t)
		}
		known[t] = true
	}
	// The edges of the convex hull belong to one triangle only
	type edge [2]ipt
	mk := func(a, b ipt) edge {
		if less(b, a) {
			a, b = b, a
		}
		return edge{a, b}
	}
	count := map[edge]int{}
	for _, t := range final {
		for i := 0; i < 3; i++ {
			count[mk(t[i], t[(i+1)%3])]++
		}
	}
	outer := map[edge]bool{}
	for e, n := range count {
		if n == 1 {
			outer[e] = true
		}
	}
	var extra []tri3
	for _, t := range final {
		if !known[t] {
			if d := circumdiameter(t[0], t[1], t[2]); d <= float64(max(w, h)) {
				return 0, fmt.Errorf("triangle %v with a circumcircle of diameter %v wasn't scored", t, d)
			}
			extra = append(extra, t)
		}
	}
	n := len(extra)
	// Peel the additional triangles off from the outside
	for changed := true; changed; {
		changed = false
		var rest []tri3
		for _, t := range extra {
			peel := false
			for i := 0; i < 3; i++ {
				peel = peel || outer[mk(t[i], t[(i+1)%3])]
			}
			if !peel {
				rest = append(rest, t)
				continue
			}
			changed = true
			for i := 0; i < 3; i++ {
				outer[mk(t[i], t[(i+1)%3])] = true
			}
		}
		extra = rest
	}
	if len(extra) > 0 {
		return 0, fmt.Errorf("triangle %v wasn't scored, though it isn't along the convex hull", extra[0])
	}
	return n, nil
}

func TestC14(t *testing.T) {
	compare := func(rt *rapid.T, c *Case, g normgeom.NormPointGroup, w, h int, kind string) {
		pts := scaledAll(g, w, h)
		if _, unique := uniqueTriangulation(pts, w, h); !unique {
			c.Label("ambiguous triangulation, skipped")
			c.Done(false, "")
			return
		}
		scored, final := scoringTriangles(g, w, h), finalTriangles(g, w, h)
		added, err := checkSameTriangles(scored, final, w, h)
		if err != nil {
			rt.Fatalf("%dx%d %s: %v", w, h, ptsString(pts), err)
		}
		c.Label("%s", kind)
		c.LabelIf(added > 0, "flat triangles added")
		c.Done(len(scored) > 0, "%dx%d %s", w, h, ptsString(pts))
	}
	sub(t, "triangles", 24000, 700000,
		"both triangulations of the same normalised points compared; non-trivial: unique triangulation with at least one scored triangle",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			n := drawCount(rt, "n", 1, 40)
			g, kind := drawNormGroup(rt, n, w, h, "uniform", "uniform", "cluster", "line", "border", "dups", "explicit", "circle")
			compare(rt, c, g, w, h, kind)
		})
	sub(t, "arbitrary", 8000, 200000,
		"arbitrary normalised coordinates, often close to where rounding changes; non-trivial: as above",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			r := drawRng(rt, "points")
			var g normgeom.NormPointGroup
			coord := func(size int) float64 {
				switch r.intn(4) {
				case 0:
					return r.float()
				case 1:
					return float64(r.intn(2))
				case 2: // just around the middle between two integers
					return clamp01((float64(r.intn(size)) + 0.5 + (r.float()-0.5)*1e-6) / float64(size))
				}
				return float64(r.intn(size+1)) / float64(size)
			}
			for i := 3 + r.intn(12); i > 0; i-- {
				g = append(g, normgeom.NormPoint{X: coord(w), Y: coord(h)})
			}
			compare(rt, c, g, w, h, "arbitrary")
		})
	sub(t, "dense", 160, 5000,
		"hundreds of points; non-trivial: as above",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "dims")
			w, h := 100+r.intn(5900), 100+r.intn(5900)
			g, kind := drawNormGroup(rt, 60+r.intn(700), w, h, "uniform", "uniform", "cluster", "border", "wheel")
			compare(rt, c, g, w, h, kind)
		})
	score := func(rt *rapid.T, c *Case, w, h int) {
		m := drawImage(rt, w, h, true)
		n := drawCount(rt, "n", 3, 40)
		if w*h > 20000 && rapid.Bool().Draw(rt, "many") {
			n *= 8
		}
		g, kind := drawNormGroup(rt, n, w, h, "uniform", "uniform", "cluster", "border")
		if rapid.Bool().Draw(rt, "corners") { // so that the hull is the image
			g = append(g, normgeom.NormPoint{}, normgeom.NormPoint{X: 1}, normgeom.NormPoint{Y: 1}, normgeom.NormPoint{X: 1, Y: 1})
		}
		pts := scaledAll(g, w, h)
		_, unique := uniqueTriangulation(pts, w, h)
		scored, final := scoringTriangles(g, w, h), finalTriangles(g, w, h)
		if !unique || len(scored) != len(final) {
			c.Label("ambiguous or flat triangles, skipped")
			c.Done(false, "")
			return
		}
		fit := freshFitness(false, m, drawFitBlock(rt, w, h), g)
		if err := scoreTriangles(final, m).check(fit, m, true); err != nil {
			rt.Fatalf("%v %s: %v", m, ptsString(pts), err)
		}
		c.Label("%s", kind)
		c.Done(len(final) > 0, "%v %s", m, ptsString(pts))
	}
	sub(t, "score", 8000, 250000,
		"the fitness recomputed from the final triangles; non-trivial: nothing was added, and at least one triangle",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 48)
			score(rt, c, w, h)
		})
	sub(t, "large", 240, 8000,
		"the same on images of up to 13106 pixels a side; non-trivial: as above",
		func(rt *rapid.T, c *Case) {
			w, h := drawLarge(rt, 300000)
			score(rt, c, w, h)
		})
}

func clamp01(v float64) float64 {
	if v < 0 {
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}
