package harness

import (
	"fmt"
	"testing"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation"
	"pgregory.net/rapid"
)

func finalTriangles(g normgeom.NormPointGroup, w, h int) []tri3 {
	var ts []tri3
	for _, t := range triangulation.Triangulate(g, w, h) {
		p := func(i int) ipt { return pt(t.Points[i].X, t.Points[i].Y) }
		ts = append(ts, mkTri(p(0), p(1), p(2)))
	}
	return ts
}

func checkComplete(ts []tri3, pts []ipt) error {
	d := distinct(pts)
	present := map[ipt]bool{}
	for _, p := range d {
		present[p] = true
	}
	want := hullArea2(d)
	var area int64
	used := map[ipt]bool{}
	for _, t := range ts {
		o := orient(t[0], t[1], t[2])
		if o < 0 {
			o = -o
		}
		if o == 0 {
			return fmt.Errorf("triangle %v has no area", t)
		}
		area += o
		for _, v := range t {
			if !present[v] {
				return fmt.Errorf("vertex %v of %v isn't one of the points", v, t)
			}
			used[v] = true
		}
		for _, p := range d {
			if p != t[0] && p != t[1] && p != t[2] && inCirc(t[0], t[1], t[2], p) > 0 {
				return fmt.Errorf("point %v is inside the circumcircle of %v", p, t)
			}
		}
	}
	if area != want {
		return fmt.Errorf("the triangles' area is %d/2, the convex hull's %d/2", area, want)
	}
	if want > 0 && len(used) != len(d) {
		return fmt.Errorf("only %d of %d points are used", len(used), len(d))
	}
	if a, b, ok := anyOverlap(ts); ok {
		return fmt.Errorf("triangles %v and %v overlap", a, b)
	}
	return nil
}

// locallyComplete checks the same as checkComplete, in almost linear time: triangles that fill the convex
// hull and of which no two neighbours have the far corner of the other in the circumcircle are Delaunay.
func locallyComplete(ts []tri3, pts []ipt) error {
	present := map[ipt]bool{}
	for _, p := range pts {
		present[p] = true
	}
	used := map[ipt]bool{}
	far := map[[2]ipt]ipt{} // the corner opposite of each directed edge
	var area int64
	for _, t := range ts {
		a, b, c := t[0], t[1], t[2]
		o := orient(a, b, c)
		if o == 0 {
			return fmt.Errorf("triangle %v has no area", t)
		}
		if o < 0 {
			b, c, o = c, b, -o
		}
		area += o
		for _, v := range t {
			if !present[v] {
				return fmt.Errorf("vertex %v of %v isn't one of the points", v, t)
			}
			used[v] = true
		}
		for _, e := range [][3]ipt{{a, b, c}, {b, c, a}, {c, a, b}} {
			if _, ok := far[[2]ipt{e[0], e[1]}]; ok {
				return fmt.Errorf("two triangles are on the same side of %v %v", e[0], e[1])
			}
			far[[2]ipt{e[0], e[1]}] = e[2]
		}
	}
	for e, c := range far {
		if d, ok := far[[2]ipt{e[1], e[0]}]; ok && inCirc(e[0], e[1], c, d) > 0 {
			return fmt.Errorf("point %v is inside the circumcircle of %v %v %v", d, e[0], e[1], c)
		}
	}
	var border []geom.Point
	for p := range present {
		border = append(border, geom.Point{X: int(p.X), Y: int(p.Y)})
	}
	if want := wideHullArea2(border); area != want {
		return fmt.Errorf("the triangles' area is %d/2, the convex hull's %d/2", area, want)
	} else if want > 0 && len(used) != len(present) {
		return fmt.Errorf("only %d of %d points are used", len(used), len(present))
	}
	return nil
}

func TestC13(t *testing.T) {
	sub(t, "triangulate", 20000, 500000,
		"groups of normalised points of every placement against exact predicates; non-trivial: at least one triangle",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			n := drawCount(rt, "n", 0, 70)
			g, kind := drawNormGroup(rt, n, w, h)
			before := g.Copy()
			ts := finalTriangles(g, w, h)
			pts := scaledAll(g, w, h)
			if err := checkComplete(ts, pts); err != nil {
				rt.Fatalf("%dx%d %s: %v", w, h, ptsString(pts), err)
			}
			for i := range g {
				if g[i] != before[i] {
					rt.Fatalf("point %d changed from %v to %v", i, before[i], g[i])
				}
			}
			c.Label("%s", kind)
			c.LabelIf(len(ts) == 0, "empty")
			c.Done(len(ts) > 0, "%dx%d %s", w, h, ptsString(pts))
		})
	sub(t, "large", 160, 4000,
		"groups of up to 700 points; non-trivial: at least 100 triangles",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "n")
			w, h := 50+r.intn(3000), 50+r.intn(3000)
			g, kind := drawNormGroup(rt, 100+r.intn(600), w, h, "uniform", "lattice", "cluster", "line", "circle", "border", "wheel")
			ts := finalTriangles(g, w, h)
			pts := scaledAll(g, w, h)
			if err := checkComplete(ts, pts); err != nil {
				rt.Fatalf("%dx%d %s: %v", w, h, ptsString(pts), err)
			}
			c.Label("%s", kind)
			c.Done(len(ts) >= 100, "%dx%d %s", w, h, ptsString(pts))
		})
	sub(t, "huge", 24, 800,
		"groups of thousands of points; non-trivial: at least 2000 triangles",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "n")
			w, h := 500+r.intn(5500), 500+r.intn(5500)
			g, kind := drawNormGroup(rt, 1000+r.intn(3000), w, h, "uniform", "uniform", "cluster", "border", "wheel")
			ts := finalTriangles(g, w, h)
			pts := scaledAll(g, w, h)
			if err := checkComplete(ts, pts); err != nil {
				rt.Fatalf("%dx%d %s: %v", w, h, ptsString(pts), err)
			}
			c.Label("%s", kind)
			c.Done(len(ts) >= 2000, "%dx%d %s", w, h, ptsString(pts))
		})
	sub(t, "enormous", 16, 320,
		"groups of up to 150000 points: area, points used, and every edge locally Delaunay; non-trivial: at least 50000 triangles",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "n")
			w, h := 500+r.intn(12000), 500+r.intn(12000)
			g, kind := drawNormGroup(rt, 20000+r.intn(130000), w, h, "uniform", "uniform", "cluster", "lattice")
			ts := finalTriangles(g, w, h)
			tick()
			pts := scaledAll(g, w, h)
			if err := locallyComplete(ts, pts); err != nil {
				rt.Fatalf("%dx%d, %d %s points: %v", w, h, len(g), kind, err)
			}
			c.Label("%s", kind)
			c.LabelIf(len(ts) > 65535, "more than 65535 triangles")
			c.Done(len(ts) >= 50000, "%dx%d, %d %s points", w, h, len(g), kind)
		})
	sub(t, "wide", 4000, 100000,
		"points of images of up to a million pixels a side; non-trivial: at least one triangle",
		wideTriangulation)
	sub(t, "rounding", 4000, 100000,
		"arbitrary normalised coordinates are scaled and rounded to the nearest integer; non-trivial: at least one triangle",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			r := drawRng(rt, "points")
			var g normgeom.NormPointGroup
			var near []ipt
			for i := 3 + r.intn(10); i > 0; i-- {
				x, y := r.float(), r.float()
				if r.chance(0.1) {
					x = float64(r.intn(2))
				}
				if r.chance(0.1) {
					y = float64(r.intn(2))
				}
				g = append(g, normgeom.NormPoint{X: x, Y: y})
				near = append(near, scaled(g[len(g)-1], w, h))
			}
			ok := map[ipt]bool{}
			for _, p := range near {
				ok[p] = true
			}
			out := triangulation.Triangulate(g, w, h)
			for _, t := range out {
				for _, v := range t.Points {
					if !ok[pt(v.X, v.Y)] || v != (geom.Point{X: int(int16(v.X)), Y: int(int16(v.Y))}) {
						rt.Fatalf("%dx%d %v: vertex %v isn't a rounded point", w, h, g, v)
					}
				}
			}
			if err := checkComplete(finalTriangles(g, w, h), near); err != nil {
				rt.Fatalf("%dx%d %v: %v", w, h, g, err)
			}
			c.Done(len(out) > 0, "%dx%d %v", w, h, g)
		})
}
