package harness

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation"
	"pgregory.net/rapid"
)

// Final triangulations and renderings of images with sides far beyond the 13106 pixels that scoring allows.

// drawWideSize draws an image size of up to limit pixels a side, and of up to area pixels.
func drawWideSize(rt *rapid.T, limit, area int) (int, int) {
	r := drawRng(rt, "wideSize")
	side := func(limit int) int {
		return clampInt(int(math.Exp(r.float()*math.Log(float64(limit)))), 1, limit)
	}
	w := clampInt(limit/16+r.intn(limit), 1, limit)
	h := side(clampInt(area/w, 1, limit))
	if r.chance(0.5) {
		return h, w
	}
	return w, h
}

// turn2 is twice the area of a triangle, with the sign of its direction.
func turn2(a, b, c geom.Point) int64 {
	return int64(b.X-a.X)*int64(c.Y-a.Y) - int64(b.Y-a.Y)*int64(c.X-a.X)
}

// insideCircle tells if d is inside the circumcircle of the triangle by more than the rounding errors of
// a computation with 64-bit floats.
func insideCircle(a, b, c, d geom.Point) bool {
	largest := 0.
	row := func(p geom.Point) (x, y, s float64) {
		x, y = float64(p.X-d.X), float64(p.Y-d.Y)
		s = x*x + y*y
		largest = math.Max(largest, s)
		return
	}
	ax, ay, as := row(a)
	bx, by, bs := row(b)
	cx, cy, cs := row(c)
	v := as*(bx*cy-by*cx) - bs*(ax*cy-ay*cx) + cs*(ax*by-ay*bx)
	if turn2(a, b, c) < 0 {
		v = -v
	}
	return v > 1e-12*largest*largest
}

// wideHullArea2 is twice the area of the convex hull of distinct points.
func wideHullArea2(pts []geom.Point) int64 {
	p := append([]geom.Point(nil), pts...)
	sort.Slice(p, func(i, j int) bool { return p[i].X < p[j].X || p[i].X == p[j].X && p[i].Y < p[j].Y })
	var area int64
	for pass := 0; pass < 2; pass++ {
		var h []geom.Point
		for _, q := range p {
			for len(h) >= 2 && turn2(h[len(h)-2], h[len(h)-1], q) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, q)
		}
		for i := 1; i < len(h); i++ {
			area += int64(h[i-1].X)*int64(h[i].Y) - int64(h[i-1].Y)*int64(h[i].X)
		}
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	}
	return area
}

func wideTriangulation(rt *rapid.T, c *Case) {
	w, h := drawWideSize(rt, 1000000, 1000000*1000000)
	r := drawRng(rt, "points")
	var g normgeom.NormPointGroup
	var pts []geom.Point
	present := map[geom.Point]bool{}
	for n := 3 + r.intn(40); n > 0; n-- {
		p := normgeom.NormPoint{X: r.float(), Y: r.float()}
		if r.chance(0.1) {
			p.X = float64(r.intn(2))
		}
		if r.chance(0.1) {
			p.Y = float64(r.intn(2))
		}
		if len(g) > 0 && r.chance(0.1) {
			p = g[r.intn(len(g))]
		}
		g = append(g, p)
		q := geom.Point{X: int(math.Round(p.X * float64(w))), Y: int(math.Round(p.Y * float64(h)))}
		if !present[q] {
			present[q] = true
			pts = append(pts, q)
		}
	}
	ts := triangulation.Triangulate(g, w, h)
	if err := wideComplete(ts, pts, present); err != nil {
		rt.Fatalf("%dx%d %v: %v", w, h, g, err)
	}
	c.Done(len(ts) > 0, "%dx%d %v", w, h, g)
}

func wideComplete(ts []geom.Triangle, pts []geom.Point, present map[geom.Point]bool) error {
	used := map[geom.Point]bool{}
	var area int64
	for _, t := range ts {
		a, b, c := t.Points[0], t.Points[1], t.Points[2]
		o := turn2(a, b, c)
		if o < 0 {
			o = -o
		}
		if o == 0 {
			return fmt.Errorf("triangle %v has no area", t)
		}
		area += o
		for _, v := range t.Points {
			if !present[v] {
				return fmt.Errorf("vertex %v of %v isn't one of the points %v", v, t, pts)
			}
			used[v] = true
		}
		for _, p := range pts {
			if insideCircle(a, b, c, p) {
				return fmt.Errorf("point %v is inside the circumcircle of %v", p, t)
			}
		}
	}
	if want := wideHullArea2(pts); area != want {
		return fmt.Errorf("the triangles' area is %d/2, the convex hull's %d/2", area, want)
	} else if want > 0 && len(used) != len(pts) {
		return fmt.Errorf("only %d of %d points are used", len(used), len(pts))
	}
	return nil
}

// drawWideTriangles draws triangles anywhere in an image, many of them small or flat.
func drawWideTriangles(rt *rapid.T, w, h int) []geom.Triangle {
	r := drawRng(rt, "triangles")
	var ts []geom.Triangle
	for n := 1 + r.intn(12); n > 0; n-- {
		var t geom.Triangle
		local := r.chance(0.5)
		for k := range t.Points {
			p := geom.Point{X: r.intn(w + 1), Y: r.intn(h + 1)}
			if local && k > 0 {
				p = geom.Point{X: clampInt(t.Points[0].X+r.intn(7)-3, 0, w), Y: clampInt(t.Points[0].Y+r.intn(7)-3, 0, h)}
			}
			t.Points[k] = p
		}
		ts = append(ts, t)
	}
	return ts
}
