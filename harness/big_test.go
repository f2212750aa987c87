package harness

import (
	"fmt"
	"math"
)

// checkDelaunayFast checks the same as checkDelaunay for thousands of spread out points: buckets of points find
// those inside a circumcircle, and what is missing is looked for at the edges that have a triangle on one side only.
func checkDelaunayFast(ts []tri3, pts []ipt, w, h int) error {
	d := distinct(pts)
	limit := float64(max(w, h))
	size := math.Max(1, math.Sqrt(2*float64(w+1)*float64(h+1)/float64(len(d)+1)))
	cols, rows := int(float64(w)/size)+1, int(float64(h)/size)+1
	buckets := make([][]ipt, cols*rows)
	for _, p := range d {
		i := int(float64(p.Y)/size)*cols + int(float64(p.X)/size)
		buckets[i] = append(buckets[i], p)
	}
	present := make(map[ipt]bool, len(d))
	for _, p := range d {
		present[p] = true
	}
	type edge struct{ a, b ipt }
	edges := make(map[edge]bool, 3*len(ts))
	used := make(map[ipt]bool, len(d))
	for _, t := range ts {
		o := orient(t[0], t[1], t[2])
		if o == 0 {
			return fmt.Errorf("triangle %v has no area", t)
		}
		if o < 0 {
			t[1], t[2] = t[2], t[1]
		}
		for i, v := range t {
			if !present[v] {
				return fmt.Errorf("triangle %v has vertex %v, which isn't present", t, v)
			}
			used[v] = true
			e := edge{v, t[(i+1)%3]}
			if edges[e] {
				return fmt.Errorf("triangle %v overlaps another one at the edge %v", t, e)
			}
			edges[e] = true
		}
		// The circumcircle, roughly and with a margin; the test itself is exact.
		ax, ay := float64(t[0].X), float64(t[0].Y)
		bx, by := float64(t[1].X)-ax, float64(t[1].Y)-ay
		cx, cy := float64(t[2].X)-ax, float64(t[2].Y)-ay
		k := 2 * (bx*cy - by*cx)
		ux := (cy*(bx*bx+by*by) - by*(cx*cx+cy*cy)) / k
		uy := (bx*(cx*cx+cy*cy) - cx*(bx*bx+by*by)) / k
		rad := math.Hypot(ux, uy)*(1+1e-9) + 1
		cell := func(v float64, n int) int { return clampInt(int(math.Floor(v/size)), 0, n-1) }
		for y := cell(ay+uy-rad, rows); y <= cell(ay+uy+rad, rows); y++ {
			for x := cell(ax+ux-rad, cols); x <= cell(ax+ux+rad, cols); x++ {
				for _, p := range buckets[y*cols+x] {
					if p != t[0] && p != t[1] && p != t[2] && inCirc(t[0], t[1], t[2], p) > 0 {
						return fmt.Errorf("point %v is inside the circumcircle of %v", p, t)
					}
				}
			}
		}
	}
	// apex returns the third vertex of the Delaunay triangle left of ab, an edge of the Delaunay triangulation.
	apex := func(a, b ipt) (best ipt, ok bool) {
		for _, p := range d {
			if orient(a, b, p) > 0 && (!ok || inCirc(a, b, best, p) > 0) {
				best, ok = p, true
			}
		}
		return
	}
	missing := func(a, b ipt) error {
		if c, ok := apex(a, b); ok && circumdiameter(a, b, c) <= limit {
			return fmt.Errorf("Delaunay triangle %v %v %v is missing", a, b, c)
		}
		return nil
	}
	for e := range edges {
		if !edges[edge{e.b, e.a}] {
			if err := missing(e.b, e.a); err != nil {
				return err
			}
		}
	}
	for _, p := range d {
		if used[p] || len(d) < 2 {
			continue
		}
		var near ipt
		found := false
		for _, q := range d {
			if q != p && (!found || dist2(p, q) < dist2(p, near)) {
				near, found = q, true
			}
		}
		if err := missing(p, near); err != nil {
			return err
		}
		if err := missing(near, p); err != nil {
			return err
		}
	}
	return nil
}
