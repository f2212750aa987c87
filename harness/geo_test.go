package harness

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
)

type ipt = incrdelaunay.Point
type fpt = incrdelaunay.FloatPoint

// tri3 is a triangle with its vertices in increasing order.
type tri3 [3]ipt

func less(a, b ipt) bool {
	if a.X != b.X {
		return a.X < b.X
	}
	return a.Y < b.Y
}

func mkTri(a, b, c ipt) tri3 {
	t := tri3{a, b, c}
	sort.Slice(t[:], func(i, j int) bool { return less(t[i], t[j]) })
	return t
}

// orient is twice the signed area of abc (positive if c is left of ab with y up).
func orient(a, b, c ipt) int64 {
	return (int64(b.X)-int64(a.X))*(int64(c.Y)-int64(a.Y)) - (int64(b.Y)-int64(a.Y))*(int64(c.X)-int64(a.X))
}

// inCirc is positive if d is inside the circumcircle of abc, 0 if on it, negative if outside, for any
// orientation of abc (which must not be collinear). Exact for coordinate differences up to 2^14.
func inCirc(a, b, c, d ipt) int64 {
	o := orient(a, b, c)
	ax, ay := int64(a.X)-int64(d.X), int64(a.Y)-int64(d.Y)
	bx, by := int64(b.X)-int64(d.X), int64(b.Y)-int64(d.Y)
	cx, cy := int64(c.X)-int64(d.X), int64(c.Y)-int64(d.Y)
	v := (ax*ax+ay*ay)*(bx*cy-by*cx) - (bx*bx+by*by)*(ax*cy-ay*cx) + (cx*cx+cy*cy)*(ax*by-ay*bx)
	if o < 0 {
		v = -v
	}
	return v
}

// circumradiusSq2 returns the squared circumdiameter of abc.
func circumdiameter(a, b, c ipt) float64 {
	d := func(p, q ipt) float64 { return math.Hypot(float64(p.X)-float64(q.X), float64(p.Y)-float64(q.Y)) }
	return d(a, b) * d(b, c) * d(c, a) / math.Abs(float64(orient(a, b, c)))
}

// refDelaunay is the reference Delaunay triangulation of distinct points, by gift wrapping with exact
// predicates. ambiguous tells that four points with an empty circle are cocircular, in which case the
// triangles aren't meaningful. The points in extra (if any) only make triangles ambiguous or exclude them.
func refDelaunay(pts []ipt, extra ...ipt) (tris map[tri3]bool, ambiguous bool) {
	tris = map[tri3]bool{}
	if len(pts) < 3 {
		return tris, false
	}
	a := pts[0]
	for _, p := range pts {
		if less(p, a) {
			a = p
		}
	}
	var b ipt
	found := false
	for _, p := range pts {
		if p == a {
			continue
		}
		if !found {
			b, found = p, true
			continue
		}
		o := orient(a, b, p)
		// all others have to be left of ab; of collinear ones take the closest
		if o < 0 || (o == 0 && dist2(a, p) < dist2(a, b)) {
			b = p
		}
	}
	if !found {
		return tris, false
	}
	type edge [2]ipt
	queue := []edge{{a, b}}
	done := map[edge]bool{}
	for len(queue) > 0 {
		e := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		if done[e] {
			continue
		}
		done[e] = true
		var c ipt
		have := false
		for _, p := range pts {
			if orient(e[0], e[1], p) <= 0 {
				continue
			}
			if !have || inCirc(e[0], e[1], c, p) > 0 {
				c, have = p, true
			}
		}
		if !have {
			continue
		}
		for _, p := range pts {
			if p != e[0] && p != e[1] && p != c && inCirc(e[0], e[1], c, p) == 0 {
				return tris, true
			}
		}
		keep := true
		for _, p := range extra {
			s := inCirc(e[0], e[1], c, p)
			if s == 0 {
				return tris, true
			}
			if s > 0 {
				keep = false
			}
		}
		tris[mkTri(e[0], e[1], c)] = keep
		// the triangle lies left of (c, e1) and (e0, c) reversed, so walk their other sides
		done[edge{e[1], c}] = true
		done[edge{c, e[0]}] = true
		queue = append(queue, edge{c, e[1]}, edge{e[0], c})
	}
	for t, keep := range tris {
		if !keep {
			delete(tris, t)
		}
	}
	return tris, false
}

func dist2(a, b ipt) int64 {
	dx, dy := int64(a.X)-int64(b.X), int64(a.Y)-int64(b.Y)
	return dx*dx + dy*dy
}

// superVertices are the far-away vertices an incremental triangulation for an image starts from.
func superVertices(w, h int) []ipt {
	s := incrdelaunay.NewSuperTriangle(w, h)
	return []ipt{s.A, s.B, s.C}
}

// uniqueTriangulation tells if the incremental triangulation of the points is unambiguous, and what it is.
func uniqueTriangulation(pts []ipt, w, h int) (map[tri3]bool, bool) {
	tris, ambiguous := refDelaunay(distinct(pts), superVertices(w, h)...)
	return tris, !ambiguous
}

// overlap tells if the interiors of two triangles intersect (exactly).
func overlap(s, t tri3) bool {
	for k := 0; k < 3; k++ {
		a := [3]int16{s[0].X, s[1].X, s[2].X}
		b := [3]int16{t[0].X, t[1].X, t[2].X}
		if k == 1 {
			a = [3]int16{s[0].Y, s[1].Y, s[2].Y}
			b = [3]int16{t[0].Y, t[1].Y, t[2].Y}
		}
		if max(a[0], a[1], a[2]) <= min(b[0], b[1], b[2]) || max(b[0], b[1], b[2]) <= min(a[0], a[1], a[2]) {
			return false
		}
	}
	sep := func(p, q tri3) bool {
		for i := 0; i < 3; i++ {
			a, b, c := p[i], p[(i+1)%3], p[(i+2)%3]
			side := orient(a, b, c)
			out := true
			for _, v := range q {
				o := orient(a, b, v)
				if (side > 0 && o > 0) || (side < 0 && o < 0) {
					out = false
					break
				}
			}
			if out {
				return true
			}
		}
		return false
	}
	return !sep(s, t) && !sep(t, s)
}

func anyOverlap(ts []tri3) (tri3, tri3, bool) {
	for i := range ts {
		for j := 0; j < i; j++ {
			if overlap(ts[i], ts[j]) {
				return ts[i], ts[j], true
			}
		}
	}
	return tri3{}, tri3{}, false
}

// hullArea2 is twice the area of the convex hull of the points.
func hullArea2(pts []ipt) int64 {
	h := hull(pts)
	var s int64
	for i := range h {
		a, b := h[i], h[(i+1)%len(h)]
		s += int64(a.X)*int64(b.Y) - int64(a.Y)*int64(b.X)
	}
	if s < 0 {
		s = -s
	}
	return s
}

func hull(pts []ipt) []ipt {
	p := distinct(pts)
	if len(p) < 3 {
		return p
	}
	half := func(p []ipt) []ipt {
		var h []ipt
		for _, q := range p {
			for len(h) >= 2 && orient(h[len(h)-2], h[len(h)-1], q) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, q)
		}
		return h[:len(h)-1]
	}
	lower := half(p)
	rev := make([]ipt, len(p))
	for i := range p {
		rev[len(p)-1-i] = p[i]
	}
	return append(lower, half(rev)...)
}

// triangles collects what a triangulation reports.
func triangles(d *incrdelaunay.Delaunay) []tri3 {
	var ts []tri3
	d.IterTriangles(func(t incrdelaunay.Triangle) { ts = append(ts, mkTri(t.A, t.B, t.C)) })
	return ts
}

// checkDelaunay decides if the reported triangles are a valid incremental Delaunay triangulation of the
// points (a multiset) on an image: see property C08.
func checkDelaunay(ts []tri3, pts []ipt, w, h int) error {
	present := map[ipt]bool{}
	for _, p := range pts {
		present[p] = true
	}
	set := map[tri3]bool{}
	for _, t := range ts {
		if orient(t[0], t[1], t[2]) == 0 {
			return fmt.Errorf("triangle %v has no area", t)
		}
		if set[t] {
			return fmt.Errorf("triangle %v is reported twice", t)
		}
		set[t] = true
		for _, v := range t {
			if !present[v] {
				return fmt.Errorf("triangle %v has vertex %v, which isn't present", t, v)
			}
		}
		for p := range present {
			if p != t[0] && p != t[1] && p != t[2] && inCirc(t[0], t[1], t[2], p) > 0 {
				return fmt.Errorf("point %v is inside the circumcircle of %v", p, t)
			}
		}
	}
	if a, b, ok := anyOverlap(ts); ok {
		return fmt.Errorf("triangles %v and %v overlap", a, b)
	}
	d := distinct(pts)
	ref, ambiguous := refDelaunay(d)
	if !ambiguous {
		for t := range ref {
			if circumdiameter(t[0], t[1], t[2]) <= float64(max(w, h)) && !set[t] {
				return fmt.Errorf("Delaunay triangle %v is missing", t)
			}
		}
	} else if full := hullArea2(d); full > 0 {
		// Ambiguous: the triangles to expect aren't unique, but where they lie is. Every triangle of any
		// Delaunay triangulation lies in a cell (all points on one empty circle), so the area is what counts.
		var want, got int64
		for _, c := range delaunayCells(d) {
			if circumdiameter(c[0], c[1], c[2]) <= float64(max(w, h)) {
				a := hullArea2(c)
				want += a
				in := map[ipt]bool{}
				for _, p := range c {
					in[p] = true
				}
				var part int64
				for _, t := range ts {
					if in[t[0]] && in[t[1]] && in[t[2]] {
						o := orient(t[0], t[1], t[2])
						if o < 0 {
							o = -o
						}
						part += o
					}
				}
				got += part
				if part != a {
					return fmt.Errorf("the cocircular points %v enclose area %d/2, but only %d/2 is triangulated", c, a, part)
				}
			}
		}
		_, _ = want, got
	}
	return nil
}

// delaunayCells returns the cells of the Delaunay complex of distinct points: maximal sets of points on a
// common circle with no point inside, not all on a line. Triangles first, cocircular ones merged.
func delaunayCells(pts []ipt) [][]ipt {
	if len(pts) < 3 || hullArea2(pts) == 0 {
		return nil
	}
	a := pts[0]
	for _, p := range pts {
		if less(p, a) {
			a = p
		}
	}
	var b ipt
	found := false
	for _, p := range pts {
		if p == a {
			continue
		}
		if !found {
			b, found = p, true
			continue
		}
		o := orient(a, b, p)
		if o < 0 || (o == 0 && dist2(a, p) < dist2(a, b)) {
			b = p
		}
	}
	type edge [2]ipt
	queue := []edge{{a, b}}
	done := map[edge]bool{}
	var cells [][]ipt
	for len(queue) > 0 {
		e := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		if done[e] {
			continue
		}
		var c ipt
		have := false
		for _, p := range pts {
			if orient(e[0], e[1], p) <= 0 {
				continue
			}
			if !have || inCirc(e[0], e[1], c, p) > 0 {
				c, have = p, true
			}
		}
		if !have {
			done[e] = true
			continue
		}
		cell := []ipt{e[0], e[1], c}
		for _, p := range pts {
			if p != e[0] && p != e[1] && p != c && inCirc(e[0], e[1], c, p) == 0 {
				cell = append(cell, p)
			}
		}
		cell = hull(cell) // counter-clockwise
		cells = append(cells, cell)
		for i := range cell {
			u, v := cell[i], cell[(i+1)%len(cell)]
			done[edge{u, v}] = true
			queue = append(queue, edge{v, u})
		}
	}
	return cells
}

// polyArea is the signed area of a polygon.
func polyArea(p []fpt) float64 {
	s := 0.
	for i := range p {
		j := (i + 1) % len(p)
		s += p[i].X*p[j].Y - p[j].X*p[i].Y
	}
	return s / 2
}

// refCell is the reference Voronoi cell of a point on a w x h image, by half-plane clipping.
func refCell(site ipt, pts []ipt, w, h int) []fpt {
	poly := []fpt{{X: 0, Y: 0}, {X: float64(w), Y: 0}, {X: float64(w), Y: float64(h)}, {X: 0, Y: float64(h)}}
	sx, sy := float64(site.X), float64(site.Y)
	for _, q := range pts {
		if q == site {
			continue
		}
		qx, qy := float64(q.X), float64(q.Y)
		dx, dy, mx, my := qx-sx, qy-sy, (qx+sx)/2, (qy+sy)/2
		f := func(p fpt) float64 { return (p.X-mx)*dx + (p.Y-my)*dy }
		var out []fpt
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			fa, fb := f(a), f(b)
			if fa <= 0 {
				out = append(out, a)
			}
			if (fa < 0 && fb > 0) || (fa > 0 && fb < 0) {
				t := fa / (fa - fb)
				out = append(out, fpt{X: a.X + t*(b.X-a.X), Y: a.Y + t*(b.Y-a.Y)})
			}
		}
		poly = out
	}
	return poly
}
