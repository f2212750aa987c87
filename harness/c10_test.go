package harness

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"pgregory.net/rapid"
)

func cellsOf(iter func(func([]fpt))) [][]fpt {
	var cells [][]fpt
	iter(func(p []fpt) { cells = append(cells, append([]fpt(nil), p...)) })
	return cells
}

// cellTolerance is how far (in pixels) corners may be off: circumcentres are kept as 32-bit floats.
func cellTolerance(w, h int) float64 { return 2e-3 + 4e-6*float64(max(w, h)) }

// checkCells decides if the cells are exactly the Voronoi cells of the points (a multiset) on the image.
func checkCells(cells [][]fpt, pts []ipt, w, h int) error {
	sites := distinct(pts)
	if len(cells) != len(sites) {
		return fmt.Errorf("%d cells for %d distinct points", len(cells), len(sites))
	}
	tol := cellTolerance(w, h)
	used := map[ipt]bool{}
	for _, cell := range cells {
		var cx, cy float64
		for _, p := range cell {
			if math.IsNaN(p.X) || math.IsNaN(p.Y) || p.X < -tol || p.Y < -tol || p.X > float64(w)+tol || p.Y > float64(h)+tol {
				return fmt.Errorf("corner %v of a cell is outside of the image", p)
			}
			cx += p.X / float64(len(cell))
			cy += p.Y / float64(len(cell))
		}
		var site ipt
		best := math.Inf(1)
		for _, s := range sites {
			if d := math.Hypot(float64(s.X)-cx, float64(s.Y)-cy); d < best {
				best, site = d, s
			}
		}
		if used[site] {
			return fmt.Errorf("two cells lie at point %v", site)
		}
		used[site] = true
		ref := refCell(site, sites, w, h)
		if err := sameCell(cell, ref, tol); err != nil {
			return fmt.Errorf("cell of %v is %v instead of %v: %v", site, cell, ref, err)
		}
	}
	return nil
}

// sameCell tells if two polygons are the same convex region up to tol.
func sameCell(cell, ref []fpt, tol float64) error {
	a, b := polyArea(cell), polyArea(ref)
	per := 0.
	for i := range ref {
		p, q := ref[i], ref[(i+1)%len(ref)]
		per += math.Hypot(p.X-q.X, p.Y-q.Y)
	}
	if math.Abs(math.Abs(a)-math.Abs(b)) > 2*tol*(per+1) {
		return fmt.Errorf("area %v instead of %v", math.Abs(a), math.Abs(b))
	}
	for _, p := range cell {
		if distToPoly(p, ref) > tol {
			return fmt.Errorf("%v isn't on its boundary", p)
		}
	}
	for _, p := range ref {
		if distToPoly(p, cell) > tol {
			return fmt.Errorf("%v should be on its boundary", p)
		}
	}
	// Convex: every corner turns the same way (or hardly at all)
	sign := 1.
	if a < 0 {
		sign = -1
	}
	for i := range cell {
		p, q, r := cell[i], cell[(i+1)%len(cell)], cell[(i+2)%len(cell)]
		turn := sign * ((q.X-p.X)*(r.Y-q.Y) - (q.Y-p.Y)*(r.X-q.X))
		if turn < -4*tol*(math.Hypot(q.X-p.X, q.Y-p.Y)+math.Hypot(r.X-q.X, r.Y-q.Y)+tol) {
			return fmt.Errorf("not convex at %v", q)
		}
	}
	return nil
}

// distToPoly is the distance of a point to the boundary of a polygon.
func distToPoly(p fpt, poly []fpt) float64 {
	best := math.Inf(1)
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		dx, dy := b.X-a.X, b.Y-a.Y
		t := 0.
		if l := dx*dx + dy*dy; l > 0 {
			t = math.Max(0, math.Min(1, ((p.X-a.X)*dx+(p.Y-a.Y)*dy)/l))
		}
		best = math.Min(best, math.Hypot(p.X-a.X-t*dx, p.Y-a.Y-t*dy))
	}
	return best
}

func staticCells(pts []ipt, w, h int) [][]fpt {
	d := incrdelaunay.NewDelaunay(w, h)
	for _, p := range pts {
		d.Insert(p)
	}
	return cellsOf(func(f func([]fpt)) { incrdelaunay.Voronoi(d, f, w, h) })
}

// ring is a canonical form of an integer polygon: no repeated neighbours, starting from the smallest corner.
func ring(p []geom.Point) string {
	var q []geom.Point
	for _, v := range p {
		if len(q) == 0 || q[len(q)-1] != v {
			q = append(q, v)
		}
	}
	for len(q) > 1 && q[0] == q[len(q)-1] {
		q = q[:len(q)-1]
	}
	best := ""
	for i := range q {
		s := ""
		for j := range q {
			s += fmt.Sprint(q[(i+j)%len(q)])
		}
		if best == "" || s < best {
			best = s
		}
	}
	return best
}

func TestC10(t *testing.T) {
	sub(t, "static", 12000, 300000,
		"cells built from a point set against half-plane clipping; non-trivial: at least 3 distinct points",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			src := drawPointSource(rt, w, h)
			n := drawCount(rt, "n", 1, 60)
			var pts []ipt
			for i := 0; i < n; i++ {
				pts = append(pts, src.next())
			}
			if err := checkCells(staticCells(pts, w, h), pts, w, h); err != nil {
				rt.Fatalf("%dx%d %s: %v", w, h, ptsString(pts), err)
			}
			nd := len(distinct(pts))
			c.LabelIf(nd == 1, "one point")
			c.Label("%s", src.kind)
			c.Done(nd >= 3, "%dx%d %s", w, h, ptsString(pts))
		})

	sub(t, "incremental", 6000, 150000,
		"cells after insert/remove histories against half-plane clipping and against the static diagram; non-trivial: a removal happened",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			s := drawHistory(rt, w, h)
			n := drawCount(rt, "n", 1, 40)
			ops := rapid.IntRange(0, 20).Draw(rt, "ops")
			v := incrdelaunay.NewVoronoi(w, h)
			log := ""
			check := func() {
				cells := cellsOf(v.IterPolygons)
				if err := checkCells(cells, s.present, w, h); err != nil {
					rt.Fatalf("%dx%d %s: %v", w, h, log, err)
				}
			}
			for i := 0; i < n; i++ {
				p := s.src.next()
				s.present = append(s.present, p)
				log += "+" + ptsString([]ipt{p})
				v.Insert(p)
				if n < 6 {
					check()
				}
			}
			check()
			rem := 0
			for i := 0; i < ops; i++ {
				if len(s.present) > 0 && s.r.chance(0.55) {
					p := s.drop(s.pick())
					log += "-" + ptsString([]ipt{p})
					v.Remove(p)
					rem++
				} else {
					p := s.src.next()
					s.present = append(s.present, p)
					log += "+" + ptsString([]ipt{p})
					v.Insert(p)
				}
				check()
			}
			st := staticCells(s.present, w, h)
			if err := checkCells(st, s.present, w, h); err != nil {
				rt.Fatalf("static %dx%d %s: %v", w, h, ptsString(s.present), err)
			}
			c.Label("%s", s.src.kind)
			c.Done(rem > 0, "%dx%d %s", w, h, log)
		})

	sub(t, "large", 80, 3000,
		"several hundred points: static and incremental cells against half-plane clipping; non-trivial: at least 100 distinct points",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "n")
			w, h := 40+r.intn(1500), 40+r.intn(1500)
			switch rapid.IntRange(0, 3).Draw(rt, "size") {
			case 0:
				w, h = drawLarge(rt, 200000)
			case 1:
				w, h = drawSide(r), drawSide(r)
			}
			s := drawHistory(rt, w, h)
			n := 100 + r.intn(200)
			v := incrdelaunay.NewVoronoi(w, h)
			for i := 0; i < n; i++ {
				p := s.src.next()
				s.present = append(s.present, p)
				v.Insert(p)
			}
			for i := 0; i < n/3; i++ {
				v.Remove(s.drop(s.pick()))
				p := s.src.next()
				s.present = append(s.present, p)
				v.Insert(p)
			}
			if err := checkCells(cellsOf(v.IterPolygons), s.present, w, h); err != nil {
				rt.Fatalf("%dx%d, %d points (%s): %v", w, h, n, s.src.kind, err)
			}
			if err := checkCells(staticCells(s.present, w, h), s.present, w, h); err != nil {
				rt.Fatalf("static %dx%d, %d points (%s): %v", w, h, n, s.src.kind, err)
			}
			c.Label("%s", s.src.kind)
			c.Done(len(distinct(s.present)) >= 100, "%dx%d, %d points, final %s", w, h, n, ptsString(s.present))
		})

	sub(t, "rounding", 6000, 150000,
		"integer polygons against the rounded cells of the static diagram and the reference cells; non-trivial: at least 3 distinct points",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			n := drawCount(rt, "n", 1, 60)
			g, kind := drawNormGroup(rt, n, w, h)
			pts := scaledAll(g, w, h)
			polys := polygonation.Polygonate(g, w, h)
			cells := staticCells(pts, w, h)
			tol := cellTolerance(w, h)
			want := map[string]int{}
			tie := false
			for _, cell := range cells {
				var p []geom.Point
				for _, q := range cell {
					x, y := math.Floor(q.X+0.5), math.Floor(q.Y+0.5)
					p = append(p, geom.Point{X: int(x), Y: int(y)})
					for _, f := range []float64{q.X, q.Y} {
						if d := math.Abs(f - math.Floor(f) - 0.5); d < tol && d != 0 {
							tie = true
						}
					}
				}
				want[ring(p)]++
			}
			if len(polys) != len(cells) {
				rt.Fatalf("%dx%d %s: %d polygons for %d cells", w, h, ptsString(pts), len(polys), len(cells))
			}
			var got []string
			for _, p := range polys {
				for _, q := range p.Points {
					if q.X < 0 || q.Y < 0 || q.X > w || q.Y > h {
						rt.Fatalf("%dx%d %s: corner %v outside of the image", w, h, ptsString(pts), q)
					}
				}
				got = append(got, ring(p.Points))
			}
			sort.Strings(got)
			if !tie {
				for _, s := range got {
					if want[s]--; want[s] < 0 {
						rt.Fatalf("%dx%d %s: polygon %s isn't a rounded cell; cells %v", w, h, ptsString(pts), s, cells)
					}
				}
			}
			// Every polygon is one of the true cells, corner by corner
			sites := distinct(pts)
			var refs [][]fpt
			for _, s := range sites {
				refs = append(refs, refCell(s, sites, w, h))
			}
			for _, p := range polys {
				ok := false
				for _, ref := range refs {
					if roundedCell(p.Points, ref, tol) {
						ok = true
						break
					}
				}
				if !ok {
					rt.Fatalf("%dx%d %s: polygon %v isn't the rounded cell of any point", w, h, ptsString(pts), p)
				}
			}
			c.LabelIf(tie, "ties")
			c.Label("%s", kind)
			c.Done(len(sites) >= 3, "%dx%d %s", w, h, ptsString(pts))
		})

	regress(t, "corners", func(t testing.TB) {
		for _, in := range []struct {
			w, h int
			pts  []ipt
		}{
			{10, 10, []ipt{{X: 5, Y: 5}}},
			{10, 10, []ipt{{X: 2, Y: 5}, {X: 8, Y: 5}}},
			{10, 10, []ipt{{X: 0, Y: 0}, {X: 10, Y: 10}}},
			{1000, 10, []ipt{{X: 500, Y: 5}, {X: 0, Y: 0}, {X: 1000, Y: 10}}},
			{7, 50, []ipt{{X: 7, Y: 50}, {X: 0, Y: 50}, {X: 3, Y: 20}, {X: 3, Y: 21}}},
			{1, 1, []ipt{{X: 0, Y: 0}, {X: 1, Y: 1}}},
		} {
			if err := checkCells(staticCells(in.pts, in.w, in.h), in.pts, in.w, in.h); err != nil {
				t.Fatal(in, err)
			}
			v := incrdelaunay.NewVoronoi(in.w, in.h)
			for i, p := range in.pts {
				v.Insert(p)
				if err := checkCells(cellsOf(v.IterPolygons), in.pts[:i+1], in.w, in.h); err != nil {
					t.Fatal(in, i, err)
				}
			}
		}
	})
}

// roundedCell tells if the corners of a polygon are those of a cell moved to the nearest pixel.
func roundedCell(p []geom.Point, ref []fpt, tol float64) bool {
	near := func(q geom.Point, r fpt) bool {
		return math.Abs(float64(q.X)-r.X) <= 0.5+tol && math.Abs(float64(q.Y)-r.Y) <= 0.5+tol
	}
	for _, q := range p {
		ok := false
		for _, r := range ref {
			ok = ok || near(q, r)
		}
		if !ok {
			return false
		}
	}
	for _, r := range ref {
		ok := false
		for _, q := range p {
			ok = ok || near(q, r)
		}
		if !ok {
			return false
		}
	}
	return true
}
