package harness

import (
	"math"
	"testing"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/fogleman/delaunay"
	"pgregory.net/rapid"
)

func TestC22(t *testing.T) {
	// coordinate draws a coordinate, mostly between 0 and 1, sometimes special
	coordinate := func(r *rng) float64 {
		switch r.intn(12) {
		case 0:
			return float64(r.intn(2))
		case 1:
			return (r.float() - 0.5) * 1e9
		case 2:
			return math.Nextafter(1, float64(2*r.intn(2)))
		case 3:
			return math.Copysign(math.SmallestNonzeroFloat64, r.float()-0.5)
		case 4:
			return (r.float() - 0.5) * 4
		}
		return r.float()
	}
	group := func(r *rng, n int) normgeom.NormPointGroup {
		g := make(normgeom.NormPointGroup, 0, n)
		for i := 0; i < n; i++ {
			g = append(g, normgeom.NormPoint{X: coordinate(r), Y: coordinate(r)})
		}
		return g
	}
	sub(t, "copy", 16000, 400000,
		"copies are equal and independent; non-trivial: at least one point",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "group")
			n := drawCount(rt, "n", 0, 40)
			if r.chance(0.01) {
				n = r.intn(20000)
			}
			g := append(make(normgeom.NormPointGroup, 0, n+r.intn(4)), group(r, n)...)
			saved := append(normgeom.NormPointGroup(nil), g...)
			d := g.Copy()
			if !sameGroup(d, g) || !sameGroup(g, saved) {
				rt.Fatalf("%v was copied to %v", saved, d)
			}
			if n > 0 {
				i := r.intn(n)
				if r.chance(0.5) {
					d[i].X += 5
				} else {
					d[i].Y -= 5
				}
				_ = append(d, normgeom.NormPoint{X: 9})
				if !sameGroup(g, saved) {
					rt.Fatalf("%v changed with its copy to %v", saved, g)
				}
				e := g.Copy()
				g[i].Y += 3
				g[r.intn(n)].X -= 3
				if !sameGroup(e, saved) {
					rt.Fatalf("the copy of %v changed with it to %v", saved, e)
				}
			}
			c.Done(n > 0, "%v", saved)
		})
	sub(t, "set", 16000, 400000,
		"setting a group to another, also to one of another length; non-trivial: at least one point",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "group")
			n := drawCount(rt, "n", 0, 40)
			if r.chance(0.01) {
				n = r.intn(20000)
			}
			m := n
			if rapid.IntRange(0, 2).Draw(rt, "other") == 0 {
				m = drawCount(rt, "m", 0, 40)
			}
			a, b := group(r, n), group(r, m)
			if r.chance(0.3) { // share memory
				big := append(a.Copy(), b...)
				a, b = big[:n:n], big[n:]
			}
			savedA, savedB := append(normgeom.NormPointGroup(nil), a...), append(normgeom.NormPointGroup(nil), b...)
			func() {
				defer func() {
					if p := recover(); p != nil && n == m {
						rt.Fatalf("setting %v to %v failed: %v", savedA, savedB, p)
					}
				}()
				a.Set(b)
			}()
			if !sameGroup(b, savedB) {
				rt.Fatalf("setting %v to %v changed the latter to %v", savedA, savedB, b)
			}
			if n != m {
				if !sameGroup(a, savedA) {
					rt.Fatalf("setting %v to %v of another length changed it to %v", savedA, savedB, a)
				}
			} else {
				if !sameGroup(a, savedB) {
					rt.Fatalf("setting %v to %v made it %v", savedA, savedB, a)
				}
				if n > 0 {
					i := r.intn(n)
					a[i].X += 7
					if !sameGroup(b, savedB) {
						rt.Fatalf("%v changed to %v with a group that was set to it", savedB, b)
					}
					a[i] = savedB[i]
					b[r.intn(n)].Y += 7
					if !sameGroup(a, savedB) {
						rt.Fatalf("a group that was set to %v changed to %v with it", savedB, a)
					}
				}
			}
			c.LabelIf(n != m, "different lengths")
			c.Done(n > 0 || m > 0, "%v, %v", savedA, savedB)
		})
	sub(t, "constrain", 16000, 400000,
		"each coordinate is moved to the nearest value between 0 and 1; non-trivial: a coordinate was out of range",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "point")
			p := normgeom.NormPoint{X: coordinate(r), Y: coordinate(r)}
			if r.chance(0.1) {
				p.X = math.Inf(1 - 2*r.intn(2))
			}
			q := p
			q.Constrain()
			near := func(v float64) float64 { return math.Min(1, math.Max(0, v)) }
			if q.X != near(p.X) || q.Y != near(p.Y) {
				rt.Fatalf("%v was constrained to %v", p, q)
			}
			s := q
			s.Constrain()
			if s != q {
				rt.Fatalf("constraining %v again gives %v", q, s)
			}
			c.Done(q != p, "%v", p)
		})
	sub(t, "distance", 16000, 400000,
		"distances are Euclidean; non-trivial: different points",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "points")
			g := group(r, 2)
			want := math.Hypot(g[0].X-g[1].X, g[0].Y-g[1].Y)
			d, e := normgeom.Dist(g[0], g[1]), normgeom.Dist(g[1], g[0])
			if !(math.Abs(d-want) <= 1e-12*want+1e-150) || d != e || normgeom.Dist(g[0], g[0]) != 0 {
				rt.Fatalf("the distance from %v to %v is %v, back %v, not %v", g[0], g[1], d, e, want)
			}
			a := geom.Point{X: r.intn(20001) - 10000, Y: r.intn(20001) - 10000}
			b := geom.Point{X: r.intn(20001) - 10000, Y: r.intn(20001) - 10000}
			dx, dy := a.X-b.X, a.Y-b.Y
			if a.DistSq(b) != dx*dx+dy*dy || b.DistSq(a) != dx*dx+dy*dy || a.Sub(b) != (geom.Point{X: dx, Y: dy}) {
				rt.Fatalf("%v and %v: squared distance %d, difference %v", a, b, a.DistSq(b), a.Sub(b))
			}
			c.Done(g[0] != g[1], "%v %v %v %v", g[0], g[1], a, b)
		})
	sub(t, "normalising", 16000, 400000,
		"integer points, triangles and polygons converted to normalised ones and scaled back; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "shape")
			w, h := 1+r.intn(5000), 1+r.intn(5000)
			if r.chance(0.2) {
				w, h = 1+r.intn(5), 1+r.intn(5)
			} else if r.chance(0.1) {
				w, h = 1+r.intn(1000000), 1+r.intn(1000000)
			}
			point := func() geom.Point {
				if r.chance(0.2) {
					return geom.Point{X: r.intn(2) * w, Y: r.intn(2) * h}
				}
				return geom.Point{X: r.intn(w + 1), Y: r.intn(h + 1)}
			}
			check := func(p normgeom.NormPoint, v geom.Point) {
				x, y := p.X*float64(w), p.Y*float64(h)
				if math.Abs(x-float64(v.X)) > 1e-9 || math.Abs(y-float64(v.Y)) > 1e-9 || p.X < 0 || p.X > 1 || p.Y < 0 || p.Y > 1 {
					rt.Fatalf("%v became %v on a %dx%d image", v, p, w, h)
				}
			}
			a, b, d := point(), point(), point()
			check(a.ToNorm(w, h), a)
			tri := geom.NewTriangle(a.X, a.Y, b.X, b.Y, d.X, d.Y)
			if tri.Points != [3]geom.Point{a, b, d} {
				rt.Fatalf("the triangle %v %v %v became %v", a, b, d, tri)
			}
			for i, p := range tri.ToNorm(w, h).Points {
				check(p, tri.Points[i])
			}
			nt := normgeom.NewNormTriangle(float64(a.X), float64(a.Y), float64(b.X), float64(b.Y), float64(d.X), float64(d.Y))
			for i, p := range nt.Points {
				if p.X != float64(tri.Points[i].X) || p.Y != float64(tri.Points[i].Y) {
					rt.Fatalf("the normalised triangle of %v is %v", tri, nt)
				}
			}
			var poly geom.Polygon
			corners := r.intn(12)
			if r.chance(0.02) {
				corners = r.intn(1000)
			}
			for i := corners; i > 0; i-- {
				poly.Points = append(poly.Points, point())
			}
			saved := append([]geom.Point(nil), poly.Points...)
			np := poly.ToNorm(w, h)
			if len(np.Points) != len(saved) {
				rt.Fatalf("%v became %v", saved, np)
			}
			for i, p := range np.Points {
				check(p, saved[i])
				if poly.Points[i] != saved[i] {
					rt.Fatalf("%v changed to %v", saved, poly.Points)
				}
			}
			c.Done(true, "%dx%d %v %v", w, h, tri, poly)
		})
	sub(t, "area", 12000, 300000,
		"the area of convex polygons from every vertex in both directions; non-trivial: non-zero area",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			src := drawPointSource(rt, w, h)
			var pts []ipt
			n := drawCount(rt, "n", 1, 20)
			if src.kind == "wheel" {
				n *= 10
			}
			for i := n; i > 0; i-- {
				pts = append(pts, src.next())
			}
			hl := hull(pts)
			// Anywhere and of any size, as long as the sums are exact
			scale, dx, dy := int64(1), int64(0), int64(0)
			if r := drawRng(rt, "scale"); r.chance(0.5) {
				scale = int64(1 + r.intn(1<<uint(r.intn(14))))
				dx, dy = int64(r.intn(20001)-10000), int64(r.intn(20001)-10000)
			}
			want := float64(hullArea2(pts)) / 2 * float64(scale*scale)
			type big struct{ X, Y int64 }
			var moved []big
			for _, v := range hl {
				moved = append(moved, big{int64(v.X)*scale + dx, int64(v.Y)*scale + dy})
			}
			for dir := 0; dir < 2; dir++ {
				for o := range hl {
					var p []delaunay.Point
					for k := range hl {
						i := (o + k) % len(hl)
						if dir == 1 {
							i = (o + len(hl) - k) % len(hl)
						}
						p = append(p, delaunay.Point{X: float64(moved[i].X), Y: float64(moved[i].Y)})
					}
					if a := triangulation.Area(p); math.Abs(float64(a)-want) > 0.5 {
						rt.Fatalf("the area of %v is %d, not %v", p, a, want)
					} else if o+dir > 0 {
						q := []delaunay.Point{}
						for _, v := range moved {
							q = append(q, delaunay.Point{X: float64(v.X), Y: float64(v.Y)})
						}
						if b := triangulation.Area(q); a != b {
							rt.Fatalf("the area of %v is %d, that of %v is %d", p, a, q, b)
						}
					}
				}
			}
			c.Done(want > 0, "%s times %d and moved by (%d, %d)", ptsString(hl), scale, dx, dy)
		})
	sub(t, "average", 8000, 200000,
		"the running average of colours; non-trivial: at least two colours",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "colours")
			n := drawCount(rt, "n", 1, 300)
			if r.chance(0.01) {
				n = 1 + r.intn(300000)
			}
			var avg color.AverageRGB
			if avg.Count() != 0 {
				rt.Fatalf("a new average counts %d colours", avg.Count())
			}
			var sum [3]float64
			first := color.RGB{}
			for i := 1; i <= n; i++ {
				v := color.NewRGB(r.float(), r.float(), r.float())
				if r.chance(0.2) {
					v = color.RGB{R: float64(r.intn(2)), G: float64(r.intn(2)), B: float64(r.intn(2))}
				}
				if i == 1 {
					first = v
				}
				avg.Add(v)
				sum[0], sum[1], sum[2] = sum[0]+v.R, sum[1]+v.G, sum[2]+v.B
				if int(avg.Count()) != i {
					rt.Fatalf("%d colours were added, but %d are counted", i, avg.Count())
				}
				k := float64(i)
				if !closeColor(avg.Average(), color.RGB{R: sum[0] / k, G: sum[1] / k, B: sum[2] / k}) {
					rt.Fatalf("the average of %d colours with sums %v is %v", i, sum, avg.Average())
				}
			}
			c.Done(n >= 2, "%d colours from %v", n, first)
		})
}
