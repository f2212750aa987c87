package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"pgregory.net/rapid"
)

// expectColor is the colour a rendered shape should have, and whether it covers any pixel. Rounding the corners
// of a Voronoi cell may dent it, so that the pieces a polygon consists of overlap; their pixels then count
// each time, as they do for the fitness.
func expectColor(m *testImage, vertices []geom.Point, raster func(func(x, y int))) (color.RGB, bool, string) {
	dented := !convex(vertices) || flatPiece(vertices)
	seen := map[[2]int]bool{}
	sum := &shapeSum{m: m}
	problem := ""
	raster(func(x, y int) {
		if seen[[2]int{x, y}] && !dented {
			problem = "a pixel is covered twice"
		}
		seen[[2]int{x, y}] = true
		sum.add(x, y)
	})
	if sum.outside > 0 {
		problem = "pixels outside the image are covered"
	}
	covered := sum.n > 0
	if !covered {
		for _, v := range vertices {
			sum.add(clampInt(v.X, 0, m.w-1), clampInt(v.Y, 0, m.h-1))
		}
	}
	n := float64(sum.n) * 255
	return color.RGB{R: float64(sum.r) / n, G: float64(sum.g) / n, B: float64(sum.b) / n}, covered, problem
}

// convex tells if a polygon only turns in one direction, once around.
func convex(p []geom.Point) bool {
	var ps []ipt
	for _, v := range p {
		ps = append(ps, pt(v.X, v.Y))
	}
	turn, area := 0, int64(0)
	for i := range ps {
		o := orient(ps[i], ps[(i+1)%len(ps)], ps[(i+2)%len(ps)])
		if o > 0 {
			turn |= 1
		}
		if o < 0 {
			turn |= 2
		}
		area += int64(ps[i].X)*int64(ps[(i+1)%len(ps)].Y) - int64(ps[i].Y)*int64(ps[(i+1)%len(ps)].X)
	}
	if area < 0 {
		area = -area
	}
	return turn != 3 && area == hullArea2(ps)
}

func closeColor(a, b color.RGB) bool {
	return math.Abs(a.R-b.R) <= 1e-9 && math.Abs(a.G-b.G) <= 1e-9 && math.Abs(a.B-b.B) <= 1e-9
}

// inRange tells if a colour lies between the image's lowest and highest colours.
func (m *testImage) inRange(c color.RGB) bool {
	if m.lo[0] == 0 && m.hi[0] == 0 {
		m.lo, m.hi = [3]float64{1, 1, 1}, [3]float64{}
		for _, p := range m.pix {
			for i := range p {
				v := float64(p[i]) / 255
				m.lo[i], m.hi[i] = math.Min(m.lo[i], v), math.Max(m.hi[i], v)
			}
		}
	}
	lo, hi := m.lo, m.hi
	for i, v := range [3]float64{c.R, c.G, c.B} {
		if !(v >= lo[i]-1e-9 && v <= hi[i]+1e-9) {
			return false
		}
	}
	return true
}

// shifted is sometimes a copy of a shape shifted by powers of two (including none), if that's inside the image.
func shifted(vs []geom.Point, w, h int, r *rng) []geom.Point {
	if !r.chance(0.5) {
		return nil
	}
	shift := func(size int) int {
		n := 0
		for 2<<n <= size {
			n++
		}
		k := n - r.intn(n+2)
		if r.chance(0.5) {
			k = n - r.intn(min(3, n+2))
		}
		if k < 0 {
			return 0
		}
		return (1 << k) * (2*r.intn(2) - 1)
	}
	dx, dy := shift(w), 0
	if r.chance(0.3) {
		dy = shift(h)
	}
	var s []geom.Point
	for _, v := range vs {
		p := geom.Point{X: v.X + dx, Y: v.Y + dy}
		if p.X < 0 || p.Y < 0 || p.X > w || p.Y > h {
			return nil
		}
		s = append(s, p)
	}
	return s
}

func sameNorm(p normgeom.NormPoint, v geom.Point, w, h int) bool {
	return math.Abs(p.X-float64(v.X)/float64(w)) < 1e-12 && math.Abs(p.Y-float64(v.Y)/float64(h)) < 1e-12
}

func TestC15(t *testing.T) {
	checkTriangles := func(rt *rapid.T, m *testImage, ts []geom.Triangle) int {
		in := append([]geom.Triangle(nil), ts...)
		out := render.TrianglesOnImage(ts, m)
		if len(out) != len(ts) {
			rt.Fatalf("%v: %d triangles became %d", m, len(ts), len(out))
		}
		covered := 0
		for i, o := range out {
			if ts[i] != in[i] {
				rt.Fatalf("triangle %d was changed", i)
			}
			want, ok, problem := expectColor(m, ts[i].Points[:], func(f func(x, y int)) { rasterize.DDATriangle(ts[i], f) })
			if problem != "" {
				rt.Fatalf("%v, triangle %v: %s", m, ts[i], problem)
			}
			if ok {
				covered++
			}
			for k, p := range o.Triangle.Points {
				if !sameNorm(p, ts[i].Points[k], m.w, m.h) {
					rt.Fatalf("%v, triangle %v became %v", m, ts[i], o.Triangle)
				}
			}
			if !closeColor(o.Color, want) {
				rt.Fatalf("%v, triangle %v (of %d) has colour %v, not %v", m, ts[i], len(ts), o.Color, want)
			}
			if !m.inRange(o.Color) {
				rt.Fatalf("%v, triangle %v has colour %v, which is out of the image's range", m, ts[i], o.Color)
			}
		}
		return covered
	}
	checkPolygons := func(rt *rapid.T, m *testImage, ps []geom.Polygon) int {
		var in []geom.Polygon
		for _, p := range ps {
			in = append(in, geom.Polygon{Points: append([]geom.Point(nil), p.Points...)})
		}
		out := render.PolygonsOnImage(ps, m)
		if len(out) != len(ps) {
			rt.Fatalf("%v: %d polygons became %d", m, len(ps), len(out))
		}
		covered := 0
		for i, o := range out {
			p := in[i]
			want, ok, problem := expectColor(m, p.Points, func(f func(x, y int)) { rasterize.DDAPolygon(p, f) })
			if problem != "" {
				rt.Fatalf("%v, polygon %v: %s", m, p, problem)
			}
			if ok {
				covered++
			}
			if len(o.Polygon.Points) != len(p.Points) || len(ps[i].Points) != len(p.Points) {
				rt.Fatalf("%v, polygon %v became %v", m, p, o.Polygon)
			}
			for k, q := range o.Polygon.Points {
				if !sameNorm(q, p.Points[k], m.w, m.h) || ps[i].Points[k] != p.Points[k] {
					rt.Fatalf("%v, polygon %v became %v", m, p, o.Polygon)
				}
			}
			if !closeColor(o.Color, want) {
				rt.Fatalf("%v, polygon %v (of %d) has colour %v, not %v", m, p, len(ps), o.Color, want)
			}
			if !m.inRange(o.Color) {
				rt.Fatalf("%v, polygon %v has colour %v, which is out of the image's range", m, p, o.Color)
			}
		}
		return covered
	}
	checkAnyTriangles := func(rt *rapid.T, c *Case, w, h int) {
		m := drawImage(rt, w, h, false)
		src := drawPointSource(rt, w, h)
		r := drawRng(rt, "size")
		local := r.chance(0.4)
		var ts []geom.Triangle
		for i := drawCount(rt, "n", 0, 12); i > 0; i-- {
			var g geom.Triangle
			a := src.next()
			for k := range g.Points {
				p := src.next()
				if local && k > 0 { // a small one
					p = pt(clampInt(int(a.X)+r.intn(5)-2, 0, w), clampInt(int(a.Y)+r.intn(5)-2, 0, h))
				}
				if k == 0 {
					p = a
				}
				g.Points[k] = geom.Point{X: int(p.X), Y: int(p.Y)}
			}
			ts = append(ts, g)
			if s := shifted(g.Points[:], w, h, r); s != nil {
				ts = append(ts, geom.Triangle{Points: [3]geom.Point{s[0], s[1], s[2]}})
			}
		}
		covered := checkTriangles(rt, m, ts)
		c.Label("%s", src.kind)
		c.LabelIf(covered < len(ts), "with triangles that cover no pixel")
		c.Done(covered > 0, "%v %v", m, ts)
	}
	sub(t, "triangles", 12000, 300000,
		"arbitrary triangles inside the image, down to degenerate ones and ones on its border; non-trivial: a triangle covers a pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 50)
			checkAnyTriangles(rt, c, w, h)
		})
	sub(t, "triangulations", 4000, 100000,
		"triangulated point groups; non-trivial: a triangle covers a pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 60)
			m := drawImage(rt, w, h, false)
			g, kind := drawNormGroup(rt, drawCount(rt, "n", 1, 50), w, h)
			ts := triangulation.Triangulate(g, w, h)
			covered := checkTriangles(rt, m, ts)
			c.Label("%s", kind)
			c.Done(covered > 0, "%v %s", m, ptsString(scaledAll(g, w, h)))
		})
	checkAnyPolygons := func(rt *rapid.T, c *Case, w, h int) {
		m := drawImage(rt, w, h, false)
		src := drawPointSource(rt, w, h)
		r := drawRng(rt, "polygon")
		var ps []geom.Polygon
		for i := drawCount(rt, "n", 0, 8); i > 0; i-- {
			var pts []ipt
			for k := 1 + r.intn(8); k > 0; k-- {
				pts = append(pts, src.next())
			}
			hl := hull(pts)
			var p geom.Polygon
			o := r.intn(len(hl))
			for k := range hl {
				v := hl[(k+o)%len(hl)]
				p.Points = append(p.Points, geom.Point{X: int(v.X), Y: int(v.Y)})
			}
			if r.chance(0.5) {
				for a, b := 0, len(p.Points)-1; a < b; a, b = a+1, b-1 {
					p.Points[a], p.Points[b] = p.Points[b], p.Points[a]
				}
			}
			ps = append(ps, p)
			if s := shifted(p.Points, w, h, r); s != nil {
				ps = append(ps, geom.Polygon{Points: s})
			}
		}
		covered := checkPolygons(rt, m, ps)
		c.Label("%s", src.kind)
		c.LabelIf(covered < len(ps), "with polygons that cover no pixel")
		c.Done(covered > 0, "%v %v", m, ps)
	}
	sub(t, "polygons", 8000, 200000,
		"convex polygons inside the image (hulls of points, starting anywhere, in both directions), down to degenerate ones; non-trivial: a polygon covers a pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 50)
			checkAnyPolygons(rt, c, w, h)
		})
	sub(t, "large", 960, 24000,
		"triangles or polygons on images of up to 13106 pixels a side; non-trivial: a shape covers a pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawLarge(rt, 150000)
			switch rapid.IntRange(0, 3).Draw(rt, "shapes") {
			case 0:
				checkAnyTriangles(rt, c, w, h)
			case 1:
				checkAnyPolygons(rt, c, w, h)
			default:
				m := drawImage(rt, w, h, false)
				g, _ := drawNormGroup(rt, drawCount(rt, "n", 1, []int{200, 200, 200, 2000}[rapid.IntRange(0, 3).Draw(rt, "most")]), w, h)
				covered := 0
				if rapid.Bool().Draw(rt, "polygons") {
					covered = checkPolygons(rt, m, polygonation.Polygonate(g, w, h))
				} else {
					covered = checkTriangles(rt, m, triangulation.Triangulate(g, w, h))
				}
				c.Done(covered > 0, "%v %s", m, ptsString(scaledAll(g, w, h)))
			}
		})
	sub(t, "polygonations", 4000, 100000,
		"polygonated point groups; non-trivial: a polygon covers a pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 60)
			m := drawImage(rt, w, h, false)
			g, kind := drawNormGroup(rt, drawCount(rt, "n", 1, 40), w, h)
			covered := checkPolygons(rt, m, polygonation.Polygonate(g, w, h))
			c.Label("%s", kind)
			c.Done(covered > 0, "%v %s", m, ptsString(scaledAll(g, w, h)))
		})
	sub(t, "wide", 160, 4000,
		"triangles on images of up to 100000 pixels a side; non-trivial: a triangle covers a pixel",
		func(rt *rapid.T, c *Case) {
			w, h := drawWideSize(rt, 100000, 300000)
			m := drawImage(rt, w, h, false)
			ts := drawWideTriangles(rt, w, h)
			covered := checkTriangles(rt, m, ts)
			c.Done(covered > 0, "%v %v", m, ts)
		})
	sub(t, "repainted", 400, 20000,
		"shapes rendered onto one image object that is painted over in between; non-trivial: more than one pixel was painted",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 30)
			m := drawImage(rt, w, h, false)
			g, _ := drawNormGroup(rt, drawCount(rt, "n", 3, 12), w, h)
			r := drawRng(rt, "paint")
			ts := triangulation.Triangulate(g, w, h)
			ps := polygonation.Polygonate(g, w, h)
			painted := 0
			for i := 0; i < 3; i++ {
				td, pd := render.TrianglesOnImage(ts, m), render.PolygonsOnImage(ps, m)
				n := *m // a new object with the same colours
				td2, pd2 := render.TrianglesOnImage(ts, &n), render.PolygonsOnImage(ps, &n)
				for k, t := range ts {
					want, ok, _ := expectColor(&n, t.Points[:], func(f func(x, y int)) { rasterize.DDATriangle(t, f) })
					if td[k].Color != td2[k].Color || (ok && !closeColor(td[k].Color, want)) {
						rt.Fatalf("%v, painted over %d times: triangle %v has the colour %v, not %v", m, i, t, td[k].Color, want)
					}
				}
				for k, p := range ps {
					want, ok, _ := expectColor(&n, p.Points, func(f func(x, y int)) { rasterize.DDAPolygon(p, f) })
					if pd[k].Color != pd2[k].Color || (ok && !closeColor(pd[k].Color, want)) {
						rt.Fatalf("%v, painted over %d times: polygon %v has the colour %v, not %v", m, i, p, pd[k].Color, want)
					}
				}
				for k := r.intn(len(m.pix)) + 1; k > 0; k-- {
					m.pix[r.intn(len(m.pix))] = [3]uint8{uint8(r.next()), uint8(r.next()), uint8(r.next())}
					painted++
				}
			}
			c.Done(painted > 1, "%v, %s", m, ptsString(scaledAll(g, w, h)))
		})
	sub(t, "megapixels", 40, 800,
		"shapes that cover most of an image of up to 20 million pixels; non-trivial: a shape covers more than 100000 pixels",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "shape")
			side := 600 + r.intn(1500)
			if r.chance(0.1) {
				side = 4000 + r.intn(600)
			}
			w, h := side+r.intn(100), side-r.intn(100)
			if r.chance(0.3) { // long ones
				w, h = min(maxSide, w*3), h/3
			}
			m := &madeImage{w, h, r.next(), r.intn(256), r.intn(256)}
			v := func() geom.Point {
				return geom.Point{X: clampInt(r.intn(w*3/2)-w/4, 0, w), Y: clampInt(r.intn(h*3/2)-h/4, 0, h)}
			}
			var got color.RGB
			var n, red, green, blue int64
			add := func(x, y int) {
				p := m.at(x, y)
				n, red, green, blue = n+1, red+int64(p[0]), green+int64(p[1]), blue+int64(p[2])
			}
			desc := ""
			if r.chance(0.5) {
				tri := geom.Triangle{Points: [3]geom.Point{v(), v(), v()}}
				got = render.TrianglesOnImage([]geom.Triangle{tri}, m)[0].Color
				rasterize.DDATriangle(tri, add)
				desc = fmt.Sprint(tri)
			} else {
				var pts []ipt
				for k := 0; k < 7; k++ {
					p := v()
					pts = append(pts, pt(p.X, p.Y))
				}
				var poly geom.Polygon
				for _, p := range hull(pts) {
					poly.Points = append(poly.Points, geom.Point{X: int(p.X), Y: int(p.Y)})
				}
				got = render.PolygonsOnImage([]geom.Polygon{poly}, m)[0].Color
				rasterize.DDAPolygon(poly, add)
				desc = fmt.Sprint(poly)
			}
			tick()
			if n == 0 {
				c.Done(false, "")
				return
			}
			f := 255 * float64(n)
			want := color.RGB{R: float64(red) / f, G: float64(green) / f, B: float64(blue) / f}
			if d := math.Max(math.Abs(got.R-want.R), math.Max(math.Abs(got.G-want.G), math.Abs(got.B-want.B))); !(d < 1e-8) {
				rt.Fatalf("%+v: %s has the colour %v, but the mean of its %d pixels is %v", *m, desc, got, n, want)
			}
			c.LabelIf(n > 1<<20, "more than 2^20 pixels")
			c.LabelIf(n > 1<<22, "more than 2^22 pixels")
			c.Done(n > 100000, "%+v %s: %d pixels", *m, desc, n)
		})
}

// madeImage is an image whose colours are made on demand: a gradient and noise.
type madeImage struct {
	w, h   int
	seed   uint64
	gx, gy int
}

func (m *madeImage) Size() (int, int) { return m.w, m.h }
func (m *madeImage) at(x, y int) [3]uint8 {
	k := (uint64(x)*0x9e3779b97f4a7c15 ^ uint64(y)*0xbf58476d1ce4e5b9) + m.seed
	k ^= k >> 29
	noise := int(k & 15)
	return [3]uint8{uint8((x*m.gx/m.w + noise) & 255), uint8((y*m.gy/m.h + noise) & 255), uint8((x*m.gy/m.w + y*m.gx/m.h + noise) >> 1 & 255)}
}
func (m *madeImage) RGBAt(x, y int) color.RGB {
	p := m.at(x, y)
	return color.RGB{R: float64(p[0]) / 255, G: float64(p[1]) / 255, B: float64(p[2]) / 255}
}
