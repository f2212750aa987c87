package harness

import (
	"fmt"
	"testing"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/rasterize"
	"pgregory.net/rapid"
)

// splitRectangle triangulates a w x h rectangle by inserting points into the triangles that contain them.
func splitRectangle(w, h int, pts []ipt) []tri3 {
	a, b, c, d := pt(0, 0), pt(w, 0), pt(w, h), pt(0, h)
	ts := []tri3{{a, b, c}, {a, c, d}}
	for _, p := range pts {
		var next []tri3
		for _, t := range ts {
			s := orient(t[0], t[1], t[2])
			var o [3]int64
			inside := true
			for i := 0; i < 3; i++ {
				o[i] = orient(t[i], t[(i+1)%3], p)
				if s < 0 {
					o[i] = -o[i]
				}
				inside = inside && o[i] >= 0
			}
			if !inside {
				next = append(next, t)
				continue
			}
			for i := 0; i < 3; i++ {
				if o[i] > 0 {
					next = append(next, tri3{t[i], t[(i+1)%3], p})
				}
			}
		}
		ts = next
	}
	return ts
}

func gtri(t tri3, r *rng) geom.Triangle {
	i := 0
	if r != nil {
		i = r.intn(6)
	}
	p := [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[i]
	g := func(p ipt) geom.Point { return geom.Point{X: int(p.X), Y: int(p.Y)} }
	return geom.Triangle{Points: [3]geom.Point{g(t[p[0]]), g(t[p[1]]), g(t[p[2]])}}
}

func TestC12(t *testing.T) {
	rectangle := func(rt *rapid.T, c *Case, w, h int) {
		src := drawPointSource(rt, w, h)
		n := drawCount(rt, "n", 0, 25)
		if w*h > 10000 && rapid.Bool().Draw(rt, "many") {
			n *= 10
		}
		var pts []ipt
		for i := 0; i < n; i++ {
			pts = append(pts, src.next())
		}
		ts := splitRectangle(w, h, pts)
		r := drawRng(rt, "order")
		bs := drawBlockSize(rt)
		budget := 2*w*h + 100*(h+2)*(len(ts)+1) + bs*bs*len(ts)
		covers := map[string]*cover{"pixels": newCover(budget), "lines": newCover(budget), "blocks": newCover(budget)}
		for _, t := range ts {
			rasterize.DDATriangle(gtri(t, r), covers["pixels"].add)
			rasterize.DDATriangleLines(gtri(t, r), covers["lines"].line)
			rasterize.DDATriangleBlocks(gtri(t, r), bs, covers["blocks"].line, covers["blocks"].block(bs))
		}
		for name, cv := range covers {
			if err := coversExactly(cv, w, h); err != nil {
				rt.Fatalf("%dx%d %s (block size %d) of %v: %v", w, h, name, bs, ts, err)
			}
		}
		c.Label("%s", src.kind)
		c.Done(len(ts) >= 4 && w*h >= 4, "%dx%d block size %d at %s", w, h, bs, ptsString(pts))
	}
	sub(t, "rectangle", 6000, 150000,
		"a rectangle split into triangles at random points; non-trivial: at least 4 triangles and 4 pixels",
		func(rt *rapid.T, c *Case) {
			w, h := drawSize(rt, 70)
			rectangle(rt, c, w, h)
		})
	sub(t, "large", 80, 2000,
		"the same with sides of up to 13106 pixels; non-trivial: as above",
		func(rt *rapid.T, c *Case) {
			w, h := drawLarge(rt, 60000)
			rectangle(rt, c, w, h)
		})

	sub(t, "convexPolygon", 8000, 200000,
		"convex polygons from any starting corner, in either direction, against exact rows and against their pieces; non-trivial: at least 4 corners and 10 pixels",
		func(rt *rapid.T, c *Case) {
			size := pick(rt, "size", 8, 30, 30, 90)
			r := drawRng(rt, "polygon")
			dx, dy := 0, 0
			if r.chance(0.2) { // somewhere else
				dx, dy = r.intn(1<<r.intn(15)), r.intn(1<<r.intn(15))
			}
			var pts []ipt
			for i := 3 + r.intn(14); i > 0; i-- {
				pts = append(pts, pt(r.intn(size+1), r.intn(size+1)))
			}
			hl := hull(pts)
			if len(hl) < 3 {
				hl = []ipt{pt(0, 0), pt(size, 0), pt(size, size), pt(0, size)}
			}
			var poly geom.Polygon
			first, back := r.intn(len(hl)), r.chance(0.5)
			for i := range hl {
				k := (first + i) % len(hl)
				if back {
					k = (first + len(hl) - i) % len(hl)
				}
				poly.Points = append(poly.Points, geom.Point{X: int(hl[k].X) + dx, Y: int(hl[k].Y) + dy})
			}
			// extra corners along the edges don't change the area
			if r.chance(0.3) {
				i := r.intn(len(poly.Points))
				a, b := poly.Points[i], poly.Points[(i+1)%len(poly.Points)]
				if (a.X+b.X)%2 == 0 && (a.Y+b.Y)%2 == 0 {
					m := geom.Point{X: (a.X + b.X) / 2, Y: (a.Y + b.Y) / 2}
					poly.Points = append(poly.Points[:i+1], append([]geom.Point{m}, poly.Points[i+1:]...)...)
				}
			}
			budget := 40 * (size + 2) * (size + 2)
			px := newCover(budget)
			rasterize.DDAPolygon(poly, px.add)
			if err := checkRows(px, poly.Points); err != nil {
				rt.Fatalf("%v: %v", poly, err)
			}
			bs := drawBlockSize(rt)
			bl := newCover(budget + 100*bs*bs)
			rasterize.DDAPolygonBlocks(poly, bs, bl.line, bl.block(bs))
			if err := px.equal(bl); err != nil {
				rt.Fatalf("pixels and blocks of size %d of %v: %v", bs, poly, err)
			}
			pieces := newCover(budget)
			var area, want int64
			poly.Triangulate(func(t geom.Triangle) {
				rasterize.DDATriangle(t, pieces.add)
				a, b, d := t.Points[0], t.Points[1], t.Points[2]
				o := orient(pt(a.X, a.Y), pt(b.X, b.Y), pt(d.X, d.Y))
				if o < 0 {
					o = -o
				}
				area += o
			})
			if err := px.equal(pieces); err != nil {
				rt.Fatalf("%v and its pieces: %v", poly, err)
			}
			if want = hullArea2(hl); area != want {
				rt.Fatalf("the pieces of %v have area %d/2 instead of %d/2", poly, area, want)
			}
			c.LabelIf(back, "clockwise")
			c.Done(len(hl) >= 4 && len(px.n) >= 10, "%v block size %d", poly.Points, bs)
		})

	sub(t, "neighbours", 8000, 200000,
		"two triangles on both sides of a common edge never share a pixel and together cover their union; non-trivial: both cover pixels",
		func(rt *rapid.T, c *Case) {
			size := pick(rt, "size", 8, 40, 200)
			r := drawRng(rt, "triangles")
			v := func() ipt { return pt(r.intn(size+1), r.intn(size+1)) }
			a, b, p, q := v(), v(), v(), v()
			var off ipt
			if r.chance(0.2) { // somewhere else
				off = pt(r.intn(1<<r.intn(15)), r.intn(1<<r.intn(15)))
			}
			if o1, o2 := orient(a, b, p), orient(a, b, q); (o1 > 0) == (o2 > 0) || o1 == 0 || o2 == 0 {
				// mirror q to the other side if possible
				q = pt(clampInt(int(a.X)+int(b.X)-int(p.X), 0, size), clampInt(int(a.Y)+int(b.Y)-int(p.Y), 0, size))
			}
			o1, o2 := orient(a, b, p), orient(a, b, q)
			if (o1 > 0) == (o2 > 0) || o1 == 0 || o2 == 0 {
				c.Label("same side")
				c.Done(false, "")
				return
			}
			x, y := newCover(1<<30), newCover(1<<30)
			for _, v := range []*ipt{&a, &b, &p, &q} {
				v.X, v.Y = v.X+off.X, v.Y+off.Y
			}
			s, t := mkTri(a, b, p), mkTri(a, b, q)
			rasterize.DDATriangle(gtri(s, r), x.add)
			rasterize.DDATriangle(gtri(t, r), y.add)
			for k := range x.n {
				if y.n[k] > 0 {
					rt.Fatalf("pixel %v belongs to both %v and %v", k, s, t)
				}
			}
			c.Done(len(x.n) > 0 && len(y.n) > 0, "%v %v", s, t)
		})
}

func coversExactly(c *cover, w, h int) error {
	for p, n := range c.n {
		if p[0] < 0 || p[1] < 0 || p[0] >= w || p[1] >= h {
			return fmt.Errorf("pixel %v is outside of the rectangle", p)
		}
		if n != 1 {
			return fmt.Errorf("pixel %v is covered %d times", p, n)
		}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if c.n[[2]int{x, y}] == 0 {
				return fmt.Errorf("pixel (%d, %d) isn't covered", x, y)
			}
		}
	}
	return nil
}
