package harness

import (
	"fmt"
	"testing"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/rasterize"
	"pgregory.net/rapid"
)

// run is the pixels [x0, x1) of a row.
type run struct{ x0, x1 int }

// cover counts how often each pixel is covered.
type cover struct {
	n      map[[2]int]int
	calls  int
	budget int
	err    string
}

func newCover(budget int) *cover { return &cover{n: map[[2]int]int{}, budget: budget} }

func (c *cover) add(x, y int) {
	c.calls++
	if c.calls > c.budget {
		panic(fmt.Sprintf("more than %d pixels rasterized", c.budget))
	}
	c.n[[2]int{x, y}]++
}

func (c *cover) line(x0, x1, y int) {
	c.calls++
	if c.calls > c.budget {
		panic(fmt.Sprintf("more than %d lines rasterized", c.budget))
	}
	for x := x0; x < x1; x++ {
		c.add(x, y)
	}
}

func (c *cover) block(n int) func(x, y int) {
	return func(x, y int) {
		for j := 0; j < n; j++ {
			for i := 0; i < n; i++ {
				c.add(x+i, y+j)
			}
		}
	}
}

func (c *cover) equal(o *cover) error {
	for p, n := range c.n {
		if o.n[p] != n {
			return fmt.Errorf("pixel %v is covered %d and %d times", p, n, o.n[p])
		}
	}
	for p, n := range o.n {
		if c.n[p] != n {
			return fmt.Errorf("pixel %v is covered %d and %d times", p, c.n[p], n)
		}
	}
	return nil
}

// crossing is the exact intersection num/den of an edge with a row.
type crossing struct {
	num, den int
	inner    bool // not at an end of the edge, nor on a vertical one
}

func cross(ax, ay, bx, by, y int) crossing {
	if ay > by {
		ax, ay, bx, by = bx, by, ax, ay
	}
	den := by - ay
	return crossing{ax*den + (bx-ax)*(y-ay), den, y != ay && bx != ax}
}

func (c crossing) less(d crossing) bool { return c.num*d.den < d.num*c.den }

// floor also tells if the crossing is an exact integer where floating-point evaluation may fall just below.
func (c crossing) floor() (int, bool) {
	q := c.num / c.den
	if c.num%c.den != 0 && c.num < 0 {
		q--
	}
	return q, c.num%c.den == 0 && c.inner
}

// refRows returns the pixels of a convex polygon by row, from exact edge crossings; soft[y] tells which ends
// of the run may be one less because the crossing is an exact integer.
func refRows(poly []geom.Point) (rows map[int]run, soft map[int][2]bool) {
	rows, soft = map[int]run{}, map[int][2]bool{}
	flat := flatPiece(poly)
	top, bottom := poly[0].Y, poly[0].Y
	for _, p := range poly {
		top, bottom = min(top, p.Y), max(bottom, p.Y)
	}
	for y := top; y < bottom; y++ {
		var l, r crossing
		first := true
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			if a.Y == b.Y || y < min(a.Y, b.Y) || y >= max(a.Y, b.Y) {
				continue
			}
			k := cross(a.X, a.Y, b.X, b.Y, y)
			if first || k.less(l) {
				l = k
			} else if !l.less(k) {
				l.inner = l.inner || k.inner
			}
			if first || r.less(k) {
				r = k
			} else if !k.less(r) {
				r.inner = r.inner || k.inner
			}
			first = false
		}
		x0, s0 := l.floor()
		x1, s1 := r.floor()
		if flat { // edges meet the row inside of an edge of the piece
			s0, s1 = l.num%l.den == 0, r.num%r.den == 0
		}
		rows[y], soft[y] = run{x0, x1}, [2]bool{s0, s1}
	}
	return
}

// flatPiece tells if a piece of a polygon's fan has no area.
func flatPiece(poly []geom.Point) bool {
	if len(poly) < 4 {
		return false
	}
	g := func(p geom.Point) ipt { return pt(p.X, p.Y) }
	for i := 2; i < len(poly); i++ {
		if orient(g(poly[0]), g(poly[i-1]), g(poly[i])) == 0 {
			return true
		}
	}
	return false
}

// checkRows compares covered pixels with the exact rows of a convex polygon.
func checkRows(c *cover, poly []geom.Point) error {
	rows, soft := refRows(poly)
	flat := flatPiece(poly)
	seen := map[int][]int{}
	for p, n := range c.n {
		r, ok := rows[p[1]]
		if !ok {
			return fmt.Errorf("pixel %v lies above or below the shape", p)
		}
		s := soft[p[1]]
		// A flat piece of a polygon with corners along an edge covers nothing but such a pixel.
		again := n == 2 && flat && (s[0] && p[0] == r.x0-1 || s[1] && p[0] == r.x1-1)
		if n != 1 && !again {
			return fmt.Errorf("pixel %v is covered %d times", p, n)
		}
		seen[p[1]] = append(seen[p[1]], p[0])
	}
	for y, r := range rows {
		s := soft[y]
		want := map[int]bool{}
		for x := r.x0; x < r.x1; x++ {
			want[x] = true
		}
		for _, x := range seen[y] {
			if !want[x] && !(s[0] && x == r.x0-1) {
				return fmt.Errorf("pixel (%d, %d) is covered, but the row is [%d, %d)", x, y, r.x0, r.x1)
			}
			delete(want, x)
		}
		for x := range want {
			if !(s[1] && x == r.x1-1) {
				return fmt.Errorf("pixel (%d, %d) isn't covered, but the row is [%d, %d)", x, y, r.x0, r.x1)
			}
		}
	}
	return nil
}

// drawTriangle draws a triangle, including thin, flat and degenerate ones.
func drawTriangle(rt *rapid.T) (geom.Triangle, string) {
	size := pick(rt, "size", 6, 20, 20, 60, 200)
	kind := pick(rt, "triangleKind", "any", "any", "flat", "thin", "right", "collinear", "sliver")
	r := drawRng(rt, "triangle")
	v := func() int { return r.intn(size + 1) }
	var t geom.Triangle
	switch kind {
	case "any":
		if size <= 20 && rapid.Bool().Draw(rt, "explicit") {
			d := func() int { return rapid.IntRange(0, size).Draw(rt, "coord") }
			t = geom.NewTriangle(d(), d(), d(), d(), d(), d())
		} else {
			t = geom.NewTriangle(v(), v(), v(), v(), v(), v())
		}
	case "flat":
		y := v()
		t = geom.NewTriangle(v(), y, v(), y, v(), v())
	case "thin":
		x, y := v(), v()
		t = geom.NewTriangle(x, y, x+r.intn(3), y+v(), x+r.intn(3), y+v())
	case "right":
		x, y := v(), v()
		t = geom.NewTriangle(x, y, x+v(), y, x, y+v())
	case "collinear":
		dx, dy := r.intn(7), r.intn(7)
		x, y := v(), v()
		k, l := r.intn(5), r.intn(5)
		t = geom.NewTriangle(x, y, x+k*dx, y+k*dy, x+l*dx, y+l*dy)
	case "sliver":
		x, y, dx, dy := r.intn(3), r.intn(3), 1+v(), 1+v()
		k := 1 + r.intn(3)
		t = geom.NewTriangle(x, y, x+k*dx, y+k*dy, x+dx+r.intn(2), y+dy+r.intn(2))
	}
	if r.chance(0.2) { // somewhere else
		dx, dy := r.intn(1<<r.intn(21)), r.intn(1<<r.intn(21))
		for i := range t.Points {
			t.Points[i].X += dx
			t.Points[i].Y += dy
		}
	}
	for i := r.intn(6); i > 0; i-- { // any vertex order
		a, b := r.intn(3), r.intn(3)
		t.Points[a], t.Points[b] = t.Points[b], t.Points[a]
	}
	return t, kind
}

func drawBlockSize(rt *rapid.T) int {
	r := drawRng(rt, "block")
	switch rapid.IntRange(0, 3).Draw(rt, "blockKind") {
	case 0:
		return rapid.IntRange(1, 6).Draw(rt, "block")
	case 1:
		return 1 + r.intn(40)
	default:
		return 1 + r.intn(9)
	}
}

func bbox(pts []geom.Point) (x0, y0, x1, y1 int) {
	x0, y0, x1, y1 = pts[0].X, pts[0].Y, pts[0].X, pts[0].Y
	for _, p := range pts {
		x0, x1 = min(x0, p.X), max(x1, p.X)
		y0, y1 = min(y0, p.Y), max(y1, p.Y)
	}
	return
}

func checkTriangle(t geom.Triangle, blockSizes ...int) (int, error) {
	x0, y0, x1, y1 := bbox(t.Points[:])
	budget := 4*(x1-x0+2)*(y1-y0+2) + 100
	px := newCover(budget)
	rasterize.DDATriangle(t, px.add)
	if err := checkRows(px, t.Points[:]); err != nil {
		return 0, fmt.Errorf("pixels of %v: %v", t, err)
	}
	for p := range px.n {
		if p[0] < x0 || p[0] >= x1 || p[1] < y0 || p[1] >= y1 {
			return 0, fmt.Errorf("pixel %v of %v is outside of its bounding box", p, t)
		}
	}
	ln := newCover(budget)
	rasterize.DDATriangleLines(t, ln.line)
	if err := px.equal(ln); err != nil {
		return 0, fmt.Errorf("pixels and lines of %v: %v", t, err)
	}
	for _, n := range blockSizes {
		bl := newCover(budget + 4*n*n)
		rasterize.DDATriangleBlocks(t, n, bl.line, bl.block(n))
		if err := px.equal(bl); err != nil {
			return 0, fmt.Errorf("pixels and blocks of size %d of %v: %v", n, t, err)
		}
	}
	return len(px.n), nil
}

func TestC11(t *testing.T) {
	sub(t, "triangle", 24000, 600000,
		"any triangle in any vertex order with two block sizes against exact rational edges; non-trivial: at least one pixel covered",
		func(rt *rapid.T, c *Case) {
			tri, kind := drawTriangle(rt)
			a, b := drawBlockSize(rt), drawBlockSize(rt)
			n, err := checkTriangle(tri, a, b)
			if err != nil {
				rt.Fatal(err)
			}
			o := newCover(1 << 30)
			rasterize.DDATriangle(tri, o.add)
			for _, perm := range [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
				q := geom.Triangle{Points: [3]geom.Point{tri.Points[perm[0]], tri.Points[perm[1]], tri.Points[perm[2]]}}
				k := newCover(1 << 30)
				rasterize.DDATriangle(q, k.add)
				if err := o.equal(k); err != nil {
					rt.Fatalf("%v and its permutation %v differ: %v", tri, q, err)
				}
			}
			c.Label("%s", kind)
			blocks := 0
			rasterize.DDATriangleBlocks(tri, a, func(x0, x1, y int) {}, func(x, y int) { blocks++ })
			c.LabelIf(blocks > 0, "has blocks")
			c.Done(n > 0, "%v blocks %d, %d", tri.Points, a, b)
		})

	sub(t, "largeTriangle", 250, 10000,
		"triangles of up to 2000 pixels, elongated ones of up to 100000, and block sizes up to 300; non-trivial: at least 1000 pixels",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "triangle")
			size := 100 + r.intn(700)
			if r.chance(0.2) {
				size = 2000
			}
			v := func() int { return r.intn(size) }
			tri := geom.NewTriangle(v(), v(), v(), v(), v(), v())
			if size == 2000 { // elongated
				if r.chance(0.2) {
					size = 100000
				}
				x, y := v(), v()
				if r.chance(0.5) {
					tri = geom.NewTriangle(x, y, v(), y+r.intn(20), v(), y+r.intn(20))
				} else {
					tri = geom.NewTriangle(x, y, x+r.intn(20), v(), x+r.intn(20), v())
				}
			}
			a, b := 1+r.intn(20), 1+r.intn(300)
			n, err := checkTriangle(tri, a, b)
			if err != nil {
				rt.Fatal(err)
			}
			c.Done(n >= 1000, "%v blocks %d, %d", tri.Points, a, b)
		})
}
