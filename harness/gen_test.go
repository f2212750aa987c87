package harness

import (
	"fmt"
	"math"
	"sort"

	"github.com/RH12503/Triangula/color"
	imageData "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"pgregory.net/rapid"
)

// rng is a splitmix64 generator expanding a drawn seed, so that large inputs need few draws and
// shrink by their length.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) intn(n int) int        { return int(r.next() % uint64(n)) }
func (r *rng) float() float64        { return float64(r.next()>>11) / (1 << 53) }
func (r *rng) chance(p float64) bool { return r.float() < p }

// drawRng draws a generator. rapid's integers are biased to small ones, so two are mixed.
func drawRng(rt *rapid.T, label string) *rng {
	a := rapid.Uint64().Draw(rt, label+"Seed0")
	b := rapid.Uint64().Draw(rt, label+"Seed1")
	r := &rng{a}
	r.s = r.next() ^ b
	r.next()
	return r
}

func pick[T any](rt *rapid.T, label string, vals ...T) T {
	return vals[rapid.IntRange(0, len(vals)-1).Draw(rt, label)]
}

// testImage is an image.Data with 8-bit colours.
type testImage struct {
	w, h int
	pix  [][3]uint8
	kind string

	lo, hi [3]float64 // see inRange
}

func (m *testImage) Size() (int, int)     { return m.w, m.h }
func (m *testImage) at(x, y int) [3]uint8 { return m.pix[y*m.w+x] }
func (m *testImage) RGBAt(x, y int) color.RGB {
	if x < 0 || y < 0 || x >= m.w || y >= m.h {
		panic(fmt.Sprintf("pixel (%d, %d) read outside of a %dx%d image", x, y, m.w, m.h))
	}
	p := m.pix[y*m.w+x]
	return color.RGB{R: float64(p[0]) / 255, G: float64(p[1]) / 255, B: float64(p[2]) / 255}
}

func (m *testImage) mapped(f func(p [3]uint8) [3]uint8) *testImage {
	n := &testImage{w: m.w, h: m.h, kind: m.kind + "'"}
	for _, p := range m.pix {
		n.pix = append(n.pix, f(p))
	}
	return n
}

func (m *testImage) String() string {
	h := &rng{}
	for _, p := range m.pix {
		h.s ^= uint64(p[0])<<16 | uint64(p[1])<<8 | uint64(p[2])
		h.next()
		h.s = h.s*31 + 7
	}
	return fmt.Sprintf("%dx%d %s image #%08x", m.w, m.h, m.kind, uint32(h.next()))
}

var _ imageData.Data = &testImage{}

// exactLevels are the levels whose squares the documented computation from colours between 0 and 1
// doesn't round down; with them (and their inverses) no rounding tolerance is needed.
var exactLevels, exactBoth = func() (a, b []uint8) {
	ok := func(v int) bool {
		r := float64(v) / 255
		return r*255*r*255 >= float64(v*v)
	}
	for v := 0; v < 256; v++ {
		if ok(v) {
			a = append(a, uint8(v))
			if ok(255 - v) {
				b = append(b, uint8(v))
			}
		}
	}
	return
}()

// drawImage draws an image. If exact, only levels that need no tolerance are used (also when inverted).
func drawImage(rt *rapid.T, w, h int, exact bool) *testImage {
	m := &testImage{w: w, h: h, pix: make([][3]uint8, w*h)}
	m.kind = pick(rt, "imageKind", "noise", "patches", "gradient", "flat", "twotone", "extreme")
	r := drawRng(rt, "image")
	level := func() uint8 {
		if exact {
			return exactBoth[r.intn(len(exactBoth))]
		}
		return uint8(r.intn(256))
	}
	col := func() [3]uint8 { return [3]uint8{level(), level(), level()} }
	fix := func(v float64) uint8 {
		if exact {
			i := int(v / 256 * float64(len(exactBoth)))
			return exactBoth[i]
		}
		return uint8(v)
	}
	switch m.kind {
	case "noise":
		for i := range m.pix {
			m.pix[i] = col()
		}
	case "patches":
		n := 1 + r.intn(8)
		bg := col()
		for i := range m.pix {
			m.pix[i] = bg
		}
		for k := 0; k < n; k++ {
			x0, y0 := r.intn(w), r.intn(h)
			x1, y1 := x0+1+r.intn(w-x0), y0+1+r.intn(h-y0)
			c := col()
			for y := y0; y < y1; y++ {
				for x := x0; x < x1; x++ {
					m.pix[y*w+x] = c
				}
			}
		}
	case "gradient":
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				m.pix[y*w+x] = [3]uint8{
					fix(255.5 * float64(x) / float64(w)),
					fix(255.5 * float64(y) / float64(h)),
					fix(255.5 * float64(x+y) / float64(w+h)),
				}
			}
		}
	case "flat":
		c := col()
		for i := range m.pix {
			m.pix[i] = c
		}
	case "twotone":
		a, b := col(), col()
		d := 1 + r.intn(5)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				m.pix[y*w+x] = a
				if (x/d+y/d)%2 == 1 {
					m.pix[y*w+x] = b
				}
			}
		}
	case "extreme":
		for i := range m.pix {
			for c := 0; c < 3; c++ {
				if r.chance(0.5) {
					m.pix[i][c] = 255
				}
			}
		}
	}
	return m
}

// drawSize draws image dimensions up to max, from single pixels to elongated ones.
func drawSize(rt *rapid.T, max int) (int, int) {
	switch rapid.IntRange(0, 5).Draw(rt, "sizeKind") {
	case 0:
		return rapid.IntRange(1, min(4, max)).Draw(rt, "w"), rapid.IntRange(1, min(4, max)).Draw(rt, "h")
	case 1: // elongated
		w := rapid.IntRange(1, max).Draw(rt, "w")
		h := rapid.IntRange(1, min(6, max)).Draw(rt, "h")
		if rapid.Bool().Draw(rt, "tall") {
			return h, w
		}
		return w, h
	default:
		r := drawRng(rt, "size")
		return 1 + r.intn(max), 1 + r.intn(max)
	}
}

// maxSide is the largest image side for which the triangle around all points has 16-bit coordinates.
const maxSide = 13106

// drawSide draws a side, seldom one close to the largest.
func drawSide(r *rng) int {
	switch r.intn(8) {
	case 0:
		return maxSide - r.intn(3)
	case 1, 2:
		return 1 + r.intn(maxSide)
	}
	return 1 + r.intn(6000)
}

// drawLarge draws image dimensions of up to maxSide pixels a side and at most area pixels, on a logarithmic scale.
func drawLarge(rt *rapid.T, area int) (int, int) {
	r := drawRng(rt, "largeSize")
	side := func(limit int) int {
		return clampInt(int(math.Exp(r.float()*math.Log(float64(limit)))), 1, limit)
	}
	w := side(min(maxSide, area))
	if r.chance(0.5) { // use the whole area
		w = clampInt(w, area/maxSide+1, maxSide)
	}
	h := clampInt(area/w, 1, maxSide)
	if r.chance(0.5) {
		h = side(h)
	}
	if r.chance(0.5) {
		return h, w
	}
	return w, h
}

var pointKinds = []string{"uniform", "lattice", "cluster", "line", "circle", "border", "dups", "coarse", "wheel", "explicit"}

// pointSource returns a source of integer points inside the image, of a drawn kind, and a uniform one.
type pointSource struct {
	kind string
	next func() incrdelaunay.Point
}

func clampInt(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func pt(x, y int) incrdelaunay.Point { return incrdelaunay.Point{X: int16(x), Y: int16(y)} }

func drawPointSource(rt *rapid.T, w, h int, kinds ...string) *pointSource {
	if len(kinds) == 0 {
		kinds = pointKinds
	}
	kind := pick(rt, "pointKind", kinds...)
	r := drawRng(rt, "points")
	uni := func() incrdelaunay.Point { return pt(r.intn(w+1), r.intn(h+1)) }
	s := &pointSource{kind: kind}
	clamp := func(x, y int) incrdelaunay.Point { return pt(clampInt(x, 0, w), clampInt(y, 0, h)) }
	switch kind {
	case "uniform":
		s.next = uni
	case "lattice":
		g := 1 + r.intn(max(1, max(w, h)/3))
		gy := g
		if r.chance(0.3) {
			gy = 1 + r.intn(max(1, h/2))
		}
		s.next = func() incrdelaunay.Point {
			p := uni()
			return clamp((int(p.X)+g/2)/g*g, (int(p.Y)+gy/2)/gy*gy)
		}
	case "cluster":
		n := 1 + r.intn(4)
		var c []incrdelaunay.Point
		for i := 0; i < n; i++ {
			c = append(c, uni())
		}
		rad := 1 + r.intn(max(1, max(w, h)/8))
		s.next = func() incrdelaunay.Point {
			p := c[r.intn(n)]
			return clamp(int(p.X)+r.intn(2*rad+1)-rad, int(p.Y)+r.intn(2*rad+1)-rad)
		}
	case "line":
		a, b := uni(), uni()
		jit := r.intn(2)
		s.next = func() incrdelaunay.Point {
			if r.chance(0.1) {
				return uni()
			}
			t := r.float()
			x := float64(a.X) + t*float64(int(b.X)-int(a.X))
			y := float64(a.Y) + t*float64(int(b.Y)-int(a.Y))
			j := 0
			if jit == 1 {
				j = r.intn(3) - 1
			}
			return clamp(int(math.Round(x)), int(math.Round(y))+j)
		}
	case "circle":
		// integer points on a common circle: multiples of pythagorean triples
		k := 1 + r.intn(max(1, min(w, h)/10))
		base := [][2]int{{5, 0}, {3, 4}, {4, 3}, {0, 5}}
		if min(w, h) >= 50 && r.chance(0.5) {
			k = 1 + r.intn(max(1, min(w, h)/50))
			base = [][2]int{{25, 0}, {24, 7}, {20, 15}, {15, 20}, {7, 24}, {0, 25}}
		}
		cx, cy := w/2, h/2
		s.next = func() incrdelaunay.Point {
			if r.chance(0.15) {
				return uni()
			}
			b := base[r.intn(len(base))]
			x, y := b[0]*k, b[1]*k
			if r.chance(0.5) {
				x = -x
			}
			if r.chance(0.5) {
				y = -y
			}
			return clamp(cx+x, cy+y)
		}
	case "border":
		s.next = func() incrdelaunay.Point {
			p := uni()
			switch r.intn(6) {
			case 0:
				return pt(0, int(p.Y))
			case 1:
				return pt(w, int(p.Y))
			case 2:
				return pt(int(p.X), 0)
			case 3:
				return pt(int(p.X), h)
			case 4:
				return pt(r.intn(2)*w, r.intn(2)*h)
			}
			return p
		}
	case "wheel": // almost on a circle, with few points inside: vertices with many neighbours
		cx, cy := float64(w)*(0.3+0.4*r.float()), float64(h)*(0.3+0.4*r.float())
		rx, ry := float64(w)*0.3, float64(h)*0.3
		if r.chance(0.7) {
			rx = math.Min(rx, ry)
			ry = rx
		}
		jit := r.float() * 3
		s.next = func() incrdelaunay.Point {
			switch r.intn(30) {
			case 0:
				return clamp(int(cx)+r.intn(5)-2, int(cy)+r.intn(5)-2)
			case 1:
				return uni()
			}
			a := r.float() * 2 * math.Pi
			return clamp(int(math.Round(cx+rx*math.Cos(a)+jit*(r.float()-0.5))), int(math.Round(cy+ry*math.Sin(a)+jit*(r.float()-0.5))))
		}
	case "dups":
		n := 1 + r.intn(6)
		var c []incrdelaunay.Point
		for i := 0; i < n; i++ {
			c = append(c, uni())
		}
		s.next = func() incrdelaunay.Point {
			if r.chance(0.2) {
				return uni()
			}
			return c[r.intn(n)]
		}
	case "coarse":
		g := 2 + r.intn(5)
		s.next = func() incrdelaunay.Point {
			return clamp(r.intn(g+1)*w/g, r.intn(g+1)*h/g)
		}
	case "explicit":
		s.next = func() incrdelaunay.Point {
			return pt(rapid.IntRange(0, w).Draw(rt, "x"), rapid.IntRange(0, h).Draw(rt, "y"))
		}
	}
	return s
}

// drawCount draws a number of points, mostly small, sometimes large.
func drawCount(rt *rapid.T, label string, lo, hi int) int {
	switch rapid.IntRange(0, 3).Draw(rt, label+"Kind") {
	case 0:
		return rapid.IntRange(lo, min(hi, lo+7)).Draw(rt, label)
	default:
		r := drawRng(rt, label)
		return lo + r.intn(hi-lo+1)
	}
}

// normGroup turns integer points into a normalised group that scales back to them, with some of the
// points moved off the pixel grid (but not to another pixel), also to the very border of their pixel.
func normGroup(pts []incrdelaunay.Point, w, h int, r *rng) normgeom.NormPointGroup {
	var g normgeom.NormPointGroup
	for _, p := range pts {
		x, y := float64(p.X)/float64(w), float64(p.Y)/float64(h)
		if r != nil && r.chance(0.7) {
			x = offGrid(int(p.X), w, r)
			y = offGrid(int(p.Y), h, r)
		}
		g = append(g, normgeom.NormPoint{X: math.Min(1, math.Max(0, x)), Y: math.Min(1, math.Max(0, y))})
	}
	return g
}

// offGrid is a normalised coordinate which scales to a value that rounds to v, half pixels being rounded up.
func offGrid(v, size int, r *rng) float64 {
	s := float64(size)
	switch {
	case v > 0 && r.chance(0.15): // the lower border
		x := (float64(v) - 0.5) / s
		for x*s < float64(v)-0.5 {
			x = math.Nextafter(x, 2)
		}
		return x
	case r.chance(0.05): // just below the upper one
		return (float64(v) + 0.5 - 1e-9) / s
	case r.chance(0.1): // as little as possible below it
		x := (float64(v) + 0.5) / s
		for x*s >= float64(v)+0.5 {
			x = math.Nextafter(x, -1)
		}
		return x
	}
	return float64(v)/s + (r.float()-0.5)*0.9/s
}

// drawNormGroup draws a group of n normalised points for an image.
func drawNormGroup(rt *rapid.T, n, w, h int, kinds ...string) (normgeom.NormPointGroup, string) {
	src := drawPointSource(rt, w, h, kinds...)
	var pts []incrdelaunay.Point
	for i := 0; i < n; i++ {
		pts = append(pts, src.next())
	}
	return normGroup(pts, w, h, drawRng(rt, "offset")), src.kind
}

// scaled is where the optimizer and the renderer put a normalised point: at the nearest pixel corner.
func scaled(p normgeom.NormPoint, w, h int) incrdelaunay.Point {
	return pt(int(math.Round(p.X*float64(w))), int(math.Round(p.Y*float64(h))))
}

func scaledAll(g normgeom.NormPointGroup, w, h int) []incrdelaunay.Point {
	var pts []incrdelaunay.Point
	for _, p := range g {
		pts = append(pts, scaled(p, w, h))
	}
	return pts
}

func distinct(pts []incrdelaunay.Point) []incrdelaunay.Point {
	m := map[incrdelaunay.Point]bool{}
	var out []incrdelaunay.Point
	for _, p := range pts {
		if !m[p] {
			m[p] = true
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].X != out[j].X {
			return out[i].X < out[j].X
		}
		return out[i].Y < out[j].Y
	})
	return out
}

func ptsString(pts []incrdelaunay.Point) string {
	s := ""
	for _, p := range pts {
		s += fmt.Sprintf("(%d,%d)", p.X, p.Y)
	}
	return s
}
