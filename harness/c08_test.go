package harness

import (
	"testing"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"pgregory.net/rapid"
)

// drawDims draws image dimensions for the triangulations, where size costs nothing.
func drawDims(rt *rapid.T) (int, int) {
	switch rapid.IntRange(0, 6).Draw(rt, "dims") {
	case 0:
		return rapid.IntRange(1, 5).Draw(rt, "w"), rapid.IntRange(1, 5).Draw(rt, "h")
	case 1:
		r := drawRng(rt, "dims")
		return drawSide(r), drawSide(r)
	case 2:
		r := drawRng(rt, "dims")
		a, b := 1+r.intn(2000), 1+r.intn(8)
		if r.chance(0.5) {
			return b, a
		}
		return a, b
	default:
		return drawSize(rt, 120)
	}
}

// history is a drawn sequence of insertions and removals, applied one by one.
type history struct {
	w, h     int
	src      *pointSource
	r        *rng
	present  []ipt // multiset
	removals int
	inner    int
}

func drawHistory(rt *rapid.T, w, h int) *history {
	return &history{w: w, h: h, src: drawPointSource(rt, w, h), r: drawRng(rt, "ops")}
}

// remove picks the index of a present point to remove.
func (s *history) pick() int { return s.r.intn(len(s.present)) }

func (s *history) drop(i int) ipt {
	p := s.present[i]
	s.present[i] = s.present[len(s.present)-1]
	s.present = s.present[:len(s.present)-1]
	return p
}

func TestC08(t *testing.T) {
	sub(t, "history", 24000, 600000,
		"random insert/remove histories of adversarially placed points, checked against exact Delaunay predicates; non-trivial: a point with another one left is removed while at least 4 are present",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			s := drawHistory(rt, w, h)
			n := drawCount(rt, "points", 1, 45)
			ops := rapid.IntRange(0, 25).Draw(rt, "ops")
			d := incrdelaunay.NewDelaunay(w, h)
			check := func(what string, p ipt) {
				if err := checkDelaunay(triangles(d), s.present, w, h); err != nil {
					rt.Fatalf("%dx%d: after %s%v with points %s: %v", w, h, what, p, ptsString(s.present), err)
				}
			}
			log := ""
			insert := func() {
				p := s.src.next()
				s.present = append(s.present, p)
				log += "+" + ptsString([]ipt{p})
				d.Insert(p)
			}
			every := 1 + n/8
			for i := 0; i < n; i++ {
				insert()
				if i%every == 0 || i == n-1 {
					check("insert", s.present[len(s.present)-1])
				}
			}
			removed := 0
			for i := 0; i < ops; i++ {
				if len(s.present) > 0 && s.r.chance(0.6) {
					if len(s.present) >= 4 {
						removed++
					}
					p := s.drop(s.pick())
					log += "-" + ptsString([]ipt{p})
					d.Remove(p)
					check("remove", p)
				} else {
					insert()
					check("insert", s.present[len(s.present)-1])
				}
			}
			if rapid.Bool().Draw(rt, "removeAll") {
				c.Label("emptied")
				for len(s.present) > 0 {
					p := s.drop(s.pick())
					d.Remove(p)
					log += "-" + ptsString([]ipt{p})
					if len(s.present)%(1+n/10) == 0 {
						check("remove", p)
					}
				}
			}
			_, unique := uniqueTriangulation(s.present, w, h)
			c.LabelIf(!unique, "ambiguous at the end")
			c.Label("%s", s.src.kind)
			c.Done(removed > 0, "%dx%d %s", w, h, log)
		})

	sub(t, "large", 240, 6000,
		"one large set of points followed by replacements, checked at the end; non-trivial: at least 100 distinct points",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "n")
			w, h := 40+r.intn(1500), 40+r.intn(1500)
			switch rapid.IntRange(0, 3).Draw(rt, "size") {
			case 0:
				w, h = drawLarge(rt, 200000)
			case 1:
				w, h = drawSide(r), drawSide(r)
			}
			s := &history{w: w, h: h, src: drawPointSource(rt, w, h, "uniform", "lattice", "cluster", "line", "circle", "border", "wheel"), r: drawRng(rt, "ops")}
			n := 100 + r.intn(250)
			d := incrdelaunay.NewDelaunay(w, h)
			for i := 0; i < n; i++ {
				p := s.src.next()
				s.present = append(s.present, p)
				d.Insert(p)
			}
			for i := 0; i < n/3; i++ {
				d.Remove(s.drop(s.pick()))
				p := s.src.next()
				s.present = append(s.present, p)
				d.Insert(p)
			}
			if err := checkDelaunay(triangles(d), s.present, w, h); err != nil {
				rt.Fatalf("%dx%d, %d points: %v", w, h, n, err)
			}
			nd := len(distinct(s.present))
			c.Label("%s", s.src.kind)
			c.Done(nd >= 100, "%dx%d %s %d points, final %s", w, h, s.src.kind, n, ptsString(s.present))
		})

	sub(t, "huge", 24, 800,
		"thousands of points and replacements, checked at the end; non-trivial: at least 1000 distinct points",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "n")
			w, h := 500+r.intn(5500), 500+r.intn(5500)
			s := &history{w: w, h: h, src: drawPointSource(rt, w, h, "uniform", "uniform", "cluster", "wheel", "border"), r: drawRng(rt, "ops")}
			n := 1000 + r.intn(2500)
			d := incrdelaunay.NewDelaunay(w, h)
			for i := 0; i < n; i++ {
				p := s.src.next()
				s.present = append(s.present, p)
				d.Insert(p)
			}
			for i := r.intn(2 * n); i > 0; i-- {
				d.Remove(s.drop(s.pick()))
				p := s.src.next()
				s.present = append(s.present, p)
				d.Insert(p)
			}
			for i := r.intn(n / 2); i > 0; i-- {
				d.Remove(s.drop(s.pick()))
			}
			if err := checkDelaunay(triangles(d), s.present, w, h); err != nil {
				rt.Fatalf("%dx%d, %d points: %v", w, h, n, err)
			}
			if d.NumPoints() != len(s.present) {
				rt.Fatalf("%dx%d: %d points instead of %d", w, h, d.NumPoints(), len(s.present))
			}
			nd := len(distinct(s.present))
			c.Label("%s", s.src.kind)
			c.Done(nd >= 1000, "%dx%d %s %d points, final %s", w, h, s.src.kind, n, ptsString(s.present))
		})

	sub(t, "enormous", 8, 240,
		"thousands to tens of thousands of points and some replacements, checked at the end; non-trivial: at least 4000 distinct points",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "n")
			w, h := 1500+r.intn(4500), 1500+r.intn(4500)
			s := &history{w: w, h: h, src: drawPointSource(rt, w, h, "uniform", "uniform", "cluster", "border"), r: drawRng(rt, "ops")}
			n := 4500 + r.intn(12000)
			if r.chance(0.3) {
				n = 33000 + r.intn(7000)
			}
			d := incrdelaunay.NewDelaunay(w, h)
			insert := func() {
				p := s.src.next()
				if r.chance(0.3) { // a few of them elsewhere
					p = pt(r.intn(w+1), r.intn(h+1))
				}
				s.present = append(s.present, p)
				d.Insert(p)
			}
			for i := 0; i < n; i++ {
				insert()
			}
			for i := r.intn(n / 4); i > 0; i-- {
				d.Remove(s.drop(s.pick()))
				insert()
			}
			for i := r.intn(n / 8); i > 0; i-- {
				d.Remove(s.drop(s.pick()))
			}
			if err := checkDelaunayFast(triangles(d), s.present, w, h); err != nil {
				rt.Fatalf("%dx%d, %s, %d points: %v", w, h, s.src.kind, n, err)
			}
			if d.NumPoints() != len(s.present) {
				rt.Fatalf("%dx%d: %d points instead of %d", w, h, d.NumPoints(), len(s.present))
			}
			nd := len(distinct(s.present))
			c.Label("%s", s.src.kind)
			c.LabelIf(n >= 33000, "more than 2^16 triangles")
			c.Done(nd >= 4000, "%dx%d %s %d points, %d left of which %d distinct", w, h, s.src.kind, n, len(s.present), nd)
		})

	regress(t, "onePixel", func(t testing.TB) {
		d := incrdelaunay.NewDelaunay(1, 1)
		var pts []ipt
		for _, p := range []ipt{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 1, Y: 1}, {X: 0, Y: 1}} {
			d.Insert(p)
			pts = append(pts, p)
			if err := checkDelaunay(triangles(d), pts, 1, 1); err != nil {
				t.Fatal(err)
			}
		}
	})
}
