package harness

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"pgregory.net/rapid"
)

func sortedStrings(s []string) string {
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func triSet(ts []tri3) string {
	s := make([]string, len(ts))
	for i, t := range ts {
		s[i] = fmt.Sprint(t)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// polySet is a canonical form of the cells of a diagram.
func polySet(v *incrdelaunay.IVoronoi) string {
	var s []string
	v.IterPolygons(func(p []fpt) {
		first := 0
		for i := range p {
			if p[i].X < p[first].X || (p[i].X == p[first].X && p[i].Y < p[first].Y) {
				first = i
			}
		}
		t := ""
		for i := range p {
			q := p[(first+i)%len(p)]
			t += fmt.Sprintf("(%v %v)", q.X, q.Y)
		}
		s = append(s, t)
	})
	sort.Strings(s)
	return strings.Join(s, " ")
}

// mesh is one object under test with its model: a multiset of points and an image size.
type mesh struct {
	d     *incrdelaunay.Delaunay
	v     *incrdelaunay.IVoronoi
	w, h  int
	count map[ipt]int
	list  []ipt // multiset
	last  string
}

func (m *mesh) snapshot() string {
	if m.v != nil {
		return polySet(m.v)
	}
	return triSet(triangles(m.d))
}

func (m *mesh) insert(p ipt) {
	m.count[p]++
	m.list = append(m.list, p)
	if m.v != nil {
		m.v.Insert(p)
	} else {
		m.d.Insert(p)
	}
}

func (m *mesh) remove(i int) ipt {
	p := m.list[i]
	m.list[i] = m.list[len(m.list)-1]
	m.list = m.list[:len(m.list)-1]
	if m.count[p]--; m.count[p] == 0 {
		delete(m.count, p)
	}
	if m.v != nil {
		m.v.Remove(p)
	} else {
		m.d.Remove(p)
	}
	return p
}

func (m *mesh) set(o *mesh) {
	m.w, m.h = o.w, o.h
	m.list = append([]ipt(nil), o.list...)
	counts := map[ipt]int{}
	for p, n := range o.count {
		counts[p] = n
	}
	m.count = counts
	if m.v != nil {
		m.v.Set(o.v)
	} else {
		m.d.Set(o.d)
	}
}

// check compares what the object answers with its model.
func (m *mesh) check(r *rng) error {
	if m.v != nil {
		return checkCells(cellsOf(m.v.IterPolygons), m.list, m.w, m.h)
	}
	if n := m.d.NumPoints(); n != len(m.list) {
		return fmt.Errorf("NumPoints is %d with %d points", n, len(m.list))
	}
	query := func(p ipt) error {
		if m.d.HasPoint(p) != (m.count[p] > 0) {
			return fmt.Errorf("HasPoint(%v) is %v with %d copies", p, m.d.HasPoint(p), m.count[p])
		}
		if len(m.list) > 0 {
			c := m.d.GetClosestTo(p)
			if m.count[c] == 0 {
				return fmt.Errorf("GetClosestTo(%v) is %v, which isn't present", p, c)
			}
			for q := range m.count {
				if dist2(p, q) < dist2(p, c) {
					return fmt.Errorf("GetClosestTo(%v) is %v, but %v is closer", p, c, q)
				}
			}
		}
		return nil
	}
	for p := range m.count {
		if err := query(p); err != nil {
			return err
		}
	}
	for i := 0; i < 8; i++ {
		if err := query(pt(r.intn(m.w+1), r.intn(m.h+1))); err != nil {
			return err
		}
	}
	for _, p := range []ipt{pt(0, 0), pt(m.w, 0), pt(0, m.h), pt(m.w, m.h)} {
		if err := query(p); err != nil {
			return err
		}
	}
	return nil
}

func bookkeeping(rt *rapid.T, c *Case, voronoi bool) {
	n := rapid.IntRange(1, 4).Draw(rt, "objects")
	same := rapid.Bool().Draw(rt, "sameSize")
	var ms []*mesh
	var srcs []*pointSource
	log := ""
	w, h := drawDims(rt)
	for i := 0; i < n; i++ {
		if i > 0 && !same {
			w, h = drawDims(rt)
		}
		m := &mesh{w: w, h: h, count: map[ipt]int{}}
		if voronoi {
			m.v = incrdelaunay.NewVoronoi(w, h)
		} else {
			m.d = incrdelaunay.NewDelaunay(w, h)
		}
		ms = append(ms, m)
		log += fmt.Sprintf("[%dx%d]", w, h)
	}
	for _, m := range ms {
		srcs = append(srcs, drawPointSource(rt, m.w, m.h))
	}
	r := drawRng(rt, "ops")
	ops := drawCount(rt, "ops", 1, 70)
	sets, after, selfs := 0, 0, 0
	grow := 0.5 + 0.4*r.float()
	for i, m := range ms {
		for k := r.intn(25); k > 0; k-- {
			p := srcs[i].next()
			m.insert(p)
			log += fmt.Sprintf(" %d+%d,%d", i, p.X, p.Y)
		}
		m.last = m.snapshot()
	}
	for k := 0; k < ops; k++ {
		i := r.intn(n)
		m := ms[i]
		what := ""
		switch {
		case n > 1 && r.chance(0.2) || r.chance(0.01):
			j := r.intn(n)
			if i == j && n > 1 && r.chance(0.8) {
				j = (j + 1) % n
			}
			o := ms[j]
			self, before := i == j, m.last
			m.set(o)
			srcs[i] = srcs[j]
			sets++
			what = fmt.Sprintf(" %d:=%d", i, j)
			m.last = m.snapshot()
			if m.last != o.snapshot() {
				rt.Fatalf("after%s%s the copies differ: %s and %s", log, what, m.last, o.snapshot())
			}
			if self {
				selfs++
				if m.last != before {
					rt.Fatalf("after%s%s, a copy onto itself, the object changed from %s to %s", log, what, before, m.last)
				}
			}
		case len(m.list) > 0 && !r.chance(grow):
			p := m.remove(r.intn(len(m.list)))
			what = fmt.Sprintf(" %d-%d,%d", i, p.X, p.Y)
		default:
			p := srcs[i].next()
			if len(m.list) > 0 && r.chance(0.15) {
				p = m.list[r.intn(len(m.list))] // another copy
			}
			m.insert(p)
			what = fmt.Sprintf(" %d+%d,%d", i, p.X, p.Y)
		}
		log += what
		if sets > 0 {
			after++
		}
		m.last = m.snapshot()
		if err := m.check(r); err != nil {
			rt.Fatalf("after%s: %v", log, err)
		}
		for j, o := range ms {
			if j == i {
				continue
			}
			if s := o.snapshot(); s != o.last {
				rt.Fatalf("after%s: changing %d also changed %d from %s to %s", log, i, j, o.last, s)
			}
			if !voronoi {
				if err := o.check(r); err != nil {
					rt.Fatalf("after%s: object %d: %v", log, j, err)
				}
			}
		}
	}
	for i, m := range ms {
		if err := m.check(r); err != nil {
			rt.Fatalf("after%s: object %d: %v", log, i, err)
		}
		if !voronoi {
			if err := checkDelaunay(triangles(m.d), m.list, m.w, m.h); err != nil {
				rt.Fatalf("after%s: object %d: %v", log, i, err)
			}
		}
	}
	c.LabelIf(sets > 0, "copied")
	c.LabelIf(!same && sets > 0, "copied across sizes")
	c.LabelIf(selfs > 0, "copied onto itself")
	c.Done(sets > 0 && after > 1, "%s", log)
}

func TestC09(t *testing.T) {
	sub(t, "delaunay", 16000, 400000,
		"insert/remove/Set histories over up to four triangulations against multiset models; non-trivial: a copy followed by further changes",
		func(rt *rapid.T, c *Case) { bookkeeping(rt, c, false) })
	sub(t, "voronoi", 6000, 150000,
		"insert/remove/Set histories over up to four Voronoi diagrams against reference cells; non-trivial: a copy followed by further changes",
		func(rt *rapid.T, c *Case) { bookkeeping(rt, c, true) })
	sub(t, "manyCopies", 800, 16000,
		"few points, each inserted and removed up to tens of thousands of times; non-trivial: more than 255 copies of a point",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			r := drawRng(rt, "ops")
			distinct := 1 + r.intn(5)
			voronoi := rapid.Bool().Draw(rt, "voronoi")
			newMesh := func() *mesh {
				if voronoi {
					return &mesh{w: w, h: h, count: map[ipt]int{}, v: incrdelaunay.NewVoronoi(w, h)}
				}
				return &mesh{w: w, h: h, count: map[ipt]int{}, d: incrdelaunay.NewDelaunay(w, h)}
			}
			m, o := newMesh(), newMesh()
			var ps []ipt
			for i := 0; i < distinct; i++ {
				ps = append(ps, pt(r.intn(w+1), r.intn(h+1)))
			}
			log := ptsString(ps)
			most := 0
			check := func() {
				if err := m.check(r); err != nil {
					rt.Fatalf("%dx%d %s: %v", w, h, log, err)
				}
			}
			for k := 1 + r.intn(8); k > 0; k-- {
				tick()
				if r.chance(0.2) {
					o.set(m)
					m, o = o, m
					log += " copied"
				}
				i := r.intn(len(ps))
				n := []int{1 + r.intn(5), 250 + r.intn(12), 256, 1 + r.intn(900)}[r.intn(4)]
				if r.chance(0.02) {
					n = []int{32760, 65500}[r.intn(2)] + r.intn(80)
				}
				if have := m.count[ps[i]]; have > 0 && (r.chance(0.5) || have > 60000) {
					if n > have || r.chance(0.5) {
						n = have
					}
					for j := 0; j < n; j++ {
						if m.v != nil {
							m.v.Remove(ps[i])
						} else {
							m.d.Remove(ps[i])
						}
					}
					if m.count[ps[i]] -= n; m.count[ps[i]] == 0 {
						delete(m.count, ps[i])
					}
					var left []ipt
					for _, p := range m.list {
						if p == ps[i] && n > 0 {
							n--
							continue
						}
						left = append(left, p)
					}
					m.list = left
					log += fmt.Sprintf(" #%d: %d left", i, m.count[ps[i]])
				} else {
					for j := 0; j < n; j++ {
						m.insert(ps[i])
					}
					log += fmt.Sprintf(" #%d: %d now", i, m.count[ps[i]])
					most = max(most, m.count[ps[i]])
				}
				check()
			}
			c.LabelIf(voronoi, "diagrams")
			c.Done(most > 255, "%dx%d %s", w, h, log)
		})
	sub(t, "copiesStayInStep", 4000, 100000,
		"the same history is applied to an object and to its copy; non-trivial: at least one removal",
		func(rt *rapid.T, c *Case) {
			w, h := drawDims(rt)
			src := drawPointSource(rt, w, h)
			r := drawRng(rt, "ops")
			a := incrdelaunay.NewDelaunay(w, h)
			b := incrdelaunay.NewDelaunay(w, h)
			for i := r.intn(20); i > 0; i-- {
				b.Insert(src.next()) // to be overwritten
			}
			var list []ipt
			for i := 1 + r.intn(30); i > 0; i-- {
				p := src.next()
				a.Insert(p)
				list = append(list, p)
			}
			b.Set(a)
			rem := 0
			log := ptsString(list)
			for i := 1 + r.intn(30); i > 0; i-- {
				if len(list) > 0 && r.chance(0.5) {
					j := r.intn(len(list))
					p := list[j]
					list[j] = list[len(list)-1]
					list = list[:len(list)-1]
					a.Remove(p)
					b.Remove(p)
					rem++
					log += "-" + ptsString([]ipt{p})
				} else {
					p := src.next()
					list = append(list, p)
					a.Insert(p)
					b.Insert(p)
					log += "+" + ptsString([]ipt{p})
				}
				if a.NumPoints() != b.NumPoints() {
					rt.Fatalf("%dx%d %s: NumPoints %d and %d", w, h, log, a.NumPoints(), b.NumPoints())
				}
				if _, unique := uniqueTriangulation(list, w, h); !unique {
					continue
				}
				if x, y := triSet(triangles(a)), triSet(triangles(b)); x != y {
					rt.Fatalf("%dx%d %s: %s and %s", w, h, log, x, y)
				}
			}
			c.Done(rem > 0, "%dx%d %s", w, h, log)
		})

	regress(t, "numPointsAfterSet", func(t testing.TB) {
		a, b := incrdelaunay.NewDelaunay(10, 10), incrdelaunay.NewDelaunay(20, 30)
		a.Insert(ipt{X: 3, Y: 4})
		a.Insert(ipt{X: 3, Y: 4})
		b.Set(a)
		if b.NumPoints() != 2 {
			t.Fatal(b.NumPoints())
		}
		b.Insert(ipt{X: 10, Y: 10})
		if !b.HasPoint(ipt{X: 3, Y: 4}) || !b.HasPoint(ipt{X: 10, Y: 10}) || a.HasPoint(ipt{X: 10, Y: 10}) {
			t.Fatal("HasPoint")
		}
	})
}
