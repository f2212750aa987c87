package harness

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/color/palette"
	"testing"

	imageData "github.com/RH12503/Triangula/image"
	"pgregory.net/rapid"
)

// deepImage is an image of a type of its own, with 16-bit colours.
type deepImage struct {
	b   image.Rectangle
	pix []color.RGBA64
}

func (d *deepImage) ColorModel() color.Model { return color.RGBA64Model }
func (d *deepImage) Bounds() image.Rectangle { return d.b }
func (d *deepImage) At(x, y int) color.Color {
	if !(image.Point{X: x, Y: y}).In(d.b) {
		panic(fmt.Sprintf("pixel (%d, %d) read outside of %v", x, y, d.b))
	}
	return d.pix[(y-d.b.Min.Y)*d.b.Dx()+x-d.b.Min.X]
}

// drawStdImage draws an image of any type of the standard library, and the bytes it's made of.
func drawStdImage(rt *rapid.T, maxDim int) (image.Image, []*[]uint8, string) {
	r := drawRng(rt, "image")
	var w, h int
	if maxDim > 1000 {
		w, h = drawWideSize(rt, maxDim, 2*maxDim)
	} else {
		w, h = drawSize(rt, maxDim)
	}
	b := image.Rect(0, 0, w, h)
	if rapid.Bool().Draw(rt, "offset") {
		b = b.Add(image.Pt(r.intn(200)-100, r.intn(200)-100))
	}
	structure := pick(rt, "structure", "noise", "noise", "sparse", "rows", "few")
	limit := 256
	fill := func(p []uint8) []uint8 {
		switch structure {
		case "sparse": // one value but for a few places
			v := uint8(r.intn(limit))
			for i := range p {
				p[i] = v
			}
			for k := 1 + r.intn(3); k > 0; k-- {
				p[r.intn(len(p))] = uint8(r.intn(limit))
			}
			return p
		case "rows": // the same again and again, but for a few places
			n := 1 + r.intn(4*w)
			if r.chance(0.8) { // a row's length for some of the types
				n = w << r.intn(4)
			}
			again := true
			for i := range p {
				if i%n == 0 {
					again = i > 0 && !r.chance(0.05)
				}
				if p[i] = uint8(r.intn(limit)); again && i >= n {
					p[i] = p[i-n]
				}
			}
			for k := r.intn(4 + len(p)/500); k > 0; k-- {
				p[r.intn(len(p))] = uint8(r.intn(limit))
			}
			return p
		case "few":
			v := [2]uint8{uint8(r.intn(limit)), uint8(r.intn(limit))}
			for i := range p {
				p[i] = v[r.intn(2)]
			}
			return p
		}
		if limit < 256 {
			for i := range p {
				p[i] = uint8(r.intn(limit))
			}
			return p
		}
		for i := range p {
			p[i] = uint8(r.next())
			if r.chance(0.1) {
				p[i] = uint8(255 * r.intn(2))
			}
		}
		return p
	}
	kind := pick(rt, "type", "RGBA", "NRGBA", "RGBA64", "NRGBA64", "Gray", "Gray16", "Alpha", "Alpha16", "CMYK", "Paletted", "YCbCr", "NYCbCrA", "own")
	switch kind {
	case "RGBA":
		m := image.NewRGBA(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "NRGBA":
		m := image.NewNRGBA(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "RGBA64":
		m := image.NewRGBA64(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "NRGBA64":
		m := image.NewNRGBA64(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "Gray":
		m := image.NewGray(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "Gray16":
		m := image.NewGray16(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "Alpha":
		m := image.NewAlpha(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "Alpha16":
		m := image.NewAlpha16(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "CMYK":
		m := image.NewCMYK(b)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "Paletted":
		var p color.Palette = palette.Plan9
		if r.chance(0.7) { // of any length, with any colours
			p = nil
			for i := 1 + r.intn(256); i > 0; i-- {
				c := color.NRGBA{R: uint8(r.next()), G: uint8(r.next()), B: uint8(r.next()), A: 255}
				if r.chance(0.2) {
					c.A = uint8(r.next())
				}
				p = append(p, c)
			}
			if r.chance(0.3) {
				p = append(p[:len(p)-1], p[0])
			}
			limit = len(p)
		}
		m := image.NewPaletted(b, p)
		fill(m.Pix)
		return m, []*[]uint8{&m.Pix}, kind
	case "YCbCr", "NYCbCrA":
		ratio := pick(rt, "ratio", image.YCbCrSubsampleRatio444, image.YCbCrSubsampleRatio422, image.YCbCrSubsampleRatio420,
			image.YCbCrSubsampleRatio440, image.YCbCrSubsampleRatio411, image.YCbCrSubsampleRatio410)
		if b.Min.X < 0 || b.Min.Y < 0 { // the standard library itself can't read those everywhere
			b = b.Add(image.Pt(100, 100))
		}
		if kind == "YCbCr" {
			m := image.NewYCbCr(b, ratio)
			fill(m.Y)
			fill(m.Cb)
			fill(m.Cr)
			return m, []*[]uint8{&m.Y, &m.Cb, &m.Cr}, kind
		}
		m := image.NewNYCbCrA(b, ratio)
		fill(m.Y)
		fill(m.Cb)
		fill(m.Cr)
		fill(m.A)
		return m, []*[]uint8{&m.Y, &m.Cb, &m.Cr, &m.A}, kind
	}
	m := &deepImage{b: b}
	for i := 0; i < b.Dx()*b.Dy(); i++ {
		a := uint16(r.next())
		if r.chance(0.5) {
			a = 0xffff
		}
		v := func() uint16 { return uint16(r.next() % (uint64(a) + 1)) }
		m.pix = append(m.pix, color.RGBA64{R: v(), G: v(), B: v(), A: a})
		if structure == "rows" && i >= w && !r.chance(0.01) {
			m.pix[i] = m.pix[i-w]
		}
	}
	return m, nil, kind
}

func TestC19(t *testing.T) {
	convert := func(rt *rapid.T, c *Case, maxDim int) {
		tick()
		m, pix, kind := drawStdImage(rt, maxDim)
		cropped := false
		if s, ok := m.(interface {
			SubImage(r image.Rectangle) image.Image
		}); ok && rapid.Bool().Draw(rt, "crop") {
			r := drawRng(rt, "crop")
			b := m.Bounds()
			x, y := b.Min.X+r.intn(b.Dx()), b.Min.Y+r.intn(b.Dy())
			m = s.SubImage(image.Rect(x, y, x+1+r.intn(b.Max.X-x), y+1+r.intn(b.Max.Y-y)))
			cropped = true
		}
		var before [][]uint8
		for _, p := range pix {
			before = append(before, append([]uint8(nil), *p...))
		}
		b := m.Bounds()
		d := imageData.ToData(m)
		for i, p := range pix {
			if !bytes.Equal(*p, before[i]) {
				rt.Fatalf("%s %v: the image was changed", kind, b)
			}
		}
		if w, h := d.Size(); w != b.Dx() || h != b.Dy() {
			rt.Fatalf("%s %v: the size is %dx%d", kind, b, w, h)
		}
		want := make([][3]float64, 0, b.Dx()*b.Dy())
		distinct := map[[3]float64]bool{}
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				r, g, bl, _ := m.At(x, y).RGBA()
				v := [3]float64{float64(r>>8) / 255, float64(g>>8) / 255, float64(bl>>8) / 255}
				want = append(want, v)
				distinct[v] = true
			}
		}
		// The data must not depend on the image any more
		for _, p := range pix {
			for i := range *p {
				if (*p)[i] ^= 0x5a; kind == "Paletted" {
					(*p)[i] = 0
				}
			}
		}
		for k := 0; k < 2; k++ {
			for y := 0; y < b.Dy(); y++ {
				for x := 0; x < b.Dx(); x++ {
					if v := d.RGBAt(x, y); [3]float64{v.R, v.G, v.B} != want[y*b.Dx()+x] {
						rt.Fatalf("%s %v (cropped: %v): the colour at (%d, %d) is %v, not %v", kind, b, cropped, x, y, v, want[y*b.Dx()+x])
					}
				}
			}
		}
		// Converting the painted over image gives its new colours
		e := imageData.ToData(m)
		for y := 0; y < b.Dy(); y++ {
			for x := 0; x < b.Dx(); x++ {
				r, g, bl, _ := m.At(b.Min.X+x, b.Min.Y+y).RGBA()
				v := e.RGBAt(x, y)
				if w := [3]float64{float64(r>>8) / 255, float64(g>>8) / 255, float64(bl>>8) / 255}; [3]float64{v.R, v.G, v.B} != w {
					rt.Fatalf("%s %v (cropped: %v), converted again after it was changed: the colour at (%d, %d) is %v, not %v", kind, b, cropped, x, y, v, w)
				}
			}
		}
		c.Label("%s", kind)
		c.LabelIf(cropped, "cropped")
		c.LabelIf(b.Min != image.Point{}, "bounds not at the origin")
		c.Done(len(distinct) > 1, "%s %v %v", kind, b, want[0])
	}
	sub(t, "convert", 8000, 200000,
		"images of every type of the standard library and an own one, with any bounds, cropped or not; non-trivial: more than one colour",
		func(rt *rapid.T, c *Case) { convert(rt, c, 40) })
	sub(t, "convert-large", 500, 10000,
		"images of up to 500 pixels a side; non-trivial: more than one colour",
		func(rt *rapid.T, c *Case) { convert(rt, c, 500) })
	sub(t, "convert-wide", 80, 2000,
		"images of up to 150000 pixels a side; non-trivial: more than one colour",
		func(rt *rapid.T, c *Case) { convert(rt, c, 150000) })
	sub(t, "levels", 40, 400,
		"every 8-bit level in every channel; all are non-trivial",
		func(rt *rapid.T, c *Case) {
			r := drawRng(rt, "levels")
			m := image.NewRGBA(image.Rect(0, 0, 256, 3))
			var want [3][256][3]uint8
			for ch := 0; ch < 3; ch++ {
				for v := 0; v < 256; v++ {
					p := [3]uint8{uint8(r.next()), uint8(r.next()), uint8(r.next())}
					p[ch] = uint8(v)
					want[ch][v] = p
					m.SetRGBA(v, ch, color.RGBA{R: p[0], G: p[1], B: p[2], A: 255})
				}
			}
			d := imageData.ToData(m)
			for ch := range want {
				for v, p := range want[ch] {
					q := d.RGBAt(v, ch)
					if q.R != float64(p[0])/255 || q.G != float64(p[1])/255 || q.B != float64(p[2])/255 {
						rt.Fatalf("colour %v became %v", p, q)
					}
				}
			}
			c.Done(true, "%v", want[0][0])
		})
	sub(t, "empty", 800, 20000,
		"new data is black and of the requested size; non-trivial: at least one pixel",
		func(rt *rapid.T, c *Case) {
			w, h := rapid.IntRange(0, 70).Draw(rt, "w"), rapid.IntRange(0, 70).Draw(rt, "h")
			d, e := imageData.NewData(w, h), imageData.NewData(w, h)
			_ = e
			if a, b := d.Size(); a != w || b != h {
				rt.Fatalf("NewData(%d, %d) has size %dx%d", w, h, a, b)
			}
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					if v := d.RGBAt(x, y); v.R != 0 || v.G != 0 || v.B != 0 {
						rt.Fatalf("NewData(%d, %d) has colour %v at (%d, %d)", w, h, v, x, y)
					}
				}
			}
			c.Done(w*h > 0, "%dx%d", w, h)
		})
	regress(t, "cropped image", func(t testing.TB) {
		m := image.NewRGBA(image.Rect(0, 0, 4, 4))
		m.SetRGBA(2, 3, color.RGBA{R: 255, A: 255})
		d := imageData.ToData(m.SubImage(image.Rect(2, 3, 4, 4)))
		if w, h := d.Size(); w != 2 || h != 1 || d.RGBAt(0, 0).R != 1 || d.RGBAt(1, 0).R != 0 {
			t.Fatalf("a cropped image was converted to %dx%d %v", w, h, d)
		}
	})
}
