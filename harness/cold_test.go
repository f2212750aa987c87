package harness

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/render"
	"pgregory.net/rapid"
)

// coldKinds are the kinds of work which need nothing that the code under test has made before.
func coldKinds() map[string]func(in *sharedInputs, k int, s uint64) string {
	kinds := map[string]func(in *sharedInputs, k int, s uint64) string{
		"render triangles": func(in *sharedInputs, k int, s uint64) string {
			return fingerprint(render.TrianglesOnImage(in.tris, in.m))
		},
		"render polygons": func(in *sharedInputs, k int, s uint64) string {
			return fingerprint(render.PolygonsOnImage(in.polys, in.m))
		},
	}
	for _, k := range []string{"triangulate", "polygonate", "rasterize", "convert", "own triangle functions", "own polygon functions",
		"triangulation", "diagram", "algorithm", "generate", "normalise"} {
		kinds[k] = taskKinds[k]
	}
	return kinds
}

// coldInputs makes inputs without calling the code under test.
func coldInputs(r *rng) *sharedInputs {
	w, h := 8+r.intn(60), 8+r.intn(60)
	in := &sharedInputs{m: &testImage{w: w, h: h, kind: "noise"}}
	for i := 0; i < w*h; i++ {
		in.m.pix = append(in.m.pix, [3]uint8{uint8(r.intn(256)), uint8(r.intn(256)), uint8(r.intn(256))})
	}
	in.src = in.m.nrgba(func() uint8 { return 255 })
	n := 3 + r.intn(30)
	for i := 0; i < 3; i++ {
		var g normgeom.NormPointGroup
		for k := 0; k < n; k++ {
			g = append(g, normgeom.NormPoint{X: r.float(), Y: r.float()})
		}
		in.groups = append(in.groups, g)
	}
	for i := 0; i < 12; i++ {
		var t geom.Triangle
		for k := range t.Points {
			t.Points[k] = geom.Point{X: r.intn(w + 1), Y: r.intn(h + 1)}
		}
		in.tris = append(in.tris, t)
		var pts []ipt
		for k := 0; k < 6; k++ {
			pts = append(pts, pt(r.intn(w+1), r.intn(h+1)))
		}
		var p geom.Polygon
		for _, q := range hull(pts) {
			p.Points = append(p.Points, geom.Point{X: int(q.X), Y: int(q.Y)})
		}
		if len(p.Points) >= 3 {
			in.polys = append(in.polys, p)
		}
	}
	for _, p := range in.groups[0] {
		in.pts = append(in.pts, pt(int(p.X*float64(w)), int(p.Y*float64(h))))
	}
	return in
}

// TestCold is what the processes started by the sub-property "cold" run: several goroutines use the code under
// test at the same time before anything else in the process has used it.
func TestCold(t *testing.T) {
	s, err := strconv.ParseUint(os.Getenv("VERIF_COLD"), 10, 64)
	if err != nil {
		t.Skip("run by C25")
	}
	r := &rng{s}
	in := coldInputs(r)
	kinds := coldKinds()
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	names = strings.Split(sortedStrings(names), "\n")
	for i := len(names) - 1; i > 0; i-- {
		k := r.intn(i + 1)
		names[i], names[k] = names[k], names[i]
	}
	runtime.GOMAXPROCS(2 + r.intn(7))
	size := 1
	if r.chance(0.3) { // several kinds at the same time
		size = 2 + r.intn(3)
	}
	run := func(kind string, seed uint64) (out string) {
		defer func() {
			if p := recover(); p != nil {
				out = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
			}
		}()
		return kinds[kind](in, 0, seed)
	}
	for len(names) > 0 {
		m := min(size, len(names))
		batch := names[:m]
		names = names[m:]
		seeds := make([]uint64, m)
		for i := range seeds {
			seeds[i] = r.next()
		}
		each := 2 + r.intn(2)
		out := make([]string, m*each)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range out {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				out[i] = run(batch[i%m], seeds[i%m])
			}()
		}
		close(start)
		wg.Wait()
		tick()
		for i, o := range out {
			alone := run(batch[i%m], seeds[i%m])
			if strings.Contains(alone+o, "panic: ") || (o != alone && !closeNumbers(o, alone)) {
				t.Fatalf("%s: %s when first used by several goroutines, %s afterwards", batch[i%m], o, alone)
			}
		}
	}
}

// runCold runs TestCold in a new process.
func runCold(seed uint64) (string, error) {
	cmd := exec.Command(os.Args[0], "-test.run=^TestCold$", "-test.timeout=0")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_STATS=") && !strings.HasPrefix(e, "VERIF_PEAK=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_COLD="+strconv.FormatUint(seed, 10))
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func coldProperty(rt *rapid.T, c *Case) {
	seed := drawRng(rt, "cold").next()
	out, err := runCold(seed)
	if err != nil {
		fmt.Println(out)
		if strings.Contains(out, "out of memory") || strings.Contains(out, "resource temporarily unavailable") ||
			(strings.Contains(out, "WARNING: DATA RACE") && !strings.Contains(out, "/repo/")) {
			os.Exit(3) // not about the code under test
		}
		if _, ok := err.(*exec.ExitError); !ok || strings.Contains(err.Error(), "signal: killed") {
			fmt.Println(err)
			os.Exit(3)
		}
		rt.Fatalf("new process %d: %v", seed, err)
	}
	c.Done(true, "new process %d", seed)
}
