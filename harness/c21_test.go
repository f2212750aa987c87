package harness

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"runtime/trace"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/utils"
	"pgregory.net/rapid"
)

// stubAlgo is an algorithm whose state is scripted, and which looks at the world before every step.
type stubAlgo struct {
	r      *rng
	gen    int
	fit    float64
	best   normgeom.NormPointGroup
	before func(gen int) // called before every step
	real   algorithm.Algorithm
	points int // how many points there are at most, if not 0
	style  int // 0: a new group now and then; 1: the same group changed in place; 2: small changes to a new group; 3: Best makes copies
}

func (s *stubAlgo) Step() {
	if s.before != nil {
		s.before(s.gen)
	}
	s.gen++
	if s.real != nil {
		s.real.Step()
		s.fit, s.best = s.real.Stats().BestFitness, s.real.Best()
		return
	}
	switch s.r.intn(8) {
	case 0: // nothing improved
	case 1:
		s.fit = -s.fit
	case 2:
		s.fit = float64(s.r.intn(5))
	case 3:
		s.fit = math.Ldexp(s.r.float(), s.r.intn(600)-300)
	default:
		s.fit = s.r.float()
	}
	if n := len(s.best); n > 0 && s.style > 0 && s.r.chance(0.7) {
		if s.style == 2 {
			s.best = s.best.Copy()
		}
		p := &s.best[s.r.intn(n)]
		if s.r.chance(0.5) {
			p.X = s.r.float()
		} else {
			p.Y = s.r.float()
		}
		return
	}
	if s.r.chance(0.8) {
		s.best = randomGroup(s.r, s.r.intn(max(s.points, 12)))
		for i := range s.best {
			switch s.r.intn(6) {
			case 0:
				s.best[i] = normgeom.NormPoint{X: float64(s.r.intn(2)), Y: float64(s.r.intn(2))}
			case 1:
				s.best[i].X = math.Ldexp(s.best[i].X, -s.r.intn(80))
			case 2:
				if s.r.chance(0.1) {
					s.best[i].Y = math.Ldexp(s.best[i].Y, -s.r.intn(1080))
				}
			}
		}
	}
}

func (s *stubAlgo) Best() normgeom.NormPointGroup {
	if s.style == 3 {
		return s.best.Copy()
	}
	return s.best
}
func (s *stubAlgo) Stats() algorithm.Stats {
	return algorithm.Stats{BestFitness: s.fit, Generation: s.gen, TimeForGen: time.Millisecond}
}

var numbers = regexp.MustCompile(`[+-]?(\d+\.?\d*([eE][+-]?\d+)?|Inf)`)

// lineIs tells if a line's first numbers are a generation and a fitness.
func lineIs(line string, s algorithm.Stats) bool {
	m := numbers.FindAllString(line, -1)
	if len(m) < 2 {
		return false
	}
	g, err := strconv.Atoi(m[0])
	f, err2 := strconv.ParseFloat(m[1], 64)
	return err == nil && err2 == nil && g == s.Generation && f == s.BestFitness
}

// captured runs f with the standard output going to a file and returns a function to read it so far.
func captured(dir string, f func(soFar func() string)) {
	path := filepath.Join(dir, "stdout")
	file, err := os.Create(path)
	must(err)
	old := os.Stdout
	os.Stdout = file
	defer func() {
		os.Stdout = old
		file.Close()
	}()
	f(func() string {
		b, err := os.ReadFile(path)
		must(err)
		return string(b)
	})
}

// runEndless runs a function that never returns in a goroutine that ends itself.
func runEndless(f func()) (failure interface{}) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	return <-done
}

func readLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func TestC21(t *testing.T) {
	run := func(rt *rapid.T, c *Case, output, long bool) {
		dir, err := os.MkdirTemp("", "out")
		must(err)
		defer os.RemoveAll(dir)
		r := drawRng(rt, "stub")
		reps := rapid.IntRange(1, 6).Draw(rt, "reps")
		batches := rapid.IntRange(1, 6).Draw(rt, "batches")
		s := &stubAlgo{r: r, best: normgeom.NormPointGroup{}, style: r.intn(4)}
		if long {
			switch r.intn(3) {
			case 0:
				batches = 6 + r.intn(120)
			case 1:
				reps = 6 + r.intn(1000)
			case 2:
				s.points = 1000
				if r.chance(0.3) {
					s.points = 30000
				}
			}
		}
		s.gen = 0
		kind := "scripted"
		if r.chance(0.15) {
			kind = "real"
			a := algoConfig{modified: r.chance(0.5), size: 8, cutoff: 2, n: 1 + r.intn(6), gateMode: "none"}
			f := towards(r.next())
			seedAll(r.next())
			newGroup := func() normgeom.NormPointGroup { return randomGroup(r, a.n) }
			if a.modified {
				s.real = algorithm.NewModifiedGenetic(newGroup, a.size, a.cutoff, pureEvaluator(f, "one", 0), mutatorFor(a.n))
			} else {
				s.real = algorithm.NewSimple(newGroup, a.size, a.cutoff, pureEvaluator(f, "one", 0), mutatorFor(a.n))
			}
			s.fit, s.best = s.real.Stats().BestFitness, s.real.Best()
		} else if r.chance(0.3) {
			s.gen = r.intn(1000)
			if r.chance(0.3) {
				s.gen = 1 << r.intn(50)
			}
		}
		out := filepath.Join(dir, pick(rt, "name", "out.json", "a b", "x", "100%", "%d %s.json", "a.b.c", ".x", "-x", "é", "x-stats", "*?[a]", "sub/out", "~", "$HOME", strings.Repeat("n", 240)))
		must(os.MkdirAll(filepath.Dir(out), 0755))
		if r.chance(0.2) { // relative to the working directory
			cwd, err := os.Getwd()
			must(err)
			rel, err := filepath.Rel(cwd, out)
			must(err)
			out = rel
		}
		if r.chance(0.3) { // there's an older, longer output
			must(os.WriteFile(out, bytes.Repeat([]byte("[{\"X\":1,\"Y\":1}] "), 400), 0644))
			must(os.WriteFile(out+"-stats", bytes.Repeat([]byte("1, 1\n"), 400), 0644))
		}
		first := s.gen
		var stats []algorithm.Stats // after each batch
		var best normgeom.NormPointGroup
		problem := ""
		captured(dir, func(soFar func() string) {
			s.before = func(gen int) {
				tick()
				if gen > first && (gen-first)%reps == 0 {
					stats = append(stats, s.Stats())
					best = s.best.Copy()
				}
				fail := func(format string, args ...interface{}) {
					problem = fmt.Sprintf("before step %d (%d per batch): ", gen-first+1, reps) + fmt.Sprintf(format, args...)
					runtime.Goexit()
				}
				var printed []string
				for _, l := range readLines(soFar()) {
					if !strings.Contains(l, "Alloc") && !strings.Contains(l, "GCTime") {
						printed = append(printed, l)
					}
				}
				if len(printed) != len(stats) {
					fail("%d batches are complete, but %d lines were printed: %q", len(stats), len(printed), printed)
				}
				for i, l := range printed {
					if !lineIs(l, stats[i]) {
						fail("line %q was printed after batch %d with %+v", l, i, stats[i])
					}
				}
				if output {
					b, err := os.ReadFile(out + "-stats")
					if err != nil {
						fail("%v", err)
					}
					lines := readLines(string(b))
					if len(lines) != len(stats) || (len(b) > 0 && b[len(b)-1] != '\n') {
						fail("%d batches are complete, but the statistics are %q", len(stats), b)
					}
					for i, l := range lines {
						if !lineIs(l, stats[i]) {
							fail("line %d of the statistics is %q after batch with %+v", i, l, stats[i])
						}
					}
					if len(stats) > 0 {
						b, err := os.ReadFile(out)
						if err != nil {
							fail("%v", err)
						}
						var g normgeom.NormPointGroup
						if err := json.Unmarshal(b, &g); err != nil {
							fail("output %q: %v", b, err)
						}
						if !sameGroup(g, best) {
							fail("output %q, but the best group was %v", b, best)
						}
					}
				}
				if len(stats) == batches && (gen-first)%reps == 0 {
					runtime.Goexit()
				}
			}
			if p := runEndless(func() {
				if output {
					utils.GenerateAlgorithmOutput(out, s, reps)
				} else {
					utils.RunAlgorithm(s, reps)
				}
			}); p != nil {
				problem = fmt.Sprintf("panic: %v", p)
			}
		})
		if problem != "" {
			rt.Fatalf("%s algorithm, %s", kind, problem)
		}
		if len(stats) < batches {
			rt.Fatalf("%s algorithm: it stopped after %d of %d batches", kind, len(stats), batches)
		}
		c.Label("%s algorithm", kind)
		c.Done(batches >= 2, "%s algorithm, %d steps in %d batches, last %+v %v", kind, reps*batches, batches, stats[len(stats)-1], best)
	}
	sub(t, "output", 2400, 60000,
		"runs with file output; the files and the standard output are read before every step; non-trivial: at least 2 batches",
		func(rt *rapid.T, c *Case) { run(rt, c, true, false) })
	sub(t, "no-output", 1600, 40000,
		"runs without file output; the standard output is read before every step; non-trivial: at least 2 batches",
		func(rt *rapid.T, c *Case) { run(rt, c, false, false) })
	sub(t, "long", 80, 2000,
		"the same with many batches, many steps per batch, or many points; non-trivial: at least 2 batches",
		func(rt *rapid.T, c *Case) { run(rt, c, rapid.Bool().Draw(rt, "output"), true) })
	sub(t, "trace", 16, 400,
		"traces contain everything logged by the traced steps; non-trivial: at least 100 traced steps",
		func(rt *rapid.T, c *Case) {
			dir, err := os.MkdirTemp("", "trace")
			must(err)
			defer os.RemoveAll(dir)
			r := drawRng(rt, "stub")
			s := &stubAlgo{r: r}
			base := r.next()
			var traced []int
			length := 1 + r.intn(40)
			mark := func(gen int) string {
				return fmt.Sprintf("mark-%016x-%d-%s", base, gen, strings.Repeat("x", length))
			}
			s.before = func(gen int) {
				if gen%100 == 0 {
					tick()
				}
				if trace.IsEnabled() {
					traced = append(traced, gen)
					trace.Log(context.Background(), "v", mark(gen))
				}
			}
			out := filepath.Join(dir, "t")
			utils.GenerateTrace(out, s)
			if trace.IsEnabled() {
				rt.Fatalf("tracing goes on")
			}
			b, err := os.ReadFile(out + ".trace")
			if err != nil {
				rt.Fatalf("%v", err)
			}
			if len(traced) == 0 || len(b) == 0 {
				rt.Fatalf("no step of %d was traced; the trace has %d bytes", s.gen, len(b))
			}
			for _, gen := range traced {
				if !bytes.Contains(b, []byte(mark(gen))) {
					rt.Fatalf("%d steps, %d of them traced, but the trace of %d bytes lacks what step %d logged", s.gen, len(traced), len(b), gen)
				}
			}
			// The structure of the file is only judged if a trace taken here, which is certainly complete, passes
			if traceFormatKnown() {
				if problem := checkTraceFile(b); problem != "" {
					rt.Fatalf("the trace of %d bytes of %d traced steps is cut off: %s", len(b), len(traced), problem)
				}
				c.Label("structure checked")
			}
			c.Done(len(traced) >= 100, "%d steps traced, %d bytes, %x", len(traced), len(b), base)
		})
	sub(t, "profile", 16, 160,
		"profiles can be decompressed completely; non-trivial: at least one step was profiled",
		func(rt *rapid.T, c *Case) {
			dir, err := os.MkdirTemp("", "profile")
			must(err)
			defer os.RemoveAll(dir)
			seconds := rapid.IntRange(0, 1).Draw(rt, "seconds")
			s := &stubAlgo{r: drawRng(rt, "stub")}
			s.before = func(int) { tick() }
			out := filepath.Join(dir, "p")
			start := time.Now()
			utils.GenerateProfile(out, s, seconds)
			if d := time.Since(start); d < time.Duration(seconds)*time.Second {
				rt.Fatalf("a profile of %d s took %v", seconds, d)
			}
			b, err := os.ReadFile(out + ".prof")
			if err != nil {
				rt.Fatalf("%v", err)
			}
			z, err := gzip.NewReader(bytes.NewReader(b))
			if err != nil {
				rt.Fatalf("%d s: profile of %d bytes: %v", seconds, len(b), err)
			}
			p, err := io.ReadAll(z)
			if err != nil || len(p) == 0 {
				rt.Fatalf("%d s: profile of %d bytes: %v", seconds, len(b), err)
			}
			if err := pprof.StartCPUProfile(io.Discard); err != nil {
				rt.Fatalf("profiling goes on: %v", err)
			}
			pprof.StopCPUProfile()
			if seconds > 0 && s.gen == 0 {
				rt.Fatalf("no step was profiled")
			}
			c.Done(s.gen > 0, "%d s, seed %d", seconds, s.r.s)
		})
}

// checkTraceFile walks through the batches of an execution trace (the format of Go 1.26 on) and returns what shows that
// the trace is incomplete, if anything.
func checkTraceFile(b []byte) string {
	const eventBatch, experimentalBatch, endOfGeneration = 1, 49, 52
	var version int
	if _, err := fmt.Sscanf(string(b[:min(len(b), 16)]), "go 1.%d trace", &version); err != nil || len(b) < 16 || version < 26 {
		return fmt.Sprintf("it starts with %q", b[:min(len(b), 16)])
	}
	r := bytes.NewReader(b[16:])
	complete := false
	for r.Len() > 0 {
		kind, _ := r.ReadByte()
		switch kind {
		case endOfGeneration:
			complete = true
			continue
		case experimentalBatch:
			r.ReadByte() // The experiment
		case eventBatch:
		default:
			return fmt.Sprintf("there is an event %d between batches", kind)
		}
		complete = false
		size := uint64(0)
		for k := 0; k < 4; k++ { // Generation, thread, timestamp, size
			var err error
			if size, err = binary.ReadUvarint(r); err != nil {
				return "the last batch has no complete header"
			}
		}
		if size > uint64(r.Len()) {
			return fmt.Sprintf("the last batch has %d of %d bytes", r.Len(), size)
		}
		r.Seek(int64(size), io.SeekCurrent)
	}
	if !complete {
		return "the last generation does not end"
	}
	return ""
}

// traceFormatKnown reports whether a complete trace taken by this process passes checkTraceFile.
var traceFormatKnown = sync.OnceValue(func() bool {
	var b bytes.Buffer
	if trace.Start(&b) != nil {
		return false
	}
	trace.Log(context.Background(), "v", "reference")
	trace.Stop()
	return checkTraceFile(b.Bytes()) == ""
})
