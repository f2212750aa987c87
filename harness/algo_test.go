package harness

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
	"pgregory.net/rapid"
)

// pureFn is a fitness that depends only on the points.
type pureFn func(g normgeom.NormPointGroup) float64

func groupHash(g normgeom.NormPointGroup) uint64 {
	r := &rng{uint64(len(g))}
	for _, p := range g {
		r.s ^= math.Float64bits(p.X)
		r.next()
		r.s = r.s*0x9e3779b97f4a7c15 ^ math.Float64bits(p.Y)
		r.s = r.next()
	}
	return r.next()
}

// towards is a smooth fitness with its optimum (0) at drawn positions. It's distinct for distinct groups
// (but for accidents), by means of a tiny hash.
func towards(s uint64) pureFn {
	return func(g normgeom.NormPointGroup) float64 {
		r := &rng{s}
		f := 0.
		for _, p := range g {
			f -= (p.X-r.float())*(p.X-r.float()) + (p.Y-r.float())*(p.Y-r.float())
		}
		return f + float64(groupHash(g)>>11)/(1<<53)*1e-9
	}
}

func hashed(s uint64) pureFn {
	return func(g normgeom.NormPointGroup) float64 {
		r := &rng{groupHash(g) ^ s}
		return 2*r.float() - 1
	}
}

// drawPure draws a fitness function and tells if it's distinct for distinct groups.
func drawPure(rt *rapid.T, n int, ties bool) (pureFn, string, bool) {
	s := drawRng(rt, "fitness").next()
	kinds := []string{"towards", "towards", "hashed", "huge", "shifted", "image"}
	if ties {
		kinds = append(kinds, "tied", "constant", "sign")
	}
	switch kind := pick(rt, "fitnessKind", kinds...); kind {
	case "hashed":
		return hashed(s), kind, true
	case "huge":
		f := hashed(s)
		return func(g normgeom.NormPointGroup) float64 { return f(g) * 1e308 }, kind, true
	case "shifted":
		f := towards(s)
		return func(g normgeom.NormPointGroup) float64 { return f(g) - 1000 }, kind, true
	case "tied":
		f := towards(s)
		return func(g normgeom.NormPointGroup) float64 { return math.Floor(f(g) * 3 / float64(n)) }, kind, false
	case "constant":
		return func(g normgeom.NormPointGroup) float64 { return -3 }, kind, false
	case "sign":
		f := hashed(s)
		return func(g normgeom.NormPointGroup) float64 { return math.Copysign(1, f(g)) }, kind, false
	case "image":
		m := drawImage(rt, 5+int(s%10), 5+int(s>>8%10), false)
		return func(g normgeom.NormPointGroup) float64 {
			return freshFitness(false, m, 2, g) + float64(groupHash(g)>>11)/(1<<53)*1e-9
		}, kind, true
	default:
		return towards(s), kind, true
	}
}

// pureFunction is a fitness.Function that counts what it's asked.
type pureFunction struct {
	f     pureFn
	cache []fitness.CacheData
	base  fitness.CacheFunction
}

func (p *pureFunction) Calculate(d fitness.PointsData) float64 { return p.f(d.Points) }
func (p *pureFunction) SetBase(o fitness.CacheFunction)        { p.base = o }
func (p *pureFunction) Cache() []fitness.CacheData             { return nil }
func (p *pureFunction) SetCache(c []fitness.CacheData)         { p.cache = c }

// slotFn is the model of one fitness function: it knows which points it holds.
type slotFn struct {
	id      int
	held    normgeom.NormPointGroup // at its last evaluation
	base    *slotFn                 // declared, but not yet evaluated
	evals   int                     // in this generation
	updates int
	running bool
}

// evalRec is one evaluation of a generation.
type evalRec struct {
	fn, base *slotFn
	points   normgeom.NormPointGroup
	muts     []mutation.Mutation
	fitness  float64
	started  int // order of start and end within the generation
	ended    int
}

// mutateRec is one call of the mutation method.
type mutateRec struct {
	before, after normgeom.NormPointGroup
	reported      []mutation.Mutation
}

// recorder wraps an evaluator: it follows the calls with a model and records the evaluations.
type recorder struct {
	mu     sync.Mutex
	inner  evaluator.Evaluator
	slots  []*slotFn
	evals  []*evalRec
	muts   []*mutateRec
	seq    int
	errs   []string
	swaps  int
	gate   *gate
	gets   int // Get calls in this generation
	strict bool
}

func newRecorder(inner evaluator.Evaluator, n int, g *gate) *recorder {
	r := &recorder{inner: inner, gate: g}
	for i := 0; i < n; i++ {
		r.slots = append(r.slots, &slotFn{id: i})
	}
	return r
}

func (r *recorder) fail(format string, args ...interface{}) {
	if len(r.errs) < 5 {
		r.errs = append(r.errs, fmt.Sprintf(format, args...))
	}
}

// begin starts a new generation.
func (r *recorder) begin() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals, r.muts, r.seq, r.gets = nil, nil, 0, 0
	for _, s := range r.slots {
		s.evals, s.updates = 0, 0
	}
	r.gate.reset()
}

// end ends a generation and returns what was evaluated.
func (r *recorder) end() ([]*evalRec, []*mutateRec) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, s := range r.slots {
		if s.running {
			r.fail("member %d's evaluation hasn't finished at the end of the generation", i)
		}
		if s.evals > 0 && s.updates == 0 {
			r.fail("member %d was evaluated, but not updated", i)
		}
	}
	return r.evals, r.muts
}

func (r *recorder) SetBase(i, base int) {
	r.mu.Lock()
	s, b := r.slots[i], r.slots[base]
	if s == b {
		r.fail("member %d was made its own base", i)
	}
	if b.held == nil {
		r.fail("member %d's base %d was never evaluated", i, base)
	}
	if b.base != nil {
		r.fail("member %d's base %d is about to change itself", i, base)
	}
	if b.running {
		// Reading its state isn't safe
		r.fail("member %d's base %d is being evaluated", i, base)
	}
	if s.running {
		r.fail("member %d gets a base while being evaluated", i)
	}
	for j, o := range r.slots {
		if o.base == s {
			r.fail("member %d changes although %d is derived from it", i, j)
		}
	}
	s.base = b
	r.mu.Unlock()
	r.inner.SetBase(i, base)
}

func (r *recorder) Swap(i, j int) {
	r.mu.Lock()
	r.slots[i], r.slots[j] = r.slots[j], r.slots[i]
	r.swaps++
	r.mu.Unlock()
	r.inner.Swap(i, j)
}

func (r *recorder) Prepare() { r.inner.Prepare() }

func (r *recorder) Update(i int) {
	r.mu.Lock()
	s := r.slots[i]
	if s.running || s.evals == 0 {
		r.fail("member %d was updated before its evaluation", i)
	}
	s.updates++
	if s.updates > 1 {
		r.fail("member %d was updated twice", i)
	}
	r.mu.Unlock()
	r.inner.Update(i)
}

func (r *recorder) Get(i int) fitness.Function {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.gets++
	return &recorded{r, r.slots[i], r.inner.Get(i), i, r.gets - 1}
}

type recorded struct {
	r     *recorder
	s     *slotFn
	inner fitness.Function
	i     int
	order int
}

func (f *recorded) Calculate(d fitness.PointsData) (fit float64) {
	r, s := f.r, f.s
	r.gate.enter(f.order)
	defer r.gate.leave(f.order)

	r.mu.Lock()
	s.evals++
	if s.evals > 1 || s.running {
		r.fail("member %d is evaluated more than once in a generation", f.i)
	}
	rec := &evalRec{fn: s, base: s.base, points: d.Points.Copy(), started: r.seq}
	rec.muts = append(rec.muts, d.Mutations...)
	r.seq++
	switch {
	case s.base != nil && s.base.held != nil:
		want := s.base.held.Copy()
		seen := map[int]bool{}
		for _, m := range d.Mutations {
			if m.Index < 0 || m.Index >= len(want) || m.Index >= len(d.Points) {
				r.fail("member %d: mutation of point %d of %d", f.i, m.Index, len(want))
				continue
			}
			if seen[m.Index] {
				r.fail("member %d: two mutations of point %d", f.i, m.Index)
			}
			seen[m.Index] = true
			if m.Old != s.base.held[m.Index] {
				r.fail("member %d: mutation says point %d of the base was at %v, but it is at %v", f.i, m.Index, m.Old, s.base.held[m.Index])
			}
			if m.New != d.Points[m.Index] {
				r.fail("member %d: mutation says point %d is at %v, but it is at %v", f.i, m.Index, m.New, d.Points[m.Index])
			}
			want[m.Index] = m.New
		}
		if !sameGroup(want, d.Points) {
			r.fail("member %d: its base with the mutations is %v, but it is %v", f.i, want, d.Points)
		}
	case s.held != nil && !sameGroup(s.held, d.Points):
		r.fail("member %d has no base and was evaluated with %v, but now is %v", f.i, s.held, d.Points)
	}
	s.base = nil
	s.held = rec.points
	s.running = true
	r.mu.Unlock()

	defer func() {
		p := recover()
		r.mu.Lock()
		if p != nil {
			r.fail("member %d: evaluation panicked: %v\n%s", f.i, p, debug.Stack())
		}
		if !sameGroup(rec.points, d.Points) {
			r.fail("member %d: the points changed during the evaluation", f.i)
		}
		rec.fitness = fit
		rec.ended = r.seq
		r.seq++
		r.evals = append(r.evals, rec)
		s.running = false
		r.mu.Unlock()
	}()
	return f.inner.Calculate(d)
}

func sameGroup(a, b normgeom.NormPointGroup) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// recordedMethod records the calls of a mutation method.
type recordedMethod struct {
	r     *recorder
	inner mutation.Method
}

func (m *recordedMethod) Mutate(points normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	rec := &mutateRec{before: points.Copy()}
	m.inner.Mutate(points, func(mu mutation.Mutation) {
		rec.reported = append(rec.reported, mu)
		mutated(mu)
	})
	rec.after = points.Copy()
	m.r.mu.Lock()
	m.r.muts = append(m.r.muts, rec)
	m.r.mu.Unlock()
}

// gate shuffles the order in which workers finish. It's soft: a worker that would have to wait for long
// goes ahead, so that no implementation can be made to hang.
type gate struct {
	mode  string
	size  int // evaluations in the parallel part of a generation
	r     *rng
	order []int // order[k] = rank at which evaluation k may finish
	done  int64
}

var gateModes = []string{"none", "yield", "reverse", "shuffle", "sleep"}

func (g *gate) reset() {
	if g == nil {
		return
	}
	atomic.StoreInt64(&g.done, 0)
	g.order = make([]int, g.size)
	for i := range g.order {
		g.order[i] = i
		if g.mode == "reverse" {
			g.order[i] = g.size - 1 - i
		}
	}
	if g.mode == "shuffle" || g.mode == "yield" || g.mode == "sleep" {
		for i := g.size - 1; i > 0; i-- {
			j := g.r.intn(i + 1)
			g.order[i], g.order[j] = g.order[j], g.order[i]
		}
	}
}

func (g *gate) enter(k int) {
	if g == nil || k >= g.size {
		return
	}
	switch g.mode {
	case "yield":
		for i := 0; i < g.order[k]*3; i++ {
			runtime.Gosched()
		}
	case "sleep":
		time.Sleep(time.Duration(g.order[k]*7) * time.Microsecond)
	}
}

func (g *gate) leave(k int) {
	if g == nil || k >= g.size {
		return
	}
	if g.mode == "reverse" || g.mode == "shuffle" {
		for i := 0; i < 3000 && atomic.LoadInt64(&g.done) < int64(g.order[k]); i++ {
			runtime.Gosched()
		}
	}
	atomic.AddInt64(&g.done, 1)
}

// algoConfig is a drawn configuration of an algorithm.
type algoConfig struct {
	modified     bool
	size, cutoff int
	n            int
	evalKind     string
	fitKind      string
	gateMode     string
	mutKind      string
	mutate       mutation.Method
	pure         pureFn // nil for real, stateful functions
	distinct     bool   // distinct groups have distinct fitnesses
	newInner     func(n int) evaluator.Evaluator
	newGroup     func() normgeom.NormPointGroup
	rngSeed      uint64
}

func (a algoConfig) String() string {
	kind := "simple"
	if a.modified {
		kind = "modified"
	}
	return fmt.Sprintf("%s size %d cutoff %d, %d points, %s evaluator, %s fitness, %s mutations, %s workers, seed %d",
		kind, a.size, a.cutoff, a.n, a.evalKind, a.fitKind, a.mutKind, a.gateMode, a.rngSeed)
}

// batch is the number of members evaluated in parallel per generation.
func (a algoConfig) batch() int {
	if a.modified {
		return a.size - a.cutoff
	}
	return a.size
}

// jump is a mutation method moving each point with some probability to one of few places.
type jump struct {
	r    *rng
	rate float64
	grid int
}

func (j *jump) Mutate(points normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	for i := range points {
		if !j.r.chance(j.rate) {
			continue
		}
		old := points[i]
		points[i] = normgeom.NormPoint{X: float64(j.r.intn(j.grid+1)) / float64(j.grid), Y: float64(j.r.intn(j.grid+1)) / float64(j.grid)}
		mutated(mutation.Mutation{Old: old, New: points[i], Index: i})
	}
}

// backwards reports its mutations from the last to the first.
type backwards struct{ inner mutation.Method }

func (b *backwards) Mutate(points normgeom.NormPointGroup, mutated func(mutation.Mutation)) {
	var all []mutation.Mutation
	b.inner.Mutate(points, func(m mutation.Mutation) { all = append(all, m) })
	for i := len(all) - 1; i >= 0; i-- {
		mutated(all[i])
	}
}

func drawMutator(rt *rapid.T, n int) (mutation.Method, string) {
	r := drawRng(rt, "mutator")
	rate := pick(rt, "rate", 0., 0.05, 0.3, 0.5, 1, 1.5/float64(n))
	amount := pick(rt, "amount", 0.01, 0.3, 1, 5)
	switch kind := pick(rt, "mutator", "gaussian", "random", "default", "jump", "backwards"); kind {
	case "gaussian":
		return mutation.NewGaussianMethod(rate, amount), fmt.Sprintf("gaussian(%v, %v)", rate, amount)
	case "random":
		return mutation.NewRandomMethod(rate, amount), fmt.Sprintf("random(%v, %v)", rate, amount)
	case "jump":
		g := 1 + r.intn(6)
		return &jump{r, rate, g}, fmt.Sprintf("jump(%v, %d)", rate, g)
	case "backwards":
		return &backwards{mutation.NewGaussianMethod(rate, amount)}, fmt.Sprintf("backwards gaussian(%v, %v)", rate, amount)
	default:
		return mutation.DefaultGaussianMethod(n), kind
	}
}

// algoScope limits the configurations that are drawn.
type algoScope struct {
	minSize, maxSize, maxCutoff int
	minPoints, maxPoints        int
	minSteps, maxSteps          int
}

var (
	usual    = algoScope{1, 24, 5, 1, 14, 1, 12}
	longer   = algoScope{1, 80, 5, 1, 14, 1, 60}
	populous = algoScope{100, 900, 60, 1, 14, 1, 3}
	enduring = algoScope{1, 10, 4, 1, 8, 200, 1500}
	detailed = algoScope{1, 10, 4, 50, 800, 1, 4}
)

const scopesRule = "runs with hundreds of members, with hundreds of steps, and with hundreds of points per member; non-trivial: as above"

// drawScope draws one of the larger scopes.
func drawScope(rt *rapid.T) algoScope {
	return []algoScope{populous, enduring, detailed}[rapid.IntRange(0, 2).Draw(rt, "scope")]
}

func (s algoScope) steps(rt *rapid.T) int {
	if s.maxSteps > 100 {
		r := drawRng(rt, "steps")
		return s.minSteps + r.intn(s.maxSteps-s.minSteps+1)
	}
	return rapid.IntRange(s.minSteps, s.maxSteps).Draw(rt, "steps")
}

func upTo(size int) algoScope {
	s := usual
	s.maxSize = size
	return s
}

// drawAlgo draws a configuration. If real, fitness functions may be the stateful ones.
func drawAlgo(rt *rapid.T, s algoScope, ties, real bool) algoConfig {
	var a algoConfig
	r := drawRng(rt, "algo")
	a.rngSeed = r.next() >> 1
	a.modified = rapid.IntRange(0, 2).Draw(rt, "modified") > 0
	a.cutoff = rapid.IntRange(1, s.maxCutoff).Draw(rt, "cutoff")
	lo := a.cutoff
	if a.modified {
		lo = 2 * a.cutoff
	}
	lo = max(lo, s.minSize)
	if s.maxSize > 100 {
		a.size = lo + r.intn(s.maxSize-lo+1)
	} else {
		a.size = rapid.IntRange(lo, max(lo, s.maxSize)).Draw(rt, "size")
	}
	a.n = drawCount(rt, "n", s.minPoints, s.maxPoints)
	a.mutate, a.mutKind = drawMutator(rt, a.n)
	a.gateMode = pick(rt, "gate", gateModes...)

	var poly, stateful bool
	if real && rapid.IntRange(0, 2).Draw(rt, "real") == 0 {
		stateful = true
		poly = rapid.Bool().Draw(rt, "polygons")
	}
	pow := rapid.IntRange(0, 10).Draw(rt, "cache")
	if stateful {
		w, h := 3+r.intn(20), 3+r.intn(20)
		m := drawImage(rt, w, h, false)
		block := 1 + r.intn(5)
		a.fitKind = "triangles"
		if poly {
			a.fitKind = "polygons"
		}
		a.fitKind += fmt.Sprintf(" (%v, block size %d)", m, block)
		a.evalKind = fmt.Sprintf("parallel (cache %d)", pow)
		a.newInner = func(n int) evaluator.Evaluator {
			return evaluator.NewParallel(newFunctions(poly, m, block, n), pow)
		}
	} else {
		f, kind, distinct := drawPure(rt, a.n, ties)
		a.pure, a.fitKind, a.distinct = f, kind, distinct
		a.evalKind = pick(rt, "evaluator", "one", "many", "parallel")
		a.newInner = pureEvaluator(f, a.evalKind, pow)
	}
	start := pick(rt, "start", "random", "same", "grid")
	sr := drawRng(rt, "start")
	first := randomGroup(sr, a.n)
	a.newGroup = func() normgeom.NormPointGroup {
		switch start {
		case "same":
			return first.Copy()
		case "grid":
			g := first.Copy()
			for i := range g {
				g[i] = normgeom.NormPoint{X: float64(sr.intn(4)) / 3, Y: float64(sr.intn(4)) / 3}
			}
			return g
		}
		return randomGroup(sr, a.n)
	}
	return a
}

func pureEvaluator(f pureFn, kind string, pow int) func(n int) evaluator.Evaluator {
	return func(n int) evaluator.Evaluator {
		switch kind {
		case "one":
			return evaluator.NewOne(&pureFunction{f: f})
		case "many":
			return evaluator.NewMany(func() fitness.Function { return &pureFunction{f: f} }, n)
		}
		var fs []fitness.CacheFunction
		for i := 0; i < n; i++ {
			fs = append(fs, &pureFunction{f: f})
		}
		return evaluator.NewParallel(fs, pow)
	}
}

func randomGroup(r *rng, n int) normgeom.NormPointGroup {
	var g normgeom.NormPointGroup
	for i := 0; i < n; i++ {
		g = append(g, normgeom.NormPoint{X: r.float(), Y: r.float()})
	}
	return g
}

// seedAll seeds both generators the code uses.
func seedAll(s uint64) {
	random.Seed(int64(s))
	rand.Seed(int64(s))
}

// generation is what happened in one generation.
type generation struct {
	evals []*evalRec
	muts  []*mutateRec
	best  normgeom.NormPointGroup
	stats algorithm.Stats
}

// run runs an algorithm and reports every generation, starting with the one built by the constructor.
func (a algoConfig) run(rt *rapid.T, steps int, each func(gen int, g generation)) *recorder {
	seedAll(a.rngSeed)
	var gt *gate
	if a.gateMode != "none" {
		gt = &gate{mode: a.gateMode, size: a.batch(), r: &rng{a.rngSeed}}
	}
	var rec *recorder
	newEvaluators := func(n int) evaluator.Evaluator {
		if n != a.size {
			rt.Fatalf("%v: an evaluator for %d members was asked for", a, n)
		}
		rec = newRecorder(a.newInner(n), n, gt)
		rec.begin()
		return rec
	}
	method := &recordedMethod{inner: a.mutate}
	late := func(n int) evaluator.Evaluator {
		e := newEvaluators(n)
		method.r = rec
		return e
	}
	var algo algorithm.Algorithm
	if a.modified {
		algo = algorithm.NewModifiedGenetic(a.newGroup, a.size, a.cutoff, late, method)
	} else {
		algo = algorithm.NewSimple(a.newGroup, a.size, a.cutoff, late, method)
	}
	for i := 0; ; i++ {
		tick()
		e, m := rec.end()
		if len(rec.errs) > 0 {
			rt.Fatalf("%v, generation %d: %s", a, i, rec.errs[0])
		}
		each(i, generation{e, m, algo.Best().Copy(), algo.Stats()})
		if i == steps {
			return rec
		}
		rec.begin()
		algo.Step()
	}
}

func mutatorFor(n int) mutation.Method { return mutation.DefaultGaussianMethod(n) }
