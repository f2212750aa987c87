package harness

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
)

// bare wraps an evaluator without synchronising anything, so that it doesn't hide a race from the race detector. It
// delays evaluations, and catches panics, which would otherwise leave the algorithm waiting for ever.
type bare struct {
	evaluator.Evaluator
	delay  string
	seed   uint64
	gets   int64
	panics *panics
}

var delays = []string{"none", "yield", "sleep", "first late", "last late"}

// panics collects the panics of workers.
type panics struct {
	mu    sync.Mutex
	first string
}

func (p *panics) check() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.first
}

func (b *bare) Get(i int) fitness.Function {
	k := atomic.AddInt64(&b.gets, 1) // the algorithm's own goroutine only, so it orders nothing
	r := &rng{b.seed ^ uint64(k)*0x9e3779b97f4a7c15}
	f := &bareFn{inner: b.Evaluator.Get(i), panics: b.panics}
	switch b.delay {
	case "yield":
		f.yields, f.yieldsAfter = r.intn(8), r.intn(8)
	case "sleep":
		f.sleep, f.sleepAfter = time.Duration(r.intn(60))*time.Microsecond, time.Duration(r.intn(60))*time.Microsecond
	case "first late":
		if i == 0 || r.chance(0.1) {
			f.sleep = 150 * time.Microsecond
		}
	case "last late":
		if i%5 == 4 {
			f.sleepAfter = 150 * time.Microsecond
		}
	}
	return f
}

type bareFn struct {
	inner               fitness.Function
	yields, yieldsAfter int
	sleep, sleepAfter   time.Duration
	panics              *panics
}

func (f *bareFn) Calculate(d fitness.PointsData) float64 {
	defer func() {
		if p := recover(); p != nil {
			f.panics.mu.Lock()
			if f.panics.first == "" {
				f.panics.first = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
			f.panics.mu.Unlock()
		}
	}()
	for i := 0; i < f.yields; i++ {
		runtime.Gosched()
	}
	if f.sleep > 0 {
		time.Sleep(f.sleep)
	}
	fit := f.inner.Calculate(d)
	for i := 0; i < f.yieldsAfter; i++ {
		runtime.Gosched()
	}
	if f.sleepAfter > 0 {
		time.Sleep(f.sleepAfter)
	}
	return fit
}
