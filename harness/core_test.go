// Package harness decides the properties of /verif/properties.jsonl for github.com/RH12503/Triangula
// by property-based testing of its exported API.
package harness

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Environment of one shard, set by check.py.
var (
	seed     = envInt("VERIF_SEED", 1)
	shard    = envInt("VERIF_SHARD", 0)
	shards   = envInt("VERIF_SHARDS", 1)
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	statsDir = os.Getenv("VERIF_STATS")
	scale    = envInt("VERIF_SCALE_PERCENT", 100) // only for sensitivity experiments
)

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

// subStats is what one sub-property covered in this shard.
type subStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Rule        string         `json:"rule"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`

	hashes map[uint64]bool
}

var allStats = map[string]*subStats{}

// Case collects what a single generated case covered.
type Case struct {
	name       string
	stats      *subStats
	nonTrivial bool
	desc       string
	hash       uint64
}

// Label counts a class of cases.
func (c *Case) Label(format string, args ...interface{}) {
	c.stats.Labels[fmt.Sprintf(format, args...)]++
}

// LabelIf counts a class of cases if cond holds.
func (c *Case) LabelIf(cond bool, label string) {
	if cond {
		c.stats.Labels[label]++
	}
}

// Count adds n to a counter.
func (c *Case) Count(label string, n int) {
	c.stats.Labels[label] += n
}

// Done describes the case (its description identifies it) and says if it's non-trivial.
func (c *Case) Done(nonTrivial bool, format string, args ...interface{}) {
	c.nonTrivial = nonTrivial
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(c.name))
	h.Write([]byte(s))
	c.hash = h.Sum64()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.desc = s
}

var (
	progress   int64 // incremented whenever a case starts or ends, watched by the watchdog
	currentSub atomic.Value
)

// tick tells the watchdog that a long case is making progress.
func tick() { atomic.AddInt64(&progress, 1) }

func subSeed(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%d/%s", seed, shard, shards, name)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// quickPercent scales the numbers of cases of the quick tier so that every check takes about half a minute.
var quickPercent = map[string]int{
	"C01": 250, "C02": 250, "C03": 250, "C04": 150, "C06": 120, "C07": 150, "C08": 300, "C09": 150, "C10": 450, "C11": 300,
	"C12": 450, "C13": 700, "C14": 700, "C15": 400, "C16": 1000, "C17": 800, "C18": 300, "C19": 1000, "C21": 400, "C22": 2000,
	"C23": 300, "C24": 150,
}

// sub checks one sub-property with the given total numbers of cases (over all shards) per tier.
func sub(t *testing.T, name string, quick, deep int, rule string, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	n := quick
	if p := quickPercent[strings.TrimPrefix(strings.Split(t.Name(), "/")[0], "Test")]; p > 0 {
		n = n * p / 100
	}
	if thorough {
		n = max(n, deep)
	}
	n = (n*scale/100 + shards - 1) / shards
	if n < 1 {
		n = 1
	}
	t.Run(name, func(t *testing.T) {
		full := t.Name()
		st := allStats[full]
		if st == nil {
			st = &subStats{Rule: rule, Labels: map[string]int{}, hashes: map[uint64]bool{}}
			allStats[full] = st
		}
		currentSub.Store(full)
		must(flag.Set("rapid.seed", strconv.FormatUint(subSeed(full), 10)))
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		must(flag.Set("rapid.shrinktime", "20s"))
		rapid.Check(t, func(rt *rapid.T) {
			tick()
			c := &Case{name: full, stats: st}
			ok := false
			defer func() {
				if !ok {
					markFailure(full)
				}
			}()
			prop(rt, c)
			if ok = !rt.Failed(); ok && failureMarked { // it's still getting somewhere
				failureMarked = false
				_ = os.Remove("failed")
			}
			st.Evaluations++
			if c.nonTrivial {
				st.NonTrivial++
				if !st.hashes[c.hash] {
					st.hashes[c.hash] = true
					if len(st.Samples) < 2 || (len(st.Samples) < 4 && st.NonTrivial%97 == 0) {
						st.Samples = append(st.Samples, c.desc)
					}
				}
			}
			tick()
		})
	})
}

// markFailure leaves a file telling check.py that a case failed, in case shrinking it doesn't end.
func markFailure(name string) {
	if !failureMarked {
		failureMarked = true
		_ = os.WriteFile("failed", []byte(name), 0644)
	}
}

var failureMarked bool

// regress checks fixed inputs, mostly ones which once failed. Only the first shard runs them.
func regress(t *testing.T, name string, f func(t testing.TB)) {
	if shard != 0 {
		return
	}
	t.Run(name, func(t *testing.T) {
		currentSub.Store(t.Name())
		tick()
		f(t)
		tick()
		st := &subStats{Rule: "saved regression input", Labels: map[string]int{}, hashes: map[uint64]bool{}}
		st.Evaluations = 1
		allStats[t.Name()] = st
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	go watchdog()
	code := m.Run()
	if os.Getenv("VERIF_PEAK") != "" {
		fmt.Fprintf(os.Stderr, "PEAK heap %d MB, %.1f s\n", atomic.LoadUint64(&peakHeap)>>20, time.Duration(atomic.LoadInt64(&peakCPU)).Seconds())
	}
	writeStats()
	os.Exit(code)
}

func writeStats() {
	if statsDir == "" {
		return
	}
	b, err := json.Marshal(allStats)
	must(err)
	must(os.WriteFile(fmt.Sprintf("%s/stats-%d.json", statsDir, shard), b, 0644))
	f, err := os.Create(fmt.Sprintf("%s/hashes-%d.bin", statsDir, shard))
	must(err)
	var buf []byte
	for _, s := range allStats {
		for h := range s.hashes {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
	}
	_, err = f.Write(buf)
	must(err)
	must(f.Close())
}

const (
	exitDeadlock = 97
	exitStuck    = 98
	exitEndless  = 96

	// A case takes a few seconds of processor time and a few hundred MB at most, whatever the machine's load.
	endlessCPU  = 240 * time.Second
	endlessHeap = 2500 << 20
)

func cpuTime() time.Duration {
	var u syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func heapSize() uint64 {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

// watchdog looks for cases that can't finish. Slowness alone is never a violation: only if every
// goroutine is blocked in two dumps in a row (so nothing could ever wake them) it is a deadlock, and only
// if the code under test is still running after a hundred times the processor time or memory
// of any case (which doesn't depend on the machine's load) it is endless.
func watchdog() {
	last := int64(-1)
	idle := 0
	blockedBefore := false
	var start time.Duration
	for {
		for i := 0; i < 20; i++ {
			time.Sleep(250 * time.Millisecond)
			h := heapSize()
			if h > atomic.LoadUint64(&peakHeap) {
				atomic.StoreUint64(&peakHeap, h)
			}
			if h > endlessHeap {
				runtime.GC()
				if dump := stacks(); heapSize() > endlessHeap && testedRunning(dump) {
					endless("memory", dump)
				}
			}
		}
		now := atomic.LoadInt64(&progress)
		if now != last {
			last, idle, blockedBefore, start = now, 0, false, cpuTime()
			continue
		}
		if d := int64(cpuTime() - start); d > atomic.LoadInt64(&peakCPU) {
			atomic.StoreInt64(&peakCPU, d)
		}
		idle += 5
		if idle < 20 {
			continue
		}
		dump := stacks()
		if allBlocked(dump) {
			if blockedBefore {
				name, _ := currentSub.Load().(string)
				fmt.Fprintf(os.Stderr, "DEADLOCK in %s: every goroutine is blocked\n%s\n", name, dump)
				os.Exit(exitDeadlock)
			}
			blockedBefore = true
		} else {
			blockedBefore = false
		}
		if cpuTime()-start > endlessCPU && testedRunning(dump) {
			endless("processor time", dump)
		}
		if idle > 780 {
			fmt.Fprintf(os.Stderr, "STUCK: no progress for 780 s\n%s\n", dump)
			os.Exit(exitStuck)
		}
	}
}

var (
	peakHeap uint64
	peakCPU  int64 // only of cases longer than the watchdog's interval
)

func endless(what, dump string) {
	name, _ := currentSub.Load().(string)
	fmt.Fprintf(os.Stderr, "ENDLESS in %s: a case used too much %s\n%s\n", name, what, dump)
	os.Exit(exitEndless)
}

// testedRunning tells if a goroutine which isn't blocked is in the code under test.
func testedRunning(dump string) bool {
	for _, g := range strings.Split(dump, "\n\n") {
		end := strings.Index(g, "]")
		if end < 0 || !strings.Contains(g, "github.com/RH12503/Triangula/") {
			continue
		}
		if state := g[:end]; strings.Contains(state, "[run") {
			return true
		}
	}
	return false
}

func stacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

func allBlocked(dump string) bool {
	for i, g := range strings.Split(dump, "\n\n") {
		if i == 0 {
			continue // the watchdog itself
		}
		open := strings.Index(g, "[")
		end := strings.Index(g, "]")
		if open < 0 || end < open {
			return false
		}
		state := strings.Split(g[open+1:end], ",")[0]
		switch {
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"),
			strings.HasPrefix(state, "sem"), strings.HasPrefix(state, "sync."):
		default:
			return false
		}
	}
	return true
}
