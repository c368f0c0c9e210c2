// Package core is the harness side of the simulator: run contexts, recorded
// histories, violations, seeded generation and scheduling strategies.
package core

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Rng is a splitmix64 generator; every random choice of the harness comes
// from one of these.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

// Pick returns one of the values.
func Pick[T any](r *Rng, vs ...T) T { return vs[r.N(len(vs))] }

func Mix(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		r := Rng{h ^ v*0xff51afd7ed558ccd}
		h = r.U64()
	}
	return h
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Sched describes how a run is scheduled. Either Strategy (seeded) or Replay
// (explicit decisions).
type Sched struct {
	Seed      uint64   `json:"seed"`
	ValueSeed uint64   `json:"value_seed"`
	Strategy  string   `json:"strategy"`
	Pick      int      `json:"pick"`
	Preempt   uint32   `json:"preempt"`
	Sel       bool     `json:"sel"`
	StallProb uint32   `json:"stall_prob"`
	StallMax  int      `json:"stall_max"`
	PCTDepth  int      `json:"pct_depth"`
	PCTLen    uint64   `json:"pct_len"`
	MaxSteps  uint64   `json:"max_steps"`
	Replay    bool     `json:"replay"`
	Decisions []uint64 `json:"decisions,omitempty"` // at<<8|val
}

var stallTab = []int64{int64(time.Millisecond), int64(7 * time.Millisecond), int64(60 * time.Millisecond), int64(450 * time.Millisecond), int64(1500 * time.Millisecond), int64(5 * time.Second)}

const DefaultMaxSteps = 3000000

// GenSched draws a scheduling strategy (swarm style: every run differs).
func GenSched(seed uint64, stalls bool) Sched {
	r := NewRng(seed ^ 0x5ced)
	s := Sched{Seed: r.U64(), ValueSeed: r.U64(), Sel: !r.P(10), MaxSteps: DefaultMaxSteps}
	switch k := r.N(100); {
	case k < 8:
		s.Strategy, s.Pick, s.Preempt = "fifo", 1, 0
	case k < 22:
		s.Strategy, s.Pick, s.Preempt = "fifo-rare-preempt", 1, Pick(r, uint32(60), uint32(300), uint32(1500))
	case k < 30:
		s.Strategy, s.Pick, s.Preempt = "uniform-coop", 0, 0
	case k < 58:
		s.Strategy, s.Pick, s.Preempt = "uniform", 0, Pick(r, uint32(300), uint32(1500), uint32(6000), uint32(20000), uint32(40000))
	case k < 70:
		s.Strategy, s.Pick, s.Preempt = "weighted", 2, Pick(r, uint32(1500), uint32(6000), uint32(20000))
	case k < 78:
		s.Strategy, s.Pick, s.Preempt = "lifo", 4, Pick(r, uint32(0), uint32(1500), uint32(6000))
	default:
		s.Strategy, s.Pick, s.PCTDepth, s.PCTLen = "pct", 3, Pick(r, 0, 1, 2, 3, 5, 8), Pick(r, uint64(400), uint64(1500), uint64(5000))
	}
	if stalls {
		s.StallProb = Pick(r, uint32(60), uint32(250), uint32(1000))
		s.StallMax = Pick(r, 1, 2, 4, 8)
	}
	return s
}

func (s Sched) runtime(rec []byte) runtime.SimConfig {
	c := runtime.SimConfig{Seed: s.Seed, ValueSeed: s.ValueSeed, Pick: s.Pick, Preempt: s.Preempt, Sel: s.Sel,
		StallProb: s.StallProb, StallMax: s.StallMax, StallTab: stallTab, PCTDepth: s.PCTDepth, PCTLen: s.PCTLen,
		MaxSteps: s.MaxSteps, Replay: s.Replay, Rec: rec}
	for _, d := range s.Decisions {
		c.Decisions = append(c.Decisions, runtime.SimDec{At: uint32(d >> 8), Val: uint8(d)})
	}
	return c
}

// Stalls reports whether the schedule may contain goroutine stalls, during
// which simulated time passes inside library code.
func (s Sched) Stalls() bool { return s.StallMax > 0 }

// Violation is one property violation.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	T     string   `json:"t"`
	Seq   int      `json:"seq"`
}

func (v Violation) Has(p string) bool {
	for _, q := range v.Props {
		if q == p || q == "*" || p == "ANY" {
			return true
		}
	}
	return false
}

// Ev is one recorded event of the history.
type Ev struct {
	Seq  int
	T    time.Duration
	G    uint64
	What string
}

// Run is the context of one simulated run.
type Run struct {
	Exact   bool // no stalls: library code takes no simulated time
	Verbose bool
	Sched   Sched

	Seq    int
	Hash   uint64
	t0     time.Time
	Events []Ev
	Viol   []Violation
	Faults map[string]int
	Probes map[string]int
	Ops    int
	Over   bool // run is over, late events are ignored
	baseG  int
}

func (r *Run) Now() time.Duration { return time.Since(r.t0) }

// E records an event and returns its sequence number. Events with the same
// content are one history, whatever the addresses involved.
func (r *Run) E(format string, a ...any) int {
	raceOff()
	defer raceOn()
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...) // may run instrumented code, and thus yield
	}
	r.Seq++
	t := r.Now()
	h := HashString(s) ^ uint64(t)*0x9e3779b97f4a7c15
	r.Hash = (r.Hash^h)*0x100000001b3 + 0x1234567
	if r.Verbose {
		r.Events = append(r.Events, Ev{r.Seq, t, runtime.SimG(), s})
	}
	return r.Seq
}

// Violate records a violation of the space separated properties. It never
// repeats a class.
func (r *Run) Violate(props, class, format string, a ...any) {
	raceOff()
	defer raceOn()
	for _, v := range r.Viol {
		if v.Class == class {
			return
		}
	}
	v := Violation{Props: strings.Fields(props), Class: class, Msg: fmt.Sprintf(format, a...), T: r.Now().String(), Seq: r.Seq}
	r.Viol = append(r.Viol, v)
	r.E("VIOLATION %s %s: %s", props, class, v.Msg)
}

func (r *Run) Fault(k string) { r.Faults[k] = Get(r.Faults, k) + 1 }
func (r *Run) Probe(k string) { r.Probes[k] = Get(r.Probes, k) + 1 }

// Get reads a map in a way that the race detector ascribes to its caller (the
// single valued form loses that frame), see race_on.go.
func Get[K comparable, V any](m map[K]V, k K) (v V) {
	if x, ok := m[k]; ok {
		v = x
	}
	return
}

// Settle waits until nothing in the bubble can run without time passing.
func (r *Run) Settle() { runtime.SimWait() }

// Gs is the number of goroutines in the bubble beyond the main one.
func (r *Run) Gs() int { return runtime.SimTotal() - 1 }

func Yield() { runtime.SimY() }

// Family is one workload.
type Family interface {
	Name() string
	// Gen makes a scenario for a seed, biased towards a property.
	Gen(rng *Rng, prop string) any
	Decode(b []byte) (any, error)
	// Run executes the scenario; called as main goroutine of the bubble.
	Run(sc any, r *Run)
	// Shrinks lists simpler variants of the scenario, most aggressive first.
	Shrinks(sc any) []any
	// Stalls says whether the scenario admits goroutine stalls.
	Stalls(sc any) bool
}

var Families = map[string]Family{}

// Case is a scenario with its schedule.
type Case struct {
	Family   string          `json:"family"`
	Scenario json.RawMessage `json:"scenario"`
	Sched    Sched           `json:"sched"`
}

// Result is what a run produced.
type Result struct {
	Viol   []Violation      `json:"viol,omitempty"`
	Hash   uint64           `json:"hash"`
	Stats  runtime.SimStats `json:"stats"`
	SimT   int64            `json:"simt"`
	Faults map[string]int   `json:"faults,omitempty"`
	Probes map[string]int   `json:"probes,omitempty"`
	Ops    int              `json:"ops"`
	Events []Ev             `json:"-"`
	Dead   string           `json:"dead,omitempty"`
}

// Exec runs one scenario under a schedule.
func Exec(f Family, sc any, s Sched, rec []byte, verbose bool) (res Result) {
	r := &Run{Exact: !s.Stalls(), Sched: s, Verbose: verbose, Faults: map[string]int{}, Probes: map[string]int{}}
	res.Stats = runtime.SimRun(s.runtime(rec), func() {
		r.t0 = time.Now()
		f.Run(sc, r)
		r.Over = true
		res.SimT = int64(r.Now())
	})
	res.Dead = res.Stats.Deadlock
	res.Viol, res.Hash, res.Faults, res.Probes, res.Ops, res.Events = r.Viol, r.Hash, r.Faults, r.Probes, r.Ops, r.Events
	if res.Dead != "" && len(res.Viol) == 0 {
		res.Viol = append(res.Viol, Violation{Props: []string{"*"}, Class: "deadlock", Msg: res.Dead})
	}
	return
}

// Sparse lists the non-default decisions of a recording.
func Sparse(rec []byte, n uint64) []uint64 {
	var out []uint64
	if n > uint64(len(rec)) {
		n = uint64(len(rec))
	}
	for i := uint64(0); i < n; i++ {
		if rec[i] != 0 {
			out = append(out, i<<8|uint64(rec[i]))
		}
	}
	return out
}

func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Touch reads all of a value that the library has returned to this goroutine,
// for the sake of the race detector.
//
//go:noinline
func Touch(x any) int {
	n := 0
	switch x := x.(type) {
	case map[string]any:
		for _, v := range x {
			n += Touch(v)
		}
	case []string:
		for _, v := range x {
			n += len(v)
		}
	case string:
		n = len(x)
	}
	return n
}
