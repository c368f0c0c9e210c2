package core

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
)

const recSize = 1 << 21
const hdr = 64

// Request is a line sent to a child.
type Request struct {
	Kind    string   `json:"kind"` // batch, case, gen
	Family  string   `json:"family"`
	Prop    string   `json:"prop"`
	Seed    uint64   `json:"seed"`
	From    int      `json:"from"`
	To      int      `json:"to"`
	Case    *Case    `json:"case,omitempty"`
	Verbose bool     `json:"verbose,omitempty"`
	Known   []string `json:"known,omitempty"` // classes to skip
	Only    string   `json:"only,omitempty"`  // report just this class
}

// Found is a violating case.
type Found struct {
	Index  int         `json:"index"`
	Case   Case        `json:"case"`
	Viol   []Violation `json:"viol"`
	Events []Ev        `json:"events,omitempty"`
}

// Reply is a line from a child.
type Reply struct {
	Runs     int            `json:"runs"`
	Found    *Found         `json:"found,omitempty"`
	Hashes   []uint64       `json:"hashes,omitempty"`
	Faults   map[string]int `json:"faults,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Strats   map[string]int `json:"strats,omitempty"`
	Steps    uint64         `json:"steps"`
	Switches uint64         `json:"switches"`
	Preempts uint64         `json:"preempts"`
	Picks    uint64         `json:"picks"`
	SimT     float64        `json:"simt"`
	Ops      int            `json:"ops"`
	Nontriv  int            `json:"nontriv"`
	Exact    int            `json:"exact"`
	MaxSteps uint64         `json:"max_steps"`
	Sample   *Case          `json:"sample,omitempty"`
	Known    map[string]int `json:"known,omitempty"`
	Err      string         `json:"err,omitempty"`
	Result   *Result        `json:"result,omitempty"`
	Overflow int            `json:"overflow,omitempty"`
	Heap     uint64         `json:"heap,omitempty"` // live after the batch
}

// RunSeed derives the seed of run i.
func RunSeed(base uint64, prop string, family string, i int) uint64 {
	return Mix(base, HashString(prop), HashString(family), uint64(i))
}

// GenCase makes run i of a batch.
func GenCase(f Family, prop string, base uint64, i int) (any, Sched) {
	seed := RunSeed(base, prop, f.Name(), i)
	rng := NewRng(seed)
	sc := f.Gen(rng, prop)
	return sc, GenSched(rng.U64(), f.Stalls(sc))
}

// ToCase serialises a case.
func ToCase(f Family, sc any, s Sched) Case {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	return Case{Family: f.Name(), Scenario: b, Sched: s}
}

func mapRec(path string) []byte {
	fh, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	if err := fh.Truncate(hdr + recSize); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(fh.Fd()), 0, hdr+recSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return b
}

// Child serves requests on stdin until EOF.
func Child(recPath string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	shared := mapRec(recPath)
	raceLog = recPath + ".race"
	rec := shared[hdr:]
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q Request
		if err := json.Unmarshal(line, &q); err != nil {
			panic(err)
		}
		var rep Reply
		switch q.Kind {
		case "batch":
			rep = batch(q, shared, rec)
		case "case":
			rep = one(q, shared, rec)
		case "gen":
			f := Families[q.Family]
			sc, s := GenCase(f, q.Prop, q.Seed, q.From)
			c := ToCase(f, sc, s)
			rep.Sample = &c
		}
		runtime.GC()
		var mst runtime.MemStats
		runtime.ReadMemStats(&mst)
		rep.Heap = mst.HeapAlloc
		enc.Encode(rep)
		out.Flush()
	}
}

var raceLog string

// dieOfRace ends the child as the race detector would have done.
func dieOfRace() {
	if rep := checkRaces(raceLog); rep != "" {
		fmt.Fprintln(os.Stderr, rep)
		os.Exit(66)
	}
}

func one(q Request, shared, rec []byte) (rep Reply) {
	f := Families[q.Case.Family]
	if f == nil {
		return Reply{Err: "unknown family " + q.Case.Family}
	}
	sc, err := f.Decode(q.Case.Scenario)
	if err != nil {
		return Reply{Err: err.Error()}
	}
	clear(rec)
	res := Exec(f, sc, q.Case.Sched, rec, q.Verbose)
	dieOfRace()
	rep.Runs = 1
	rep.Result = &res
	if len(res.Viol) > 0 || q.Verbose {
		c := *q.Case
		c.Sched.Replay = true
		c.Sched.Decisions = Sparse(rec, res.Stats.Decisions)
		rep.Found = &Found{Case: c, Viol: res.Viol, Events: res.Events}
	}
	return
}

func batch(q Request, shared, rec []byte) (rep Reply) {
	f := Families[q.Family]
	if f == nil {
		return Reply{Err: "unknown family " + q.Family}
	}
	rep = Reply{Faults: map[string]int{}, Probes: map[string]int{}, Strats: map[string]int{}, Known: map[string]int{}}
	var mst runtime.MemStats
	for i := q.From; i < q.To; i++ {
		binary.LittleEndian.PutUint64(shared, uint64(i))
		sc, s := GenCase(f, q.Prop, q.Seed, i)
		res := Exec(f, sc, s, rec, false)
		dieOfRace()
		rep.Runs++
		rep.Steps += res.Stats.Steps
		rep.Switches += res.Stats.Switches
		rep.Preempts += res.Stats.Preempts
		rep.Picks += res.Stats.Picks
		rep.SimT += float64(res.SimT) / 1e9
		rep.Ops += res.Ops
		rep.Strats[s.Strategy]++
		if !s.Stalls() {
			rep.Exact++
		}
		if res.Stats.Steps > rep.MaxSteps {
			rep.MaxSteps = res.Stats.Steps
		}
		if res.Stats.Overflow {
			rep.Overflow++
		}
		nf := 0
		for k, v := range res.Faults {
			rep.Faults[k] += v
			nf += v
		}
		if res.Stats.Stalls > 0 {
			rep.Faults["goroutine-stall"] += int(res.Stats.Stalls)
			nf++
		}
		if res.Stats.Preempts > 0 {
			rep.Faults["preemption"] += int(res.Stats.Preempts)
		}
		for k, v := range res.Probes {
			rep.Probes[k] += v
		}
		if res.Ops > 0 && nf > 0 && res.Stats.Switches > 4 {
			rep.Nontriv++
			rep.Hashes = append(rep.Hashes, Mix(res.Hash, res.Stats.Hash))
		}
		for _, v := range res.Viol {
			if !v.Has(q.Prop) && (q.Only == "" || q.Only != v.Class) {
				rep.Probes["other-property:"+v.Class]++
				continue
			}
			known := q.Only != "" && q.Only != v.Class
			if q.Only == "?" {
				rep.Probes["other-property:"+v.Class]++
			}
			for _, k := range q.Known {
				if k == v.Class {
					known = true
				}
			}
			if known {
				rep.Known[v.Class]++
				continue
			}
			c := ToCase(f, sc, s)
			c.Sched.Replay = true
			c.Sched.Decisions = Sparse(rec, res.Stats.Decisions)
			rep.Found = &Found{Index: i, Case: c, Viol: []Violation{v}}
			return
		}
		if len(res.Viol) > 0 {
			// goroutines may be stuck in the finished bubble; carry on
		}
		clear(rec[:min(res.Stats.Decisions, recSize)])
		if rep.Sample == nil && rep.Runs > 3 && nf > 0 {
			c := ToCase(f, sc, s)
			rep.Sample = &c
		}
		if rep.Runs%32 == 0 {
			runtime.ReadMemStats(&mst)
			if mst.HeapAlloc > 200<<20 {
				runtime.GC()
			}
		}
	}
	return
}

// ReadShared returns the run in flight and its decisions so far, after a
// child died.
func ReadShared(path string) (int, []uint64, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 0, nil, err
	}
	if len(b) < hdr {
		return 0, nil, fmt.Errorf("short record")
	}
	return int(binary.LittleEndian.Uint64(b)), Sparse(b[hdr:], recSize), nil
}
