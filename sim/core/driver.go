package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Replay is the file written for a violation.
type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Case      Case      `json:"case"`
	Race      bool      `json:"race"`
	Seed      uint64    `json:"verif_seed"`
	Index     int       `json:"run_index"`
	// Prefix: reproduce by running the batch [PrefixFrom, Index] in one
	// process instead of the single case (used only if the case alone does
	// not reproduce).
	Prefix     bool     `json:"prefix,omitempty"`
	PrefixFrom int      `json:"prefix_from,omitempty"`
	Minimised  string   `json:"minimised"`
	Trace      []string `json:"trace,omitempty"`
}

// proc is a child process.
type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	rec    string
	dead   bool
}

var workDir string

var procN struct {
	sync.Mutex
	n int
}

func spawn() (*proc, error) {
	procN.Lock()
	procN.n++
	n := procN.n
	procN.Unlock()
	p := &proc{rec: filepath.Join(workDir, fmt.Sprintf("rec%d", n)), stderr: &bytes.Buffer{}}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p.cmd = exec.Command(self, "child", p.rec)
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 history_size=5 atexit_sleep_ms=0 log_path="+p.rec+".race", "GODEBUG=")
	p.cmd.Stderr = p.stderr
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	so, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(so, 1<<20)
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	if !raceBuild {
		// code that allocates without end crashes, instead of taking the machine down
		lim := syscall.Rlimit{Cur: 5 << 30, Max: 5 << 30}
		syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(p.cmd.Process.Pid), syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	}
	return p, nil
}

func (p *proc) close() {
	if p == nil {
		return
	}
	p.in.Close()
	if !p.dead {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.dead = true
	}
	os.Remove(p.rec)
	logs, _ := filepath.Glob(p.rec + ".race.*")
	for _, l := range logs {
		os.Remove(l)
	}
}

var errHang = fmt.Errorf("child does not answer (wall clock)")

// ask sends a request; a nil reply means the child died.
func (p *proc) ask(q Request, limit time.Duration) (*Reply, error) {
	b, _ := json.Marshal(q)
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		p.cmd.Wait()
		p.dead = true
		return nil, nil
	}
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		line, err := p.out.ReadBytes('\n')
		ch <- ans{line, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			p.cmd.Wait()
			p.dead = true
			return nil, nil
		}
		var rep Reply
		if err := json.Unmarshal(a.line, &rep); err != nil {
			return nil, err
		}
		if rep.Err != "" {
			return nil, fmt.Errorf("child: %s", rep.Err)
		}
		return &rep, nil
	case <-time.After(limit):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.dead = true
		return nil, errHang
	}
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+`)

// crashClass names the way a child died from its stderr.
func crashClass(stderr string) (class, msg string) {
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		msg = stderr[strings.Index(stderr, "WARNING: DATA RACE"):]
		var at []string
		lines := strings.Split(msg, "\n")
		for k, l := range lines {
			l = strings.TrimSpace(l)
			if (strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous ")) && k+1 < len(lines) {
				at = append(at, strings.TrimSpace(lines[k+1]))
			}
		}
		sort.Strings(at)
		return "race:" + strings.Join(at, "|"), firstLines(msg, 40)
	case strings.Contains(stderr, "verifsim: step budget exceeded"):
		return "livelock", "the run does not quiesce: step budget exceeded"
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			l = hexRe.ReplaceAllString(l, "0x?")
			if k := strings.Index(l, " [recovered"); k > 0 {
				l = l[:k]
			}
			return "crash:" + l, firstLines(stderr[strings.Index(stderr, l[:6]):], 25)
		}
	}
	return "", stderr
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// runner executes single cases, surviving crashes.
type runner struct {
	p    *proc
	prop string
	want string // prefer this class when a run violates the property in several ways
	runs int
}

// exec runs a case and returns the violation of the property, if any, with
// the recorded decisions.
func (x *runner) exec(c Case, verbose bool) (*Violation, Case, *Reply, error) {
	x.runs++
	if x.p == nil || x.p.dead {
		x.p.close()
		p, err := spawn()
		if err != nil {
			return nil, c, nil, err
		}
		x.p = p
	}
	rep, err := x.p.ask(Request{Kind: "case", Case: &c, Verbose: verbose}, 120*time.Second)
	if err != nil {
		return nil, c, nil, err
	}
	if rep == nil {
		class, msg := crashClass(x.p.stderr.String())
		_, dec, _ := ReadShared(x.p.rec)
		if class == "" {
			return nil, c, nil, fmt.Errorf("child died: %s", msg)
		}
		c.Sched.Replay = true
		c.Sched.Decisions = dec
		return &Violation{Props: []string{"*"}, Class: class, Msg: msg}, c, nil, nil
	}
	if rep.Found != nil {
		// a run that ends in violation may leave goroutines behind: use a
		// fresh process next time
		for pass := 0; pass < 2; pass++ {
			for _, v := range rep.Found.Viol {
				if !v.Has(x.prop) || pass == 0 && x.want != "" && v.Class != x.want {
					continue
				}
				if !verbose {
					x.p.close()
					x.p = nil
				}
				return &v, rep.Found.Case, rep, nil
			}
		}
	}
	return nil, c, rep, nil
}

func sameClass(a, b string) bool {
	if strings.HasPrefix(a, "race:") && strings.HasPrefix(b, "race:") {
		return true
	}
	return a == b
}

// minimise shrinks a failing case while the same class of violation persists.
func minimise(x *runner, c Case, v Violation, budget time.Duration) (Case, Violation, string) {
	end := time.Now().Add(budget)
	f := Families[c.Family]
	tries, accepted := 0, 0
	ok := func(n Case) bool {
		tries++
		nv, nc, _, err := x.exec(n, false)
		if err != nil || nv == nil || !sameClass(nv.Class, v.Class) {
			return false
		}
		c, v = nc, *nv
		accepted++
		return true
	}
	rng := NewRng(HashString(v.Class))
	// 1. simpler scenarios
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		sc, err := f.Decode(c.Scenario)
		if err != nil {
			break
		}
		for _, s := range f.Shrinks(sc) {
			if !time.Now().Before(end) {
				break
			}
			n := ToCase(f, s, c.Sched)
			if ok(n) {
				changed = true
				break
			}
			hit := false
			for k := 0; k < 6 && !hit; k++ {
				m := n
				m.Sched = GenSched(rng.U64(), f.Stalls(s))
				if k == 0 {
					m.Sched = n.Sched
					m.Sched.Decisions = nil
				}
				hit = ok(m)
			}
			if hit {
				changed = true
				break
			}
		}
	}
	// 2. fewer scheduling decisions
	for chunk := len(c.Sched.Decisions); chunk >= 1 && time.Now().Before(end); {
		changed := false
		for lo := 0; lo < len(c.Sched.Decisions) && time.Now().Before(end); {
			hi := min(lo+chunk, len(c.Sched.Decisions))
			n := c
			n.Sched.Replay = true
			n.Sched.Decisions = append(append([]uint64{}, c.Sched.Decisions[:lo]...), c.Sched.Decisions[hi:]...)
			before := len(c.Sched.Decisions)
			if ok(n) && len(c.Sched.Decisions) < before {
				changed = true
			} else {
				lo = hi
			}
		}
		if !changed || chunk > 1 {
			chunk /= 2
		}
	}
	return c, v, fmt.Sprintf("%d candidate runs, %d reductions accepted, %d non-default scheduling decisions remain", tries, accepted, len(c.Sched.Decisions))
}

// Known is one entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	What     string `json:"what"`
}

type options struct {
	prop, tier, families, evidence, replays, known string
	seed                                           uint64
	runs                                           int
	cap                                            time.Duration
	race                                           bool
	meta, only                                     string
	procs                                          int
	minBudget                                      time.Duration
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	cleanup()
	os.Exit(3)
}

func cleanup() {
	if workDir != "" {
		os.RemoveAll(workDir)
	}
}

// Main is the entry point of the simulator binary.
func Main() {
	if len(os.Args) < 2 {
		fatalf("usage: sim child|check|replay|det|trace ...")
	}
	if os.Args[1] == "child" {
		Child(os.Args[2])
		return
	}
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	var o options
	fs.StringVar(&o.prop, "prop", "", "")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.StringVar(&o.families, "families", "", "")
	fs.StringVar(&o.evidence, "evidence", "", "")
	fs.StringVar(&o.replays, "replays", ".", "")
	fs.StringVar(&o.known, "known", "", "")
	fs.Uint64Var(&o.seed, "seed", 1, "")
	fs.IntVar(&o.runs, "runs", 1000, "")
	fs.DurationVar(&o.cap, "cap", 5*time.Minute, "")
	fs.StringVar(&o.only, "only", "", "debugging: report only this violation class")
	fs.BoolVar(&o.race, "race", false, "")
	fs.StringVar(&o.meta, "meta", "", "real/stub description")
	fs.IntVar(&o.procs, "procs", runtime.NumCPU(), "")
	fs.DurationVar(&o.minBudget, "min", 25*time.Second, "")
	idx := fs.Int("index", 0, "")
	fs.Parse(os.Args[2:])
	var err error
	if workDir, err = os.MkdirTemp("", "verifsim"); err != nil {
		fatalf("%v", err)
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(o)
	case "replay":
		code = replay(fs.Arg(0))
	case "det":
		code = det(o)
	case "trace":
		code = trace(o, *idx, fs.Arg(0))
	default:
		fatalf("unknown command")
	}
	cleanup()
	os.Exit(code)
}

func propFamilies(o options) []string {
	if o.families != "" {
		var out []string
		for _, f := range strings.Split(o.families, ",") {
			name, _, _ := strings.Cut(f, "/")
			out = append(out, name)
		}
		return out
	}
	return SortedKeys(Families)
}

func check(o options) int {
	t0 := time.Now()
	var known []Known
	if o.known != "" {
		b, err := os.ReadFile(o.known)
		if err != nil {
			fatalf("%v", err)
		}
		var all struct {
			Findings []Known `json:"findings"`
		}
		if err := json.Unmarshal(b, &all); err != nil {
			fatalf("%s: %v", o.known, err)
		}
		for _, k := range all.Findings {
			if k.Property == o.prop {
				known = append(known, k)
			}
		}
	}
	var knownCls []string
	for _, k := range known {
		knownCls = append(knownCls, k.Class)
	}
	fams := propFamilies(o)
	type job struct {
		fam      string
		from, to int
	}
	var jobs []job
	// "family/n" gets one n-th of the runs of the others
	share := map[string]int{}
	full := 0
	for _, f := range fams {
		share[f] = 1
	}
	for _, f := range strings.Split(o.families, ",") {
		if name, n, ok := strings.Cut(f, "/"); ok {
			share[name], _ = strconv.Atoi(n)
		}
	}
	for _, f := range fams {
		if share[f] == 1 {
			full++
		}
	}
	per := o.runs / max(1, full)
	chunk := max(20, min(400, per/(o.procs*4)))
	for from := 0; from < per; from += chunk {
		for _, f := range fams {
			if from/chunk%share[f] != 0 {
				continue
			}
			jobs = append(jobs, job{f, from, min(from+chunk, per)})
		}
	}
	var mu sync.Mutex
	next := 0
	tot := Reply{Faults: map[string]int{}, Probes: map[string]int{}, Strats: map[string]int{}, Known: map[string]int{}}
	famRuns := map[string]int{}
	hashes := map[uint64]bool{}
	var samples []any
	type hit struct {
		f    *Found
		fam  string
		j    job
		died bool
	}
	var hits []hit
	var infra error
	deadline := time.Now().Add(o.cap)
	capped := false
	var wg sync.WaitGroup
	for w := 0; w < o.procs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p, err := spawn()
			if err != nil {
				mu.Lock()
				infra = err
				mu.Unlock()
				return
			}
			defer func() { p.close() }()
			for {
				mu.Lock()
				if next >= len(jobs) || len(hits) > 0 || infra != nil {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					capped = true
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				rep, err := p.ask(Request{Kind: "batch", Family: j.fam, Prop: o.prop, Seed: o.seed, From: j.from, To: j.to, Known: knownCls, Only: o.only}, 300*time.Second)
				mu.Lock()
				if err != nil {
					infra = err
					mu.Unlock()
					return
				}
				if rep == nil {
					i, dec, err := ReadShared(p.rec)
					class, msg := crashClass(p.stderr.String())
					if err != nil || class == "" {
						infra = fmt.Errorf("child died: %s %v", msg, err)
						mu.Unlock()
						return
					}
					f := Families[j.fam]
					sc, s := GenCase(f, o.prop, o.seed, i)
					c := ToCase(f, sc, s)
					c.Sched.Replay = true
					c.Sched.Decisions = dec
					hits = append(hits, hit{&Found{Index: i, Case: c, Viol: []Violation{{Props: []string{"*"}, Class: class, Msg: msg}}}, j.fam, j, true})
					mu.Unlock()
					return
				}
				if rep.Heap > 400<<20 {
					// the code under test keeps something of every run
					p.close()
					if p, err = spawn(); err != nil {
						infra = err
						mu.Unlock()
						return
					}
				}
				tot.Runs += rep.Runs
				famRuns[j.fam] += rep.Runs
				tot.Steps += rep.Steps
				tot.Switches += rep.Switches
				tot.Preempts += rep.Preempts
				tot.Picks += rep.Picks
				tot.SimT += rep.SimT
				tot.Ops += rep.Ops
				tot.Nontriv += rep.Nontriv
				tot.Exact += rep.Exact
				tot.Overflow += rep.Overflow
				tot.MaxSteps = max(tot.MaxSteps, rep.MaxSteps)
				for k, v := range rep.Faults {
					tot.Faults[k] += v
				}
				for k, v := range rep.Probes {
					tot.Probes[k] += v
				}
				for k, v := range rep.Strats {
					tot.Strats[k] += v
				}
				for k, v := range rep.Known {
					tot.Known[k] += v
				}
				for _, h := range rep.Hashes {
					hashes[h] = true
				}
				if rep.Sample != nil && len(samples) < 3 {
					samples = append(samples, map[string]any{"batch_from": j.from, "case": rep.Sample})
				}
				if rep.Found != nil {
					hits = append(hits, hit{rep.Found, j.fam, j, false})
				}
				mu.Unlock()
				if rep.Found != nil {
					return
				}
			}
		}()
	}
	wg.Wait()
	if infra != nil {
		fatalf("infrastructure: %v", infra)
	}
	exploreS := time.Since(t0).Seconds()
	detN, detBad := 0, 0
	if len(hits) == 0 {
		detN, detBad = detSample(o, fams)
	}
	for _, k := range known {
		if tot.Known[k.Class] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}
	code := 0
	var viol *Violation
	if len(hits) > 0 {
		// the lowest index first: independent of process timing as far as possible
		sort.Slice(hits, func(a, b int) bool { return hits[a].f.Index < hits[b].f.Index })
		h := hits[0]
		rp := Replay{Property: o.prop, Race: o.race, Seed: o.seed, Index: h.f.Index, Case: h.f.Case, Violation: h.f.Viol[0]}
		x := &runner{prop: o.prop, want: h.f.Viol[0].Class}
		v, c, _, err := x.exec(h.f.Case, false)
		if err != nil {
			fatalf("infrastructure: %v", err)
		}
		if v == nil {
			// decisions alone do not reproduce: try the seeded schedule
			f := Families[h.fam]
			sc, s := GenCase(f, o.prop, o.seed, h.f.Index)
			v, c, _, err = x.exec(ToCase(f, sc, s), false)
			if err != nil {
				fatalf("infrastructure: %v", err)
			}
		}
		if v != nil {
			nc, nv, how := minimise(x, c, *v, o.minBudget)
			rp.Case, rp.Violation, rp.Minimised = nc, nv, how
		} else {
			// reproduce with the batch prefix in one fresh process
			p, err := spawn()
			if err != nil {
				fatalf("%v", err)
			}
			rep, err := p.ask(Request{Kind: "batch", Family: h.fam, Prop: o.prop, Seed: o.seed, From: h.j.from, To: h.f.Index + 1, Known: knownCls, Only: o.only}, 300*time.Second)
			p.close()
			if err != nil || rep != nil && rep.Found == nil {
				fatalf("run %d of %s reported %q once but does not reproduce", h.f.Index, h.fam, h.f.Viol[0].Class)
			}
			rp.Prefix, rp.PrefixFrom = true, h.j.from
			rp.Minimised = "reproduces only after the preceding runs of its batch"
		}
		if !rp.Prefix {
			_, _, rep, err := x.exec(rp.Case, true)
			if err == nil && rep != nil && rep.Found != nil {
				for _, e := range rep.Found.Events {
					rp.Trace = append(rp.Trace, fmt.Sprintf("#%d %v g%d %s", e.Seq, e.T, e.G, e.What))
				}
			}
		}
		x.p.close()
		path := filepath.Join(o.replays, fmt.Sprintf("%s-%d.json", o.prop, o.seed))
		os.MkdirAll(o.replays, 0o755)
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fatalf("%v", err)
		}
		viol = &rp.Violation
		fmt.Printf("seed=%d run=%d family=%s class=%s\n%s\n", o.seed, rp.Index, h.fam, viol.Class, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		code = 1
	}
	wall := time.Since(t0).Seconds()
	nv := 0
	if viol != nil {
		nv = 1
	}
	if o.evidence != "" {
		perH := float64(tot.Runs) / exploreS * 3600
		ev := map[string]any{
			"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration", "wall_s": wall, "violations": nv,
			"coverage": map[string]any{
				"evaluations":         tot.Runs,
				"distinct_nontrivial": len(hashes),
				"rule":                "one evaluation = one seeded simulated run (scenario, schedule and faults all from the seed); non-trivial = at least one API call was made, at least one fault fired and the schedule switched goroutines more than four times; distinct = different pair (hash of the recorded history with simulated times, hash of every scheduling decision and goroutine switch)",
				"samples":             samples,
				"seeds_per_hour":      int64(perH),
				"simulated_seconds":   tot.SimT,
				"runs_by_family":      famRuns,
				"runs_by_strategy":    tot.Strats,
				"faults_fired":        tot.Faults,
				"probes_hit":          tot.Probes,
				"api_calls":           tot.Ops,
				"yield_points":        tot.Steps,
				"context_switches":    tot.Switches,
				"schedule_choices":    tot.Picks,
				"preemptions":         tot.Preempts,
				"exact_time_runs":     tot.Exact,
				"longest_run_steps":   tot.MaxSteps,
				"determinism":         map[string]int{"runs_repeated_in_another_process": detN, "differences": detBad},
				"components":          o.meta,
				"race_detector":       o.race,
				"capped":              capped,
				"known_findings_hit":  tot.Known,
			},
			"assumptions": []string{
				"statement-level preemption of the library, tomb.v2 and context; code between two yield points is atomic in the simulation",
				"sampling: a clean batch is evidence, not proof",
				"trusted: Go compiler, patched runtime scheduler, harness models",
			},
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(o.evidence), 0o755)
		if err := os.WriteFile(o.evidence, b, 0o644); err != nil {
			fatalf("%v", err)
		}
	}
	fmt.Printf("property=%s runs=%d distinct=%d steps=%d sim=%.0fs wall=%.1fs det=%d/%d capped=%v\n", o.prop, tot.Runs, len(hashes), tot.Steps, tot.SimT, wall, detBad, detN, capped)
	for _, k := range SortedKeys(tot.Probes) {
		if strings.HasPrefix(k, "other-property:") {
			fmt.Printf("note: %s %d\n", k, tot.Probes[k])
		}
	}
	return code
}

// detSample repeats a few runs in two fresh processes and compares hashes.
func detSample(o options, fams []string) (n, bad int) {
	p1, err1 := spawn()
	p2, err2 := spawn()
	if err1 != nil || err2 != nil {
		return
	}
	defer p1.close()
	defer p2.close()
	for _, f := range fams {
		const k = 40
		a, err := p1.ask(Request{Kind: "batch", Family: f, Prop: o.prop, Seed: o.seed, From: 0, To: k, Only: "?"}, time.Minute)
		if err != nil || a == nil {
			return
		}
		for lo := 0; lo < k; lo += 8 {
			b, err := p2.ask(Request{Kind: "batch", Family: f, Prop: o.prop, Seed: o.seed, From: lo, To: lo + 8, Only: "?"}, time.Minute)
			if err != nil || b == nil {
				return
			}
			n += b.Nontriv
			for _, h := range b.Hashes {
				ok := false
				for _, g := range a.Hashes {
					if g == h {
						ok = true
					}
				}
				if !ok {
					bad++
				}
			}
		}
	}
	return
}

// replay reruns a replay file in a fresh process.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatalf("%v", err)
	}
	x := &runner{prop: rp.Property, want: rp.Violation.Class}
	defer func() { x.p.close() }()
	if rp.Prefix {
		p, err := spawn()
		if err != nil {
			fatalf("%v", err)
		}
		rep, err := p.ask(Request{Kind: "batch", Family: rp.Case.Family, Prop: rp.Property, Seed: rp.Seed, From: rp.PrefixFrom, To: rp.Index + 1}, 300*time.Second)
		defer p.close()
		if err != nil {
			fatalf("%v", err)
		}
		if rep == nil || rep.Found != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	v, _, rep, err := x.exec(rp.Case, true)
	if err != nil {
		fatalf("%v", err)
	}
	if rep != nil && rep.Found != nil {
		for _, e := range rep.Found.Events {
			fmt.Printf("#%d %v g%d %s\n", e.Seq, e.T, e.G, e.What)
		}
	}
	if v == nil {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Printf("class=%s (recorded %s)\n%s\n", v.Class, rp.Violation.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

// trace prints one run of a batch.
func trace(o options, idx int, _ string) int {
	for _, fn := range propFamilies(o) {
		f := Families[fn]
		sc, s := GenCase(f, o.prop, o.seed, idx)
		x := &runner{prop: o.prop}
		c := ToCase(f, sc, s)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		v, _, rep, err := x.exec(c, true)
		if err != nil {
			fatalf("%v", err)
		}
		if rep != nil && rep.Found != nil {
			for _, e := range rep.Found.Events {
				fmt.Printf("#%d %v g%d %s\n", e.Seq, e.T, e.G, e.What)
			}
		}
		fmt.Println(v)
		x.p.close()
	}
	return 0
}

// det runs many seeds twice in differently shaped batches and compares.
func det(o options) int {
	bad, n := 0, 0
	for _, fam := range propFamilies(o) {
		ref := map[int]uint64{}
		var mu sync.Mutex
		for pass := 0; pass < 2; pass++ {
			procs, chunk := 4, 50
			if pass == 1 {
				procs, chunk = o.procs, 7
			}
			var wg sync.WaitGroup
			next := 0
			for w := 0; w < procs; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					p, err := spawn()
					if err != nil {
						fatalf("%v", err)
					}
					used := 0
					for {
						mu.Lock()
						from := next
						next += chunk
						mu.Unlock()
						if from >= o.runs {
							break
						}
						for i := from; i < min(from+chunk, o.runs); i++ {
							rep, err := p.ask(Request{Kind: "batch", Family: fam, Prop: o.prop, Seed: o.seed, From: i, To: i + 1, Only: "?"}, time.Minute)
							if err != nil || rep == nil {
								fmt.Println("child died at", fam, i, err, p.stderr.String())
								p.close()
								p, _ = spawn()
								continue
							}
							h := uint64(1)
							if len(rep.Hashes) > 0 {
								h = rep.Hashes[0]
							}
							mu.Lock()
							if pass == 0 {
								ref[i] = h
							} else {
								n++
								if ref[i] != h {
									bad++
									fmt.Println("differs:", fam, i)
								}
							}
							mu.Unlock()
						}
						if used++; pass == 1 && used%5 == 0 {
							p.close()
							p, _ = spawn()
						}
					}
					p.close()
				}()
			}
			wg.Wait()
		}
	}
	fmt.Println("determinism:", n, "runs compared,", bad, "differences (seed "+strconv.FormatUint(o.seed, 10)+")")
	if bad > 0 {
		return 1
	}
	return 0
}
