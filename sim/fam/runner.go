package fam

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"time"

	jerrors "github.com/juju/errors"
	worker "github.com/juju/worker/v4"

	"verif/sim/core"
)

func init() { core.Families["runner"] = RunnerFam{} }

// RunnerFam drives worker.Runner.
type RunnerFam struct{}

func (RunnerFam) Name() string { return "runner" }

// RBeh is the behaviour of one start call and the instance it yields.
type RBeh struct {
	StartDelay int    `json:"start_delay,omitempty"`
	StartMode  string `json:"start_mode,omitempty"` // "", fail, goexit, ctxfail, ctxok
	StartErr   string `json:"start_err,omitempty"`
	StartOp    *ROp   `json:"start_op,omitempty"` // runner call made inside the start function
	RunFor     int    `json:"run_for"`            // ms, <0: until killed
	ExitErr    string `json:"exit_err,omitempty"`
	RunOp      *ROp   `json:"run_op,omitempty"` // runner call made by the running worker
	StopDelay  int    `json:"stop_delay,omitempty"`
	StopErr    string `json:"stop_err,omitempty"`
	Reporter   bool   `json:"reporter,omitempty"`
	Extra      bool   `json:"extra,omitempty"` // has more of the usual methods
}

// ROp is one client operation.
type ROp struct {
	Kind  string `json:"kind"` // start stop remove worker names report kill wkill
	ID    int    `json:"id"`
	Gap   int    `json:"gap,omitempty"`
	Abort int    `json:"abort,omitempty"` // ms; -1 never
	Ctx   int    `json:"ctx,omitempty"`   // start: cancel the context after ms; -1 never
	Beh   []RBeh `json:"beh,omitempty"`
}

// RScenario is one generated workload.
type RScenario struct {
	IDs        int     `json:"ids"`
	Odd        bool    `json:"odd,omitempty"` // unusual ids
	Delay      int     `json:"delay"`         // RestartDelay ms; 0: default
	Fatal      int     `json:"fatal"`         // 0 nil, 1 by class
	Restart    int     `json:"restart"`
	Importance int     `json:"importance"`
	Clock      int     `json:"clock"` // 0 nil, 1 exact, 2 late timers/jumps
	Late       []int   `json:"late,omitempty"`
	Logger     int     `json:"logger"`
	Clients    [][]ROp `json:"clients"`
	Steps      []int   `json:"steps"` // monitor steps, ms
	Probe      bool    `json:"probe"` // monitor also calls the API
	Leak       int     `json:"leak"`  // aborted lookups to try at the end
	Stall      bool    `json:"stall"`
	Scale      int     `json:"scale,omitempty"` // stretches all durations
	Long       bool    `json:"long,omitempty"`  // some durations take days
}

func (RunnerFam) Decode(b []byte) (any, error) {
	sc := &RScenario{}
	return sc, json.Unmarshal(b, sc)
}

func (RunnerFam) Stalls(sc any) bool { return sc.(*RScenario).Stall }

func (RunnerFam) Gen(r *core.Rng, prop string) any {
	sc := &RScenario{IDs: 1 + r.N(3), Delay: core.Pick(r, 0, 50, 50, 1000), Fatal: 1, Restart: 1, Importance: r.N(2), Clock: core.Pick(r, 0, 1, 1, 2), Logger: r.N(2)}
	if r.P(15) {
		sc.Fatal = 0
	}
	if r.P(30) {
		sc.Restart = 0
	}
	if sc.Clock == 2 {
		for i := 0; i < 1+r.N(4); i++ {
			sc.Late = append(sc.Late, core.Pick(r, 0, 1, 30, 700))
		}
	}
	sc.Stall = r.P(20)
	d := sc.Delay
	if d == 0 {
		d = 3000
	}
	deco := habit(r)
	fatalP := 8
	switch prop {
	case "R06":
		fatalP = 45
	case "R05":
		fatalP = 20
	}
	gap := func() int { return core.Pick(r, 0, 0, 0, 1, 1, 2, 5, 10, d-1, d, d, d+1, r.N(2*d+5)) }
	dur := func() int { return core.Pick(r, 0, 0, 1, 1, 2, 5, 10, d-1, d, d+5, r.N(d+50)) }
	dur, gap = rarely(r, &sc.Long, dur), rarely(r, &sc.Long, gap)
	ecls := func() string {
		if r.P(fatalP) {
			return deco(r, core.Pick(r, "fatal1", "fatal2", "fatal3"))
		}
		return deco(r, core.Pick(r, "nil", "nil", "retry", "retry", "retry", "retry", "drop"))
	}
	var op func(depth int) ROp
	beh := func(depth int) RBeh {
		b := RBeh{RunFor: -1, StopErr: "nil", ExitErr: "nil", Reporter: r.P(60), Extra: r.P(25)}
		if r.P(25) {
			b.StartDelay = dur()
		}
		switch k := r.N(100); {
		case k < 12:
			b.StartMode, b.StartErr = "fail", core.Pick(r, "retry", "retry", "retry", "drop", ecls())
		case k < 16:
			b.StartMode = "goexit"
		case k < 20:
			b.StartMode, b.StartErr = "ctxfail", core.Pick(r, "retry", "fatal1", "drop")
		case k < 23:
			b.StartMode = "ctxok"
		}
		if b.StartErr == "nil" {
			b.StartErr = "retry"
		}
		if r.P(60) {
			b.RunFor, b.ExitErr = dur(), ecls()
		}
		if r.P(30) {
			b.StopDelay = dur()
		}
		if r.P(40) {
			b.StopErr = ecls()
		}
		if depth == 0 && r.P(8) {
			o := op(1)
			if o.Kind == "remove" || o.Kind == "worker" {
				o.Abort = core.Pick(r, 0, 1, 5)
			}
			if o.Kind == "remove" {
				o.Kind = "stop"
			}
			if r.P(50) {
				b.StartOp = &o
			} else {
				b.RunOp = &o
			}
		}
		return b
	}
	wStart, wStop, wRemove, wWorker, wNames, wReport, wKill, wWkill := 30, 14, 8, 16, 5, 5, 3, 8
	switch prop {
	case "R04":
		wStop += 25
	case "R05", "R06":
		wKill += 8
	case "R07":
		wWorker += 40
	case "R08":
		wRemove += 40
	case "R10":
		wNames, wReport = 20, 25
	case "R01":
		wStart += 25
	}
	op = func(depth int) ROp {
		o := ROp{ID: r.N(sc.IDs), Gap: gap(), Abort: -1, Ctx: -1}
		tot := wStart + wStop + wRemove + wWorker + wNames + wReport + wKill + wWkill
		k := r.N(tot)
		pick := func(w int) bool {
			if k < w {
				return true
			}
			k -= w
			return false
		}
		switch {
		case pick(wStart):
			o.Kind = "start"
			if r.P(8) {
				o.Ctx = core.Pick(r, 0, 1, 10, d)
			}
			if depth == 0 {
				for i, n := 0, core.Pick(r, 0, 1, 1, 2, 2, 3, 4); i < n; i++ {
					o.Beh = append(o.Beh, beh(depth))
				}
			}
		case pick(wStop):
			o.Kind = "stop"
		case pick(wRemove):
			o.Kind = "remove"
			o.Abort = core.Pick(r, -1, -1, -1, 0, 1, 5, 10, d)
		case pick(wWorker):
			o.Kind = "worker"
			o.Abort = core.Pick(r, -1, -1, 0, 1, 5, 10, d)
		case pick(wNames):
			o.Kind = "names"
		case pick(wReport):
			o.Kind = "report"
		case pick(wKill):
			o.Kind = "kill"
		default:
			o.Kind = "wkill"
			o.Abort = core.Pick(r, 0, 1, 5)
		}
		return o
	}
	nc := 1 + r.N(4)
	for c := 0; c < nc; c++ {
		var ops []ROp
		n := 1 + r.N(6)
		if c == 0 {
			// make sure there is something to work on
			o := op(0)
			for o.Kind != "start" {
				o = op(0)
			}
			o.Gap = 0
			ops = append(ops, o)
		}
		for i := 0; i < n; i++ {
			ops = append(ops, op(0))
		}
		sc.Clients = append(sc.Clients, ops)
	}
	deepP := 2
	if prop == "R02" {
		deepP = 6
	}
	if r.P(deepP) && sc.Delay > 0 {
		// one worker that fails again and again
		sc.Stall = false
		o := op(0)
		for o.Kind != "start" {
			o = op(0)
		}
		o.Gap, o.Ctx, o.Beh = 0, -1, nil
		mix := r.P(30)
		n := 8 + r.N(33)
		if r.P(8) {
			n += r.N(200)
		}
		for i := 0; i < n; i++ {
			b := RBeh{StopErr: "nil", RunFor: core.Pick(r, 0, 1, 5), ExitErr: "retry"}
			if mix && r.P(40) {
				b.StartMode, b.StartErr = "fail", "retry"
			}
			o.Beh = append(o.Beh, b)
		}
		sc.Clients = append(sc.Clients, []ROp{o})
	}
	if r.P(3) {
		// many workers, a long history
		sc.IDs = 4 + r.N(6)
		if r.P(20) {
			sc.IDs += r.N(100)
		}
		if r.P(60) {
			var ops []ROp
			for i := 0; i < sc.IDs; i++ {
				ops = append(ops, ROp{Kind: "start", ID: i, Abort: -1, Ctx: -1, Beh: []RBeh{{RunFor: -1, StopErr: "nil", ExitErr: "nil", Reporter: r.P(60)}}})
			}
			sc.Clients = append(sc.Clients, ops)
		}
		for c, nc := 0, 1+r.N(3); c < nc; c++ {
			var ops []ROp
			for i, n := 0, 8+r.N(20); i < n; i++ {
				ops = append(ops, op(0))
			}
			sc.Clients = append(sc.Clients, ops)
		}
	}
	sc.Odd = r.P(15)
	sc.Probe = r.P(40)
	if prop == "R10" {
		sc.Probe = r.P(80)
	}
	for i, n := 0, r.N(8); i < n; i++ {
		sc.Steps = append(sc.Steps, gap())
	}
	if r.P(15) || prop == "R07" && r.P(40) {
		sc.Leak = 1 + r.N(3)
	}
	if !sc.Long {
		sc.Scale = pickScale(r)
	}
	return sc
}

func (RunnerFam) Shrinks(x any) []any {
	sc := x.(*RScenario)
	var out []any
	add := func(f func(*RScenario) bool) {
		b, _ := json.Marshal(sc)
		c := &RScenario{}
		json.Unmarshal(b, c)
		if f(c) {
			out = append(out, c)
		}
	}
	for i := range sc.Clients {
		add(func(c *RScenario) bool {
			c.Clients = append(c.Clients[:i], c.Clients[i+1:]...)
			return len(c.Clients) > 0
		})
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			add(func(c *RScenario) bool { c.Clients[i] = append(c.Clients[i][:j], c.Clients[i][j+1:]...); return true })
		}
	}
	if len(sc.Steps) > 0 {
		add(func(c *RScenario) bool { c.Steps = nil; return true })
	}
	add(func(c *RScenario) bool { ok := c.Odd; c.Odd = false; return ok })
	add(func(c *RScenario) bool { ok := c.Probe; c.Probe = false; return ok })
	add(func(c *RScenario) bool { ok := c.Leak > 0; c.Leak = 0; return ok })
	add(func(c *RScenario) bool { ok := c.Logger > 0; c.Logger = 0; return ok })
	add(func(c *RScenario) bool { ok := c.Clock == 2; c.Clock, c.Late = 1, nil; return ok })
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			for k := range sc.Clients[i][j].Beh {
				add(func(c *RScenario) bool { o := &c.Clients[i][j]; o.Beh = append(o.Beh[:k], o.Beh[k+1:]...); return true })
			}
		}
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			o := sc.Clients[i][j]
			if o.Gap > 0 {
				add(func(c *RScenario) bool { c.Clients[i][j].Gap = 0; return true })
			}
			for k, b := range o.Beh {
				bp := func(c *RScenario) *RBeh { return &c.Clients[i][j].Beh[k] }
				if b.StartOp != nil {
					add(func(c *RScenario) bool { bp(c).StartOp = nil; return true })
				}
				if b.RunOp != nil {
					add(func(c *RScenario) bool { bp(c).RunOp = nil; return true })
				}
				if b.StartDelay > 0 {
					add(func(c *RScenario) bool { bp(c).StartDelay = 0; return true })
				}
				if b.StopDelay > 0 {
					add(func(c *RScenario) bool { bp(c).StopDelay = 0; return true })
				}
				if b.StartMode != "" {
					add(func(c *RScenario) bool { bp(c).StartMode = ""; return true })
				}
				if b.StopErr != "nil" {
					add(func(c *RScenario) bool { bp(c).StopErr = "nil"; return true })
				}
				if b.RunFor >= 0 {
					add(func(c *RScenario) bool { bp(c).RunFor = -1; return true })
				}
			}
		}
	}
	add(func(c *RScenario) bool { ok := c.Scale > 0; c.Scale = 0; return ok })
	return out
}

// ---- recorded history ----

type rEnd struct {
	seq int
	t   time.Duration
	err error
}

type rCall struct {
	reg      *rReg
	n        int
	enterSeq int
	enterT   time.Duration
	exited   bool
	exitSeq  int
	exitT    time.Duration
	inst     *rInst
	end      *rEnd // end of the whole activity
}

type rReg struct {
	id      int
	num     int
	beh     []RBeh
	callSeq int
	callT   time.Duration
	ret     bool
	retSeq  int
	retT    time.Duration
	err     error
	calls   []*rCall

	stopDef      bool // definitely stopped
	stopSeq      int
	stopT        time.Duration
	stopPend     bool // restart was (or may have been) pending when stopped
	startsAfter  int
	removedSeq   int // definitely removed, by a StopAndRemoveWorker answer
	removedByCls string
}

type rInst struct {
	call      *rCall
	reg       *rReg
	m         *rModel
	beh       RBeh
	killc     chan struct{}
	done      chan struct{}
	kseq      int
	kT        time.Duration
	killed    bool // by the library
	ckilled   bool // by a client through the worker itself
	ended     bool
	err       error
	waitCalls int
	lf        life
}

func (i *rInst) life() *life           { return &i.lf }
func (i *rInst) gone() <-chan struct{} { return i.done }
func (i *rInst) result() error         { return i.err }

func (i *rInst) name() string { return fmt.Sprintf("w%d.%d.%d", i.reg.id, i.reg.num, i.call.n) }

// rOpRec is one API call.
type rOpRec struct {
	kind    string
	id      int
	reg     *rReg
	callSeq int
	callT   time.Duration
	ret     bool
	retSeq  int
	retT    time.Duration
	err     error
	w       worker.Worker
	names   []string
	report  map[string]interface{}
	target  *rReg // the registration that StopAndRemoveWorker removed, once that is certain
	aborted int   // seq at which abort fired, 0: not
	abortT  time.Duration
}

type rModel struct {
	r      *core.Run
	sc     *RScenario
	rn     *worker.Runner
	em     errMaker
	regs   []*rReg
	busy   map[int]*rCall
	ops    []*rOpRec
	delay  time.Duration
	late   time.Duration
	ctx    map[*rReg]int // seq of client ctx cancel
	killS  int           // seq of first Kill call
	killT  time.Duration
	killR  int // seq at which a Kill call first returned
	fatS   int // first fatal end
	fatT   time.Duration
	fatals []*rEnd
	waitS  int // seq of Wait return
	waitT  time.Duration
	waitE  error
	live   int // clients still running
	exactC bool
}

func (m *rModel) isFatal(err error) bool {
	if err == nil {
		return false
	}
	if m.sc.Fatal == 0 {
		return true
	}
	c := classOf(err)
	return len(c) >= 5 && c[:5] == "fatal"
}

func (m *rModel) restartable(err error) bool {
	return err != nil && !m.isFatal(err) && (m.sc.Restart == 0 || classOf(err) != "drop")
}

// dyingPossible: shutdown may have begun by seq.
func (m *rModel) dyingPossible(seq int) bool {
	return m.killS > 0 && m.killS <= seq || m.fatS > 0 && m.fatS <= seq
}

// dyingT is the time from which the runner must be shutting down.
func (m *rModel) dyingT() (time.Duration, bool) {
	t, ok := time.Duration(0), false
	if m.killR > 0 {
		t, ok = m.killT, true
	}
	if m.fatS > 0 && (!ok || m.fatT < t) {
		t, ok = m.fatT, true
	}
	return t, ok
}

func (m *rModel) idName(id int) string { return nameOf("id", m.sc.Odd, id) }

func (c *rCall) active() bool { return c.end == nil }

func (g *rReg) last() *rCall {
	if len(g.calls) == 0 {
		return nil
	}
	return g.calls[len(g.calls)-1]
}

// finishCall records the end of an activity.
func (m *rModel) finishCall(c *rCall, err error, what string) {
	seq := m.r.E("end %s of reg %d.%d call %d: %s", what, c.reg.id, c.reg.num, c.n, errStr(err))
	c.end = &rEnd{seq, m.r.Now(), err}
	if m.isFatal(err) {
		m.fatals = append(m.fatals, c.end)
		if m.fatS == 0 {
			m.fatS, m.fatT = seq, c.end.t
		}
	}
	if core.Get(m.busy, c.reg.id) == c {
		delete(m.busy, c.reg.id)
	}
}

var errGoexit = fmt.Errorf("goexit")

func (m *rModel) startFunc(g *rReg) worker.StartFunc {
	return func(ctx context.Context) (worker.Worker, error) {
		r := m.r
		c := &rCall{reg: g, n: len(g.calls)}
		c.enterSeq = r.E("start enter reg %d.%d call %d", g.id, g.num, c.n)
		c.enterT = r.Now()
		m.onStart(g, c)
		g.calls = append(g.calls, c)
		m.busy[g.id] = c
		b := RBeh{RunFor: -1, StopErr: "nil", Reporter: true}
		if c.n < len(g.beh) {
			b = g.beh[c.n]
		}
		core.Yield()
		if b.StartOp != nil {
			r.Fault("call-from-start")
			m.do(*b.StartOp)
		}
		if b.StartDelay > 0 {
			r.Fault("slow-start")
			time.Sleep(ms(b.StartDelay))
		}
		ctxBad := ctx.Err() != nil && !m.dyingPossible(r.Seq) && core.Get(m.ctx, g) == 0
		if b.StartMode == "ctxfail" || b.StartMode == "ctxok" {
			r.Fault("start-blocks-on-ctx")
			w0 := r.Now()
			<-ctx.Done()
			ctxBad = !m.dyingPossible(r.Seq) && core.Get(m.ctx, g) == 0
			if t, ok := m.dyingT(); r.Exact && ok && core.Get(m.ctx, g) == 0 && r.Now() > max(t, w0) {
				r.Violate("R05", "R05/ctx-late", "start context of %s cancelled at %v, shutdown began at %v", m.idName(g.id), r.Now(), t)
			}
		}
		if ctxBad {
			r.Violate("R05 R02", "R05/ctx-spurious", "start context of %s cancelled although the runner is not shutting down", m.idName(g.id))
		}
		exit := func() {
			c.exited, c.exitSeq, c.exitT = true, r.Seq, r.Now()
		}
		switch b.StartMode {
		case "fail", "ctxfail":
			r.Fault("start-fails")
			err := m.em.make(b.StartErr)
			m.finishCall(c, err, "start")
			exit()
			return nil, err
		case "goexit":
			r.Fault("start-goexit")
			m.finishCall(c, errGoexit, "start")
			exit()
			runtime.Goexit()
		}
		i := &rInst{call: c, reg: g, m: m, beh: b, killc: make(chan struct{}), done: make(chan struct{}), lf: newLife()}
		c.inst = i
		r.E("started %s", i.name())
		exit()
		go i.run()
		if b.Extra && b.Reporter {
			return xReporter{xDeader{xWorker{i}}, &rRepInst{i}}, nil
		} else if b.Extra {
			return xDeader{xWorker{i}}, nil
		}
		if b.Reporter {
			return &rRepInst{i}, nil
		}
		return i, nil
	}
}

type rRepInst struct{ *rInst }

func (i *rRepInst) Report() map[string]interface{} {
	core.Yield()
	return map[string]interface{}{"inst": i.name()}
}

func instOf(w worker.Worker) *rInst {
	switch w := bare(w).(type) {
	case *rInst:
		return w
	case *rRepInst:
		return w.rInst
	}
	return nil
}

func (i *rInst) run() {
	m, b := i.m, i.beh
	core.Yield()
	if b.RunOp != nil {
		m.r.Fault("call-from-worker")
		m.do(*b.RunOp)
	}
	var tc <-chan time.Time
	if b.RunFor >= 0 {
		tc = time.After(ms(b.RunFor))
	}
	var err error
	select {
	case <-tc:
		err = m.em.make(b.ExitErr)
		m.r.Fault("worker-exit-" + classOf(err))
	case <-i.killc:
		if b.StopDelay > 0 {
			m.r.Fault("slow-stop")
			time.Sleep(ms(b.StopDelay))
		}
		err = m.em.make(b.StopErr)
		if err != nil {
			m.r.Fault("stop-error-" + classOf(err))
		}
	}
	i.err = err
	i.ended = true
	m.finishCall(i.call, err, "inst")
	i.lf.end()
	close(i.done)
}

// Kill is called by the library only.
func (i *rInst) Kill() {
	m := i.m
	first := !i.killed && !i.ckilled
	if !i.killed {
		i.killed = true
		i.kseq, i.kT = m.r.E("kill %s", i.name()), m.r.Now()
		m.onKill(i)
	}
	if first {
		close(i.killc)
		i.lf.end()
	}
	core.Yield()
}

func (i *rInst) clientKill() {
	i.m.r.E("client kill %s", i.name())
	if !i.killed && !i.ckilled {
		i.ckilled = true
		close(i.killc)
		i.lf.end()
	}
}

func (i *rInst) Wait() error {
	i.waitCalls++
	<-i.done
	core.Yield()
	return i.err
}

// onStart checks a start call as it happens.
func (m *rModel) onStart(g *rReg, c *rCall) {
	r := m.r
	if o := core.Get(m.busy, g.id); o != nil {
		what := "start call in progress"
		if o.inst != nil {
			what = "unfinished instance " + o.inst.name()
		}
		r.Violate("R01 R02", "R01/overlap", "start called for %s while there is an %s", m.idName(g.id), what)
	}
	if g.ret && g.err != nil {
		r.Violate("R01", "R01/rejected-start-called", "start function called although StartWorker returned %v", g.err)
	}
	if m.waitS > 0 {
		r.Violate("R05", "R05/start-after-wait", "start called for %s after Wait returned", m.idName(g.id))
	}
	if t, ok := m.dyingT(); ok && r.Exact && r.Now() > t {
		r.Violate("R05", "R05/start-while-dying", "start called for %s at %v, shutdown began at %v", m.idName(g.id), r.Now(), t)
	}
	if g.removedSeq > 0 {
		r.Violate("R08 R03", "R08/start-after-remove", "start called for %s after StopAndRemoveWorker reported it gone", m.idName(g.id))
	}
	p := g.last()
	if p == nil {
		if r.Exact && g.ret && r.Now() > g.retT {
			r.Violate("R01 R02", "R01/first-start-late", "first start of %s at %v, StartWorker returned at %v", m.idName(g.id), r.Now(), g.retT)
		}
		return
	}
	if p.end == nil {
		return // overlap, reported
	}
	r.Probe("restart")
	err := p.end.err
	if err == errGoexit {
		err = &SimErr{Class: "retry", N: 0}
		if m.sc.Fatal == 0 {
			r.Violate("R03 R02", "R03/restart-after-fatal", "start called again after fatal Goexit")
		}
	}
	if !m.restartable(err) {
		cls := "R03/restart-after-terminal"
		r.Violate("R03", cls, "%s started again after ending with %q", m.idName(g.id), errStr(err))
	}
	if g.stopDef {
		g.startsAfter++
		if !g.stopPend || g.startsAfter > 1 {
			r.Violate("R04 R03", "R04/restart-after-stop", "%s started again although StopWorker returned at %v", m.idName(g.id), g.stopT)
		}
	}
	dt := r.Now() - p.end.t
	if dt < m.delay {
		r.Violate("R02", "R02/early", "%s restarted %v after it ended, RestartDelay is %v", m.idName(g.id), dt, m.delay)
	}
	if r.Exact && dt > m.delay+m.late {
		r.Violate("R02", "R02/late", "%s restarted %v after it ended, RestartDelay is %v", m.idName(g.id), dt, m.delay)
	}
}

// couldTarget: might the stop-like op have been meant for this registration?
func (m *rModel) couldTarget(o *rOpRec, g *rReg) bool {
	return o.id == g.id && (!o.ret || o.retSeq > g.callSeq)
}

// cause: was anybody's request a reason to have killed i by seq?
func (m *rModel) cause(i *rInst, seq int) bool {
	for _, o := range m.ops {
		if (o.kind == "stop" || o.kind == "remove") && o.callSeq <= seq && m.couldTarget(o, i.reg) && (o.target == nil || o.target == i.reg) {
			return true
		}
	}
	return false
}

func (m *rModel) onKill(i *rInst) {
	if m.dyingPossible(m.r.Seq) {
		return
	}
	if m.cause(i, m.r.Seq) {
		return
	}
	m.r.Violate("R03 R04", "R03/killed-without-cause", "%s killed although nobody stopped it and the runner is not shutting down", i.name())
}

func (m *rModel) rec(kind string, id int) *rOpRec {
	o := &rOpRec{kind: kind, id: id}
	o.callSeq = m.r.E("call %s %d", kind, id)
	o.callT = m.r.Now()
	m.ops = append(m.ops, o)
	m.r.Ops++
	return o
}

func (m *rModel) fin(o *rOpRec, err error) {
	es := errStr(err)
	o.ret, o.err = true, err
	extra := ""
	if o.w != nil {
		if i := instOf(o.w); i != nil {
			extra = i.name()
		}
	}
	o.retSeq = m.r.E("ret %s %d (call %d): %s %s%v", o.kind, o.id, o.callSeq, es, extra, o.names)
	o.retT = m.r.Now()
}

// do performs one API call and records it.
func (m *rModel) do(op ROp) {
	r := m.r
	id := m.idName(op.ID)
	switch op.Kind {
	case "start":
		o := m.rec("start", op.ID)
		g := &rReg{id: op.ID, num: len(m.regs), beh: op.Beh, callSeq: o.callSeq, callT: o.callT}
		o.reg = g
		m.regs = append(m.regs, g)
		ctx, stop := ctxAfter(op.Ctx, func() { m.ctx[g] = r.E("cancel ctx of reg %d", g.num); r.Fault("ctx-cancel") })
		_ = stop
		err := m.rn.StartWorker(ctx, id, m.startFunc(g))
		m.fin(o, err)
		g.ret, g.err, g.retSeq, g.retT = true, err, o.retSeq, o.retT
		m.checkStart(o, g)
	case "stop":
		o := m.rec("stop", op.ID)
		err := m.rn.StopWorker(id)
		m.fin(o, err)
		m.checkStop(o)
	case "remove", "worker", "wkill":
		kind := op.Kind
		if kind == "wkill" {
			kind = "worker"
		}
		o := m.rec(kind, op.ID)
		abort, stop := abortAfter(r, op.Abort, func() {
			if !o.ret {
				o.aborted, o.abortT = r.E("abort call %d", o.callSeq), r.Now()
				r.Fault("abort")
			}
		})
		if kind == "worker" {
			w, err := m.rn.Worker(id, abort)
			o.w = w
			m.fin(o, err)
			stop()
			m.checkWorker(o)
			if op.Kind == "wkill" && w != nil {
				r.Fault("client-kills-worker")
				if i := instOf(w); i != nil {
					i.clientKill()
				}
			}
		} else {
			err := m.rn.StopAndRemoveWorker(id, abort)
			m.fin(o, err)
			stop()
			m.checkRemove(o)
		}
	case "names":
		o := m.rec("names", -1)
		o.names = m.rn.WorkerNames()
		core.Touch(o.names)
		sort.Strings(o.names)
		m.fin(o, nil)
		m.checkNames(o, o.names, "WorkerNames")
		for k := range o.names {
			o.names[k] = "spoilt"
		}
	case "report":
		o := m.rec("report", -1)
		o.report = m.rn.Report()
		core.Touch(o.report)
		m.fin(o, nil)
		m.checkReport(o)
		spoil(o.report, 2)
	case "kill":
		m.kill()
	}
}

func (m *rModel) kill() {
	o := m.rec("kill", -1)
	if m.killS == 0 {
		m.killS, m.killT = o.callSeq, o.callT
		m.r.Fault("runner-kill")
	}
	m.rn.Kill()
	m.fin(o, nil)
	if m.killR == 0 {
		m.killR = o.retSeq
	}
}

// accepted: the registration certainly exists from its StartWorker return.
func (m *rModel) accepted(g *rReg) bool {
	return g.ret && g.err == nil && !m.dyingPossible(g.retSeq)
}

// maybeAccepted: the registration may exist (or have existed).
func (m *rModel) maybeAccepted(g *rReg) bool {
	return !g.ret || g.err == nil
}

// possiblyRemoved: might the registration be gone by seq?
func (m *rModel) possiblyRemoved(g *rReg, seq int) bool {
	return m.dyingPossible(seq) || m.possiblyRemovedAlive(g, seq)
}

// possiblyRemovedAlive: for another reason than the runner's death?
func (m *rModel) possiblyRemovedAlive(g *rReg, seq int) bool {
	for _, c := range g.calls {
		if c.end != nil && c.end.seq <= seq && c.end.err != errGoexit && !m.restartable(c.end.err) {
			return true
		}
	}
	// a stop request plus any moment without activity at or after it
	for _, o := range m.ops {
		if o.kind != "stop" && o.kind != "remove" || o.id != g.id || o.callSeq > seq || o.ret && o.retSeq < g.callSeq {
			continue
		}
		// idle at some moment in [o.callSeq, seq]?
		if len(g.calls) == 0 {
			continue // not started yet: cannot be removed before its first start ends
		}
		for k, c := range g.calls {
			if c.end == nil || c.end.seq > seq {
				continue
			}
			next := seq
			if k+1 < len(g.calls) {
				next = g.calls[k+1].enterSeq
			}
			if next >= o.callSeq {
				return true
			}
		}
	}
	return false
}

// definitelyRegistered: some accepted registration covers [s1,s2].
func (m *rModel) definitelyRegistered(id, s1, s2 int) *rReg {
	for _, g := range m.regs {
		if g.id == id && m.accepted(g) && g.retSeq < s1 && !m.possiblyRemoved(g, s2) {
			return g
		}
	}
	return nil
}

// definitelyRemoved: certainly gone before time t / seq s.
func (m *rModel) definitelyRemoved(g *rReg, t time.Duration, s int) bool {
	if g.removedSeq > 0 && g.removedSeq < s {
		return true
	}
	if m.waitS > 0 && m.waitS < s {
		return true
	}
	if !m.r.Exact {
		return false
	}
	c := g.last()
	if c == nil || c.end == nil || c.end.t >= t {
		return false
	}
	if c.end.err != errGoexit && !m.restartable(c.end.err) {
		return true
	}
	if c.end.err == errGoexit && m.sc.Fatal == 0 {
		return true
	}
	// stopped, and this end came after the stop
	return g.stopDef && g.stopSeq < c.end.seq
}

// definitelyFree: the id is certainly not registered from before t/s until
// the end of the op that started then (ret seq e).
func (m *rModel) definitelyFree(id int, t time.Duration, s, e int) bool {
	for _, g := range m.regs {
		if g.id != id || g.callSeq > e {
			continue
		}
		if !m.maybeAccepted(g) {
			continue
		}
		if !m.definitelyRemoved(g, t, s) {
			return false
		}
	}
	return true
}

// stopped adds R04 if a StopWorker call for the id has been made.
func (m *rModel) stopped(props string, id int) string {
	for _, o := range m.ops {
		if o.kind == "stop" && o.id == id {
			return props + " R04"
		}
	}
	return props
}

func (m *rModel) checkStart(o *rOpRec, g *rReg) {
	r := m.r
	switch {
	case o.err == nil:
		if d := m.definitelyRegistered(g.id, o.callSeq, o.retSeq); d != nil {
			r.Violate("R01", "R01/duplicate-accepted", "StartWorker(%s) accepted although reg %d holds the id", m.idName(g.id), d.num)
		}
	case jerrors.Is(o.err, jerrors.AlreadyExists):
		r.Probe("already-exists")
		if len(g.calls) > 0 {
			r.Violate("R01", "R01/rejected-start-called", "start function called although StartWorker returned %v", o.err)
		}
		// the rejected registration itself must not count
		if m.definitelyFree(g.id, o.callT, o.callSeq, o.retSeq) {
			r.Violate(m.stopped("R03 R01 R08", g.id), "R03/id-not-reusable", "StartWorker(%s) returned %v although the id is free", m.idName(g.id), o.err)
		}
	case o.err == worker.ErrDead:
		if core.Get(m.ctx, g) == 0 && !m.dyingPossible(o.retSeq) {
			r.Violate("R09", "R09/errdead-alive", "StartWorker returned ErrDead on a live runner")
		}
	default:
		r.Violate("R09", "R09/start-error", "StartWorker returned unexpected %v", o.err)
	}
}

func (m *rModel) checkStop(o *rOpRec) {
	r := m.r
	if o.err != nil {
		if o.err != worker.ErrDead || !m.dyingPossible(o.retSeq) {
			r.Violate("R09 R04", "R09/stop-error", "StopWorker returned %v on a live runner", o.err)
		}
		return
	}
	// Which registration did it certainly hit?
	for _, g := range m.regs {
		if g.id != o.id || !g.ret || g.err != nil || g.retSeq > o.callSeq || g.stopDef || g.removedSeq > 0 {
			continue
		}
		if m.dyingPossible(o.retSeq) {
			continue
		}
		// possibly removed by its own end or by other stop requests?
		gone := false
		for _, c := range g.calls {
			if c.end != nil && c.end.seq <= o.retSeq && (c.end.err == errGoexit && m.sc.Fatal == 0 || c.end.err != errGoexit && !m.restartable(c.end.err)) {
				gone = true
			}
		}
		for _, p := range m.ops {
			if p == o || (p.kind != "stop" && p.kind != "remove") || p.id != g.id || p.callSeq > o.retSeq || p.ret && p.retSeq < g.callSeq {
				continue
			}
			// another stop request may have removed it already if it was idle since
			for k, c := range g.calls {
				if c.end == nil || c.end.seq > o.retSeq {
					continue
				}
				next := o.retSeq
				if k+1 < len(g.calls) {
					next = g.calls[k+1].enterSeq
				}
				if next >= p.callSeq {
					gone = true
				}
			}
		}
		if gone {
			continue
		}
		g.stopDef, g.stopSeq, g.stopT = true, o.retSeq, o.retT
		l := g.last()
		g.stopPend = l == nil || l.end != nil
		if l == nil {
			g.stopPend = false // first start not entered yet; it is allowed anyway
		}
		// a start entered during the call may be the pending one
		r.Probe("definite-stop")
	}
}

func (m *rModel) checkNotFound(o *rOpRec, props string) {
	if g := m.definitelyRegistered(o.id, o.callSeq, o.retSeq); g != nil {
		m.r.Violate(props, "R09/notfound-registered", "%s(%s) returned NotFound although reg %d was registered throughout", o.kind, m.idName(o.id), g.num)
	}
	if m.killR == 0 || m.killR > o.retSeq {
		return
	}
	if m.killR < o.callSeq {
		m.r.Violate(props, "R07/notfound-killed", "%s(%s) returned NotFound although the runner had been killed", o.kind, m.idName(o.id))
		return
	}
	if m.fatS > 0 && m.fatS <= m.killR {
		return
	}
	for _, g := range m.regs {
		if g.id == o.id && g.ret && g.err == nil && g.retSeq < o.callSeq && g.retSeq < m.killS && !m.possiblyRemovedAlive(g, m.killR) {
			m.r.Violate(props, "R07/notfound-dying", "%s(%s) returned NotFound although reg %d was registered until the runner was killed", o.kind, m.idName(o.id), g.num)
		}
	}
}

func (m *rModel) checkWorker(o *rOpRec) {
	r := m.r
	switch {
	case o.err == nil:
		i := instOf(o.w)
		if i == nil {
			r.Violate("R07", "R07/nil-worker", "Worker(%s) returned %v with no error", m.idName(o.id), o.w)
			return
		}
		if i.reg.id != o.id {
			r.Violate("R07", "R07/wrong-id", "Worker(%s) returned %s", m.idName(o.id), i.name())
			return
		}
		// superseded before the call began?
		for _, g := range m.regs {
			if g.id != o.id {
				continue
			}
			for _, c := range g.calls {
				if c != i.call && c.enterSeq > i.call.enterSeq && c.enterSeq < o.callSeq {
					r.Violate("R07", "R07/superseded", "Worker(%s) returned %s, replaced before the call by reg %d call %d", m.idName(o.id), i.name(), g.num, c.n)
				}
			}
		}
		if r.Exact && i.call.end != nil && i.call.end.t < o.callT {
			r.Violate("R07", "R07/finished", "Worker(%s) at %v returned %s, which finished at %v", m.idName(o.id), o.callT, i.name(), i.call.end.t)
		}
		if r.Exact && i.killed && i.kT < o.callT {
			r.Violate("R07", "R07/killed", "Worker(%s) at %v returned %s, which the runner killed at %v", m.idName(o.id), o.callT, i.name(), i.kT)
		}
		if m.waitS > 0 && m.waitS < o.callSeq {
			r.Violate("R07 R09", "R07/worker-after-death", "Worker returned an instance after the runner was dead")
		}
		if r.Exact && m.killR > 0 && m.killT < o.callT {
			r.Violate("R07 R09", "R07/worker-after-kill", "Worker(%s) returned %s at %v although the runner was killed at %v", m.idName(o.id), i.name(), o.callT, m.killT)
		}
	case jerrors.Is(o.err, jerrors.NotFound):
		m.checkNotFound(o, "R07 R09")
		if m.waitS > 0 && m.waitS < o.callSeq {
			r.Violate("R07 R09", "R07/notfound-dead", "Worker returned NotFound instead of ErrDead on a dead runner")
		}
	case o.err == worker.ErrAborted:
		if o.aborted == 0 {
			r.Violate("R07", "R07/aborted-spurious", "Worker(%s) returned ErrAborted but abort never fired", m.idName(o.id))
		}
	case o.err == worker.ErrDead:
		if !m.dyingPossible(o.retSeq) {
			r.Violate("R07 R09", "R07/dead-spurious", "Worker(%s) returned ErrDead on a live runner", m.idName(o.id))
		}
	default:
		r.Violate("R07", "R07/unexpected-error", "Worker(%s) returned unexpected %v", m.idName(o.id), o.err)
	}
}

func (m *rModel) checkRemove(o *rOpRec) {
	r := m.r
	switch {
	case o.err != nil && classOf(o.err) == "other" && jerrors.Is(o.err, jerrors.NotFound):
		m.checkNotFound(o, "R08")
		return
	case o.err == worker.ErrAborted:
		if o.aborted == 0 {
			r.Violate("R08", "R08/aborted-spurious", "StopAndRemoveWorker returned ErrAborted but abort never fired")
		}
		return
	case o.err == worker.ErrDead:
		if !m.dyingPossible(o.retSeq) {
			r.Violate("R08", "R08/dead-spurious", "StopAndRemoveWorker returned ErrDead on a live runner")
		}
		return
	}
	r.Probe("removed")
	// Candidates: registrations of the id that may have been current.
	var cand []*rReg
	for _, g := range m.regs {
		if g.id != o.id || g.callSeq > o.retSeq || !m.maybeAccepted(g) {
			continue
		}
		if g.removedSeq > 0 && g.removedSeq < o.callSeq || m.definitelyRemoved(g, o.callT, o.callSeq) {
			continue
		}
		match := false
		for _, c := range g.calls {
			if c.inst != nil && c.inst.ended && c.inst.err == o.err {
				match = true
			}
		}
		if match {
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		r.Violate("R08", "R08/foreign-error", "StopAndRemoveWorker(%s) returned %v, which is not the result of a finished worker of that id", m.idName(o.id), errStr(o.err))
		return
	}
	if len(cand) > 1 {
		return
	}
	g := cand[0]
	if l := g.last(); l.end == nil {
		r.Violate("R08", "R08/unfinished", "StopAndRemoveWorker(%s) returned while the worker is not finished", m.idName(o.id))
	}
	if g.removedSeq == 0 {
		g.removedSeq = o.retSeq
	}
	o.target = g
	for _, h := range m.regs {
		// It waited for one worker; did it stop another one?
		if h.id != o.id || h == g {
			continue
		}
		for _, c := range h.calls {
			if i := c.inst; i != nil && i.killed && !m.dyingPossible(i.kseq) && !m.cause(i, i.kseq) {
				r.Violate("R03 R04 R08", "R03/killed-without-cause", "%s killed although only StopAndRemoveWorker(%s) was called, which removed reg %d", i.name(), m.idName(o.id), g.num)
			}
		}
	}
	killed := false
	for _, c := range g.calls {
		if c.inst != nil && (c.inst.killed || c.inst.ckilled || c.inst.beh.RunFor >= 0) {
			killed = true
		}
	}
	if !killed {
		r.Violate("R08", "R08/not-killed", "StopAndRemoveWorker(%s) returned without killing the worker", m.idName(o.id))
	}
}

func (m *rModel) checkNames(o *rOpRec, names []string, what string) {
	r := m.r
	has := map[string]bool{}
	for _, n := range names {
		if has[n] {
			r.Violate("R10", "R10/duplicate-name", "%s lists %s twice", what, n)
		}
		has[n] = true
	}
	for id := 0; id < m.sc.IDs; id++ {
		n := m.idName(id)
		if !has[n] {
			if g := m.definitelyRegistered(id, o.callSeq, o.retSeq); g != nil {
				r.Violate("R10 R09", "R10/missing", "%s omits %s although reg %d is registered", what, n, g.num)
			}
		} else if m.definitelyFree(id, o.callT, o.callSeq, o.retSeq) {
			r.Violate(m.stopped("R10 R03 R08", id), "R10/ghost", "%s lists %s although the id is free", what, n)
		}
		delete(has, n)
	}
	for n := range has {
		if n != "leak" {
			r.Violate("R10", "R10/unknown-name", "%s lists unknown %s", what, n)
		}
	}
}

func (m *rModel) checkReport(o *rOpRec) {
	r := m.r
	ws, ok := o.report["workers"].(map[string]interface{})
	if !ok {
		r.Violate("R10", "R10/report-shape", "Report has no workers map: %v", o.report)
		return
	}
	var names []string
	for n := range ws {
		names = append(names, n)
	}
	sort.Strings(names)
	m.checkNames(o, names, "Report")
	for _, n := range names {
		if n == "leak" {
			continue
		}
		var id int
		for id < m.sc.IDs-1 && m.idName(id) != n {
			id++
		}
		e, _ := ws[n].(map[string]interface{})
		state, _ := e[worker.KeyState].(string)
		inst := ""
		if rep, ok := e[worker.KeyReport].(map[string]interface{}); ok {
			inst, _ = rep["inst"].(string)
		}
		at, _ := e[worker.KeyLastStart].(string)
		m.checkState(o, id, state, inst, at)
	}
}

// checkState judges one worker's reported state over the op's interval.
func (m *rModel) checkState(o *rOpRec, id int, state, inst, at string) {
	r := m.r
	// Was some instance of the id possibly running in the interval?
	running := false
	var runs []string
	var run *rCall
	for _, g := range m.regs {
		if g.id != id {
			continue
		}
		for _, c := range g.calls {
			if c.inst == nil || c.exitSeq > o.retSeq {
				continue
			}
			if c.end == nil || c.end.seq > o.callSeq || c.end.t >= o.callT || !r.Exact {
				// not exact: the runner may not have noticed the end yet
				if !r.Exact && c != g.last() && g.calls[c.n+1].enterSeq < o.callSeq {
					continue
				}
				running = true
				runs = append(runs, c.inst.name())
				run = c
			}
		}
	}
	if at != "" && m.sc.Clock < 2 {
		// The time of registration counts as a start.
		for _, g := range m.regs {
			if g.id == id {
				if at < m.clockTime(g.callT) {
					r.Violate("R10", "R10/start-time", "Report says %s was started at %q, it was first registered at %s", m.idName(id), at, m.clockTime(g.callT))
				}
				break
			}
		}
	}
	switch state {
	case "started":
		if r.Exact && m.sc.Clock < 2 && len(runs) == 1 && run.end == nil && run.exitT < o.callT && at != m.clockTime(run.exitT) {
			r.Violate("R10", "R10/start-time", "Report says %s was started at %q, not %s", run.inst.name(), at, m.clockTime(run.exitT))
		}
		if !running {
			r.Violate("R10", "R10/started-not-running", "Report says %s is started at %v but no instance is running", m.idName(id), o.callT)
		}
		if r.Exact {
			// every possible instance already killed at an earlier instant?
			all := len(runs) > 0
			for _, g := range m.regs {
				for _, c := range g.calls {
					if g.id == id && c.inst != nil {
						for _, n := range runs {
							if n == c.inst.name() && !(c.inst.killed && c.inst.kT < o.callT) {
								all = false
							}
						}
					}
				}
			}
			if all {
				r.Violate("R10", "R10/started-while-stopping", "Report says %s is started although it is being stopped", m.idName(id))
			}
		}
	case "stopping":
		ok := m.dyingPossible(o.retSeq)
		for _, p := range m.ops {
			if (p.kind == "stop" || p.kind == "remove") && p.id == id && p.callSeq < o.retSeq {
				ok = true
			}
		}
		if !ok {
			r.Violate("R10", "R10/stopping-unasked", "Report says %s is stopping but nobody stopped it", m.idName(id))
		}
	case "stopped":
		// wrong if a registered, unstopped instance ran throughout
		if g := m.definitelyRegistered(id, o.callSeq, o.retSeq); g != nil && r.Exact {
			c := g.last()
			if c != nil && c.inst != nil && c.end == nil && c.exitT < o.callT && !c.inst.killed && !m.anyStop(g, o.retSeq) {
				r.Violate("R10", "R10/stopped-while-running", "Report says %s is stopped although %s is running", m.idName(id), c.inst.name())
			}
			if c != nil && c.inst != nil && c.end == nil && c.exitT < o.callT && c.inst.killed && c.inst.kT < o.callT {
				r.Violate("R10", "R10/stopping-hidden", "Report says %s is stopped although %s has been killed and is still running", m.idName(id), c.inst.name())
			}
		}
	default:
		r.Violate("R10", "R10/bad-state", "Report has state %q", state)
	}
	if inst != "" {
		ok := false
		for _, n := range runs {
			if n == inst {
				ok = true
			}
		}
		if !ok {
			r.Violate("R10", "R10/wrong-report", "Report for %s comes from %s, running: %v", m.idName(id), inst, runs)
		}
	}
}

// clockTime is how a report gives the instant t.
func (m *rModel) clockTime(t time.Duration) string { return clockTime(m.r, t) }

func (m *rModel) anyStop(g *rReg, seq int) bool {
	for _, p := range m.ops {
		if (p.kind == "stop" || p.kind == "remove") && p.id == g.id && p.callSeq < seq && (!p.ret || p.retSeq > g.callSeq) {
			return true
		}
	}
	return false
}

// settled examines the quiescent system; api says whether to call into it.
func (m *rModel) settled(api bool, final bool) {
	r := m.r
	if r.Exact || final {
		for _, o := range m.ops {
			if !o.ret {
				m.checkPending(o, final)
			}
		}
		if m.waitS == 0 {
			if _, dying := m.dyingT(); dying {
				busy := false
				for _, g := range m.regs {
					if l := g.last(); l != nil && l.end == nil {
						busy = true
					}
				}
				if !busy {
					r.Violate("R05", "R05/wait-hangs", "shutdown has begun and all workers have finished, but Wait has not returned")
				}
			}
		}
	}
	if !api || !r.Exact && !final {
		return
	}
	m.do(ROp{Kind: "names"})
	m.do(ROp{Kind: "report"})
	for id := 0; id < m.sc.IDs; id++ {
		m.probeWorker(id)
	}
}

// probeWorker looks up a worker whose answer is certain and immediate.
func (m *rModel) probeWorker(id int) {
	r := m.r
	if m.dyingPossible(r.Seq) {
		return
	}
	var cur *rReg
	for _, g := range m.regs {
		if g.id == id && m.accepted(g) && !m.possiblyRemoved(g, r.Seq) {
			cur = g
		}
	}
	if cur != nil {
		c := cur.last()
		if c == nil || c.inst == nil || c.end != nil || m.anyStop(cur, r.Seq) {
			return
		}
		o := m.rec("worker", id)
		ab := make(chan struct{})
		close(ab)
		o.aborted = o.callSeq
		w, err := m.rn.Worker(m.idName(id), ab)
		o.w = w
		m.fin(o, err)
		if err != nil || instOf(w) != c.inst {
			r.Violate("R07 R09", "R07/not-available", "Worker(%s) returned %v, %v although %s is running", m.idName(id), w, err, c.inst.name())
		}
		return
	}
	if m.definitelyFree(id, r.Now(), r.Seq, r.Seq) {
		o := m.rec("worker", id)
		ab := make(chan struct{})
		close(ab)
		o.aborted = o.callSeq
		w, err := m.rn.Worker(m.idName(id), ab)
		o.w = w
		m.fin(o, err)
		if err == nil || !jerrors.Is(err, jerrors.NotFound) {
			r.Violate("R07 R03", "R07/found-free", "Worker(%s) returned %v, %v although the id is free", m.idName(id), w, err)
		}
	}
}

// checkPending judges a call that is still blocked while nothing can run.
func (m *rModel) checkPending(o *rOpRec, final bool) {
	r := m.r
	_, dying := m.dyingT()
	switch o.kind {
	case "start", "stop", "names", "report", "kill":
		r.Violate("R09", "R09/hang-"+o.kind, "%s call (seq %d) does not return", o.kind, o.callSeq)
		return
	}
	props, cls := "R07 R09", "R07/hang"
	if o.kind == "remove" {
		props, cls = "R08", "R08/hang"
	}
	if o.aborted > 0 {
		r.Violate(props, cls+"-aborted", "%s(%s) (call %d) still blocked after abort fired at %v", o.kind, m.idName(o.id), o.callSeq, o.abortT)
		return
	}
	if o.kind == "worker" && dying {
		r.Violate(props, cls+"-dying", "Worker(%s) (call %d) still blocked although the runner is shutting down", m.idName(o.id), o.callSeq)
		return
	}
	// Is there a reason to wait?
	for _, g := range m.regs {
		if g.id != o.id || !m.maybeAccepted(g) || g.removedSeq > 0 {
			continue
		}
		c := g.last()
		if c == nil {
			if m.accepted(g) {
				r.Violate(m.stopped("R01 R02 R09", g.id), "R01/never-started", "%s was accepted but its start function has not been called", m.idName(g.id))
			}
			continue
		}
		switch {
		case c.end == nil && c.inst == nil:
			return // starting
		case c.end == nil:
			if o.kind == "remove" {
				if !c.inst.killed && !m.dyingPossible(r.Seq) {
					r.Violate("R08", "R08/not-killed-yet", "StopAndRemoveWorker(%s) is waiting but %s has not been killed", m.idName(o.id), c.inst.name())
				}
				return
			}
			if m.anyStop(g, r.Seq) {
				return // being stopped
			}
			r.Violate("R07 R09", "R07/lost-wakeup", "Worker(%s) (call %d) still blocked although %s is running", m.idName(o.id), o.callSeq, c.inst.name())
			return
		default:
			// ended: restart pending?
			err := c.end.err
			again := err == errGoexit && m.sc.Fatal != 0 || err != errGoexit && m.restartable(err)
			if again && !(g.stopDef && g.stopSeq < c.end.seq) && !dying && r.Now() <= c.end.t+m.delay+m.late {
				return
			}
		}
	}
	r.Violate(props, cls, "%s(%s) (call %d) still blocked although the id is free", o.kind, m.idName(o.id), o.callSeq)
}

// history checks that need the whole run.
func (m *rModel) post() {
	r := m.r
	dT, dying := m.dyingT()
	for _, g := range m.regs {
		if m.accepted(g) && len(g.calls) == 0 {
			r.Violate(m.stopped("R01 R02 R09", g.id), "R01/never-started", "%s was accepted but its start function was never called", m.idName(g.id))
		}
		for k, c := range g.calls {
			// restart happened?
			if c.end != nil && k == len(g.calls)-1 {
				err := c.end.err
				again := err == errGoexit && m.sc.Fatal != 0 || err != errGoexit && m.restartable(err)
				if again && g.removedSeq == 0 && !m.stopBefore(g) {
					if !dying || dT > c.end.t+m.delay+m.late && (r.Exact || dT > c.end.t+m.delay+m.late+30*time.Second) {
						r.Violate(m.stopped("R02", g.id), "R02/not-restarted", "%s ended with %v at %v but was never restarted", m.idName(g.id), errStr(err), c.end.t)
					}
				}
			}
			i := c.inst
			if i == nil || !r.Exact {
				continue
			}
			// shutdown kills everything
			if dying {
				t := dT
				if c.exitT > t {
					t = c.exitT
				}
				if (c.end == nil || c.end.t > t) && !(i.killed && i.kT <= t) {
					r.Violate("R05", "R05/not-killed", "%s not killed at %v although shutdown began at %v (killed: %v at %v)", i.name(), t, dT, i.killed, i.kT)
				}
			}
			if g.stopDef && (c.exitSeq > g.stopSeq || c.end == nil || c.end.seq > g.stopSeq) {
				t := g.stopT
				if c.exitT > t {
					t = c.exitT
				}
				if (c.end == nil || c.end.t > t) && !(i.killed && i.kT <= t) {
					r.Violate("R04", "R04/not-killed", "%s not killed at %v although StopWorker returned at %v (killed: %v at %v)", i.name(), t, g.stopT, i.killed, i.kT)
				}
			}
		}
	}
	if m.waitS == 0 {
		return
	}
	lastT := time.Duration(0)
	for _, g := range m.regs {
		for _, c := range g.calls {
			if c.end == nil || c.end.seq > m.waitS || !c.exited || c.exitSeq > m.waitS {
				r.Violate("R05", "R05/wait-early", "Wait returned before %s (reg %d call %d) had finished", m.idName(g.id), g.num, c.n)
				continue
			}
			if c.end.t > lastT {
				lastT = c.end.t
			}
			if c.inst != nil && c.inst.waitCalls == 0 {
				r.Violate("R05", "R05/not-waited", "the runner never waited for %s", c.inst.name())
			}
		}
	}
	if !dying {
		r.Violate("R05 R03", "R05/wait-alive", "Wait returned %v but nothing shut the runner down", errStr(m.waitE))
	} else if r.Exact {
		if dT > lastT {
			lastT = dT
		}
		if m.waitT > lastT {
			r.Violate("R05", "R05/shutdown-slow", "Wait returned at %v, everything had finished at %v", m.waitT, lastT)
		}
	}
	m.verdict()
}

func (m *rModel) stopBefore(g *rReg) bool {
	for _, p := range m.ops {
		if (p.kind == "stop" || p.kind == "remove") && p.id == g.id && (!p.ret || p.retSeq > g.callSeq) {
			return true
		}
	}
	return false
}

func (m *rModel) verdict() {
	r := m.r
	if len(m.fatals) == 0 {
		if m.waitE != nil {
			r.Violate("R06", "R06/spurious", "Wait returned %v although no worker failed fatally", m.waitE)
		}
		return
	}
	r.Probe(fmt.Sprintf("fatals-%d", min(len(m.fatals), 3)))
	if m.waitE == nil {
		r.Violate("R06", "R06/lost", "Wait returned nil although a worker failed with fatal %v", m.fatals[0].err)
		return
	}
	var hit *rEnd
	for _, f := range m.fatals {
		if f.err == m.waitE || f.err == errGoexit && classOf(m.waitE) == "other" {
			hit = f
			break
		}
	}
	if hit == nil {
		r.Violate("R06", "R06/foreign", "Wait returned %v, which no worker returned", m.waitE)
		return
	}
	if m.sc.Importance == 1 {
		for _, f := range m.fatals {
			if rankOf(f.err) > rankOf(hit.err) {
				r.Violate("R06", "R06/less-important", "Wait returned %v although %v is more important", hit.err, f.err)
			}
		}
		return
	}
	if r.Exact {
		for _, f := range m.fatals {
			if f.t < hit.t {
				r.Violate("R06", "R06/not-first", "Wait returned %v (at %v) although %v came first (at %v)", hit.err, hit.t, f.err, f.t)
			}
		}
	}
}

// Run executes a scenario.
func (RunnerFam) Run(x any, r *core.Run) {
	sc := x.(*RScenario)
	setScale(sc.Scale, sc.Stall, sc.Long)
	m := &rModel{r: r, sc: sc, busy: map[int]*rCall{}, ctx: map[*rReg]int{}}
	m.delay = ms(sc.Delay)
	if sc.Delay == 0 {
		m.delay = worker.DefaultRestartDelay
	}
	p := worker.RunnerParams{Name: "sim", RestartDelay: ms(sc.Delay)}
	if sc.Fatal == 1 {
		p.IsFatal = func(err error) bool { core.Yield(); return m.isFatal(err) }
	}
	if sc.Restart == 1 {
		p.ShouldRestart = func(err error) bool { core.Yield(); return classOf(err) != "drop" }
	}
	if sc.Importance == 1 {
		p.MoreImportant = func(a, b error) bool { core.Yield(); return rankOf(a) > rankOf(b) }
	}
	switch sc.Clock {
	case 1:
		p.Clock = &simClock{r: r}
	case 2:
		p.Clock = &simClock{r: r, late: sc.Late, jump: []int{0, 5000, -3000}}
		m.late = ms(maxInt(sc.Late))
	}
	if sc.Logger == 1 {
		p.Logger = yieldLogger{}
	}
	rn, err := worker.NewRunner(p)
	if err != nil {
		r.Violate("R09", "R09/new", "NewRunner: %v", err)
		return
	}
	m.rn = rn
	waiters := 1 + int(sc.IDs)%2
	wdone := 0
	for i := 0; i < waiters; i++ {
		go func() {
			err := rn.Wait()
			seq := r.E("Wait returned: %s", errClass(err))
			if m.waitS == 0 {
				m.waitS, m.waitT, m.waitE = seq, r.Now(), err
			} else if err != m.waitE {
				r.Violate("R06", "R06/unstable", "Wait returned %v and then %v", m.waitE, err)
			}
			wdone++
		}()
	}
	m.live = len(sc.Clients)
	for _, ops := range sc.Clients {
		go func() {
			for _, op := range ops {
				if op.Gap > 0 {
					time.Sleep(ms(op.Gap))
				} else {
					core.Yield()
				}
				m.do(op)
			}
			m.live--
		}()
	}
	for _, s := range sc.Steps {
		if s > 0 {
			time.Sleep(ms(s))
		}
		r.Settle()
		m.settled(sc.Probe, false)
	}
	// Let every scripted fault play out, then look at the steady state.
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	m.settled(true, true)
	if sc.Leak > 0 && !m.dyingPossible(r.Seq) {
		m.leak(sc.Leak)
	}
	if m.killS == 0 {
		m.kill()
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	if wdone != waiters {
		r.Violate("R05", "R05/wait-hangs", "Wait does not return after shutdown (%d of %d returned)", wdone, waiters)
	}
	for _, o := range m.ops {
		if !o.ret {
			m.checkPending(o, true)
		}
	}
	m.post()
	if len(r.Viol) > 0 {
		return
	}
	if m.live != 0 {
		r.Violate("R09", "R09/client-hangs", "a client is still blocked after the runner is dead")
		return
	}
	// the dead runner
	if err := rn.StartWorker(context.Background(), "late", func(context.Context) (worker.Worker, error) {
		r.Violate("R05 R09", "R09/dead-start", "start called on a dead runner")
		return nil, nil
	}); err != worker.ErrDead {
		r.Violate("R09", "R09/dead-startworker", "StartWorker on a dead runner returned %v", err)
	}
	if err := rn.StopWorker(m.idName(0)); err != worker.ErrDead {
		r.Violate("R09", "R09/dead-stopworker", "StopWorker on a dead runner returned %v", err)
	}
	if _, err := rn.Worker(m.idName(0), nil); err != worker.ErrDead {
		r.Violate("R09 R07", "R09/dead-worker", "Worker on a dead runner returned %v", err)
	}
	if err := rn.StopAndRemoveWorker(m.idName(0), nil); err != worker.ErrDead {
		r.Violate("R08 R09", "R09/dead-remove", "StopAndRemoveWorker on a dead runner returned %v", err)
	}
	if n := rn.WorkerNames(); len(n) != 0 {
		r.Violate("R10 R05", "R10/dead-names", "WorkerNames on a dead runner returned %v", n)
	}
	rn.Report()
	rn.Kill()
	r.Settle()
	if n := r.Gs(); n != 0 {
		r.Violate("R09 R07", "R09/leak", "%d goroutines left after the runner is dead", n)
	}
}

func errClass(err error) string {
	if err == nil {
		return "nil"
	}
	if c := classOf(err); c != "other" {
		return err.Error()
	}
	return "other"
}

type deadW struct{}

func (deadW) Kill()       {}
func (deadW) Wait() error { return nil }

// leak checks that aborted lookups leave no goroutine behind.
func (m *rModel) leak(n int) {
	r := m.r
	r.Probe("leak-probe")
	err := m.rn.StartWorker(context.Background(), "leak", func(ctx context.Context) (worker.Worker, error) {
		<-ctx.Done()
		return deadW{}, nil
	})
	if err != nil {
		return
	}
	r.Settle()
	before := r.Gs()
	left := n
	for i := 0; i < n; i++ {
		ab := make(chan struct{})
		go func() {
			if _, err := m.rn.Worker("leak", ab); err != worker.ErrAborted {
				r.Violate("R07", "R07/abort-result", "aborted Worker call returned %v", err)
			}
			left--
		}()
		go func() { core.Yield(); close(ab) }()
	}
	if r.Exact {
		r.Settle()
	} else {
		time.Sleep(60 * time.Second)
		r.Settle()
	}
	if left != 0 {
		r.Violate("R07 R09", "R07/abort-hang", "aborted Worker call does not return")
	} else if after := r.Gs(); after > before {
		r.Violate("R07 R09", "R07/abort-leak", "%d goroutines left behind by aborted Worker calls", after-before)
	}
}
