package fam

import (
	"context"
	"encoding/json"
	"time"

	worker "github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"

	"verif/sim/core"
)

func init() { core.Families["util"] = UtilFam{} }

// UtilFam drives worker.Stop and worker.Dead.
type UtilFam struct{}

func (UtilFam) Name() string { return "util" }

// UW is one worker.
type UW struct {
	Kind      int    `json:"kind"` // 0 plain, 1 deader, 2 deader without channel, 3 runner, 4 engine, 5 catacomb, 6 plain with more methods, 7 deader with more methods, 8 plain and not comparable, 9 deader and not comparable
	RunFor    int    `json:"run_for"`
	ExitErr   string `json:"exit_err,omitempty"`
	StopDelay int    `json:"stop_delay,omitempty"`
	StopErr   string `json:"stop_err,omitempty"`
	KillDelay int    `json:"kill_delay,omitempty"` // a Kill that is slow to return
}

// UOp is a call.
type UOp struct {
	Kind string `json:"kind"` // stop dead kill wait
	K    int    `json:"k"`
	Gap  int    `json:"gap,omitempty"`
}

// UScenario is a generated workload.
type UScenario struct {
	Ws      []UW    `json:"workers"`
	Clients [][]UOp `json:"clients"`
	Steps   []int   `json:"steps,omitempty"`
	Stall   bool    `json:"stall"`
	Scale   int     `json:"scale,omitempty"` // stretches all durations
	Long    bool    `json:"long,omitempty"`  // some durations take days
}

func (UtilFam) Decode(b []byte) (any, error) {
	sc := &UScenario{}
	return sc, json.Unmarshal(b, sc)
}

func (UtilFam) Stalls(sc any) bool { return sc.(*UScenario).Stall }

func (UtilFam) Gen(r *core.Rng, prop string) any {
	sc := &UScenario{Stall: r.P(20)}
	deco := habit(r)
	d := func() int { return core.Pick(r, 0, 0, 1, 1, 2, 5, 10, 30, 1000, 20000) }
	d = rarely(r, &sc.Long, d)
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		w := UW{Kind: core.Pick(r, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 6, 7, 8, 9), RunFor: -1, ExitErr: deco(r, core.Pick(r, "nil", "err")), StopErr: deco(r, core.Pick(r, "nil", "err"))}
		if r.P(40) {
			w.RunFor = d()
		}
		if r.P(50) {
			w.StopDelay = d()
		}
		if r.P(10) {
			w.KillDelay = d()
		}
		sc.Ws = append(sc.Ws, w)
	}
	for c, nc := 0, 1+r.N(5); c < nc; c++ {
		var ops []UOp
		for i, k := 0, 1+r.N(4); i < k; i++ {
			o := UOp{Kind: core.Pick(r, "stop", "stop", "dead", "dead", "dead", "kill", "wait"), K: r.N(n)}
			if r.P(60) {
				o.Gap = d()
			}
			ops = append(ops, o)
		}
		sc.Clients = append(sc.Clients, ops)
	}
	for i, k := 0, r.N(6); i < k; i++ {
		sc.Steps = append(sc.Steps, d())
	}
	if !sc.Long {
		sc.Scale = pickScale(r)
	}
	return sc
}

func (UtilFam) Shrinks(x any) []any {
	sc := x.(*UScenario)
	var out []any
	add := func(f func(*UScenario)) {
		b, _ := json.Marshal(sc)
		c := &UScenario{}
		json.Unmarshal(b, c)
		f(c)
		out = append(out, c)
	}
	for i := range sc.Clients {
		add(func(c *UScenario) { c.Clients = append(c.Clients[:i], c.Clients[i+1:]...) })
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			add(func(c *UScenario) { c.Clients[i] = append(c.Clients[i][:j], c.Clients[i][j+1:]...) })
			if sc.Clients[i][j].Gap > 0 {
				add(func(c *UScenario) { c.Clients[i][j].Gap = 0 })
			}
		}
	}
	if len(sc.Steps) > 0 {
		add(func(c *UScenario) { c.Steps = nil })
	}
	for i, w := range sc.Ws {
		if w.StopDelay > 0 {
			add(func(c *UScenario) { c.Ws[i].StopDelay = 0 })
		}
		if w.KillDelay > 0 {
			add(func(c *UScenario) { c.Ws[i].KillDelay = 0 })
		}
		if w.RunFor > 0 {
			add(func(c *UScenario) { c.Ws[i].RunFor = 0 })
		}
		if w.Kind > 0 {
			add(func(c *UScenario) { c.Ws[i].Kind = 0 })
		}
	}
	if x.(*UScenario).Scale > 0 {
		add(func(c *UScenario) { c.Scale = 0 })
	}
	return out
}

type uModel struct {
	r       *core.Run
	ws      []*uWorker
	em      errMaker
	live    int
	watch   []*uWatch
	pending int
}

type uWatch struct {
	w      *uWorker
	ch     <-chan struct{}
	closed bool
}

// uWorker is the worker at the bottom of each construction.
type uWorker struct {
	m       *uModel
	spec    UW
	n       int
	outer   worker.Worker // what the library is given
	started bool
	killed  bool
	killc   chan struct{}
	done    chan struct{}
	ended   bool
	endT    time.Duration
	kT      time.Duration
	err     error
	lf      life
}

func (w *uWorker) life() *life           { return &w.lf }
func (w *uWorker) gone() <-chan struct{} { return w.done }
func (w *uWorker) result() error         { return w.err }

func (w *uWorker) run() {
	w.started = true
	r := w.m.r
	class := w.spec.ExitErr
	if w.spec.RunFor >= 0 {
		t := time.NewTimer(ms(w.spec.RunFor))
		select {
		case <-t.C:
		case <-w.killc:
			t.Stop()
			class = w.spec.StopErr
		}
	} else {
		<-w.killc
		class = w.spec.StopErr
	}
	if w.killed && w.spec.StopDelay > 0 {
		r.Fault("slow-stop")
		time.Sleep(ms(w.spec.StopDelay))
	}
	if class != "nil" {
		r.Fault("worker-error")
	}
	w.err = w.m.em.make(class)
	r.E("end w%d: %s", w.n, errStr(w.err))
	w.ended, w.endT = true, r.Now()
	w.lf.end()
	close(w.done)
}

func (w *uWorker) Kill() {
	if !w.killed {
		w.killed, w.kT = true, w.m.r.Now()
		w.m.r.E("kill w%d", w.n)
		close(w.killc)
		w.lf.end()
	}
	if w.spec.KillDelay > 0 {
		time.Sleep(ms(w.spec.KillDelay))
	}
	core.Yield()
}

func (w *uWorker) Wait() error {
	<-w.done
	return w.err
}

type uDeader struct{ *uWorker }

func (w uDeader) Dead() <-chan struct{} { return w.done }

// uValue is no pointer, and cannot be compared or be a key.
type uValue struct {
	*uWorker
	tags []string
}

type uValueDeader struct{ uValue }

func (w uValueDeader) Dead() <-chan struct{} { return w.done }

type uNilDeader struct{ *uWorker }

func (w uNilDeader) Dead() <-chan struct{} { return nil }

type uCat struct{ cat catacomb.Catacomb }

func (c *uCat) Kill()       { c.cat.Kill(nil) }
func (c *uCat) Wait() error { return c.cat.Wait() }

func (w *uWorker) build() bool {
	r := w.m.r
	if w.spec.Kind >= 3 && w.spec.Kind <= 5 { // these go on when the worker in them ends cleanly
		w.spec.RunFor, w.spec.ExitErr, w.spec.KillDelay = -1, "nil", 0
	}
	switch w.spec.Kind {
	case 0:
		w.outer = w
	case 1:
		w.outer = uDeader{w}
	case 2:
		w.outer = uNilDeader{w}
	case 6:
		w.outer = xWorker{w}
	case 7:
		w.outer = xDeader{xWorker{w}}
	case 8:
		w.outer = uValue{w, nil}
	case 9:
		w.outer = uValueDeader{uValue{w, nil}}
	case 3:
		ru, err := worker.NewRunner(worker.RunnerParams{Name: "u", Clock: &simClock{r: r}, Logger: yieldLogger{}})
		if err == nil {
			err = ru.StartWorker(context.Background(), "w", func(context.Context) (worker.Worker, error) {
				go w.run()
				return w, nil
			})
		}
		if err != nil {
			r.Violate("W01", "W01/new", "%v", err)
			return false
		}
		w.outer = ru
		return true
	case 4:
		en, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal:    func(err error) bool { return err != nil },
			WorstError: func(a, b error) error { return a },
			Clock:      &simClock{r: r}, Metrics: dependency.DefaultMetrics(), Logger: yieldLogger{},
		})
		if err == nil {
			err = en.Install("w", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
				go w.run()
				return w, nil
			}})
		}
		if err != nil {
			r.Violate("W01", "W01/new", "%v", err)
			return false
		}
		w.outer = en
		return true
	case 5:
		c := &uCat{}
		if err := catacomb.Invoke(catacomb.Plan{Name: "u", Site: &c.cat, Work: func() error {
			<-c.cat.Dying()
			return c.cat.ErrDying()
		}, Init: []worker.Worker{w}}); err != nil {
			r.Violate("W01", "W01/new", "%v", err)
			return false
		}
		w.outer = c
	}
	go w.run()
	return true
}

func (m *uModel) do(o UOp) {
	if o.Gap > 0 {
		time.Sleep(ms(o.Gap))
	} else {
		core.Yield()
	}
	r := m.r
	w := m.ws[o.K]
	t := r.Now()
	r.Ops++
	switch o.Kind {
	case "kill":
		w.outer.Kill()
	case "wait":
		err := w.outer.Wait()
		if !w.ended || err != w.err {
			r.Violate("W01", "W01/wait", "Wait returned %v", err)
		}
	case "stop":
		seq := r.E("call stop w%d", w.n)
		err := worker.Stop(w.outer)
		r.E("ret stop w%d (call %d): %s", w.n, seq, errStr(err))
		switch {
		case !w.ended:
			r.Violate("W01", "W01/stop-early", "Stop returned %v before the worker had finished", err)
		case err != w.err:
			r.Violate("W01", "W01/stop-error", "Stop returned %v, the worker's error was %v", err, w.err)
		case !w.killed:
			r.Violate("W01", "W01/stop-nokill", "Stop did not kill the worker")
		}
		if r.Exact && w.spec.KillDelay == 0 && r.Now() > max(t, w.endT) {
			r.Violate("W01", "W01/stop-slow", "Stop returned at %v, the worker had finished at %v", r.Now(), w.endT)
		}
	case "dead":
		was := w.killed
		seq := r.E("call dead w%d", w.n)
		ch := worker.Dead(w.outer)
		r.E("ret dead w%d (call %d)", w.n, seq)
		_ = was
		if r.Exact && r.Now() > t {
			r.Violate("W01", "W01/dead-blocks", "Dead took until %v", r.Now())
		}
		if ch == nil {
			r.Violate("W01", "W01/dead-nil", "Dead returned no channel")
			return
		}
		x := &uWatch{w: w, ch: ch}
		m.watch = append(m.watch, x)
		if w.spec.Kind == 1 || w.spec.Kind == 7 || w.spec.Kind == 9 {
			var want <-chan struct{} = w.done
			if ch != want {
				r.Violate("W01", "W01/dead-other", "Dead did not return the worker's own channel")
			}
		}
		m.pending++
		go func() {
			_, ok := <-ch
			if ok {
				r.Violate("W01", "W01/dead-value", "Dead's channel delivered a value")
			}
			x.closed = true
			if !w.ended {
				r.Violate("W01", "W01/dead-early", "Dead's channel was closed before the worker had finished")
			}
			if r.Exact && r.Now() > max(w.endT, t) {
				r.Violate("W01", "W01/dead-late", "Dead's channel was closed at %v, the worker had finished at %v", r.Now(), w.endT)
			}
			m.pending--
		}()
	}
}

func (m *uModel) settled() {
	if !m.r.Exact {
		return
	}
	for _, x := range m.watch {
		if x.w.ended != x.closed {
			m.r.Violate("W01", "W01/dead-mismatch", "worker finished: %v, Dead closed: %v", x.w.ended, x.closed)
		}
	}
}

// Run executes a scenario.
func (UtilFam) Run(x any, r *core.Run) {
	sc := x.(*UScenario)
	setScale(sc.Scale, sc.Stall, sc.Long)
	m := &uModel{r: r}
	killers := map[int]bool{}
	for _, ops := range sc.Clients {
		for _, o := range ops {
			if o.Kind == "kill" || o.Kind == "stop" {
				killers[o.K] = true
			}
		}
	}
	for i, s := range sc.Ws {
		w := &uWorker{m: m, spec: s, n: i, killc: make(chan struct{}), done: make(chan struct{}), lf: newLife()}
		m.ws = append(m.ws, w)
		if !w.build() {
			return
		}
	}
	r.Settle()
	for _, w := range m.ws {
		for !w.started {
			time.Sleep(time.Second)
		}
	}
	m.live = len(sc.Clients)
	for _, ops := range sc.Clients {
		go func() {
			for _, o := range ops {
				m.do(o)
			}
			m.live--
		}()
	}
	for _, s := range sc.Steps {
		if s > 0 {
			time.Sleep(ms(s))
		}
		r.Settle()
		m.settled()
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	m.settled()
	// Dead alone never stops anything
	for i, w := range m.ws {
		if w.killed && !killers[i] {
			r.Violate("W01", "W01/dead-kills", "worker %d was killed although nobody asked for that", i)
		}
		if !w.killed {
			w.outer.Kill()
		}
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	for _, w := range m.ws {
		if !w.ended {
			r.Violate("W01", "W01/not-ended", "worker %d does not end after Kill", w.n)
			return
		}
	}
	if m.live != 0 || m.pending != 0 {
		r.Violate("W01", "W01/hang", "%d clients and %d Dead channels still wait after every worker has ended", m.live, m.pending)
		return
	}
	for _, w := range m.ws {
		if err := worker.Stop(w.outer); err != w.err {
			r.Violate("W01", "W01/stop-error", "Stop of a finished worker returned %v, the worker's error was %v", err, w.err)
		}
		ch := worker.Dead(w.outer)
		if !r.Exact {
			time.Sleep(waits * 2000 * time.Second)
		}
		r.Settle()
		select {
		case <-ch:
		default:
			r.Violate("W01", "W01/dead-late", "Dead's channel of a finished worker is open")
		}
	}
	r.Settle()
	if n := r.Gs(); n != 0 {
		r.Violate("W01", "W01/leak", "%d goroutines left", n)
	}
}
