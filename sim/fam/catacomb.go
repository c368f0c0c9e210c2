package fam

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	jerrors "github.com/juju/errors"
	worker "github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"gopkg.in/tomb.v2"

	"verif/sim/core"
)

func init() { core.Families["catacomb"] = CatFam{} }

// CatFam drives catacomb.Catacomb.
type CatFam struct{}

func (CatFam) Name() string { return "catacomb" }

// CW is the behaviour of a worker given to a catacomb.
type CW struct {
	RunFor    int    `json:"run_for"` // ms; <0: until killed
	ExitErr   string `json:"exit_err,omitempty"`
	StopDelay int    `json:"stop_delay,omitempty"`
	StopErr   string `json:"stop_err,omitempty"`
	Deader    bool   `json:"deader,omitempty"`
	Extra     bool   `json:"extra,omitempty"` // has more of the usual methods
	Ops       []COp  `json:"ops,omitempty"`
	OnStop    *COp   `json:"on_stop,omitempty"` // call made by the worker while stopping
	Dead      bool   `json:"dead,omitempty"`    // has already ended when it is handed over
}

// COp is one call.
type COp struct {
	Kind   string `json:"kind"` // add kill err errdying ctx wkill wait invoke dead
	Gap    int    `json:"gap,omitempty"`
	W      *CW    `json:"w,omitempty"`
	Err    string `json:"err,omitempty"`
	Parent int    `json:"parent,omitempty"` // ctx: 0 background, 1 nil, 2 cancellable
	Cancel int    `json:"cancel,omitempty"` // ctx: ms; <0 never
	Plan   *CPlan `json:"plan,omitempty"`
	K      int    `json:"k,omitempty"`
}

// CPlan is a plan.
type CPlan struct {
	Init   []CW   `json:"init,omitempty"`
	Ops    []COp  `json:"ops,omitempty"`
	RunFor int    `json:"run_for"` // ms; <0: until dying
	After  int    `json:"after,omitempty"`
	Err    string `json:"err,omitempty"` // what the work func returns
	Bad    string `json:"bad,omitempty"` // invalid plan: name work item
	Panic  string `json:"panic,omitempty"`
}

// CScenario is a generated workload.
type CScenario struct {
	Invokes []COp   `json:"invokes"` // concurrent
	Clients [][]COp `json:"clients"` // run once some Invoke succeeded
	Steps   []int   `json:"steps"`
	Churn   int     `json:"churn"`
	Other   int     `json:"other,omitempty"` // how the other catacomb fares: 0 died cleanly, 1 with an error, 2 dying cleanly, 3 dying with an error
	Stall   bool    `json:"stall"`
	Scale   int     `json:"scale,omitempty"` // stretches all durations
	Long    bool    `json:"long,omitempty"`  // some durations take days
}

func (CatFam) Decode(b []byte) (any, error) {
	sc := &CScenario{}
	return sc, json.Unmarshal(b, sc)
}

func (CatFam) Stalls(sc any) bool { return sc.(*CScenario).Stall }

func (CatFam) Gen(r *core.Rng, prop string) any {
	sc := &CScenario{Stall: r.P(20), Other: core.Pick(r, 0, 0, 1, 2, 3)}
	dur := func() int { return core.Pick(r, 0, 0, 1, 1, 2, 5, 10, 50, r.N(60)) }
	gap := func() int { return core.Pick(r, 0, 0, 0, 0, 1, 1, 2, 5, 10, 50, r.N(60)) }
	dur, gap = rarely(r, &sc.Long, dur), rarely(r, &sc.Long, gap)
	deco := habit(r)
	quiet := r.P(45) // few reasons to die
	if prop == "C07" || prop == "C04" {
		quiet = r.P(65)
	}
	eclass := func(stop bool) string {
		if quiet && !r.P(15) {
			return "nil"
		}
		return deco(r, core.Pick(r, "nil", "err", "err", "err", "own", "own", "ownwrap", "tombdying", "other", "otherwrap", "stillalive"))
	}
	var op func(depth int) COp
	var wk func(depth int) CW
	wk = func(depth int) CW {
		w := CW{RunFor: -1, ExitErr: "nil", StopErr: "nil", Deader: r.P(20), Extra: r.P(20)}
		if r.P(45) {
			w.RunFor, w.ExitErr = dur(), eclass(false)
			if w.ExitErr == "own" || w.ExitErr == "ownwrap" {
				w.ExitErr = "err"
			}
		}
		if r.P(35) {
			w.StopDelay = dur()
		}
		w.StopErr = eclass(true)
		if depth < 2 && r.P(20) {
			for i, n := 0, 1+r.N(2); i < n; i++ {
				w.Ops = append(w.Ops, op(depth+1))
			}
		}
		if depth < 2 && r.P(8) {
			o := op(depth + 1)
			w.OnStop = &o
		}
		w.Dead = r.P(6)
		return w
	}
	plan := func() *CPlan {
		p := &CPlan{RunFor: -1, Err: core.Pick(r, "own", "own", "own", "nil", "ownwrap")}
		for i, n := 0, core.Pick(r, 0, 0, 1, 2, 3); i < n; i++ {
			p.Init = append(p.Init, wk(0))
		}
		for i, n := 0, core.Pick(r, 0, 0, 1, 2, 4); i < n; i++ {
			p.Ops = append(p.Ops, op(1))
		}
		k := r.N(100)
		if prop == "C06" && k >= 10 {
			k = 90
		}
		switch {
		case quiet && k < 80 || k < 30:
		case k < 60:
			p.RunFor, p.Err = dur(), deco(r, core.Pick(r, "nil", "err", "err", "tombdying", "other", "stillalive"))
		case k < 75:
			p.Err = eclass(true)
		default:
			p.Panic = core.Pick(r, "str", "err", "nil", "own", "runtime", "empty", "zero", "tomb", "canceled")
			if r.P(50) {
				p.RunFor = dur()
			}
		}
		if p.RunFor < 0 && r.P(25) {
			p.After = dur()
		}
		return p
	}
	op = func(depth int) COp {
		o := COp{Gap: gap(), Cancel: -1}
		wAdd, wKill, wErr, wDying, wCtx, wWk := 40, 12, 10, 6, 14, 14
		if quiet {
			wKill = 3
		}
		if prop == "C07" {
			wCtx = 40
		}
		tot := wAdd + wKill + wErr + wDying + wCtx + wWk
		k := r.N(tot)
		pick := func(w int) bool {
			if k < w {
				return true
			}
			k -= w
			return false
		}
		switch {
		case pick(wAdd):
			o.Kind = "add"
			w := wk(depth + 1)
			o.W = &w
		case pick(wKill):
			o.Kind, o.Err = "kill", deco(r, core.Pick(r, "nil", "err", "err", "err", "own", "ownwrap", "tombdying", "other", "otherwrap", "stillalive"))
		case pick(wErr):
			o.Kind = "err"
		case pick(wDying):
			o.Kind = "errdying"
		case pick(wCtx):
			o.Kind, o.Parent = "ctx", r.N(3)
			if o.Parent == 2 && r.P(60) {
				o.Cancel = dur()
			}
		default:
			o.Kind, o.K = "wkill", r.N(8)
		}
		return o
	}
	n := 1
	if prop == "C05" && r.P(80) || r.P(20) {
		n = 2 + r.N(3)
	}
	for i := 0; i < n; i++ {
		p := plan()
		if r.P(15) {
			p.Bad = core.Pick(r, "name", "work", "item")
		}
		g := gap()
		if i == 0 || r.P(50) {
			g = 0
		}
		sc.Invokes = append(sc.Invokes, COp{Kind: "invoke", Gap: g, Plan: p})
	}
	for c, nc := 0, r.N(4); c < nc; c++ {
		var ops []COp
		for i, n := 0, 1+r.N(5); i < n; i++ {
			ops = append(ops, op(0))
		}
		sc.Clients = append(sc.Clients, ops)
	}
	for i, n := 0, r.N(5); i < n; i++ {
		sc.Steps = append(sc.Steps, gap())
	}
	if r.P(3) {
		// many workers
		p := sc.Invokes[r.N(len(sc.Invokes))].Plan
		many := 25
		if r.P(10) {
			many = 150
		}
		for i, n := 0, r.N(many); i < n; i++ {
			p.Init = append(p.Init, wk(1))
		}
		for i, n := 0, r.N(many); i < n; i++ {
			p.Ops = append(p.Ops, op(1))
		}
	}
	if crowd(r) {
		// a long and quiet life
		p := sc.Invokes[r.N(len(sc.Invokes))].Plan
		p.RunFor, p.Ops = -1, nil
		for i, n := 0, 20+r.N(120); i < n; i++ {
			o := COp{Kind: "add", Cancel: -1, Gap: gap()}
			if r.P(80) {
				w := CW{RunFor: core.Pick(r, -1, -1, 0, 5), ExitErr: "nil", StopErr: eclass(true)}
				o.W = &w
			} else {
				o.Kind, o.Parent = "ctx", r.N(2)
			}
			p.Ops = append(p.Ops, o)
		}
		if r.P(80) {
			sc.Clients = nil
		}
	}
	if r.P(40) {
		sc.Churn = 1 + r.N(3)
	}
	if !sc.Long {
		sc.Scale = pickScale(r)
	}
	return sc
}

func (CatFam) Shrinks(x any) []any {
	sc := x.(*CScenario)
	var out []any
	add := func(f func(*CScenario) bool) {
		b, _ := json.Marshal(sc)
		c := &CScenario{}
		json.Unmarshal(b, c)
		if f(c) {
			out = append(out, c)
		}
	}
	for i := range sc.Clients {
		add(func(c *CScenario) bool { c.Clients = append(c.Clients[:i], c.Clients[i+1:]...); return true })
	}
	for i := range sc.Invokes {
		add(func(c *CScenario) bool {
			c.Invokes = append(c.Invokes[:i], c.Invokes[i+1:]...)
			return len(c.Invokes) > 0
		})
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			add(func(c *CScenario) bool { c.Clients[i] = append(c.Clients[i][:j], c.Clients[i][j+1:]...); return true })
		}
	}
	add(func(c *CScenario) bool { ok := len(c.Steps) > 0; c.Steps = nil; return ok })
	add(func(c *CScenario) bool { ok := c.Churn > 0; c.Churn = 0; return ok })
	for i := range sc.Invokes {
		p := func(c *CScenario) *CPlan { return c.Invokes[i].Plan }
		for j := range sc.Invokes[i].Plan.Init {
			add(func(c *CScenario) bool { p(c).Init = append(p(c).Init[:j], p(c).Init[j+1:]...); return true })
		}
		for j := range sc.Invokes[i].Plan.Ops {
			add(func(c *CScenario) bool { p(c).Ops = append(p(c).Ops[:j], p(c).Ops[j+1:]...); return true })
		}
		add(func(c *CScenario) bool { ok := p(c).After > 0; p(c).After = 0; return ok })
		add(func(c *CScenario) bool { ok := p(c).Bad != ""; p(c).Bad = ""; return ok })
		add(func(c *CScenario) bool { ok := p(c).Panic != ""; p(c).Panic = ""; return ok })
		add(func(c *CScenario) bool { ok := c.Invokes[i].Gap > 0; c.Invokes[i].Gap = 0; return ok })
	}
	// worker level
	var walk func(o *COp, visit func(*CW))
	var walkW func(w *CW, visit func(*CW))
	walkW = func(w *CW, visit func(*CW)) {
		visit(w)
		for k := range w.Ops {
			walk(&w.Ops[k], visit)
		}
	}
	walk = func(o *COp, visit func(*CW)) {
		if o.W != nil {
			walkW(o.W, visit)
		}
		if o.Plan != nil {
			for k := range o.Plan.Init {
				walkW(&o.Plan.Init[k], visit)
			}
			for k := range o.Plan.Ops {
				walk(&o.Plan.Ops[k], visit)
			}
		}
	}
	all := func(c *CScenario, visit func(*CW)) {
		for i := range c.Invokes {
			walk(&c.Invokes[i], visit)
		}
		for i := range c.Clients {
			for j := range c.Clients[i] {
				walk(&c.Clients[i][j], visit)
			}
		}
	}
	total := 0
	all(sc, func(*CW) { total++ })
	nth := func(c *CScenario, k int, f func(*CW) bool) bool {
		n, ok := 0, false
		all(c, func(w *CW) {
			if n == k {
				ok = f(w)
			}
			n++
		})
		return ok
	}
	for k := 0; k < total; k++ {
		add(func(c *CScenario) bool {
			return nth(c, k, func(w *CW) bool { ok := len(w.Ops) > 0; w.Ops = nil; return ok })
		})
		add(func(c *CScenario) bool {
			return nth(c, k, func(w *CW) bool { ok := w.OnStop != nil; w.OnStop = nil; return ok })
		})
		add(func(c *CScenario) bool {
			return nth(c, k, func(w *CW) bool { ok := w.StopDelay > 0; w.StopDelay = 0; return ok })
		})
		add(func(c *CScenario) bool {
			return nth(c, k, func(w *CW) bool { ok := w.StopErr != "nil"; w.StopErr = "nil"; return ok })
		})
		add(func(c *CScenario) bool {
			return nth(c, k, func(w *CW) bool { ok := w.RunFor >= 0; w.RunFor = -1; return ok })
		})
		add(func(c *CScenario) bool {
			return nth(c, k, func(w *CW) bool {
				ok := w.Dead || w.Deader || w.Extra
				w.Dead, w.Deader, w.Extra = false, false, false
				return ok
			})
		})
	}
	add(func(c *CScenario) bool { ok := c.Scale > 0; c.Scale = 0; return ok })
	return out
}

// ---- model ----

// cCause is something that can kill the catacomb.
type cCause struct {
	what string
	err  error
	res  string // expected result: "is" (err itself), "misuse", "panic:<text>", "" (nil or own)
	seq  int    // could take effect from here
	t    time.Duration
	done int // has certainly taken effect when this event happened (0: unknown)
	w    *cWorker
}

// counts: not the error of a worker that may yet be refused.
func (c *cCause) counts() bool {
	return c.w == nil || c.w.acc || c.w.plan != nil && c.w.plan == c.w.m.win
}

type cWorker struct {
	m         *cModel
	n         int
	b         CW
	killc     chan struct{}
	done      chan struct{}
	killed    bool // by the library
	kT        time.Duration
	ckilled   bool
	signalled bool
	ended     bool
	endSeq    int
	endT      time.Duration
	err       error
	waits     int
	give      int // seq of the call that handed it over
	giveT     time.Duration
	refused   bool // its plan was rejected or Add failed
	acc       bool // accepted
	accT      time.Duration
	cause     *cCause
	plan      *cPlanRec
	lf        life
}

func (w *cWorker) life() *life           { return &w.lf }
func (w *cWorker) gone() <-chan struct{} { return w.done }
func (w *cWorker) result() error         { return w.err }

func (w *cWorker) name() string { return fmt.Sprintf("w%d", w.n) }

type cDeader struct{ *cWorker }

func (w cDeader) Dead() <-chan struct{} { return w.done }

type cPlanRec struct {
	n       int
	p       CPlan
	callSeq int
	callT   time.Duration
	ret     bool
	retSeq  int
	retT    time.Duration
	err     error
	ws      []*cWorker
	ran     int
	over    bool
	overSeq int
	overT   time.Duration
	opsDone bool
}

type cCall struct {
	kind    string
	seq     int
	t       time.Duration
	w       *cWorker
	ret     bool
	dyingOK bool
}

type cCtx struct {
	ctx    context.Context
	seq    int
	t      time.Duration
	pSeq   int // parent cancelled
	pT     time.Duration
	done   bool
	doneT  time.Duration
	stop   chan struct{}
	exitOK bool
}

type cModel struct {
	r      *core.Run
	sc     *CScenario
	cat    *catacomb.Catacomb
	other  error
	em     errMaker
	ws     []*cWorker
	plans  []*cPlanRec
	win    *cPlanRec
	ready  chan struct{}
	causes []*cCause
	calls  []*cCall
	ctxs   []*cCtx

	dyS, deS, waS int
	dyT, deT, waT time.Duration
	waE           error
	live          int
}

// possible: the catacomb may be dying at seq.
func (m *cModel) possible(seq int) bool {
	for _, c := range m.causes {
		if c.seq <= seq {
			return true
		}
	}
	return false
}

// certainT is the earliest instant at which the catacomb must be dying (by
// exact simulated time).
func (m *cModel) certainT() (time.Duration, bool) {
	t, ok := time.Duration(0), false
	for _, c := range m.causes {
		if c.counts() && (!ok || c.t < t) {
			t, ok = c.t, true
		}
	}
	return t, ok
}

// with adds the properties that speak of the earliest cause of death.
func (m *cModel) with(props string) string {
	t, _ := m.certainT()
	for _, c := range m.causes {
		if c.counts() && c.t == t {
			switch {
			case strings.HasPrefix(c.what, "error of") && !strings.Contains(props, "C04"):
				props += " C04"
			case c.what == "panic" && !strings.Contains(props, "C06"):
				props += " C06"
			}
		}
	}
	return props
}

// certain: the catacomb is dying for sure at seq.
func (m *cModel) certain(seq int) bool {
	for _, c := range m.causes {
		if c.done > 0 && c.done <= seq {
			return true
		}
	}
	return false
}

func (m *cModel) mkErr(class string) error {
	switch class {
	case "own":
		return m.cat.ErrDying()
	case "ownwrap":
		return jerrors.Annotate(m.cat.ErrDying(), "wrapped")
	case "tombdying":
		return tomb.ErrDying
	case "other":
		return m.other
	case "otherwrap":
		return jerrors.Annotate(m.other, "wrapped")
	case "stillalive":
		return tomb.ErrStillAlive
	}
	return m.em.make(class)
}

// mkCause describes what killing with err means.
func (m *cModel) mkCause(what, class string, err error, seq int) *cCause {
	c := &cCause{what: what, err: err, seq: seq, t: m.r.Now(), res: "is"}
	switch {
	case err == nil:
		c.res = ""
	case class == "own" || class == "ownwrap":
		if strings.Contains(err.Error(), "still alive") {
			break // misuse of ErrDying: an ordinary error
		}
		return nil // already dying: no effect
	case class == "tombdying" || class == "other" || class == "otherwrap" || class == "stillalive":
		c.res = "misuse"
	}
	return c
}

func (m *cModel) addCause(c *cCause) *cCause {
	if c != nil {
		m.causes = append(m.causes, c)
	}
	return c
}

func (c *cCause) matches(err error) bool {
	switch {
	case c.res == "is":
		return err == c.err
	case c.res == "misuse":
		return err != nil && strings.Contains(err.Error(), "bad catacomb Kill")
	case strings.HasPrefix(c.res, "panic:"):
		return err != nil && strings.Contains(err.Error(), c.res[6:])
	}
	return false
}

// ---- worker ----

func (m *cModel) newWorker(b CW) *cWorker {
	w := &cWorker{m: m, n: len(m.ws), b: b, killc: make(chan struct{}), done: make(chan struct{}), lf: newLife()}
	m.ws = append(m.ws, w)
	if b.Dead {
		m.r.Fault("dead-worker-handed-over")
		w.end("nil", m.em.make(core.Pick(core.NewRng(uint64(w.n)), "nil", "nil", "err")))
		return w
	}
	go w.run()
	return w
}

func (w *cWorker) worker() worker.Worker {
	if w.b.Extra && w.b.Deader {
		return xDeader{xWorker{w}}
	} else if w.b.Extra {
		return xWorker{w}
	}
	if w.b.Deader {
		return cDeader{w}
	}
	return w
}

func (w *cWorker) run() {
	m := w.m
	if len(w.b.Ops) > 0 || w.b.OnStop != nil {
		// catacomb methods mean nothing before a successful Invoke
		select {
		case <-m.ready:
		case <-w.killc:
		}
	}
	for _, o := range w.b.Ops {
		if m.win == nil {
			break
		}
		m.r.Fault("call-from-worker")
		m.do(o)
	}
	if w.b.RunFor >= 0 {
		t := time.NewTimer(ms(w.b.RunFor))
		select {
		case <-t.C:
			if w.b.ExitErr != "nil" {
				m.r.Fault("worker-exit-" + w.b.ExitErr)
			} else {
				m.r.Fault("worker-exit-clean")
			}
			w.end(w.b.ExitErr, m.mkErr(w.b.ExitErr))
			return
		case <-w.killc:
			t.Stop()
		}
	} else {
		<-w.killc
	}
	if w.b.OnStop != nil && m.win != nil {
		m.do(*w.b.OnStop)
	}
	if w.b.StopDelay > 0 {
		m.r.Fault("slow-stop")
		time.Sleep(ms(w.b.StopDelay))
	}
	class := w.b.StopErr
	if (class == "own" || class == "ownwrap") && !w.killed {
		class = "nil" // a worker does not know the catacomb is dying unless told so
	}
	if class != "nil" {
		m.r.Fault("stop-error")
	}
	w.end(class, m.mkErr(class))
}

func (w *cWorker) end(class string, err error) {
	m := w.m
	w.endSeq = m.r.E("end %s: %s", w.name(), class)
	w.endT = m.r.Now()
	w.ended, w.err = true, err
	if err != nil {
		if c := m.mkCause("error of "+w.name(), class, err, w.endSeq); c != nil {
			w.cause = c
			c.w = w
			if w.give > 0 && !w.refused {
				m.addCause(c)
			}
		}
	}
	w.lf.end()
	close(w.done)
}

// given records that the worker is being handed over.
func (w *cWorker) given(seq int) {
	w.give, w.giveT = seq, w.m.r.Now()
	if w.cause != nil {
		w.cause.seq, w.cause.t = seq, w.giveT
		w.m.addCause(w.cause)
	}
}

// refuse takes back the cause of a worker that the catacomb did not accept.
func (w *cWorker) refuse() {
	w.refused = true
	if w.cause != nil {
		for i, c := range w.m.causes {
			if c == w.cause {
				w.m.causes = append(w.m.causes[:i], w.m.causes[i+1:]...)
				return
			}
		}
	}
}

func (w *cWorker) Kill() {
	m, r := w.m, w.m.r
	if !w.killed {
		w.killed, w.kT = true, r.Now()
		seq := r.E("kill %s", w.name())
		if w.plan != nil && m.win != w.plan {
			// rejected plan, or not known yet
		} else if !m.possible(seq) {
			r.Violate("C04 C05", "C04/killed", "%s was killed although nothing has stopped the catacomb", w.name())
		}
		w.signal()
	}
	core.Yield()
}

func (w *cWorker) signal() {
	if !w.signalled {
		w.signalled = true
		close(w.killc)
		w.lf.end()
	}
}

func (w *cWorker) clientKill() {
	w.m.r.E("client kill %s", w.name())
	w.m.r.Fault("client-kill")
	w.ckilled = true
	w.signal()
}

func (w *cWorker) Wait() error {
	w.waits++
	<-w.done
	return w.err
}

// ---- operations ----

func (m *cModel) begin(kind string) *cCall {
	m.r.Ops++
	c := &cCall{kind: kind, seq: m.r.E("call %s", kind), t: m.r.Now()}
	m.calls = append(m.calls, c)
	return c
}

func (m *cModel) finish(c *cCall, res string) int {
	c.ret = true
	seq := m.r.E("ret %s (call %d): %s", c.kind, c.seq, res)
	if m.r.Exact && m.r.Now() > c.t && c.kind != "add" && c.kind != "invoke" {
		m.r.Violate("C07", "C07/slow-"+c.kind, "%s took until %v", c.kind, m.r.Now())
	}
	return seq
}

func (m *cModel) errName(err error) string {
	if err == nil {
		return "nil"
	}
	if classOf(err) != "other" {
		return err.Error()
	}
	switch {
	case err == tomb.ErrStillAlive:
		return "still alive"
	case strings.HasSuffix(err.Error(), "is dying"):
		return "dying"
	case strings.Contains(err.Error(), "bad catacomb"):
		return "misuse"
	case strings.HasPrefix(err.Error(), "panic"):
		return "panic"
	}
	return "other"
}

func (m *cModel) do(o COp) {
	if o.Gap > 0 {
		time.Sleep(ms(o.Gap))
	} else {
		core.Yield()
	}
	r := m.r
	switch o.Kind {
	case "add":
		m.doAdd(*o.W)
	case "kill":
		class := o.Err
		err := m.mkErr(class)
		c := m.begin("kill " + class)
		cause := m.addCause(m.mkCause("Kill("+class+")", class, err, c.seq))
		r.Fault("kill-" + class)
		m.cat.Kill(err)
		seq := m.finish(c, "")
		if cause != nil {
			cause.done = seq
		}
	case "err":
		c := m.begin("err")
		certain := m.certain(c.seq)
		dt, dying := m.certainT()
		if r.Exact && dying && dt < c.t {
			certain = true
		}
		err := m.cat.Err()
		seq := m.finish(c, m.errName(err))
		if err == tomb.ErrStillAlive {
			if certain || m.dyS > 0 && m.dyS < c.seq {
				r.Violate("C01 C03", "C03/err-alive", "Err returned ErrStillAlive although the catacomb is dying")
			}
		} else {
			if !m.possible(seq) {
				r.Violate("C01 C04", "C01/err-dying", "Err returned %v although nothing has stopped the catacomb", err)
			}
			if err != nil && !m.anyMatch(err, seq) {
				r.Violate("C03", "C03/err-foreign", "Err returned %v, which nobody passed on", err)
			}
		}
	case "errdying":
		c := m.begin("errdying")
		certain := m.certain(c.seq)
		err := m.cat.ErrDying()
		seq := m.finish(c, m.errName(err))
		alive := strings.Contains(errStr(err), "still alive")
		if err == nil || alive && certain {
			r.Violate("C03", "C03/errdying-alive", "ErrDying returned %v although the catacomb is dying", err)
		}
		if !alive && !m.possible(seq) {
			r.Violate("C03", "C03/errdying-dying", "ErrDying returned %v although nothing has stopped the catacomb", err)
		}
	case "ctx":
		m.doCtx(o)
	case "wkill":
		if len(m.ws) > 0 {
			m.ws[o.K%len(m.ws)].clientKill()
		}
	}
}

func (m *cModel) anyMatch(err error, seq int) bool {
	for _, c := range m.causes {
		if c.seq <= seq && c.matches(err) {
			return true
		}
	}
	return false
}

func (m *cModel) doAdd(b CW) {
	r := m.r
	w := m.newWorker(b)
	c := m.begin("add " + w.name())
	c.kind = "add"
	c.w = w
	certain := m.certain(c.seq)
	w.given(c.seq)
	err := m.cat.Add(w.worker())
	if err == nil {
		w.acc, w.accT = true, r.Now()
	} else {
		w.refuse()
	}
	seq := m.finish(c, m.errName(err))
	if err == nil {
		r.Probe("add-accepted")
		if r.Exact && r.Now() > c.t {
			r.Violate("C07", "C07/slow-add", "Add(%s) succeeded only at %v, called at %v", w.name(), r.Now(), c.t)
		}
		return
	}
	r.Probe("add-refused")
	if !certain && !m.possible(seq) {
		r.Violate("C02 C04", "C02/add-error-alive", "Add(%s) failed with %v although nothing has stopped the catacomb", w.name(), err)
	}
	if !w.ended {
		r.Violate("C02", "C02/add-error-running", "Add(%s) returned an error while the worker is still running", w.name())
		return
	}
	if w.err != nil {
		if errors.Is(err, w.err) || jerrors.Cause(err) == jerrors.Cause(w.err) || m.isOwn(w.err) && m.isOwn(err) {
			return
		}
	} else if m.isOwn(err) {
		return
	}
	r.Violate("C02", "C02/add-error-value", "Add(%s) failed with %v, the worker's error is %v", w.name(), err, errStr(w.err))
	_ = seq
}

// isOwn says whether err is this catacomb's ErrDying.
func (m *cModel) isOwn(err error) bool {
	return err != nil && errors.Is(err, m.cat.ErrDying())
}

func (m *cModel) doCtx(o COp) {
	r := m.r
	x := &cCtx{stop: make(chan struct{})}
	var parent context.Context
	switch o.Parent {
	case 0:
		parent = context.Background()
	case 2:
		var cancel func()
		parent, cancel = context.WithCancel(context.Background())
		if o.Cancel >= 0 {
			r.Fault("parent-cancelled")
			time.AfterFunc(ms(o.Cancel), func() {
				x.pSeq, x.pT = r.E("cancel parent"), r.Now()
				cancel()
			})
		}
	}
	c := m.begin("ctx")
	x.seq, x.t = c.seq, c.t
	x.ctx = m.cat.Context(parent)
	m.finish(c, "")
	m.ctxs = append(m.ctxs, x)
	go func() {
		select {
		case <-x.ctx.Done():
		case <-x.stop:
			return
		}
		seq := r.E("ctx %d done", x.seq)
		x.done, x.doneT = true, r.Now()
		if !m.possible(seq) && x.pSeq == 0 {
			r.Violate("C07", "C07/ctx-early", "a context was cancelled although nothing has stopped the catacomb")
		}
		if r.Exact {
			t, ok := m.certainT()
			if x.pSeq > 0 && (!ok || x.pT < t) {
				t, ok = x.pT, true
			}
			if ok && r.Now() > max(t, x.t) {
				r.Violate("C07", "C07/ctx-late", "a context was cancelled at %v instead of %v", r.Now(), max(t, x.t))
			}
		}
	}()
}

func (m *cModel) invoke(o COp) {
	r := m.r
	if o.Gap > 0 {
		time.Sleep(ms(o.Gap))
	} else {
		core.Yield()
	}
	p := &cPlanRec{n: len(m.plans), p: *o.Plan}
	m.plans = append(m.plans, p)
	plan := catacomb.Plan{Name: "sim", Site: m.cat, Work: func() error { return m.work(p) }}
	for _, b := range p.p.Init {
		w := m.newWorker(b)
		w.plan = p
		p.ws = append(p.ws, w)
		plan.Init = append(plan.Init, w.worker())
	}
	switch p.p.Bad {
	case "name":
		plan.Name = ""
	case "work":
		plan.Work = nil
	case "item":
		k := len(plan.Init) / 2
		plan.Init = append(plan.Init[:k:k], append([]worker.Worker{nil}, plan.Init[k:]...)...)
	}
	c := m.begin(fmt.Sprintf("invoke %d", p.n))
	c.kind = "invoke"
	p.callSeq, p.callT = c.seq, c.t
	for _, w := range p.ws {
		w.plan = p
		w.given(c.seq)
	}
	err := catacomb.Invoke(plan)
	for i := range plan.Init {
		plan.Init[i] = nil // the client may reuse its slice
	}
	p.ret, p.err, p.retT = true, err, r.Now()
	for _, w := range p.ws {
		if err != nil {
			w.refuse()
		} else {
			w.acc, w.accT = true, p.callT
		}
	}
	p.retSeq = m.finish(c, fmt.Sprint(err == nil))
	if err == nil {
		if p.p.Bad != "" {
			r.Violate("C05", "C05/bad-accepted", "an invalid plan (%s) was accepted", p.p.Bad)
		}
		if m.win != nil && m.win != p {
			r.Violate("C05", "C05/two", "two plans were accepted by one catacomb")
		}
		m.setWin(p)
		if r.Exact && r.Now() > c.t {
			r.Violate("C07", "C07/slow-invoke", "successful Invoke took until %v", r.Now())
		}
		return
	}
	r.Probe("invoke-refused")
	if p.p.Bad != "" {
		if !jerrors.Is(err, jerrors.NotValid) {
			// either reason will do if the catacomb is also used up
			used := false
			for _, q := range m.plans {
				if q != p && q.p.Bad == "" && q.callSeq < p.retSeq {
					used = true
				}
			}
			if !used {
				r.Violate("C05", "C05/bad-error", "an invalid plan was refused with %v", err)
			}
		}
	} else {
		// somebody else must have been first
		ok := false
		for _, q := range m.plans {
			if q != p && q.p.Bad == "" && q.callSeq < p.retSeq && !(q.ret && q.err != nil) {
				ok = true
			}
		}
		if !ok {
			r.Violate("C05", "C05/refused", "a valid plan for an unused catacomb was refused: %v", err)
		}
	}
	for _, w := range p.ws {
		if !w.ended || w.waits == 0 {
			r.Violate("C02 C05", "C02/invoke-error-running", "Invoke returned an error while %s is still running or was not waited for", w.name())
		}
	}
	if p.ran > 0 {
		r.Violate("C05", "C05/rejected-ran", "the work func of a rejected plan ran")
	}
}

func (m *cModel) setWin(p *cPlanRec) {
	if m.win == nil {
		m.win = p
		close(m.ready)
	}
}

func (m *cModel) work(p *cPlanRec) (err error) {
	r := m.r
	p.ran++
	seq := r.E("work %d runs", p.n)
	if p.ret && p.err != nil {
		r.Violate("C05", "C05/rejected-ran", "the work func of a rejected plan ran")
	}
	if p.ran > 1 {
		r.Violate("C05", "C05/ran-twice", "a work func ran twice")
	}
	for _, q := range m.plans {
		if q != p && q.ran > 0 {
			r.Violate("C05", "C05/two-ran", "work funcs of two plans ran")
		}
	}
	_ = seq
	m.setWin(p)
	for _, o := range p.p.Ops {
		m.do(o)
	}
	p.opsDone = true
	if p.p.RunFor >= 0 {
		t := time.NewTimer(ms(p.p.RunFor))
		select {
		case <-t.C:
		case <-m.cat.Dying():
			t.Stop()
		}
	} else {
		<-m.cat.Dying()
		if p.p.After > 0 {
			r.Fault("slow-work")
			time.Sleep(ms(p.p.After))
		}
	}
	class := p.p.Err
	if class == "nil" || class == "" {
		class = "nil"
	}
	if p.p.Panic != "" {
		r.Fault("work-panic")
		p.over, p.overSeq, p.overT = true, r.E("work %d panics", p.n), r.Now()
		text := ""
		var v any
		switch p.p.Panic {
		case "str":
			text = fmt.Sprintf("boom-%d", p.n)
			v = text
		case "err":
			e := &SimErr{Class: "boom", N: p.n}
			v, text = e, e.Error()
		case "own":
			// a panic with the catacomb's own ErrDying is still a panic
			v, text = m.cat.ErrDying(), "panic"
		case "nil":
			text = "panic"
		case "empty":
			v, text = "", "panic"
		case "zero":
			v, text = struct{}{}, "panic"
		case "tomb":
			v, text = tomb.ErrDying, "panic"
		case "canceled":
			v, text = jerrors.Annotatef(context.Canceled, "boom-%d", p.n), fmt.Sprintf("boom-%d", p.n)
		case "runtime":
			text = "nil pointer"
		}
		m.addCause(&cCause{what: "panic", res: "panic:" + text, seq: p.overSeq, t: p.overT, done: 0})
		if p.p.Panic == "runtime" {
			var w *cWorker
			w.n++
		}
		panic(v)
	}
	err = m.mkErr(class)
	p.over, p.overSeq, p.overT = true, r.E("work %d returns %s", p.n, class), r.Now()
	if class == "own" && m.isOwn(err) || class == "ownwrap" && m.isOwn(err) {
		// no further effect
	} else {
		m.addCause(m.mkCause("work result", class, err, p.overSeq))
	}
	return err
}

// ---- verdicts ----

func (m *cModel) settled(final bool) {
	r := m.r
	if !r.Exact && !final {
		return
	}
	dT, dying := m.certainT()
	for _, c := range m.calls {
		if c.ret {
			continue
		}
		switch {
		case c.kind == "add":
			if !c.w.ended && dying {
				if !c.w.killed {
					r.Violate("C02 C07", "C02/add-not-killed", "Add(%s) on a dying catacomb waits without having killed the worker", c.w.name())
				}
				continue
			}
			props := "C07"
			if !dying {
				props = "C07 C04"
			}
			r.Violate(props, "C07/hang-add", "Add(%s) does not return", c.w.name())
		case c.kind == "invoke":
			busy := false
			for _, p := range m.plans {
				if p.callSeq == c.seq {
					for _, w := range p.ws {
						busy = busy || !w.ended
					}
				}
			}
			if !busy {
				r.Violate("C07 C05", "C07/hang-invoke", "Invoke does not return")
			}
		default:
			r.Violate("C07", "C07/hang-"+strings.Fields(c.kind)[0], "%s does not return", c.kind)
		}
	}
	if m.win == nil {
		return
	}
	if r.Exact && m.win.ran == 0 || final && m.win.ran == 0 {
		r.Violate("C05", "C05/not-run", "Invoke has succeeded but the work func does not run")
	}
	if !dying {
		return
	}
	if m.dyS == 0 {
		r.Violate(m.with("C01"), "C01/not-dying", "Dying is still open although the catacomb should be dying since %v", dT)
	}
	for _, w := range m.ws {
		if w.acc && !w.ended && !w.killed {
			r.Violate(m.with("C01 C02"), "C01/not-killed", "%s is not killed although the catacomb is dying", w.name())
		}
	}
	for _, x := range m.ctxs {
		if !x.done {
			r.Violate("C07", "C07/ctx-open", "a context is not cancelled although the catacomb is dying")
		}
	}
	if m.idle() && (m.deS == 0 || m.waS == 0) {
		r.Violate(m.with("C01"), "C01/not-dead", "the catacomb is dying and everything has finished, but it is not dead")
	}
}

func (m *cModel) idle() bool {
	if !m.win.over {
		return false
	}
	for _, w := range m.ws {
		if w.acc && !w.ended {
			return false
		}
	}
	return true
}

func (m *cModel) dead(what string, seq int) {
	r := m.r
	if m.win == nil || !m.win.over {
		r.Violate("C01", "C01/work-running", "%s although the work func is still running", what)
	}
	for _, w := range m.ws {
		if w.acc && !w.ended {
			r.Violate("C01 C02 C06", "C01/worker-running", "%s although %s is still running", what, w.name())
		}
	}
}

// result judges the error from Wait.
func (m *cModel) result(err error) {
	r := m.r
	if m.isOwn(err) || err == tomb.ErrDying || err == tomb.ErrStillAlive {
		r.Violate("C03", "C03/dying-result", "Wait returned %v", m.errName(err))
		return
	}
	if errors.Is(err, m.other) {
		r.Violate("C03", "C03/other-result", "Wait returned another catacomb's ErrDying")
		return
	}
	var hit *cCause
	for _, c := range m.causes {
		if c.seq <= m.waS && c.matches(err) && (hit == nil || c.t < hit.t) {
			hit = c
		}
	}
	if err != nil && hit == nil {
		r.Violate("C03 C06", "C03/foreign", "Wait returned %v, which nobody passed on", err)
		return
	}
	if hit != nil && strings.HasPrefix(hit.res, "panic:") {
		r.Probe("panic-result")
		var st interface{ StackTrace() []string }
		var pk interface{ Panicked() bool }
		if !errors.As(err, &st) || !errors.As(err, &pk) || !pk.Panicked() || !strings.Contains(strings.Join(st.StackTrace(), "\n"), "goroutine") {
			r.Violate("C06", "C06/no-stack", "the panic error carries no stack: %v", err)
		}
	}
	for _, c := range m.causes {
		if c.res == "" || c == hit || c.seq > m.waS {
			continue
		}
		// did c certainly count?
		counts := false
		switch {
		case strings.HasPrefix(c.what, "error of"), c.what == "panic", c.what == "work result":
			counts = true
		case c.done > 0 && c.done < m.win.overSeq:
			counts = true
		}
		if !counts && c.done > 0 {
			for _, w := range m.ws {
				if w.acc && c.done < w.endSeq {
					counts = true
				}
			}
		}
		if !counts {
			continue
		}
		if hit == nil {
			props := "C03"
			if c.what == "panic" {
				props = "C03 C06"
			}
			r.Violate(props, "C03/lost", "Wait returned nil although %s happened (%v)", c.what, m.errName(c.err))
			continue
		}
		if c.matches(err) {
			continue
		}
		if c.done > 0 && c.done < hit.seq || r.Exact && c.t < hit.t {
			props := "C03"
			if strings.HasPrefix(hit.res, "panic:") {
				props = "C03 C06"
			}
			r.Violate(props, "C03/not-first", "Wait returned the error of %s (at %v) although %s came first (at %v)", hit.what, hit.t, c.what, c.t)
		}
	}
}

// Run executes a scenario.
func (CatFam) Run(x any, r *core.Run) {
	sc := x.(*CScenario)
	setScale(sc.Scale, sc.Stall, sc.Long)
	m := &cModel{r: r, sc: sc, cat: &catacomb.Catacomb{}, ready: make(chan struct{})}
	var oc catacomb.Catacomb
	hold := make(chan struct{})
	if err := catacomb.Invoke(catacomb.Plan{Name: "other", Site: &oc, Work: func() error {
		if sc.Other >= 2 {
			<-hold
		}
		return nil
	}}); err != nil {
		r.Violate("C05", "C05/other", "Invoke: %v", err)
		return
	}
	if sc.Other%2 == 1 {
		oc.Kill(m.em.make("elsewhere"))
	} else {
		oc.Kill(nil)
	}
	if sc.Other < 2 {
		oc.Wait()
	}
	m.other = oc.ErrDying()
	over := make(chan struct{})
	inv := 0
	for _, o := range sc.Invokes {
		go func() {
			m.invoke(o)
			inv++
		}()
	}
	go func() {
		select {
		case <-m.ready:
		case <-over:
			return
		}
		watch := func(ch <-chan struct{}, s *int, t *time.Duration, what string) {
			<-ch
			*s, *t = r.E("%s", what), r.Now()
			if what == "Dead" {
				m.dead(what, *s)
			} else if !m.possible(*s) {
				r.Violate("C01 C04", "C01/dying-early", "Dying is closed although nothing has stopped the catacomb")
			}
		}
		go watch(m.cat.Dying(), &m.dyS, &m.dyT, "Dying")
		go watch(m.cat.Dead(), &m.deS, &m.deT, "Dead")
		go func() {
			err := m.cat.Wait()
			m.waS, m.waT, m.waE = r.E("Wait returned %s", m.errName(err)), r.Now(), err
			m.dead("Wait returned", m.waS)
		}()
		m.live = len(sc.Clients)
		for _, ops := range sc.Clients {
			go func() {
				for _, o := range ops {
					m.do(o)
				}
				m.live--
			}()
		}
	}()
	for _, s := range sc.Steps {
		if s > 0 {
			time.Sleep(ms(s))
		}
		r.Settle()
		m.settled(false)
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	m.settled(true)
	close(hold)
	valid := 0
	for _, o := range sc.Invokes {
		if o.Plan.Bad == "" {
			valid++
		}
	}
	if m.win == nil {
		if valid > 0 && len(r.Viol) == 0 {
			r.Violate("C05", "C05/none", "no valid plan was accepted")
		}
		// the catacomb must still be usable
		close(over)
		if len(r.Viol) > 0 {
			return
		}
		ran := false
		err := catacomb.Invoke(catacomb.Plan{Name: "sim", Site: m.cat, Work: func() error { ran = true; <-m.cat.Dying(); return m.cat.ErrDying() }})
		time.Sleep(60 * time.Second)
		r.Settle()
		if err != nil || !ran {
			r.Violate("C05", "C05/used-up", "an invalid plan used up the catacomb: %v", err)
			return
		}
		m.cat.Kill(nil)
		if err := m.cat.Wait(); err != nil {
			r.Violate("C03", "C03/foreign", "Wait returned %v", err)
		}
		r.Settle()
		if n := r.Gs(); n != 0 {
			r.Violate("C07", "C07/leak", "%d goroutines left", n)
		}
		return
	}
	if !m.possible(r.Seq) && sc.Churn > 0 {
		m.churn(sc.Churn)
	}
	if !m.possible(r.Seq) {
		r.Probe("alive-at-end")
		m.do(COp{Kind: "kill", Err: core.Pick(core.NewRng(uint64(r.Seq)), "nil", "err")})
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	m.settled(true)
	if len(r.Viol) > 0 {
		return
	}
	if inv != len(sc.Invokes) || m.live != 0 {
		r.Violate("C07", "C07/client-hangs", "a client is still blocked after the catacomb is dead")
		return
	}
	// the whole history
	last := m.win.overT
	for _, w := range m.ws {
		if w.give > 0 && (!w.ended || w.waits == 0) {
			r.Violate("C02", "C02/abandoned", "%s was handed over but is not stopped and waited for (ended %v)", w.name(), w.ended)
		}
		if w.acc {
			last = max(last, w.endT)
		}
		if r.Exact && w.acc {
			t := max(m.dyT, w.giveT)
			if w.endT > t && !(w.killed && w.kT <= t) {
				r.Violate(m.with("C01 C02"), "C01/killed-late", "%s not killed at %v although the catacomb was dying (killed: %v at %v)", w.name(), t, w.killed, w.kT)
			}
		}
	}
	if r.Exact {
		dT, _ := m.certainT()
		if m.dyT != dT {
			props := m.with("C01")
			if m.dyT < dT {
				props = "C01 C04"
			}
			r.Violate(props, "C01/dying-time", "Dying was closed at %v, should have been %v", m.dyT, dT)
		}
		if want := max(last, m.dyT); m.deT != want || m.waT != want {
			r.Violate("C01", "C01/dead-time", "dead at %v (Wait %v), everything had finished at %v", m.deT, m.waT, want)
		}
	}
	m.result(m.waE)
	if len(r.Viol) > 0 {
		return
	}
	// after death
	late := m.em.make("late")
	m.cat.Kill(late)
	m.cat.Kill(nil)
	if err := m.cat.Wait(); err != m.waE {
		r.Violate("C03", "C03/late-error", "Wait returned %v, and %v after a late Kill", errStr(m.waE), m.errName(err))
	}
	if err := m.cat.Err(); err != m.waE {
		r.Violate("C03", "C03/late-err", "Err returned %v, Wait had returned %v", m.errName(err), errStr(m.waE))
	}
	if !m.isOwn(m.cat.ErrDying()) {
		r.Violate("C03", "C03/dead-errdying", "ErrDying of a dead catacomb is %v", m.cat.ErrDying())
	}
	w := m.newWorker(CW{RunFor: -1, StopErr: "nil"})
	w.given(r.Seq)
	if err := m.cat.Add(w); !m.isOwn(err) || !w.ended {
		r.Violate("C02", "C02/dead-add", "Add on a dead catacomb returned %v (worker stopped: %v)", m.errName(err), w.ended)
	}
	w2 := m.newWorker(CW{RunFor: -1, StopErr: "nil"})
	w2.plan = &cPlanRec{}
	if err := catacomb.Invoke(catacomb.Plan{Name: "again", Site: m.cat, Init: []worker.Worker{w2}, Work: func() error {
		r.Violate("C05", "C05/reuse", "a dead catacomb ran another plan")
		return nil
	}}); err == nil || !w2.ended {
		r.Violate("C05 C02", "C05/reuse", "Invoke on a dead catacomb returned %v (worker stopped: %v)", errStr(err), w2.ended)
	}
	select {
	case <-m.cat.Context(context.Background()).Done():
	default:
		r.Violate("C07", "C07/ctx-dead", "a dead catacomb hands out a live context")
	}
	r.Settle()
	if n := r.Gs(); n != 0 {
		r.Violate("C07", "C07/leak", "%d goroutines left after the catacomb is dead", n)
	}
}

// churn checks that finished workers leave nothing behind.
func (m *cModel) churn(n int) {
	r := m.r
	r.Probe("churn-probe")
	before := r.Gs()
	for i := 0; i < n; i++ {
		m.doAdd(CW{RunFor: core.Pick(core.NewRng(uint64(i+r.Seq)), 0, 1, -1), ExitErr: "nil", StopErr: "nil", Dead: false})
		w := m.ws[len(m.ws)-1]
		if w.b.RunFor < 0 {
			w.clientKill()
		}
	}
	time.Sleep(30 * time.Second)
	r.Settle()
	if m.possible(r.Seq) {
		return
	}
	if after := r.Gs(); after > before {
		r.Violate("C07 C04", "C07/worker-leak", "%d goroutines left by finished workers", after-before)
	}
}
