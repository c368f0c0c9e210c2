package fam

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"time"

	jerrors "github.com/juju/errors"
	worker "github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"

	"verif/sim/core"
)

func init() { core.Families["engine"] = EngFam{} }

// EngFam drives dependency.Engine.
type EngFam struct{}

func (EngFam) Name() string { return "engine" }

// EB is the behaviour of one start call and its worker.
type EB struct {
	StartDelay int    `json:"start_delay,omitempty"`
	StartMode  string `json:"start_mode,omitempty"` // "", fail, ctxfail, ctxok
	StartErr   string `json:"start_err,omitempty"`
	StartOp    *EOp   `json:"start_op,omitempty"`
	RunFor     int    `json:"run_for"` // <0: until killed
	ExitErr    string `json:"exit_err,omitempty"`
	RunOp      *EOp   `json:"run_op,omitempty"`
	StopDelay  int    `json:"stop_delay,omitempty"`
	StopErr    string `json:"stop_err,omitempty"`
}

// EM is a manifold.
type EM struct {
	Inputs []int `json:"inputs,omitempty"` // -1: the engine itself
	Output int   `json:"output"`           // 0 pointer, 1 none, 2 refuses
	Filter bool  `json:"filter,omitempty"`
	Strict bool  `json:"strict,omitempty"` // missing inputs make start fail
	Report bool  `json:"report,omitempty"`
	Extra  bool  `json:"extra,omitempty"` // its workers have more of the usual methods
	Beh    []EB  `json:"beh,omitempty"`
}

// EOp is a call.
type EOp struct {
	Kind   string `json:"kind"` // install report kill wkill self all
	Gap    int    `json:"gap,omitempty"`
	K      int    `json:"k,omitempty"`
	As     int    `json:"as,omitempty"`     // install under the name of another manifold (+1)
	Refuse int    `json:"refuse,omitempty"` // all: the installer itself refuses the nth manifold
}

// EScenario is a generated workload.
type EScenario struct {
	ErrorDelay  int     `json:"error_delay"`
	BounceDelay int     `json:"bounce_delay"`
	Factor      float64 `json:"factor"`
	Reset       int     `json:"reset"`
	Max         int     `json:"max"`
	Filter      int     `json:"filter"` // 0 none, 1 by class, 2 also nil
	Late        []int   `json:"late,omitempty"`
	Jump        []int   `json:"jump,omitempty"`
	Ms          []EM    `json:"manifolds"`
	Clients     [][]EOp `json:"clients"`
	Steps       []int   `json:"steps,omitempty"`
	Odd         bool    `json:"odd,omitempty"` // unusual names
	Probe       bool    `json:"probe"`
	End         string  `json:"end"` // kill or an error the first worker fails with
	Stall       bool    `json:"stall"`
	Scale       int     `json:"scale,omitempty"` // stretches all durations
	Long        bool    `json:"long,omitempty"`  // some durations take days
}

func (EngFam) Decode(b []byte) (any, error) {
	sc := &EScenario{}
	return sc, json.Unmarshal(b, sc)
}

func (EngFam) Stalls(sc any) bool { return sc.(*EScenario).Stall }

func (EngFam) Gen(r *core.Rng, prop string) any {
	sc := &EScenario{ErrorDelay: core.Pick(r, 0, 20, 20, 100, 3000), BounceDelay: core.Pick(r, 0, 0, 1, 10, 10, 50), Stall: r.P(15)}
	if r.P(40) || prop == "E06" && r.P(60) {
		sc.Factor = core.Pick(r, 1, 1.5, 2, 2, 3)
		sc.Reset = core.Pick(r, 0, 15, 30, 500)
		sc.Max = core.Pick(r, 0, 3500, 5000)
		if sc.ErrorDelay < 1000 && sc.Max > 0 {
			sc.Max = core.Pick(r, 110, 200, 500)
		}
	}
	sc.Filter = core.Pick(r, 0, 0, 1, 1, 2)
	if r.P(20) {
		for i := 0; i < 1+r.N(4); i++ {
			sc.Late = append(sc.Late, core.Pick(r, 0, 1, 7, 80))
		}
	}
	if r.P(10) {
		sc.Jump = []int{0, 5000, -3000}
	}
	d := max(sc.ErrorDelay, sc.BounceDelay)
	dur := func() int {
		return core.Pick(r, 0, 0, 1, 1, 2, 5, 10, sc.BounceDelay, sc.ErrorDelay, r.N(d+20), sc.Reset)
	}
	gap := func() int { return core.Pick(r, 0, 0, 0, 0, 1, 1, 2, 5, 10, sc.BounceDelay, d, r.N(2*d+20)) }
	dur, gap = rarely(r, &sc.Long, dur), rarely(r, &sc.Long, gap)
	fatalP := core.Pick(r, 0, 0, 2, 6)
	deco := habit(r)
	uninstP := core.Pick(r, 0, 3, 8)
	switch prop {
	case "E08", "E07":
		fatalP = core.Pick(r, 3, 8, 20)
	case "E10", "E09":
		uninstP = core.Pick(r, 8, 25)
	case "E06", "E03":
		fatalP, uninstP = 0, core.Pick(r, 0, 2)
	}
	ecls := func(start bool) string {
		k := r.N(100)
		switch {
		case k < fatalP:
			return deco(r, core.Pick(r, "fatal1", "fatal2", "fatal3", "domfatal"))
		case k < fatalP+uninstP:
			return core.Pick(r, "uninstall", "uninstall", "uninstallwrap", "domuninstall")
		}
		return deco(r, core.Pick(r, "nil", "nil", "err", "err", "err", "err", "bounce", "bounce", "bouncewrap", "bouncejoin", "missing", "missingwrap", "dombounce", "domnil", "tryagain"))
	}
	n := 1 + r.N(5)
	if r.P(10) {
		n = 5 + r.N(4)
	}
	dense := 45
	if crowd(r) {
		n = 10 + r.N(70)
		dense = core.Pick(r, 100, 200) / n
	}
	self := r.P(25)
	cyc := n < 10 && r.P(20) || prop == "E09" && r.P(60)
	var op func(depth int) EOp
	beh := func(depth int) EB {
		b := EB{RunFor: -1, ExitErr: "nil", StopErr: "nil"}
		if r.P(30) {
			b.StartDelay = dur()
		}
		switch k := r.N(100); {
		case k < 15:
			b.StartMode, b.StartErr = "fail", ecls(true)
			if b.StartErr == "nil" {
				b.StartErr = "err"
			}
		case k < 20:
			b.StartMode, b.StartErr = "ctxfail", core.Pick(r, "err", "missing", "bounce")
		case k < 25:
			b.StartMode = "ctxok"
		}
		if r.P(60) {
			b.RunFor, b.ExitErr = dur(), ecls(false)
		}
		if r.P(30) {
			b.StopDelay = dur()
		}
		if r.P(35) {
			b.StopErr = ecls(false)
		}
		if r.P(8) {
			o := op(1)
			if r.P(50) {
				b.StartOp = &o
			} else {
				b.RunOp = &o
			}
		}
		return b
	}
	op = func(depth int) EOp {
		o := EOp{Gap: gap(), K: r.N(n)}
		switch k := r.N(100); {
		case k < 45:
			o.Kind = "wkill"
		case k < 70:
			o.Kind = "install"
			if r.P(15) {
				o.As = 1 + r.N(n)
			} else if r.P(10) {
				o.Kind = "all"
			}
		case k < 92:
			o.Kind = "report"
		case k < 96:
			o.Kind = "kill"
		default:
			o.Kind = "self"
			if !self {
				o.Kind = "report"
			}
		}
		return o
	}
	for i := 0; i < n; i++ {
		m := EM{Output: core.Pick(r, 0, 0, 0, 0, 1, 2), Filter: r.P(30), Strict: r.P(45), Report: r.P(50), Extra: r.P(25)}
		for j := 0; j < n; j++ {
			if j < i && r.P(dense) || cyc && r.P(12) {
				m.Inputs = append(m.Inputs, j)
			}
		}
		if self && r.P(30) {
			m.Inputs = append(m.Inputs, -1)
		}
		for k, nb := 0, core.Pick(r, 0, 1, 1, 2, 2, 3, 5, 7); k < nb; k++ {
			m.Beh = append(m.Beh, beh(0))
		}
		sc.Ms = append(sc.Ms, m)
	}
	deepP := 2
	if prop == "E06" || prop == "E03" {
		deepP = 5
	}
	if r.P(deepP) {
		// one manifold that fails again and again
		sc.ErrorDelay, sc.Stall = core.Pick(r, 0, 20, 100), false
		nf := 7 + r.N(4)
		switch {
		case sc.Factor == 0:
			nf = 8 + r.N(40)
		case r.P(70):
			sc.Factor, sc.Max = core.Pick(r, 1.5, 2, 3, 3), core.Pick(r, 110, 200, 500)
			nf = 20 + r.N(60)
		}
		if r.P(8) && (sc.Factor == 0 || sc.Max > 0) {
			nf += r.N(200)
		}
		m := &sc.Ms[r.N(n)]
		m.Beh = nil
		kind := r.N(3)
		for i := 0; i < nf; i++ {
			b := EB{RunFor: core.Pick(r, 0, 1, 5), ExitErr: "err", StopErr: "nil"}
			if kind == 0 || kind == 1 && r.P(40) {
				b.StartMode, b.StartErr = "fail", "err"
			}
			m.Beh = append(m.Beh, b)
		}
	}
	var first []EOp
	if self {
		first = append(first, EOp{Kind: "self"})
	}
	if r.P(20) {
		first = append(first, EOp{Kind: "all"})
		if r.P(15) {
			first[len(first)-1].Refuse = 1 + r.N(n)
			first = append(first, EOp{Kind: "all", Gap: gap()})
		}
	} else {
		ord := make([]int, n)
		for i := range ord {
			ord[i] = i
		}
		if r.P(60) {
			for i := range ord {
				j := i + r.N(n-i)
				ord[i], ord[j] = ord[j], ord[i]
			}
		}
		for _, k := range ord {
			g := 0
			if r.P(25) {
				g = gap()
			}
			first = append(first, EOp{Kind: "install", K: k, Gap: g})
		}
	}
	sc.Clients = append(sc.Clients, first)
	for c, nc := 0, r.N(4); c < nc; c++ {
		var ops []EOp
		k := 1 + r.N(5)
		if crowd(r) {
			k += r.N(60)
		}
		for i := 0; i < k; i++ {
			ops = append(ops, op(0))
		}
		sc.Clients = append(sc.Clients, ops)
	}
	for i, k := 0, r.N(8); i < k; i++ {
		sc.Steps = append(sc.Steps, gap())
	}
	sc.Odd = r.P(15)
	sc.Probe = r.P(50)
	if prop == "E11" {
		sc.Probe = r.P(90)
	}
	sc.End = core.Pick(r, "kill", "kill", "kill", "fatal2")
	if !sc.Long {
		sc.Scale = pickScale(r)
	}
	return sc
}

func (EngFam) Shrinks(x any) []any {
	sc := x.(*EScenario)
	var out []any
	add := func(f func(*EScenario) bool) {
		b, _ := json.Marshal(sc)
		c := &EScenario{}
		json.Unmarshal(b, c)
		if f(c) {
			out = append(out, c)
		}
	}
	for i := range sc.Clients {
		add(func(c *EScenario) bool {
			c.Clients = append(c.Clients[:i], c.Clients[i+1:]...)
			return len(c.Clients) > 0
		})
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			add(func(c *EScenario) bool { c.Clients[i] = append(c.Clients[i][:j], c.Clients[i][j+1:]...); return true })
		}
	}
	for i := range sc.Ms {
		add(func(c *EScenario) bool { ok := len(c.Ms[i].Beh) > 0; c.Ms[i].Beh = nil; return ok })
		for j := range sc.Ms[i].Inputs {
			add(func(c *EScenario) bool {
				c.Ms[i].Inputs = append(c.Ms[i].Inputs[:j], c.Ms[i].Inputs[j+1:]...)
				return true
			})
		}
	}
	add(func(c *EScenario) bool { ok := len(c.Steps) > 0; c.Steps = nil; return ok })
	add(func(c *EScenario) bool { ok := c.Odd; c.Odd = false; return ok })
	add(func(c *EScenario) bool { ok := c.Probe; c.Probe = false; return ok })
	add(func(c *EScenario) bool { ok := c.Filter > 0; c.Filter = 0; return ok })
	add(func(c *EScenario) bool { ok := c.Late != nil || c.Jump != nil; c.Late, c.Jump = nil, nil; return ok })
	add(func(c *EScenario) bool { ok := c.Factor > 0; c.Factor, c.Reset, c.Max = 0, 0, 0; return ok })
	add(func(c *EScenario) bool { ok := c.End != "kill"; c.End = "kill"; return ok })
	for i := range sc.Ms {
		for j := range sc.Ms[i].Beh {
			add(func(c *EScenario) bool {
				m := &c.Ms[i]
				m.Beh = append(m.Beh[:j], m.Beh[j+1:]...)
				return true
			})
		}
	}
	for i := range sc.Ms {
		add(func(c *EScenario) bool { ok := c.Ms[i].Filter; c.Ms[i].Filter = false; return ok })
		add(func(c *EScenario) bool { ok := c.Ms[i].Strict; c.Ms[i].Strict = false; return ok })
		add(func(c *EScenario) bool { ok := c.Ms[i].Output > 0; c.Ms[i].Output = 0; return ok })
		for j, b := range sc.Ms[i].Beh {
			p := func(c *EScenario) *EB { return &c.Ms[i].Beh[j] }
			if b.StartOp != nil || b.RunOp != nil {
				add(func(c *EScenario) bool { p(c).StartOp, p(c).RunOp = nil, nil; return true })
			}
			if b.StartDelay > 0 {
				add(func(c *EScenario) bool { p(c).StartDelay = 0; return true })
			}
			if b.StopDelay > 0 {
				add(func(c *EScenario) bool { p(c).StopDelay = 0; return true })
			}
			if b.StartMode != "" {
				add(func(c *EScenario) bool { p(c).StartMode = ""; return true })
			}
			if b.StopErr != "nil" {
				add(func(c *EScenario) bool { p(c).StopErr = "nil"; return true })
			}
			if b.RunFor >= 0 {
				add(func(c *EScenario) bool { p(c).RunFor = -1; return true })
			}
			if b.RunFor > 0 {
				add(func(c *EScenario) bool { p(c).RunFor = 0; return true })
			}
		}
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			if sc.Clients[i][j].Gap > 0 {
				add(func(c *EScenario) bool { c.Clients[i][j].Gap = 0; return true })
			}
		}
	}
	add(func(c *EScenario) bool { ok := c.Scale > 0; c.Scale = 0; return ok })
	return out
}

// ---- model ----

type eInstall struct {
	name    string
	spec    EM
	inputs  []string
	callSeq int
	callT   time.Duration
	ret     bool
	retSeq  int
	retT    time.Duration
	err     error
	acts    []*eAct
	gone    bool // ended with ErrUninstall on its own
	goneSeq int
	goneT   time.Duration
	maybe   bool // may have been uninstalled
	starts  int  // RecordStart calls
	nlo     int  // bounds of the engine's count of consecutive failures
	nhi     int
	self    bool
}

type eChange struct {
	a *eAct // counts only if taken into service
	t time.Duration
}

// eAct is one start call and the worker it yields.
type eAct struct {
	lf       life
	m        *eModel
	in       *eInstall
	n        int
	b        EB
	low      time.Duration // when this start was requested, at the earliest
	enterSeq int
	enterT   time.Duration
	ctx      context.Context
	seen     map[string]*eAct
	exited   bool
	exitSeq  int
	exitT    time.Duration
	ok       bool
	acc      bool
	accSeq   int
	accT     time.Duration
	killed   bool
	kSeq     int
	kT       time.Duration
	ckill    bool
	signal   bool
	killc    chan struct{}
	done     chan struct{}
	ended    bool
	endSeq   int
	endT     time.Duration
	raw, err error // before and after the manifold's filter
	waits    int
}

func (a *eAct) name() string { return fmt.Sprintf("%s.%d", a.in.name, a.n) }

type eModel struct {
	r       *core.Run
	sc      *EScenario
	eng     *dependency.Engine
	em      errMaker
	ins     []*eInstall // in order of call
	busy    map[string]*eAct
	lastEnd map[string]time.Duration
	changes map[string][]eChange
	serving map[string]*eAct // last worker taken into service
	pending []*eCall
	ended   []*eAct
	killS   int
	killT   time.Duration
	killR   int
	fatS    int
	fatT    time.Duration
	fatals  []error
	waitS   int
	waitT   time.Duration
	waitE   error
	live    int
	late    time.Duration
	uninst  bool
	selfIn  *eInstall
}

type eCall struct {
	kind string
	seq  int
	t    time.Duration
	ret  bool
}

func (m *eModel) dyingPossible(seq int) bool {
	return m.killS > 0 && m.killS <= seq || m.fatS > 0 && m.fatS <= seq
}

func (m *eModel) dyingT() (time.Duration, bool) {
	t, ok := time.Duration(0), false
	if m.killR > 0 {
		t, ok = m.killT, true
	}
	if m.fatS > 0 && (!ok || m.fatT < t) {
		t, ok = m.fatT, true
	}
	return t, ok
}

func (m *eModel) slack() time.Duration {
	if m.r.Exact {
		return 0
	}
	return time.Minute
}

// unsure: the engine may have met something else before it learnt that name, or
// a manifold with the input name, wants to be uninstalled.
func (m *eModel) unsure(input string) {
	for _, in := range m.ins {
		if !in.gone || m.r.Now() > in.goneT+m.slack() {
			continue
		}
		hit := input == ""
		for _, i := range in.inputs {
			hit = hit || i == input
		}
		if hit {
			in.gone, in.maybe = false, true
		}
	}
}

func (m *eModel) change(name string, a *eAct) {
	m.unsure(name)
	m.changes[name] = append(core.Get(m.changes, name), eChange{a, m.r.Now()})
}

// real: a worker the engine never took into service does not count.
func (m *eModel) real(c eChange) bool {
	return c.a.acc || !m.r.Exact || c.t == m.r.Now()
}

// changedIn: the engine may have learnt of a change of some input between the
// two instants. Nothing is assumed about the order in which it learns of things
// that happen at the same instant, nor, in runs with stalls, within a minute.
func (m *eModel) changedIn(in *eInstall, lo, hi time.Duration) bool {
	for _, i := range in.inputs {
		for _, c := range core.Get(m.changes, i) {
			if c.t >= lo-m.slack() && c.t <= hi && m.real(c) {
				return true
			}
		}
	}
	return false
}

// current is the worker in service for name.
func (m *eModel) current(name string) *eAct {
	if a := core.Get(m.serving, name); a != nil && !a.ended {
		return a
	}
	return nil
}

func (m *eModel) isFatal(err error) bool {
	c := classOf(err)
	return strings.HasPrefix(c, "fatal")
}

func (m *eModel) mkErr(class string) error {
	switch class {
	case "bounce":
		return dependency.ErrBounce
	case "bouncewrap":
		return jerrors.Annotate(dependency.ErrBounce, "wrapped")
	case "bouncejoin":
		return errors.Join(&SimErr{Class: "err"}, dependency.ErrBounce)
	case "missing":
		return dependency.ErrMissing
	case "missingwrap":
		return jerrors.Annotate(dependency.ErrMissing, "wrapped")
	case "uninstall":
		return dependency.ErrUninstall
	case "uninstallwrap":
		return jerrors.Annotate(dependency.ErrUninstall, "wrapped")
	case "tryagain":
		return jerrors.New("try again")
	}
	return m.em.make(class)
}

func (m *eModel) filter(err error) error {
	core.Yield()
	switch classOf(err) {
	case "dombounce":
		return dependency.ErrBounce
	case "domuninstall":
		return dependency.ErrUninstall
	case "domfatal":
		var s *SimErr
		errors.As(err, &s)
		return &SimErr{Class: "fatal2", N: s.N}
	case "domnil":
		return nil
	}
	return err
}

func (in *eInstall) filtered(m *eModel, err error) error {
	if in.spec.Filter {
		return m.filter(err)
	}
	return err
}

// kind of a filtered error, as the engine has to interpret it.
func eKind(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, dependency.ErrMissing):
		return "missing"
	case errors.Is(err, dependency.ErrBounce):
		return "bounce"
	case errors.Is(err, dependency.ErrUninstall):
		return "uninstall"
	}
	return "error"
}

// eOdd makes the current run use unusual names.
var eOdd bool

func eName(k int) string {
	if k < 0 {
		return "self"
	}
	return nameOf("m", eOdd, k)
}

// ---- start functions and workers ----

type eOut struct{ a *eAct }

var errRefused = errors.New("output refuses")

func (m *eModel) manifold(in *eInstall) dependency.Manifold {
	mf := dependency.Manifold{Inputs: append([]string(nil), in.inputs...)}
	mf.Start = func(ctx context.Context, g dependency.Getter) (worker.Worker, error) { return m.start(in, ctx, g) }
	if in.spec.Filter {
		mf.Filter = m.filter
	}
	switch in.spec.Output {
	case 0:
		mf.Output = func(w worker.Worker, out interface{}) error {
			core.Yield()
			o, ok := out.(*eOut)
			if !ok {
				return errors.New("bad output type")
			}
			a, ok := actOf(w)
			if !ok {
				return errors.New("bad input worker")
			}
			o.a = a
			return nil
		}
	case 2:
		mf.Output = func(w worker.Worker, out interface{}) error {
			a, _ := actOf(w)
			if o, ok := out.(*eOut); ok {
				o.a = a // so that the harness knows
			}
			return errRefused
		}
	}
	return mf
}

func (a *eAct) life() *life           { return &a.lf }
func (a *eAct) gone() <-chan struct{} { return a.done }
func (a *eAct) result() error         { return a.err }

type eReporter struct{ *eAct }

func (a eReporter) Report() map[string]interface{} {
	core.Yield()
	return map[string]interface{}{"instance": a.name()}
}

func actOf(w worker.Worker) (*eAct, bool) {
	switch w := bare(w).(type) {
	case *eAct:
		return w, true
	case eReporter:
		return w.eAct, true
	}
	return nil, false
}

// look calls Get for one input and returns the worker seen.
func (m *eModel) look(in *eInstall, g dependency.Getter, name string) (*eAct, error, string) {
	r := m.r
	if name == "self" {
		var inst dependency.Installer
		err := g.Get(name, &inst)
		if err == nil {
			if inst != dependency.Installer(m.eng) {
				r.Violate("E05", "E05/self", "the self manifold gave %v", inst)
			}
			for _, i := range m.ins {
				if i.self && len(i.acts) > 0 {
					return i.acts[len(i.acts)-1], nil, ""
				}
			}
		}
		return nil, err, ""
	}
	var o eOut
	err := g.Get(name, &o)
	err2 := g.Get(name, nil)
	miss := errors.Is(err2, dependency.ErrMissing)
	switch {
	case err == nil:
		if o.a == nil || o.a.in.name != name || miss {
			r.Violate("E05", "E05/wrong-worker", "Get(%s) succeeded with the wrong worker", name)
		}
	case errors.Is(err, errRefused):
		if miss || o.a == nil || o.a.in.name != name {
			r.Violate("E05", "E05/inconsistent", "Get(%s): %v, existence check: %v", name, err, err2)
		}
		return o.a, nil, "refused"
	case errors.Is(err, dependency.ErrMissing):
		if err2 == nil {
			// no Output function: only existence is known
			return nil, nil, "exists"
		}
		if !miss {
			r.Violate("E05", "E05/inconsistent", "Get(%s): %v, existence check: %v", name, err, err2)
		}
		return nil, err, ""
	default:
		r.Violate("E05", "E05/odd-error", "Get(%s) returned %v", name, err)
	}
	return o.a, err, ""
}

func (m *eModel) start(in *eInstall, ctx context.Context, g dependency.Getter) (worker.Worker, error) {
	r := m.r
	a := &eAct{m: m, in: in, n: len(in.acts), ctx: ctx, lf: newLife(), killc: make(chan struct{}), done: make(chan struct{}), seen: map[string]*eAct{}, b: EB{RunFor: -1, ExitErr: "nil", StopErr: "nil"}}
	if a.n < len(in.spec.Beh) {
		a.b = in.spec.Beh[a.n]
	}
	a.enterSeq = r.E("start %s", a.name())
	a.enterT = r.Now()
	a.low = max(core.Get(m.lastEnd, in.name), in.callT)
	if p := core.Get(m.busy, in.name); p != nil && !p.ended {
		r.Violate("E01", "E01/two", "start called for %s while %s has not finished", a.name(), p.name())
	}
	if in.ret && in.err != nil {
		r.Violate("E09", "E09/rejected-started", "start called for a rejected manifold %s", in.name)
	}
	if in.gone {
		r.Violate("E10", "E10/restarted", "start called for %s, which has been uninstalled", in.name)
	}
	if r.Exact && m.dyingPossible(a.enterSeq) {
		if t, ok := m.dyingT(); ok && t < a.enterT {
			r.Violate("E07", "E07/start-while-dying", "start called for %s at %v although the engine is shutting down since %v", a.name(), a.enterT, t)
		}
	}
	in.maybe = false
	m.startCause(in, a)
	prev := core.Get(m.busy, in.name)
	_ = prev
	m.busy[in.name] = a
	in.acts = append(in.acts, a)
	// look at every input
	res := map[string]string{}
	var missing error
	for _, i := range in.inputs {
		x, err, how := m.look(in, g, i)
		if err != nil && missing == nil {
			missing = err
		}
		if how == "exists" {
			// identify it by the model: there is only one candidate
			x = m.noOutput(a, i)
		}
		a.seen[i] = x
		res[i] = fmt.Sprint(x != nil, err != nil, how)
		if x != nil {
			if !x.exited || !x.ok {
				r.Violate("E05", "E05/not-started", "%s saw %s, which has not been started", a.name(), x.name())
			}
			if r.Exact && x.ended && x.endT < a.enterT {
				r.Violate(m.with("E05 E02 E12", in.name), "E05/dead-input", "%s saw %s, which ended at %v", a.name(), x.name(), x.endT)
			}
		}
		if c := m.current(i); r.Exact && c != nil && c.accT < a.enterT && c != x {
			r.Violate(m.with("E05 E02 E12", in.name), "E05/not-seen", "%s did not see %s, in service since %v", a.name(), c.name(), c.accT)
		}
	}
	undeclared := []string{"nosuch", in.name}
	for _, o := range m.ins {
		undeclared = append(undeclared, o.name)
	}
	for _, u := range undeclared {
		if slices.Contains(in.inputs, u) {
			continue
		}
		for _, out := range []interface{}{nil, &eOut{}} {
			if err := g.Get(u, out); !errors.Is(err, dependency.ErrMissing) {
				r.Violate("E05", "E05/undeclared", "Get(%s), not declared by %s, returned %v", u, in.name, err)
			}
		}
	}
	if a.b.StartOp != nil {
		r.Fault("call-from-start")
		m.do(*a.b.StartOp)
	}
	if a.b.StartDelay > 0 {
		r.Fault("slow-start")
		time.Sleep(ms(a.b.StartDelay))
	} else {
		core.Yield()
	}
	fail := a.b.StartMode == "fail"
	if strings.HasPrefix(a.b.StartMode, "ctx") {
		r.Fault("start-blocks-on-ctx")
		w0 := r.Now()
		<-ctx.Done()
		m.ctxCause(a, w0)
		fail = a.b.StartMode == "ctxfail"
	} else if ctx.Err() != nil {
		r.Probe("start-cancelled")
		m.ctxCause(a, r.Now())
	}
	// answers stay the same
	for _, i := range in.inputs {
		x, err, how := m.look(in, g, i)
		if how == "exists" {
			x = core.Get(a.seen, i)
		}
		if core.Get(res, i) != fmt.Sprint(x != nil, err != nil, how) || x != core.Get(a.seen, i) {
			r.Violate("E05", "E05/changed", "the answer for %s changed during the start call of %s", i, a.name())
		}
	}
	a.exitSeq, a.exitT = r.Seq, r.Now()
	if in.spec.Strict && missing != nil && !fail {
		r.Fault("start-missing")
		a.exited = true
		m.end(a, missing, "start")
		return nil, missing
	}
	if fail {
		r.Fault("start-fails")
		err := m.mkErr(a.b.StartErr)
		a.exited = true
		m.end(a, err, "start")
		return nil, err
	}
	a.exitSeq = r.E("started %s", a.name())
	a.exitT = r.Now()
	a.exited, a.ok = true, true
	m.change(in.name, a)
	go a.run(g)
	if in.spec.Extra && in.spec.Report {
		return xReporter{xDeader{xWorker{a}}, eReporter{a}}, nil
	} else if in.spec.Extra {
		return xDeader{xWorker{a}}, nil
	}
	if in.spec.Report {
		return eReporter{a}, nil
	}
	return a, nil
}

// noOutput finds the worker behind an existence check.
func (m *eModel) noOutput(a *eAct, name string) *eAct {
	x := core.Get(m.serving, name)
	if b := core.Get(m.busy, name); b != nil && b.exited && b.ok && !b.acc && (x == nil || x.ended) {
		return b // in service already, but not yet recorded
	}
	if x != nil {
		return x
	}
	m.r.Violate("E05", "E05/phantom", "%s sees input %s, which has never been in service", a.name(), name)
	return nil
}

// ctxCause checks that a cancelled start context has a reason, and is prompt.
func (m *eModel) ctxCause(a *eAct, w0 time.Duration) {
	r := m.r
	if !m.dyingPossible(r.Seq) && !m.changedIn(a.in, a.low, r.Now()) {
		r.Violate("E12", "E12/cancelled", "the start context of %s was cancelled without reason", a.name())
	}
	if r.Exact && !m.dyingPossible(r.Seq) && !m.changedIn(a.in, a.enterT, r.Now()) {
		r.Violate("E12", "E12/cancelled", "the start context of %s was cancelled although no input changed since %v", a.name(), a.enterT)
	}
}

func (a *eAct) run(g dependency.Getter) {
	m, r := a.m, a.m.r
	if a.b.RunOp != nil {
		r.Fault("call-from-worker")
		m.do(*a.b.RunOp)
	}
	class := a.b.ExitErr
	natural := true
	if a.b.RunFor >= 0 {
		t := time.NewTimer(ms(a.b.RunFor))
		select {
		case <-t.C:
		case <-a.killc:
			t.Stop()
			natural = false
		}
	} else {
		<-a.killc
		natural = false
	}
	if r.Exact && r.Now() > a.exitT && a.in.inputs != nil {
		if err := g.Get(a.in.inputs[0], nil); err == nil {
			r.Violate("E05", "E05/not-expired", "Get of %s still works after the start call returned", a.name())
		}
	}
	if !natural {
		class = a.b.StopErr
		if a.b.StopDelay > 0 {
			r.Fault("slow-stop")
			time.Sleep(ms(a.b.StopDelay))
		}
	}
	if class != "nil" {
		r.Fault("worker-error-" + class)
	} else if natural {
		r.Fault("worker-exit-clean")
	}
	m.end(a, m.mkErr(class), "worker")
	a.lf.end()
	close(a.done)
}

// end records that the activity is over.
func (m *eModel) end(a *eAct, err error, what string) {
	r := m.r
	ferr := a.in.filtered(m, err)
	a.raw, a.err = err, ferr
	a.endSeq = r.E("end %s %s: %s", what, a.name(), errStr(err))
	a.endT = r.Now()
	a.ended = true
	m.ended = append(m.ended, a)
	m.lastEnd[a.in.name] = a.endT
	if a.ok {
		m.change(a.in.name, a)
	}
	if m.isFatal(ferr) {
		m.fatals = append(m.fatals, ferr)
		if m.fatS == 0 {
			m.fatS, m.fatT = a.endSeq, a.endT
		}
		m.unsure("")
	}
	if eKind(ferr) == "uninstall" && m.dyingPossible(a.endSeq) {
		a.in.maybe = true
	} else if eKind(ferr) == "uninstall" {
		m.uninst = true
		in := a.in
		changed := m.changedIn(in, a.low, r.Now())
		if r.Exact {
			changed = m.changedIn(in, a.endT, a.endT) || !a.ok && m.changedIn(in, a.enterT, a.endT)
		}
		if a.killed || changed || a.ok && !a.acc {
			in.maybe = true
		} else {
			in.gone, in.goneSeq, in.goneT = true, a.endSeq, a.endT
		}
	}
	// the engine's count of consecutive failures
	in := a.in
	switch k := eKind(err); {
	case k == "nil":
		in.nlo, in.nhi = 0, 0
	case k == "missing":
		in.nlo, in.nhi = 0, 1
	case a.acc && r.Exact && a.endT-a.accT >= ms(m.sc.Reset):
		in.nlo, in.nhi = 1, 1
	case a.ok && !a.acc && m.sc.Reset == 0: // may still be taken into service
		in.nlo = 1
		in.nhi++
	default:
		in.nlo++
		in.nhi++
	}
}

// with adds E09 if an install (of that name) has been refused and, without a
// name, E10 if a manifold has been uninstalled.
func (m *eModel) with(props, name string) string {
	for _, in := range m.ins {
		if in.ret && in.err != nil && (name == "" || in.name == name) {
			props += " E09"
			break
		}
	}
	if name == "" && m.uninst {
		props += " E10"
	}
	return props
}

func (a *eAct) Kill() {
	m, r := a.m, a.m.r
	if !a.killed {
		a.killed = true
		a.kSeq, a.kT = r.E("kill %s", a.name()), r.Now()
		if !a.ended {
			if !m.dyingPossible(a.kSeq) {
				if !m.changedIn(a.in, a.low, r.Now()) {
					r.Violate(m.with("E04", a.in.name), "E04/killed", "%s was killed although none of its inputs changed", a.name())
				} else if r.Exact && !m.changedIn(a.in, a.kT, a.kT) && !(a.kT == a.exitT && m.changedIn(a.in, a.enterT, a.exitT)) {
					r.Violate(m.with("E04", a.in.name), "E04/killed", "%s was killed at %v, when none of its inputs changed", a.name(), a.kT)
				}
			}
		} else if a.in.gone && a.in.goneSeq == a.endSeq {
			// the engine decided to stop it before it learnt of the end
			a.in.gone, a.in.maybe = false, true
		}
		a.wake()
	}
	core.Yield()
}

func (a *eAct) wake() {
	if !a.signal {
		a.signal = true
		close(a.killc)
		a.lf.end()
	}
}

func (a *eAct) Wait() error {
	a.waits++
	<-a.done
	return a.raw
}

// RecordStart is the Metrics seam.
func (m *eModel) RecordStart(name string) {
	r := m.r
	r.E("record start %s", name)
	a := core.Get(m.busy, name)
	if a == nil || !a.ok || a.acc {
		r.Violate("E11", "E11/record", "RecordStart(%s) without a new worker", name)
		return
	}
	a.acc = true
	m.serving[name] = a
	a.accSeq, a.accT = r.Seq, r.Now()
	a.in.starts++
	m.change(name, a)
	core.Yield()
}

// startCause judges whether, and when, a start call may happen.
func (m *eModel) startCause(in *eInstall, a *eAct) {
	r := m.r
	var prev *eAct
	if len(in.acts) > 0 {
		prev = in.acts[len(in.acts)-1]
	}
	if prev != nil && !prev.ended {
		return // E01 already
	}
	errD, bouD := ms(m.sc.ErrorDelay), ms(m.sc.BounceDelay)
	late := m.late
	s := a.enterT
	tol := time.Millisecond
	if prev == nil {
		if !r.Exact || m.changedIn(in, in.callT, s) {
			in.nhi = 1 // an abandoned start may count as a failure
			return
		}
		if s != in.callT {
			r.Violate("E06 E09", "E06/first", "%s was installed at %v but first started at %v", in.name, in.callT, s)
		}
		return
	}
	k := eKind(prev.err)
	te := prev.endT
	changed := m.changedIn(in, prev.low, s) // could have seen the engine stop it
	if r.Exact {
		changed = m.changedIn(in, te, s) || prev.killed || !prev.ok && m.changedIn(in, prev.enterT, te) || prev.ok && !prev.acc
	}
	if (k == "nil" || k == "missing") && !changed && !prev.killed {
		r.Violate(m.with("E04", in.name), "E04/started", "%s was started again although its last run ended with %s and its inputs did not change", in.name, errStr(prev.err))
		return
	}
	if k == "uninstall" && !changed && !prev.killed {
		r.Violate("E10 E04", "E10/restarted", "%s was started again after ErrUninstall", in.name)
		return
	}
	if m.dyingPossible(r.Seq) {
		return
	}
	// lower bound: valid in every run
	lo := bouD
	if k == "error" && !prev.killed {
		if !changed {
			lo = errD
		} else {
			lo = min(errD, bouD)
		}
	}
	if m.sc.Max > 0 && m.sc.Factor > 0 && lo > ms(m.sc.Max) {
		lo = ms(m.sc.Max)
	}
	if s-te < time.Duration(float64(lo)*0.9)-tol {
		r.Violate("E06", "E06/early", "%s ended with %s at %v and was started again at %v, delay should be at least %v", in.name, errStr(prev.err), te, s, lo)
	}
	if !r.Exact {
		return
	}
	// the last trigger: up to now, and before this instant
	last := func(hi time.Duration) time.Duration {
		tl := te
		for _, i := range in.inputs {
			for _, c := range core.Get(m.changes, i) {
				if c.t > tl && c.t <= hi && m.real(c) {
					tl = c.t
				}
			}
		}
		return tl
	}
	at := m.changedIn(in, te, te)
	span := func(base time.Duration, nlo, nhi int) (time.Duration, time.Duration) {
		if base <= 0 {
			return 0, 0
		}
		f := func(n int) float64 {
			d := float64(base)
			if m.sc.Factor > 0 {
				d *= math.Pow(m.sc.Factor, float64(max(n, 1)-1))
				if m.sc.Max > 0 && d > float64(ms(m.sc.Max)) {
					d = float64(ms(m.sc.Max))
				}
			}
			return min(d, 8e18)
		}
		if len(m.sc.Jump) > 0 {
			nlo, nhi = 1, nhi+20
		}
		return time.Duration(f(nlo)*0.9) - tol, time.Duration(f(nhi)*1.1) + tol + late
	}
	nlo, nhi := in.nlo, in.nhi
	ok := false
	var tl time.Duration
	newlo, newhi := nlo, nhi
	try := func(base time.Duration, nlo, nhi int) {
		lo, hi := span(base, nlo, nhi)
		if s-tl >= lo && s-tl <= hi {
			ok = true
		}
	}
	judge := func() {
		switch {
		case tl > te:
			// an input changed after the last end: the start is a bounce, and
			// any pending start was abandoned
			try(bouD, 0, max(1, nhi))
			newlo = 0
			if bouD == 0 {
				newhi = max(1, newhi)
			}
		case k == "bounce" || prev.killed:
			try(bouD, nlo, nhi)
			if at {
				try(bouD, 0, max(1, nhi))
				newlo = 0
			}
		case k == "error" && !changed:
			try(errD, nlo, nhi)
		default:
			try(bouD, 0, max(1, nhi))
			if k == "error" {
				try(errD, nlo, nhi)
			}
			newlo = 0
		}
	}
	tl = last(s - 1)
	if tl > te && bouD > 0 && (k == "error" || k == "bounce" || prev.killed) {
		newlo, newhi = 0, 1
	}
	judge()
	if t := last(s); t > tl {
		tl = t
		judge()
	}
	in.nlo, in.nhi = newlo, newhi
	if in.nhi == 0 && changed {
		in.nhi = 1
	}
	if !ok {
		props := "E06"
		if s-tl > 0 {
			props = "E06 E03"
		}
		if tl > te && s > tl {
			props += " E12" // the pending start was not abandoned in time
		}
		r.Violate(props, "E06/delay", "%s: last end %v (%s, killed %v), last input change %v, started at %v: not a documented delay (failures %d..%d)", in.name, te, errStr(prev.err), prev.killed, tl, s, nlo, nhi)
	}
}

// ---- operations ----

func (m *eModel) begin(kind string) *eCall {
	m.r.Ops++
	c := &eCall{kind: kind, seq: m.r.E("call %s", kind), t: m.r.Now()}
	m.pending = append(m.pending, c)
	return c
}

func (m *eModel) finish(c *eCall, res string) int {
	c.ret = true
	seq := m.r.E("ret %s (call %d): %s", c.kind, c.seq, res)
	if m.r.Exact && m.r.Now() > c.t {
		m.r.Violate("E09", "E09/slow", "%s took until %v", c.kind, m.r.Now())
	}
	return seq
}

func (m *eModel) do(o EOp) {
	if o.Gap > 0 {
		time.Sleep(ms(o.Gap))
	} else {
		core.Yield()
	}
	r := m.r
	if len(m.ins) > 40 && (o.Kind == "install" || o.Kind == "self" || o.Kind == "all") {
		return // a manifold that installs itself again and again
	}
	switch o.Kind {
	case "install":
		name := eName(o.K)
		if o.As > 0 {
			name = eName(o.As - 1)
		}
		in := m.newInstall(name, m.sc.Ms[o.K])
		m.install(in, m.manifold(in))
	case "all":
		// dependency.Install, the whole set at once
		mfs := dependency.Manifolds{}
		for k := range m.sc.Ms {
			mfs[eName(k)] = dependency.Manifold{Inputs: m.names(m.sc.Ms[k].Inputs)}
		}
		i := &installer{m: m, mfs: mfs, refuse: o.Refuse, seen: map[string]bool{}}
		err := dependency.Install(i, mfs)
		switch {
		case i.err != nil && (err == nil || !errors.Is(err, i.err)):
			r.Violate("E09", "E09/install-all-error", "dependency.Install returned %v although the installer refused a manifold: %v", err, i.err)
		case i.err == nil && err != nil:
			r.Violate("E09", "E09/install-all-error", "dependency.Install returned %v although nothing was refused", err)
		case i.err == nil && len(i.seen) != len(m.sc.Ms):
			r.Violate("E09", "E09/install-all-missing", "dependency.Install installed %d of %d manifolds without an error", len(i.seen), len(m.sc.Ms))
		}
	case "self":
		in := m.newInstall("self", EM{})
		in.self = true
		mf := dependency.SelfManifold(m.eng)
		start := mf.Start
		mf.Start = func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			a := &eAct{m: m, in: in, n: len(in.acts), ctx: ctx, lf: newLife(), killc: make(chan struct{}), done: make(chan struct{})}
			a.enterSeq, a.enterT = r.E("start self"), r.Now()
			in.acts = append(in.acts, a)
			m.busy["self"] = a
			w, err := start(ctx, g)
			a.exited, a.ok, a.exitT = true, true, r.Now()
			a.exitSeq = r.E("started self")
			m.change("self", a)
			return w, err
		}
		m.install(in, mf)
	case "report":
		spoil(m.report(), 1)
	case "kill":
		m.kill()
	case "wkill":
		name := eName(o.K)
		if a := core.Get(m.busy, name); a != nil && a.ok && !a.ended {
			r.E("client kill %s", a.name())
			r.Fault("client-kill")
			a.ckill = true
			a.wake()
		}
	}
}

// installer routes dependency.Install through the model.
type installer struct {
	m      *eModel
	mfs    dependency.Manifolds
	refuse int
	seen   map[string]bool
	err    error
}

func (i *installer) Install(name string, mf dependency.Manifold) error {
	m, r := i.m, i.m.r
	core.Yield()
	want, ok := i.mfs[name]
	switch {
	case !ok:
		r.Violate("E09", "E09/install-all-other", "dependency.Install installs %q, which it was not given", name)
		return nil
	case i.seen[name]:
		r.Violate("E09", "E09/install-all-twice", "dependency.Install installs %s twice", name)
	case i.err != nil:
		r.Violate("E09", "E09/install-all-goes-on", "dependency.Install goes on with %s after the error %v", name, i.err)
	case !slices.Equal(want.Inputs, mf.Inputs):
		r.Violate("E09", "E09/install-all-other", "dependency.Install installs %s with the inputs %q, not %q", name, mf.Inputs, want.Inputs)
	}
	i.seen[name] = true
	if len(i.seen) == i.refuse {
		r.E("install %s refused", name)
		r.Fault("install-refused")
		i.err = m.em.make("err")
		return i.err
	}
	var k int
	for k < len(m.sc.Ms)-1 && eName(k) != name {
		k++
	}
	in := m.newInstall(name, m.sc.Ms[k])
	i.err = m.install(in, m.manifold(in))
	return i.err
}

func (m *eModel) names(ks []int) []string {
	var out []string
	for _, k := range ks {
		out = append(out, eName(k))
	}
	return out
}

func (m *eModel) newInstall(name string, spec EM) *eInstall {
	in := &eInstall{name: name, spec: spec, inputs: m.names(spec.Inputs)}
	m.ins = append(m.ins, in)
	return in
}

func (m *eModel) kill() {
	r := m.r
	c := m.begin("kill")
	if m.killS == 0 {
		m.killS, m.killT = c.seq, c.t
	}
	m.unsure("")
	r.Fault("engine-kill")
	m.eng.Kill()
	seq := m.finish(c, "")
	if m.killR == 0 {
		m.killR = seq
	}
}

// cyclic says whether adding name closes a cycle.
func cyclic(graph map[string][]string, name string, inputs []string) bool {
	seen := map[string]bool{}
	var visit func(n string) bool
	visit = func(n string) bool {
		if n == name {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, i := range graph[n] {
			if visit(i) {
				return true
			}
		}
		return false
	}
	for _, i := range inputs {
		if visit(i) {
			return true
		}
	}
	return false
}

func (m *eModel) install(in *eInstall, mf dependency.Manifold) error {
	r := m.r
	c := m.begin("install " + in.name)
	in.callSeq, in.callT = c.seq, c.t
	err := m.eng.Install(in.name, mf)
	in.ret, in.err, in.retT = true, err, r.Now()
	in.retSeq = m.finish(c, fmt.Sprint(err == nil))
	dying := m.dyingPossible(in.retSeq)
	// what is certainly, and what is possibly, installed
	certain, possible := map[string][]string{}, map[string][]string{}
	dupC, dupP := false, false
	for _, o := range m.ins {
		if o == in || o.ret && o.err != nil || o.callSeq == 0 {
			continue
		}
		unin := o.gone || o.maybe
		for _, a := range o.acts {
			if a.ended && eKind(a.err) == "uninstall" {
				unin = true
			}
		}
		for _, a := range o.acts {
			if !a.ended && a.enterSeq < c.seq && !a.exited {
				_ = a
			}
		}
		if o.ret && o.retSeq < c.seq && !unin {
			certain[o.name] = o.inputs
			dupC = dupC || o.name == in.name
		}
		settled := o.gone && (r.Exact && o.goneT < c.t || o.goneT+60*time.Second < c.t)
		if !settled {
			possible[o.name] = append(possible[o.name], o.inputs...)
			dupP = dupP || o.name == in.name
		}
	}
	if err == nil {
		if dupC {
			r.Violate("E09", "E09/duplicate", "a second manifold %s was installed", in.name)
		}
		if cyclic(certain, in.name, in.inputs) {
			r.Violate("E09", "E09/cycle", "installing %s %v closed a cycle", in.name, in.inputs)
		}
		if m.waitS > 0 && m.waitS < c.seq {
			r.Violate("E09 E07", "E09/dead-install", "Install succeeded on a dead engine")
		}
		return nil
	}
	r.Probe("install-refused")
	if dying {
		return err
	}
	if !dupP && !cyclic(possible, in.name, in.inputs) {
		props := "E09"
		if m.uninst {
			props = "E09 E10"
		}
		r.Violate(props, "E09/refused", "installing %s %v was refused: %v", in.name, in.inputs, err)
	}
	return err
}

// report calls Report and checks what can be checked while things move.
// reportError judges the engine's error in a report of a live engine.
func (m *eModel) reportError(c *eCall, rep map[string]interface{}, state string) {
	r := m.r
	es, _ := rep[dependency.KeyError].(string)
	if state == "stopped" {
		return
	}
	best, known := 0, false
	for _, f := range m.fatals {
		known = known || f.Error() == es
	}
	if es != "" && !known {
		r.Violate("E11", "E11/engine-error", "the report gives the engine's error as %q, fatal errors were %v", es, m.fatals)
		return
	}
	if state != "stopping" || !r.Exact {
		return
	}
	for _, a := range m.ended {
		if a.endT < c.t && m.isFatal(a.err) {
			best = max(best, rankOf(a.err))
		}
	}
	got := 0
	for _, f := range m.fatals {
		if f.Error() == es {
			got = max(got, rankOf(f))
		}
	}
	if got < best {
		r.Violate("E11", "E11/engine-error", "the report gives the engine's error as %q, the fatal errors so far were %v", es, m.fatals)
	}
}

func (m *eModel) report() map[string]interface{} {
	r := m.r
	c := m.begin("report")
	rep := m.eng.Report()
	core.Touch(rep)
	seq := m.finish(c, "")
	dead := m.waitS > 0 && m.waitS < c.seq
	state, _ := rep[dependency.KeyState].(string)
	switch state {
	case "started":
		if t, ok := m.dyingT(); dead || m.killR > 0 && m.killR < c.seq || r.Exact && ok && t < c.t {
			r.Violate("E11", "E11/state", "engine reports started although it is shutting down")
		}
	case "stopping", "stopped":
		if !m.dyingPossible(seq) {
			r.Violate("E11", "E11/state", "engine reports %s although nothing has stopped it", state)
		}
		if dead && state != "stopped" {
			r.Violate("E11", "E11/state", "a dead engine reports %s", state)
		}
	default:
		r.Violate("E11", "E11/state", "engine reports state %q", state)
	}
	m.reportError(c, rep, state)
	mfs, _ := rep[dependency.KeyManifolds].(map[string]interface{})
	for name := range mfs {
		ok := false
		for _, in := range m.ins {
			if in.name != name || in.callSeq == 0 || in.callSeq > seq || in.ret && in.err != nil && in.retSeq < c.seq {
				continue
			}
			if in.gone && (r.Exact && in.goneT < c.t || in.goneT+60*time.Second < c.t) {
				continue
			}
			ok = true
		}
		if !ok {
			r.Violate("E11 E10 E09", "E11/ghost", "the report lists %s, which is not installed", name)
		}
	}
	for _, in := range m.ins {
		if in.ret && in.err == nil && in.retSeq < c.seq && !in.gone && !in.maybe && mfs[in.name] == nil {
			r.Violate("E11", "E11/missing", "the report does not list %s", in.name)
		}
	}
	return mfs
}

// ---- verdicts ----

// settled examines the system at an instant when nothing more can happen
// without time passing.
func (m *eModel) settled(api, final bool) {
	r := m.r
	if !r.Exact && !final {
		return
	}
	for _, c := range m.pending {
		if !c.ret {
			r.Violate("E09", "E09/hang", "%s does not return", c.kind)
		}
	}
	dT, dying := m.dyingT()
	if dying {
		busy := false
		for _, a := range m.busy {
			if a.in.self {
				continue
			}
			if !a.ended {
				busy = true
				if a.ok && !a.killed {
					ids := "E07"
					if a.exitT >= dT {
						ids = "E07 E12" // returned by a start call that outlived the engine's wish for it
					}
					r.Violate(ids, "E07/not-killed", "%s is not killed although the engine is shutting down since %v", a.name(), dT)
				}
				if !a.exited && a.ctx.Err() == nil {
					r.Violate("E07 E12", "E12/dying-ctx", "the start context of %s is not cancelled although the engine is shutting down", a.name())
				}
			}
		}
		if !busy && m.waitS == 0 {
			r.Violate("E07", "E07/wait-hangs", "everything has stopped since shutdown began at %v, but Wait has not returned", dT)
		}
		if m.waitS > 0 && api {
			m.report()
		}
		return
	}
	e02 := "E02"
	if m.uninst {
		e02 = "E02 E10"
	}
	for _, a := range m.busy {
		if a.in.self || a.in.gone || a.in.maybe {
			continue
		}
		// does it run on its current inputs?
		stale := ""
		for _, i := range a.in.inputs {
			if c := m.current(i); c != core.Get(a.seen, i) {
				stale = i
			}
		}
		switch {
		case a.ended:
			if final && stale != "" {
				r.Violate(e02, "E02/not-retried", "the last start of %s did not see the current %s", a.in.name, stale)
			}
		case stale != "" && !a.exited && a.ctx.Err() == nil:
			r.Violate("E12 "+e02, "E12/not-cancelled", "%s changed during the start call of %s but the context is not cancelled", stale, a.name())
		case stale != "" && a.ok && !a.killed:
			r.Violate(e02, "E02/stale", "%s keeps running although its input %s has changed", a.name(), stale)
		}
		if a.ok && !a.acc && !a.killed && !a.ended {
			r.Violate("E11 E12", "E11/not-recorded", "%s is running but its start was not recorded", a.name())
		}
		if a.ended && final {
			switch k := eKind(a.err); {
			case k == "error" || k == "bounce":
				r.Violate("E03", "E03/not-restarted", "%s ended with %s and was not started again", a.name(), errStr(a.err))
			case a.killed:
				r.Violate("E02 E03", "E02/not-restarted", "%s was stopped by the engine and was not started again", a.name())
			}
		}
	}
	for _, in := range m.ins {
		for _, a := range in.acts {
			if a.ended && a.ctx.Err() == nil {
				r.Violate("E12", "E12/ctx-left", "%s has finished but its start context is still not cancelled", a.name())
			}
		}
	}
	if final {
		for _, in := range m.ins {
			if in.ret && in.err == nil && len(in.acts) == 0 {
				r.Violate("E09 E03", "E09/never-started", "%s was installed but never started", in.name)
			}
		}
	}
	if !api {
		return
	}
	mfs := m.report()
	for _, in := range m.ins {
		if !in.ret || in.err != nil || in.gone || in.maybe {
			continue
		}
		rp, _ := mfs[in.name].(map[string]interface{})
		if rp == nil {
			continue
		}
		ins, _ := rp[dependency.KeyInputs].([]string)
		a1, a2 := append([]string(nil), ins...), append([]string(nil), in.inputs...)
		sort.Strings(a1)
		sort.Strings(a2)
		if strings.Join(a1, ",") != strings.Join(a2, ",") {
			r.Violate(m.with("E11", in.name), "E11/inputs", "the report lists inputs %v for %s", ins, in.name)
		}
		n, _ := rp[dependency.KeyStartCount].(int)
		if n != in.starts {
			r.Violate("E11", "E11/count", "the report says %s was started %d times, recorded: %d", in.name, n, in.starts)
		}
		want := "stopped"
		var a *eAct
		if len(in.acts) > 0 {
			a = in.acts[len(in.acts)-1]
			switch {
			case a.ended:
				k := eKind(a.err)
				if k == "error" || k == "bounce" || a.killed {
					want = "starting"
				} else if m.changedIn(in, a.endT, r.Now()) || !a.ok && m.changedIn(in, a.enterT, r.Now()) || a.ok && !a.acc {
					want = "starting?"
				}
			case !a.acc:
				want = "starting"
			case a.killed:
				want = "stopping"
			default:
				want = "started"
			}
		} else {
			want = "starting"
		}
		st, _ := rp[dependency.KeyState].(string)
		if st != want && !(want == "starting?" && (st == "starting" || st == "stopped")) {
			r.Violate("E11", "E11/mstate", "the report says %s is %s, should be %s", in.name, st, want)
		}
		if at, _ := rp[dependency.KeyLastStart].(string); want == "started" && r.Exact && m.sc.Jump == nil && at != clockTime(r, a.accT) && at != clockTime(r, a.exitT) {
			r.Violate("E11", "E11/start-time", "the report says %s was started at %q, not %s", a.name(), at, clockTime(r, a.accT))
		}
		if at := rp[dependency.KeyLastStart]; at != nil && in.starts == 0 {
			r.Violate("E11", "E11/start-time", "the report says %s was started at %q, it never was", in.name, at)
		}
		es, _ := rp[dependency.KeyError].(string)
		if st == "stopped" && a != nil && a.ended && a.err != nil {
			if es != a.err.Error() {
				r.Violate("E11", "E11/error", "the report says %s stopped with %q, should be %q", in.name, es, a.err)
			}
		} else if es != "" {
			r.Violate("E11", "E11/error", "the report gives error %q for %s, which is %s", es, in.name, st)
		}
		if wr, ok := rp[dependency.KeyReport].(map[string]interface{}); ok {
			if a == nil || wr["instance"] != a.name() || a.ended {
				r.Violate("E11", "E11/wreport", "the report of %s comes from %v", in.name, wr["instance"])
			}
		} else if st == "started" && in.spec.Report {
			r.Violate("E11", "E11/wreport", "the report of %s is missing", in.name)
		}
	}
}

func (m *eModel) engFilter(err error) error {
	core.Yield()
	if err == nil {
		if m.sc.Filter == 2 {
			return errCleanStop
		}
		return nil
	}
	return &filtered{err}
}

var errCleanStop = errors.New("clean stop")

type filtered struct{ err error }

func (f *filtered) Error() string { return "filtered: " + f.err.Error() }

// verdict judges the result of Wait.
func (m *eModel) verdict() {
	r := m.r
	err := m.waitE
	if m.sc.Filter > 0 {
		f, ok := err.(*filtered)
		switch {
		case ok:
			err = f.err
		case err == nil:
		case m.sc.Filter == 2 && err == errCleanStop:
			err = nil
		default:
			if strings.Contains(err.Error(), "fatal:") {
				r.Violate(m.with("E01", ""), "E01/internal", "the engine killed itself: %v", err)
				return
			}
			r.Violate("E08", "E08/unfiltered", "Wait returned %v, which did not pass the filter", err)
			return
		}
		if m.sc.Filter == 2 && m.waitE == nil {
			r.Violate("E08", "E08/unfiltered", "Wait returned nil, which did not pass the filter")
		}
	}
	if err != nil && strings.HasPrefix(err.Error(), "fatal: ") {
		r.Violate(m.with("E01", ""), "E01/internal", "the engine killed itself: %v", err)
		return
	}
	best := 0
	for _, f := range m.fatals {
		best = max(best, rankOf(f))
	}
	if len(m.fatals) > 0 {
		r.Probe(fmt.Sprintf("fatals-%d", min(3, len(m.fatals))))
	}
	if best == 0 {
		if err != nil {
			r.Violate("E08", "E08/spurious", "Wait returned %v although there was no fatal error", err)
		}
		return
	}
	if err == nil {
		r.Violate("E08", "E08/lost", "Wait returned nil although %v was fatal", m.fatals[0])
		return
	}
	found := false
	for _, f := range m.fatals {
		found = found || f.Error() == err.Error()
	}
	if !found {
		r.Violate("E08", "E08/foreign", "Wait returned %v, which is no fatal error of this engine", err)
	} else if rankOf(err) < best {
		r.Violate("E08", "E08/not-worst", "Wait returned %v although there was a worse error among %v", err, m.fatals)
	}
}

// Run executes a scenario.
func (EngFam) Run(x any, r *core.Run) {
	sc := x.(*EScenario)
	setScale(sc.Scale, sc.Stall, sc.Long)
	eOdd = sc.Odd
	m := &eModel{r: r, sc: sc, busy: map[string]*eAct{}, lastEnd: map[string]time.Duration{}, serving: map[string]*eAct{}, changes: map[string][]eChange{}, late: ms(maxInt(sc.Late))}
	cfg := dependency.EngineConfig{
		IsFatal: func(err error) bool { core.Yield(); return m.isFatal(err) },
		WorstError: func(a, b error) error {
			core.Yield()
			if rankOf(b) > rankOf(a) {
				return b
			}
			return a
		},
		ErrorDelay:       ms(sc.ErrorDelay),
		BounceDelay:      ms(sc.BounceDelay),
		BackoffFactor:    sc.Factor,
		BackoffResetTime: ms(sc.Reset),
		MaxDelay:         ms(sc.Max),
		Clock:            &simClock{r: r, late: sc.Late, jump: sc.Jump},
		Metrics:          m,
		Logger:           yieldLogger{},
	}
	if sc.Filter > 0 {
		cfg.Filter = m.engFilter
	}
	eng, err := dependency.NewEngine(cfg)
	if err != nil {
		r.Violate("E09", "E09/new", "NewEngine: %v", err)
		return
	}
	m.eng = eng
	go func() {
		err := eng.Wait()
		m.waitS, m.waitT, m.waitE = r.E("Wait returned %s", errStr(err)), r.Now(), err
		for _, a := range m.busy {
			if !a.in.self && !a.ended {
				r.Violate("E07", "E07/wait-early", "Wait returned before %s had finished", a.name())
			}
		}
	}()
	m.live = len(sc.Clients)
	for _, ops := range sc.Clients {
		go func() {
			for _, o := range ops {
				m.do(o)
			}
			m.live--
		}()
	}
	for _, s := range sc.Steps {
		if s > 0 {
			time.Sleep(ms(s))
		}
		r.Settle()
		m.settled(sc.Probe, false)
	}
	if sc.Factor > 0 {
		time.Sleep(waits * 100 * time.Hour) // enough for the longest backoff
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	m.settled(true, true)
	if !m.dyingPossible(r.Seq) {
		r.Probe("alive-at-end")
		if sc.End != "kill" {
			for _, name := range core.SortedKeys(m.busy) {
				if a := core.Get(m.busy, name); !a.in.self && a.ok && !a.ended && !a.killed {
					a.b.StopErr = sc.End
					a.wake()
					break
				}
			}
			time.Sleep(time.Second)
		}
		if !m.dyingPossible(r.Seq) {
			m.kill()
		}
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	m.settled(false, true)
	if m.waitS == 0 {
		r.Violate("E07", "E07/wait-hangs", "Wait does not return after shutdown")
		return
	}
	if len(r.Viol) > 0 {
		return
	}
	if m.live != 0 {
		r.Violate("E09", "E09/hang", "a client is still blocked after the engine is dead")
		return
	}
	last, _ := m.dyingT()
	for _, a := range m.ended {
		if a.endSeq > m.waitS || a.enterSeq > m.waitS {
			r.Violate("E07", "E07/wait-early", "Wait returned before %s had finished", a.name())
		}
		last = max(last, a.endT)
		if a.ok && a.waits == 0 {
			r.Violate("E07", "E07/not-waited", "the engine never waited for %s", a.name())
		}
		if r.Exact && a.ok {
			// killed at once if no longer wanted
			t, _ := m.dyingT()
			t = max(t, a.exitT)
			if a.endT > t && !(a.killed && a.kT <= t) {
				ids := "E07"
				if dt, _ := m.dyingT(); a.exitT >= dt {
					ids = "E07 E12"
				}
				r.Violate(ids, "E07/killed-late", "%s not killed at %v although the engine was shutting down", a.name(), t)
			}
		}
	}
	if r.Exact && m.waitT > last {
		r.Violate("E07", "E07/slow", "Wait returned at %v, everything had stopped at %v", m.waitT, last)
	}
	m.verdict()
	if len(r.Viol) > 0 {
		return
	}
	// the dead engine
	if err := eng.Wait(); errStr(err) != errStr(m.waitE) {
		r.Violate("E08", "E08/unstable", "Wait returned %v and then %v", m.waitE, err)
	}
	if err := eng.Install("late", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		r.Violate("E07 E09", "E09/dead-start", "start called on a dead engine")
		return nil, errRefused
	}}); err == nil {
		r.Violate("E09", "E09/dead-install", "Install succeeded on a dead engine")
	}
	rep := eng.Report()
	es, _ := rep[dependency.KeyError].(string)
	if rep[dependency.KeyState] != "stopped" || m.waitE != nil && es != m.waitE.Error() || m.waitE == nil && es != "" {
		r.Violate("E11", "E11/dead-report", "a dead engine reports %v, %q (Wait: %v)", rep[dependency.KeyState], es, errStr(m.waitE))
	}
	mfs, _ := rep[dependency.KeyManifolds].(map[string]interface{})
	for _, in := range m.ins {
		if !in.ret || in.err != nil || in.gone || in.maybe || in.self {
			continue
		}
		rp, _ := mfs[in.name].(map[string]interface{})
		n, _ := rp[dependency.KeyStartCount].(int)
		if rp == nil || rp[dependency.KeyState] != "stopped" || n != in.starts {
			r.Violate("E11", "E11/dead-manifold", "a dead engine reports %v for %s, started %d times", rp, in.name, in.starts)
		}
	}
	eng.Kill()
	r.Settle()
	if n := r.Gs(); n != 0 {
		r.Violate("E07", "E07/leak", "%d goroutines left after the engine is dead", n)
	}
}
