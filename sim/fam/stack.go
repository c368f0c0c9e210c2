package fam

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"time"

	jerrors "github.com/juju/errors"
	worker "github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"

	"verif/sim/core"
)

func init() { core.Families["stack"] = StackFam{} }

// StackFam runs trees of real runners, engines and catacombs, the way an agent
// is built from them; only the workers at the leaves are simulated.
type StackFam struct{}

func (StackFam) Name() string { return "stack" }

// SB is one life of a leaf.
type SB struct {
	StartDelay int  `json:"start_delay,omitempty"`
	StartErr   int  `json:"start_err,omitempty"`
	RunFor     int  `json:"run_for"`        // <0: until killed
	Exit       int  `json:"exit,omitempty"` // 0: no error; d+1: fatal for ancestors at depth d and below; 99: not fatal
	Stop       int  `json:"stop,omitempty"` // the same, when killed
	StopDelay  int  `json:"stop_delay,omitempty"`
	Late       bool `json:"late,omitempty"` // returned although the start was cancelled
}

// SNode is a node of the tree.
type SNode struct {
	Kind string   `json:"kind"` // leaf runner engine cat
	Kids []*SNode `json:"kids,omitempty"`
	Dep  bool     `json:"dep,omitempty"` // in an engine: depends on the first kid
	Add  int      `json:"add,omitempty"` // in a catacomb: added after so long; 0: in Init
	Beh  []SB     `json:"beh,omitempty"`
	Work int      `json:"work,omitempty"` // the work function ends by itself after so long
	WErr int      `json:"werr,omitempty"`
}

// SOp is a client call.
type SOp struct {
	Kind string `json:"kind"` // kill stop dead report
	K    int    `json:"k"`
	Gap  int    `json:"gap,omitempty"`
}

// SScenario is a generated workload.
type SScenario struct {
	Root    *SNode  `json:"root"`
	Delay   int     `json:"delay"`
	Clients [][]SOp `json:"clients,omitempty"`
	Steps   []int   `json:"steps,omitempty"`
	Stall   bool    `json:"stall"`
	Scale   int     `json:"scale,omitempty"`
	Long    bool    `json:"long,omitempty"`
}

// Decode is part of Family.
func (StackFam) Decode(b []byte) (any, error) {
	sc := &SScenario{}
	return sc, json.Unmarshal(b, sc)
}

// Stalls is part of Family.
func (StackFam) Stalls(sc any) bool { return sc.(*SScenario).Stall }

// Gen is part of Family.
func (StackFam) Gen(r *core.Rng, prop string) any {
	sc := &SScenario{Stall: r.P(15), Delay: core.Pick(r, 0, 20, 20, 3000)}
	d := func() int { return core.Pick(r, 0, 0, 1, 1, 2, 5, 10, 20, 50, r.N(100), r.N(4000)) }
	d = rarely(r, &sc.Long, d)
	fatalP, errP := core.Pick(r, 0, 3, 10, 25), core.Pick(r, 20, 50, 80)
	ecls := func(depth int) int {
		switch {
		case r.P(fatalP):
			return 1 + r.N(depth+1)
		case r.P(errP):
			return 99
		}
		return 0
	}
	mixP := core.Pick(r, 0, 30, 60)
	main := "engine"
	switch {
	case prop == "" || prop == "ANY" || prop[0] == 'W' || prop[0] == 'G':
		main = core.Pick(r, "runner", "engine", "cat")
	case prop[0] == 'R':
		main = "runner"
	case prop[0] == 'C':
		main = "cat"
	}
	deep := 1 + r.N(3)
	var node func(depth int) *SNode
	node = func(depth int) *SNode {
		n := &SNode{Kind: main, Dep: r.P(40)}
		if r.P(mixP) {
			n.Kind = core.Pick(r, "runner", "engine", "cat")
		}
		if depth > 0 && (depth >= deep || r.P(35)) {
			n.Kind = "leaf"
		}
		if r.P(40) {
			n.Add = 1 + d()
		}
		switch n.Kind {
		case "leaf":
			for i, k := 0, core.Pick(r, 0, 0, 1, 1, 2, 3, 6); i < k; i++ {
				b := SB{RunFor: -1, Stop: ecls(depth), Late: r.P(30)}
				if r.P(30) {
					b.StartDelay = d()
				}
				if r.P(10) {
					b.StartErr = core.Pick(r, 99, ecls(depth))
				}
				if r.P(60) {
					b.RunFor, b.Exit = d(), ecls(depth)
				}
				if r.P(30) {
					b.StopDelay = d()
				}
				n.Beh = append(n.Beh, b)
			}
		case "cat":
			if r.P(10) {
				n.Work, n.WErr = 1+d(), ecls(depth)
			}
			fallthrough
		default:
			for i, k := 0, core.Pick(r, 1, 1, 2, 2, 3, 4); i < k; i++ {
				n.Kids = append(n.Kids, node(depth+1))
			}
		}
		return n
	}
	sc.Root = node(0)
	for c, nc := 0, r.N(4); c < nc; c++ {
		var ops []SOp
		for i, k := 0, 1+r.N(4); i < k; i++ {
			o := SOp{Kind: core.Pick(r, "kill", "kill", "stop", "dead", "report", "report"), K: r.N(60)}
			if r.P(70) {
				o.Gap = d()
			}
			if o.Kind == "kill" && r.P(10) {
				o.K = 0
			}
			ops = append(ops, o)
		}
		sc.Clients = append(sc.Clients, ops)
	}
	for i, k := 0, r.N(6); i < k; i++ {
		sc.Steps = append(sc.Steps, d())
	}
	if !sc.Long {
		sc.Scale = pickScale(r)
	}
	return sc
}

func sWalk(n *SNode, f func(*SNode)) {
	f(n)
	for _, k := range n.Kids {
		sWalk(k, f)
	}
}

// Shrinks is part of Family.
func (StackFam) Shrinks(x any) []any {
	sc := x.(*SScenario)
	var out []any
	add := func(f func(*SScenario)) {
		b, _ := json.Marshal(sc)
		c := &SScenario{}
		json.Unmarshal(b, c)
		f(c)
		out = append(out, c)
	}
	// nth applies f to the i-th node
	nth := func(c *SScenario, i int, f func(*SNode)) {
		k := 0
		sWalk(c.Root, func(n *SNode) {
			if k == i {
				f(n)
			}
			k++
		})
	}
	for i := range sc.Clients {
		add(func(c *SScenario) { c.Clients = append(c.Clients[:i], c.Clients[i+1:]...) })
	}
	k := 0
	sWalk(sc.Root, func(n *SNode) {
		i := k
		k++
		for j := range n.Kids {
			add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Kids = append(n.Kids[:j], n.Kids[j+1:]...) }) })
		}
		if len(n.Kids) > 0 && i > 0 {
			add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Kind, n.Kids = "leaf", nil }) })
		}
		if n.Dep {
			add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Dep = false }) })
		}
		if n.Add > 0 {
			add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Add = 0 }) })
		}
		if n.Work > 0 {
			add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Work = 0 }) })
		}
		for j, b := range n.Beh {
			add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Beh = append(n.Beh[:j], n.Beh[j+1:]...) }) })
			if b.StartDelay > 0 {
				add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Beh[j].StartDelay = 0 }) })
			}
			if b.StopDelay > 0 {
				add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Beh[j].StopDelay = 0 }) })
			}
			if b.RunFor > 0 {
				add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Beh[j].RunFor = 0 }) })
			}
			if b.Stop > 0 {
				add(func(c *SScenario) { nth(c, i, func(n *SNode) { n.Beh[j].Stop = 0 }) })
			}
		}
	})
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			add(func(c *SScenario) { c.Clients[i] = append(c.Clients[i][:j], c.Clients[i][j+1:]...) })
			if sc.Clients[i][j].Gap > 0 {
				add(func(c *SScenario) { c.Clients[i][j].Gap = 0 })
			}
		}
	}
	if len(sc.Steps) > 0 {
		add(func(c *SScenario) { c.Steps = nil })
	}
	if sc.Scale > 0 {
		add(func(c *SScenario) { c.Scale = 0 })
	}
	return out
}

// sErr is an error of a leaf. It is fatal for ancestors at depth at least.
type sErr struct {
	n, depth int
}

func (e *sErr) Error() string { return fmt.Sprintf("err-%d@%d", e.n, e.depth) }

func sOf(err error) *sErr {
	var e *sErr
	if errors.As(jerrors.Cause(err), &e) || errors.As(err, &e) {
		return e
	}
	return nil
}

type sModel struct {
	r      *core.Run
	sc     *SScenario
	all    []*sInst
	nerr   int
	lives  map[*SNode]int
	live   int
	dead   int // open Dead channels
	noMore bool
}

// sSlot is a place for a worker in a parent.
type sSlot struct {
	m      *sModel
	node   *SNode
	n      int
	up     *sInst
	name   string
	insts  []*sInst
	calls  int           // start calls in progress
	failT  time.Duration // the last end of a start call that failed
	fail   error
	failed bool // nothing has been started since the last failure
	chg    int  // when the worker last came or went
	chgT   time.Duration
}

// sInst is one worker in a slot.
type sInst struct {
	m      *sModel
	s      *sSlot
	n      int
	depth  int
	in     worker.Worker
	slots  []*sSlot
	killed bool
	client bool // killed by a client
	kT     time.Duration
	ended  bool
	ending bool
	endT   time.Duration
	endS   int
	err    error
	callS  int
	born   time.Duration // returned by its start function
	saw    *sInst
	out    bool          // the start call is over
	ready  chan struct{} // closed then
	upT    time.Duration // since when a catacomb runs
	kids   []error       // what kids ended with, in order
	diesT  time.Duration
	dies   bool // has a reason to die
	b      SB
	killc  chan struct{}
	done   chan struct{}
	// catacombs
	cat *catacomb.Catacomb
}

func (i *sInst) name() string { return fmt.Sprintf("%s#%d", i.s.name, i.n) }

func (i *sInst) kind() string { return i.s.node.Kind }

// by picks the properties of the kind of component.
func (i *sInst) by(runner, engine, cat string) string {
	switch i.kind() {
	case "runner":
		return runner
	case "engine":
		return engine
	}
	return cat
}

func (i *sInst) mustDie() {
	if !i.dies {
		i.dies, i.diesT = true, i.m.r.Now()
	}
}

func (i *sInst) Kill() {
	r := i.m.r
	if !i.killed {
		i.killed, i.kT = true, r.Now()
		r.E("kill %s", i.name())
		i.mustDie()
		if u := i.s.up; u != nil && !i.client && !i.ended {
			i.m.killCause(i, u)
		}
		if i.killc != nil {
			close(i.killc)
		}
	}
	if i.in != nil {
		i.in.Kill()
	}
	core.Yield()
}

// killCause checks that the parent may kill its worker.
func (m *sModel) killCause(i, u *sInst) {
	if u.dies || u.ending || u.ended {
		return
	}
	if u.kind() == "engine" && i.s.node.Dep && i.s.n > 0 && (u.slots[0].chg > i.callS || i.saw.ended) {
		return
	}
	m.r.Violate(u.by("R03", "E04", "C04"), "stack/killed", "%s was killed for no reason", i.name())
}

func (i *sInst) Wait() error {
	if i.in == nil {
		<-i.done
		return i.err
	}
	err := i.in.Wait()
	i.end(err)
	return err
}

type sRep struct{ *sInst }

func (i sRep) Report() map[string]interface{} {
	return i.in.(interface {
		Report() map[string]interface{}
	}).Report()
}

// face is what others get to see of the worker.
func (i *sInst) face() worker.Worker {
	if k := i.kind(); k == "runner" || k == "engine" {
		return sRep{i}
	}
	return i
}

func faceOf(w worker.Worker) *sInst {
	switch w := w.(type) {
	case sRep:
		return w.sInst
	case *sInst:
		return w
	}
	return nil
}

// end is called whenever somebody learns that the worker has ended.
func (i *sInst) end(err error) {
	r := i.m.r
	if i.ended {
		if err != i.err {
			r.Violate(i.by("R06", "E08", "C03"), "stack/two-errors", "%s ended with %s and with %s", i.name(), errStr(i.err), errStr(err))
		}
		return
	}
	for _, s := range i.slots {
		if s.calls > 0 {
			r.Violate(i.by("R05", "E07", "C01"), "stack/wait-early", "%s is over, a start call of %s is not", i.name(), s.name)
		}
		for _, k := range s.insts {
			if !k.ended {
				r.Violate(i.by("R05", "E07", "C01"), "stack/wait-early", "%s is over, %s is not", i.name(), k.name())
			}
		}
	}
	i.ended, i.endT, i.err = true, r.Now(), err
	i.endS = r.E("end %s: %s", i.name(), errStr(err))
	// the error
	if len(i.slots) > 0 || i.in != nil {
		p := i.by("R06", "E08", "C03")
		var want []error
		for _, e := range i.kids {
			if i.fatal(e) {
				want = append(want, e)
			}
		}
		switch {
		case err == nil && len(want) > 0:
			r.Violate(p, "stack/error-lost", "%s ended without error, a worker of it with %v", i.name(), want[0])
		case err != nil && (len(want) == 0 || sOf(err) == nil):
			r.Violate(p, "stack/error-made-up", "%s ended with %v", i.name(), err)
		case err != nil:
			ok := false
			for _, e := range want {
				ok = ok || sOf(e) == sOf(err)
			}
			if !ok {
				r.Violate(p, "stack/error-other", "%s ended with %v, its workers with %v", i.name(), err, want)
			}
		case !i.dies:
			r.Violate(i.by("R05", "E07", "C04"), "stack/died", "%s ended for no reason", i.name())
		}
	}
	if u := i.s.up; u != nil {
		u.kidEnd(err)
	}
	i.s.changed()
}

func (s *sSlot) changed() {
	s.chg, s.chgT = s.m.r.Seq, s.m.r.Now()
}

// kidEnd records what a worker or a start call ended with.
func (i *sInst) kidEnd(err error) {
	i.kids = append(i.kids, err)
	if i.fatal(err) {
		i.mustDie()
	}
}

// fatal says whether the error of a worker ends its parent.
func (i *sInst) fatal(err error) bool {
	if err == nil {
		return false
	}
	if i.kind() == "cat" {
		return true
	}
	e := sOf(err)
	return e != nil && i.depth >= e.depth
}

func (m *sModel) mkErr(c int) error {
	if c == 0 {
		return nil
	}
	m.nerr++
	m.r.Fault("worker-error")
	return &sErr{m.nerr, c - 1}
}

// isFatal is what runners and engines at a depth are configured with.
func isFatalAt(depth int) func(error) bool {
	return func(err error) bool {
		e := sOf(err)
		return e != nil && depth >= e.depth
	}
}

// begin makes a worker for a slot; nil with an error if that fails.
func (s *sSlot) begin(ctx context.Context, saw *sInst) (*sInst, error) {
	m, r := s.m, s.m.r
	call := r.E("start %s", s.name)
	s.failed = false
	if u := s.up; u != nil {
		p := u.by("R01", "E01", "C05")
		if s.calls > 0 {
			r.Violate(p, "stack/two", "%s is started while another start call is in progress", s.name)
		}
		for _, k := range s.insts {
			if !k.ended {
				r.Violate(p, "stack/two", "%s is started although %s has not ended", s.name, k.name())
			}
		}
		if n := len(s.insts); u.kind() == "runner" && n > 0 {
			if k := s.insts[n-1]; k.err == nil && k.ended {
				r.Violate("R03", "stack/restarted", "%s is started again although it ended without error", s.name)
			}
			if k := s.insts[n-1]; k.ended && r.Exact && r.Now() < max(k.endT, s.failT)+ms(m.sc.Delay) && m.sc.Delay > 0 {
				r.Violate("R02", "stack/early", "%s is started again at %v, it ended at %v", s.name, r.Now(), k.endT)
			}
		}
		if u.ended {
			r.Violate(u.by("R05", "E07", "C01"), "stack/start-late", "%s is started after the end of %s", s.name, u.name())
		}
	}
	b := SB{RunFor: -1}
	if k := core.Get(m.lives, s.node); k < len(s.node.Beh) {
		b = s.node.Beh[k]
		m.lives[s.node] = k + 1
	}
	s.calls++
	fail := func(err error) (*sInst, error) {
		s.calls--
		s.fail, s.failT, s.failed = err, r.Now(), true
		r.E("start %s: %s", s.name, errStr(err))
		if s.up != nil && s.up.kind() != "cat" {
			s.up.kidEnd(err)
		}
		return nil, err
	}
	if b.StartDelay > 0 && s.node.Kind == "leaf" {
		t := time.NewTimer(ms(b.StartDelay))
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			if s.up != nil && !s.up.dies && !(s.up.kind() == "engine" && s.node.Dep && s.n > 0 && (s.up.slots[0].chg > call || saw.ended)) {
				r.Violate(s.up.by("R05", "E12", "C07"), "stack/cancelled", "the start of %s was cancelled for no reason", s.name)
			}
			if !b.Late {
				return fail(m.mkErr(99))
			}
			r.Fault("late-start")
		}
	}
	if b.StartErr > 0 && s.node.Kind == "leaf" {
		r.Fault("start-error")
		return fail(m.mkErr(b.StartErr))
	}
	i := &sInst{m: m, s: s, n: len(s.insts), callS: call, saw: saw, b: b, ready: make(chan struct{})}
	if s.up != nil {
		i.depth = s.up.depth + 1
	}
	s.insts = append(s.insts, i)
	m.all = append(m.all, i)
	if s.node.Kind == "leaf" {
		i.killc, i.done = make(chan struct{}), make(chan struct{})
		go i.leaf()
	} else {
		for n, k := range s.node.Kids {
			i.slots = append(i.slots, &sSlot{m: m, node: k, n: n, up: i, name: fmt.Sprintf("%s/%d", s.name, n)})
		}
		i.build()
		go i.Wait()
	}
	s.calls--
	i.born, i.out = r.Now(), true
	close(i.ready)
	s.changed()
	r.E("started %s", i.name())
	return i, nil
}

func (i *sInst) leaf() {
	r := i.m.r
	class := i.b.Stop
	if i.b.RunFor >= 0 {
		t := time.NewTimer(ms(i.b.RunFor))
		select {
		case <-t.C:
			class = i.b.Exit
		case <-i.killc:
			t.Stop()
		}
	} else {
		<-i.killc
	}
	if i.killed && i.b.StopDelay > 0 {
		r.Fault("slow-stop")
		time.Sleep(ms(i.b.StopDelay))
	}
	i.end(i.m.mkErr(class))
	close(i.done)
}

func (i *sInst) build() {
	r, m := i.m.r, i.m
	bg := context.Background()
	switch i.kind() {
	case "runner":
		ru, err := worker.NewRunner(worker.RunnerParams{
			Name: i.s.name, IsFatal: isFatalAt(i.depth), RestartDelay: ms(m.sc.Delay),
			Clock: &simClock{r: r}, Logger: yieldLogger{},
		})
		if err != nil {
			r.Violate("R09", "stack/new", "NewRunner: %v", err)
			return
		}
		i.in = ru
		for _, s := range i.slots {
			err := ru.StartWorker(bg, fmt.Sprint(s.n), func(ctx context.Context) (worker.Worker, error) {
				k, err := s.begin(ctx, nil)
				if err != nil {
					return nil, err
				}
				return k.face(), nil
			})
			if err != nil && !(err == worker.ErrDead && i.dies) {
				r.Violate("R09", "stack/start", "StartWorker %s: %v", s.name, err)
			}
		}
	case "engine":
		en, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal: isFatalAt(i.depth), WorstError: func(a, b error) error { return a },
			ErrorDelay: ms(m.sc.Delay), BounceDelay: ms(m.sc.Delay / 2),
			Clock: &simClock{r: r}, Metrics: dependency.DefaultMetrics(), Logger: yieldLogger{},
		})
		if err != nil {
			r.Violate("E09", "stack/new", "NewEngine: %v", err)
			return
		}
		i.in = en
		mf := dependency.Manifolds{}
		for _, s := range i.slots {
			x := dependency.Manifold{Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
				var saw worker.Worker
				if s.node.Dep && s.n > 0 {
					if err := g.Get("0", &saw); err != nil {
						if jerrors.Cause(err) != dependency.ErrMissing && !errors.Is(err, dependency.ErrMissing) {
							r.Violate("E05", "stack/get", "Get in %s: %v", s.name, err)
						}
						r.E("missing %s", s.name)
						s.fail, s.failT, s.failed = dependency.ErrMissing, r.Now(), true
						return nil, dependency.ErrMissing
					}
				}
				k, err := s.begin(ctx, faceOf(saw))
				if err != nil {
					return nil, err
				}
				return k.face(), nil
			}}
			if s.node.Dep && s.n > 0 {
				x.Inputs = []string{"0"}
			}
			if s.n == 0 {
				x.Output = func(in worker.Worker, out interface{}) error {
					*out.(*worker.Worker) = in
					return nil
				}
			}
			mf[fmt.Sprint(s.n)] = x
		}
		if err := dependency.Install(en, mf); err != nil && !i.dies {
			r.Violate("E09", "stack/install", "Install: %v", err)
		}
	case "cat":
		c := &catacomb.Catacomb{}
		i.cat = c
		plan := catacomb.Plan{Name: i.s.name, Site: c}
		for _, s := range i.slots {
			if s.node.Add == 0 {
				if k, _ := s.begin(bg, nil); k != nil {
					plan.Init = append(plan.Init, k.face())
				}
			}
		}
		plan.Work = func() error {
			var end <-chan time.Time
			if w := i.s.node.Work; w > 0 && core.Get(m.lives, i.s.node) < 3 {
				m.lives[i.s.node] = core.Get(m.lives, i.s.node) + 1
				end = time.After(ms(w))
			}
			for _, s := range i.slots {
				if s.node.Add == 0 {
					continue
				}
				select {
				case <-time.After(ms(s.node.Add)):
				case <-end:
					err := m.mkErr(i.s.node.WErr)
					i.kids = append(i.kids, err)
					i.mustDie()
					return err
				case <-c.Dying():
					return c.ErrDying()
				}
				k, _ := s.begin(c.Context(bg), nil)
				if k == nil {
					continue
				}
				if err := c.Add(k.face()); err != nil {
					if !i.dies {
						r.Violate("C02", "stack/add", "Add of %s: %v", k.name(), err)
					}
					if !k.ended {
						r.Violate("C02", "stack/add-early", "Add returned %v before %s had ended", err, k.name())
					}
					return err
				}
			}
			select {
			case <-end:
				err := m.mkErr(i.s.node.WErr)
				i.kids = append(i.kids, err)
				i.mustDie()
				return err
			case <-c.Dying():
			}
			return c.ErrDying()
		}
		i.in, i.upT = catFace{c}, r.Now()
		if err := catacomb.Invoke(plan); err != nil {
			r.Violate("C05", "stack/invoke", "Invoke: %v", err)
		}
	}
}

type catFace struct{ c *catacomb.Catacomb }

func (c catFace) Kill()       { c.c.Kill(nil) }
func (c catFace) Wait() error { return c.c.Wait() }

func (m *sModel) do(o SOp) {
	if o.Gap > 0 {
		time.Sleep(ms(o.Gap))
	} else {
		core.Yield()
	}
	if m.noMore || len(m.all) == 0 {
		return
	}
	r := m.r
	r.Ops++
	i := m.all[o.K%len(m.all)]
	if !i.out {
		return
	}
	<-i.ready
	switch o.Kind {
	case "kill":
		r.Fault("client-kill")
		i.client = i.client || !i.killed
		i.Kill()
	case "stop":
		i.client = i.client || !i.killed
		err := worker.Stop(i.face())
		if !i.ended || err != i.err {
			r.Violate("W01", "stack/stop", "Stop of %s returned %v", i.name(), err)
		}
	case "dead":
		ch := worker.Dead(i.face())
		m.dead++
		go func() {
			<-ch
			if !i.ended {
				r.Violate("W01", "stack/dead-early", "Dead of %s was closed early", i.name())
			}
			m.dead--
		}()
	case "report":
		if k := i.kind(); k == "runner" || k == "engine" {
			m.report(i)
		}
	}
}

func (m *sModel) report(i *sInst) map[string]interface{} {
	<-i.ready
	core.Yield()
	was := i.ended
	rep := sRep{i}.Report()
	if rep == nil {
		m.r.Violate(i.by("R10", "E11", ""), "stack/no-report", "%s reports nothing", i.name())
	}
	if i.kind() == "engine" && was {
		if s := rep[dependency.KeyState]; s != "stopped" {
			m.r.Violate("E11", "stack/dead-report", "%s has ended and reports %v", i.name(), s)
		}
	}
	return rep
}

// settled checks a system in which nothing can happen before time passes.
func (m *sModel) settled(final bool) {
	r := m.r
	if !r.Exact || len(r.Viol) > 0 {
		return
	}
	for _, i := range m.all {
		if i.in == nil || i.ended || !i.out {
			continue
		}
		if i.dies {
			idle := true
			for _, s := range i.slots {
				if s.calls > 0 {
					idle = false
				}
				for _, k := range s.insts {
					if k.ended {
						continue
					}
					idle = false
					if !k.killed && k.out {
						r.Violate(i.by("R05", "E07", "C01"), "stack/not-killed", "%s is dying and has not killed %s", i.name(), k.name())
					}
				}
			}
			if idle && i.kind() != "cat" {
				r.Violate(i.by("R05", "E07", "C01"), "stack/not-over", "%s is dying, has nothing left and is not over", i.name())
			}
			continue
		}
		for _, s := range i.slots {
			if len(s.insts) == 0 || i.kind() != "engine" || !s.node.Dep || s.n == 0 {
				continue
			}
			k := s.insts[len(s.insts)-1]
			if k.out && !k.ended && k.saw != nil && k.saw.ended && !k.killed {
				r.Violate("E02", "stack/stale", "%s runs on %s, which has ended", k.name(), k.saw.name())
			}
		}
		if !final {
			continue
		}
		for _, s := range i.slots {
			var k *sInst
			if n := len(s.insts); n > 0 {
				k = s.insts[n-1]
			}
			if s.calls > 0 {
				continue // cannot happen
			}
			alive := k != nil && !k.ended && !k.killed
			switch i.kind() {
			case "runner":
				clean := k != nil && k.ended && k.err == nil && !s.failed
				if !alive && !clean {
					r.Violate("R02", "stack/not-restarted", "%s failed and was not started again", s.name)
				}
			case "engine":
				if s.node.Dep && s.n > 0 {
					var in *sInst
					if s0 := i.slots[0]; len(s0.insts) > 0 {
						if x := s0.insts[len(s0.insts)-1]; !x.ended {
							in = x
						}
					}
					switch {
					case in == nil && alive:
						r.Violate("E02", "stack/stale", "%s runs without its input", k.name())
					case in != nil && !alive && !(k != nil && k.saw == in && k.ended && k.err == nil):
						r.Violate("E02 E03", "stack/not-restarted", "%s does not run, its input does", s.name)
					case in != nil && alive && k.saw != in:
						r.Violate("E02", "stack/stale", "%s does not run on its input", k.name())
					}
					continue
				}
				clean := k != nil && k.ended && k.err == nil && !s.failed
				if !alive && !clean {
					r.Violate("E03", "stack/not-restarted", "%s failed and was not started again", s.name)
				}
			}
		}
		if i.kind() == "cat" || i.killed {
			continue
		}
		m.checkReport(i)
	}
}

// checkReport compares the report of a quiet component with the truth.
func (m *sModel) checkReport(i *sInst) {
	r := m.r
	if i.s.up != nil && i.s.up.dies {
		return
	}
	p := i.by("R10", "E11", "")
	var rep map[string]interface{}
	back := false
	go func() { rep = m.report(i); back = true }()
	r.Settle()
	if !back {
		r.Violate(i.by("R09", "E09", ""), "stack/report-hangs", "Report of %s does not return", i.name())
		return
	}
	key := i.by("workers", dependency.KeyManifolds, "")
	got, _ := rep[key].(map[string]interface{})
	for _, s := range i.slots {
		var k *sInst
		if n := len(s.insts); n > 0 {
			k = s.insts[n-1]
		}
		x, ok := got[fmt.Sprint(s.n)].(map[string]interface{})
		gone := i.kind() == "runner" && k != nil && k.ended && k.err == nil
		if ok == gone {
			r.Violate(p, "stack/report", "report of %s lists %s: %v", i.name(), s.name, ok)
			continue
		}
		if gone {
			continue
		}
		if alive := k != nil && !k.ended; alive != (x["state"] == "started") {
			r.Violate(p, "stack/report", "report of %s: state of %s is %v, it runs: %v", i.name(), s.name, x["state"], alive)
		} else if alive {
			if kk := k.kind(); kk == "runner" || kk == "engine" {
				back = false
				var sub map[string]interface{}
				go func() { sub = m.report(k); back = true }()
				r.Settle()
				if !back || !reflect.DeepEqual(sub, x["report"]) {
					r.Violate(p, "stack/report", "report of %s: that of %s is %v, should be %v", i.name(), s.name, x["report"], sub)
				}
			}
		}
	}
	if len(got) > len(i.slots) {
		r.Violate(p, "stack/report", "report of %s lists unknown workers: %v", i.name(), got)
	}
}

// Run executes a scenario.
func (StackFam) Run(x any, r *core.Run) {
	sc := x.(*SScenario)
	setScale(sc.Scale, sc.Stall, sc.Long)
	m := &sModel{r: r, sc: sc, lives: map[*SNode]int{}}
	root := &sSlot{m: m, node: sc.Root, name: "r"}
	top, err := root.begin(context.Background(), nil)
	if err != nil || len(r.Viol) > 0 {
		return
	}
	m.live = len(sc.Clients)
	for _, ops := range sc.Clients {
		go func() {
			for _, o := range ops {
				m.do(o)
			}
			m.live--
		}()
	}
	for _, s := range sc.Steps {
		if s > 0 {
			time.Sleep(ms(s))
		}
		r.Settle()
		m.settled(false)
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	m.settled(true)
	if len(r.Viol) > 0 {
		return
	}
	m.noMore = true
	if !top.dies {
		r.Probe("alive-at-end")
		top.client = true
		top.Kill()
	}
	time.Sleep(waits * 2000 * time.Second)
	r.Settle()
	if !top.ended {
		// the deepest that hangs
		for n := len(m.all) - 1; n >= 0; n-- {
			if i := m.all[n]; !i.ended {
				if i.in == nil {
					i = i.s.up
				}
				r.Violate(i.by("R05 R09", "E07", "C01 C07"), "stack/hangs", "%s does not end", i.name())
				break
			}
		}
		return
	}
	if m.live != 0 || m.dead != 0 {
		r.Violate(top.by("R09", "E09", "C07"), "stack/client-hangs", "%d clients and %d Dead channels still wait", m.live, m.dead)
		return
	}
	for _, i := range m.all {
		if !i.ended {
			p := "C02"
			if u := i.s.up; u != nil {
				p = u.by("R05", "E07", "C01 C02")
			}
			r.Violate(p, "stack/left", "%s has not ended", i.name())
			return
		}
		if !r.Exact || i.s.up == nil {
			continue
		}
		// killed as soon as the parent was dying
		u := i.s.up
		if t := max(u.diesT, u.upT, i.born); u.dies && i.endT > t && !(i.killed && i.kT <= t) {
			r.Violate(u.by("R05", "E07", "C01"), "stack/killed-late", "%s was killed at %v (%v), %s was dying at %v", i.name(), i.kT, i.killed, u.name(), u.diesT)
		}
		if i.in != nil && i.dies {
			t := i.diesT
			for _, s := range i.slots {
				for _, k := range s.insts {
					t = max(t, k.endT)
				}
				t = max(t, s.failT)
			}
			if i.kind() != "cat" && i.endT > t {
				r.Violate(i.by("R05", "E07", "C01"), "stack/over-late", "%s was over at %v, everything had ended at %v", i.name(), i.endT, t)
			}
		}
	}
	r.Settle()
	if n := r.Gs(); n != 0 {
		r.Violate(top.by("R09", "E07", "C07"), "stack/leak", "%d goroutines left", n)
	}
}
