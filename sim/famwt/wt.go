// Package famwt drives the workertest helpers; it is apart from the other
// families because it needs gocheck.
package famwt

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"time"
	"unsafe"

	jerrors "github.com/juju/errors"
	jtesting "github.com/juju/testing"
	worker "github.com/juju/worker/v4"
	"github.com/juju/worker/v4/workertest"
	gc "gopkg.in/check.v1"
	"gopkg.in/tomb.v2"

	"verif/sim/core"
)

func init() { core.Families["workertest"] = Fam{} }

// Fam drives workertest.
type Fam struct{}

func (Fam) Name() string { return "workertest" }

// W is one worker.
type W struct {
	Kind      int    `json:"kind"` // 0 stub, 1 NewErrorWorker, 2 NewDeadWorker, 3 NewForeverWorker, 4 fake watcher
	RunFor    int    `json:"run_for"`
	StopDelay int    `json:"stop_delay,omitempty"`
	Err       string `json:"err,omitempty"`
	Len       int    `json:"len,omitempty"`
	Preload   int    `json:"preload,omitempty"`
}

// Op is a call.
type Op struct {
	Kind string `json:"kind"` // alive killed kill clean dirty nilor nil typednil wkill really ping recv close
	K    int    `json:"k"`
	Gap  int    `json:"gap,omitempty"`
}

// Scenario is a generated workload.
type Scenario struct {
	Ws      []W    `json:"workers"`
	Clients [][]Op `json:"clients"`
	Stall   bool   `json:"stall"`
}

func (Fam) Decode(b []byte) (any, error) {
	sc := &Scenario{}
	return sc, json.Unmarshal(b, sc)
}

func (Fam) Stalls(sc any) bool { return sc.(*Scenario).Stall }

func (Fam) Gen(r *core.Rng, prop string) any {
	sc := &Scenario{Stall: r.P(15)}
	d := func() int {
		return core.Pick(r, 0, 0, 1, 5, 20, 49, 50, 51, 60, 1000, 9000, 9999, 10000, 10001, 12000, 30000, r.N(120), r.N(12000))
	}
	n := 1 + r.N(3)
	for i := 0; i < n; i++ {
		w := W{Kind: core.Pick(r, 0, 0, 0, 0, 1, 1, 2, 3, 3, 4), RunFor: -1, Err: core.Pick(r, "nil", "nil", "nil", "err", "ctx", "tomb", "alive", "notfound", "dead")}
		if r.P(50) {
			w.RunFor = d()
		}
		if r.P(60) {
			w.StopDelay = d()
		}
		if w.Kind == 4 {
			w.Len = r.N(5)
			w.Preload = r.N(w.Len + 1)
			if r.P(5) {
				w.Preload = w.Len + 1 + r.N(2)
			}
		}
		sc.Ws = append(sc.Ws, w)
	}
	for c, nc := 0, 1+r.N(4); c < nc; c++ {
		var ops []Op
		for i, k := 0, 1+r.N(4); i < k; i++ {
			o := Op{K: r.N(n), Kind: core.Pick(r, "alive", "alive", "alive", "killed", "killed", "kill", "clean", "dirty", "nilor", "nil", "typednil", "wkill")}
			switch sc.Ws[o.K].Kind {
			case 3:
				if r.P(30) {
					o.Kind = "really"
				}
			case 4:
				if r.P(75) {
					o.Kind = core.Pick(r, "ping", "ping", "recv", "recv", "recv", "close")
				}
			}
			if r.P(60) {
				o.Gap = d()
			}
			ops = append(ops, o)
		}
		sc.Clients = append(sc.Clients, ops)
	}
	return sc
}

func (Fam) Shrinks(x any) []any {
	sc := x.(*Scenario)
	var out []any
	add := func(f func(*Scenario)) {
		b, _ := json.Marshal(sc)
		c := &Scenario{}
		json.Unmarshal(b, c)
		f(c)
		out = append(out, c)
	}
	for i := range sc.Clients {
		add(func(c *Scenario) { c.Clients = append(c.Clients[:i], c.Clients[i+1:]...) })
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			add(func(c *Scenario) { c.Clients[i] = append(c.Clients[i][:j], c.Clients[i][j+1:]...) })
			if sc.Clients[i][j].Gap > 0 {
				add(func(c *Scenario) { c.Clients[i][j].Gap = 0 })
			}
		}
	}
	for i, w := range sc.Ws {
		if w.StopDelay > 0 {
			add(func(c *Scenario) { c.Ws[i].StopDelay = 0 })
		}
		if w.RunFor >= 0 {
			add(func(c *Scenario) { c.Ws[i].RunFor = -1 })
		}
	}
	return out
}

type simErr struct {
	n    int
	wrap error
}

func (e *simErr) Error() string { return fmt.Sprintf("err-%d", e.n) }
func (e *simErr) Unwrap() error { return e.wrap }

// wraps are errors that real workers pass on.
var wraps = map[string]error{"ctx": context.Canceled, "tomb": tomb.ErrDying, "alive": tomb.ErrStillAlive, "notfound": jerrors.NotFound, "dead": worker.ErrDead}

type model struct {
	r    *core.Run
	ws   []*wk
	errs int
	live int
	res  []result
}

type wk struct {
	m       *model
	spec    W
	n       int
	w       worker.Worker
	forever *workertest.ForeverWorker
	fake    workertest.NotAWatcher
	want    error // what it has to end with
	killed  bool  // by the library or a client
	asked   bool  // somebody was asked to kill it
	realk   bool
	killc   chan struct{}
	done    chan struct{}
	ended   bool // observed through Wait
	endT    time.Duration
	killT   time.Duration
	err     error
	tokens  int // in the fake watcher
	closed  bool
	blocked int
}

// stub worker
func (w *wk) Kill() {
	if !w.killed {
		w.killed = true
		w.m.r.E("kill w%d", w.n)
		close(w.killc)
	}
	core.Yield()
}

func (w *wk) Wait() error { <-w.done; return w.err }

func (w *wk) run() {
	if w.spec.RunFor >= 0 {
		t := time.NewTimer(ms(w.spec.RunFor))
		select {
		case <-t.C:
		case <-w.killc:
			t.Stop()
		}
	} else {
		<-w.killc
	}
	if w.killed && w.spec.StopDelay > 0 {
		w.m.r.Fault("slow-stop")
		time.Sleep(ms(w.spec.StopDelay))
	}
	w.err = w.want
	w.ended, w.endT = true, w.m.r.Now()
	w.m.r.E("end w%d", w.n)
	close(w.done)
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// newC makes a gocheck C that belongs to no running test.
func newC() *gc.C {
	c := &gc.C{}
	field := func(name string) reflect.Value {
		f := reflect.ValueOf(c).Elem().FieldByName(name)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		f.Set(reflect.New(f.Type().Elem()))
		return f.Elem()
	}
	field("logb")
	field("method").FieldByName("Info").Set(reflect.ValueOf(method))
	return c
}

// gocheck wants to know which test it is in.
type suite struct{}

func (suite) TestSimulated() {}

var method = reflect.TypeOf(suite{}).Method(0)

func (w *wk) build() bool {
	r := w.m.r
	if w.spec.Err != "nil" {
		w.m.errs++
		w.want = &simErr{w.m.errs, wraps[w.spec.Err]}
	}
	switch w.spec.Kind {
	case 0:
		w.w = w
		go w.run()
		return true
	case 1:
		w.w = workertest.NewErrorWorker(w.want)
	case 2:
		w.w = workertest.NewDeadWorker(w.want)
	case 3:
		w.forever = workertest.NewForeverWorker(w.want)
		w.w = w.forever
	case 4:
		w.want = nil
		var p any
		func() {
			defer func() { p = recover() }()
			w.fake = workertest.NewFakeWatcher(w.spec.Len, w.spec.Preload)
		}()
		if (p != nil) != (w.spec.Preload > w.spec.Len) {
			r.Violate("T01", "T01/fake-new", "NewFakeWatcher(%d,%d): panic %v", w.spec.Len, w.spec.Preload, p)
			return false
		}
		if p != nil {
			return false
		}
		w.w = w.fake
		w.tokens = w.spec.Preload
		if cap(w.fake.Changes()) != w.spec.Len || len(w.fake.Changes()) != w.spec.Preload {
			r.Violate("T01", "T01/fake-new", "NewFakeWatcher(%d,%d) holds %d of %d", w.spec.Len, w.spec.Preload, len(w.fake.Changes()), cap(w.fake.Changes()))
		}
		if w.fake.Stop() != nil || w.fake.Err() == nil {
			r.Violate("T01", "T01/fake-methods", "Stop %v, Err %v", w.fake.Stop(), w.fake.Err())
		}
	}
	go func() {
		w.err = w.w.Wait()
		w.ended, w.endT = true, r.Now()
		r.E("end w%d", w.n)
		cause := map[int]bool{1: w.asked, 2: true, 3: w.realk, 4: w.asked}[w.spec.Kind]
		if !cause {
			r.Violate("T01", "T01/worker-ends", "worker %d (kind %d) ended for no reason", w.n, w.spec.Kind)
		}
		if w.err != w.want {
			r.Violate("T01", "T01/worker-error", "worker %d (kind %d) ended with %v, should be %v", w.n, w.spec.Kind, w.err, w.want)
		}
		if r.Exact && w.endT > w.killT {
			r.Violate("T01", "T01/worker-slow", "worker %d (kind %d) ended at %v, killed at %v", w.n, w.spec.Kind, w.endT, w.killT)
		}
	}()
	return true
}

func (w *wk) ask(t time.Duration) {
	if !w.asked {
		w.asked = true
		if w.spec.Kind == 1 || w.spec.Kind == 4 {
			w.killT = t
		}
	}
}

func (m *model) do(o Op) {
	if o.Gap > 0 {
		time.Sleep(ms(o.Gap))
	} else {
		core.Yield()
	}
	r, w := m.r, m.ws[o.K]
	r.Ops++
	c := newC()
	t := r.Now()
	seq := r.E("call %s w%d", o.Kind, w.n)
	var err error
	kills, timeout := false, jtesting.LongWait
	switch o.Kind {
	case "alive":
		timeout = jtesting.ShortWait
		workertest.CheckAlive(c, w.w)
	case "killed":
		err = workertest.CheckKilled(c, w.w)
	case "kill":
		kills = true
		w.ask(t)
		err = workertest.CheckKill(c, w.w)
	case "clean":
		kills = true
		w.ask(t)
		workertest.CleanKill(c, w.w)
	case "dirty":
		kills = true
		w.ask(t)
		workertest.DirtyKill(c, w.w)
	case "nilor":
		kills = true
		w.ask(t)
		workertest.CheckNilOrKill(c, w.w)
	case "nil", "typednil":
		if o.Kind == "nil" {
			workertest.CheckNilOrKill(c, nil)
		} else {
			var z *wk
			workertest.CheckNilOrKill(c, z)
		}
		if c.Failed() || r.Exact && r.Now() > t {
			r.Violate("T01", "T01/nil", "CheckNilOrKill of a nil worker: failed %v", c.Failed())
		}
		return
	case "wkill":
		w.ask(t)
		w.w.Kill()
		return
	case "really":
		if !w.realk {
			w.realk, w.killT = true, t
		}
		w.forever.ReallyKill()
		return
	case "ping":
		if w.closed {
			return
		}
		w.blocked++
		w.fake.Ping()
		w.blocked--
		w.tokens++
		return
	case "recv":
		select {
		case _, ok := <-w.fake.Changes():
			if ok {
				w.tokens--
			} else if !w.closed {
				r.Violate("T01", "T01/fake-close", "the fake watcher's channel was closed by nobody")
			}
		default:
		}
		return
	case "close":
		if !w.closed && w.blocked == 0 {
			w.closed = true
			w.fake.Close()
		}
		return
	}
	failed := c.Failed()
	now := r.Now()
	r.E("ret %s w%d (call %d): failed %v, %v", o.Kind, w.n, seq, failed, err)
	if kills && w.spec.Kind == 0 && !w.killed {
		r.Violate("T01", "T01/not-killed", "%s did not kill the worker", o.Kind)
	}
	if !kills && w.spec.Kind == 0 && w.killed && !w.asked {
		r.Violate("T01", "T01/kills", "%s killed the worker", o.Kind)
	}
	m.res = append(m.res, result{o.Kind, w, t, now, failed, err, timeout})
}

// result is the outcome of a helper; it is judged when the ends of all workers
// are known.
type result struct {
	kind    string
	w       *wk
	t, now  time.Duration
	failed  bool
	err     error
	timeout time.Duration
}

func (m *model) judge(x result) {
	r, w, t, now, failed, err, ended := m.r, x.w, x.t, x.now, x.failed, x.err, x.w.ended
	if !r.Exact {
		// late delivery only
		if x.kind == "alive" && failed && !(ended && w.endT <= now+time.Minute) {
			r.Violate("T01", "T01/alive", "CheckAlive failed for a running worker")
		}
		if (x.kind == "killed" || x.kind == "kill") && !failed && err != w.want {
			r.Violate("T01", "T01/killed", "%s returned %v, the worker's error is %v", x.kind, err, w.want)
		}
		return
	}
	// the worker may end at the very instant of the timeout
	limit := t + x.timeout
	inTime, late := ended && w.endT < limit, !w.ended || w.endT > limit
	switch {
	case inTime && now != max(t, w.endT), late && now != limit, now > limit:
		r.Violate("T01", "T01/time", "%s called at %v returned at %v (ended %v at %v)", x.kind, t, now, w.ended, w.endT)
	}
	switch x.kind {
	case "alive":
		if inTime && !failed || late && failed {
			r.Violate("T01", "T01/alive", "CheckAlive called at %v, worker ended: %v at %v, failed: %v", t, w.ended, w.endT, failed)
		}
	case "killed", "kill":
		if inTime && (failed || err != w.want) || late && (!failed || err == nil) {
			r.Violate("T01", "T01/killed", "%s called at %v, worker ended: %v at %v, failed: %v, %v", x.kind, t, w.ended, w.endT, failed, err)
		}
	case "clean":
		if inTime && failed != (w.want != nil) || late && !failed {
			r.Violate("T01", "T01/clean", "CleanKill called at %v, worker ended: %v at %v with %v, failed: %v", t, w.ended, w.endT, w.want, failed)
		}
	case "dirty":
		if inTime && failed || late && !failed {
			r.Violate("T01", "T01/dirty", "DirtyKill called at %v, worker ended: %v at %v, failed: %v", t, w.ended, w.endT, failed)
		}
	case "nilor":
		if !failed {
			r.Violate("T01", "T01/nilor", "CheckNilOrKill accepted a worker")
		}
	}
}

// Run executes a scenario.
func (Fam) Run(x any, r *core.Run) {
	sc := x.(*Scenario)
	m := &model{r: r}
	for i, s := range sc.Ws {
		w := &wk{m: m, spec: s, n: i, killc: make(chan struct{}), done: make(chan struct{})}
		m.ws = append(m.ws, w)
		if !w.build() {
			for _, w := range m.ws[:i] {
				w.stop()
			}
			time.Sleep(900 * time.Second)
			return
		}
	}
	m.live = len(sc.Clients)
	for _, ops := range sc.Clients {
		go func() {
			for _, o := range ops {
				m.do(o)
			}
			m.live--
		}()
	}
	time.Sleep(900 * time.Second)
	r.Settle()
	for k := 0; k < 30; k++ { // unblock writers to full fake watchers
		for _, w := range m.ws {
			for w.blocked > 0 {
				<-w.fake.Changes()
				w.tokens--
				time.Sleep(20 * time.Second)
			}
		}
		time.Sleep(60 * time.Second)
	}
	time.Sleep(900 * time.Second)
	r.Settle()
	if m.live != 0 {
		r.Violate("T01", "T01/hang", "%d clients never return", m.live)
		return
	}
	for _, x := range m.res {
		m.judge(x)
	}
	for _, w := range m.ws {
		if w.spec.Kind == 4 {
			n := len(w.fake.Changes())
			if n != w.tokens {
				r.Violate("T01", "T01/fake-tokens", "the fake watcher holds %d changes, should be %d", n, w.tokens)
			}
			if w.closed {
				for ; n > 0; n-- {
					<-w.fake.Changes()
				}
				select {
				case _, ok := <-w.fake.Changes():
					if ok {
						r.Violate("T01", "T01/fake-tokens", "the fake watcher has a change too many")
					}
				default:
					r.Violate("T01", "T01/fake-open", "the fake watcher was closed but its channel is open")
				}
			}
		}
		if (w.spec.Kind == 1 || w.spec.Kind == 4) && w.ended != w.asked || w.spec.Kind == 3 && w.ended != w.realk || w.spec.Kind == 2 && !w.ended {
			r.Violate("T01", "T01/worker-ends", "worker %d (kind %d) killed %v, really %v, ended %v", w.n, w.spec.Kind, w.asked, w.realk, w.ended)
		}
		w.stop()
	}
	time.Sleep(900 * time.Second)
	r.Settle()
	for _, w := range m.ws {
		if !w.ended {
			r.Violate("T01", "T01/worker-ends", "worker %d (kind %d) does not end", w.n, w.spec.Kind)
			return
		}
	}
	if n := r.Gs(); n != 0 {
		r.Violate("T01", "T01/leak", "%d goroutines left", n)
	}
}

func (w *wk) stop() {
	if w.ended {
		return
	}
	w.ask(w.m.r.Now())
	w.w.Kill()
	if w.forever != nil {
		if !w.realk {
			w.realk, w.killT = true, w.m.r.Now()
		}
		w.forever.ReallyKill()
	}
}
