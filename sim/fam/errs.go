// Package fam holds the workload families and their oracles.
package fam

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"time"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"gopkg.in/tomb.v2"

	"verif/sim/core"
)

// SimErr is an error made by a simulated worker; every instance is distinct.
type SimErr struct {
	Class string
	N     int
	wrap  error
	how   string
}

// Unwrap makes the error look like one of those that real workers pass on.
func (e *SimErr) Unwrap() error { return e.wrap }

// Error runs no instrumented code: logging it must not yield.
func (e *SimErr) Error() string {
	if e.wrap != nil {
		return fmt.Sprintf("%s-%d: %s", e.Class, e.N, e.how)
	}
	return fmt.Sprintf("%s-%d", e.Class, e.N)
}

// Rank orders fatal errors by importance.
func (e *SimErr) Rank() int {
	if strings.HasPrefix(e.Class, "fatal") && len(e.Class) > 5 {
		return int(e.Class[5] - '0')
	}
	return 0
}

// PanicErr looks like the error of a contained panic.
type PanicErr struct{ SimErr }

func (e *PanicErr) StackTrace() []string { return []string{"frame 1", "frame 2"} }
func (e *PanicErr) Panicked() bool       { return true }

// TimeoutErr looks like a network timeout.
type TimeoutErr struct{ *SimErr }

func (e *TimeoutErr) Timeout() bool   { return true }
func (e *TimeoutErr) Temporary() bool { return true }
func (e *TimeoutErr) Unwrap() error   { return e.SimErr }

type errMaker struct {
	n    int
	same map[string]error
}

func (m *errMaker) make(class string) error {
	if class == "" || class == "nil" {
		return nil
	}
	m.n++
	if k := strings.LastIndex(class, ":"); k >= 0 {
		if rest, ok := strings.CutPrefix(class, "same/"); ok { // one value, returned again and again
			if m.same == nil {
				m.same = map[string]error{}
			}
			if m.same[rest] == nil {
				m.same[rest] = m.make(rest)
			}
			return m.same[rest]
		}
		how, e := class[:k], SimErr{Class: class[k+1:], N: m.n}
		switch how {
		case "p":
			return &PanicErr{e}
		case "wrapped":
			return jerrors.Annotate(&e, "wrapped")
		case "joined":
			return errors.Join(&e, io.EOF)
		case "timeout":
			return &TimeoutErr{&e}
		}
		e.wrap, e.how = wraps[how], wrapText[how] // none for "plain"
		return &e
	}
	return &SimErr{Class: class, N: m.n}
}

var wraps = map[string]error{
	"ctx": context.Canceled, "deadline": context.DeadlineExceeded, "tomb": tomb.ErrDying, "alive": tomb.ErrStillAlive,
	"dead": worker.ErrDead, "aborted": worker.ErrAborted, "notfound": jerrors.NotFound, "exists": jerrors.AlreadyExists, "again": jerrors.New("try again"),
	"eof": io.EOF, "closed": net.ErrClosed, "osdeadline": os.ErrDeadlineExceeded, "notvalid": jerrors.NotValid, "unauth": jerrors.Unauthorized,
	"unsupported": jerrors.NotSupported, "bounce": dependency.ErrBounce, "missing": dependency.ErrMissing, "uninstall": dependency.ErrUninstall,
}

var wrapText = func() map[string]string {
	t := map[string]string{}
	for k, e := range wraps {
		t[k] = e.Error()
	}
	return t
}()

// deco varies the kind of error, not its class.
func deco(r *core.Rng, class string) string {
	switch {
	case strings.HasPrefix(class, "fatal") && r.P(6):
		// fatal comes first, whatever else the error is.
		return core.Pick(r, "bounce", "missing", "uninstall") + ":" + class
	case class == "err", class == "retry", class == "drop", strings.HasPrefix(class, "fatal"):
		if r.P(20) {
			return pickHow(r) + ":" + class
		}
	}
	return class
}

func pickHow(r *core.Rng) string {
	how := core.Pick(r, "ctx", "ctx", "deadline", "tomb", "alive", "dead", "aborted", "notfound", "exists", "again", "eof", "closed", "osdeadline", "notvalid", "unauth", "unsupported", "joined", "plain", "plain", "wrapped", "wrapped", "timeout", "p")
	if how == "plain" || r.P(15) {
		how = "same/" + how
	}
	return how
}

// habit returns a deco for one scenario. In some all errors are alike: the
// failure has one cause, and lasts.
func habit(r *core.Rng) func(r *core.Rng, class string) string {
	if !r.P(8) {
		return deco
	}
	how := pickHow(r)
	return func(r *core.Rng, class string) string {
		if (class == "err" || class == "retry" || class == "drop" || strings.HasPrefix(class, "fatal")) && !r.P(20) {
			return how + ":" + class
		}
		return deco(r, class)
	}
}

func classOf(err error) string {
	if err == nil {
		return "nil"
	}
	var s *SimErr
	if errors.As(err, &s) {
		return s.Class
	}
	var p *PanicErr
	if errors.As(err, &p) {
		return p.Class
	}
	return "other"
}

func rankOf(err error) int {
	var s *SimErr
	if errors.As(err, &s) {
		return s.Rank()
	}
	var p *PanicErr
	if errors.As(err, &p) {
		return p.Rank()
	}
	return 0
}

// odd names: empty, prefixes of each other, case, separators.
var oddNames = []string{"a", "", "ab", "a/b", "A", "a ", "ab-c", "é", "0", "a.b", "%s", "ab\n"}

func nameOf(prefix string, odd bool, k int) string {
	if odd && k < len(oddNames) {
		return oddNames[k]
	}
	return fmt.Sprintf("%s%d", prefix, k)
}

// clockTime is how a report gives the instant t.
func clockTime(r *core.Run, t time.Duration) string {
	return time.Now().Add(t - r.Now()).UTC().Format("2006-01-02 15:04:05")
}

// spoil empties a report, which belongs to the one who asked for it.
func spoil(rep map[string]interface{}, deep int) {
	for k, v := range rep {
		if sub, ok := v.(map[string]interface{}); ok && deep > 0 {
			spoil(sub, deep-1)
		}
		delete(rep, k)
	}
}

// scale stretches the time of the current run: some faults need hours.
var scale time.Duration = 1

// waits is the scale of the final waits.
var waits time.Duration = 1

func setScale(n int, stall, long bool) {
	scale = 1
	if n > 1 && !stall { // stalls are not stretched
		scale = time.Duration(n)
	}
	waits = scale
	if long {
		waits = max(scale, 5000)
	}
}

// rarely makes some of the durations f picks take a day or two.
func rarely(r *core.Rng, long *bool, f func() int) func() int {
	*long = *long || r.P(3)
	return func() int {
		if *long && r.P(20) {
			return (20 + r.N(30)) * 3600 * 1000
		}
		return f()
	}
}

// crowd is true for the few scenarios that are much larger than others.
func crowd(r *core.Rng) bool { return r.N(250) == 0 }

func pickScale(r *core.Rng) int {
	if r.P(15) {
		return core.Pick(r, 60, 1000, 3600)
	}
	return 0
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond * scale }

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

// yieldLogger gives the scheduler a chance at every log call.
type yieldLogger struct{}

func (yieldLogger) Tracef(string, ...interface{}) { core.Yield() }
func (yieldLogger) Debugf(string, ...interface{}) { core.Yield() }
func (yieldLogger) Infof(string, ...interface{})  { core.Yield() }
func (yieldLogger) Errorf(string, ...interface{}) { core.Yield() }

// simClock is the Clock seam: real bubble time, optionally late timers and a
// wall clock that jumps.
type simClock struct {
	r    *core.Run
	late []int // ms added to successive timers
	jump []int // ms added to successive Now readings (wall clock steps)
	n, m int
}

func (c *simClock) Now() time.Time {
	t := time.Now()
	if len(c.jump) > 0 {
		j := c.jump[c.m%len(c.jump)]
		c.m++
		if j != 0 {
			c.r.Fault("clock-jump")
			t = t.Add(ms(j))
		}
	}
	return t
}

func (c *simClock) After(d time.Duration) <-chan time.Time {
	if len(c.late) > 0 {
		l := c.late[c.n%len(c.late)]
		c.n++
		if l > 0 && d > 0 {
			c.r.Fault("late-timer")
			d += ms(l)
		}
	}
	return time.After(d)
}

func maxInt(vs []int) int {
	m := 0
	for _, v := range vs {
		if v > m {
			m = v
		}
	}
	return m
}

// after closes the returned channel after d ms; negative: never; zero: now.
func abortAfter(r *core.Run, d int, onFire func()) (<-chan struct{}, func()) {
	ch := make(chan struct{})
	if d < 0 {
		return ch, func() {}
	}
	if d == 0 {
		onFire()
		close(ch)
		return ch, func() {}
	}
	t := time.AfterFunc(ms(d), func() {
		onFire()
		close(ch)
	})
	return ch, func() { t.Stop() }
}

func ctxAfter(d int, onFire func()) (context.Context, func()) {
	if d < 0 {
		return context.Background(), func() {}
	}
	ctx, cancel := context.WithCancel(context.Background())
	if d == 0 {
		onFire()
		cancel()
		return ctx, cancel
	}
	t := time.AfterFunc(ms(d), func() {
		onFire()
		cancel()
	})
	return ctx, func() { t.Stop() }
}
