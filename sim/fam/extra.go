package fam

import (
	"gopkg.in/tomb.v2"

	"github.com/juju/worker/v4"
)

// Workers in the wild have more methods than Kill and Wait, and code may look
// for them. An xWorker has the usual ones, and they tell the truth.

type mortal interface {
	worker.Worker
	life() *life
	gone() <-chan struct{}
	result() error
}

// life is closed when its worker is told to stop, or ends.
type life struct {
	dying chan struct{}
	over  bool
}

func newLife() life { return life{dying: make(chan struct{})} }

func (l *life) end() {
	if !l.over {
		l.over = true
		close(l.dying)
	}
}

type xWorker struct{ mortal }

func (x xWorker) Dying() <-chan struct{} { return x.life().dying }
func (x xWorker) Alive() bool            { return !x.life().over }
func (x xWorker) Stop() error            { x.Kill(); return x.Wait() }
func (x xWorker) Err() error {
	select {
	case <-x.gone():
		return x.result()
	default:
	}
	if x.life().over {
		return nil
	}
	return tomb.ErrStillAlive
}

// xDeader has a Dead method as well.
type xDeader struct{ xWorker }

func (x xDeader) Dead() <-chan struct{} { return x.gone() }

// xReporter has a Report method as well.
type xReporter struct {
	xDeader
	rep interface{ Report() map[string]interface{} }
}

func (x xReporter) Report() map[string]interface{} { return x.rep.Report() }

// bare returns the harness's own worker.
func bare(w worker.Worker) worker.Worker {
	switch w := w.(type) {
	case xWorker:
		return w.mortal
	case xDeader:
		return w.mortal
	case xReporter:
		return w.mortal
	}
	return w
}
