From eb6c91068e661c7f7f700885ce933965904f1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 01/13] fix: report the first fatal error when MoreImportant is
 not given

RunnerParams documents that without MoreImportant the first error reported
is returned, but the default let every later error replace it.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bda5937..bc35766 100644
--- a/runner.go
+++ b/runner.go
@@ -220,7 +220,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	}
 	if p.MoreImportant == nil {
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From 8305f30374641319f10994d4d3cc5ddc92049810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 02/13] fix: wake every StopAndRemoveWorker caller when the
 worker is removed

A single token was sent on removal, so all but one of several concurrent
StopAndRemoveWorker callers waited forever.
---
 runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runner.go b/runner.go
index bc35766..3b771af 100644
--- a/runner.go
+++ b/runner.go
@@ -94,7 +94,7 @@ type workerInfo struct {
 	// still exist while this is true.
 	stopping bool
 
-	// done is used to signal when the worker has finished
+	// done is closed when the worker has finished
 	// running and is removed from the runner.
 	done chan struct{}
 
@@ -486,7 +486,7 @@ func (runner *Runner) startWorker(req startReq) error {
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
-		done:         make(chan struct{}, 1),
+		done:         make(chan struct{}),
 	}
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
@@ -563,7 +563,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	close(removed)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From b0c44b562d1f928b0b59d4ffe742183f72d9caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 03/13] fix: forget a finished worker instance while its
 restart is pending

Worker and Report kept using the dead instance during the restart delay.
---
 runner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runner.go b/runner.go
index 3b771af..c1cb608 100644
--- a/runner.go
+++ b/runner.go
@@ -551,6 +551,12 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	// The instance that has just finished must not be handed out
+	// by Worker or Report while its replacement is pending.
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
+
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From 2639fa343cd5c56614705989d45e293db19baf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 04/13] fix: abandon pending restarts when a runner dies of a
 fatal error

The runner's tomb was not killed, so restart delays were waited out and a
worker was started only to be killed, start contexts were not cancelled and
Worker calls kept blocking.
---
 runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner.go b/runner.go
index c1cb608..3f0b170 100644
--- a/runner.go
+++ b/runner.go
@@ -529,6 +529,9 @@ func (runner *Runner) workerDone(info doneInfo) {
 			runner.removeWorker(info.id, workerInfo.done)
 			if !runner.isDying {
 				runner.isDying = true
+				// Anything waiting on the tomb (restart delays, start
+				// contexts, Worker calls) has to notice the shutdown too.
+				runner.tomb.Kill(nil)
 				runner.killAll()
 			}
 			return
-- 
2.43.0


From 941617c87f6bf30f5876c6231f77ca32a4b3186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 05/13] fix: do not leak the waiting goroutine of an aborted
 Worker call

The goroutine could check the stopped channel, then miss the broadcast.
---
 runner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runner.go b/runner.go
index 3f0b170..aa2d437 100644
--- a/runner.go
+++ b/runner.go
@@ -419,8 +419,12 @@ func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-ch
 	// than needed, but this shouldn't be a problem as in practice
 	// almost all the time Worker should not need to start the
 	// goroutine.
+	// The mutex is held so that the goroutine cannot miss this
+	// between checking stopped and starting to wait.
+	runner.mu.Lock()
 	close(stopped)
 	runner.workersChangedCond.Broadcast()
+	runner.mu.Unlock()
 	return nil, nil, ErrAborted
 }
 
-- 
2.43.0


From 3e68fbb5b64f0d1a8481c5648605760cf69dcbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 06/13] fix: StopAndRemoveWorker removes a worker that stops
 with an error

The runner was not told that the worker is being stopped: if it ended with
a restartable error it was restarted and the call hung. The abort channel
was also ignored while the worker was stopping.
---
 runner.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/runner.go b/runner.go
index aa2d437..3a5357c 100644
--- a/runner.go
+++ b/runner.go
@@ -32,7 +32,7 @@ type StartFunc = func(context.Context) (Worker, error)
 type Runner struct {
 	tomb     tomb.Tomb
 	startc   chan startReq
-	stopc    chan string
+	stopc    chan stopReq
 	donec    chan doneInfo
 	startedc chan startInfo
 
@@ -119,6 +119,14 @@ type startReq struct {
 	reply chan error
 }
 
+type stopReq struct {
+	id string
+
+	// done, if not nil, identifies the registration to stop; one that
+	// has taken over the id since then is left alone.
+	done <-chan struct{}
+}
+
 type startInfo struct {
 	id     string
 	worker Worker
@@ -235,7 +243,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 
 	runner := &Runner{
 		startc:   make(chan startReq),
-		stopc:    make(chan string),
+		stopc:    make(chan stopReq),
 		donec:    make(chan doneInfo),
 		startedc: make(chan startInfo),
 		params:   p,
@@ -276,7 +284,7 @@ func (runner *Runner) StartWorker(ctx context.Context, id string, startFunc Star
 // StopWorker returns ErrDead if the runner is not running.
 func (runner *Runner) StopWorker(id string) error {
 	select {
-	case runner.stopc <- id:
+	case runner.stopc <- stopReq{id: id}:
 		return nil
 	case <-runner.tomb.Dead():
 	}
@@ -293,12 +301,18 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 	if err != nil {
 		return err
 	}
-	workerErr := Stop(w)
+	// The runner has to know that the worker is being stopped, or it
+	// would restart it if it stops with an error.
+	select {
+	case runner.stopc <- stopReq{id, done}:
+	case <-runner.tomb.Dead():
+		return ErrDead
+	}
 
 	select {
 	case <-abort:
 	case <-done:
-		return workerErr
+		return w.Wait()
 	}
 	return ErrAborted
 }
@@ -445,9 +459,9 @@ func (runner *Runner) run() error {
 			runner.params.Logger.Debugf("start %q", req.id)
 			req.reply <- runner.startWorker(req)
 
-		case id := <-runner.stopc:
-			runner.params.Logger.Debugf("stop %q", id)
-			runner.killWorker(id)
+		case req := <-runner.stopc:
+			runner.params.Logger.Debugf("stop %q", req.id)
+			runner.killWorker(req)
 
 		case info := <-runner.startedc:
 			runner.params.Logger.Debugf("%q started", info.id)
@@ -602,13 +616,16 @@ func (runner *Runner) killAll() {
 	}
 }
 
-// killWorker stops the worker with the given id, and
+// killWorker stops the worker with the requested id, and
 // marks it so that it will not start again unless explicitly started
 // with StartWorker.
-func (runner *Runner) killWorker(id string) {
+func (runner *Runner) killWorker(req stopReq) {
 	runner.mu.Lock()
 	defer runner.mu.Unlock()
-	runner.killWorkerLocked(id)
+	if info := runner.workers[req.id]; info != nil && req.done != nil && info.done != req.done {
+		return
+	}
+	runner.killWorkerLocked(req.id)
 }
 
 // killWorkerLocked is like killWorker except that it expects
-- 
2.43.0


From d61e236d71690bdb40dbd657da8f9a0df1bbf0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:42 +0000
Subject: [PATCH 07/13] fix: do not panic when a catacomb is killed with
 tomb.ErrStillAlive

Kill is documented to be always safe, but it passed the error on to the
tomb, which panics; this includes an error returned by a worker or by the
work func, such as the result of Err.
---
 catacomb/catacomb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 442b9dd..d715d9d 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -253,6 +253,9 @@ func (catacomb *Catacomb) Kill(err error) {
 	if err == tomb.ErrDying {
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
 	}
+	if err == tomb.ErrStillAlive {
+		err = errors.New("bad catacomb Kill: tomb.ErrStillAlive")
+	}
 	var dyingErr dyingError
 	if errors.As(err, &dyingErr) {
 		if catacomb != dyingErr.catacomb {
-- 
2.43.0


From 3be3a0ef4ed798410c00990159773fc76079b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:42 +0000
Subject: [PATCH 08/13] fix: ignore errors passed to Kill after a catacomb is
 dead

As documented; a catacomb that had died without error changed its result
when it was killed with an error later on.
---
 catacomb/catacomb.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index d715d9d..4f97af4 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -31,6 +31,10 @@ type Catacomb struct {
 	wg    sync.WaitGroup
 	adds  chan worker.Worker
 	dirty int32
+
+	// mu guards finished, which is set once the result is settled.
+	mu       sync.Mutex
+	finished bool
 }
 
 // Plan defines the strategy for an Invoke.
@@ -125,7 +129,12 @@ func Invoke(plan Plan) (err error) {
 	)
 	pprof.Do(catacomb.scopedContext(), labels, func(ctx context.Context) {
 		catacomb.tomb.Go(func() error {
-			defer catacomb.wg.Wait()
+			defer func() {
+				catacomb.wg.Wait()
+				catacomb.mu.Lock()
+				catacomb.finished = true
+				catacomb.mu.Unlock()
+			}()
 			catacomb.Kill(runSafely(plan.Work))
 			return nil
 		})
@@ -265,6 +274,12 @@ func (catacomb *Catacomb) Kill(err error) {
 		}
 	}
 
+	catacomb.mu.Lock()
+	defer catacomb.mu.Unlock()
+	if catacomb.finished {
+		return
+	}
+
 	// TODO(fwereade) it's pretty clear that this ought to be a Kill(nil), and
 	// the catacomb should be responsible for ranking errors, just like the
 	// dependency.Engine does, rather than determining priority by scheduling
-- 
2.43.0


From a3652ce8aa68d16309c03b0d4ee06b8de2d59271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:54 +0000
Subject: [PATCH 09/13] fix: never scale a restart delay below the configured
 one

With BackoffFactor set, a manifold with no recent errors (it completed
cleanly, or was stopped because an input changed) was restarted after
BounceDelay/BackoffFactor instead of BounceDelay.
---
 dependency/engine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..116d791 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,11 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			// A worker that is started again without having failed (because it
+			// completed, or because its inputs changed) has no recent errors;
+			// the delay must never be scaled below the configured one.
+			exponent := math.Max(float64(info.recentErrors-1), 0)
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, exponent)
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
 			} else {
-- 
2.43.0


From cfe84c6bd5ad459aaed4ecce0c317cc0ed788615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:07 +0000
Subject: [PATCH 10/13] fix: do not leak the self manifold's goroutine when the
 engine dies

The loop exits without waiting for the self manifold's worker, whose
goroutine could then block for ever on reporting that it had stopped.
---
 dependency/engine.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 116d791..97ff0cf 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -570,11 +570,17 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 	}
 
 	// We may or may not send on started, but we *must* send on stopped.
-	engine.stopped <- stoppedTicket{
+	ticket := stoppedTicket{
 		name:        name,
 		err:         startWorkerAndWait(),
 		resourceLog: snapshot.accessLog,
 	}
+	select {
+	case engine.stopped <- ticket:
+	case <-engine.tomb.Dead():
+		// The loop doesn't wait for the self manifold, because that would
+		// never stop; so it may already be gone by now.
+	}
 }
 
 // gotStarted updates the engine to reflect the creation of a worker. It must
-- 
2.43.0


From 81ac12ac5dd8ff526be994c2d2641d80d9b7253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 11/13] fix: report when a restarted worker was last started

---
 runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner.go b/runner.go
index 3a5357c..da05e6b 100644
--- a/runner.go
+++ b/runner.go
@@ -600,6 +600,7 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0


From a42b8f7aba04fdcf425e03a27e304dff166d68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 12/13] fix: report a worker that is being stopped as stopping

---
 runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index da05e6b..2915577 100644
--- a/runner.go
+++ b/runner.go
@@ -103,7 +103,9 @@ type workerInfo struct {
 }
 
 func (i *workerInfo) status() string {
-	if i.stopping && i.worker != nil {
+	if i.stopping {
+		// The worker itself is not known any more by now, so that it
+		// isn't handed out.
 		return "stopping"
 	}
 	if i.worker == nil {
-- 
2.43.0


From 5ab3c5c808a6fb96feb4a9befb9a15ed9da6a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 13/13] fix: release the start context of a worker that has
 stopped

---
 dependency/engine.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dependency/engine.go b/dependency/engine.go
index 97ff0cf..479d19f 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -671,6 +671,12 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		engine.tomb.Kill(nil)
 	}
 
+	// Nothing uses the start context any more; unless it's cancelled, the tomb
+	// holds on to it until the engine dies.
+	if info.cancel != nil {
+		info.cancel()
+	}
+
 	// Reset engine info; and bail out if we can be sure there's no need to bounce.
 	engine.current[name] = workerInfo{
 		err:         err,
-- 
2.43.0

