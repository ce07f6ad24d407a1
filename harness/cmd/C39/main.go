package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wujiu2020/strip/utils"
	"stripverif/h"
)

type taskError struct{ id int }

func (e *taskError) Error() string { return fmt.Sprint("task ", e.id, " failed") }

type task struct {
	id              int
	fails           bool
	asked, given    int64 // clock before and after RunTask
	runs            atomic.Int32
	started, ended  atomic.Int64 // clock inside the task
	closes          bool
	returnedToGiver atomic.Bool
}

func pause(r *rand.Rand) {
	switch r.IntN(5) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(r.IntN(150)) * time.Microsecond)
	case 2:
		for n := r.IntN(400); n > 0; n-- {
			runtime.KeepAlive(n)
		}
	}
}

// mixed: goroutines give tasks, some fail, some close the worker; one or more
// goroutines wait.
func mixed(c *h.C) {
	limit := 1 + c.IntN(6)
	w := utils.NewWorker(limit)
	var clock atomic.Int64
	var mu sync.Mutex
	var tasks []*task
	var closeAsked, closeDone atomic.Int64 // first
	first := func(a *atomic.Int64) {
		n := clock.Add(1)
		for {
			o := a.Load()
			if o != 0 && o < n || a.CompareAndSwap(o, n) {
				return
			}
		}
	}
	doClose := func() {
		first(&closeAsked)
		w.Close()
		first(&closeDone)
	}
	var waitErr atomic.Int64 // first return of a Wait with an error
	var errs []error
	wait := func() error {
		err := w.Wait()
		if err != nil {
			first(&waitErr)
			mu.Lock()
			errs = append(errs, err)
			mu.Unlock()
		}
		return err
	}
	subs, per := 1+c.IntN(4), 1+c.IntN(15)
	failing := []int{0, 3, 15, 60, 100}[c.IntN(5)]
	closing := []int{0, 0, 2, 10}[c.IntN(4)]
	inTask := c.Chance(50)
	waiters := c.IntN(3)
	var wg, ww sync.WaitGroup
	var over atomic.Bool
	for s := 0; s < subs; s++ {
		r := rand.New(rand.NewPCG(c.Uint64(), uint64(s)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				t := &task{fails: r.IntN(100) < failing, closes: inTask && r.IntN(100) < closing}
				mu.Lock()
				t.id = len(tasks)
				tasks = append(tasks, t)
				mu.Unlock()
				rr := rand.New(rand.NewPCG(r.Uint64(), 1))
				body := func() {
					t.started.Store(clock.Add(1))
					if n := t.runs.Add(1); n != 1 {
						c.Fail("twice", "task %d ran %d times", t.id, n)
					}
					pause(rr)
					if t.closes {
						doClose()
						pause(rr)
					}
					t.ended.Store(clock.Add(1))
				}
				asked := clock.Add(1)
				if t.fails || r.IntN(2) == 0 {
					w.RunTask(func() error {
						body()
						if t.fails {
							return &taskError{t.id}
						}
						return nil
					})
				} else {
					w.RunTask(body)
				}
				mu.Lock()
				t.asked, t.given = asked, clock.Add(1)
				mu.Unlock()
				pause(r)
				if !inTask && r.IntN(100) < closing {
					doClose()
					if r.IntN(2) == 0 {
						doClose()
					}
				}
			}
		}()
	}
	for s := 0; s < waiters; s++ {
		r := rand.New(rand.NewPCG(c.Uint64(), uint64(s)))
		ww.Add(1)
		go func() {
			defer ww.Done()
			for i := 0; i < 50 && !over.Load(); i++ {
				wait()
				pause(r)
			}
		}()
	}
	wg.Wait()
	last := wait()
	end := clock.Add(1)
	over.Store(true)
	ww.Wait()

	ran, failed := 0, 0
	var firstFail int64 // a failing task's end
	for _, t := range tasks {
		if t.runs.Load() > 0 {
			ran++
			if t.ended.Load() == 0 || t.started.Load() > end {
				c.Fatal("early-wait", "the last Wait returned before task %d, given before, has finished", t.id)
			}
			if t.fails {
				failed++
				if e := t.ended.Load(); firstFail == 0 || e < firstFail {
					firstFail = e
				}
			}
		}
	}
	for _, t := range tasks {
		n := t.runs.Load()
		stopped := ""
		if d := closeDone.Load(); d != 0 && t.asked > d {
			stopped = "Close returned"
		}
		if d := waitErr.Load(); d != 0 && t.asked > d {
			stopped = "Wait reported an error"
		}
		if n > 0 && stopped != "" {
			c.Fail("ran-after-stop", "task %d was given after %s and ran", t.id, stopped)
		}
		if n == 0 {
			if (firstFail == 0 || t.given < firstFail) && (closeAsked.Load() == 0 || t.given < closeAsked.Load()) {
				c.Fail("lost", "task %d was accepted before any task failed and before Close was called, and did not run", t.id)
			}
			c.Count("tasks refused", 1)
		}
	}
	known := func(err error) bool {
		e, ok := err.(*taskError)
		return ok && e.id < len(tasks) && tasks[e.id].fails && tasks[e.id].runs.Load() > 0
	}
	for _, err := range errs {
		if !known(err) {
			c.Fail("foreign-error", "Wait reports %v, which no task that ran returned", err)
		}
	}
	if failed > 0 && len(errs) == 0 {
		c.Fail("error-lost", "%d of %d tasks that ran returned an error, no Wait reported one (limit %d, closed %v, concurrent waiters %d)", failed, ran, limit, closeAsked.Load() != 0, waiters)
	}
	if failed > 0 && waiters == 0 && last == nil {
		c.Fail("error-lost", "%d tasks returned an error, the Wait after them reports none", failed)
	}
	if limit == 1 && waiters == 0 && failed > 0 {
		var f *task
		for _, t := range tasks {
			if t.fails && t.runs.Load() > 0 && (f == nil || t.ended.Load() < f.ended.Load()) {
				f = t
			}
		}
		if e, _ := last.(*taskError); e != nil && e.id != f.id {
			c.Fail("not-first", "tasks run one at a time: Wait reports the error of task %d, task %d failed before", e.id, f.id)
		}
		c.Count("sequential failures", 1)
	}
	if failed == 0 && last != nil {
		c.Fail("error-without-failure", "Wait reports %v, no task failed", last)
	}
	if err := w.Wait(); err != nil {
		c.Fail("reported-again", "the error %v is reported by a Wait after all errors were reported", err)
	}
	// a stopped worker stays stopped and can be closed again
	if failed > 0 || closeDone.Load() != 0 {
		var again atomic.Bool
		w.RunTask(func() { again.Store(true) })
		w.Close()
		w.Close()
		if err := w.Wait(); err != nil {
			c.Fail("reported-again", "Wait of a stopped worker without tasks reports %v", err)
		}
		if again.Load() {
			c.Fail("ran-after-stop", "a task given to a stopped worker ran")
		}
		c.Count("stopped workers", 1)
	}
	if failed > 0 {
		c.Count("runs with failures", 1)
	}
	if failed > 0 && closeAsked.Load() != 0 {
		c.Count("runs with failures and Close", 1)
	}
	c.Count("tasks run", ran)
	c.Eval(ran)
	c.Sig("%d %d %d %d %d %d %d %v", limit, subs, per, failing, closing, waiters, ran, failed)
}

// chain: all slots but one are taken by tasks that wait; failing tasks pass one
// after another through the last slot, so the first to run is the first error.
func chain(c *h.C) {
	limit := 1 + c.IntN(4)
	w := utils.NewWorker(limit)
	gate := make(chan bool)
	var done, blockers atomic.Int32
	for i := 0; i < limit-1; i++ {
		late := c.Chance(50)
		blockers.Add(1)
		w.RunTask(func() error {
			<-gate
			done.Add(1)
			if late {
				return &taskError{-1 - i}
			}
			return nil
		})
	}
	var firstRan atomic.Int32
	firstRan.Store(-1)
	n := 2 + c.IntN(4)
	subs := 1
	if c.Chance(50) {
		subs = n
	}
	var wg sync.WaitGroup
	give := func(i int) {
		w.RunTask(func() error {
			firstRan.CompareAndSwap(-1, int32(i))
			return &taskError{i}
		})
	}
	for s := 0; s < subs; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n/subs; i++ {
				give(s*(n/subs) + i)
			}
		}()
	}
	wg.Wait()
	close(gate)
	err := w.Wait()
	e, ok := err.(*taskError)
	if !ok {
		c.Fatal("error-lost", "%d failing tasks passed one after another, Wait reports %v", n, err)
	}
	if e.id != int(firstRan.Load()) {
		c.Fail("not-first", "failing tasks passed one slot one after another (%d of %d slots were taken by tasks that ended later): Wait reports the error of task %d, the first was %d", limit-1, limit, e.id, firstRan.Load())
	}
	if done.Load() != blockers.Load() {
		c.Fail("early-wait", "Wait returned with %d of %d accepted tasks finished", done.Load(), blockers.Load())
	}
	if err := w.Wait(); err != nil {
		c.Fail("reported-again", "a second Wait reports %v", err)
	}
	c.Count("chains", 1)
	c.Sig("chain %d %d %d", limit, n, subs)
}

// closed: Close while tasks run, from outside or inside a task, with other
// goroutines waiting for a slot; accepted tasks finish and their errors count.
func closed(c *h.C) {
	limit := 1 + c.IntN(3)
	w := utils.NewWorker(limit)
	inside := c.Chance(60)
	fails := c.Chance(60)
	blocked := c.IntN(3)
	twice := c.Chance(50)
	waiting := c.Chance(50)
	gate := make(chan bool)
	var started sync.WaitGroup
	var done atomic.Int32
	started.Add(limit)
	for i := 0; i < limit; i++ {
		w.RunTask(func() error {
			started.Done()
			<-gate
			if inside {
				w.Close()
				if twice {
					w.Close()
				}
			}
			done.Add(1)
			if fails && i == 0 {
				return &taskError{i}
			}
			return nil
		})
	}
	started.Wait()
	var wg sync.WaitGroup
	var lateRan atomic.Int32
	for i := 0; i < blocked; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.RunTask(func() { lateRan.Add(1) })
		}()
	}
	if blocked > 0 {
		time.Sleep(time.Duration(200+c.IntN(800)) * time.Microsecond)
	}
	res := make(chan error, 1)
	if waiting {
		go func() { res <- w.Wait() }()
		runtime.Gosched()
	}
	if !inside {
		if blocked > 0 {
			// Close may have to wait until a task has ended
			wg.Add(1)
			go func() { defer wg.Done(); w.Close() }()
			runtime.Gosched()
			close(gate)
		} else {
			w.Close()
			if twice {
				w.Close()
			}
			close(gate)
		}
	} else {
		close(gate)
	}
	wg.Wait()
	if !waiting {
		res <- w.Wait()
	}
	err := <-res
	if waiting && err == nil {
		// the error is reported to this Wait or the next
		err = w.Wait()
	}
	if int(done.Load()) != limit {
		c.Fail("lost", "%d of %d tasks accepted before Close finished", done.Load(), limit)
	}
	if e, ok := err.(*taskError); fails && (!ok || e.id != 0) {
		c.Fail("error-lost", "a task accepted before Close returned an error (Close inside a task: %v), Wait reports %v", inside, err)
	}
	if !fails && err != nil {
		c.Fail("error-without-failure", "Wait reports %v after Close, no task failed", err)
	}
	if err := w.Wait(); err != nil {
		c.Fail("reported-again", "another Wait reports %v", err)
	}
	var again atomic.Bool
	w.RunTask(func() { again.Store(true) })
	w.Wait()
	if again.Load() {
		c.Fail("ran-after-stop", "a task given after Close ran")
	}
	c.Count("closed workers", 1)
	if blocked > 0 {
		c.Count("closed with callers waiting for a slot", 1)
	}
	c.Sig("closed %d %v %v %d %v %v %d", limit, inside, fails, blocked, twice, waiting, lateRan.Load())
}

func main() {
	h.Main(h.Spec{
		ID:   "C39",
		Rule: "goroutines give tasks, some of which fail or close the worker, while others wait or close it, with yields, sleeps and spins; directed cases pass failing tasks through one slot and close the worker while callers wait for a slot; monitors compare what ran and what every Wait reported with the recorded order of events; a case that does not end is a violation; all under the race detector",
		Assumptions: []string{
			"schedules are those the Go scheduler produced with the injected pauses",
			"a task whose RunTask overlaps the error or Close may run or not",
		},
		Min:         map[string]int64{"tasks run": 5000, "tasks refused": 1000, "runs with failures": 200, "runs with failures and Close": 50, "sequential failures": 20, "chains": 100, "closed workers": 100, "closed with callers waiting for a slot": 50, "stopped workers": 200},
		MinDistinct: 300,
		Run: func(r *h.R) {
			r.Loop("chain", r.N(300, 10000), chain)
			r.Loop("closed", r.N(300, 10000), closed)
			r.Loop("mixed", r.N(1200, 50000), mixed)
		},
	})
}
