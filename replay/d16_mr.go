package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
)

// mrRun is one map-reduce: what happens when, and what was seen.
type mrRun struct {
	n        int  // items
	workers  int  // option, 99 = none given
	outs     int  // outputs written per item
	slow     bool // items and mappers take some time
	early    bool // the reducer writes its result after the first output
	noWrite  bool // the reducer writes nothing
	useChan  bool // MapReduceChan
	failAt   int  // item at which the mapper fails, -1: none
	fail     string
	second   bool // another mapper cancels with another error when the first cancel has returned
	genPanic int  // the generator panics after so many items, -1: never
	red      string
	ctx      string

	mapped  []int32
	active  atomic.Int32
	maxAct  atomic.Int32
	reduced []int
	redDone atomic.Bool
	genDone atomic.Bool
}

func (r *mrRun) String() string {
	s := fmt.Sprintf("map-reduce of %d items", r.n)
	if r.useChan {
		s += " from a given channel"
	}
	if r.workers != 99 {
		s += fmt.Sprintf(", WithWorkers(%d)", r.workers)
	}
	s += fmt.Sprintf(", %d outputs per item", r.outs)
	if r.slow {
		s += ", with pauses"
	}
	if r.failAt >= 0 {
		s += fmt.Sprintf(", the mapper of item %d %s", r.failAt, r.fail)
		if r.second {
			s += " and another mapper cancels with another error afterwards"
		}
	}
	if r.genPanic >= 0 {
		s += fmt.Sprintf(", the generator panics after %d items", r.genPanic)
	}
	if r.early {
		s += ", the reducer writes its result after the first output"
	}
	if r.noWrite {
		s += ", the reducer writes nothing"
	}
	if r.red != "" {
		s += ", the reducer " + r.red
	}
	if r.ctx != "" {
		s += ", context " + r.ctx
	}
	return s
}

func (r *mrRun) pause(k int) {
	if r.slow {
		if k%3 == 0 {
			time.Sleep(time.Duration(k%7) * 50 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}

func (r *mrRun) enter() {
	a := r.active.Add(1)
	for {
		m := r.maxAct.Load()
		if a <= m || r.maxAct.CompareAndSwap(m, a) {
			return
		}
	}
}

type mrPanic struct{ who string }

var errMap, errMap2, errRed = errors.New("mapper error"), errors.New("second mapper error"), errors.New("reducer error")

func (t *T) mrCheck(r *mrRun) {
	base := runtime.NumGoroutine()
	r.mapped = make([]int32, r.n)
	var opts []mr.Option
	limit := 16
	if r.workers != 99 {
		opts = append(opts, mr.WithWorkers(r.workers))
		limit = r.workers
		if limit < 1 {
			limit = 1
		}
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	if r.ctx != "" {
		opts = append(opts, mr.WithContext(ctx))
	}
	if r.ctx == "cancelled before" {
		stop()
	}
	gen := func(source chan<- int) {
		defer r.genDone.Store(true)
		for i := 0; i < r.n; i++ {
			if i == r.genPanic {
				panic(mrPanic{"generator"})
			}
			if i == 12 && r.fail == "cancels while the context ends" {
				stop() // the only worker is cancelling: it is the cancellation that takes the items
			}
			r.pause(i)
			source <- i
		}
		if r.genPanic == r.n {
			panic(mrPanic{"generator"})
		}
	}
	var cancelled = make(chan struct{})
	mapper := func(item int, w mr.Writer[int], cancel func(error)) {
		r.enter()
		defer r.active.Add(-1)
		atomic.AddInt32(&r.mapped[item], 1)
		r.pause(item + 1)
		if item == r.failAt {
			switch r.fail {
			case "cancels":
				cancel(errMap)
				close(cancelled)
			case "cancels with nil":
				cancel(nil)
			case "panics":
				panic(mrPanic{"mapper"})
			case "cancels while the context ends":
				cancel(errMap)
			}
			return
		}
		if r.second && item == r.failAt+1 {
			<-cancelled
			cancel(errMap2)
			return
		}
		for k := 0; k < r.outs; k++ {
			w.Write(item*10 + k)
			r.pause(item + k)
		}
	}
	reducer := func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		defer r.redDone.Store(true)
		if r.red == "panics at once" {
			panic(mrPanic{"reducer"})
		}
		sum, first := 0, true
		for v := range pipe {
			r.reduced = append(r.reduced, v)
			sum += v
			if first && r.early {
				w.Write(-7)
			}
			if first && r.red == "cancels" {
				cancel(errRed)
				return
			}
			if first && r.red == "returns after the first output" {
				w.Write(-7)
				return
			}
			first = false
			r.pause(len(r.reduced))
			if r.ctx == "cancelled by the reducer" {
				stop()
			}
		}
		if !r.noWrite && !r.early {
			w.Write(sum)
		}
		if r.red == "panics after writing" {
			panic(mrPanic{"reducer"})
		}
		if r.red == "writes twice" {
			w.Write(sum)
		}
	}
	var val int
	var err error
	pv := Panics(func() {
		if r.useChan {
			src := make(chan int)
			go func() {
				defer close(src)
				gen(src)
			}()
			val, err = mr.MapReduceChan(src, mapper, reducer, opts...)
		} else {
			val, err = mr.MapReduce(gen, mapper, reducer, opts...)
		}
	})
	running, done := r.active.Load(), r.redDone.Load()
	t.Op("result %d, error %v, panic %v; mappers running %d, most at a time %d", val, err, pv, running, r.maxAct.Load())

	t.Check(int(r.maxAct.Load()) <= limit, "%d mappers ran at the same time, at most %d are allowed", r.maxAct.Load(), limit)
	for i := range r.mapped {
		c := atomic.LoadInt32(&r.mapped[i])
		t.Check(c <= 1, "item %d was mapped %d times", i, c)
	}
	cancels := (r.failAt >= 0 && r.fail != "panics" && r.failAt < r.n) || r.red == "cancels" || r.ctx != ""
	panics := (r.failAt >= 0 && r.fail == "panics" && r.failAt < r.n) || r.genPanic >= 0 || r.red == "panics at once" || r.red == "panics after writing"
	if !cancels {
		t.Check(running == 0, "%d mappers are still running after the call", running)
		t.Check(r.red == "writes twice" || done, "the reducer is still running after the call")
	}
	if !cancels && !panics && r.red != "writes twice" {
		t.Check(pv == nil, "the call panicked: %v", pv)
		for i := range r.mapped {
			c := atomic.LoadInt32(&r.mapped[i])
			t.Check(c == 1, "item %d was mapped %d times", i, c)
		}
		if r.red == "" {
			var want []int
			for i := 0; i < r.n; i++ {
				for k := 0; k < r.outs; k++ {
					want = append(want, i*10+k)
				}
			}
			sort.Ints(r.reduced)
			t.Check(fmt.Sprint(want) == fmt.Sprint(r.reduced), "the reducer got %v, the mappers wrote %v", r.reduced, want)
			sum := 0
			for _, v := range want {
				sum += v
			}
			switch {
			case r.early && len(want) > 0:
				t.Check(err == nil && val == -7, "the reducer wrote -7; the call returned %d, %v", val, err)
			case r.early || r.noWrite:
				t.Check(err == mr.ErrReduceNoOutput && val == 0, "the reducer wrote nothing; the call returned %d, %v", val, err)
			default:
				t.Check(err == nil && val == sum, "the reducer wrote %d; the call returned %d, %v", sum, val, err)
			}
		} else if r.n*r.outs > 0 {
			t.Check(err == nil && val == -7, "the reducer wrote -7; the call returned %d, %v", val, err)
		}
	}
	if panics && !cancels {
		p, ok := pv.(mrPanic)
		t.Check(ok, "a panic was not passed on: the call returned %d, %v, panic %v", val, err, pv)
		who := ""
		if r.genPanic >= 0 {
			who = "generator"
		} else if r.red != "" {
			who = "reducer"
		} else {
			who = "mapper"
		}
		if !(r.failAt >= 0 && r.red != "") && !(r.failAt >= 0 && r.genPanic >= 0) {
			t.Check(p.who == who, "the %s panicked, the call panicked with %v", who, p)
		}
	}
	if cancels && !panics && r.ctx == "" {
		t.Check(pv == nil, "the call panicked: %v", pv)
		t.Check(val == 0, "cancelled, but the value %d is returned", val)
		switch {
		case r.failAt >= 0 && r.failAt < r.n && r.fail == "cancels":
			t.Check(err == errMap, "the mapper cancelled with %q first; the call returned %d, %v", errMap, val, err)
		case r.failAt >= 0 && r.failAt < r.n && r.fail == "cancels with nil":
			t.Check(err == mr.ErrCancelWithNil, "the mapper cancelled with nil; the call returned %d, %v", val, err)
		case r.red == "cancels" && r.n*r.outs > 0:
			t.Check(err == errRed, "the reducer cancelled; the call returned %d, %v", val, err)
		}
	}
	if r.ctx == "cancelled before" {
		t.Check(err == context.DeadlineExceeded || err == mr.ErrReduceNoOutput, "the context is done; the call returned %d, %v", val, err)
	}
	if r.fail == "cancels while the context ends" && r.failAt >= 0 && r.failAt < r.n {
		t.Check(err == errMap, "the mapper cancelled with %q before the context ended; the call returned %d, %v", errMap, val, err)
	}
	if r.red == "writes twice" {
		if pv == nil {
			t.Check(err == nil, "the reducer wrote twice; the call returned %d, %v", val, err)
		}
		return
	}
	t.noLeft(base)
}

// mrLateValue: the only mapper cancels, the generator is still open (so that
// the cancellation has begun but not ended: with one worker, only the
// cancellation takes the further items), and the reducer then writes a result.
func (t *T) mrLateValue(extra int) {
	base := runtime.NumGoroutine()
	boom := errors.New("the mapper's error")
	drained, release := make(chan int), make(chan int)
	var err error
	done := make(chan int)
	go func() {
		defer close(done)
		_, err = mr.MapReduce(func(source chan<- int) {
			for i := 0; i < extra; i++ {
				source <- i
			}
			close(drained)
			<-release
		}, func(i int, w mr.Writer[int], cancel func(error)) {
			cancel(boom)
		}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			defer close(release)
			<-drained
			w.Write(7)
		}, mr.WithWorkers(1))
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fail("the call does not return")
	}
	t.Check(err == boom, "the mapper has cancelled with an error before the reducer wrote: error %v expected, got %v", boom, err)
	t.noLeft(base)
}

// noLeft waits for the goroutines of the case to end.
func (t *T) noLeft(base int) {
	for i := 0; runtime.NumGoroutine() > base; i++ {
		if i > 3000 {
			buf := make([]byte, 1<<15)
			buf = buf[:runtime.Stack(buf, true)]
			t.Fail("goroutines of the call never end (%d before, %d now)\n%s", base, runtime.NumGoroutine(), buf[:min(len(buf), 2500)])
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
}

// each checks ForEach, Finish and FinishVoid.
func (t *T) mrEach(n, workers, failAt int, kind string, slow bool) {
	base := runtime.NumGoroutine()
	r := &mrRun{slow: slow}
	counts := make([]int32, n)
	run := func(i int) {
		r.enter()
		defer r.active.Add(-1)
		atomic.AddInt32(&counts[i], 1)
		r.pause(i)
		if i == failAt {
			panic(mrPanic{"mapper"})
		}
		r.pause(i + 2)
	}
	var opts []mr.Option
	limit := 16
	if workers != 99 {
		opts = append(opts, mr.WithWorkers(workers))
		limit = mrMax(workers, 1)
	}
	var err error
	want := error(nil)
	pv := Panics(func() {
		switch kind {
		case "ForEach":
			mr.ForEach(func(source chan<- int) {
				for i := 0; i < n; i++ {
					source <- i
				}
			}, run, opts...)
		case "FinishVoid":
			limit = n
			var fns []func()
			for i := 0; i < n; i++ {
				i := i
				fns = append(fns, func() { run(i) })
			}
			mr.FinishVoid(fns...)
		case "Finish":
			limit = n
			var fns []func() error
			for i := 0; i < n; i++ {
				i := i
				fns = append(fns, func() error {
					if i == failAt {
						r.enter()
						defer r.active.Add(-1)
						atomic.AddInt32(&counts[i], 1)
						return errMap
					}
					run(i)
					return nil
				})
			}
			if failAt >= 0 && failAt < n {
				want = errMap
			}
			err = mr.Finish(fns...)
		case "MapReduceVoid":
			var mu sync.Mutex
			var got []int
			err = mr.MapReduceVoid(func(source chan<- int) {
				for i := 0; i < n; i++ {
					source <- i
				}
			}, func(i int, w mr.Writer[int], cancel func(error)) {
				run(i)
				w.Write(i)
			}, func(pipe <-chan int, cancel func(error)) {
				for v := range pipe {
					mu.Lock()
					got = append(got, v)
					mu.Unlock()
				}
			}, opts...)
			if failAt < 0 || failAt >= n {
				t.Check(len(got) == n, "the reducer got %d of %d outputs", len(got), n)
			}
		}
	})
	running := r.active.Load()
	t.Op("error %v, panic %v; running %d, most at a time %d", err, pv, running, r.maxAct.Load())
	t.Check(err == want, "error %v expected, got %v", want, err)
	t.Check(int(r.maxAct.Load()) <= mrMax(limit, 1), "%d functions ran at the same time, at most %d are allowed", r.maxAct.Load(), limit)
	failing := failAt >= 0 && failAt < n
	if failing && kind != "Finish" {
		p, ok := pv.(mrPanic)
		t.Check(ok && p.who == "mapper", "function %d panicked, the call returned with panic %v", failAt, pv)
	} else {
		t.Check(pv == nil, "the call panicked: %v", pv)
	}
	if want == nil {
		t.Check(running == 0, "%d functions are still running after the call", running)
	}
	for i := range counts {
		c := atomic.LoadInt32(&counts[i])
		t.Check(c <= 1, "item %d was processed %d times", i, c)
		if !failing {
			t.Check(c == 1, "item %d was processed %d times", i, c)
		}
	}
	t.noLeft(base)
}

func init() {
	reg("C16", "map-reduce runs of random size, worker counts, pauses, failures, panics, cancellations; every item, output, error and panic accounted for, nothing left running", func(t *T) {
		r0 := t.R
		time.Sleep(10 * time.Millisecond)
		for t.Time() {
			if r0.Intn(12) == 0 {
				extra := 10 + r0.Intn(60)
				t.Case(func() string {
					return fmt.Sprintf("mr.MapReduce, WithWorkers(1): the mapper cancels with an error, the generator sends %d items and stays open, then the reducer writes", extra)
				}, func() { t.mrLateValue(extra) })
				continue
			}
			if r0.Intn(4) == 0 {
				n, w, f := r0.Intn(30), []int{99, 1, 2, 3, 8, 0, -1}[r0.Intn(7)], -1
				if r0.Intn(2) == 0 && n > 0 {
					f = r0.Intn(n)
				}
				kind := []string{"ForEach", "Finish", "FinishVoid", "MapReduceVoid"}[r0.Intn(4)]
				slow := r0.Intn(2) == 0
				t.Case(func() string {
					return fmt.Sprintf("mr.%s of %d items, workers %d (99: default), item %d fails (-1: none)", kind, n, w, f)
				}, func() { t.mrEach(n, w, f, kind, slow) })
				continue
			}
			r := &mrRun{n: r0.Intn(24), workers: []int{99, 1, 2, 3, 5, 8, 40, 0, -3}[r0.Intn(9)], outs: r0.Intn(3),
				slow: r0.Intn(2) == 0, useChan: r0.Intn(4) == 0, failAt: -1, genPanic: -1}
			switch r0.Intn(12) {
			case 0, 1, 2:
			case 3:
				r.early = true
			case 4:
				r.noWrite = true
			case 5:
				r.red = []string{"panics at once", "panics after writing", "cancels", "returns after the first output"}[r0.Intn(4)]
				if r.red == "cancels" && (r.n == 0 || r.outs == 0) {
					r.n, r.outs = 3, 1
				}
				r.early = r.red == "panics after writing" && r0.Intn(2) == 0
			case 6, 7:
				r.n++
				r.failAt = r0.Intn(r.n)
				r.fail = []string{"cancels", "cancels with nil"}[r0.Intn(2)]
				if r.fail == "cancels" && r.workers != 1 && r.workers != 0 && r.workers != -3 && r0.Intn(2) == 0 {
					r.second = true
				}
			case 8:
				r.n++
				r.failAt, r.fail = r0.Intn(r.n), "panics"
				r.early = r0.Intn(2) == 0
			case 9:
				if !r.useChan {
					r.genPanic = r0.Intn(r.n + 1)
					r.early = r0.Intn(2) == 0
				}
			case 10:
				r.ctx = []string{"cancelled before", "cancelled by the reducer", "never done"}[r0.Intn(3)]
			case 11:
				if r0.Intn(8) == 0 {
					r.n, r.slow, r.ctx, r.failAt, r.fail = 120, true, "ends during the cancellation", 0, "cancels while the context ends"
					r.workers = 1
				} else {
					r.red = "writes twice"
				}
			}
			t.Case(r.String, func() { t.mrCheck(r) })
		}
	})
}

func mrMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
