// C16: map-reduce. Each function is verified as one thread among others (option threads): the contracts speak about the events of the
// thread itself on channels, the wait group and the atomics.

package context

func Background
ensures result != nil && doneOf(result) == nil
trusted "documented: Background returns a non-nil, empty Context"

package errors

logic errIs(err error, target error) bool

func Is
params err, target
ensures result == errIs(err, target)
ensures err == target ==> result
ensures err == nil && target != nil ==> !result
trusted "documented: errors.Is reports whether err or an error it wraps is target"

package mr

func guardedWriter.Write
params gw, v
option threads, trace
requires gw.ctx != nil
// the value is sent exactly once, unless the context or the run is over
ensures [C16:written] sent(gw.channel) <= 1 && (sent(gw.channel) == 1 ==> sentval(gw.channel, 0) == v)
ensures [C16:written] sent(gw.channel) == 1 || heard(gw.done) > 0 || heard(doneOf(gw.ctx)) > 0

func onceChan.write
params oc, val
option threads, trace
inline
option alone
ensures [C16:once] sent(oc.channel) == cases() && cases() <= 1
ensures [C16:once] cases() == 1 ==> sentval(oc.channel, 0) == val
ensures [C16:once] atomadds() == 0

func drain
params channel
option threads, trace
inline
option alone
ensures [C16:drained] exhausted(channel) == 1
loop 1
invariant exhausted(channel) == pre(exhausted(channel)) && recvd(channel) >= pre(recvd(channel))
invariant forall c chan any :: c != channel ==> recvd(c) == pre(recvd(c)) && exhausted(c) == pre(exhausted(c))

ghost var wrote int // panics handed to the panic channel

func executeMappers
params mCtx
option threads, trace
requires mCtx.workers >= 1 && mCtx.ctx != nil && mCtx.mapper != nil && mCtx.panicChan != nil
// a channel has one purpose only
requires mCtx.source != doneOf(mCtx.ctx) && mCtx.source != mCtx.doneChan && mCtx.collector != mCtx.panicChan.channel
modifies wrote
loop 1
invariant [C16:each-once] spawns() == recvd(mCtx.source) && wgadds() == spawns() && sent(pool) - recvd(pool) == spawns()
invariant exhausted(mCtx.source) == 0 && closes(mCtx.collector) == 0 && lastload() == 0
invariant heard(doneOf(mCtx.ctx)) >= 0 && heard(mCtx.doneChan) >= 0
invariant pool != nil && chancap(pool) == mCtx.workers && fresh(pool)
// a goroutine is started for the item received last, already counted in the wait group and holding a token of the pool
call spawn assert [C16:each-once] recvd(mCtx.source) == spawns() + 1 && item == recvval(mCtx.source, spawns())
call spawn assert [C16:waits] wgadds() == spawns() + 1
call spawn assert [C16:limit] sent(pool) - recvd(pool) == spawns() + 1
// the collector is closed when every mapper has ended and no item is left, unless the run is cancelled or a mapper panicked
call close assert [C16:waits] ch == mCtx.collector ==> wgwaits() > 0 && wgadds() == spawns()
call close assert [C16:all-items] ch == mCtx.collector ==> spawns() == recvd(mCtx.source)
call close assert [C16:all-items] ch == mCtx.collector ==> exhausted(mCtx.source) > 0 || heard(doneOf(mCtx.ctx)) > 0 || heard(mCtx.doneChan) > 0 || lastload() != 0
ensures [C16:ends] closes(mCtx.collector) == 1
ensures [C16:source-drained] exhausted(mCtx.source) > 0
closure go1
  call write set wrote := wrote + 1
  call write assert [C16:panic] arg0 == lastpanic() && panics() == old(panics()) + 1
  call Done assert [C16:panic] wrote - old(wrote) == panics() - old(panics()) && atomadds() - old(atomadds()) == panics() - old(panics())
  call Done assert [C16:waits] calls(mCtx.mapper) == old(calls(mCtx.mapper)) + 1
  ensures [C16:each-once] calls(mCtx.mapper) == old(calls(mCtx.mapper)) + 1 && callarg(mCtx.mapper, old(calls(mCtx.mapper)), 0, ty(T)) == item
  ensures [C16:outputs] unbox(ty(guardedWriter[U]), callarg(mCtx.mapper, old(calls(mCtx.mapper)), 1, ty(Writer[U]))).channel == mCtx.collector
  ensures [C16:waits] wgdones() == old(wgdones()) + 1
  ensures [C16:limit] heard(pool) == old(heard(pool)) + 1
end

func buildSource
params generate, panicChan
option threads, trace
requires generate != nil && panicChan != nil
modifies wrote
ensures [C16:source] fresh(result) && chancap(result) == 0 && spawns() == old(spawns()) + 1
closure go1
  call write set wrote := wrote + 1
  call write assert [C16:panic] arg0 == lastpanic() && panics() == old(panics()) + 1
  // a panic is recorded before the source is closed
  call close assert [C16:panic] wrote - old(wrote) == panics() - old(panics()) && calls(generate) == old(calls(generate)) + 1
  ensures [C16:source] calls(generate) == old(calls(generate)) + 1 && callarg(generate, old(calls(generate)), 0, ty(chan T)) == source
  ensures [C16:source] closes(source) == old(closes(source)) + 1
end

func newOptions
ensures [C16:defaults] fresh(result) && result.workers == defaultWorkers && result.ctx != nil && doneOf(result.ctx) == nil

func WithWorkers
params workers
option threads, trace
ensures result != nil
closure set
  at exit
  fn result
  params opts
  requires opts != nil
  ensures [C16:limit] opts.workers == (workers < 1 ? 1 : workers)
  unwinds false
end

func WithContext
params ctx
option threads, trace
ensures result != nil
closure set
  at exit
  fn result
  params opts
  requires opts != nil
  ensures [C16:cancel] opts.ctx == ctx
  unwinds false
end

func buildOptions
params opts
option threads, trace, calm
requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
modifies mapReduceOptions.ctx at fresh, mapReduceOptions.workers at fresh
// the options are made by WithWorkers and WithContext; the channel of a context is its own
rely forall o *mapReduceOptions :: o.workers >= 1 && o.ctx != nil && !fresh(doneOf(o.ctx))
loop 1
invariant fresh(options) && options.workers >= 1 && options.ctx != nil && !fresh(doneOf(options.ctx))
invariant len(opts) == 0 ==> options.workers == defaultWorkers
ensures [C16:limit] fresh(result) && result.workers >= 1 && result.ctx != nil && !fresh(doneOf(result.ctx))
ensures [C16:defaults] len(opts) == 0 ==> result.workers == defaultWorkers

func ForEach
params generate, mapper, opts
option threads, trace
requires generate != nil && mapper != nil
requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
modifies wrote
loop 1
invariant exhausted(collector) == 0 && recvd(panicChan.channel) == 0 && exhausted(panicChan.channel) == 0
invariant spawns() == pre(spawns())
// the mappers run over the source of the generator, with the limit asked for, and hand their panics to this call
call executeMappers assert [C16:source] arg0.source == source && arg0.panicChan == panicChan && arg0.collector == collector
call executeMappers assert [C16:limit] arg0.workers == options.workers && arg0.ctx == options.ctx
// the call returns when the collector is closed and not before
exit assert [C16:waits] exhausted(collector) > 0
exit assert [C16:panic] !panicking() ==> recvd(panicChan.channel) == 0
// (no function closes the panic channel)
exit assert [C16:panic] panicking() ==> heard(panicChan.channel) == 1 && (recvd(panicChan.channel) == 1 ==> panicval() == recvval(panicChan.channel, 0))
ensures [C16:each-once] spawns() == old(spawns()) + 2
unwinds true
closure mapper
  at executeMappers
  fn arg0.mapper
  params item, w
  ensures [C16:each-once] calls(mapper) == old(calls(mapper)) + 1 && callarg(mapper, old(calls(mapper)), 0, ty(T)) == item
  unwinds [C16:panic] panicval() == lastpanic() && calls(mapper) == old(calls(mapper)) + 1
end

ghost var asked int // the panic channel was polled
ghost var sets int  // errors recorded by cancel

// what a caller could only break by using the channel of a context as the source
axiom ownChannel[T](c chan T, ctx context.Context)
ensures c != doneOf(ctx)
trusted "the channel of items is not the Done channel of the context"

func once
params fn
option threads, trace
inline

func mapReduceWithPanicChan
params source, panicChan, mapper, reducer, opts
results val, err
option threads, trace, initial
requires panicChan != nil && mapper != nil && reducer != nil
requires [C16:panic] alloced(panicChan.channel) && panicChan.channel != source && chancap(panicChan.channel) >= 1
requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
shared gconstraints.AtomicError.err
rely forall a *gconstraints.AtomicError :: holder(a)
modifies wrote, asked, sets, gconstraints.AtomicError.err
loop 1
invariant exhausted(output) == pre(exhausted(output)) && recvd(output) >= 0
invariant forall c chan any :: c != output ==> recvd(c) == pre(recvd(c)) && exhausted(c) == pre(exhausted(c))
// the result is the value received, unless an error was recorded; without either the error says so
before assert [C16:error] heard(panicChan.channel) == 0 && heard(doneOf(options.ctx)) == 0 && err == nil ==> retErr.err == nil && recvd(output) == 1 && val == recvval(output, 0)
before assert [C16:error] heard(panicChan.channel) == 0 && err != nil && err != ErrReduceNoOutput ==> retErr.err != nil && unbox(ty(gconstraints.errorHolder), retErr.err).err == err
// when the context ends, the run is cancelled (or another cancel has come before: then its error is there)
before assert [C16:cancel] heard(panicChan.channel) == 0 && heard(doneOf(options.ctx)) > 0 ==> onces() > old(onces())
// the mappers run over the given source, with the limit asked for, and hand their results to the reducer and their panics to this call
call executeMappers use ownChannel(arg0.source, arg0.ctx)
call executeMappers assert [C16:wiring] arg0.source == source && arg0.panicChan == panicChan && arg0.collector == collector && arg0.doneChan == done
call executeMappers assert [C16:limit] arg0.workers == options.workers && arg0.ctx == options.ctx
// a panic that comes after the result is looked for when everything has ended
call default assert [C16:panic] exhausted(output) > 0
call default set asked := asked + 1
exit use ownChannel(panicChan.channel, options.ctx)
exit assert [C16:waits] exhausted(output) > 0 || (panicking() && recvd(output) > 0)
exit assert [C16:panic] !panicking() && (err == nil || err == ErrReduceNoOutput) ==> asked == old(asked) + 1
ensures spawns() == old(spawns()) + 2
exit assert [C16:panic] panicking() ==> recvd(output) > 0 || heard(panicChan.channel) > 0
exit assert [C16:panic-value] panicking() && recvd(panicChan.channel) > 0 && exhausted(panicChan.channel) == 0 ==> panicval() == recvval(panicChan.channel, recvd(panicChan.channel)-1)
unwinds true
closure go1
  call write set wrote := wrote + 1
  call write assert [C16:panic] arg0 == lastpanic() && panics() == old(panics()) + 1
  // the result channel is closed when the reducer has ended, every mapper has ended, and a panic is recorded
  call Do assert [C16:waits] exhausted(collector) > old(exhausted(collector)) && calls(reducer) == old(calls(reducer)) + 1
  call Do assert [C16:panic] wrote - old(wrote) == panics() - old(panics())
  call close assert ch == output ==> closes(done) == old(closes(done)) + 1
  call Do assert [C16:error] !fresh(obj)
  call reducer assert [C16:result] unbox(ty(guardedWriter[V]), arg1).channel == output
  ensures [C16:reduced] calls(reducer) == old(calls(reducer)) + 1 && callarg(reducer, old(calls(reducer)), 0, ty(chan U)) == collector
  ensures [C16:waits] onces() == old(onces()) + 1 && closes(output) <= old(closes(output)) + 1
end
closure cancel
  at reducer
  fn arg2
  params e
  call Set assert [C16:error] e != nil && arg0 == e || e == nil && arg0 == ErrCancelWithNil
  call Set assert [C16:error] onces() == old(onces()) + 1
  call Set set sets := sets + 1
  // the once objects belong to the run, not to the call of cancel
  call Do assert [C16:error] !fresh(obj)
  call close assert [C16:error] sets == old(sets) + 1
  call close assert ch == output ==> closes(done) == old(closes(done)) + 1
  ensures [C16:cancel] onces() > old(onces())
  ensures [C16:cancel] sets == old(sets) || onces() == old(onces()) + 2
end
closure mapper
  at executeMappers
  fn arg0.mapper
  params item, w
  ensures [C16:each-once] calls(mapper) == old(calls(mapper)) + 1 && callarg(mapper, old(calls(mapper)), 0, ty(T)) == item
  ensures [C16:each-once] callarg(mapper, old(calls(mapper)), 1, ty(Writer[U])) == w
  unwinds [C16:panic] panicval() == lastpanic() && calls(mapper) == old(calls(mapper)) + 1
end

func MapReduce
params generate, mapper, reducer, opts
results val, err
option threads, trace, initial
requires generate != nil && mapper != nil && reducer != nil
requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
modifies wrote, asked, sets, gconstraints.AtomicError.err
call buildSource assert [C16:wiring] arg0 == generate && arg1 == panicChan
call mapReduceWithPanicChan assert [C16:wiring] arg0 == source && arg1 == panicChan && arg2 == mapper && arg3 == reducer
call mapReduceWithPanicChan assert [C16:limit] arg4 == opts
ensures [C16:each-once] spawns() == old(spawns()) + 3
unwinds true

func MapReduceChan
params source, mapper, reducer, opts
results val, err
option threads, trace, initial
requires mapper != nil && reducer != nil
requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
modifies wrote, asked, sets, gconstraints.AtomicError.err
call mapReduceWithPanicChan assert [C16:wiring] arg0 == source && arg1 == panicChan && arg2 == mapper && arg3 == reducer
call mapReduceWithPanicChan assert [C16:limit] arg4 == opts
ensures [C16:wiring] spawns() == old(spawns()) + 2
unwinds true

func MapReduceVoid
params generate, mapper, reducer, opts
option threads, trace, initial
requires generate != nil && mapper != nil && reducer != nil
requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
modifies wrote, asked, sets, gconstraints.AtomicError.err
call MapReduce assert [C16:wiring] arg0 == generate && arg1 == mapper && arg3 == opts
exit assert [C16:error] !panicking() ==> result == (errIs(err, ErrReduceNoOutput) ? nil : err)
unwinds true
closure reducer
  at MapReduce
  fn arg2
  params pipe, w, stop
  ensures [C16:reduced] calls(reducer) == old(calls(reducer)) + 1 && callarg(reducer, old(calls(reducer)), 0, ty(chan U)) == pipe
  unwinds [C16:panic] panicval() == lastpanic() && calls(reducer) == old(calls(reducer)) + 1
end

func FinishVoid
params fns
option threads, trace, initial
modifies wrote
requires forall i int :: 0 <= i && i < len(fns) ==> fns[i] != nil
loop 1
invariant sent(source) == pre(sent(source)) + $it && (forall i int :: 0 <= i && i < $it ==> sentval(source, pre(sent(source)) + i) == fns[i])
unwinds true
closure generate
  at ForEach
  fn arg0
  params c
  ensures [C16:each-once] sent(c) == old(sent(c)) + len(fns)
  ensures [C16:each-once] forall i int :: 0 <= i && i < len(fns) ==> sentval(c, old(sent(c)) + i) == fns[i]
end
closure mapper
  at ForEach
  fn arg1
  params f
  requires f != nil
  ensures [C16:each-once] calls(f) == old(calls(f)) + 1
  unwinds [C16:panic] panicval() == lastpanic() && calls(f) == old(calls(f)) + 1
end

func Finish
params fns
option threads, trace, initial
requires forall i int :: 0 <= i && i < len(fns) ==> fns[i] != nil
modifies wrote, asked, sets, gconstraints.AtomicError.err
loop 1
invariant sent(source) == pre(sent(source)) + $it && (forall i int :: 0 <= i && i < $it ==> sentval(source, pre(sent(source)) + i) == fns[i])
ensures len(fns) == 0 ==> result == nil
unwinds true
closure generate
  at MapReduceVoid
  fn arg0
  params c
  ensures [C16:each-once] sent(c) == old(sent(c)) + len(fns)
  ensures [C16:each-once] forall i int :: 0 <= i && i < len(fns) ==> sentval(c, old(sent(c)) + i) == fns[i]
end
closure mapper
  at MapReduceVoid
  fn arg1
  params f, w, stop
  requires f != nil && stop != nil && f != stop
  ensures [C16:each-once] calls(f) == old(calls(f)) + 1
  ensures [C16:error] lasterr() != nil ==> calls(stop) == old(calls(stop)) + 1 && callarg(stop, old(calls(stop)), 0, ty(error)) == lasterr()
  call stop assert [C16:error] arg0 != nil
  unwinds [C16:panic] panicval() == lastpanic()
end
closure reducer
  at MapReduceVoid
  fn arg2
  params c, stop
  ensures true
end
