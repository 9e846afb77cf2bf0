package vsched

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Options describe an exploration
type Options struct {
	Delays   int           // all schedules with at most this number of delays are explored first; -1: none
	From     int           // beginning with that number
	DPOR     bool          // then all schedules up to equivalence
	Budget   time.Duration // time for both
	MaxExecs int           // bound on the number of executions of the second part; 0: none
	LeaksOK  bool          // threads may be left blocked when the program ended
	Stop     func() bool   // stop early
}

// Result describes what was explored
type Result struct {
	Executions int
	Steps      int
	Complete   bool // all schedules up to equivalence
	Delays     int  // all schedules with that many delays, -1 if none
	Diverged   int  // executions abandoned because they did not replay
	Redundant  int
	Threads    int // largest number of threads
	MaxSteps   int // longest execution
}

const maxSteps = 200_000

type bits []uint64

func (b *bits) set(i int) {
	for len(*b) <= i/64 {
		*b = append(*b, 0)
	}
	(*b)[i/64] |= 1 << (i % 64)
}
func (b bits) has(i int) bool { return i/64 < len(b) && b[i/64]&(1<<(i%64)) != 0 }

type opdesc struct {
	tid  int
	kind Kind
	obj  int
	arg  int64
	doer bool // of Once.Do: would run the function
}

type node struct {
	enabled   []int
	backtrack bits
	done      bits
	sleep     []opdesc
	explored  []opdesc
	op        opdesc // the chosen operation

	order  []int // delay bounding: threads in order
	choice int
}

type object struct {
	id     int
	addr   unsafe.Pointer
	locked bool // mutexes: locked; rw: a writer has it
	ann    bool // rw: a writer is announced
	read   int  // rw: number of readers
	count  int64
	once   int // 0 idle, 1 running, 2 done

	prod      *Thread // blocked in Yield
	closed    bool
	cancelled bool

	waiters []*Thread

	wClock, rClock []int32
	hist           []int // indices of executed operations
}

type executed struct {
	op    opdesc
	clock []int32 // after the operation
}

type explorer struct {
	opts    Options
	body    func()
	res     Result
	stack   []*node
	mode    int // 0: delays, 1: dpor
	delays  int
	replay  int // number of choices to replay
	started time.Time

	// the current execution
	threads []*Thread
	objects map[unsafe.Pointer]*object
	trace   []executed
	sleep   []opdesc
	last    *Thread
	tries   bool // there are TryLocks
	nclosed int
}

var progress atomic.Int64

// ErrStalled is returned when a thread blocks on something the scheduler does not know
var errRedundant = errors.New("redundant")
var errDiverged = errors.New("diverged")

// Failure is an error found by an exploration
type Failure struct {
	What     string
	Schedule string
}

func (f *Failure) Error() string { return f.What + "\nschedule:\n" + f.Schedule }

// Explore runs body under all schedules; check is called after each of them and may return an error.
// A panic, a deadlock, threads left behind, and misuse of a WaitGroup are errors too.
func Explore(opts Options, body func(), check func() error) (Result, error) {
	e := &explorer{opts: opts, body: body, started: time.Now()}
	e.res.Delays = -1
	if os.Getenv("VSCHED_FREE") != "" && Unsupported == "" {
		Unsupported = "a thread blocks outside of the scheduler"
	}
	if Unsupported != "" {
		return e.free(check)
	}
	stop := e.watch()
	defer stop()
	if opts.Delays >= 0 {
		e.mode = 0
		for d := opts.From; d <= opts.Delays; d++ {
			e.delays = d
			complete, err := e.all(check)
			if err != nil {
				return e.res, err
			}
			if !complete {
				return e.res, nil
			}
			e.res.Delays = d
		}
	}
	if opts.DPOR {
		e.mode = 1
		complete, err := e.all(check)
		if err != nil {
			return e.res, err
		}
		e.res.Complete = complete && e.res.Diverged == 0
	}
	return e.res, nil
}

// Unsupported tells why the program cannot be controlled (set by the instrumentation)
var Unsupported string

// free runs the program without control a number of times
func (e *explorer) free(check func() error) (Result, error) {
	for i := 0; i < 200; i++ {
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			e.body()
		}()
		select {
		case r := <-done:
			if r != nil {
				return e.res, &Failure{What: fmt.Sprint("panic: ", r)}
			}
		case <-time.After(60 * time.Second):
			buf := make([]byte, 1<<16)
			return e.res, &Failure{What: "does not terminate", Schedule: string(buf[:runtime.Stack(buf, true)])}
		}
		e.res.Executions++
		if check != nil {
			if err := check(); err != nil {
				return e.res, &Failure{What: err.Error(), Schedule: "(not controlled: " + Unsupported + ")"}
			}
		}
		if time.Since(e.started) > e.opts.Budget {
			break
		}
	}
	return e.res, nil
}

func (e *explorer) watch() func() {
	quit := make(chan struct{})
	go func() {
		last, since := int64(-1), 0
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-quit:
				return
			case <-tick.C:
			}
			if p := progress.Load(); p != last {
				last, since = p, 0
				continue
			}
			since++
			if since >= 30 {
				buf := make([]byte, 1<<20)
				fmt.Fprintf(os.Stderr, "vsched: a thread does not come back\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(77)
			}
		}
	}()
	return func() { close(quit) }
}

// all explores everything in the current mode
func (e *explorer) all(check func() error) (complete bool, err error) {
	e.stack, e.replay = nil, 0
	n := 0
	for {
		err := e.run()
		e.res.Executions++
		n++
		switch {
		case err == errRedundant:
			e.res.Redundant++
		case err == errDiverged:
			e.res.Diverged++
		case err != nil:
			return false, &Failure{What: err.Error(), Schedule: e.schedule()}
		case check != nil:
			if err := check(); err != nil {
				return false, &Failure{What: err.Error(), Schedule: e.schedule()}
			}
		}
		if !e.next() {
			return true, nil
		}
		if e.opts.Budget > 0 && time.Since(e.started) > e.opts.Budget {
			return false, nil
		}
		if e.mode == 1 && e.opts.MaxExecs > 0 && n >= e.opts.MaxExecs {
			return false, nil
		}
		if e.opts.Stop != nil && e.opts.Stop() {
			return false, nil
		}
	}
}

// next prepares the next execution
func (e *explorer) next() bool {
	for len(e.stack) > 0 {
		nd := e.stack[len(e.stack)-1]
		if e.mode == 0 {
			used := 0
			for _, o := range e.stack[:len(e.stack)-1] {
				used += o.choice
			}
			if nd.choice+1 < len(nd.order) && used+nd.choice+1 <= e.delays {
				nd.choice++
				nd.op = opdesc{tid: nd.order[nd.choice]}
				e.replay = len(e.stack)
				return true
			}
		} else {
			if nd.op.tid >= 0 {
				nd.done.set(nd.op.tid)
				nd.explored = append(nd.explored, nd.op)
			}
			for _, t := range nd.enabled {
				if !nd.backtrack.has(t) || nd.done.has(t) {
					continue
				}
				asleep := false
				for _, s := range nd.sleep {
					if s.tid == t {
						asleep = true
					}
				}
				if asleep {
					nd.done.set(t)
					continue
				}
				nd.op = opdesc{tid: t, obj: -1}
				e.replay = len(e.stack)
				return true
			}
		}
		e.stack = e.stack[:len(e.stack)-1]
	}
	return false
}

func (e *explorer) adopt(t *Thread, parent *Thread) {
	t.id = len(e.threads)
	e.threads = append(e.threads, t)
	if parent != nil {
		t.clock = append([]int32(nil), parent.clock...)
	}
}

// run performs one execution
func (e *explorer) run() (err error) {
	e.threads, e.objects, e.trace, e.sleep, e.last = nil, make(map[unsafe.Pointer]*object), e.trace[:0], nil, nil
	current = nil
	main := newThread(e.body)
	raceDisable()
	active = true
	defer func() {
		e.abortAll()
		active = false
		current = nil
		raceEnable()
		Acquire(unsafe.Pointer(&endObj))
	}()
	e.adopt(main, nil)

	for step := 0; ; step++ {
		if step > maxSteps {
			return errors.New("does not terminate")
		}
		// find out what is possible
		var enabled []int
		alive := false
		for _, t := range e.threads {
			if t.done {
				continue
			}
			alive = true
			if e.enabled(t) {
				enabled = append(enabled, t.id)
			}
		}
		if len(enabled) == 0 {
			if e.mode == 1 {
				for _, t := range e.threads {
					if !t.done {
						e.races(t)
					}
				}
			}
			e.res.Threads = max(e.res.Threads, len(e.threads))
			e.res.MaxSteps = max(e.res.MaxSteps, step)
			if !alive {
				return e.finished()
			}
			if e.threads[0].done {
				if e.opts.LeaksOK {
					return e.finished()
				}
				return fmt.Errorf("left blocked when the program had ended:%s", e.blocked())
			}
			return fmt.Errorf("deadlock:%s", e.blocked())
		}

		t, err := e.choose(step, enabled)
		if err != nil {
			return err
		}
		e.res.Steps++
		progress.Add(1)
		e.perform(t)

		// let it run
		current = t
		e.last = t
		t.wake <- struct{}{}
		if r := <-toController; r != t {
			panic("vsched: another thread answered")
		}
		current = nil
		for c := t.spawned; c != nil; c = c.next {
			e.adopt(c, t)
		}
		t.spawned, t.spawnedTail = nil, nil
		if t.finished {
			t.done = true
			if t.panicked {
				return errors.New(t.message)
			}
			continue
		}
		t.obj = e.object(t)
		if t.kind == KYield {
			t.outcome = 0
			if t.obj.cancelled {
				t.outcome = 2
				t.from = t.obj.wClock
			} else {
				t.obj.prod = t
			}
		}
	}
}

func (e *explorer) blocked() string {
	var b strings.Builder
	for _, t := range e.threads {
		if !t.done {
			fmt.Fprintf(&b, "\n  thread %d (%s) at %s", t.id, where(t.pc), e.describe(e.desc(t)))
		}
	}
	return b.String()
}

func where(pc uintptr) string {
	if pc == 0 {
		return "main"
	}
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	file := f.File
	if i := strings.LastIndex(file, "/"); i >= 0 {
		file = file[i+1:]
	}
	return fmt.Sprintf("%s:%d", file, f.Line)
}

func (e *explorer) describe(o opdesc) string {
	if o.kind == KStart {
		return "start"
	}
	return fmt.Sprintf("%s #%d", kindNames[o.kind], o.obj)
}

func (e *explorer) schedule() string {
	var lines []string
	for i := 0; i < len(e.trace); {
		j := i
		var ops []string
		for ; j < len(e.trace) && e.trace[j].op.tid == e.trace[i].op.tid; j++ {
			ops = append(ops, e.describe(e.trace[j].op))
		}
		t := e.threads[e.trace[i].op.tid]
		if len(ops) > 8 {
			ops = append(append(ops[:4:4], "..."), ops[len(ops)-4:]...)
		}
		lines = append(lines, fmt.Sprintf("  thread %d (%s): %s", t.id, where(t.pc), strings.Join(ops, ", ")))
		i = j
	}
	if len(lines) > 60 {
		lines = append(append(lines[:20:20], "  ..."), lines[len(lines)-40:]...)
	}
	return strings.Join(lines, "\n")
}

// abortAll makes the remaining threads end
func (e *explorer) abortAll() {
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if t.done {
			continue
		}
		t.abort = true
		current = t
		t.wake <- struct{}{}
		<-toController
		t.done = true
	}
	current = nil
}

func (e *explorer) object(t *Thread) *object {
	o := e.objects[t.addr]
	if o == nil {
		o = &object{id: len(e.objects), addr: t.addr}
		e.objects[t.addr] = o
		switch t.kind {
		case KOnce:
			if t.arg != 0 {
				o.once = 2
			}
		}
	}
	return o
}

func (e *explorer) desc(t *Thread) opdesc {
	d := opdesc{tid: t.id, kind: t.kind, obj: -1, arg: t.arg}
	if t.obj != nil {
		d.obj = t.obj.id
	}
	if t.kind == KOnce {
		d.arg = 0
		d.doer = t.obj.once == 0
	}
	return d
}

// choose picks the next thread
func (e *explorer) choose(step int, enabled []int) (*Thread, error) {
	if step < e.replay {
		nd := e.stack[step]
		t := (*Thread)(nil)
		if nd.op.tid < len(e.threads) {
			t = e.threads[nd.op.tid]
		}
		if t == nil || t.done || !e.enabled(t) {
			e.stack = e.stack[:step]
			return nil, errDiverged
		}
		d := e.desc(t)
		if step < e.replay-1 {
			if e.mode == 1 && d != nd.op {
				e.stack = e.stack[:step]
				return nil, errDiverged
			}
		}
		nd.op = d
		if e.mode == 1 {
			e.sleep = e.inherit(nd, d)
		}
		return t, nil
	}

	// operations that do not interfere with anything come first
	pick := -1
	if e.last != nil && !e.last.done && e.enabled(e.last) {
		pick = e.last.id
	}
	nd := &node{}
	if e.mode == 0 {
		nd.order = e.order(pick, enabled)
		nd.op = opdesc{tid: nd.order[0]}
		e.stack = append(e.stack, nd)
		return e.threads[nd.order[0]], nil
	}

	asleep := func(id int) bool {
		for _, s := range e.sleep {
			if s.tid == id {
				return true
			}
		}
		return false
	}
	nd.enabled = enabled
	nd.sleep = e.sleep
	if pick < 0 || asleep(pick) {
		pick = -1
		for _, id := range enabled {
			if !asleep(id) {
				pick = id
				break
			}
		}
		if pick < 0 {
			return nil, errRedundant
		}
	}
	t := e.threads[pick]
	nd.backtrack.set(pick)
	nd.op = e.desc(t)
	e.stack = append(e.stack, nd)
	e.sleep = e.inherit(nd, nd.op)
	return t, nil
}

// inherit computes what sleeps after an operation
func (e *explorer) inherit(nd *node, d opdesc) (sleep []opdesc) {
	if NoSleep {
		return nil
	}
	for _, list := range [][]opdesc{nd.sleep, nd.explored} {
		for _, s := range list {
			if s.tid != d.tid && !dependent(s, d) {
				sleep = append(sleep, s)
			}
		}
	}
	return sleep
}

// order lists the threads for delay bounding. If the first operation interferes with nothing it is the only one.
func (e *explorer) order(pick int, enabled []int) []int {
	if pick < 0 {
		pick = enabled[0]
		if e.last != nil {
			for _, id := range enabled {
				if id > e.last.id {
					pick = id
					break
				}
			}
		}
	}
	switch k := e.threads[pick].kind; k {
	case KUnlock, KRUnlock, KWUnlock:
		if !e.tries {
			return []int{pick}
		}
	case KLock, KTryLock, KRLock, KTryRLock, KWLockA, KWTryLock, KOnce, KLoad, KRMW, KClose, KCondEnq, KCondWait, KCondSignal, KCondBroadcast:
	default:
		return []int{pick}
	}
	order := []int{pick}
	for _, id := range enabled {
		if id > pick {
			order = append(order, id)
		}
	}
	for _, id := range enabled {
		if id < pick {
			order = append(order, id)
		}
	}
	return order
}

func (e *explorer) enabled(t *Thread) bool {
	o := t.obj
	switch t.kind {
	case KLock:
		return !o.locked
	case KRLock:
		return !o.ann
	case KWLockA:
		return !o.ann
	case KWLockB:
		return o.read == 0
	case KWait:
		return o.count == 0
	case KOnce:
		return o.once != 1
	case KNext:
		return o.cancelled || o.closed || o.prod != nil
	case KYield:
		return t.outcome != 0
	case KCondWait:
		return t.woken
	}
	return true
}

func join(dst *[]int32, src []int32) {
	for len(*dst) < len(src) {
		*dst = append(*dst, 0)
	}
	for i, v := range src {
		if v > (*dst)[i] {
			(*dst)[i] = v
		}
	}
}

// perform executes the operation of a thread
func (e *explorer) perform(t *Thread) {
	o := t.obj
	t.res, t.resPtr = 0, nil
	d := e.desc(t)
	if e.mode == 1 && len(e.trace) >= e.replay-1 {
		e.races(t)
	}
	read, write := false, false // accumulators to put into
	switch t.kind {
	case KLock, KTryLock, KUnlock, KWLockA, KWLockB, KWTryLock, KWUnlock, KRMW, KClose, KCondEnq, KCondWait, KCondSignal, KCondBroadcast, KOnceDone:
		if t.kind != KClose {
			join(&t.clock, o.rClock)
		}
		join(&t.clock, o.wClock)
		write = true
	case KRLock, KTryRLock, KLoad:
		join(&t.clock, o.wClock)
		read = true
	case KRUnlock:
		read = true
	case KAdd: // does not follow a Wait: see waitgroup
		read = true
	case KWait:
		join(&t.clock, o.rClock)
		write = true
	case KOnce:
		join(&t.clock, o.wClock)
		write = d.doer
	case KReturn:
		read = true
	case KNext:
		join(&t.clock, o.wClock)
		join(&t.clock, o.rClock)
		if o.prod != nil {
			join(&t.clock, o.prod.clock)
		}
		write = true
	case KYield:
		join(&t.clock, t.from)
	}

	switch t.kind {
	case KLock:
		o.locked = true
	case KTryLock:
		e.tries = true
		if !o.locked {
			o.locked, t.res = true, 1
		}
	case KUnlock:
		if !o.locked {
			t.res = 1
		}
		o.locked = false
	case KRLock:
		o.read++
	case KTryRLock:
		e.tries = true
		if !o.ann {
			o.read++
			t.res = 1
		}
	case KRUnlock:
		if o.read == 0 {
			t.res = 1
		}
		o.read--
	case KWLockA:
		o.ann = true
	case KWLockB:
	case KWTryLock:
		e.tries = true
		if !o.ann && o.read == 0 {
			o.ann, t.res = true, 1
		}
	case KWUnlock:
		if !o.ann {
			t.res = 1
		}
		o.ann = false
	case KAdd:
		o.count += t.arg
		t.res = o.count
	case KOnce:
		if o.once == 0 {
			o.once, t.res = 1, 1
		}
	case KOnceDone:
		o.once = 2
	case KNext:
		switch {
		case o.cancelled:
			t.res = 0
		case o.prod != nil:
			t.res, t.resPtr = 1, o.prod.ptr
			o.prod.outcome = 1
		default:
			t.res = 2
		}
	case KYield:
		if t.outcome == 1 {
			t.res = 1
		}
	case KReturn:
		if o.closed {
			t.res = 1
		}
		o.closed = true
	case KClose:
		o.cancelled = true
	case KCondEnq:
		t.woken = false
		o.waiters = append(o.waiters, t)
	case KCondWait:
	case KCondSignal:
		if len(o.waiters) > 0 {
			o.waiters[0].woken = true
			o.waiters = o.waiters[1:]
		}
	case KCondBroadcast:
		for _, w := range o.waiters {
			w.woken = true
		}
		o.waiters = nil
	}

	// the clock of this operation
	index := int32(len(e.trace) + 1)
	for len(t.clock) <= t.id {
		t.clock = append(t.clock, 0)
	}
	t.clock[t.id] = index
	if o != nil {
		if read {
			join(&o.rClock, t.clock)
		}
		if write {
			join(&o.wClock, t.clock)
		}
		o.hist = append(o.hist, len(e.trace))
	}
	if (t.kind == KNext || t.kind == KClose) && o.prod != nil {
		p := o.prod
		if t.kind == KClose {
			p.outcome = 2
		}
		if p.outcome != 0 {
			p.from = append([]int32(nil), t.clock...)
			o.prod = nil
		}
	}
	e.trace = append(e.trace, executed{op: d, clock: append([]int32(nil), t.clock...)})
}

// after reports if the operation at index j happens after that at index i
func (e *explorer) after(clock []int32, i int) bool {
	t := e.trace[i].op.tid
	return t < len(clock) && clock[t] > int32(i)
}

// races looks for the operations that race with the one t does next
func (e *explorer) races(t *Thread) {
	if t.obj == nil {
		return
	}
	d := e.desc(t)
	var found []int
next:
	for k := len(t.obj.hist) - 1; k >= 0; k-- {
		i := t.obj.hist[k]
		x := e.trace[i]
		if x.op.tid == t.id || !racing(x.op, d, x.op.doer) || e.after(t.clock, i) {
			continue
		}
		for _, j := range found {
			if e.after(e.trace[j].clock, i) {
				continue next
			}
		}
		found = append(found, i)
		e.backtrack(i, t)
	}
}

// backtrack makes sure that the operation of p is also tried before the one at index i.
// (The source sets of Abdulla, Aronis, Jonsson and Sagonas.)
func (e *explorer) backtrack(i int, p *Thread) {
	nd := e.stack[i]
	d := e.desc(p)
	first := make(map[int]int) // what does not depend on i: thread -> first operation
	var initial []int
	pInitial := true
	for j := i + 1; j < len(e.trace); j++ {
		x := e.trace[j]
		if e.after(x.clock, i) {
			continue
		}
		_, has := first[x.op.tid]
		if !has {
			depends := false
			for t, f := range first {
				if t < len(x.clock) && x.clock[t] > int32(f) {
					depends = true
					break
				}
			}
			if !depends {
				initial = append(initial, x.op.tid)
			}
			first[x.op.tid] = j
		}
		if x.op.tid == p.id || dependent(x.op, d) || e.after(p.clock, j) {
			pInitial = false
		}
	}
	if pInitial {
		initial = append(initial, p.id)
	}
	add := -1
	for _, q := range initial {
		if nd.backtrack.has(q) {
			return
		}
		for _, s := range nd.sleep {
			if s.tid == q {
				return
			}
		}
		for _, id := range nd.enabled {
			if id == q {
				add = q
			}
		}
	}
	if add >= 0 {
		nd.backtrack.set(add)
		return
	}
	for _, q := range nd.enabled {
		nd.backtrack.set(q)
	}
}

// racing reports if two operations on the same object are dependent and may be possible at the same time
func racing(a, b opdesc, doer bool) bool {
	x, y := a.kind, b.kind
	if x > y {
		x, y = y, x
	}
	switch x {
	case KLock:
		return y == KLock || y == KTryLock
	case KTryLock:
		return y == KTryLock || y == KUnlock
	case KRLock, KTryRLock:
		return y == KWLockA || y == KWTryLock || x == KTryRLock && y == KWUnlock
	case KRUnlock:
		return y == KWTryLock
	case KWLockA:
		return y == KWLockA || y == KWTryLock
	case KWTryLock:
		return y == KWTryLock || y == KWUnlock
	case KOnce:
		return y == KOnce && doer
	case KLoad:
		return y == KRMW
	case KRMW:
		return y == KRMW
	case KNext:
		return y == KNext || y == KClose
	case KCondEnq, KCondWait, KCondSignal, KCondBroadcast:
		return true
	}
	return false
}

// dependent reports if two operations may influence each other
func dependent(a, b opdesc) bool {
	if a.obj < 0 || a.obj != b.obj {
		return false
	}
	x, y := a.kind, b.kind
	if x > y {
		x, y = y, x
	}
	switch {
	case x == KLoad && y == KLoad,
		x == KRLock && (y == KRLock || y == KRUnlock),
		x == KRUnlock && y == KRUnlock,
		x == KWait && y == KWait,
		x == KAdd && y == KAdd,
		x == KYield || y == KYield:
		return false
	case x == KOnce && y == KOnce:
		return a.doer || b.doer
	}
	return true
}

// finished inspects a complete execution
func (e *explorer) finished() error {
	for _, o := range e.objects {
		if err := e.waitgroup(o); err != nil {
			return err
		}
	}
	return nil
}

// waitgroup checks that no Add happens at a counter of zero while a Wait is possible.
//
// Operations of a WaitGroup that are not ordered by anything else may happen in any order.
// For each pair of Wait and Add, it looks for an order in which both are possible at zero:
// the smallest counter of any prefix that has all before the Wait and nothing after the Add is
// found with a maximal matching of Done to Add operations.
func (e *explorer) waitgroup(o *object) error {
	var adds, dones, waits []int
	for _, i := range o.hist {
		switch x := e.trace[i].op; {
		case x.kind == KWait:
			waits = append(waits, i)
		case x.kind == KAdd && x.arg > 0:
			adds = append(adds, i)
		case x.kind == KAdd && x.arg < 0:
			dones = append(dones, i)
		}
	}
	if len(waits) == 0 {
		return nil
	}
	before := func(i, j int) bool { // i happens before or is j
		if i == j {
			return true
		}
		c, t := e.trace[j].clock, e.trace[i].op.tid
		return t < len(c) && c[t] > int32(i)
	}
	initial := o.count
	for _, i := range o.hist {
		if e.trace[i].op.kind == KAdd {
			initial -= e.trace[i].op.arg
		}
	}
	for _, w := range waits {
		// what happens before the wait because of other operations than this wait is what its
		// thread knew when it began to wait
		var prev []int32
		tid := e.trace[w].op.tid
		for i := w - 1; i >= 0; i-- {
			if e.trace[i].op.tid == tid {
				prev = e.trace[i].clock
				break
			}
		}
		known := func(i int) bool {
			t := e.trace[i].op.tid
			return t < len(prev) && prev[t] > int32(i)
		}
		for _, a := range adds {
			if known(a) || before(w, a) {
				continue
			}
			// the counter of what has to be before the wait
			base := initial
			var fa, fd []int // those that are free to choose
			for _, x := range adds {
				if known(x) {
					base += e.trace[x].op.arg
				} else if !before(a, x) {
					fa = append(fa, x)
				}
			}
			for _, x := range dones {
				if known(x) {
					base += e.trace[x].op.arg
				} else if !before(a, x) {
					fd = append(fd, x)
				}
			}
			match := make(map[int]int) // unit of an add -> done
			var units [][2]int
			for _, x := range fa {
				for k := int64(0); k < e.trace[x].op.arg; k++ {
					units = append(units, [2]int{x, int(k)})
				}
			}
			profit := int64(0)
			for _, d := range fd {
				seen := make([]bool, len(units))
				var try func(d int) bool
				try = func(d int) bool {
					for u := range units {
						if seen[u] || !before(units[u][0], d) {
							continue
						}
						seen[u] = true
						if m, ok := match[u]; !ok || try(m) {
							match[u] = d
							return true
						}
					}
					return false
				}
				if !try(d) {
					profit++
				}
			}
			if base-profit <= 0 {
				return fmt.Errorf("misuse of a WaitGroup: Add in thread %d (%s) and Wait in thread %d (%s) can happen at the same time when the counter is zero",
					e.trace[a].op.tid, where(e.threads[e.trace[a].op.tid].pc), tid, where(e.threads[tid].pc))
			}
		}
	}
	return nil
}

// NoSleep turns off sleep sets (to test them)
var NoSleep = false
