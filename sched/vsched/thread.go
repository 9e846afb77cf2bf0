// Package vsched is a controlled scheduler: it runs a program whose
// synchronisation has been replaced by the packages vsync, vatomic and vslog
// (and whose go statements by [Go]), deciding at every synchronisation
// operation which thread continues, and explores all the possible decisions.
//
// Only one thread runs at a time. The scheduler itself must not be seen by the
// race detector: threads hand over to the controller while race handling is
// disabled, and never touch its data. The ordering that the program's own
// synchronisation implies is reported to the race detector by the shims.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Kind is the kind of an operation
type Kind uint8

const (
	KStart Kind = iota
	KLock
	KTryLock
	KUnlock
	KRLock
	KTryRLock
	KRUnlock
	KWLockA // announce a writer
	KWLockB // wait for the readers
	KWTryLock
	KWUnlock
	KAdd
	KWait
	KOnce
	KOnceDone
	KLoad
	KRMW
	KNext
	KYield
	KReturn
	KClose
	KCondEnq
	KCondWait
	KCondSignal
	KCondBroadcast
	kindCount
)

var kindNames = [kindCount]string{"start", "Lock", "TryLock", "Unlock", "RLock", "TryRLock", "RUnlock", "Lock(announce)", "Lock(readers)", "TryLock", "Unlock", "Add", "Wait", "Once.Do", "Once.done", "load", "store", "Next", "Yield", "Return", "Close", "Cond.Wait(enter)", "Cond.Wait", "Cond.Signal", "Cond.Broadcast"}

// Thread is a thread of the explored program
type Thread struct {
	wake chan struct{}

	// written by the thread, read by the controller
	kind     Kind
	addr     unsafe.Pointer
	arg      int64
	ptr      unsafe.Pointer
	finished bool
	panicked bool
	message  string

	spawned, spawnedTail, next *Thread

	pc uintptr // where it was started

	// written by the controller, read by the thread
	res      int64
	resPtr   unsafe.Pointer
	abort    bool
	aborting bool

	// only used by the controller
	id      int
	clock   []int32
	done    bool
	obj     *object
	outcome int // of a Yield: 0 open, 1 taken, 2 cancelled
	from    []int32
	woken   bool
}

var (
	active  bool    // is an execution going on?
	current *Thread // the running thread

	toController = make(chan *Thread, 1)

	abortObj, endObj uint64
)

// Active reports if the caller is part of an explored execution.
//
//go:norace
func Active() bool { return active }

// Do performs an operation of the running thread: it waits until the scheduler lets it happen.
//
//go:norace
func Do(kind Kind, addr unsafe.Pointer, arg int64, ptr unsafe.Pointer) (int64, unsafe.Pointer) {
	t := current
	if t.aborting {
		return 0, nil
	}
	t.kind, t.addr, t.arg, t.ptr = kind, addr, arg, ptr
	ReleaseMerge(unsafe.Pointer(&abortObj))
	raceDisable()
	toController <- t
	<-t.wake
	raceEnable()
	if t.abort {
		t.aborting = true
		Acquire(unsafe.Pointer(&abortObj))
		Acquire(unsafe.Pointer(&endObj))
		runtime.Goexit()
	}
	return t.res, t.resPtr
}

// Go starts a new thread.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	t := current
	if t.aborting {
		return
	}
	n := newThread(f)
	n.pc = pcs[0]
	if t.spawned == nil {
		t.spawned = n
	} else {
		t.spawnedTail.next = n
	}
	t.spawnedTail = n
}

//go:norace
func newThread(f func()) *Thread {
	n := &Thread{wake: make(chan struct{}, 1), kind: KStart}
	go n.run(f)
	return n
}

//go:norace
func (t *Thread) run(f func()) {
	defer t.finish()
	raceDisable()
	<-t.wake
	raceEnable()
	if t.abort {
		t.aborting = true
		return
	}
	f()
}

//go:norace
func (t *Thread) finish() {
	if r := recover(); r != nil && !t.aborting {
		t.panicked = true
		t.message = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
	}
	t.finished = true
	ReleaseMerge(unsafe.Pointer(&endObj))
	raceDisable()
	toController <- t
	raceEnable()
}
