package traversal

import (
	"context"
	"runtime"
	"unsafe"

	"github.com/FAU-CDI/hangover/zverif/vsched"
)

// This file replaces the channel based iterator. Outside of an exploration it is the original,
// inside of one the exchange between the two ends is decided by the scheduler.

type impl[T any] struct {
	context context.Context
	cancel  context.CancelFunc

	messages chan message[T]
	returned bool

	datum T
	err   error

	controlled bool
	sent       byte // released by the sending end, acquired by the receiving one
	received   byte // the other way
	closed     byte
}

func newImpl[T any]() *impl[T] {
	if vsched.Active() {
		return &impl[T]{controlled: true}
	}
	context, cancel := context.WithCancel(context.Background())
	obj := &impl[T]{
		context:  context,
		cancel:   cancel,
		messages: make(chan message[T]),
	}
	runtime.SetFinalizer(obj, (*impl[T]).Close)
	return obj
}

type message[T any] struct {
	datum T
	err   error
}

func (it *impl[T]) do(kind vsched.Kind, p unsafe.Pointer) (int64, unsafe.Pointer) {
	if !vsched.Active() {
		panic("iterator of an exploration used outside of it")
	}
	return vsched.Do(kind, unsafe.Pointer(&it.sent), 0, p)
}

func (it *impl[T]) Next() (ok bool) {
	if it.controlled {
		vsched.ReleaseMerge(unsafe.Pointer(&it.received))
		r, p := it.do(vsched.KNext, nil)
		if r == 0 { // cancelled
			vsched.Acquire(unsafe.Pointer(&it.closed))
			return false
		}
		vsched.Acquire(unsafe.Pointer(&it.sent))
		if r == 2 { // all was sent
			return false
		}
		m := (*message[T])(p)
		it.err = m.err
		it.datum = m.datum
	} else {
		select {
		case <-it.context.Done():
			return false
		case message, mok := <-it.messages:
			if !mok {
				return false
			}
			it.err = message.err
			it.datum = message.datum
		}
	}

	if it.err != nil {
		it.stop()
		return false
	}

	return true
}

func (it *impl[T]) stop() {
	if it.controlled {
		vsched.ReleaseMerge(unsafe.Pointer(&it.closed))
		it.do(vsched.KClose, nil)
		return
	}
	it.cancel()
}

func (it *impl[T]) Datum() T {
	return it.datum
}

func (it *impl[T]) Close() error {
	if !it.controlled {
		runtime.SetFinalizer(it, nil) // no more need to finalize!
	}
	it.stop()
	return nil
}

func (it *impl[T]) Err() error {
	return it.err
}

func (it *impl[T]) Yield(datum T) (ok bool) {
	return it.send(message[T]{
		datum: datum,
		err:   nil,
	})
}

func (it *impl[T]) YieldError(err error) (ok bool) {
	if err == nil {
		return true
	}

	return it.send(message[T]{
		err: err,
	}) || err == nil
}

func (it *impl[T]) send(m message[T]) (ok bool) {
	if it.controlled {
		vsched.ReleaseMerge(unsafe.Pointer(&it.sent))
		r, _ := it.do(vsched.KYield, unsafe.Pointer(&m))
		if r == 0 {
			vsched.Acquire(unsafe.Pointer(&it.closed))
			return false
		}
		vsched.Acquire(unsafe.Pointer(&it.received))
		return true
	}
	select {
	case it.messages <- m:
		return true
	case <-it.context.Done():
		return false
	}
}

func (it *impl[T]) Returned() bool {
	return it.returned
}

func (it *impl[T]) Return() {
	if it.controlled {
		vsched.ReleaseMerge(unsafe.Pointer(&it.sent))
		if r, _ := it.do(vsched.KReturn, nil); r != 0 {
			panic("close of closed channel")
		}
	} else {
		close(it.messages)
	}
	it.returned = true
}
