// Package vsync replaces package sync in code that runs under the controlled scheduler.
// Outside of an exploration everything behaves (and costs) like the original.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/FAU-CDI/hangover/zverif/vsched"
)

type Locker = sync.Locker

type Mutex struct {
	real sync.Mutex
	addr byte
}

func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	p := unsafe.Pointer(&m.addr)
	vsched.Do(vsched.KLock, p, 0, nil)
	vsched.Acquire(p)
}

func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	p := unsafe.Pointer(&m.addr)
	if r, _ := vsched.Do(vsched.KTryLock, p, 0, nil); r == 0 {
		return false
	}
	vsched.Acquire(p)
	return true
}

func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	p := unsafe.Pointer(&m.addr)
	vsched.ReleaseMerge(p)
	if r, _ := vsched.Do(vsched.KUnlock, p, 0, nil); r != 0 {
		panic("sync: unlock of unlocked mutex")
	}
}

type RWMutex struct {
	real sync.RWMutex
	addr byte // released by writers
	read byte // released by readers
}

func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.real.RLock()
		return
	}
	p := unsafe.Pointer(&m.addr)
	vsched.Do(vsched.KRLock, p, 0, nil)
	vsched.Acquire(p)
}

func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.real.TryRLock()
	}
	p := unsafe.Pointer(&m.addr)
	if r, _ := vsched.Do(vsched.KTryRLock, p, 0, nil); r == 0 {
		return false
	}
	vsched.Acquire(p)
	return true
}

func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.real.RUnlock()
		return
	}
	vsched.ReleaseMerge(unsafe.Pointer(&m.read))
	if r, _ := vsched.Do(vsched.KRUnlock, unsafe.Pointer(&m.addr), 0, nil); r != 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.real.Lock()
		return
	}
	p := unsafe.Pointer(&m.addr)
	vsched.Do(vsched.KWLockA, p, 0, nil)
	vsched.Do(vsched.KWLockB, p, 0, nil)
	vsched.Acquire(p)
	vsched.Acquire(unsafe.Pointer(&m.read))
}

func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.real.TryLock()
	}
	p := unsafe.Pointer(&m.addr)
	if r, _ := vsched.Do(vsched.KWTryLock, p, 0, nil); r == 0 {
		return false
	}
	vsched.Acquire(p)
	vsched.Acquire(unsafe.Pointer(&m.read))
	return true
}

func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.real.Unlock()
		return
	}
	p := unsafe.Pointer(&m.addr)
	vsched.ReleaseMerge(p)
	if r, _ := vsched.Do(vsched.KWUnlock, p, 0, nil); r != 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	real sync.WaitGroup
	addr byte
}

func (wg *WaitGroup) Add(delta int) {
	if !vsched.Active() {
		wg.real.Add(delta)
		return
	}
	p := unsafe.Pointer(&wg.addr)
	if delta < 0 {
		vsched.ReleaseMerge(p)
	}
	if r, _ := vsched.Do(vsched.KAdd, p, int64(delta), nil); r < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (wg *WaitGroup) Done() { wg.Add(-1) }

func (wg *WaitGroup) Wait() {
	if !vsched.Active() {
		wg.real.Wait()
		return
	}
	p := unsafe.Pointer(&wg.addr)
	vsched.Do(vsched.KWait, p, 0, nil)
	vsched.Acquire(p)
}

type Once struct {
	real sync.Once
	done bool
	addr byte
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	p := unsafe.Pointer(&o.addr)
	if !vsched.Active() {
		o.real.Do(func() {
			defer o.setDone()
			if !o.isDone() {
				f()
			}
		})
		return
	}
	var arg int64
	if o.isDone() {
		arg = 1
	}
	if r, _ := vsched.Do(vsched.KOnce, p, arg, nil); r == 0 {
		vsched.Acquire(p)
		return
	}
	defer func() {
		o.setDone()
		vsched.ReleaseMerge(p)
		vsched.Do(vsched.KOnceDone, p, 0, nil)
	}()
	f()
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var result T
	once := OnceFunc(func() { result = f() })
	return func() T {
		once()
		return result
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	once := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) {
		once()
		return r1, r2
	}
}

// Pool hands out what was put back last
type Pool struct {
	New func() any

	real sync.Pool
	top  *pooled
	addr byte
}

type pooled struct {
	value any
	next  *pooled
}

//go:norace
func (p *Pool) push(x any) { p.top = &pooled{value: x, next: p.top} }

//go:norace
func (p *Pool) pop() (x any) {
	if p.top != nil {
		x = p.top.value
		p.top = p.top.next
	}
	return
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if !vsched.Active() {
		p.real.Put(x)
		return
	}
	vsched.ReleaseMerge(unsafe.Pointer(&p.addr))
	p.push(x)
}

func (p *Pool) Get() any {
	var x any
	if !vsched.Active() {
		x = p.real.Get()
	} else {
		vsched.Acquire(unsafe.Pointer(&p.addr))
		x = p.pop()
	}
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

// Map is like [sync.Map], each operation is a single step
type Map struct {
	real sync.Map
	addr byte
}

func (m *Map) step(kind vsched.Kind) {
	if vsched.Active() {
		vsched.Do(kind, unsafe.Pointer(&m.addr), 0, nil)
	}
}

func (m *Map) Load(key any) (value any, ok bool) { m.step(vsched.KLoad); return m.real.Load(key) }
func (m *Map) Store(key, value any)              { m.step(vsched.KRMW); m.real.Store(key, value) }
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.step(vsched.KRMW)
	return m.real.LoadOrStore(key, value)
}
func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.step(vsched.KRMW)
	return m.real.LoadAndDelete(key)
}
func (m *Map) Delete(key any) { m.step(vsched.KRMW); m.real.Delete(key) }
func (m *Map) Swap(key, value any) (any, bool) {
	m.step(vsched.KRMW)
	return m.real.Swap(key, value)
}
func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.step(vsched.KRMW)
	return m.real.CompareAndSwap(key, old, new)
}
func (m *Map) CompareAndDelete(key, old any) bool {
	m.step(vsched.KRMW)
	return m.real.CompareAndDelete(key, old)
}
func (m *Map) Range(f func(key, value any) bool) { m.step(vsched.KLoad); m.real.Range(f) }
func (m *Map) Clear()                            { m.step(vsched.KRMW); m.real.Clear() }

type Cond struct {
	L    Locker
	real *sync.Cond
	addr byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real.Wait()
		return
	}
	p := unsafe.Pointer(&c.addr)
	vsched.Do(vsched.KCondEnq, p, 0, nil)
	c.L.Unlock()
	vsched.Do(vsched.KCondWait, p, 0, nil)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real.Signal()
		return
	}
	vsched.Do(vsched.KCondSignal, unsafe.Pointer(&c.addr), 0, nil)
}

func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real.Broadcast()
		return
	}
	vsched.Do(vsched.KCondBroadcast, unsafe.Pointer(&c.addr), 0, nil)
}
