package rt

import (
	"iter"
	"sync"
	"unsafe"
)

// Channel operations of the library. Blocking is decided by the simulator:
// an operation that cannot proceed parks its task until some channel
// operation happens. Unbuffered channels are given one slot.

var chanKey byte

// ChanWake lets the tasks parked on channels try again.
//
//go:norace
func ChanWake() {
	if active {
		wakeAll(unsafe.Pointer(&chanKey))
	}
}

// ChanBlock parks the task until a channel operation happens.
//
//go:norace
func ChanBlock() {
	if active {
		block(unsafe.Pointer(&chanKey), "a channel operation")
	}
}

func Send[T any](ch chan<- T, v T) {
	for Active() {
		Y(4)
		select {
		case ch <- v:
			ChanWake()
			return
		default:
			ChanBlock()
		}
	}
	ch <- v
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	for Active() {
		Y(4)
		select {
		case v, ok := <-ch:
			ChanWake()
			return v, ok
		default:
			ChanBlock()
		}
	}
	v, ok := <-ch
	return v, ok
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

func Close[T any](ch chan<- T) {
	close(ch)
	ChanWake()
}

// Cond replaces sync.Cond.
type Cond struct {
	L sync.Locker
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.L.Unlock()
	c.park()
	c.L.Lock()
}

//go:norace
func (c *Cond) park() {
	if active {
		block(unsafe.Pointer(c), "Cond.Wait")
	}
}

func (c *Cond) Signal() { c.Broadcast() }

//go:norace
func (c *Cond) Broadcast() {
	if active {
		wakeAll(unsafe.Pointer(c))
		Y(3)
	}
}

func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	var p interface{}
	ok := false
	return func() T {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					if IsBudget(p) {
						panic(p)
					}
				}
			}()
			v = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	type pair struct {
		t T
		u U
	}
	g := OnceValue(func() pair { t, u := f(); return pair{t, u} })
	return func() (T, U) { p := g(); return p.t, p.u }
}
