//go:build go1.21

package simrt

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"
)

func logf(x float64) float64 { return math.Log(x) }

type waiter struct {
	g     *G
	val   any
	ok    bool
	fired *bool // shared by the cases of one select
	done  bool
	idx   int
	sel   *int
	panic bool
}

type chanState struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	sent   int64
}

func (w *World) state(p uintptr, c int, keep any) *chanState {
	s := w.chans[p]
	if s == nil {
		s = &chanState{cap: c, keep: keep}
		w.chans[p] = s
	}
	return s
}

func ptrOf[C any](c *C) uintptr { return *(*uintptr)(unsafe.Pointer(c)) }

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.fired != nil {
			if *x.fired {
				continue
			}
			*x.fired = true
			*x.sel = x.idx
		}
		return x
	}
	return nil
}

func peek(q *[]*waiter) bool {
	for len(*q) > 0 {
		if f := (*q)[0].fired; f != nil && *f {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (w *World) trySend(s *chanState, v any) bool {
	if s.closed {
		panic(plainError("send on closed channel"))
	}
	if x := deq(&s.recvq); x != nil {
		x.val, x.ok, x.done = v, true, true
		w.ready(x.g)
		s.sent++
		return true
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)
		s.sent++
		return true
	}
	return false
}

func (w *World) tryRecv(s *chanState) (v any, ok bool, done bool) {
	if len(s.buf) > 0 {
		v = s.buf[0]
		s.buf[0] = nil
		s.buf = s.buf[1:]
		if x := deq(&s.sendq); x != nil {
			s.buf = append(s.buf, x.val)
			x.done = true
			s.sent++
			w.ready(x.g)
		}
		return v, true, true
	}
	if x := deq(&s.sendq); x != nil {
		x.done = true
		s.sent++
		w.ready(x.g)
		return x.val, true, true
	}
	if s.closed {
		return nil, false, true
	}
	return nil, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }

func blockForever(what string) {
	w := W
	for {
		w.block(what)
	}
}

func sendAny(p uintptr, c int, keep any, v any) {
	w := W
	Y()
	CheckDead()
	if p == 0 {
		blockForever("send on nil channel")
	}
	s := w.state(p, c, keep)
	if w.trySend(s, v) {
		Y()
		return
	}
	x := &waiter{g: w.cur, val: v}
	s.sendq = append(s.sendq, x)
	for !x.done {
		w.block("channel send")
	}
	if x.panic {
		panic(plainError("send on closed channel"))
	}
}

func recvAny(p uintptr, c int, keep any) (any, bool) {
	w := W
	Y()
	CheckDead()
	if p == 0 {
		blockForever("receive on nil channel")
	}
	s := w.state(p, c, keep)
	if v, ok, done := w.tryRecv(s); done {
		Y()
		return v, ok
	}
	x := &waiter{g: w.cur}
	s.recvq = append(s.recvq, x)
	for !x.done {
		w.block("channel receive")
	}
	return x.val, x.ok
}

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if W == nil {
			ch <- v
			return
		}
		sendAny(ptrOf(&ch), cap(ch), ch, v)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if W == nil {
		v, ok := <-ch
		return v, ok
	}
	a, ok := recvAny(ptrOf(&ch), cap(ch), ch)
	var v T
	if a != nil {
		v = a.(T)
	}
	return v, ok
}

func Close[T any](ch chan<- T) {
	if W == nil {
		close(ch)
		return
	}
	w := W
	Y()
	CheckDead()
	if ptrOf(&ch) == 0 {
		panic(plainError("close of nil channel"))
	}
	s := w.state(ptrOf(&ch), cap(ch), ch)
	if s.closed {
		panic(plainError("close of closed channel"))
	}
	s.closed = true
	for {
		x := deq(&s.recvq)
		if x == nil {
			break
		}
		x.val, x.ok, x.done = nil, false, true
		w.ready(x.g)
	}
	for {
		x := deq(&s.sendq)
		if x == nil {
			break
		}
		x.done, x.panic = true, true
		w.ready(x.g)
	}
	Y()
}

func Len[T any](ch <-chan T) int {
	if W == nil {
		return len(ch)
	}
	Y()
	if ptrOf(&ch) == 0 {
		return 0
	}
	return len(W.state(ptrOf(&ch), cap(ch), ch).buf)
}

// Iter is a rewritten `for x := range ch`.
type Iter[T any] struct {
	ch <-chan T
}

func Range[T any](ch <-chan T) *Iter[T] { return &Iter[T]{ch} }
func RangeV[T any](ch <-chan T) (T, *Iter[T]) {
	var z T
	return z, &Iter[T]{ch}
}

func (it *Iter[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// ---------------------------------------------------------------- select

type SelCase interface {
	try(w *World) bool
	enq(w *World, x *waiter)
	finish(x *waiter)
	real() reflect.SelectCase
}

type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	OK  bool
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) set(a any, ok bool) {
	if a != nil {
		c.Val = a.(T)
	}
	c.OK = ok
}
func (c *RecvCase[T]) try(w *World) bool {
	if c.ch == nil {
		return false
	}
	v, ok, done := w.tryRecv(w.state(ptrOf(&c.ch), cap(c.ch), c.ch))
	if done {
		c.set(v, ok)
	}
	return done
}
func (c *RecvCase[T]) enq(w *World, x *waiter) {
	if c.ch == nil {
		return
	}
	s := w.state(ptrOf(&c.ch), cap(c.ch), c.ch)
	s.recvq = append(s.recvq, x)
}
func (c *RecvCase[T]) finish(x *waiter) { c.set(x.val, x.ok) }
func (c *RecvCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

type sendCase[T any] struct {
	ch chan<- T
	v  T
}

func CaseSendTo[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase { return &sendCase[T]{ch, v} }
}
func (c *sendCase[T]) try(w *World) bool {
	if c.ch == nil {
		return false
	}
	return w.trySend(w.state(ptrOf(&c.ch), cap(c.ch), c.ch), c.v)
}
func (c *sendCase[T]) enq(w *World, x *waiter) {
	if c.ch == nil {
		return
	}
	x.val = c.v
	s := w.state(ptrOf(&c.ch), cap(c.ch), c.ch)
	s.sendq = append(s.sendq, x)
}
func (c *sendCase[T]) finish(x *waiter) {
	if x.panic {
		panic(plainError("send on closed channel"))
	}
}
func (c *sendCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(c.v)}
}

// Select returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	w := W
	if w == nil {
		panic("simrt.Select outside simulation")
	}
	Y()
	CheckDead()
	off := 0
	if len(cases) > 1 {
		off = w.grng.Intn(len(cases))
	}
	for k := range cases {
		i := (k + off) % len(cases)
		if cases[i].try(w) {
			Y()
			return i
		}
	}
	if hasDefault {
		Y()
		return -1
	}
	fired := false
	sel := -1
	xs := make([]*waiter, len(cases))
	for i, c := range cases {
		xs[i] = &waiter{g: w.cur, fired: &fired, idx: i, sel: &sel}
		c.enq(w, xs[i])
	}
	for !fired {
		w.block("select")
	}
	cases[sel].finish(xs[sel])
	return sel
}

// ---------------------------------------------------------------- go

// Go runs f(args...) in a new simulated goroutine.
func Go(f any, args ...any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		v := reflect.ValueOf(a)
		if v.Type() != pt && pt.Kind() != reflect.Interface && v.Type().ConvertibleTo(pt) {
			v = v.Convert(pt)
		}
		in[i] = v
	}
	if W == nil {
		go fv.Call(in)
		return
	}
	w := W
	Y()
	CheckDead()
	var fn func()
	if f0, ok := f.(func()); ok && len(args) == 0 {
		fn = f0
	} else {
		fn = func() { fv.Call(in) }
	}
	w.newG(fmt.Sprintf("goroutine %d", w.spawned), fn)
	Y()
}

// GoSlice is Go for a call with a final args... parameter.
func GoSlice(f any, args ...any) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(fv.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	Go(func() { fv.CallSlice(in) })
}
