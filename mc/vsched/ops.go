//go:build go1.22

package verifsched

import (
	"reflect"
	"runtime"
	"sync"
	"time"
	"unsafe"
)

// ----------------------------------------------------------------- channels

func refOf(ch any) chanRef {
	v := reflect.ValueOf(ch)
	if v.IsNil() {
		return chanRef{}
	}
	return chanRef{ptr: v.Pointer(), cap: v.Cap(), obj: ch}
}

//go:norace
func doSend(ch chanRef, v any) (native bool) {
	s, g := begin(opSend)
	if s == nil {
		return !killed()
	}
	g.op.ch, g.op.val = ch, v
	s.do(g)
	return false
}

// SendTo returns the send operation of ch
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if doSend(refOf(ch), v) {
			ch <- v
		}
	}
}

//go:norace
func doRecv(ch chanRef) (v any, ok bool, native bool) {
	s, g := begin(opRecv)
	if s == nil {
		return nil, false, !killed()
	}
	g.op.ch = ch
	s.do(g)
	return g.op.rval, g.op.rok, false
}

// Recv is <-ch
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok, native := doRecv(refOf(ch))
	if native {
		x, ok := <-ch
		return x, ok
	}
	if v == nil {
		var zero T
		return zero, ok
	}
	return v.(T), ok
}

// RangeInit evaluates the channel of a range loop and declares its variable
func RangeInit[T any](ch <-chan T) (<-chan T, T) {
	var zero T
	return ch, zero
}

//go:norace
func doClose(ch chanRef) (native bool) {
	s, g := begin(opClose)
	if s == nil {
		return !killed()
	}
	g.op.ch = ch
	s.do(g)
	return false
}

// Close is close(ch)
func Close[T any](ch chan<- T) {
	if doClose(refOf(ch)) {
		close(ch)
	}
}

//go:norace
func chanLen(ch chanRef) int {
	s := active
	if s == nil || s.cur == nil || ch.ptr == 0 {
		return -1
	}
	return s.lenOf(ch)
}

//go:norace
func (s *session) lenOf(ch chanRef) int {
	// the controller waits while a goroutine runs; the map is only read
	c := s.chans[ch.ptr]
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Len is len(ch)
func Len[T any](ch <-chan T) int {
	Yield()
	if n := chanLen(refOf(ch)); n >= 0 {
		return n
	}
	return len(ch)
}

// SelCase is one case of a select statement
type SelCase struct {
	c    selCase
	real reflect.SelectCase
}

// SendCase returns a constructor for the case ch <- v
func SendCase[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		return SelCase{c: selCase{send: true, ch: refOf(ch), val: v},
			real: reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()}}
	}
}

// RecvCase is the case <-ch
func RecvCase[T any](ch <-chan T) SelCase {
	return SelCase{c: selCase{ch: refOf(ch)}, real: reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}}
}

// SelRes is the received value of a select statement
type SelRes struct {
	v  any
	ok bool
}

//go:norace
func doSelect(cases []selCase, deflt bool) (i int, v any, ok bool, native bool) {
	s, g := begin(opSelect)
	if s == nil {
		return 0, nil, false, !killed()
	}
	g.op.cases, g.op.deflt = cases, deflt
	s.do(g)
	return g.op.ridx, g.op.rval, g.op.rok, false
}

// Select is a select statement; it returns -1 for the default case
func Select(deflt bool, cases ...SelCase) (int, SelRes) {
	cs := make([]selCase, len(cases))
	for i := range cases {
		cs[i] = cases[i].c
	}
	i, v, ok, native := doSelect(cs, deflt)
	if native {
		rc := make([]reflect.SelectCase, len(cases))
		for i := range cases {
			rc[i] = cases[i].real
		}
		if deflt {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, rv, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1, SelRes{}
		}
		var x any
		if rv.IsValid() && ok {
			x = rv.Interface()
		}
		return i, SelRes{x, ok}
	}
	if killed() {
		runtime.Goexit()
	}
	return i, SelRes{v, ok}
}

// SelVal converts the received value of a select statement to the element type of ch
func SelVal[T any](ch <-chan T, r SelRes) T {
	if r.v == nil {
		var zero T
		return zero
	}
	return r.v.(T)
}

// SelVal2 is SelVal with the second result of a receive
func SelVal2[T any](ch <-chan T, r SelRes) (T, bool) { return SelVal(ch, r), r.ok }

// -------------------------------------------------------------------- locks

//go:norace
func doObj(kind opKind, p unsafe.Pointer, n int64) (ok bool, native bool) {
	s, g := begin(kind)
	if s == nil {
		return false, !killed()
	}
	g.op.obj, g.op.n = p, n
	s.do(g)
	return g.op.rok, false
}

// Locker is sync.Locker
type Locker = sync.Locker

// Mutex stands in for sync.Mutex
type Mutex struct {
	real sync.Mutex
	tok  byte
}

// Lock locks m
func (m *Mutex) Lock() {
	if _, native := doObj(opLock, unsafe.Pointer(m), 0); native {
		m.real.Lock()
		return
	}
	raceAcquire(&m.tok)
}

// TryLock tries to lock m
func (m *Mutex) TryLock() bool {
	ok, native := doObj(opTryLock, unsafe.Pointer(m), 0)
	if native {
		return m.real.TryLock()
	}
	if ok {
		raceAcquire(&m.tok)
	}
	return ok
}

// Unlock unlocks m
func (m *Mutex) Unlock() {
	if Active() {
		raceRelease(&m.tok)
	}
	if _, native := doObj(opUnlock, unsafe.Pointer(m), 0); native {
		m.real.Unlock()
	}
}

// RWMutex stands in for sync.RWMutex
type RWMutex struct {
	real sync.RWMutex
	tok  byte
	rtok byte
}

// Lock locks m for writing
func (m *RWMutex) Lock() {
	if _, native := doObj(opLock, unsafe.Pointer(m), 0); native {
		m.real.Lock()
		return
	}
	raceAcquire(&m.tok)
	raceAcquire(&m.rtok)
}

// TryLock tries to lock m for writing
func (m *RWMutex) TryLock() bool {
	ok, native := doObj(opTryLock, unsafe.Pointer(m), 0)
	if native {
		return m.real.TryLock()
	}
	if ok {
		raceAcquire(&m.tok)
		raceAcquire(&m.rtok)
	}
	return ok
}

// Unlock unlocks m for writing
func (m *RWMutex) Unlock() {
	if Active() {
		raceRelease(&m.tok)
	}
	if _, native := doObj(opUnlock, unsafe.Pointer(m), 0); native {
		m.real.Unlock()
	}
}

// RLock locks m for reading
func (m *RWMutex) RLock() {
	if _, native := doObj(opRLock, unsafe.Pointer(m), 0); native {
		m.real.RLock()
		return
	}
	raceAcquire(&m.tok)
}

// TryRLock tries to lock m for reading
func (m *RWMutex) TryRLock() bool {
	ok, native := doObj(opTryRLock, unsafe.Pointer(m), 0)
	if native {
		return m.real.TryRLock()
	}
	if ok {
		raceAcquire(&m.tok)
	}
	return ok
}

// RUnlock undoes RLock
func (m *RWMutex) RUnlock() {
	if Active() {
		raceRelease(&m.rtok)
	}
	if _, native := doObj(opRUnlock, unsafe.Pointer(m), 0); native {
		m.real.RUnlock()
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup stands in for sync.WaitGroup
type WaitGroup struct {
	real sync.WaitGroup
	tok  byte
}

// Add adds n to the counter
func (w *WaitGroup) Add(n int) {
	if Active() {
		raceRelease(&w.tok)
	}
	if _, native := doObj(opWgAdd, unsafe.Pointer(w), int64(n)); native {
		w.real.Add(n)
	}
}

// Done decrements the counter
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits until the counter is zero
func (w *WaitGroup) Wait() {
	if _, native := doObj(opWgWait, unsafe.Pointer(w), 0); native {
		w.real.Wait()
		return
	}
	raceAcquire(&w.tok)
}

// Go runs f in a new goroutine and adds it to w
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("WaitGroup.Go", nil, func() {
		defer w.Done()
		f()
	})
}

// Once stands in for sync.Once
type Once struct {
	real sync.Once
	tok  byte
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

// Do calls f the first time
func (o *Once) Do(f func()) {
	if !Active() {
		o.real.Do(func() {
			if !o.isDone() {
				defer o.setDone()
				f()
			}
		})
		return
	}
	if o.isDone() {
		raceAcquire(&o.tok)
		return
	}
	first, native := doObj(opOnceEnter, unsafe.Pointer(o), 0)
	if native || killed() {
		return
	}
	if !first {
		raceAcquire(&o.tok)
		return
	}
	defer func() {
		raceRelease(&o.tok)
		o.setDone()
		doObj(opOnceExit, unsafe.Pointer(o), 0)
	}()
	f()
}

// OnceFunc is sync.OnceFunc
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue
func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

// OnceValues is sync.OnceValues
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// Cond stands in for sync.Cond
type Cond struct {
	L    Locker
	real *sync.Cond
}

// NewCond returns a new Cond
func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

// Wait waits for Signal or Broadcast
func (c *Cond) Wait() {
	if !Active() {
		c.real.Wait()
		return
	}
	c.waitVirtual()
}

func (c *Cond) waitVirtual() {
	doObj(opCondAdd, unsafe.Pointer(c), 0)
	c.L.Unlock()
	doObj(opCondWait, unsafe.Pointer(c), 0)
	c.L.Lock()
}

// Signal wakes one waiter
func (c *Cond) Signal() {
	if _, native := doObj(opCondSignal, unsafe.Pointer(c), 0); native {
		c.real.Signal()
	}
}

// Broadcast wakes all waiters
func (c *Cond) Broadcast() {
	if _, native := doObj(opCondBroadcast, unsafe.Pointer(c), 0); native {
		c.real.Broadcast()
	}
}

// Pool stands in for sync.Pool; it keeps the last value put
type Pool struct {
	New func() any
	mu  Mutex
	x   []any
}

// Get takes a value from the pool
func (p *Pool) Get() any {
	p.mu.Lock()
	var v any
	if n := len(p.x); n > 0 {
		v = p.x[n-1]
		p.x = p.x[:n-1]
	}
	p.mu.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

// Put adds a value to the pool
func (p *Pool) Put(v any) {
	p.mu.Lock()
	p.x = append(p.x, v)
	p.mu.Unlock()
}

// Map stands in for sync.Map
type Map struct {
	mu   Mutex
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; !ok || v != old {
		return false
	}
	m.m[k] = new
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	ks := append([]any{}, m.keys...)
	m.mu.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// --------------------------------------------------------------------- time

// Tick is time.Tick
func Tick(d time.Duration) <-chan time.Time {
	if !Active() {
		return time.Tick(d)
	}
	return NewTicker(d).C
}

// After is time.After
func After(d time.Duration) <-chan time.Time {
	if !Active() {
		return time.After(d)
	}
	return NewTimer(d).C
}

// Sleep is time.Sleep
func Sleep(d time.Duration) {
	if _, native := doObj(opSleep, nil, int64(d)); native {
		time.Sleep(d)
	}
}

// Ticker stands in for time.Ticker
type Ticker struct {
	C    <-chan time.Time
	real *time.Ticker
	vt   *vtimer
}

// Timer stands in for time.Timer
type Timer struct {
	C    <-chan time.Time
	real *time.Timer
	vt   *vtimer
}

//go:norace
func doTimer(kind opKind, t *vtimer, n int64) (ok bool, native bool) {
	s, g := begin(kind)
	if s == nil {
		return false, !killed()
	}
	g.op.tm, g.op.n = t, n
	s.do(g)
	return g.op.rok, false
}

func newVTimer(ch chan time.Time, period time.Duration) *vtimer {
	t := &vtimer{period: int64(period)}
	r := refOf(ch)
	s := cursess()
	t.send = func() { s.fireChan(r, time.Unix(1600000000, s.now)) }
	return t
}

// NewTicker is time.NewTicker
func NewTicker(d time.Duration) *Ticker {
	if !Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, vt: newVTimer(ch, d)}
	doTimer(opNewTimer, t.vt, int64(d))
	return t
}

// Stop stops the ticker
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	doTimer(opStopTimer, t.vt, 0)
}

// Reset restarts the ticker
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.vt.period = int64(d)
	doTimer(opStopTimer, t.vt, int64(d))
}

// NewTimer is time.NewTimer
func NewTimer(d time.Duration) *Timer {
	if !Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, vt: newVTimer(ch, 0)}
	doTimer(opNewTimer, t.vt, int64(d))
	return t
}

// Stop stops the timer
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	ok, _ := doTimer(opStopTimer, t.vt, 0)
	return ok
}

// Reset restarts the timer
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	n := int64(d)
	if n <= 0 {
		n = 1
	}
	ok, _ := doTimer(opStopTimer, t.vt, n)
	return ok
}

// AfterFunc is time.AfterFunc
func AfterFunc(d time.Duration, f func()) *Timer {
	if !Active() {
		r := time.AfterFunc(d, f)
		return &Timer{C: r.C, real: r}
	}
	s := cursess()
	vt := &vtimer{}
	vt.send = func() {
		g := &G{site: "AfterFunc", resume: make(chan struct{}, 1), fn: f}
		go g.main(s)
		s.register(g)
	}
	t := &Timer{vt: vt}
	doTimer(opNewTimer, vt, int64(d))
	return t
}

// Gosched is runtime.Gosched
func Gosched() { Yield() }
