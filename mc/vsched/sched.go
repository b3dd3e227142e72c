//go:build go1.22

// Package verifsched is a controlled scheduler for the instrumented sources of
// the repository. While a session is active exactly one goroutine of the
// program under test runs at a time; it runs from one visible operation
// (channel, lock, timer, spawn, ...) to the next, and the controller decides
// which goroutine performs its operation next. Without a session every
// operation falls back to the native one.
//
// Rules for this file: code that runs on a goroutine of the program under test
// and touches state shared with the controller is marked go:norace, uses no
// maps and no append, and hands over control with the race detector's
// synchronisation events switched off. That way the race detector sees only
// the happens-before edges the Go memory model gives the program itself.
package verifsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- operations

type opKind uint8

const (
	opStart opKind = iota
	opPoint
	opSend
	opRecv
	opClose
	opSelect
	opLock
	opUnlock
	opRLock
	opRUnlock
	opWgAdd
	opWgWait
	opOnceEnter
	opOnceExit
	opCondAdd
	opCondWait
	opCondSignal
	opCondBroadcast
	opSleep
	opNewTimer
	opStopTimer
	opTryLock
	opTryRLock
)

var opNames = [...]string{"start", "point", "send", "recv", "close", "select", "lock", "unlock", "rlock", "runlock",
	"wgadd", "wgwait", "once", "onceexit", "condadd", "condwait", "condsignal", "condbroadcast", "sleep", "newtimer", "stoptimer", "trylock", "tryrlock"}

type selCase struct {
	send bool
	ch   chanRef
	val  any
}

// chanRef identifies a channel: its runtime pointer and the channel itself.
type chanRef struct {
	ptr uintptr
	cap int
	obj any
}

type opReq struct {
	kind  opKind
	ch    chanRef
	val   any
	cases []selCase
	deflt bool
	obj   unsafe.Pointer // lock, waitgroup, ...
	n     int64
	tm    *vtimer
	tok   *byte // release token of this goroutine for this operation
	// results
	rval   any
	rok    bool
	ridx   int
	rpanic string
	peer   *byte // token to acquire when the operation has completed
	peer2  *byte
}

type gstatus uint8

const (
	gRunnable gstatus = iota // has a pending operation that has not arrived yet, or is ready to continue
	gBlocked
	gDone
)

// G is one goroutine of the program under test
type G struct {
	signalled bool
	id        int
	site      string
	args      []any
	resume    chan struct{}
	op        opReq
	arrived   bool // the pending operation has completed; the goroutine can simply continue
	status    gstatus
	started   bool
	kill      bool
	hist      uint64
	waitSeq   int // steps waited while runnable
	frozen    int // > 0: lowest priority for so many steps
	fn        func()
	nops      int
}

// Config of one execution
type Config struct {
	Policy      int // 0: run until blocked, then FIFO. 1: newest runnable first. 2: lowest id first. 3: highest id first. 4: round robin
	MaxSteps    int
	Fair        int // a runnable goroutine is scheduled after so many steps
	Fine        bool
	RandMode    int       // 0: stream, 1: enumerate (choice points)
	RandSeed    uint64    // stream seed
	RandDepth   int       // number of random draws that are choice points
	RandFrom    int       // random draws before the first choice point
	TailFloats  []float64 // answers to the other draws of floats, one after the other
	TickLimit   int       // number of timer firings after which waiting for timers counts as no progress
	EnvTicks    bool      // timers may fire early, at the cost of one deviation
	RandFloats  []float64
	Trace       bool
	SchedPoints bool // scheduling choices are choice points
	MaxDraws    int  // number of random numbers after which there is no end in sight
}

// Choice is one decision
type Choice struct {
	Kind byte // 's' schedule, 'c' select case, 'r' random
	N    int  // alternatives
	Pick int
	Cost int // cost of a pick other than zero
}

// Exec is the record of one execution
type Exec struct {
	Choices  []Choice
	Steps    int
	Outcome  string // ok, deadlock, panic, horizon, tickloop
	Detail   string
	Leaked   []string
	Panics   []string
	Trace    []string
	Hashes   []uint64
	NumG     int
	MaxRun   int
	Timers   int
	Diverged string
	Switches int
	Ticks    int // ticks of timers that were received
}

type session struct {
	cfg       Config
	prefix    []int
	exec      *Exec
	gs        []*G
	pending   [4096]*G
	npending  int
	runq      []*G
	cur       *G
	parked    chan struct{}
	chans     map[uintptr]*chanState
	locks     map[unsafe.Pointer]*lockState
	wgs       map[unsafe.Pointer]*wgState
	onces     map[unsafe.Pointer]*onceState
	conds     map[unsafe.Pointer]*condState
	timers    []*vtimer
	now       int64
	idleFires int
	objIDs    int
	rnd       uint64
	randUsed  int
	draws     int
	hashSum   uint64
}

var active *session

//go:norace
func cursess() *session { return active }

// Active tells if a session runs (and the caller is part of it)
//
//go:norace
func Active() bool { return active != nil && active.cur != nil }

type chanState struct {
	id     int
	ref    chanRef
	buf    []bufItem
	closed bool
	timer  bool
	ctok   *byte
	sendq  []waiter
	recvq  []waiter
	hist   uint64
	// slots released by receivers of a buffered channel
	slotTok []*byte
}

type bufItem struct {
	val any
	tok *byte
}

type waiter struct {
	g   *G
	idx int // case index, -1 for a plain operation
	val any
	gen int
}

type lockState struct {
	id      int
	writer  *G
	readers int
	q       []waiter
	hist    uint64
}

type wgState struct {
	id   int
	n    int64
	q    []*G
	hist uint64
}

type onceState struct {
	id   int
	st   int
	q    []*G
	hist uint64
}

type condState struct {
	id   int
	q    []*G
	hist uint64
}

type vtimer struct {
	when   int64
	period int64
	ch     any
	send   func()
	active bool
	fn     func()
	seq    int
}

// --------------------------------------------------------- goroutine side

//go:norace
func (s *session) park(g *G) {
	raceRelease(&ctlTok)
	runtimeRaceDisable()
	s.parked <- struct{}{}
	<-g.resume
	runtimeRaceEnable()
	if g.kill {
		runtime.Goexit()
	}
}

// do posts the operation in g.op and waits until it has completed
//
//go:norace
func (s *session) do(g *G) {
	g.nops++
	if g.op.tok == nil {
		g.op.tok = new(byte)
	}
	raceRelease(g.op.tok)
	s.park(g)
	if g.op.peer != nil {
		raceAcquire(g.op.peer)
	}
	if g.op.peer2 != nil {
		raceAcquire(g.op.peer2)
	}
	if g.op.rpanic != "" {
		m := g.op.rpanic
		g.op = opReq{}
		panic(runtimeError(m))
	}
}

type runtimeError string

func (e runtimeError) Error() string { return string(e) }

//go:norace
func begin(kind opKind) (*session, *G) {
	s := active
	if s == nil || s.cur == nil {
		return nil, nil
	}
	g := s.cur
	if g.kill {
		// A deferred call of a goroutine that is being ended
		return nil, nil
	}
	g.op = opReq{kind: kind}
	return s, g
}

// killed tells if the running goroutine is being ended, in which case
// operations have no effect
//
//go:norace
func killed() bool {
	s := active
	return s != nil && s.cur != nil && s.cur.kill
}

// Point is a scheduling point without effect
//
//go:norace
func Point() {
	s := active
	if s == nil || s.cur == nil || !s.cfg.Fine || s.cur.kill {
		return
	}
	g := s.cur
	g.op = opReq{kind: opPoint}
	g.nops++
	s.park(g)
}

// Yield is a scheduling point in every mode
//
//go:norace
func Yield() {
	s, g := begin(opPoint)
	if s == nil {
		if !killed() {
			runtime.Gosched()
		}
		return
	}
	g.nops++
	s.park(g)
}

// Pause is a scheduling point after which the goroutine has the lowest priority for
// n steps, so that an observer looks at all parts of an execution under every policy
//
//go:norace
func Pause(n int) {
	s, g := begin(opPoint)
	if s == nil {
		if !killed() {
			runtime.Gosched()
		}
		return
	}
	g.nops++
	g.frozen = n
	s.park(g)
}

//go:norace
func goexitHook(s *session, g *G, p any, stack []byte) {
	if p != nil && !g.kill {
		g.op = opReq{rpanic: fmt.Sprint(p), val: string(stack)}
	} else {
		g.op = opReq{}
	}
	g.status = gDone
	raceRelease(&ctlTok)
	runtimeRaceDisable()
	s.parked <- struct{}{}
	runtimeRaceEnable()
}

// ctlTok orders what the goroutines of a session do before what the controller
// does (but not the other way round)
var ctlTok byte

func (g *G) main(s *session) {
	defer func() {
		p := recover()
		var st []byte
		if p != nil {
			st = debug.Stack()
		}
		goexitHook(s, g, p, st)
	}()
	waitStart(s, g)
	g.fn()
}

//go:norace
func waitStart(s *session, g *G) {
	runtimeRaceDisable()
	<-g.resume
	runtimeRaceEnable()
	if g.kill {
		runtime.Goexit()
	}
}

//go:norace
func addG(s *session, site string, args []any, fn func()) *G {
	g := &G{site: site, args: args, resume: make(chan struct{}, 1), fn: fn}
	if s.npending >= len(s.pending) {
		panic("verifsched: too many goroutines spawned in one step")
	}
	s.pending[s.npending] = g
	s.npending++
	return g
}

// Go starts a goroutine. site names the go statement, args are the evaluated
// arguments (used to recognise interchangeable goroutines).
func Go(site string, args []any, fn func()) {
	s := cursess()
	if s == nil || !Active() {
		go fn()
		return
	}
	if killed() {
		return
	}
	g := addG(s, site, args, fn)
	go g.main(s)
}

// Choose asks the explorer for a number in [0, n): pick 0 is the default,
// another pick costs cost deviations.
//
//go:norace
func Choose(n int, cost int) int {
	s := active
	if s == nil || s.cur == nil || s.cur.kill || n <= 1 {
		return 0
	}
	return s.choose('r', n, cost)
}

// ------------------------------------------------------------- controller

// choose runs on the goroutine that has control; the controller is waiting
// then, so the record is not shared. The slice is grown by the controller.
//
//go:norace
func (s *session) choose(kind byte, n int, cost int) int {
	e := s.exec
	i := len(e.Choices)
	pick := 0
	if i < len(s.prefix) {
		pick = s.prefix[i]
		if pick >= n {
			e.Diverged = "replayed choice out of range"
			pick = 0
		}
	}
	if i < cap(e.Choices) {
		e.Choices = e.Choices[:i+1]
		e.Choices[i] = Choice{Kind: kind, N: n, Pick: pick, Cost: cost}
	} else {
		nc := make([]Choice, i+1, 2*i+1024)
		for k := 0; k < i; k++ {
			nc[k] = e.Choices[k]
		}
		nc[i] = Choice{Kind: kind, N: n, Pick: pick, Cost: cost}
		e.Choices = nc
	}
	return pick
}

func mix(h uint64, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (s *session) event(g *G, kind opKind, obj uint64, objHist *uint64) {
	s.hashSum -= g.hist
	var oh uint64
	if objHist != nil {
		oh = *objHist
	}
	g.hist = mix(mix(mix(g.hist, uint64(kind)+1), obj), oh)
	if objHist != nil {
		*objHist = mix(oh, g.hist)
	}
	s.hashSum += g.hist
}

func (s *session) tracef(format string, a ...any) {
	if s.cfg.Trace && len(s.exec.Trace) < 20000 {
		s.exec.Trace = append(s.exec.Trace, fmt.Sprintf(format, a...))
	}
}

func (s *session) chanOf(r chanRef) *chanState {
	c := s.chans[r.ptr]
	if c == nil {
		s.objIDs++
		c = &chanState{id: s.objIDs, ref: r}
		if r.cap > 0 {
			c.slotTok = nil
		}
		s.chans[r.ptr] = c
	}
	return c
}

func (s *session) lockOf(p unsafe.Pointer) *lockState {
	l := s.locks[p]
	if l == nil {
		s.objIDs++
		l = &lockState{id: s.objIDs}
		s.locks[p] = l
	}
	return l
}

func (s *session) wgOf(p unsafe.Pointer) *wgState {
	l := s.wgs[p]
	if l == nil {
		s.objIDs++
		l = &wgState{id: s.objIDs}
		s.wgs[p] = l
	}
	return l
}

func (s *session) onceOf(p unsafe.Pointer) *onceState {
	l := s.onces[p]
	if l == nil {
		s.objIDs++
		l = &onceState{id: s.objIDs}
		s.onces[p] = l
	}
	return l
}

func (s *session) condOf(p unsafe.Pointer) *condState {
	l := s.conds[p]
	if l == nil {
		s.objIDs++
		l = &condState{id: s.objIDs}
		s.conds[p] = l
	}
	return l
}

func (s *session) ready(g *G) {
	g.status = gRunnable
	g.arrived = true
	g.waitSeq = 0
	s.runq = append(s.runq, g)
}

func (s *session) block(g *G) { g.status = gBlocked }

// popRecv returns the first goroutine that waits to receive from c
func (c *chanState) popRecv() (waiter, bool) {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.gen == w.g.nops && w.g.status == gBlocked {
			return w, true
		}
	}
	return waiter{}, false
}

func (c *chanState) popSend() (waiter, bool) {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.gen == w.g.nops && w.g.status == gBlocked {
			return w, true
		}
	}
	return waiter{}, false
}

func (c *chanState) hasRecv() bool {
	for _, w := range c.recvq {
		if w.gen == w.g.nops && w.g.status == gBlocked {
			return true
		}
	}
	return false
}

func (c *chanState) hasSend() bool {
	for _, w := range c.sendq {
		if w.gen == w.g.nops && w.g.status == gBlocked {
			return true
		}
	}
	return false
}

// foreignRecv looks for a value or a close that uninstrumented code put into
// the real channel
func (c *chanState) foreignRecv() (v any, ok bool, got bool) {
	rv := reflect.ValueOf(c.ref.obj)
	if rv.Kind() != reflect.Chan || rv.Type().ChanDir()&reflect.RecvDir == 0 {
		return nil, false, false
	}
	x, ok := rv.TryRecv()
	if !x.IsValid() {
		return nil, false, false
	}
	if !ok {
		return nil, false, true
	}
	return x.Interface(), true, true
}

func (s *session) canSend(c *chanState) bool {
	return c.closed || c.hasRecv() || len(c.buf) < c.ref.cap
}

func (s *session) canRecv(c *chanState) bool {
	return len(c.buf) > 0 || c.hasSend() || c.closed
}

// trySend performs a send of g if it does not block
func (s *session) trySend(g *G, c *chanState, val any, idx int) bool {
	if c.closed {
		g.op.rpanic = "send on closed channel"
		return true
	}
	if w, ok := c.popRecv(); ok {
		r := w.g
		r.op.rval, r.op.rok, r.op.ridx = val, true, w.idx
		r.op.peer = g.op.tok
		if c.ref.cap == 0 {
			g.op.peer = r.op.tok
		}
		g.op.ridx = idx
		s.event(r, opRecv, uint64(c.id), &c.hist)
		s.ready(r)
		return true
	}
	if len(c.buf) < c.ref.cap {
		c.buf = append(c.buf, bufItem{val, g.op.tok})
		if len(c.slotTok) > 0 {
			g.op.peer = c.slotTok[0]
			c.slotTok = c.slotTok[1:]
		}
		g.op.ridx = idx
		return true
	}
	return false
}

func (s *session) tryRecv(g *G, c *chanState, idx int) bool {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		if c.timer {
			s.exec.Ticks++
		}
		g.op.rval, g.op.rok, g.op.ridx = it.val, true, idx
		g.op.peer = it.tok
		if w, ok := c.popSend(); ok {
			c.buf = append(c.buf, bufItem{w.val, w.g.op.tok})
			w.g.op.ridx = w.idx
			w.g.op.peer = g.op.tok
			s.event(w.g, opSend, uint64(c.id), &c.hist)
			s.ready(w.g)
		} else {
			c.slotTok = append(c.slotTok, g.op.tok)
		}
		return true
	}
	if w, ok := c.popSend(); ok {
		g.op.rval, g.op.rok, g.op.ridx = w.val, true, idx
		g.op.peer = w.g.op.tok
		w.g.op.ridx = w.idx
		w.g.op.peer = g.op.tok
		s.event(w.g, opSend, uint64(c.id), &c.hist)
		s.ready(w.g)
		return true
	}
	if c.closed {
		g.op.rval, g.op.rok, g.op.ridx = nil, false, idx
		g.op.peer = c.ctok
		return true
	}
	if v, ok, got := c.foreignRecv(); got {
		g.op.rval, g.op.rok, g.op.ridx = v, ok, idx
		return true
	}
	return false
}

// arrive performs the pending operation of g, or blocks g
func (s *session) arrive(g *G) {
	op := &g.op
	switch op.kind {
	case opStart, opPoint:
		s.event(g, op.kind, 0, nil)
	case opSend:
		if op.ch.ptr == 0 {
			s.block(g)
			return
		}
		c := s.chanOf(op.ch)
		s.event(g, opSend, uint64(c.id), &c.hist)
		if !s.trySend(g, c, op.val, 0) {
			c.sendq = append(c.sendq, waiter{g, 0, op.val, g.nops})
			s.block(g)
			return
		}
	case opRecv:
		if op.ch.ptr == 0 {
			s.block(g)
			return
		}
		c := s.chanOf(op.ch)
		s.event(g, opRecv, uint64(c.id), &c.hist)
		if !s.tryRecv(g, c, 0) {
			c.recvq = append(c.recvq, waiter{g, 0, nil, g.nops})
			s.block(g)
			return
		}
	case opClose:
		if op.ch.ptr == 0 {
			op.rpanic = "close of nil channel"
			break
		}
		c := s.chanOf(op.ch)
		s.event(g, opClose, uint64(c.id), &c.hist)
		if c.closed {
			op.rpanic = "close of closed channel"
			break
		}
		c.closed = true
		c.ctok = op.tok
		for {
			w, ok := c.popRecv()
			if !ok {
				break
			}
			w.g.op.rval, w.g.op.rok, w.g.op.ridx = nil, false, w.idx
			w.g.op.peer = op.tok
			s.ready(w.g)
		}
		for {
			w, ok := c.popSend()
			if !ok {
				break
			}
			w.g.op.rpanic = "send on closed channel"
			s.ready(w.g)
		}
	case opSelect:
		var rdy []int
		for i := range op.cases {
			cs := &op.cases[i]
			if cs.ch.ptr == 0 {
				continue
			}
			c := s.chanOf(cs.ch)
			if cs.send && s.canSend(c) || !cs.send && s.canRecv(c) {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) > 0 {
			k := 0
			if len(rdy) > 1 {
				k = s.choose('c', len(rdy), 1)
			}
			i := rdy[k]
			cs := &op.cases[i]
			c := s.chanOf(cs.ch)
			s.event(g, opSelect, uint64(c.id)*64+uint64(i), &c.hist)
			if cs.send {
				s.trySend(g, c, cs.val, i)
			} else {
				s.tryRecv(g, c, i)
			}
			break
		}
		for i := range op.cases {
			cs := &op.cases[i]
			if cs.send || cs.ch.ptr == 0 {
				continue
			}
			c := s.chanOf(cs.ch)
			if v, ok, got := c.foreignRecv(); got {
				op.rval, op.rok, op.ridx = v, ok, i
				s.continueG(g)
				return
			}
		}
		if op.deflt {
			op.ridx = -1
			s.event(g, opSelect, 1<<40, nil)
			break
		}
		s.event(g, opSelect, 1<<41, nil)
		for i := range op.cases {
			cs := &op.cases[i]
			if cs.ch.ptr == 0 {
				continue
			}
			c := s.chanOf(cs.ch)
			if cs.send {
				c.sendq = append(c.sendq, waiter{g, i, cs.val, g.nops})
			} else {
				c.recvq = append(c.recvq, waiter{g, i, nil, g.nops})
			}
		}
		s.block(g)
		return
	case opLock:
		l := s.lockOf(op.obj)
		s.event(g, opLock, uint64(l.id), &l.hist)
		if l.writer != nil || l.readers > 0 {
			l.q = append(l.q, waiter{g, 0, nil, g.nops})
			s.block(g)
			return
		}
		l.writer = g
	case opTryLock:
		l := s.lockOf(op.obj)
		s.event(g, opLock, uint64(l.id), &l.hist)
		if l.writer == nil && l.readers == 0 {
			l.writer = g
			op.rok = true
		}
	case opRLock:
		l := s.lockOf(op.obj)
		s.event(g, opRLock, uint64(l.id), &l.hist)
		// a waiting writer blocks new readers
		if l.writer != nil || l.writerWaits() {
			l.q = append(l.q, waiter{g, 1, nil, g.nops})
			s.block(g)
			return
		}
		l.readers++
	case opTryRLock:
		l := s.lockOf(op.obj)
		s.event(g, opRLock, uint64(l.id), &l.hist)
		if l.writer == nil && !l.writerWaits() {
			l.readers++
			op.rok = true
		}
	case opUnlock:
		l := s.lockOf(op.obj)
		s.event(g, opUnlock, uint64(l.id), &l.hist)
		if l.writer == nil {
			op.rpanic = "fatal error: sync: unlock of unlocked mutex"
			break
		}
		l.writer = nil
		s.wakeLock(l)
	case opRUnlock:
		l := s.lockOf(op.obj)
		s.event(g, opRUnlock, uint64(l.id), &l.hist)
		if l.readers == 0 {
			op.rpanic = "fatal error: sync: RUnlock of unlocked RWMutex"
			break
		}
		l.readers--
		s.wakeLock(l)
	case opWgAdd:
		w := s.wgOf(op.obj)
		s.event(g, opWgAdd, uint64(w.id), &w.hist)
		w.n += op.n
		if w.n < 0 {
			op.rpanic = "sync: negative WaitGroup counter"
			break
		}
		if w.n == 0 {
			for _, x := range w.q {
				s.ready(x)
			}
			w.q = nil
		}
	case opWgWait:
		w := s.wgOf(op.obj)
		s.event(g, opWgWait, uint64(w.id), &w.hist)
		if w.n != 0 {
			w.q = append(w.q, g)
			s.block(g)
			return
		}
	case opOnceEnter:
		o := s.onceOf(op.obj)
		s.event(g, opOnceEnter, uint64(o.id), &o.hist)
		switch o.st {
		case 0:
			o.st = 1
			op.rok = true
		case 1:
			o.q = append(o.q, g)
			s.block(g)
			return
		}
	case opOnceExit:
		o := s.onceOf(op.obj)
		s.event(g, opOnceExit, uint64(o.id), &o.hist)
		o.st = 2
		for _, x := range o.q {
			s.ready(x)
		}
		o.q = nil
	case opCondAdd:
		o := s.condOf(op.obj)
		s.event(g, opCondAdd, uint64(o.id), &o.hist)
		o.q = append(o.q, g)
		g.signalled = false
	case opCondWait:
		o := s.condOf(op.obj)
		s.event(g, opCondWait, uint64(o.id), &o.hist)
		if !g.signalled {
			s.block(g)
			return
		}
	case opCondSignal:
		o := s.condOf(op.obj)
		s.event(g, opCondSignal, uint64(o.id), &o.hist)
		if len(o.q) > 0 {
			s.signal(o.q[0])
			o.q = o.q[1:]
		}
	case opCondBroadcast:
		o := s.condOf(op.obj)
		s.event(g, opCondSignal, uint64(o.id), &o.hist)
		for _, x := range o.q {
			s.signal(x)
		}
		o.q = nil
	case opSleep:
		s.event(g, opSleep, 0, nil)
		t := &vtimer{when: s.now + op.n, active: true}
		t.send = func() { s.ready(g) }
		s.addTimer(t)
		s.block(g)
		return
	case opNewTimer:
		s.event(g, opNewTimer, 0, nil)
		t := op.tm
		t.when = s.now + op.n
		t.active = true
		s.addTimer(t)
	case opStopTimer:
		s.event(g, opStopTimer, 0, nil)
		op.rok = op.tm.active
		op.tm.active = false
		if op.n > 0 {
			op.tm.when = s.now + op.n
			op.tm.active = true
			s.addTimer(op.tm)
		}
	}
	s.continueG(g)
}

func (s *session) signal(g *G) {
	g.signalled = true
	if g.status == gBlocked && g.op.kind == opCondWait {
		s.ready(g)
	}
}

func (l *lockState) writerWaits() bool {
	for _, w := range l.q {
		if w.idx == 0 {
			return true
		}
	}
	return false
}

func (s *session) wakeLock(l *lockState) {
	for len(l.q) > 0 {
		w := l.q[0]
		if w.idx == 0 {
			if l.writer != nil || l.readers > 0 {
				return
			}
			// the first writer tries again; another goroutine may be faster
			l.q = l.q[1:]
			s.ready(w.g)
			w.g.arrived = false
			return
		}
		if l.writer != nil {
			return
		}
		l.q = l.q[1:]
		l.readers++
		s.ready(w.g)
	}
}

func (s *session) addTimer(t *vtimer) {
	s.objIDs++
	t.seq = s.objIDs
	for _, x := range s.timers {
		if x == t {
			return
		}
	}
	s.timers = append(s.timers, t)
}

func (s *session) nextTimer() *vtimer {
	var best *vtimer
	k := 0
	for _, t := range s.timers {
		if t.active {
			s.timers[k] = t
			k++
			if best == nil || t.when < best.when || t.when == best.when && t.seq < best.seq {
				best = t
			}
		}
	}
	s.timers = s.timers[:k]
	return best
}

func (s *session) fire(t *vtimer) {
	s.exec.Timers++
	if t.when > s.now {
		s.now = t.when
	}
	if t.period > 0 {
		t.when += t.period
	} else {
		t.active = false
	}
	s.tracef("timer fires")
	s.hashSum = mix(s.hashSum, 77)
	t.send()
}

// fireChan delivers a tick to a channel with room for one value
func (s *session) fireChan(r chanRef, val any) {
	c := s.chanOf(r)
	if c.closed {
		return
	}
	c.timer = true
	if w, ok := c.popRecv(); ok {
		s.exec.Ticks++
		w.g.op.rval, w.g.op.rok, w.g.op.ridx = val, true, w.idx
		s.event(w.g, opRecv, uint64(c.id), &c.hist)
		s.ready(w.g)
		return
	}
	if len(c.buf) < c.ref.cap {
		c.buf = append(c.buf, bufItem{val, nil})
	}
}

// continueG lets g run to its next operation
func (s *session) continueG(g *G) {
	g.arrived = false
	g.started = true
	s.setCur(g)
	runtimeRaceDisable()
	g.resume <- struct{}{}
	<-s.parked
	runtimeRaceEnable()
	raceAcquire(&ctlTok)
	s.setCur(nil)
	for i := 0; i < s.npending; i++ {
		n := s.pending[i]
		s.pending[i] = nil
		s.register(n)
	}
	s.npending = 0
	if g.status == gDone {
		if g.op.rpanic != "" {
			msg := fmt.Sprintf("goroutine %d (%s): %s", g.id, g.site, g.op.rpanic)
			s.exec.Panics = append(s.exec.Panics, msg+"\n"+trimStack(fmt.Sprint(g.op.val)))
		}
		s.hashSum -= g.hist
		g.hist = mix(g.hist, 999)
		s.hashSum += g.hist
		return
	}
	g.status = gRunnable
}

//go:norace
func (s *session) setCur(g *G) { s.cur = g }

func (s *session) register(g *G) {
	g.id = len(s.gs)
	g.hist = mix(12345, uint64(g.id))
	s.hashSum += g.hist
	g.op = opReq{kind: opStart}
	g.status = gRunnable
	s.gs = append(s.gs, g)
	s.runq = append(s.runq, g)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/verif/mc/vsched") || strings.Contains(l, "runtime/") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// step lets g continue if its operation has completed while it was blocked,
// and performs its operation otherwise
func (s *session) step(g *G) {
	s.exec.Steps++
	if s.cfg.Trace {
		s.tracef("g%d %s %s%s", g.id, g.site, opNames[g.op.kind], func() string {
			if g.arrived {
				return " (completes)"
			}
			return ""
		}())
	}
	if g.arrived {
		s.continueG(g)
	} else {
		s.arrive(g)
	}
}

func sameArgs(a, b *G) bool {
	if a.site != b.site || len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if !sameArg(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func sameArg(x, y any) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	vx, vy := reflect.ValueOf(x), reflect.ValueOf(y)
	if vx.Type() != vy.Type() {
		return false
	}
	switch vx.Kind() {
	case reflect.Slice:
		return vx.Len() == vy.Len() && vx.Pointer() == vy.Pointer()
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return vx.Pointer() == vy.Pointer()
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String:
		return x == y
	}
	return false
}

// symmetric tells if two goroutines are interchangeable: they run the same
// function with the same arguments, and have not started or are about to perform
// the same first operation
func symmetric(a, b *G) bool {
	if !sameArgs(a, b) || a.op.kind != b.op.kind || a.arrived || b.arrived {
		return false
	}
	if !a.started && !b.started {
		return a.op.kind == opStart
	}
	if !a.started || !b.started || a.nops != 1 || b.nops != 1 {
		return false
	}
	switch a.op.kind {
	case opRecv:
		return a.op.ch.ptr == b.op.ch.ptr
	case opSend:
		return a.op.ch.ptr == b.op.ch.ptr && sameArg(a.op.val, b.op.val)
	}
	return false
}

// candidates returns the runnable goroutines, the default one first
func (s *session) candidates(last *G) []*G {
	k := 0
	for _, g := range s.runq {
		if g.status == gRunnable {
			s.runq[k] = g
			k++
		}
	}
	s.runq = s.runq[:k]
	if k <= 1 {
		return s.runq
	}
	lastIdx := -1
	for i, g := range s.runq {
		if g == last {
			lastIdx = i
		}
	}
	def := 0
	switch s.cfg.Policy {
	case 0: // run until blocked, then first in first out
		if lastIdx >= 0 {
			def = lastIdx
		}
	case 1: // newest first
		def = k - 1
		if lastIdx >= 0 {
			def = lastIdx
		}
	case 2:
		for i, g := range s.runq {
			if g.id < s.runq[def].id {
				def = i
			}
		}
	case 3:
		for i, g := range s.runq {
			if g.id > s.runq[def].id {
				def = i
			}
		}
	case 4: // round robin: the goroutine that ran last goes to the back
		if lastIdx == 0 {
			def = 1
		}
	}
	// frozen goroutines run when nothing else can
	if s.runq[def].frozen > 0 {
		for i, g := range s.runq {
			if g.frozen == 0 {
				def = i
				break
			}
		}
	}
	// fairness
	for i, g := range s.runq {
		if g.waitSeq > s.cfg.Fair && g.waitSeq > s.runq[def].waitSeq {
			def = i
		}
	}
	if def != 0 {
		g := s.runq[def]
		copy(s.runq[1:def+1], s.runq[:def])
		s.runq[0] = g
	}
	return s.runq
}

// Run executes body under the scheduler, following the given choices
func Run(cfg Config, prefix []int, body func()) *Exec {
	if active != nil {
		panic("verifsched: nested session")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	if cfg.Fair == 0 {
		cfg.Fair = 200
	}
	if cfg.MaxDraws == 0 {
		cfg.MaxDraws = 2000000
	}
	if cfg.TickLimit == 0 {
		cfg.TickLimit = 500
	}
	s := &session{cfg: cfg, prefix: prefix, exec: &Exec{Outcome: "ok"}, parked: make(chan struct{}, 1),
		chans: map[uintptr]*chanState{}, locks: map[unsafe.Pointer]*lockState{}, wgs: map[unsafe.Pointer]*wgState{},
		onces: map[unsafe.Pointer]*onceState{}, conds: map[unsafe.Pointer]*condState{}}
	s.rnd = cfg.RandSeed*0x9e3779b97f4a7c15 + 0x1234567
	e := s.exec
	e.Choices = make([]Choice, 0, 4096)
	setActive(s)
	defer setActive(nil)
	m := &G{site: "main", resume: make(chan struct{}, 1), fn: body}
	go m.main(s)
	s.register(m)
	var last *G
	for {
		if len(e.Panics) > 0 {
			e.Outcome = "panic"
			e.Detail = e.Panics[0]
			break
		}
		if e.Diverged != "" {
			e.Outcome = "diverged"
			break
		}
		if e.Steps >= cfg.MaxSteps {
			e.Outcome = "horizon"
			e.Detail = fmt.Sprintf("no end after %d steps: %s", e.Steps, s.describe())
			break
		}
		c := s.candidates(last)
		if len(c) == 0 {
			t := s.nextTimer()
			if t != nil && m.status != gDone {
				s.idleFires++
				if s.idleFires > cfg.TickLimit {
					e.Outcome = "tickloop"
					e.Detail = fmt.Sprintf("nothing but timers makes progress: %s", s.describe())
					break
				}
				s.fire(t)
				continue
			}
			if s.pollForeign() {
				continue
			}
			if m.status != gDone {
				e.Outcome = "deadlock"
				e.Detail = s.describe()
			}
			break
		}
		if len(c) > e.MaxRun {
			e.MaxRun = len(c)
		}
		pick := c[0]
		var nextT *vtimer
		if cfg.EnvTicks {
			nextT = s.nextTimer()
		}
		if cfg.SchedPoints && (len(c) > 1 || nextT != nil) {
			// alternatives: every other distinct runnable goroutine, holding back
			// the default one, the next timer
			alts := make([]*G, 1, len(c)+1)
			alts[0] = c[0]
			for _, g := range c[1:] {
				dup := false
				for _, a := range alts {
					if symmetric(a, g) {
						dup = true
						break
					}
				}
				if !dup {
					alts = append(alts, g)
				}
			}
			n := len(alts)
			freeze := -1
			if len(alts) > 1 && c[0].frozen == 0 {
				freeze = n
				n++
			}
			tick := -1
			if nextT != nil {
				tick = n
				n++
			}
			k := 0
			if n > 1 {
				k = s.choose('s', n, 1)
			}
			switch {
			case k == 0:
			case k == freeze:
				c[0].frozen = cfg.Fair * 2
				c = s.candidates(nil)
				pick = c[0]
				e.Switches++
			case k == tick:
				s.fire(nextT)
				continue
			default:
				pick = alts[k]
				e.Switches++
			}
		}
		for i, g := range s.runq {
			g.waitSeq++
			if g.frozen > 0 {
				g.frozen--
			}
			if g == pick {
				copy(s.runq[1:i+1], s.runq[:i])
				s.runq[0] = g
			}
		}
		pick.waitSeq = 0
		if last != pick && last != nil && last.status == gRunnable {
			// the goroutine that was running goes to the back of the queue
			for i, g := range s.runq {
				if g == last {
					copy(s.runq[i:], s.runq[i+1:])
					s.runq[len(s.runq)-1] = last
					break
				}
			}
		}
		s.removeRun(pick)
		s.step(pick)
		if pick.status == gRunnable && !inq(s.runq, pick) {
			s.runq = append([]*G{pick}, s.runq...)
		}
		e.Hashes = append(e.Hashes, s.hashSum)
		last = pick
		if cfg.Policy == 4 {
			if pick.status == gRunnable {
				s.removeRun(pick)
				s.runq = append(s.runq, pick)
				last = nil
			}
		}
	}
	for _, g := range s.gs {
		if g.status == gBlocked || g.status == gRunnable {
			if e.Outcome == "ok" {
				e.Leaked = append(e.Leaked, fmt.Sprintf("goroutine %d (%s) waits forever in %s", g.id, g.site, opNames[g.op.kind]))
			}
		}
	}
	e.NumG = len(s.gs)
	// end the goroutines that are left
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		for g.status != gDone {
			g.kill = true
			s.setCur(g)
			runtimeRaceDisable()
			g.resume <- struct{}{}
			<-s.parked
			runtimeRaceEnable()
			s.setCur(nil)
		}
	}
	raceAcquire(&ctlTok)
	return e
}

func inq(q []*G, g *G) bool {
	for _, x := range q {
		if x == g {
			return true
		}
	}
	return false
}

func (s *session) removeRun(g *G) {
	for i, x := range s.runq {
		if x == g {
			copy(s.runq[i:], s.runq[i+1:])
			s.runq = s.runq[:len(s.runq)-1]
			return
		}
	}
}

//go:norace
func setActive(s *session) { active = s }

func (s *session) describe() string {
	var sb strings.Builder
	for _, g := range s.gs {
		if g.status == gDone {
			continue
		}
		st := "blocked in"
		if g.status == gRunnable {
			st = "runnable at"
		}
		fmt.Fprintf(&sb, "g%d(%s) %s %s; ", g.id, g.site, st, opNames[g.op.kind])
	}
	return sb.String()
}

// pollForeign looks for blocked receivers that uninstrumented code can wake
func (s *session) pollForeign() bool {
	for round := 0; round < 3; round++ {
		for _, g := range s.gs {
			if g.status != gBlocked {
				continue
			}
			switch g.op.kind {
			case opRecv:
				if g.op.ch.ptr == 0 {
					continue
				}
				c := s.chanOf(g.op.ch)
				if v, ok, got := c.foreignRecv(); got {
					g.op.rval, g.op.rok = v, ok
					s.ready(g)
					return true
				}
			case opSelect:
				for i := range g.op.cases {
					cs := &g.op.cases[i]
					if cs.send || cs.ch.ptr == 0 {
						continue
					}
					c := s.chanOf(cs.ch)
					if v, ok, got := c.foreignRecv(); got {
						g.op.rval, g.op.rok, g.op.ridx = v, ok, i
						s.ready(g)
						return true
					}
				}
			}
		}
		runtime.Gosched()
	}
	return false
}
