// Package zvs is the controlled scheduler the instrumented prover runs under.
// Exactly one goroutine runs at a time; every visible operation is a point at
// which the explorer decides who runs next, which ready case of a select
// fires, which value rand.Intn returns. A run is a function of its list of
// decisions, so executions can be enumerated and replayed.
package zvs

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

var Used = 0

// Decision kinds.
const (
	KSched = iota // who runs next
	KSel          // which ready select case
	KRand         // value of rand.Intn
	KMap          // map iteration order
)

type Decision struct {
	Kind, N, C int
}

// Config of one execution.
type Config struct {
	Prefix   []int // sparse: pairs (decision index, choice)
	MaxSteps int
	Policy   int // base order of enabled goroutines: 0 = run to block then oldest, 1 = newest first, 2 = round robin, 3 = switch at each point
	MutexPts bool
	RandPts  bool
	MapPts   bool
	Deadline time.Time
}

// Outcome of one execution.
type Outcome struct {
	Kind    string // exit, panic, deadlock, budget, timeout
	Code    int
	Msg     string
	Steps   int
	Trace   []Decision
	MaxLive int
	Spawned int
	Leaked  int
}

type gstate int

const (
	gRunnable gstate = iota
	gBlocked
	gDone
)

type gor struct {
	id      int
	sem     chan struct{}
	fn      func()
	started bool
	st      gstate
	why     string
	spin    int
	lastRun int
}

type waiter struct {
	g   *gor
	sel *selSt
	idx int
	val any // value to send
}

type selSt struct {
	done bool
	idx  int
	val  any
	ok   bool
}

type chanSt struct {
	ref    any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

var (
	active   bool
	aborting bool
	cfg      Config
	cur      *gor
	gors     []*gor
	chans    map[uintptr]*chanSt
	trace    []Decision
	prefix   map[int]int
	steps    int
	tick     int
	doneCh   chan struct{}
	exitedCh chan struct{}
	outc     Outcome
	ended    bool
	maxLive  int
	// Diverged is set when a prefix asks for a choice that does not exist.
	Diverged bool
)

func dead() bool { return active && (aborting || ended) }

// Active reports whether a controlled execution is going on.
func Active() bool { return active && !dead() }

// Run executes fn as the main goroutine under the scheduler.
func Run(c Config, fn func()) Outcome {
	cfg = c
	prefix = map[int]int{}
	for i := 0; i+1 < len(c.Prefix); i += 2 {
		prefix[c.Prefix[i]] = c.Prefix[i+1]
	}
	gors = gors[:0]
	chans = map[uintptr]*chanSt{}
	trace = trace[:0]
	steps, tick, maxLive = 0, 0, 0
	ended, aborting, Diverged = false, false, false
	outc = Outcome{}
	doneCh = make(chan struct{}, 1)
	exitedCh = make(chan struct{})
	active = true
	m := spawn(fn)
	cur = m
	start(m)
	<-doneCh
	// unwind the goroutines that are still alive
	aborting = true
	for i := 0; i < len(gors); i++ {
		g := gors[i]
		if g.st != gDone {
			outc.Leaked++
			if g.started {
				g.sem <- struct{}{}
				<-exitedCh
			}
		}
	}
	active, aborting = false, false
	outc.Steps = steps
	outc.MaxLive = maxLive
	outc.Spawned = len(gors)
	outc.Trace = append([]Decision(nil), trace...)
	chans = nil
	return outc
}

func spawn(fn func()) *gor {
	g := &gor{id: len(gors), sem: make(chan struct{}, 1), fn: fn}
	gors = append(gors, g)
	live := 0
	for _, x := range gors {
		if x.st != gDone {
			live++
		}
	}
	if live > maxLive {
		maxLive = live
	}
	return g
}

func start(g *gor) {
	g.started = true
	go func() {
		normal := false
		defer func() {
			if r := recover(); r != nil && !aborting {
				finish("panic", 2, fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack())))
			} else if !normal && !aborting && !ended {
				// Goexit called by the program itself
				normal = true
			}
			g.st = gDone
			if aborting {
				exitedCh <- struct{}{}
				return
			}
			if ended {
				signalDone()
				return
			}
			if g.id == 0 {
				finish("exit", 0, "")
				signalDone()
				return
			}
			dispatch(nil)
		}()
		g.fn()
		normal = true
	}()
}

func trimStack(b []byte) string {
	if len(b) > 4000 {
		b = b[:4000]
	}
	return string(b)
}

func signalDone() {
	select {
	case doneCh <- struct{}{}:
	default:
	}
}

func finish(kind string, code int, msg string) {
	if ended {
		return
	}
	ended = true
	outc.Kind, outc.Code, outc.Msg = kind, code, msg
}

// die ends the execution from goroutine g (which unwinds right here).
func die() {
	runtime.Goexit()
}

// choose makes decision number len(trace).
func choose(kind, n int) int {
	i := len(trace)
	c := 0
	if p, ok := prefix[i]; ok {
		c = p
		if c >= n {
			Diverged = true
			c = n - 1
		}
	}
	trace = append(trace, Decision{kind, n, c})
	return c
}

// order returns the enabled goroutines, preferred first.
func order(self *gor) []*gor {
	var en []*gor
	for _, g := range gors {
		if g.st == gRunnable && g != self {
			en = append(en, g)
		}
	}
	switch cfg.Policy {
	case 1:
		for i, j := 0, len(en)-1; i < j; i, j = i+1, j-1 {
			en[i], en[j] = en[j], en[i]
		}
	case 2, 3:
		sort.SliceStable(en, func(a, b int) bool { return en[a].lastRun < en[b].lastRun })
	}
	if self != nil && self.st == gRunnable {
		if cfg.Policy == 3 || self.spin > 100 {
			self.spin = 0
			en = append(en, self)
		} else {
			en = append([]*gor{self}, en...)
		}
	}
	return en
}

// dispatch picks the next goroutine and hands control over. With self == nil
// the caller's goroutine ends.
func dispatch(self *gor) {
	steps++
	if steps > cfg.MaxSteps || (!cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline)) {
		k := "budget"
		if steps <= cfg.MaxSteps {
			k = "timeout"
		}
		finish(k, -1, "")
		if self == nil {
			signalDone()
			return
		}
		die()
	}
	en := order(self)
	if len(en) == 0 {
		why := ""
		for _, g := range gors {
			if g.st == gBlocked {
				why += fmt.Sprintf("g%d:%s ", g.id, g.why)
			}
		}
		finish("deadlock", 2, why+"\n"+trimStack(debug.Stack()))
		if self == nil {
			signalDone()
			return
		}
		die()
	}
	k := 0
	if len(en) > 1 {
		k = choose(KSched, len(en))
	}
	next := en[k]
	if next == self {
		return
	}
	tick++
	next.lastRun = tick
	if self != nil {
		self.spin = 0
	}
	cur = next
	if next.started {
		next.sem <- struct{}{}
	} else {
		start(next)
	}
	if self != nil {
		<-self.sem
		if aborting {
			runtime.Goexit()
		}
	}
}

func point() {
	if dead() {
		runtime.Goexit()
	}
	dispatch(cur)
}

func block(why string) {
	g := cur
	g.st = gBlocked
	g.why = why
	dispatch(g)
}

func wake(g *gor) {
	g.st = gRunnable
	g.why = ""
}

// Go starts fn as a new controlled goroutine.
func Go(fn func()) {
	if !active {
		go fn()
		return
	}
	if dead() {
		runtime.Goexit()
	}
	spawn(fn)
	point()
}

// ---------------------------------------------------------------- channels

func key(p unsafe.Pointer) uintptr { return *(*uintptr)(p) }

func state(k uintptr, ref any, cap int) *chanSt {
	if k == 0 {
		return nil
	}
	s, ok := chans[k]
	if !ok {
		s = &chanSt{ref: ref, cap: cap}
		chans[k] = s
	}
	return s
}

func popRecv(s *chanSt) *waiter {
	for len(s.recvq) > 0 {
		w := s.recvq[0]
		s.recvq = s.recvq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func popSend(s *chanSt) *waiter {
	for len(s.sendq) > 0 {
		w := s.sendq[0]
		s.sendq = s.sendq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func pending(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func canSend(s *chanSt) bool {
	return s != nil && (s.closed || len(s.buf) < s.cap || pending(s.recvq))
}

func canRecv(s *chanSt) bool {
	return s != nil && (len(s.buf) > 0 || s.closed || pending(s.sendq))
}

func doSend(s *chanSt, v any) {
	if s.closed {
		panic("send on closed channel")
	}
	if w := popRecv(s); w != nil {
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		wake(w.g)
		return
	}
	s.buf = append(s.buf, v)
}

func doRecv(s *chanSt) (any, bool) {
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = s.buf[1:]
		if w := popSend(s); w != nil {
			s.buf = append(s.buf, w.val)
			w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, true
			wake(w.g)
		}
		return v, true
	}
	if w := popSend(s); w != nil {
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, true
		wake(w.g)
		return w.val, true
	}
	return nil, false // closed
}

type selCase struct {
	send bool
	s    *chanSt
	val  any
}

func selectOp(cases []selCase, hasDef bool, why string) (int, any, bool) {
	point()
	var ready []int
	for i, c := range cases {
		if (c.send && canSend(c.s)) || (!c.send && canRecv(c.s)) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = choose(KSel, len(ready))
		}
		i := ready[k]
		if cases[i].send {
			doSend(cases[i].s, cases[i].val)
			return i, nil, false
		}
		v, ok := doRecv(cases[i].s)
		return i, v, ok
	}
	if hasDef {
		cur.spin++
		return -1, nil, false
	}
	st := &selSt{}
	g := cur
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		w := &waiter{g: g, sel: st, idx: i, val: c.val}
		if c.send {
			c.s.sendq = append(c.s.sendq, w)
		} else {
			c.s.recvq = append(c.s.recvq, w)
		}
	}
	block(why)
	if cases[st.idx].send && !st.ok {
		panic("send on closed channel")
	}
	return st.idx, st.val, st.ok
}

// SendTo(c)(v) is c <- v.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		if !active {
			c <- v
			return
		}
		if dead() {
			runtime.Goexit()
		}
		s := state(key(unsafe.Pointer(&c)), c, cap(c))
		selectOp([]selCase{{true, s, v}}, false, "send")
	}
}

func conv[T any](v any) T {
	var z T
	if v == nil {
		return z
	}
	return v.(T)
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if !active {
		v, ok := <-c
		return v, ok
	}
	if dead() {
		runtime.Goexit()
	}
	s := state(key(unsafe.Pointer(&c)), c, cap(c))
	_, v, ok := selectOp([]selCase{{false, s, nil}}, false, "recv")
	return conv[T](v), ok
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Close is close(c).
func Close[T any](c chan<- T) {
	if !active {
		close(c)
		return
	}
	if dead() {
		return
	}
	point()
	s := state(key(unsafe.Pointer(&c)), c, cap(c))
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for w := popRecv(s); w != nil; w = popRecv(s) {
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, nil, false
		wake(w.g)
	}
	for w := popSend(s); w != nil; w = popSend(s) {
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, false
		wake(w.g)
	}
}

// Len is len(c) for a channel.
func Len[T any](c chan T) int {
	if !active {
		return len(c)
	}
	if s := state(key(unsafe.Pointer(&c)), c, cap(c)); s != nil {
		return len(s.buf)
	}
	return 0
}

// Cap is cap(c) for a channel.
func Cap[T any](c chan T) int { return cap(c) }

// Case is one case of a rewritten select.
type Case interface {
	sel() selCase
	set(any, bool)
}

type RCase[T any] struct {
	c  <-chan T
	V  T
	Ok bool
}

func (r *RCase[T]) sel() selCase {
	return selCase{false, state(key(unsafe.Pointer(&r.c)), r.c, cap(r.c)), nil}
}
func (r *RCase[T]) set(v any, ok bool) { r.V, r.Ok = conv[T](v), ok }

type SCase[T any] struct {
	c chan<- T
	v T
}

func (r *SCase[T]) sel() selCase {
	return selCase{true, state(key(unsafe.Pointer(&r.c)), r.c, cap(r.c)), r.v}
}
func (r *SCase[T]) set(any, bool) {}

func CaseR[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }
func CaseS[T any](c chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{c, v} }
}

// Sel is a select statement; -1 is the default case.
func Sel(hasDef bool, cases ...Case) int {
	if !active {
		panic("zvs: select outside a controlled run")
	}
	if dead() {
		runtime.Goexit()
	}
	sc := make([]selCase, len(cases))
	for i, c := range cases {
		sc[i] = c.sel()
	}
	i, v, ok := selectOp(sc, hasDef, "select")
	if i >= 0 {
		cases[i].set(v, ok)
	}
	return i
}

// BlockForever is select {}.
func BlockForever() {
	if dead() {
		runtime.Goexit()
	}
	block("select{}")
}

// ReflectSelect is reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	if !active {
		return reflect.Select(cases)
	}
	if dead() {
		runtime.Goexit()
	}
	sc := make([]selCase, 0, len(cases))
	idx := make([]int, 0, len(cases))
	hasDef, defIdx := false, -1
	for i, c := range cases {
		switch c.Dir {
		case reflect.SelectDefault:
			hasDef, defIdx = true, i
		case reflect.SelectSend, reflect.SelectRecv:
			var s *chanSt
			if c.Chan.IsValid() && !c.Chan.IsNil() {
				s = state(c.Chan.Pointer(), c.Chan.Interface(), c.Chan.Cap())
			}
			var v any
			if c.Dir == reflect.SelectSend {
				v = c.Send.Interface()
			}
			sc = append(sc, selCase{c.Dir == reflect.SelectSend, s, v})
			idx = append(idx, i)
		}
	}
	k, v, ok := selectOp(sc, hasDef, "reflect.Select")
	if k == -1 {
		return defIdx, reflect.Value{}, false
	}
	if sc[k].send {
		return idx[k], reflect.Value{}, false
	}
	rv := reflect.New(cases[idx[k]].Chan.Type().Elem()).Elem()
	if v != nil {
		rv.Set(reflect.ValueOf(v))
	}
	return idx[k], rv, ok
}

// ---------------------------------------------------------------- sync

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      []*gor
}

func (m *Mutex) Lock() {
	if !active {
		m.locked = true
		return
	}
	if dead() {
		return
	}
	if cfg.MutexPts {
		point()
	}
	for m.locked {
		m.q = append(m.q, cur)
		block("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if active && !dead() && cfg.MutexPts {
		point()
	}
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if dead() {
		return
	}
	if !m.locked && active {
		finish("panic", 2, "fatal error: sync: unlock of unlocked mutex\n"+trimStack(debug.Stack()))
		die()
	}
	m.locked = false
	for _, g := range m.q {
		wake(g)
	}
	m.q = nil
}

type RWMutex struct {
	w bool
	r int
	q []*gor
}

func (m *RWMutex) Lock() {
	if !active {
		m.w = true
		return
	}
	if dead() {
		return
	}
	if cfg.MutexPts {
		point()
	}
	for m.w || m.r > 0 {
		m.q = append(m.q, cur)
		block("rwmutex")
	}
	m.w = true
}
func (m *RWMutex) wakeAll() {
	for _, g := range m.q {
		wake(g)
	}
	m.q = nil
}
func (m *RWMutex) Unlock() {
	if dead() {
		return
	}
	if !m.w && active {
		finish("panic", 2, "fatal error: sync: Unlock of unlocked RWMutex\n"+trimStack(debug.Stack()))
		die()
	}
	m.w = false
	m.wakeAll()
}
func (m *RWMutex) RLock() {
	if !active {
		m.r++
		return
	}
	if dead() {
		return
	}
	if cfg.MutexPts {
		point()
	}
	for m.w {
		m.q = append(m.q, cur)
		block("rwmutex")
	}
	m.r++
}
func (m *RWMutex) RUnlock() {
	if dead() {
		return
	}
	if m.r == 0 && active {
		finish("panic", 2, "fatal error: sync: RUnlock of unlocked RWMutex\n"+trimStack(debug.Stack()))
		die()
	}
	m.r--
	m.wakeAll()
}

type WaitGroup struct {
	n int
	q []*gor
}

func (w *WaitGroup) Add(d int) {
	if dead() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.q {
			wake(g)
		}
		w.q = nil
	}
}
func (w *WaitGroup) Done() {
	if active && !dead() {
		point()
	}
	w.Add(-1)
}
func (w *WaitGroup) Wait() {
	if !active || dead() {
		return
	}
	point()
	for w.n > 0 {
		w.q = append(w.q, cur)
		block("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// ---------------------------------------------------------------- misc

// Exit is os.Exit.
func Exit(code int) {
	if !active {
		panic(fmt.Sprintf("exit %d outside a controlled run", code))
	}
	if dead() {
		runtime.Goexit()
	}
	finish("exit", code, "")
	runtime.Goexit()
}

func NumGoroutine() int {
	n := 0
	for _, g := range gors {
		if g.st != gDone {
			n++
		}
	}
	return n
}

func GOMAXPROCS(int) int { return 8 }

func Yield() {
	if active && !dead() {
		cur.spin = 1000
		point()
	}
}

func Sleep(time.Duration) { Yield() }

func Zero[T any](p *T) {
	var z T
	*p = z
}

func rnd(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if !active || !cfg.RandPts || n == 1 {
		return 0
	}
	m := n
	if m > 8 {
		m = 8
	}
	return choose(KRand, m)
}

func Intn(n int) int       { return rnd(n) }
func Int31n(n int32) int32 { return int32(rnd(int(n))) }
func Int63n(n int64) int64 { return int64(rnd(int(n))) }
func Int() int             { return rnd(8) }
func Float64() float64     { return float64(rnd(4)) / 4 }
func Seed(int64)           {}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, rnd(i+1))
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

type basic interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~string | ~float32 | ~float64
}

// Keys returns the keys of m in a controlled order: ascending, or, as an
// explored alternative, descending.
func Keys[K basic, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	if active && !dead() && cfg.MapPts && len(ks) > 1 && choose(KMap, 2) == 1 {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}
