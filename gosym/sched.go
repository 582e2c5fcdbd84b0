package main

import (
	"fmt"
	"go/types"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// G is a goroutine of the program under analysis. Exactly one runs at a time.
type G struct {
	id      int
	resume  chan struct{}
	ready   func() bool // nil: runnable
	done    bool
	fns     []*ssa.Function
	pframes []*frame
	killed  bool
	clk     VC
	name    string
}

type killG struct{}

func (p *Path) spawn(fn Value, args []Value) *G {
	g := &G{id: len(p.gs), resume: make(chan struct{})}
	p.gs = append(p.gs, g)
	if p.races != nil {
		if p.forkEv > 0 {
			p.races.forkFrom(p.forkEv-1, g)
		} else {
			p.races.fork(p.cur, g)
		}
	}
	go func() {
		<-g.resume
		defer func() {
			e := recover()
			g.done = true
			if _, ok := e.(killG); ok {
				p.killAck <- struct{}{}
				return
			}
			if e != nil {
				p.endWith(e)
				return
			}
			p.exitG(g)
		}()
		if g.killed {
			panic(killG{})
		}
		p.call(fn, args)
	}()
	p.preemptPoint()
	return g
}

// endWith hands a fatal outcome to the main goroutine of the path.
func (p *Path) endWith(e any) {
	if gp, ok := e.(*GoPanic); ok {
		e = gp
	} else if _, ok := e.(*pathAbort); !ok {
		e = fmt.Sprintf("%v\n%s", e, debug.Stack())
	}
	p.hostPanic = e
	m := p.gs[0]
	p.switchTo(m)
}

func (p *Path) switchTo(g *G) {
	if p.cur != g {
		p.cur.fns = p.curFn
		p.cur = g
		p.curFn = g.fns
	}
	g.resume <- struct{}{}
}

// exitG: a goroutine finished; run someone else.
func (p *Path) exitG(g *G) {
	nxt := p.pick(true)
	if nxt == nil {
		p.hostPanic = &pathAbort{abDeadlock, "all goroutines are asleep"}
		nxt = p.gs[0]
	}
	p.switchTo(nxt)
}

func (p *Path) runnable(except *G) []*G {
	var r []*G
	for _, g := range p.gs {
		if g == except || g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses the next goroutine; time advances only when all are blocked.
func (p *Path) pick(mayAdvance bool) *G {
	for {
		r := p.runnable(nil)
		if len(r) > 0 {
			i := 0
			if len(r) > 1 {
				i = p.whoNext(len(r))
			}
			return r[i]
		}
		if !mayAdvance || !p.advanceToNextTimer() {
			return nil
		}
	}
}

// block waits until cond holds.
func (p *Path) block(cond func() bool) {
	for !cond() {
		g := p.cur
		g.ready = cond
		n := p.pick(true)
		if n == nil {
			g.ready = nil
			panic(&pathAbort{abDeadlock, "all goroutines are asleep - deadlock" + p.where()})
		}
		if n != g {
			p.yieldTo(g, n)
		}
		g.ready = nil
	}
}

func (p *Path) yieldTo(g, n *G) {
	p.cur.fns = p.curFn
	p.cur = n
	p.curFn = n.fns
	n.resume <- struct{}{}
	<-g.resume
	if g.killed {
		panic(killG{})
	}
	if g.id == 0 && p.hostPanic != nil {
		e := p.hostPanic
		p.hostPanic = nil
		p.curFn = g.fns
		panic(e)
	}
}

// yield lets every other runnable goroutine run until it blocks or ends.
func (p *Path) yieldAll() {
	for i := 0; i < 1000; i++ {
		r := p.runnable(p.cur)
		if len(r) == 0 {
			return
		}
		g := p.cur
		n := r[0]
		if len(r) > 1 {
			n = r[p.whoNext(len(r))]
		}
		g.ready = nil
		// run n; it comes back when nothing else is runnable or by pick
		mark := g
		waiting := true
		g.ready = func() bool { return !waiting || len(p.runnable(mark)) == 0 }
		p.yieldTo(g, n)
		waiting = false
		g.ready = nil
	}
}

// whoNext picks one of n runnable goroutines when the current one blocks: any
// of them, or, where deviations from the default order are counted, another
// than the first for one deviation.
func (p *Path) whoNext(n int) int {
	if p.delays {
		if p.preempt <= 0 {
			return 0
		}
		c := p.Choose(n)
		if c != 0 {
			p.spend()
		}
		return c
	}
	if p.preempt == 0 {
		return 0
	}
	return p.Choose(n)
}

func (p *Path) spend() {
	p.preempt--
	if p.preempt == 0 {
		p.preempt = -1
	}
}

// preemptPoint: in full scheduling mode, any runnable goroutine may go next.
func (p *Path) preemptPoint() {
	if p.preempt <= 0 || len(p.gs) < 2 {
		return
	}
	r := p.runnable(p.cur)
	if len(r) == 0 {
		return
	}
	c := p.Choose(len(r) + 1)
	if c == 0 {
		return
	}
	p.spend()
	p.yieldTo(p.cur, r[c-1])
}

func (p *Path) killAll() {
	for _, g := range p.gs[1:] {
		if !g.done {
			g.killed = true
			g.resume <- struct{}{}
			<-p.killAck
		}
	}
}

// ---- channels ----

func (p *Path) chanSend(cv, v Value) {
	p.preemptPoint()
	if cv == nil {
		p.block(func() bool { return false })
	}
	c := cv.(*Chan)
	if c.closed {
		panic(&GoPanic{v: &Iface{t: p.eng.rtErr, v: "send on closed channel"}, rt: true, stack: p.stackStr()})
	}
	p.block(func() bool { return c.closed || len(c.buf) < c.cap || c.waitR > 0 && len(c.buf) < c.cap+c.waitR })
	if c.closed {
		panic(&GoPanic{v: &Iface{t: p.eng.rtErr, v: "send on closed channel"}, rt: true, stack: p.stackStr()})
	}
	c.buf = append(c.buf, v)
	if p.races != nil {
		p.races.release(p, c)
	}
}

func (p *Path) chanRecv(cv Value, et types.Type) (Value, bool) {
	p.preemptPoint()
	if cv == nil {
		p.block(func() bool { return false })
	}
	c := cv.(*Chan)
	c.waitR++
	p.block(func() bool { return c.closed || len(c.buf) > 0 })
	c.waitR--
	if p.races != nil {
		p.races.acquire(p, c)
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	return p.zero(et), false
}

func (p *Path) chanClose(cv Value) {
	p.preemptPoint()
	if cv == nil {
		panic(&GoPanic{v: &Iface{t: p.eng.rtErr, v: "close of nil channel"}, rt: true, stack: p.stackStr()})
	}
	c := cv.(*Chan)
	if c.closed {
		panic(&GoPanic{v: &Iface{t: p.eng.rtErr, v: "close of closed channel"}, rt: true, stack: p.stackStr()})
	}
	c.closed = true
	if p.races != nil {
		p.races.release(p, c)
	}
}

func (p *Path) selectStmt(f *frame, x *ssa.Select) Value {
	p.preemptPoint()
	ready := func() []int {
		var r []int
		for i, st := range x.States {
			cv := f.get(st.Chan)
			if cv == nil {
				continue
			}
			c := cv.(*Chan)
			if st.Dir == types.RecvOnly {
				if c.closed || len(c.buf) > 0 {
					r = append(r, i)
				}
			} else if c.closed || len(c.buf) < c.cap || c.waitR > 0 && len(c.buf) < c.cap+c.waitR {
				r = append(r, i)
			}
		}
		return r
	}
	if x.Blocking {
		p.block(func() bool { return len(ready()) > 0 })
	}
	r := ready()
	nrecv := 0
	for _, st := range x.States {
		if st.Dir == types.RecvOnly {
			nrecv++
		}
	}
	res := make(Tuple, 2+nrecv)
	k := 2
	pos := map[int]int{}
	for i, st := range x.States {
		if st.Dir == types.RecvOnly {
			res[k] = p.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
			pos[i] = k
			k++
		}
	}
	res[1] = false
	if len(r) == 0 {
		res[0] = ^uint64(0)
		return res
	}
	i := r[p.Choose(len(r))]
	res[0] = uint64(i)
	st := x.States[i]
	// the chosen case is carried out at once
	old := p.preempt
	if p.preempt > 0 {
		p.preempt = -1
	}
	if st.Dir == types.RecvOnly {
		v, ok := p.chanRecv(f.get(st.Chan), st.Chan.Type().Underlying().(*types.Chan).Elem())
		res[pos[i]] = v
		res[1] = ok
	} else {
		p.chanSend(f.get(st.Chan), f.get(st.Send))
	}
	p.preempt = old
	return res
}

// ---- locks ----

type lockV struct {
	held    bool
	owner   *G
	readers int
	clk     VC
}

func (p *Path) lockOf(v Value) *lockV {
	o, ok := v.(*Opaque)
	if !ok || o == nil {
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	l, _ := o.v.(*lockV)
	if l == nil {
		l = &lockV{}
		o.v = l
	}
	return l
}

func (p *Path) lock(v Value) {
	p.preemptPoint()
	l := p.lockOf(v)
	p.block(func() bool { return !l.held && l.readers == 0 })
	l.held, l.owner = true, p.cur
	if p.races != nil {
		p.races.lockEv(p, l, true)
	}
}

func (p *Path) tryLock(v Value) bool {
	l := p.lockOf(v)
	if l.held || l.readers > 0 {
		return false
	}
	l.held, l.owner = true, p.cur
	if p.races != nil {
		p.races.lockEv(p, l, true)
	}
	return true
}

func (p *Path) unlock(v Value) {
	l := p.lockOf(v)
	if !l.held {
		panic(&GoPanic{v: &Iface{t: types.Typ[types.String], v: "fatal error: sync: unlock of unlocked mutex"}, rt: true, stack: p.stackStr()})
	}
	l.held = false
	if p.races != nil {
		p.races.lockEv(p, l, false)
	}
	p.preemptPoint()
}

func (p *Path) rlock(v Value) {
	p.preemptPoint()
	l := p.lockOf(v)
	p.block(func() bool { return !l.held })
	l.readers++
	if p.races != nil {
		p.races.lockEv(p, l, true)
	}
}

func (p *Path) runlock(v Value) {
	l := p.lockOf(v)
	if l.readers == 0 {
		panic(&GoPanic{v: &Iface{t: types.Typ[types.String], v: "fatal error: sync: RUnlock of unlocked RWMutex"}, rt: true, stack: p.stackStr()})
	}
	l.readers--
	if p.races != nil {
		p.races.lockEv(p, l, false)
	}
	p.preemptPoint()
}

// ---- time ----

type timerV struct {
	at     Value // 64 bits, perhaps symbolic
	active bool
	fn     Value
	ch     *Chan
	seq    int
	ev     int // event that armed the timer, plus 1
}

func (p *Path) timeAdd(a, b Value) Value {
	return fromTerm(p.pool.Bin(OAdd, p.term(a, 64), p.term(b, 64)))
}

func (p *Path) timeSub(a, b Value) Value {
	return fromTerm(p.pool.Bin(OSub, p.term(a, 64), p.term(b, 64)))
}

// earlier decides a < b, for points in time or durations.
func (p *Path) earlier(a, b Value) bool {
	return p.Decide(p.pool.Cmp(OSlt, p.term(a, 64), p.term(b, 64)))
}

func (p *Path) advanceToNextTimer() bool {
	var best *timerV
	for _, t := range p.timers {
		if t.active && (best == nil || p.earlier(t.at, best.at)) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if p.earlier(p.now, best.at) {
		p.now = best.at
	}
	p.fire(best)
	return true
}

func (p *Path) fire(t *timerV) {
	t.active = false
	if t.ch != nil {
		if len(t.ch.buf) < t.ch.cap {
			t.ch.buf = append(t.ch.buf, p.zero(p.eng.timeTime))
			if p.races != nil && t.ev > 0 {
				t.ch.clk = t.ch.clk.join(VC{t.ev - 1: 1})
			}
		}
		return
	}
	old := p.preempt
	p.preempt = 0
	p.forkEv = t.ev
	p.spawn(t.fn, nil)
	p.forkEv = 0
	p.preempt = old
}

// advance moves virtual time forward by d, running timer callbacks as they fall due.
func (p *Path) advance(d Value) {
	end := p.timeAdd(p.now, d)
	for {
		var best *timerV
		for _, t := range p.timers {
			if t.active && !p.earlier(end, t.at) && (best == nil || p.earlier(t.at, best.at)) {
				best = t
			}
		}
		if best == nil {
			break
		}
		if p.earlier(p.now, best.at) {
			p.now = best.at
		}
		p.fire(best)
		p.yieldAll()
	}
	p.now = end
	p.yieldAll()
}

// VC is a vector clock.
type VC map[int]int

func (v VC) join(o VC) VC {
	r := VC{}
	for k, x := range v {
		r[k] = x
	}
	for k, x := range o {
		if x > r[k] {
			r[k] = x
		}
	}
	return r
}
