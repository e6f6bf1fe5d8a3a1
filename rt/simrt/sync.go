//go:build go1.21

package simrt

// Replacements for package sync under the simulated scheduler.

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      []*G
}

func (m *Mutex) Lock() {
	w := W
	if w == nil {
		m.locked = true
		return
	}
	Y()
	CheckDead()
	for m.locked {
		m.q = append(m.q, w.cur)
		w.block("mutex")
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		if Dead() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	if w := W; w != nil {
		for _, g := range m.q {
			w.ready(g)
		}
		m.q = nil
		if !w.dead {
			Y()
		}
	}
}

type RWMutex struct {
	w bool
	r int
	q []*G
}

func (m *RWMutex) wake() {
	if w := W; w != nil {
		for _, g := range m.q {
			w.ready(g)
		}
		m.q = nil
		if !w.dead {
			Y()
		}
	}
}
func (m *RWMutex) Lock() {
	if W != nil {
		Y()
		CheckDead()
		for m.w || m.r > 0 {
			m.q = append(m.q, W.cur)
			W.block("rwmutex")
		}
	}
	m.w = true
}
func (m *RWMutex) Unlock() { m.w = false; m.wake() }
func (m *RWMutex) RLock() {
	if W != nil {
		Y()
		CheckDead()
		for m.w {
			m.q = append(m.q, W.cur)
			W.block("rwmutex")
		}
	}
	m.r++
}
func (m *RWMutex) RUnlock() { m.r--; m.wake() }
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	q []*G
}

func (g *WaitGroup) Add(n int) {
	Y()
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 && W != nil {
		for _, x := range g.q {
			W.ready(x)
		}
		g.q = nil
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	Y()
	CheckDead()
	for g.n > 0 {
		g.q = append(g.q, W.cur)
		W.block("waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L Locker
	q []*G
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := W
	me := w.cur
	c.q = append(c.q, me)
	c.L.Unlock()
	for c.has(me) {
		w.block("cond")
	}
	c.L.Lock()
}
func (c *Cond) has(g *G) bool {
	for _, x := range c.q {
		if x == g {
			return true
		}
	}
	return false
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		g := c.q[0]
		c.q = c.q[1:]
		W.ready(g)
	}
	Y()
}
func (c *Cond) Broadcast() {
	q := c.q
	c.q = nil
	for _, g := range q {
		W.ready(g)
	}
	Y()
}
