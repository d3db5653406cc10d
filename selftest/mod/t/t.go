// Package t holds bodies that meet their contracts (Good…) and bodies that break the same contracts (Bad…).
package t

import (
	"errors"
	"io"
	"sync"
)

type P struct {
	A, B int
	N    *P
}

// frame: only p.A may change
func GoodFrame(p *P)        { p.A++ }
func BadFrame(p *P)         { p.A++; p.B = 0 }
func BadFrameAlias(p, q *P) { p.A++; q.A = p.A }
func GoodAlias(p, q *P)     { p.A = 1; q.B = 2 }
func BadAlias(p, q *P)      { p.A = 1; q.A = 2 }
func BadFreshField(p *P) *P { n := &P{A: 1, N: p}; return n.N }
func GoodFresh(p *P) *P     { return &P{A: p.A, N: p} }
func BadEscape(p *P) *P     { n := &P{}; p.N = n; p.N.A = 3; n.A = 4; return n }

// panics
func GoodIndex(b []byte, i int) byte {
	if i < 0 || i >= len(b) {
		return 0
	}
	return b[i]
}
func BadIndex(b []byte, i int) byte {
	if i < 0 || i > len(b) {
		return 0
	}
	return b[i]
}
func BadNil(p *P) int             { return p.N.A }
func BadDiv(a, b int) int         { return a / b }
func BadAssert(x interface{}) int { return x.(int) }
func BadWrap(a uint8) uint8       { return a + 1 }
func GoodWrap(a uint8) uint8 {
	if a == 255 {
		return 255
	}
	return a + 1
}
func BadSlice(b []byte, n int) []byte { return b[:n] }
func GoodSlice(b []byte, n int) []byte {
	if n < 0 || n > len(b) {
		return nil
	}
	return b[:n]
}

// loops
func GoodSum(n int) int {
	s := 0
	for i := 0; i < n; i++ {
		s += 2
	}
	return s
}
func BadSum(n int) int {
	s := 0
	for i := 0; i < n; i++ {
		s += 2
		if i == 1000000 {
			s++
		}
	}
	return s
}
func BadFill(b []byte) {
	for i := 0; i+1 < len(b); i++ {
		b[i] = 7
	}
}
func BadForever(n int) {
	for n != 0 {
		n--
	}
}
func GoodForever(n int) {
	for n > 0 {
		n--
	}
}

// reads and writes
var errT = errors.New("t")

func GoodRead(r io.Reader) ([]byte, error) {
	b := make([]byte, 4)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return b, nil
}
func BadRead(r io.Reader) ([]byte, error) {
	b := make([]byte, 4)
	if _, err := r.Read(b); err != nil {
		return nil, err
	}
	return b, nil
}
func GoodWrite(w io.Writer, b []byte) error { _, err := w.Write(b); return err }
func BadWrite(w io.Writer, b []byte) error {
	w.Write(b)
	return nil
}

// locks
type L struct {
	mu sync.Mutex
	m  map[int]int
}

func (l *L) GoodGet(k int) int { l.mu.Lock(); defer l.mu.Unlock(); return l.m[k] }
func (l *L) BadGet(k int) int  { return l.m[k] }
func (l *L) BadTwice(k int) int {
	l.mu.Lock()
	v := l.GoodGet(k)
	l.mu.Unlock()
	return v
}
func (l *L) BadKeep(k int) int {
	l.mu.Lock()
	v, ok := l.m[k]
	if !ok {
		return 0
	}
	l.mu.Unlock()
	return v
}

// channels
type C struct {
	in, out chan int
	quit    chan struct{}
}

func (c *C) GoodPump() {
	for {
		select {
		case v := <-c.in:
			c.out <- v
		case <-c.quit:
			return
		}
	}
}
func (c *C) BadPumpDrop() {
	for {
		select {
		case v := <-c.in:
			if v != 12345 {
				c.out <- v
			}
		case <-c.quit:
			return
		}
	}
}
func (c *C) BadPumpTwice() {
	for {
		select {
		case v := <-c.in:
			c.out <- v
			if v < 0 {
				c.out <- v
			}
		case <-c.quit:
			return
		}
	}
}
func (c *C) BadPumpChange() {
	for {
		select {
		case v := <-c.in:
			c.out <- v &^ 0x40000000
		case <-c.quit:
			return
		}
	}
}
func (c *C) BadPumpEnd() {
	for {
		select {
		case v := <-c.in:
			c.out <- v
			if v == 99 {
				return
			}
		case <-c.quit:
			return
		}
	}
}
func (c *C) BadCloseTwice() { close(c.out); close(c.out) }

// calls: a caller sees the contract, not the body
func callee(p *P)       { p.A = 5 }
func GoodCall(p *P) int { callee(p); return p.A }
func BadCall(p *P) int  { p.B = 9; callee(p); return p.B }

// Vacuous is good against its contract only because nothing satisfies the contract's precondition.
func BadVacuous(a int) int { return a }

// lemmas over recursive definitions
func GoodRec(n int) int {
	s := 0
	for i := 1; i <= n; i++ {
		s += i
	}
	return s
}

// the state at the time of a call
type Sink interface{ Put(p *P) }

func GoodPut(s Sink, p *P) { p.A = 1; s.Put(p) }
func BadPut(s Sink, p *P)  { p.A = 0; s.Put(p); p.A = 1 }

// broadcast: the loop over the channels belongs to the value received before it
type M struct {
	in   chan int
	outs map[int]chan int
}

func (m *M) GoodCast() {
	for {
		select {
		case v := <-m.in:
			for _, c := range m.outs {
				c <- v
			}
		}
	}
}
func (m *M) BadCast() {
	for {
		select {
		case v := <-m.in:
			for k, c := range m.outs {
				if k != 7 {
					c <- v
				}
			}
		}
	}
}

// a shared map: what other goroutines may do between two critical sections
type S struct {
	mu sync.Mutex
	m  map[int]int
}

func (s *S) GoodAdd(k int) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[k]; ok {
		return false
	}
	s.m[k] = 1
	return true
}
func (s *S) BadAdd(k int) bool {
	s.mu.Lock()
	_, ok := s.m[k]
	s.mu.Unlock()
	if ok {
		return false
	}
	s.mu.Lock()
	s.m[k] = 1
	s.mu.Unlock()
	return true
}

// goroutines
type G struct{ c chan int }

func (g *G) GoodSpawn(v int) {
	go func() { g.c <- v }()
}
func (g *G) BadSpawn(v int) {
	go func() { g.c <- v + 1 }()
}

// nothing may be read from a buffer somebody else may change afterwards
func BadShare(b []byte) []byte  { return b }
func GoodCopy(b []byte) []byte  { return append([]byte(nil), b...) }
func BadAppend(b []byte) []byte { return append(b, 1) }

// helpers without a contract are seen through; functions with one are not
func half(b []byte) int       { return len(b) / 2 }
func GoodHelper(b []byte) int { return half(b) }
func BadHelper(b []byte) int  { return half(b) + len(b)/1000 }
func needs(p *P) int          { return p.A }
func BadPre(p *P) int         { return needs(p) }
func GoodDefer(p *P) (n int) {
	defer func() { n = p.A }()
	return 3
}
func BadDefer(p *P) (n int) {
	defer func() {
		if p.A == 77 {
			n = 4
		}
	}()
	return 3
}
func BadConv(n int) int32 { return int32(n) }
func GoodSwitch(x interface{}) int {
	switch v := x.(type) {
	case int:
		return v
	case *P:
		if v != nil {
			return v.A
		}
	}
	return 0
}
func BadSwitch(x interface{}) int {
	switch v := x.(type) {
	case int:
		return v
	case *P:
		return v.A
	}
	return 0
}
func BadMapNil(m map[int]int)    { m[1] = 2 }
func BadMake(n int) []byte       { return make([]byte, n) }
func BadShift(a, n int) int      { return a << n }
func BadUint(a, b uint32) uint32 { return a - b }
func GoodString(s string) byte {
	if s == "" {
		return 0
	}
	return s[0]
}
func BadString(s string) byte { return s[1] }
func (c *C) BadDefault() {
	for {
		select {
		case v := <-c.in:
			select {
			case c.out <- v:
			default:
			}
		case <-c.quit:
			return
		}
	}
}
func (c *C) GoodOrder() { c.out <- 1; close(c.out) }
func (c *C) BadOrder()  { close(c.out); c.out <- 1 }
func BadOld(p *P)       { p.A = p.A * 1; p.B, p.A = p.A, p.B }
