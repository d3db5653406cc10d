// Input search over the real code: each property has a driver that runs the exported API on
// generated inputs and compares with an independent oracle. It decides nothing by itself:
// it looks for a concrete input when an obligation of the verifier fails, and stands in,
// bounded, for functions the verifier cannot reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type D struct {
	*rand.Rand
	end   time.Time
	cases int64
	ints  []int64
	cf    *os.File
	mu    sync.Mutex
}

var drivers = map[string]func(*D){}

func (d *D) more() bool { return time.Now().Before(d.end) }

// a case is about to run
func (d *D) set(f string, a ...any) {
	d.cases++
	if d.cf != nil {
		s := fmt.Sprintf(f, a...)
		if len(s) > 8000 {
			s = s[:8000]
		}
		d.cf.Truncate(0)
		d.cf.WriteAt([]byte(s), 0)
	}
}

func (d *D) fail(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 8000 {
		s = s[:8000] + "..."
	}
	b, _ := json.Marshal(s)
	d.mu.Lock()
	fmt.Printf("CASES %d\nFOUND %s\n", d.cases, b)
	os.Exit(3)
}

// an integer: a hint from the solver's model, a boundary value, or random
func (d *D) num(max int64) int64 {
	switch r := d.Intn(8); {
	case r == 0 && len(d.ints) > 0:
		v := d.ints[d.Intn(len(d.ints))]
		if v < 0 {
			v = -v
		}
		return v % (max + 1)
	case r <= 2:
		b := []int64{0, 1, 2, 3, 4, 5, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 319, 320, 321, 65535, 65536, 65599, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}
		v := b[d.Intn(len(b))]
		if v <= max {
			return v
		}
		return max
	case r == 3:
		return max - int64(d.Intn(3))%(max+1)
	case r <= 5:
		m := int64(300)
		if max < m {
			m = max
		}
		return d.Int63n(m + 1)
	}
	return d.Int63n(max + 1)
}
func (d *D) bytes(n int) []byte {
	b := make([]byte, n)
	d.Read(b)
	return b
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Float64("secs", 10, "")
	cf := flag.String("case", "", "")
	hints := flag.String("hints", "", "")
	flag.Parse()
	f := drivers[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no driver for", *prop)
		os.Exit(5)
	}
	d := &D{Rand: rand.New(rand.NewSource(*seed)), end: time.Now().Add(time.Duration(*secs * float64(time.Second)))}
	if *cf != "" {
		d.cf, _ = os.Create(*cf)
	}
	if *hints != "" {
		if b, err := os.ReadFile(*hints); err == nil {
			for _, m := range regexp.MustCompile(`\d+`).FindAllString(string(b), 2000) {
				if v, err := strconv.ParseInt(m, 10, 64); err == nil {
					d.ints = append(d.ints, v)
				}
			}
		}
	}
	f(d)
	fmt.Printf("CASES %d\n", d.cases)
}

// wait for a value with a deadline; ok is false on timeout
func recvT[T any](ch <-chan T, t time.Duration) (v T, open, ok bool) {
	select {
	case v, open = <-ch:
		return v, open, true
	default:
	}
	tm := time.NewTimer(t)
	defer tm.Stop()
	select {
	case v, open = <-ch:
		return v, open, true
	case <-tm.C:
		return v, false, false
	}
}

// nothing arrives on ch for a little while
func quietT[T any](ch <-chan T) bool {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	select {
	case <-ch:
		return false
	case <-time.After(2 * time.Millisecond):
		return true
	}
}
func sendT[T any](ch chan<- T, v T, t time.Duration) bool {
	tm := time.NewTimer(t)
	defer tm.Stop()
	select {
	case ch <- v:
		return true
	case <-tm.C:
		return false
	}
}
