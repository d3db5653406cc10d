package main

import (
	"errors"
	"io"
)

var errBroken = errors.New("transport broken")

// frag delivers b in arbitrary pieces, then an error
type frag struct {
	d    *D
	b    []byte
	end  error
	mode int // 0 all at once, 1 one byte at a time, 2 random, 3 last bytes together with the error
	zero int
}

func (f *frag) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(f.b) == 0 {
		return 0, f.end
	}
	n := len(p)
	switch f.mode {
	case 1:
		n = 1
	case 2, 3:
		if f.zero < 3 && f.d.Intn(8) == 0 {
			f.zero++
			return 0, nil
		}
		f.zero = 0
		n = 1 + f.d.Intn(len(p))
	}
	if n > len(f.b) {
		n = len(f.b)
	}
	copy(p, f.b[:n])
	f.b = f.b[n:]
	if f.mode == 3 && len(f.b) == 0 {
		return n, f.end
	}
	return n, nil
}

// the same with ReadByte
type fragBR struct{ frag }

func (f *fragBR) ReadByte() (byte, error) {
	if len(f.b) == 0 {
		return 0, f.end
	}
	c := f.b[0]
	f.b = f.b[1:]
	return c, nil
}

func (d *D) reader(b []byte) (io.Reader, *frag) {
	f := frag{d: d, b: append([]byte{}, b...), end: io.EOF, mode: d.Intn(4)}
	if d.Intn(2) == 0 {
		f.end = errBroken
	}
	if d.Intn(4) == 0 {
		r := &fragBR{f}
		return r, &r.frag
	}
	r := &f
	return r, r
}

// sink records writes and may fail at the k-th one
type sink struct {
	calls [][]byte
	failN int
	short bool
}

func (s *sink) Write(b []byte) (int, error) {
	if s.failN > 0 && len(s.calls)+1 == s.failN {
		s.failN = -1
		n := 0
		if s.short {
			n = len(b) / 2
		}
		s.calls = append(s.calls, append([]byte{}, b[:n]...))
		return n, errBroken
	}
	s.calls = append(s.calls, append([]byte{}, b...))
	return len(b), nil
}
func (s *sink) all() []byte {
	var r []byte
	for _, c := range s.calls {
		r = append(r, c...)
	}
	return r
}
