// Package amf0 is a stand-in for the external module github.com/WatchBeam/amf0, whose
// source is not available in this sandbox. It has the API /repo uses and a small
// working subset of AMF0, so that the packages under /repo/cmd type-check, can be
// verified against an assumed contract of this dependency, and can be replayed.
package amf0

import (
	"encoding/binary"
	"errors"
	"io"
	"math"
)

type AmfType interface {
	Marker() byte
}

type String string

func NewString(s string) *String { x := String(s); return &x }
func (s *String) Marker() byte    { return 0x02 }

type Number float64

func (n *Number) Marker() byte { return 0x00 }

type Bool bool

func (b *Bool) Marker() byte { return 0x01 }

type Null struct{}

func (n *Null) Marker() byte { return 0x05 }

type Undefined struct{}

func (n *Undefined) Marker() byte { return 0x06 }

type pair struct {
	Key string
	Val AmfType
}

type Paired struct{ pairs []*pair }

func NewPaired() *Paired { return &Paired{} }

func (p *Paired) Add(k string, v AmfType) *Paired {
	p.pairs = append(p.pairs, &pair{k, v})
	return p
}
func (p *Paired) Len() int { return len(p.pairs) }

type Object struct{ *Paired }

func NewObject() *Object       { return &Object{NewPaired()} }
func (o *Object) Marker() byte { return 0x03 }

type Array struct{ *Paired }

func NewArray() *Array        { return &Array{NewPaired()} }
func (a *Array) Marker() byte { return 0x08 }

var ErrUnknown = errors.New("amf0: unknown marker")

func bytesN(r io.Reader, n int) ([]byte, error) {
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return b, err
}
func str(r io.Reader) (string, error) {
	b, err := bytesN(r, 2)
	if err != nil {
		return "", err
	}
	s, err := bytesN(r, int(binary.BigEndian.Uint16(b)))
	return string(s), err
}
func pairs(r io.Reader, p *Paired) error {
	for {
		k, err := str(r)
		if err != nil {
			return err
		}
		if k == "" {
			b, err := bytesN(r, 1)
			if err != nil {
				return err
			}
			if b[0] != 9 {
				return ErrUnknown
			}
			return nil
		}
		v, err := Decode(r)
		if err != nil {
			return err
		}
		p.Add(k, v)
	}
}

// Decode reads one AMF0 value.
func Decode(r io.Reader) (AmfType, error) {
	m, err := bytesN(r, 1)
	if err != nil {
		return nil, err
	}
	switch m[0] {
	case 0:
		b, err := bytesN(r, 8)
		if err != nil {
			return nil, err
		}
		n := Number(math.Float64frombits(binary.BigEndian.Uint64(b)))
		return &n, nil
	case 1:
		b, err := bytesN(r, 1)
		if err != nil {
			return nil, err
		}
		v := Bool(b[0] != 0)
		return &v, nil
	case 2:
		s, err := str(r)
		if err != nil {
			return nil, err
		}
		return NewString(s), nil
	case 3:
		o := NewObject()
		if err := pairs(r, o.Paired); err != nil {
			return nil, err
		}
		return o, nil
	case 5:
		return &Null{}, nil
	case 6:
		return &Undefined{}, nil
	case 8:
		if _, err := bytesN(r, 4); err != nil {
			return nil, err
		}
		a := NewArray()
		if err := pairs(r, a.Paired); err != nil {
			return nil, err
		}
		return a, nil
	}
	return nil, ErrUnknown
}

func putStr(b []byte, s string) []byte {
	return append(append(b, byte(len(s)>>8), byte(len(s))), s...)
}
func putPairs(b []byte, p *Paired) []byte {
	if p != nil {
		for _, x := range p.pairs {
			b = Encode(putStr(b, x.Key), x.Val)
		}
	}
	return append(b, 0, 0, 9)
}

// Encode appends the encoding of v.
func Encode(b []byte, v AmfType) []byte {
	b = append(b, v.Marker())
	switch x := v.(type) {
	case *Number:
		return binary.BigEndian.AppendUint64(b, math.Float64bits(float64(*x)))
	case *Bool:
		if *x {
			return append(b, 1)
		}
		return append(b, 0)
	case *String:
		return putStr(b, string(*x))
	case *Object:
		return putPairs(b, x.Paired)
	case *Array:
		b = binary.BigEndian.AppendUint32(b, 0)
		return putPairs(b, x.Paired)
	}
	return b
}
