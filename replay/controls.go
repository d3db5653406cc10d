package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
)

func init() {
	drivers["K01"] = controlCodec
	drivers["K02"] = controlFraming
	drivers["K03"] = controlParsing
	drivers["K04"] = controlStream
}

// a control message with its type and its encoding
func (d *D) control() (control.Control, byte, []byte) {
	n := uint32(d.num(0xffffffff))
	switch d.Intn(6) {
	case 0:
		m := n
		if m > 0xffffff {
			m = 0xffffff
		}
		return control.NewSetChunkSize(n), 1, be(uint64(m), 4)
	case 1:
		return &control.AbortMessage{ChunkStreamId: n}, 2, be(uint64(n), 4)
	case 2:
		return &control.Acknowledgement{SequenceNumber: n}, 3, be(uint64(n), 4)
	case 3:
		t := uint16(d.num(0xffff))
		b := d.bytes(d.Intn(40))
		if d.Intn(20) == 0 {
			b = d.bytes(d.Intn(5000))
		}
		return &control.Event{Type: control.EventType(t), Body: b}, 4, append(be(uint64(t), 2), b...)
	case 4:
		return &control.WindowAckSize{WindowAckSize: n}, 5, be(uint64(n), 4)
	}
	l := byte(d.num(255))
	return &control.SetPeerBandwidth{AckWindowSize: n, LimitType: control.LimitType(l)}, 6, append(be(uint64(n), 4), l)
}

func blank(t byte) control.Control {
	return []control.Control{nil, &control.SetChunkSize{}, &control.AbortMessage{}, &control.Acknowledgement{}, &control.Event{}, &control.WindowAckSize{}, &control.SetPeerBandwidth{}}[t]
}

func sameControl(a, b control.Control) bool {
	if x, ok := a.(*control.SetChunkSize); ok {
		y, ok := b.(*control.SetChunkSize)
		return ok && x.ChunkSize() == y.ChunkSize()
	}
	if x, ok := a.(*control.Event); ok {
		y, ok := b.(*control.Event)
		return ok && x.Type == y.Type && bytes.Equal(x.Body, y.Body)
	}
	return reflect.DeepEqual(a, b)
}

// bytes a message of the type needs
func needs(t byte) int { return []int{0, 4, 4, 4, 2, 4, 5}[t] }

func controlCodec(d *D) {
	for d.more() {
		c, t, enc := d.control()
		desc := fmt.Sprintf("%T%+v", c, c)
		d.set("%s", desc)
		if c.TypeId() != t {
			d.fail("%s has type ID %d", desc, c.TypeId())
		}
		s := &sink{}
		if err := c.Write(s); err != nil || !bytes.Equal(s.all(), enc) {
			d.fail("%s is written as %x (%v), expected %x", desc, s.all(), err, enc)
		}
		if d.Intn(3) == 0 {
			fs := &sink{failN: 1 + d.Intn(3)}
			if err := c.Write(fs); (fs.failN == -1) != (err != nil) {
				d.fail("%s: the destination failed=%v but Write returned %v", desc, fs.failN == -1, err)
			}
		}
		controlDecode(d, t, enc, c)
		raw := d.bytes(d.Intn(9))
		controlDecode(d, byte(1+d.Intn(6)), raw, nil)
	}
}

// decode enc as a message of type t, from a transport that may fail after it
func controlDecode(d *D, t byte, enc []byte, want control.Control) {
	got := blank(t)
	var tail []byte
	if t != 4 {
		tail = d.bytes(d.Intn(5))
	}
	r, fr := d.reader(append(append([]byte{}, enc...), tail...))
	if t == 4 {
		fr.end = io.EOF
	}
	total := len(enc) + len(tail)
	err := got.Read(r)
	desc := fmt.Sprintf("decoding %x as type %d", append(append([]byte{}, enc...), tail...), t)
	if total < needs(t) {
		if err == nil {
			d.fail("%s: no error, got %+v", desc, got)
		}
		return
	}
	if err != nil {
		d.fail("%s: %v (pieces mode %d, transport ends with %v)", desc, err, fr.mode, fr.end)
	}
	if want != nil && !sameControl(got, want) {
		d.fail("%s: got %+v, expected %+v", desc, got, want)
	}
	if want != nil && !bytes.Equal(fr.b, tail) {
		d.fail("%s: left %x unread, expected %x", desc, fr.b, tail)
	}
	s := &sink{}
	got.Write(s)
	exp := append(append([]byte{}, enc...), tail...)
	if t != 4 {
		exp = exp[:needs(t)]
	}
	if t == 1 && exp[0] != 0 {
		exp = be(0xffffff, 4)
	}
	if !bytes.Equal(s.all(), exp) {
		d.fail("%s and encoding it again gives %x", desc, s.all())
	}
	if t == 4 {
		// a transport failure is not the end of the body
		g := blank(t)
		f := &frag{d: d, b: append([]byte{}, enc...), end: errBroken, mode: d.Intn(4)}
		if g.Read(f) == nil {
			d.fail("decoding %x as an event from a transport that breaks: no error", enc)
		}
	}
}

// a message whose encoding fails after k bytes
type badControl struct {
	k, t byte
	err  error
}

func (b *badControl) Read(io.Reader) error { return b.err }
func (b *badControl) Write(w io.Writer) error {
	w.Write(make([]byte, b.k))
	return b.err
}
func (b *badControl) TypeId() byte { return b.t }

// a message of a type of its own
type rawControl struct {
	b []byte
	t byte
}

func (b *rawControl) Read(io.Reader) error    { return nil }
func (b *rawControl) Write(w io.Writer) error { _, err := w.Write(b.b); return err }
func (b *rawControl) TypeId() byte            { return b.t }

func framed(t byte, enc []byte) chunk.Header {
	return chunk.Header{
		BasicHeader:   chunk.BasicHeader{FormatId: 0, StreamId: 2},
		MessageHeader: chunk.MessageHeader{FormatId: 0, Length: uint32(len(enc)), TypeId: t, StreamId: 0},
	}
}

func controlFraming(d *D) {
	for d.more() {
		k := control.NewChunker()
		type built struct {
			c    *chunk.Chunk
			snap string
		}
		var before []built
		for i := 0; i < 1+d.Intn(5); i++ {
			c, t, enc := d.control()
			if d.Intn(5) == 0 {
				t, enc = byte(d.num(255)), d.bytes(d.plen(100))
				c = &rawControl{enc, t}
			}
			desc := fmt.Sprintf("%T%+v", c, c)
			d.set("framing %s", desc)
			got, err := k.Chunk(c)
			if err != nil {
				d.fail("framing %s: %v", desc, err)
			}
			if got == nil || got.Header == nil || *got.Header != framed(t, enc) || !bytes.Equal(got.Data, enc) {
				d.fail("framing %s: %s", desc, show(got))
			}
			before = append(before, built{got, show(got)})
			bad := &badControl{byte(d.Intn(6)), byte(d.Intn(8)), errBroken}
			if got, err := k.Chunk(bad); err == nil || got != nil {
				d.fail("framing a message that cannot be encoded (%d bytes written first): %s, error %v", bad.k, show(got), err)
			}
			for _, b := range before {
				if show(b.c) != b.snap {
					d.fail("framing %s changed the chunk built before: %s became %s", desc, b.snap, show(b.c))
				}
			}
			m, err := control.NewParser().Parse(got)
			if t >= 1 && t <= 6 {
				if _, raw := c.(*rawControl); !raw && (err != nil || !sameControl(m, c)) {
					d.fail("%s framed and parsed again: %+v, error %v", desc, m, err)
				}
			}
		}
	}
}

func controlParsing(d *D) {
	for d.more() {
		p := control.NewParser()
		type old struct {
			m    control.Control
			snap string
		}
		var seen []old
		for i := 0; i < 1+d.Intn(6); i++ {
			h := d.header(byte(d.Intn(4)))
			c, t, data := d.control()
			switch d.Intn(4) {
			case 0:
				t, data, c = byte(d.num(255)), d.bytes(d.Intn(10)), nil
			case 1:
				data, c = data[:d.Intn(len(data)+1)], nil
			}
			h.MessageHeader.TypeId = t
			desc := fmt.Sprintf("chunk with header %+v, payload %x", h, data)
			d.set("parsing %s", desc)
			m, err := p.Parse(chunk.New(&h, data))
			if t < 1 || t > 6 || len(data) < needs(t) {
				if err == nil || m != nil {
					d.fail("parsing %s: %+v, error %v", desc, m, err)
				}
				continue
			}
			if err != nil || m == nil {
				d.fail("parsing %s: %+v, error %v", desc, m, err)
			}
			if reflect.TypeOf(m) != reflect.TypeOf(blank(t)) {
				d.fail("parsing %s: a %T", desc, m)
			}
			if c != nil && !sameControl(m, c) {
				d.fail("parsing %s: %+v, expected %+v", desc, m, c)
			}
			if t != 1 {
				s := &sink{}
				m.Write(s)
				exp := data
				if t != 4 {
					exp = data[:needs(t)]
				}
				if !bytes.Equal(s.all(), exp) {
					d.fail("parsing %s: %+v", desc, m)
				}
			}
			for _, o := range seen {
				if o.m == m || fmt.Sprintf("%+v", o.m) != o.snap {
					d.fail("parsing %s changed the message parsed before: %s became %+v", desc, o.snap, o.m)
				}
			}
			seen = append(seen, old{m, fmt.Sprintf("%+v", m)})
		}
	}
}

type chanStream struct{ c chan *chunk.Chunk }

func (s *chanStream) In() <-chan *chunk.Chunk { return s.c }

type logWriter struct {
	got  chan *chunk.Chunk
	errs chan error
}

func (l *logWriter) Write(c *chunk.Chunk) error {
	l.got <- c
	return <-l.errs
}
func (l *logWriter) WriteSize() int   { return 128 }
func (l *logWriter) SetWriteSize(int) {}

type fakeParser struct {
	f func(*chunk.Chunk) (control.Control, error)
}

func (f *fakeParser) Parse(c *chunk.Chunk) (control.Control, error) { return f.f(c) }

type fakeChunker struct {
	f func(control.Control) (*chunk.Chunk, error)
}

func (f *fakeChunker) Chunk(c control.Control) (*chunk.Chunk, error) { return f.f(c) }

func controlStream(d *D) {
	const wait = 2 * time.Second
	for d.more() {
		src := &chanStream{make(chan *chunk.Chunk)}
		w := &logWriter{make(chan *chunk.Chunk, 100), make(chan error, 100)}
		nparse, nchunk := 0, 0
		var perr, cerr error
		var pm control.Control
		var cc *chunk.Chunk
		var parg *chunk.Chunk
		var carg control.Control
		p := &fakeParser{func(c *chunk.Chunk) (control.Control, error) { nparse++; parg = c; return pm, perr }}
		k := &fakeChunker{func(c control.Control) (*chunk.Chunk, error) { nchunk++; carg = c; return cc, cerr }}
		s := control.NewStream(src, w, p, k)
		ended := make(chan struct{})
		go func() { s.Recv(); close(ended) }()
		steps := ""
		closed := false
		for i := 0; i < 1+d.Intn(12); i++ {
			switch d.Intn(6) {
			case 0, 1: // a chunk arrives
				if closed {
					continue
				}
				bad := d.Intn(3) == 0
				perr = nil
				if bad {
					perr = errors.New("undecodable")
				}
				m, _, _ := d.control()
				pm = m
				c := chunk.New(&chunk.Header{}, d.bytes(3))
				before := nparse
				steps += fmt.Sprintf("[chunk, undecodable %v]", bad)
				d.set("%s", steps)
				if !sendT(src.c, c, wait) {
					d.fail("%s: the chunk is not taken", steps)
				}
				if bad {
					err, open, ok := recvT(s.Errs(), wait)
					if !ok || !open || err != perr {
						d.fail("%s: expected its error, got %v (closed %v, nothing %v)", steps, err, !open, !ok)
					}
				} else {
					g, open, ok := recvT(s.In(), wait)
					if !ok || !open || g != m {
						d.fail("%s: expected its message, got %+v (closed %v, nothing %v)", steps, g, !open, !ok)
					}
				}
				if nparse != before+1 || parg != c {
					d.fail("%s: the chunk was decoded %d times", steps, nparse-before)
				}
			case 2, 3: // a message to send
				mode := d.Intn(3)
				m, _, _ := d.control()
				cerr = nil
				if mode == 1 {
					cerr = errors.New("cannot be framed")
				}
				cc = chunk.New(&chunk.Header{}, d.bytes(3))
				var werr error
				if mode == 2 {
					werr = errors.New("cannot be written")
				}
				w.errs <- werr
				before := nchunk
				steps += fmt.Sprintf("[message to send, failing in step %d]", mode)
				d.set("%s", steps)
				if !sendT(s.Out(), m, wait) {
					d.fail("%s: the message is not taken", steps)
				}
				if mode == 1 {
					err, open, ok := recvT(s.Errs(), wait)
					if !ok || !open || err != cerr {
						d.fail("%s: expected its error, got %v", steps, err)
					}
					<-w.errs
				} else {
					g, _, ok := recvT(w.got, wait)
					if !ok || g != cc {
						d.fail("%s: expected the framed message to be written, got %s", steps, show(g))
					}
					if mode == 2 {
						err, open, ok := recvT(s.Errs(), wait)
						if !ok || !open || err != werr {
							d.fail("%s: expected its error, got %v", steps, err)
						}
					}
				}
				if nchunk != before+1 || carg != m {
					d.fail("%s: the message was framed %d times", steps, nchunk-before)
				}
			case 4:
				if !closed && d.Intn(3) == 0 {
					closed = true
					steps += "[chunk source closed]"
					d.set("%s", steps)
					close(src.c)
				}
			case 5:
				if !quietT(s.In()) || !quietT(s.Errs()) || len(w.got) > 0 {
					d.fail("%s: something more happened", steps)
				}
			}
		}
		if !quietT(s.In()) || !quietT(s.Errs()) || len(w.got) > 0 {
			d.fail("%s: something more happened", steps)
		}
		steps += "[close]"
		d.set("%s", steps)
		cl := make(chan struct{})
		go func() { s.Close(); close(cl) }()
		if _, _, ok := recvT(cl, wait); !ok {
			d.fail("%s: Close does not return", steps)
		}
		if _, _, ok := recvT(ended, wait); !ok {
			d.fail("%s: Recv does not return", steps)
		}
		if _, open, ok := recvT(s.In(), wait); open || !ok {
			d.fail("%s: the incoming channel is not closed", steps)
		}
		if _, open, ok := recvT(s.Errs(), wait); open || !ok {
			d.fail("%s: the error channel is not closed", steps)
		}
		if !closedForSend(func() {
			select {
			case s.Out() <- &control.AbortMessage{}:
			default:
			}
		}) || len(w.got) > 0 {
			d.fail("%s: the outgoing channel is not closed", steps)
		}
	}
}

// does sending panic (the channel is closed)?
func closedForSend(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return false
}
