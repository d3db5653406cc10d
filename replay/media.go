package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"syscall"
	"time"
	"unsafe"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/server"
)

func init() {
	drivers["G01"] = gateDriver
	drivers["G02"] = dispatchDriver
	drivers["D01"] = mediaDriver
	drivers["D02"] = mediaBits
	drivers["N01"] = commandStreams
	drivers["S01"] = outgoing
	drivers["V01"] = clientDriver
}

func mediaCrash(d *D, raw []byte) {
	h := d.header(byte(d.Intn(4)))
	h.MessageHeader.TypeId = []byte{8, 9, 0x12, 0x14, byte(d.Intn(256))}[d.Intn(5)]
	c := chunk.New(&h, raw[:d.Intn(min(len(raw)+1, 60))])
	if m, err := data.DefaultParser.Parse(c); err == nil {
		switch x := m.(type) {
		case *data.Audio:
			x.Control()
			x.Payload()
			x.Codec()
			x.Rate()
			x.Size()
			x.Type()
		case *data.Video:
			x.Control()
			x.Payload()
			x.Codec()
			x.Type()
		}
		if _, ok := m.(*data.DataFrame); !ok {
			m.Marshal()
		}
	}
	cmd.NetConnGate.Open(c)
	cmd.NetStreamGate.Open(c)
	cmd.DataStreamGate.Open(c)
}

// ---- G01

type constGate bool

func (c constGate) Open(*chunk.Chunk) bool { return bool(c) }

func gateDriver(d *D) {
	for d.more() {
		h := d.header(0)
		if d.Intn(3) > 0 {
			h.BasicHeader.StreamId = []uint32{2, 3, 4, 5, 8, 9}[d.Intn(6)]
		}
		if d.Intn(3) > 0 {
			h.MessageHeader.StreamId = []uint32{0, 1, 2, 256}[d.Intn(4)]
		}
		if d.Intn(3) > 0 {
			h.MessageHeader.TypeId = []byte{8, 9, 0x12, 0x14, 0x0a, 0x28}[d.Intn(6)]
		}
		c := chunk.New(&h, nil)
		cs, ms, t := h.BasicHeader.StreamId, h.MessageHeader.StreamId, h.MessageHeader.TypeId
		desc := fmt.Sprintf("chunk stream %d, message stream %d, type %d", cs, ms, t)
		d.set("%s", desc)
		for _, x := range []struct {
			n    string
			g    cmd.Gate
			want bool
		}{
			{"net connection", cmd.NetConnGate, cs == 3 || cs == 8 && ms == 0},
			{"net stream", cmd.NetStreamGate, t == 0x14 && (cs == 4 || cs == 8 && ms == 1)},
			{"data stream", cmd.DataStreamGate, cs == 4 && (t == 8 || t == 9 || t == 0x12)},
			{"chunk stream 4 gate", &cmd.StreamIdGate{StreamId: 4}, cs == 4},
			{"message stream 1 gate", &cmd.MessageStreamGate{StreamId: 1}, ms == 1},
			{"type 9 gate", &cmd.TypeIdGate{TypeId: 9}, t == 9},
		} {
			if x.g.Open(c) != x.want {
				d.fail("%s: for the %s: %v", desc, x.n, !x.want)
			}
		}
		var gs []cmd.Gate
		all, some := true, false
		for i := d.Intn(5); i > 0; i-- {
			v := d.Intn(2) == 0
			gs = append(gs, constGate(v))
			all = all && v
			some = some || v
		}
		if cmd.NewUnionGate(gs...).Open(c) != (all && len(gs) > 0) {
			d.fail("conjunction of %v is %v", gs, !(all && len(gs) > 0))
		}
		if cmd.NewAnyGate(gs...).Open(c) != some {
			d.fail("disjunction of %v is %v", gs, !some)
		}
	}
}

// ---- G02

type markGate struct{ k byte }

func (m *markGate) Open(c *chunk.Chunk) bool { return bytes.IndexByte(c.Data, m.k) >= 0 }

func field(v any, name string) (reflect.Value, bool) {
	f := reflect.ValueOf(v).Elem().FieldByName(name)
	if !f.IsValid() {
		return f, false
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
}

func dispatchDriver(d *D) {
	for d.more() {
		src := &chanStream{make(chan *chunk.Chunk)}
		m := cmd.New(src, lockedWriter{})
		f, ok := field(m, "channels")
		if !ok || f.Type() != reflect.TypeOf(map[cmd.Gate]chan<- *chunk.Chunk{}) {
			return
		}
		n := d.Intn(5)
		chans := map[cmd.Gate]chan<- *chunk.Chunk{}
		var outs []chan *chunk.Chunk
		for i := 0; i < n; i++ {
			c := make(chan *chunk.Chunk, 10)
			outs = append(outs, c)
			chans[&markGate{byte(i)}] = c
		}
		f.Set(reflect.ValueOf(chans))
		ended := make(chan struct{})
		go func() { m.Dispatch(false); close(ended) }()
		steps := fmt.Sprintf("%d gates ", n)
		closed := false
		for i := 0; i < d.Intn(8); i++ {
			if closed {
				break
			}
			if d.Intn(6) == 0 {
				closed = true
				steps += "[source closed]"
				d.set("%s", steps)
				close(src.c)
				continue
			}
			data := []byte{}
			for k := 0; k < n; k++ {
				if d.Intn(2) == 0 {
					data = append(data, byte(k))
				}
			}
			c := chunk.New(&chunk.Header{}, data)
			snap := show(c)
			steps += fmt.Sprintf("[chunk for gates %v]", data)
			d.set("%s", steps)
			if !sendT(src.c, c, short) {
				d.fail("%s: the chunk is not taken", steps)
			}
			for _, k := range data {
				g, open, ok := recvT(outs[k], short)
				if !ok || !open || g != c || show(g) != snap {
					d.fail("%s: it does not arrive at gate %d (got %s)", steps, k, show(g))
				}
			}
		}
		for k := range outs {
			if !quietT(outs[k]) {
				d.fail("%s: something more arrives at gate %d", steps, k)
			}
		}
		steps += "[close]"
		d.set("%s", steps)
		cl := make(chan struct{})
		go func() { m.Close(); close(cl) }()
		if _, _, ok := recvT(cl, short); !ok {
			d.fail("%s: Close does not return", steps)
		}
		if _, _, ok := recvT(ended, short); !ok {
			d.fail("%s: the dispatch loop does not end", steps)
		}
		for k := range outs {
			for {
				g, open, ok := recvT(outs[k], short)
				if ok && open {
					d.fail("%s: gate %d got %s once more", steps, k, show(g))
				}
				break
			}
		}
	}
}

// ---- D01, D02

func mediaDriver(d *D) {
	type frame struct {
		m    data.Data
		desc string
		h    chunk.Header
		b    []byte
	}
	var earlier []frame
	for d.more() {
		for _, f := range earlier {
			if o, err := f.m.Marshal(); err != nil || o == nil || o.Header == nil || *o.Header != f.h || !bytes.Equal(o.Data, f.b) {
				d.fail("%s: after reading another frame it is written back as %s (%v)", f.desc, show(o), err)
			}
		}
		h := d.header(byte(d.Intn(4)))
		t := []byte{8, 9, 8, 9, 0x12, byte(d.num(255))}[d.Intn(6)]
		h.MessageHeader.TypeId = t
		p := d.bytes(d.plen(100))
		keep := append([]byte{}, p...)
		was := h
		c := chunk.New(&h, p)
		desc := fmt.Sprintf("type %d, header %+v, payload %x", t, was, keep)
		d.set("%s", desc)
		m, err := data.DefaultParser.Parse(c)
		if t != 8 && t != 9 && t != 0x12 {
			if err == nil || m != nil {
				d.fail("%s: %v, error %v", desc, m, err)
			}
			continue
		}
		if t == 0x12 {
			if m != nil {
				if _, ok := m.(*data.DataFrame); !ok {
					d.fail("%s: a %T", desc, m)
				}
			}
			continue
		}
		if len(p) == 0 {
			if err == nil {
				d.fail("%s: no error", desc)
			}
			continue
		}
		if err != nil {
			d.fail("%s: %v", desc, err)
		}
		var ctl byte
		var pay []byte
		switch x := m.(type) {
		case *data.Audio:
			if t != 8 {
				d.fail("%s: audio", desc)
			}
			ctl, pay = x.Control(), x.Payload()
		case *data.Video:
			if t != 9 {
				d.fail("%s: video", desc)
			}
			ctl, pay = x.Control(), x.Payload()
		default:
			d.fail("%s: a %T", desc, m)
		}
		if ctl != keep[0] || !bytes.Equal(pay, keep[1:]) {
			d.fail("%s: control byte %x, payload %x", desc, ctl, pay)
		}
		o, err := m.Marshal()
		if err != nil || o == nil || o.Header == nil || *o.Header != was || !bytes.Equal(o.Data, keep) {
			d.fail("%s: written back as %s (%v)", desc, show(o), err)
		}
		if earlier = append(earlier, frame{m, desc, was, keep}); len(earlier) > 4 {
			earlier = earlier[1:]
		}
	}
}

func mediaBits(d *D) {
	for d.more() {
		b := byte(d.Intn(256))
		d.set("control byte %x", b)
		c := chunk.New(&chunk.Header{}, []byte{b, 1})
		a, v := new(data.Audio), new(data.Video)
		if a.Read(c) != nil || v.Read(c) != nil {
			d.fail("control byte %x is not read", b)
		}
		if byte(a.Codec()) != b>>4 || byte(a.Type()) != b&1 {
			d.fail("audio control byte %x: codec %d, channels %d", b, a.Codec(), a.Type())
		}
		if byte(v.Codec()) != b&15 || byte(v.Type()) != b>>4 {
			d.fail("video control byte %x: codec %d, frame type %d", b, v.Codec(), v.Type())
		}
		// Size is a recorded finding: 16 and 24 instead of 8 and 16
		want := 16
		if b&2 != 0 {
			want = 24
		}
		if s := a.Size(); s != want && s != want-8 {
			d.fail("audio control byte %x: size %d", b, s)
		}
	}
}

// ---- N01

type lockedWriter struct{}

func (lockedWriter) Write(*chunk.Chunk) error { return nil }
func (lockedWriter) WriteSize() int           { return 128 }
func (lockedWriter) SetWriteSize(int)         {}

type fakeData struct {
	c *chunk.Chunk
	e error
}

func (f *fakeData) Id() byte                       { return 0 }
func (f *fakeData) Read(*chunk.Chunk) error        { return nil }
func (f *fakeData) Marshal() (*chunk.Chunk, error) { return f.c, f.e }

type fakeDataParser struct {
	f func(*chunk.Chunk) (data.Data, error)
}

func (f *fakeDataParser) Parse(c *chunk.Chunk) (data.Data, error) { return f.f(c) }

type fakeOut struct {
	b []byte
	e error
}

func (f *fakeOut) Marshal() ([]byte, error) { return f.b, f.e }

func amfS(s string) []byte { x := amf0.String(s); return amf0.Encode(nil, &x) }
func amfN(f float64) []byte {
	x := amf0.Number(f)
	return amf0.Encode(nil, &x)
}

type ends struct {
	src    chan *chunk.Chunk
	good   func() (*chunk.Chunk, func() (string, bool, bool)) // a chunk and what must come out
	bad    func() *chunk.Chunk
	errs   <-chan error
	send   func(mode int) (bool, func(*chunk.Chunk) bool, error) // mode 1: cannot be marshalled
	quiet  func() bool
	close  func()
	listen func()
}

func commandStreams(d *D) {
	for d.more() {
		src := make(chan *chunk.Chunk)
		w := &logWriter{make(chan *chunk.Chunk, 100), make(chan error, 100)}
		e := ends{src: src}
		kind := []string{"net connection", "net stream", "data stream"}[d.Intn(3)]
		switch kind {
		case "net connection":
			n := conn.NewNetConnection(src, w)
			e.errs, e.close, e.listen = n.Errs(), n.Close, n.Listen
			e.quiet = func() bool { return quietT(n.In()) }
			e.good = func() (*chunk.Chunk, func() (string, bool, bool)) {
				k := fmt.Sprint("key", d.Intn(1000))
				b := append(append(append(amfS("releaseStream"), amfN(4)...), 5), amfS(k)...)
				return chunk.New(&chunk.Header{}, b), func() (string, bool, bool) {
					v, open, ok := recvT(n.In(), short)
					r, is := v.(*conn.ReleaseCommand)
					return fmt.Sprintf("%T%+v", v, v), ok && open, is && r.StreamKey == k
				}
			}
			e.bad = func() *chunk.Chunk {
				return chunk.New(&chunk.Header{}, [][]byte{{}, {0xee}, amfN(3), amfS("nothing"), amfS("releaseStream"), append(amfS("releaseStream"), 0, 1)}[d.Intn(6)])
			}
			e.send = func(mode int) (bool, func(*chunk.Chunk) bool, error) {
				f := &fakeOut{b: d.bytes(d.Intn(30))}
				if mode == 1 {
					f.e = errors.New("cannot be marshalled")
				}
				ok := sendT(n.Out(), conn.Marshallable(f), short)
				return ok, func(c *chunk.Chunk) bool { return c != nil && bytes.Equal(c.Data, f.b) }, f.e
			}
		case "net stream":
			n := stream.New(src, w)
			e.errs, e.close, e.listen = n.Errs(), n.Close, n.Listen
			e.quiet = func() bool { return quietT(n.In()) }
			e.good = func() (*chunk.Chunk, func() (string, bool, bool)) {
				k := fmt.Sprint("key", d.Intn(1000))
				b := append(append(append(append(amfS("publish"), amfN(4)...), 5), amfS(k)...), amfS("live")...)
				return chunk.New(&chunk.Header{}, b), func() (string, bool, bool) {
					v, open, ok := recvT(n.In(), short)
					r, is := v.(*stream.CommandPublish)
					return fmt.Sprintf("%T%+v", v, v), ok && open, is && r.Name == k && r.Type == "live"
				}
			}
			e.bad = func() *chunk.Chunk {
				return chunk.New(&chunk.Header{}, [][]byte{{}, {0xee}, amfN(3), append(append(amfS("nothing"), amfN(4)...), 5), append(append(amfS("publish"), amfN(4)...), 5), append(append(append(amfS("publish"), amfN(4)...), 5), 1, 1)}[d.Intn(6)])
			}
			e.send = func(mode int) (bool, func(*chunk.Chunk) bool, error) {
				s := stream.NewStatus()
				s.Arguments.Add("code", amf0.NewString(fmt.Sprint(d.Intn(1000))))
				want, _ := s.Data()
				ok := sendT(n.Status(), s, short)
				return ok, func(c *chunk.Chunk) bool { return c != nil && bytes.HasSuffix(c.Data, want) }, nil
			}
		default:
			n := data.NewStream(src, w)
			var perr error
			calls := 0
			var pd data.Data
			var parg *chunk.Chunk
			n.SetParser(&fakeDataParser{func(c *chunk.Chunk) (data.Data, error) { calls++; parg = c; return pd, perr }})
			e.errs, e.close, e.listen = n.Errs(), n.Close, n.Recv
			e.quiet = func() bool { return quietT(n.Out()) }
			e.good = func() (*chunk.Chunk, func() (string, bool, bool)) {
				perr = nil
				pd = &fakeData{}
				c := chunk.New(&chunk.Header{}, d.bytes(3))
				calls = 0
				return c, func() (string, bool, bool) {
					v, open, ok := recvT(n.Out(), short)
					return fmt.Sprintf("%T", v), ok && open, v == pd && calls == 1 && parg == c
				}
			}
			e.bad = func() *chunk.Chunk {
				perr = errors.New("undecodable")
				pd = &fakeData{}
				return chunk.New(&chunk.Header{}, d.bytes(3))
			}
			e.send = func(mode int) (bool, func(*chunk.Chunk) bool, error) {
				f := &fakeData{c: chunk.New(&chunk.Header{}, d.bytes(3))}
				if mode == 1 {
					f.e = errors.New("cannot be marshalled")
				}
				ok := sendT(n.In(), data.Data(f), short)
				return ok, func(c *chunk.Chunk) bool { return c == f.c }, f.e
			}
		}
		ended := make(chan struct{})
		if d.Intn(8) == 0 {
			// a value to send and the close request are both there when the loop starts
			what := kind + ": a value whose writing fails and a close request, both waiting when the loop starts"
			d.set("%s", what)
			for i := 0; i < 50; i++ {
				w.errs <- errors.New("cannot be written")
			}
			go e.close()
			go func() {
				defer func() { recover() }()
				e.send(0)
			}()
			stop, count := make(chan struct{}), make(chan int)
			go func() {
				k := 0
				for {
					select {
					case _, open := <-e.errs:
						if !open {
							<-stop
							count <- k
							return
						}
						k++
					case <-stop:
						count <- k
						return
					}
				}
			}()
			time.Sleep(time.Millisecond)
			go func() { e.listen(); close(ended) }()
			if _, _, ok := recvT(ended, short); !ok {
				d.fail("%s: the loop does not end", what)
			}
			close(stop)
			if k := <-count; k != len(w.got) {
				d.fail("%s: %d writes fail, %d errors are reported", what, len(w.got), k)
			}
			continue
		}
		go func() { e.listen(); close(ended) }()
		steps := kind + ": "
		closed := false
		quiet := func() {
			if !e.quiet() || !quietT(e.errs) || len(w.got) > 0 {
				d.fail("%s: something more happened", steps)
			}
		}
		for i := 0; i < 1+d.Intn(10); i++ {
			switch d.Intn(6) {
			case 0, 1:
				if closed {
					continue
				}
				if d.Intn(3) == 0 {
					c := e.bad()
					steps += fmt.Sprintf("[undecodable chunk %x]", c.Data)
					d.set("%s", steps)
					if !sendT(src, c, short) {
						d.fail("%s: it is not taken", steps)
					}
					if err, open, ok := recvT(e.errs, short); !ok || !open || err == nil {
						d.fail("%s: no error", steps)
					}
					continue
				}
				c, out := e.good()
				steps += fmt.Sprintf("[chunk %x]", c.Data)
				d.set("%s", steps)
				if !sendT(src, c, short) {
					d.fail("%s: it is not taken", steps)
				}
				if s, got, right := out(); !got || !right {
					d.fail("%s: its value is not delivered (got %s)", steps, s)
				}
			case 2, 3:
				mode := d.Intn(3)
				var werr error
				if mode == 2 {
					werr = errors.New("cannot be written")
				}
				w.errs <- werr
				steps += fmt.Sprintf("[value to send, failing in step %d]", mode)
				d.set("%s", steps)
				ok, check, merr := e.send(mode)
				if !ok {
					d.fail("%s: it is not taken", steps)
				}
				if merr != nil {
					if err, open, ok := recvT(e.errs, short); !ok || !open || err != merr {
						d.fail("%s: its error is not reported (got %v)", steps, err)
					}
					<-w.errs
					continue
				}
				g, _, ok := recvT(w.got, short)
				if !ok || !check(g) {
					d.fail("%s: it is not written (got %s)", steps, show(g))
				}
				if werr != nil {
					if err, open, ok := recvT(e.errs, short); !ok || !open || err != werr {
						d.fail("%s: the error is not reported (got %v)", steps, err)
					}
				}
			case 4:
				if !closed && d.Intn(3) == 0 {
					closed = true
					steps += "[chunk source closed]"
					d.set("%s", steps)
					close(src)
				}
			case 5:
				quiet()
			}
		}
		quiet()
		steps += "[close]"
		d.set("%s", steps)
		cl := make(chan struct{})
		go func() { e.close(); close(cl) }()
		if _, _, ok := recvT(cl, short); !ok {
			d.fail("%s: Close does not return", steps)
		}
		if _, _, ok := recvT(ended, short); !ok {
			d.fail("%s: the loop does not end", steps)
		}
	}
}

// ---- S01

func outgoing(d *D) {
	type built struct {
		c    *chunk.Chunk
		snap string
	}
	for d.more() {
		var before []built
		k := conn.NewChunker(3)
		for i := 0; i < 1+d.Intn(6); i++ {
			var c *chunk.Chunk
			var err error
			var want chunk.Header
			var data []byte
			if d.Intn(2) == 0 {
				s := stream.NewStatus()
				for j := d.Intn(5); j > 0; j-- {
					n := d.Intn(8)
					if d.Intn(20) == 0 {
						n = 30000 + d.Intn(30000)
					}
					s.Arguments.Add(fmt.Sprint("k", j), amf0.NewString(string(d.bytes(n))))
				}
				body, _ := s.Data()
				head, _ := encoding.Marshal(&stream.CommandHeader{Name: "onStatus"})
				data = append(head, body...)
				want = chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 5}, MessageHeader: chunk.MessageHeader{Length: uint32(len(data)), TypeId: 0x14, StreamId: 1}}
				c, err = s.AsChunk()
			} else {
				data = d.bytes(d.Intn(50))
				want = chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 3}, MessageHeader: chunk.MessageHeader{Length: uint32(len(data)), TypeId: 0x14}}
				f := &fakeOut{b: data}
				if d.Intn(6) == 0 {
					f.e = errors.New("cannot be marshalled")
					if c, err := k.Chunk(f); err != f.e || c != nil {
						d.fail("response that cannot be marshalled: %s, %v", show(c), err)
					}
					continue
				}
				c, err = k.Chunk(f)
			}
			d.set("building chunk %d with payload %x", i, data)
			if err != nil || c == nil || c.Header == nil || *c.Header != want || !bytes.Equal(c.Data, data) {
				d.fail("expected header %+v, payload %x; built %s (%v)", want, data, show(c), err)
			}
			for _, b := range before {
				if show(b.c) != b.snap {
					d.fail("building %s changed a chunk built earlier: %s became %s", show(c), b.snap, show(b.c))
				}
			}
			before = append(before, built{c, show(c)})
		}
	}
}

// ---- V01

type scriptConn struct{ net.Conn }

func (scriptConn) Read([]byte) (int, error)    { return 0, io.EOF }
func (scriptConn) Write(p []byte) (int, error) { return len(p), nil }
func (scriptConn) Close() error                { return nil }

type acceptance struct {
	c net.Conn
	e error
}
type scriptListener struct {
	ch     chan acceptance
	closed int
}

func (l *scriptListener) Accept() (net.Conn, error) { a := <-l.ch; return a.c, a.e }
func (l *scriptListener) Close() error              { l.closed++; return nil }
func (l *scriptListener) Addr() net.Addr            { return &net.TCPAddr{} }

type netErr struct{ timeout, temp bool }

func (netErr) Error() string     { return "accept error" }
func (e netErr) Timeout() bool   { return e.timeout }
func (e netErr) Temporary() bool { return e.temp }

func acceptDriver(d *D) {
	s, err := server.New("127.0.0.1:0")
	if err != nil {
		return
	}
	s.Close()
	f, ok := field(s, "socket")
	l := &scriptListener{ch: make(chan acceptance)}
	if !ok || !reflect.TypeOf(l).AssignableTo(f.Type()) {
		return
	}
	f.Set(reflect.ValueOf(l))
	go s.Accept()
	steps := "accepting: "
	for i := 0; i < 1+d.Intn(8); i++ {
		var a acceptance
		if d.Intn(2) == 0 {
			a.e = []error{errors.New("accept error"), io.EOF, net.ErrClosed, &net.OpError{Op: "accept", Err: syscall.EMFILE}, netErr{true, true}, netErr{true, false}, netErr{false, true}}[d.Intn(7)]
			steps += fmt.Sprintf("[error %T %v]", a.e, a.e)
		} else {
			a.c = &scriptConn{}
			steps += "[connection]"
		}
		d.set("%s", steps)
		if !sendT(l.ch, a, short) {
			d.fail("%s: nothing is accepted any more", steps)
		}
		if a.e != nil {
			if g, open, ok := recvT(s.Errs(), short); !ok || !open || g != a.e {
				d.fail("%s: the error is not reported (got %v)", steps, g)
			}
		} else if c, open, ok := recvT(s.Clients(), short); !ok || !open || c == nil || c.Conn != a.c {
			d.fail("%s: the connection is not handed out", steps)
		}
		if d.Intn(8) == 0 && (!quietT(s.Clients()) || !quietT(s.Errs())) {
			d.fail("%s: something more is reported", steps)
		}
	}
	if l.closed > 0 {
		d.fail("%s: the listener is closed", steps)
	}
}

func clientDriver(d *D) {
	for d.more() {
		if d.Intn(4) == 0 {
			acceptDriver(d)
			continue
		}
		okay := d.Intn(2) == 0
		mask := byte(1)
		if okay {
			mask = 0
		}
		f := &frag{d: d, end: io.EOF, mode: d.Intn(3), b: append([]byte{3}, d.bytes(packet)...)}
		p := &peer{f: f}
		if d.Intn(4) == 0 {
			// the peer hangs up in the middle
			n := []int{0, 1, 5, 9, 1 + packet, 2 + packet, d.Intn(1 + 2*packet)}[d.Intn(7)]
			if n <= 1+packet {
				f.b = f.b[:n]
			} else {
				p.c2 = func(s []byte) []byte { return append([]byte{}, s[:n-1-packet]...) }
			}
			d.set("handshake that ends after %d bytes", n)
			if err := client.New(p).Handshake(); err == nil {
				d.fail("handshake that ends after %d bytes: it succeeds", n)
			}
			continue
		}
		id := []uint32{2, 3, 4, 5, 8}[d.Intn(5)]
		h := chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{TypeId: 2, Length: 4}}
		body := []byte{0, 0, 0, 7}
		if id == 4 {
			body = append(append(append(append(amfS("publish"), amfN(4)...), 5), amfS("key")...), amfS("live")...)
			h.MessageHeader.TypeId = 0x14
		} else if id != 2 {
			body = append(append(append(amfS("releaseStream"), amfN(4)...), 5), amfS("key")...)
			h.MessageHeader.TypeId = 0x14
		}
		h.MessageHeader.Length = uint32(len(body))
		msg := msgEnc(h, body, 128)
		p.c2 = func(s []byte) []byte {
			r := append([]byte{}, s...)
			r[100] ^= mask
			return append(r, msg...)
		}
		d.set("handshake that succeeds: %v", okay)
		c := client.New(p)
		err := c.Handshake()
		if (err == nil) != okay {
			d.fail("handshake that succeeds: %v; returned %v", okay, err)
		}
		if !okay {
			n := len(f.b)
			quietT(make(chan int))
			if len(f.b) != n {
				d.fail("chunks are read after a failed handshake")
			}
			continue
		}
		if id == 2 {
			go c.Controls().Recv()
			if _, _, ok := recvT(c.Controls().In(), short); !ok {
				d.fail("a control message after the handshake does not arrive")
			}
			continue
		}
		go c.Net().Dispatch(true)
		arrived := true
		switch id {
		case 3, 8:
			_, _, arrived = recvT(c.Net().NetConn().In(), short)
		case 4:
			_, _, arrived = recvT(c.Net().NetStream().In(), short)
		}
		if !arrived {
			d.fail("a command on chunk stream %d after the handshake does not arrive", id)
		}
	}
}
