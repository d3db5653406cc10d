package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
)

func init() {
	drivers["C08"] = crashDriver
	drivers["C09"] = func(d *D) { truncation(d, true) }
	drivers["C11"] = registryDriver
	drivers["C12"] = routingDriver
	drivers["C13"] = mergeDriver
	drivers["C14"] = lockDriver
	drivers["C15"] = func(d *D) { truncation(d, false) }
}

const short = 6 * time.Second

// ---- C08

func crashDriver(d *D) {
	for d.more() {
		n := d.Intn(400)
		raw := d.bytes(n)
		for i := range raw {
			switch d.Intn(4) {
			case 0:
				raw[i] = 0
			case 1:
				raw[i] = []byte{1, 2, 3, 4, 0x42, 0x82, 0xc2, 0xff, 63, 0x14, 8, 9}[d.Intn(12)]
			}
		}
		d.set("bytes from the peer: %x", raw)
		res := d.readAll(raw, 1+d.Intn(200))
		if res.stuck {
			d.fail("bytes from the peer: %x: the reader does not finish", raw)
		}
		for _, m := range res.msgs {
			control.NewParser().Parse(m)
		}
		// through the demultiplexer, with a consumer for everything
		f := &frag{d: d, b: append([]byte{}, raw...), end: io.EOF, mode: 2}
		p := chunk.NewParser(chunk.NewReader(f, 1+d.Intn(200), chunk.NewNormalizer()))
		var wg sync.WaitGroup
		for _, id := range []uint32{2, 3, 4, 64, 65, 66} {
			s, err := p.Stream(id)
			if err != nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range s.In() {
				}
			}()
		}
		first := make(chan struct{})
		go func() {
			once := sync.Once{}
			for range p.Errs() {
				once.Do(func() { close(first) })
			}
		}()
		if d.Intn(4) == 0 {
			go p.Recv()
			recvT(first, 5*time.Millisecond)
			c := make(chan struct{})
			go func() { p.Close(); close(c) }()
			recvT(c, 5*time.Millisecond)
		}
		// handshake
		h := &peer{f: &frag{d: d, b: append([]byte{byte(d.Intn(5))}, raw...), end: errBroken, mode: d.Intn(4)}}
		if d.Intn(2) == 0 {
			h.f.b = append([]byte{3}, d.bytes(d.Intn(2*packet+10))...)
		}
		h.failN = d.Intn(6)
		handshake.With(&handshake.Param{Conn: h}).Handshake()
		// control messages and headers
		for t := byte(1); t <= 6; t++ {
			r, _ := d.reader(raw[:d.Intn(len(raw)+1)])
			blank(t).Read(r)
			s := &sink{failN: 1 + d.Intn(2)}
			blank(t).Write(s)
		}
		for i := 0; i < 4; i++ {
			r, _ := d.reader(raw[:d.Intn(len(raw)+1)])
			h := new(chunk.Header)
			h.Read(r)
		}
		hd := d.header(byte(d.Intn(4)))
		hd.MessageHeader.TypeId = byte(d.Intn(16))
		control.NewParser().Parse(chunk.New(&hd, raw[:d.Intn(min(len(raw)+1, 8))]))
		mediaCrash(d, raw)
	}
}

// ---- C09 and C15: where the input is cut, and in which pieces it comes

func truncation(d *D, cutting bool) {
	for d.more() {
		// a header
		h := d.header(byte(d.Intn(4)))
		enc := hdrEnc(h)
		cut := len(enc)
		if cutting && d.Intn(2) == 0 {
			cut = d.Intn(len(enc))
		}
		got := chunk.Header{}
		in := append([]byte{}, enc[:cut]...)
		tail := []byte{}
		if cut == len(enc) && d.Intn(2) == 0 {
			tail = d.bytes(d.Intn(6))
		}
		d.set("header bytes %x then %x", in, tail)
		r, fr := d.reader(append(in, tail...))
		mode, end := fr.mode, fr.end
		err := got.Read(r)
		desc := fmt.Sprintf("header %+v is %x; %d bytes of it and then %x arrive (pieces mode %d, then %v)", h, enc, cut, tail, mode, end)
		if (err == nil) != (cut == len(enc)) {
			d.fail("%s: error %v", desc, err)
		}
		if err == nil && (!bytes.Equal(fr.b, tail)) {
			d.fail("%s: left unread %x", desc, fr.b)
		}
		if w, _ := hdrDec(chunk.Header{}, enc); err == nil && got != w {
			d.fail("%s: read as %+v", desc, got)
		}
		// a control message
		_, t, cenc := d.control()
		ccut := len(cenc)
		if cutting && d.Intn(2) == 0 {
			ccut = d.Intn(len(cenc) + 1)
		}
		d.set("control message type %d bytes %x", t, cenc[:ccut])
		controlDecode(d, t, cenc[:ccut], nil)
		// a handshake packet
		if d.Intn(4) == 0 {
			pk := d.bytes(packet)
			pcut := packet
			if cutting && d.Intn(2) == 0 {
				pcut = []int{0, 1, 3, 4, 5, 7, 8, 9, packet - 1, d.Intn(packet)}[d.Intn(10)]
			}
			r, fr := d.reader(pk[:pcut])
			a := new(handshake.AckPacket)
			err := a.Read(r)
			if (err == nil) != (pcut == packet) {
				d.fail("%d of %d bytes of a handshake packet %x (pieces mode %d, then %v): error %v", pcut, packet, pk, fr.mode, fr.end, err)
			}
			if err == nil && !bytes.Equal(a.Payload[:], pk[8:]) {
				d.fail("handshake packet %x (pieces mode %d): read %x", pk, fr.mode, a.Payload)
			}
		}
		// a stream of chunks
		size := 1 + d.Intn(40)
		ref := newRef(size)
		var wire []byte
		done := []int{}
		for k := 0; k < 1+d.Intn(5); k++ {
			id := []uint32{2, 3, 64, 400}[d.Intn(4)]
			f := byte(0)
			if _, ok := ref.last[id]; ok {
				f = byte(d.Intn(4))
			}
			if ref.cur[id] != nil {
				f = 3
			}
			h := d.header(f)
			h.BasicHeader.StreamId = id
			h.MessageHeader.Length = 0
			if f <= 1 {
				h.MessageHeader.Length = uint32(d.Intn(3 * size))
				if h.MessageHeader.TypeId == 1 {
					h.MessageHeader.TypeId = 9
				}
			}
			if f == 3 {
				h.ExtendedTimestamp.Delta = 0
				if ref.last[id].MessageHeader.Timestamp == 0xffffff {
					h.ExtendedTimestamp.Delta = ref.last[id].ExtendedTimestamp.Delta
				}
			}
			n := len(ref.out)
			wire = append(wire, ref.chunk(h, d.bytes)...)
			if len(ref.out) > n {
				done = append(done, len(wire))
			}
		}
		wcut := len(wire)
		if cutting && d.Intn(4) > 0 {
			wcut = d.Intn(len(wire) + 1)
		}
		want := 0
		for want < len(done) && done[want] <= wcut {
			want++
		}
		d.set("chunk size %d, bytes %x", size, wire[:wcut])
		res := d.readAll(wire[:wcut], size)
		desc = fmt.Sprintf("chunk size %d, bytes %x and then the end of the input", size, wire[:wcut])
		if res.stuck || res.err == nil {
			d.fail("%s: no error is reported", desc)
		}
		for i, m := range res.msgs {
			if i >= want {
				d.fail("%s: %d messages are complete, but another one is delivered: %s", desc, want, show(m))
			}
			if w := ref.out[i]; m == nil || m.Header == nil || *m.Header != w.h || !bytes.Equal(m.Data, w.data) {
				d.fail("%s: message %d is %s; expected header %+v, payload %x", desc, i, show(m), w.h, w.data)
			}
		}
		if len(res.msgs) < want {
			d.fail("%s: %d messages are complete, %d are delivered (error %v)", desc, want, len(res.msgs), res.err)
		}
	}
}

// ---- C11

type scriptReader struct {
	chunks chan *chunk.Chunk
	errs   chan error
	closed chan struct{}
	recv   chan struct{}
}

func newScript() *scriptReader {
	return &scriptReader{make(chan *chunk.Chunk), make(chan error), make(chan struct{}, 10), make(chan struct{}, 10)}
}
func (s *scriptReader) Recv()                       { s.recv <- struct{}{} }
func (s *scriptReader) ReadSize() int               { return 128 }
func (s *scriptReader) SetReadSize(int)             {}
func (s *scriptReader) Chunks() <-chan *chunk.Chunk { return s.chunks }
func (s *scriptReader) Errs() <-chan error          { return s.errs }
func (s *scriptReader) Close()                      { s.closed <- struct{}{} }

// the same call from several goroutines at once
func registryRace(d *D) {
	p := chunk.NewParser(newScript())
	for r := 0; r < 30; r++ {
		ids := []uint32{uint32(3 * r), uint32(3*r + 1)}[:1+d.Intn(2)]
		const n = 4
		var got [n]chunk.Stream
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[g], _ = p.Stream(ids...)
			}()
		}
		d.set("Stream%v from %d goroutines at once", ids, n)
		close(start)
		wg.Wait()
		ok := 0
		for g := 0; g < n; g++ {
			if got[g] != nil {
				ok++
			}
			if len(ids) == 1 && got[g] != got[0] {
				d.fail("Stream%v from %d goroutines at once: two different streams", ids, n)
			}
		}
		if len(ids) == 2 && ok != 1 {
			d.fail("Stream%v from %d goroutines at once: %d succeed", ids, n, ok)
		}
	}
}

func registryDriver(d *D) {
	for d.more() {
		if d.Intn(4) == 0 {
			registryRace(d)
			continue
		}
		sr := newScript()
		p := chunk.NewParser(sr)
		reg := map[uint32]<-chan *chunk.Chunk{} // output of each ID
		single := map[uint32]chunk.Stream{}
		merged := 0
		steps := ""
		n := uint32(2 + d.Intn(8))
		for i := 0; i < 1+d.Intn(10); i++ {
			var ids []uint32
			for k := d.Intn(5); k > 0; k-- {
				ids = append(ids, uint32(d.Int63n(int64(n))))
			}
			if d.Intn(3) == 0 {
				ids = []uint32{uint32(d.Int63n(int64(n)))}
			}
			steps += fmt.Sprintf("Stream%v ", ids)
			d.set("%s", steps)
			keep := append([]uint32{}, ids...)
			s, err := p.Stream(ids...)
			if fmt.Sprint(keep) != fmt.Sprint(ids) {
				d.fail("%s: changed the list to %v", steps, ids)
			}
			bad := len(ids) == 0
			seen := map[uint32]bool{}
			for _, id := range ids {
				if len(ids) > 1 && (reg[id] != nil || seen[id]) {
					bad = true
				}
				seen[id] = true
			}
			if bad {
				if err == nil || s != nil {
					d.fail("%s: the last call returned %v, %v", steps, s, err)
				}
				continue
			}
			if err != nil || s == nil || s.In() == nil {
				d.fail("%s: the last call returned %v, %v", steps, s, err)
			}
			if len(ids) == 1 {
				id := ids[0]
				if o := single[id]; o != nil && o != s {
					d.fail("%s: stream %d is another one than before", steps, id)
				}
				for o, c := range single {
					if o != id && (c == s || c.In() == s.In()) {
						d.fail("%s: streams %d and %d are the same", steps, o, id)
					}
				}
				single[id] = s
				if reg[id] == nil {
					reg[id] = s.In()
				}
				continue
			}
			merged++
			for _, id := range ids {
				reg[id] = s.In()
			}
		}
		// who is registered shows in where chunks go; unregistered IDs must still be free
		go p.Recv()
		recvT(sr.recv, short)
		for id := uint32(0); id < n; id++ {
			if reg[id] == nil {
				steps += fmt.Sprintf("Stream[%d] ", id)
				s, err := p.Stream(id)
				if err != nil {
					d.fail("%s: %v", steps, err)
				}
				reg[id] = s.In()
				for o, c := range reg {
					if o != id && c == reg[id] {
						d.fail("%s: streams %d and %d are the same", steps, o, id)
					}
				}
			}
			c := chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}}, nil)
			d.set("%s then a chunk on %d", steps, id)
			if !sendT(sr.chunks, c, short) {
				d.fail("%s: a chunk on %d is not taken", steps, id)
			}
			g, _, ok := recvT(reg[id], short)
			if !ok || g != c {
				d.fail("%s: a chunk on %d does not arrive on its stream (got %s)", steps, id, show(g))
			}
		}
	}
}

// ---- C12

func routingDriver(d *D) {
	for d.more() {
		sr := newScript()
		p := chunk.NewParser(sr)
		n := 1 + d.Intn(5)
		var ids []uint32
		outs := map[uint32]<-chan *chunk.Chunk{}
		for i := 0; i < n; i++ {
			id := d.header(0).BasicHeader.StreamId
			if outs[id] != nil {
				continue
			}
			s, err := p.Stream(id)
			if err != nil {
				d.fail("Stream(%d): %v", id, err)
			}
			outs[id] = s.In()
			ids = append(ids, id)
		}
		ended := make(chan struct{})
		go func() { p.Recv(); close(ended) }()
		if _, _, ok := recvT(sr.recv, short); !ok {
			d.fail("the reader is not started")
		}
		steps := fmt.Sprintf("streams %v: ", ids)
		quiet := func() {
			for _, id := range ids {
				if !quietT(outs[id]) {
					d.fail("%s: something more arrives on stream %d", steps, id)
				}
			}
			if !quietT(p.Errs()) {
				d.fail("%s: something more arrives on the error channel", steps)
			}
			if len(sr.recv) > 0 || len(sr.closed) > 0 {
				d.fail("%s: the reader is started again or closed", steps)
			}
		}
		for i := 0; i < 1+d.Intn(12); i++ {
			if d.Intn(12) == 0 {
				// a consumer that takes its time: nothing is lost, and the order stays
				id := ids[d.Intn(len(ids))]
				k := 2 + d.Intn(4)
				var cs []*chunk.Chunk
				for j := 0; j < k; j++ {
					h := d.header(0)
					h.BasicHeader.StreamId = id
					cs = append(cs, chunk.New(&h, []byte{byte(j)}))
				}
				steps += fmt.Sprintf("[%d chunks on %d, taken late]", k, id)
				d.set("%s", steps)
				go func() {
					for _, c := range cs {
						sendT(sr.chunks, c, short)
					}
				}()
				time.Sleep(time.Duration(1+d.Intn(3)) * time.Millisecond)
				if d.Intn(20) == 0 {
					time.Sleep(200 * time.Millisecond)
				}
				for j, c := range cs {
					if g, open, ok := recvT(outs[id], short); !ok || !open || g != c {
						d.fail("%s: chunk %d of them is not the next to arrive (got %s)", steps, j, show(g))
					}
				}
				continue
			}
			if d.Intn(4) == 0 {
				e := errors.New("reader error")
				if d.Intn(4) == 0 {
					e = io.EOF
				}
				steps += "[error]"
				d.set("%s", steps)
				if !sendT(sr.errs, e, short) {
					d.fail("%s: the error is not taken", steps)
				}
				g, open, ok := recvT(p.Errs(), short)
				if !ok || !open || g != e {
					d.fail("%s: the error is not forwarded (got %v)", steps, g)
				}
			} else {
				id := ids[d.Intn(len(ids))]
				h := d.header(0)
				h.BasicHeader.StreamId = id
				c := chunk.New(&h, d.bytes(d.Intn(4)))
				if d.Intn(6) == 0 {
					c.Data = nil
				}
				snap := show(c)
				steps += fmt.Sprintf("[chunk on %d]", id)
				d.set("%s", steps)
				if !sendT(sr.chunks, c, short) {
					d.fail("%s: the chunk is not taken", steps)
				}
				g, open, ok := recvT(outs[id], short)
				if !ok || !open || g != c {
					d.fail("%s: the chunk does not arrive (got %s)", steps, show(g))
				}
				if show(g) != snap {
					d.fail("%s: the chunk was changed: %s became %s", steps, snap, show(g))
				}
			}
			if d.Intn(8) == 0 {
				quiet()
			}
		}
		quiet()
		steps += "[close]"
		d.set("%s", steps)
		cl := make(chan struct{})
		go func() { p.Close(); close(cl) }()
		if _, _, ok := recvT(sr.closed, short); !ok {
			d.fail("%s: the reader is not closed", steps)
		}
		if _, _, ok := recvT(cl, short); !ok {
			d.fail("%s: Close does not return", steps)
		}
		if _, _, ok := recvT(ended, short); !ok {
			d.fail("%s: Recv does not return", steps)
		}
		if _, open, ok := recvT(p.Errs(), short); open || !ok {
			d.fail("%s: the error channel is not closed", steps)
		}
		for _, id := range ids {
			if _, open, ok := recvT(outs[id], short); open || !ok {
				d.fail("%s: stream %d is not closed", steps, id)
			}
		}
		if len(sr.closed) > 0 {
			d.fail("%s: the reader is closed twice", steps)
		}
	}
}

// ---- C13

func mergeDriver(d *D) {
	for d.more() {
		m := chunk.NewMultiStream()
		n := 1 + d.Intn(5)
		var src []chan *chunk.Chunk
		steps := ""
		for len(src) < n {
			k := 1 + d.Intn(n-len(src))
			var ss []chunk.Stream
			for i := 0; i < k; i++ {
				c := make(chan *chunk.Chunk)
				src = append(src, c)
				ss = append(ss, &chanStream{c})
			}
			steps += fmt.Sprintf("Append(%d streams) ", k)
			d.set("%s", steps)
			if m.Append(ss...) != m {
				d.fail("%s: returned another merged stream", steps)
			}
		}
		wait := make(chan struct{})
		waiting := false
		open := n
		for open > 0 || !waiting {
			if !waiting && (open == 0 || d.Intn(6) == 0) {
				waiting = true
				steps += "AwaitClose "
				go func() { defer func() { recover(); close(wait) }(); m.AwaitClose() }()
				continue
			}
			i := d.Intn(n)
			if src[i] == nil {
				continue
			}
			if d.Intn(4) == 0 {
				steps += fmt.Sprintf("[%d closes]", i)
				d.set("%s", steps)
				if waiting {
					select {
					case <-wait:
						d.fail("%s: AwaitClose returned before", steps)
					case <-time.After(time.Millisecond):
					}
				}
				close(src[i])
				src[i] = nil
				open--
				continue
			}
			c := chunk.New(&chunk.Header{}, d.bytes(d.Intn(4)))
			if d.Intn(6) == 0 {
				c = chunk.New(&chunk.Header{}, nil)
			}
			snap := show(c)
			steps += fmt.Sprintf("[chunk on %d]", i)
			d.set("%s", steps)
			if !sendT(src[i], c, short) {
				d.fail("%s: the chunk is not taken", steps)
			}
			if d.Intn(60) == 0 {
				// the consumer takes its time
				steps += "[late]"
				time.Sleep(time.Duration(20+d.Intn(200)) * time.Millisecond)
			}
			// a second forwarder would take the next chunk at once
			var extra *chunk.Chunk
			if d.Intn(6) == 0 {
				extra = chunk.New(&chunk.Header{}, nil)
				select {
				case src[i] <- extra:
					steps += "[another]"
				case <-time.After(time.Millisecond):
					extra = nil
				}
			}
			g, op, ok := recvT(m.In(), short)
			if !ok || !op || g != c || show(g) != snap {
				d.fail("%s: it does not come out (got %s, closed %v)", steps, show(g), ok && !op)
			}
			if extra != nil {
				if g, op, ok := recvT(m.In(), short); !ok || !op || g != extra {
					d.fail("%s: the second one does not come out", steps)
				}
			}
			if d.Intn(8) == 0 && !quietT(m.In()) {
				d.fail("%s: something more comes out", steps)
			}
		}
		d.set("%s", steps)
		if _, op, ok := recvT(m.In(), short); op || !ok {
			d.fail("%s: the merged stream is not closed", steps)
		}
		if _, _, ok := recvT(wait, short); !ok {
			d.fail("%s: AwaitClose does not return", steps)
		}
	}
}

// ---- C14 (built with the race detector)

func lockDriver(d *D) {
	for d.more() {
		d.set("operations from several goroutines at once")
		size := 1 + d.Intn(50)
		ref := newRef(size)
		var wire []byte
		for k := 0; k < 10; k++ {
			id := []uint32{2, 3, 64}[d.Intn(3)]
			h := d.header(0)
			h.BasicHeader.StreamId = id
			h.MessageHeader.Timestamp, h.ExtendedTimestamp.Delta = 5, 0
			h.MessageHeader.Length = uint32(d.Intn(3 * size))
			if ref.cur[id] != nil {
				h = chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: 3, StreamId: id}, MessageHeader: chunk.MessageHeader{FormatId: 3}}
			}
			if d.Intn(3) == 0 && ref.cur[id] == nil {
				h.MessageHeader.TypeId, h.MessageHeader.Length = 1, 4
			}
			wire = append(wire, ref.chunk(h, func(n int) []byte { return append([]byte{0, 0, 0, 9}, d.bytes(n)...)[:n] })...)
		}
		norm := chunk.NewNormalizer()
		r := chunk.NewReader(&frag{d: &D{Rand: d.Rand}, b: wire, end: io.EOF}, size, norm)
		w := chunk.NewWriter(lockedSink{}, size)
		b := chunk.NewBuilder(&chunk.Header{})
		p := chunk.NewParser(newScript())
		end := make(chan struct{})
		finished := make(chan struct{})
		var wg sync.WaitGroup
		worker := func(f func(rnd uint32)) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := uint32(0); i < 30; i++ {
					f(i)
				}
			}()
		}
		go r.Recv()
		drained := make(chan struct{})
		go func() {
			defer close(drained)
			for {
				select {
				case <-r.Chunks():
				case <-r.Errs():
					return
				case <-end:
					return
				}
			}
		}()
		worker(func(i uint32) { r.ReadSize(); r.SetReadSize(size) })
		worker(func(i uint32) { r.ReadSize(); r.SetReadSize(size) })
		for k := 0; k < 2; k++ {
			worker(func(i uint32) { w.SetWriteSize(int(i + 1)); w.WriteSize() })
			worker(func(i uint32) { w.Write(chunk.New(&chunk.Header{}, make([]byte, 50))) })
			worker(func(i uint32) {
				norm.Normalize(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: i % 3}})
				norm.Normalize(&chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: byte(i % 4), StreamId: i % 3}, MessageHeader: chunk.MessageHeader{FormatId: byte(i % 4)}})
			})
			worker(func(i uint32) { b.Append([]byte{1}); b.BytesLeft(); b.AddLeft(1); b.Build() })
			worker(func(i uint32) { p.Stream(i % 5); p.Stream(i, i+1); p.Stream() })
		}
		// unusual arguments, on objects of their own
		r2 := chunk.NewReader(&frag{d: &D{Rand: d.Rand}, end: io.EOF}, size, norm)
		w2 := chunk.NewWriter(lockedSink{}, size)
		b2 := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: 1000}})
		odd := []int{0, -1, 1, 1 << 31, -1 << 31, int(d.num(1 << 32))}
		for k := 0; k < 2; k++ {
			worker(func(i uint32) { r2.SetReadSize(odd[i%6]); r2.ReadSize() })
			worker(func(i uint32) { w2.SetWriteSize(odd[i%6]); w2.WriteSize() })
			worker(func(i uint32) { b2.AddLeft(odd[i%6]); b2.BytesLeft(); b2.Append(nil); b2.Append([]byte{}) })
		}
		go func() { wg.Wait(); close(finished) }()
		if _, _, ok := recvT(finished, limit); !ok {
			d.fail("size changes, writes, normalisation, building and stream lookup from several goroutines: they do not finish")
		}
		if _, _, ok := recvT(drained, limit); !ok {
			d.fail("reading while the chunk size is changed does not finish")
		}
		close(end)
	}
}

type lockedSink struct{}

func (lockedSink) Write(b []byte) (int, error) { return len(b), nil }
