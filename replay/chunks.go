package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
)

func init() {
	drivers["C03"] = writerDriver
	drivers["C04"] = writeReadDriver
	drivers["C05"] = func(d *D) { streamDriver(d, "C05") }
	drivers["C06"] = func(d *D) { normalizerDriver(d) }
	drivers["C07"] = func(d *D) { streamDriver(d, "C07") }
}

const limit = 20 * time.Second

// the oracle's own cutting of a message into chunks
func msgEnc(h chunk.Header, data []byte, n int) []byte {
	b := hdrEnc(h)
	for len(data) > n {
		b = append(b, data[:n]...)
		data = data[n:]
		b = append(b, basicEnc(3, h.BasicHeader.StreamId)...)
		if h.MessageHeader.Timestamp == 0xffffff {
			b = append(b, be(uint64(h.ExtendedTimestamp.Delta), 4)...)
		}
	}
	return append(b, data...)
}

func (d *D) size() int {
	switch d.Intn(6) {
	case 0:
		return 1
	case 1:
		return 128
	case 2:
		return 1 + d.Intn(4)
	case 3:
		return 1 + d.Intn(70000)
	}
	return 1 + d.Intn(300)
}
func (d *D) plen(size int) int {
	switch d.Intn(6) {
	case 0:
		return 0
	case 1:
		return size % 5000
	case 2:
		return (size*(1+d.Intn(3)) + d.Intn(3) - 1) % 5000
	case 3:
		return d.Intn(4)
	case 4:
		if d.Intn(30) == 0 {
			return 4000 + d.Intn(200000)
		}
	}
	return d.Intn(700)
}

func show(c *chunk.Chunk) string {
	if c == nil {
		return "nil"
	}
	if c.Header == nil {
		return fmt.Sprintf("no header, payload %x", c.Data)
	}
	return fmt.Sprintf("header %+v, payload (%d bytes) %x", *c.Header, len(c.Data), c.Data)
}

func writerDriver(d *D) {
	for d.more() {
		size := d.size()
		s := &sink{}
		w := chunk.NewWriter(s, size)
		var want []byte
		for k := 0; k < 1+d.Intn(4); k++ {
			if d.Intn(4) == 0 {
				size = d.size()
				w.SetWriteSize(size)
			}
			if w.WriteSize() != size {
				d.fail("the chunk size was set to %d but is %d", size, w.WriteSize())
			}
			h := d.header(byte(d.Intn(4)))
			data := d.bytes(d.plen(size))
			if h.MessageHeader.FormatId <= 1 && d.Intn(4) > 0 {
				h.MessageHeader.Length = uint32(len(data))
			}
			g, keep := h, append([]byte{}, data...)
			d.set("writing header %+v with %d payload bytes %x in chunks of %d", h, len(data), data, size)
			if d.Intn(6) == 0 {
				fs := &sink{failN: 1 + d.Intn(2), short: d.Intn(2) == 0}
				fw := chunk.NewWriter(fs, size)
				err := fw.Write(chunk.New(&g, data))
				if (fs.failN == -1) != (err != nil) {
					d.fail("header %+v, payload %x, chunk size %d: the destination failed=%v but Write returned %v", h, data, size, fs.failN == -1, err)
				}
			}
			calls := len(s.calls)
			done := make(chan error, 1)
			go func() { done <- w.Write(chunk.New(&g, data)) }()
			err, _, ok := recvT(done, limit)
			if !ok {
				d.fail("writing header %+v with %d payload bytes in chunks of %d does not terminate", h, len(data), size)
			}
			if err != nil {
				d.fail("writing header %+v, payload %x in chunks of %d: %v", h, data, size, err)
			}
			one := msgEnc(h, data, size)
			want = append(want, one...)
			if !bytes.Equal(s.all(), want) {
				d.fail("header %+v, payload %x, chunk size %d: written %x, expected %x", h, data, size, bytes.Join(s.calls[calls:], nil), one)
			}
			if len(s.calls) > calls+1 {
				d.fail("header %+v, payload of %d bytes, chunk size %d: handed to the destination in %d writes", h, len(data), size, len(s.calls)-calls)
			}
			if g != h || !bytes.Equal(keep, data) {
				d.fail("writing changed the message: header %+v became %+v, payload %x became %x", h, g, keep, data)
			}
		}
	}
}

// run a reader over b until it reports an error (the input is finite)
type readResult struct {
	msgs  []*chunk.Chunk
	snaps []string // rendering of each message when it was delivered
	err   error
	rest  []byte
	size  int
	stuck bool
}

func (d *D) readAll(b []byte, size int) readResult {
	src, fr := d.reader(b)
	r := chunk.NewReader(src, size, chunk.NewNormalizer())
	ended := make(chan struct{})
	go func() { r.Recv(); close(ended) }()
	var res readResult
	for {
		tm := time.NewTimer(limit)
		select {
		case c := <-r.Chunks():
			res.msgs = append(res.msgs, c)
			res.snaps = append(res.snaps, show(c))
			tm.Stop()
			continue
		case err := <-r.Errs():
			res.err = err
		case <-tm.C:
			res.stuck = true
			return res
		}
		tm.Stop()
		break
	}
	res.rest = append([]byte{}, fr.b...)
	res.size = r.ReadSize()
	closed := make(chan struct{})
	go func() { r.Close(); close(closed) }()
	for {
		select {
		case <-r.Errs():
			continue
		case <-r.Chunks():
			continue
		case <-closed:
		case <-time.After(limit):
			res.stuck = true
			return res
		}
		break
	}
	select {
	case <-ended:
	case <-r.Errs():
	case <-time.After(limit):
		res.stuck = true
	}
	return res
}

func writeReadDriver(d *D) {
	for d.more() {
		size := d.size()
		s := &sink{}
		w := chunk.NewWriter(s, size)
		var hs []chunk.Header
		var ps [][]byte
		for k := 0; k < 1+d.Intn(3); k++ {
			h := d.header(0)
			p := d.bytes(d.plen(size))
			h.MessageHeader.Length = uint32(len(p))
			if h.MessageHeader.TypeId == 1 {
				h.MessageHeader.TypeId = 2
			}
			hs, ps = append(hs, h), append(ps, p)
			g := h
			d.set("chunk size %d, message %d: header %+v, payload %x", size, k, h, p)
			if err := w.Write(chunk.New(&g, p)); err != nil {
				d.fail("writing header %+v, payload %x, chunk size %d: %v", h, p, size, err)
			}
		}
		tail := []byte{}
		if d.Intn(2) == 0 {
			tail = d.bytes(1)
			tail[0] = tail[0]&0x3f | 1
			if tail[0] == 63 {
				tail[0] = 1
			}
		}
		res := d.readAll(append(s.all(), tail...), size)
		desc := fmt.Sprintf("chunk size %d, written %x", size, s.all())
		if res.stuck {
			d.fail("%s: the reader does not finish", desc)
		}
		if len(res.msgs) != len(hs) {
			d.fail("%s: %d messages written, %d read back (error %v)", desc, len(hs), len(res.msgs), res.err)
		}
		for i, m := range res.msgs {
			if m == nil || m.Header == nil || *m.Header != hs[i] || !bytes.Equal(m.Data, ps[i]) {
				d.fail("%s: message %d was header %+v, payload %x; read back %s", desc, i, hs[i], ps[i], show(m))
			}
		}
	}
}

// ---- chunk streams with an independent reference decoder

type refMsg struct {
	h    chunk.Header
	left int
	data []byte
}
type refReader struct {
	size int
	last map[uint32]chunk.Header
	cur  map[uint32]*refMsg
	out  []refMsg
}

func newRef(size int) *refReader {
	return &refReader{size: size, last: map[uint32]chunk.Header{}, cur: map[uint32]*refMsg{}}
}

// the bytes of one chunk with header h (as on the wire) carrying the next payload bytes from p;
// keeps the reference state in step
func (r *refReader) chunk(h chunk.Header, p func(n int) []byte) []byte {
	id := h.BasicHeader.StreamId
	b := hdrEnc(h)
	full := h
	if l, ok := r.last[id]; ok {
		switch h.BasicHeader.FormatId {
		case 1:
			full.MessageHeader.StreamId = l.MessageHeader.StreamId
		case 2:
			full.MessageHeader.StreamId = l.MessageHeader.StreamId
			full.MessageHeader.Length = l.MessageHeader.Length
			full.MessageHeader.TypeId = l.MessageHeader.TypeId
		case 3:
			full.MessageHeader = l.MessageHeader
			full.MessageHeader.FormatId = 3
			if l.MessageHeader.Timestamp == 0xffffff {
				full.ExtendedTimestamp = h.ExtendedTimestamp
				b = append(b, be(uint64(h.ExtendedTimestamp.Delta), 4)...)
			}
		}
	}
	r.last[id] = full
	m := r.cur[id]
	if m == nil {
		m = &refMsg{h: full, left: int(full.MessageHeader.Length)}
		r.cur[id] = m
	}
	n := m.left
	if n > r.size {
		n = r.size
	}
	data := p(n)
	m.data = append(m.data, data...)
	m.left -= n
	b = append(b, data...)
	if m.left == 0 {
		delete(r.cur, id)
		if m.h.MessageHeader.TypeId == 1 && len(m.data) >= 4 && binary.BigEndian.Uint32(m.data) != 0 {
			r.size = int(binary.BigEndian.Uint32(m.data))
		} else {
			r.out = append(r.out, *m)
		}
	}
	return b
}

func streamDriver(d *D, prop string) {
	for d.more() {
		size := d.size()
		if size > 200 {
			size = 128
		}
		ref := newRef(size)
		ids := []uint32{}
		for i := 0; i < 1+d.Intn(4); i++ {
			ids = append(ids, d.header(0).BasicHeader.StreamId)
		}
		var wire []byte
		steps := ""
		var bounds []int
		for k := 0; k < 1+d.Intn(14); k++ {
			id := ids[d.Intn(len(ids))]
			f := byte(0)
			if _, ok := ref.last[id]; ok {
				f = byte(d.Intn(4))
				if ref.cur[id] != nil && d.Intn(8) > 0 {
					f = 3
				}
			}
			h := d.header(f)
			h.BasicHeader.StreamId = id
			if f <= 1 {
				h.MessageHeader.Length = uint32(d.Intn(3 * size))
				if d.Intn(3) == 0 {
					h.MessageHeader.Length = uint32(d.Intn(6))
				}
				p := 8
				if prop == "C07" {
					p = 2
				}
				if d.Intn(p) == 0 {
					h.MessageHeader.TypeId = 1
					if d.Intn(3) > 0 {
						h.MessageHeader.Length = uint32(d.Intn(7))
					}
				}
			}
			if f == 3 {
				h.ExtendedTimestamp.Delta = 0
				if ref.last[id].MessageHeader.Timestamp == 0xffffff {
					h.ExtendedTimestamp.Delta = ref.last[id].ExtendedTimestamp.Delta
				}
			}
			fmtH := fmt.Sprintf("[fmt %d csid %d len %d type %d]", f, id, h.MessageHeader.Length, h.MessageHeader.TypeId)
			steps += fmtH
			wire = append(wire, ref.chunk(h, func(n int) []byte {
				b := d.bytes(n)
				if m := ref.cur[id]; m != nil && m.h.MessageHeader.TypeId == 1 {
					// chunk sizes worth trying
					v := []uint32{0, 1, 2, 3, 100, 128, 129, 5000, 0x01000000, 0x80000000, 0xffffffff}
					want := be(uint64(v[d.Intn(len(v))]), 4)
					for i := range b {
						if at := len(m.data) + i; at < 4 {
							b[i] = want[at]
						}
					}
				}
				return b
			})...)
			bounds = append(bounds, len(wire))
		}
		_ = bounds
		d.set("chunk size %d, chunks %s, bytes %x", size, steps, wire)
		desc := fmt.Sprintf("initial chunk size %d, chunks %s, bytes %x", size, steps, wire)
		res := d.readAll(wire, size)
		if res.stuck {
			d.fail("%s: the reader does not finish", desc)
		}
		for i, m := range res.msgs {
			if i >= len(ref.out) {
				d.fail("%s: delivered %d messages instead of %d; extra: %s", desc, len(res.msgs), len(ref.out), show(m))
			}
			w := ref.out[i]
			if m == nil || m.Header == nil || *m.Header != w.h || !bytes.Equal(m.Data, w.data) {
				d.fail("%s: message %d is %s; expected header %+v, payload %x", desc, i, show(m), w.h, w.data)
			}
			if res.snaps[i] != show(m) {
				d.fail("%s: message %d changed after it was delivered: %s became %s", desc, i, res.snaps[i], show(m))
			}
		}
		if len(res.msgs) < len(ref.out) {
			w := ref.out[len(res.msgs)]
			d.fail("%s: delivered %d messages instead of %d (error %v); missing: header %+v, payload %x", desc, len(res.msgs), len(ref.out), res.err, w.h, w.data)
		}
		if res.size != ref.size {
			d.fail("%s: the chunk size is %d at the end, not %d", desc, res.size, ref.size)
		}
	}
}

func normalizerDriver(d *D) {
	for d.more() {
		n := chunk.NewNormalizer()
		last := map[uint32]chunk.Header{}
		type rec struct {
			p *chunk.Header
			v chunk.Header
		}
		var seen []rec
		steps := ""
		for k := 0; k < 1+d.Intn(12); k++ {
			f := byte(d.Intn(4))
			h := d.header(f)
			h.BasicHeader.StreamId = []uint32{2, 3, 4, 64, 320, 70000}[d.Intn(6)]
			h.MessageHeader.TimestampDelta = f != 0 && f != 3
			in := h
			want := h
			l, ok := last[h.BasicHeader.StreamId]
			if ok {
				switch f {
				case 1:
					want.MessageHeader.StreamId = l.MessageHeader.StreamId
				case 2:
					want.MessageHeader.StreamId = l.MessageHeader.StreamId
					want.MessageHeader.Length = l.MessageHeader.Length
					want.MessageHeader.TypeId = l.MessageHeader.TypeId
				case 3:
					want.MessageHeader = l.MessageHeader
					want.MessageHeader.FormatId = 3
				}
			}
			steps += fmt.Sprintf("%+v ", h)
			d.set("normalising, in this order: %s", steps)
			g := n.Normalize(&in)
			if g == nil || *g != want {
				d.fail("normalising, in this order: %s: the last one becomes %+v, expected %+v", steps, g, want)
			}
			last[h.BasicHeader.StreamId] = want
			for _, r := range seen {
				if *r.p != r.v {
					d.fail("normalising, in this order: %s: the earlier header %+v was changed to %+v", steps, r.v, *r.p)
				}
			}
			seen = append(seen, rec{g, want})
		}
		// mixed with the real reader
		if d.Intn(4) == 0 {
			e := d.end
			d.end = time.Now().Add(20 * time.Millisecond)
			streamDriver(d, "C06")
			d.end = e
		}
	}
}
