package main

import (
	"bytes"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/spec"
)

func init() {
	drivers["C01"] = func(d *D) { headers(d, true) }
	drivers["C02"] = func(d *D) { headers(d, false) }
	drivers["C10"] = ints
}

func be(n uint64, k int) []byte {
	var r []byte
	for i := k - 1; i >= 0; i-- {
		r = append(r, byte(n>>(8*uint(i))))
	}
	return r
}
func le(n uint64, k int) []byte {
	var r []byte
	for i := 0; i < k; i++ {
		r = append(r, byte(n>>(8*uint(i))))
	}
	return r
}

// the oracle's own encoding of a header
func basicEnc(f byte, id uint32) []byte {
	switch {
	case id <= 62:
		return []byte{f<<6 | byte(id)}
	case id <= 319:
		return []byte{f << 6, byte(id - 64)}
	}
	return append([]byte{f<<6 | 63}, be(uint64(id-64), 2)...)
}
func hdrEnc(h chunk.Header) []byte {
	b := basicEnc(h.BasicHeader.FormatId, h.BasicHeader.StreamId)
	m := h.MessageHeader
	switch m.FormatId {
	case 0:
		b = append(b, be(uint64(m.Timestamp), 3)...)
		b = append(b, be(uint64(m.Length), 3)...)
		b = append(b, m.TypeId)
		b = append(b, le(uint64(m.StreamId), 4)...)
	case 1:
		b = append(b, be(uint64(m.Timestamp), 3)...)
		b = append(b, be(uint64(m.Length), 3)...)
		b = append(b, m.TypeId)
	case 2:
		b = append(b, be(uint64(m.Timestamp), 3)...)
	}
	if m.Timestamp == 0xffffff {
		b = append(b, be(uint64(h.ExtendedTimestamp.Delta), 4)...)
	}
	return b
}

// the oracle's own decoder: a header decoded into h (a copy), and how many bytes it took (-1: too short)
func hdrDec(h chunk.Header, s []byte) (chunk.Header, int) {
	if len(s) < 1 {
		return h, -1
	}
	f := s[0] >> 6
	h.BasicHeader.FormatId, h.MessageHeader.FormatId = f, f
	n := 1
	switch s[0] & 63 {
	case 63:
		if len(s) < 3 {
			return h, -1
		}
		h.BasicHeader.StreamId = uint32(s[1])<<8 + uint32(s[2]) + 64
		n = 3
	case 0:
		if len(s) < 2 {
			return h, -1
		}
		h.BasicHeader.StreamId = uint32(s[1]) + 64
		n = 2
	default:
		h.BasicHeader.StreamId = uint32(s[0] & 63)
	}
	k := []int{11, 7, 3, 0}[f]
	if len(s) < n+k {
		return h, -1
	}
	m := s[n : n+k]
	n += k
	if f <= 2 {
		h.MessageHeader.Timestamp = uint32(m[0])<<16 | uint32(m[1])<<8 | uint32(m[2])
		h.MessageHeader.TimestampDelta = f != 0
	}
	if f <= 1 {
		h.MessageHeader.Length = uint32(m[3])<<16 | uint32(m[4])<<8 | uint32(m[5])
		h.MessageHeader.TypeId = m[6]
	}
	if f == 0 {
		h.MessageHeader.StreamId = uint32(m[7]) | uint32(m[8])<<8 | uint32(m[9])<<16 | uint32(m[10])<<24
	}
	if h.MessageHeader.Timestamp == 0xffffff {
		if len(s) < n+4 {
			return h, -1
		}
		h.ExtendedTimestamp.Delta = uint32(s[n])<<24 | uint32(s[n+1])<<16 | uint32(s[n+2])<<8 | uint32(s[n+3])
		n += 4
	}
	return h, n
}

// a well-formed header (chunk stream ID 63 is a known finding and left out)
func (d *D) header(f byte) chunk.Header {
	id := uint32(2 + d.num(65597))
	if id == 63 {
		id = 64
	}
	h := chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: id}}
	h.MessageHeader.FormatId = f
	if f <= 2 {
		h.MessageHeader.Timestamp = uint32(d.num(0xffffff))
		h.MessageHeader.TimestampDelta = f != 0
		if h.MessageHeader.Timestamp == 0xffffff {
			h.ExtendedTimestamp.Delta = uint32(d.num(0xffffffff))
		}
	}
	if f <= 1 {
		h.MessageHeader.Length = uint32(d.num(0xffffff))
		h.MessageHeader.TypeId = byte(d.num(255))
	}
	if f == 0 {
		h.MessageHeader.StreamId = uint32(d.num(0xffffffff))
	}
	return h
}

func headers(d *D, roundTrip bool) {
	for d.more() {
		f := byte(d.Intn(4))
		h := d.header(f)
		tail := d.bytes(d.Intn(8))
		d.set("header %+v, written then read with %x behind it", h, tail)
		s := &sink{}
		g := h
		if err := g.Write(s); err != nil {
			d.fail("writing header %+v: error %v", h, err)
		}
		if g != h {
			d.fail("writing header %+v changed it to %+v", h, g)
		}
		out := s.all()
		if !bytes.Equal(out, hdrEnc(h)) {
			d.fail("header %+v is written as %x, not %x", h, out, hdrEnc(h))
		}
		r, fr := d.reader(append(append([]byte{}, out...), tail...))
		var b chunk.Header
		if err := b.Read(r); err != nil {
			d.fail("header %+v written as %x (followed by %x) is not read back: %v", h, out, tail, err)
		}
		if b != h {
			d.fail("header %+v written as %x is read back as %+v", h, out, b)
		}
		if !bytes.Equal(fr.b, tail) {
			d.fail("reading header %+v left %x unread instead of %x", h, fr.b, tail)
		}
		if roundTrip {
			continue
		}
		// a failing destination
		fs := &sink{failN: 1 + d.Intn(3), short: d.Intn(2) == 0}
		if err := g.Write(fs); (err != nil) != (fs.failN == -1) {
			d.fail("writing header %+v to a failing destination: error %v", h, err)
		}
		// arbitrary bytes
		raw := d.bytes(d.Intn(20))
		if len(raw) > 0 && d.Intn(2) == 0 {
			raw[0] = raw[0]&0xc0 | []byte{0, 1, 2, 62, 63}[d.Intn(5)]
		}
		if d.Intn(3) == 0 {
			for i := 1; i < len(raw) && i < 7; i++ {
				raw[i] = 0xff
			}
		}
		var pre chunk.Header
		if d.Intn(3) == 0 {
			pre = d.header(0)
		}
		decodeBoth(d, pre, raw)
	}
}

func decodeBoth(d *D, pre chunk.Header, raw []byte) {
	d.set("bytes %x read into header %+v", raw, pre)
	want, n := hdrDec(pre, raw)
	got := pre
	r, fr := d.reader(raw)
	err := got.Read(r)
	if n < 0 {
		if err == nil {
			d.fail("bytes %x are too short for a header, but are read as %+v", raw, got)
		}
		return
	}
	if err != nil {
		d.fail("bytes %x are not read as a header: %v", raw, err)
	}
	if got != want {
		d.fail("bytes %x are read into %+v as %+v, not %+v", raw, pre, got, want)
	}
	if !bytes.Equal(fr.b, raw[n:]) {
		d.fail("reading a header from %x leaves %x, not %x", raw, fr.b, raw[n:])
	}
}

func ints(d *D) {
	for d.more() {
		n := uint64(d.num(0xffffffff))
		d.set("integer %d", n)
		chk := func(name string, want []byte, f func(io.Writer) (int, error)) {
			s := &sink{}
			k, err := f(s)
			if err != nil || k != len(want) || !bytes.Equal(s.all(), want) {
				d.fail("%s(%d) wrote %x (n=%d, err=%v), not %x", name, n, s.all(), k, err, want)
			}
			fs := &sink{failN: 1}
			if _, err := f(fs); err == nil {
				d.fail("%s(%d): the destination's error is lost", name, n)
			}
		}
		chk("PutUint8", be(n, 1), func(w io.Writer) (int, error) { return spec.PutUint8(byte(n), w) })
		chk("PutUint16", be(n, 2), func(w io.Writer) (int, error) { return spec.PutUint16(uint16(n), w) })
		chk("PutUint24", be(n, 3), func(w io.Writer) (int, error) { return spec.PutUint24(uint32(n), w) })
		chk("PutUint32", be(n, 4), func(w io.Writer) (int, error) { return spec.PutUint32(uint32(n), w) })
		chk("LittleEndianPutUint32", le(n, 4), func(w io.Writer) (int, error) { return spec.LittleEndianPutUint32(uint32(n), w) })
		back := d.bytes(16)
		l := d.Intn(9)
		off := d.Intn(4)
		b := back[off : off+l : off+l+d.Intn(16-off-l+1)]
		d.set("decoding %x inside %x", b, back)
		keep := append([]byte{}, back...)
		var want uint64
		for _, c := range b {
			want = want<<8 | uint64(c)
		}
		same := func(name string, got uint64, w uint64) {
			if got != w {
				d.fail("%s(%x) = %d, not %d", name, b, got, w)
			}
			if !bytes.Equal(keep, back) {
				d.fail("%s(%x) changed the memory behind its argument: %x became %x", name, b, keep, back)
			}
		}
		if l <= 2 {
			same("Uint16", uint64(spec.Uint16(b)), want)
		}
		if l <= 4 {
			same("Uint32", uint64(spec.Uint32(b)), want)
			var lw uint64
			for i, c := range b {
				lw |= uint64(c) << (8 * uint(i))
			}
			lb := b
			if l < 4 && cap(b) >= 4 {
				// known finding: room for the missing bytes behind the slice is overwritten
				lb = b[:l:l]
			}
			same("LittleEndianUint32", uint64(spec.LittleEndianUint32(lb)), lw)
		}
		same("Uint64", spec.Uint64(b), want)
	}
}
