package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/handshake"
)

func init() {
	drivers["H01"] = handshakeDriver
	drivers["H02"] = handshakeDriver
	drivers["H03"] = chainDriver
}

const packet = 8 + 1528

// peer plays the client: version, C1, and, once the server's challenge has been written, C2
type peer struct {
	sink
	f    *frag
	c2   func(s1 []byte) []byte
	sent bool
}

func (p *peer) Read(b []byte) (int, error) {
	if len(p.f.b) == 0 && !p.sent && p.c2 != nil {
		w := p.all()
		if len(w) >= 1+packet {
			p.sent = true
			p.f.b = p.c2(w[1 : 1+packet])
		}
	}
	return p.f.Read(b)
}

func handshakeDriver(d *D) {
	for d.more() {
		version := byte(3)
		if d.Intn(6) == 0 {
			version = byte(d.Intn(256))
		}
		c1 := d.bytes(packet)
		cut := -1 // bytes of the peer's input that arrive
		if d.Intn(3) == 0 {
			cut = []int{0, 1, 4, 5, 8, 9, packet, 1 + packet, 1 + packet + 4, 1 + packet + 8, 1 + 2*packet - 1, d.Intn(1 + 2*packet)}[d.Intn(12)]
		}
		flip := -1
		if d.Intn(3) == 0 {
			flip = []int{0, 1, 1526, 1527, d.Intn(1528), d.Intn(1528)}[d.Intn(6)]
		}
		failN := 0
		if d.Intn(4) == 0 {
			failN = 1 + d.Intn(8)
		}
		tail := d.bytes(d.Intn(40))
		f := &frag{d: d, end: []error{io.EOF, errBroken}[d.Intn(2)], mode: d.Intn(3)}
		f.b = append([]byte{version}, c1...)
		if cut >= 0 && cut < len(f.b) {
			f.b = f.b[:cut]
		}
		var s1 []byte
		p := &peer{sink: sink{failN: failN, short: d.Intn(2) == 0}, f: f}
		t := d.bytes(8)
		mask := byte(1) << d.Intn(8)
		p.c2 = func(s []byte) []byte {
			s1 = append([]byte{}, s...)
			r := append(append([]byte{}, t...), s[8:]...)
			if flip >= 0 {
				r[8+flip] ^= mask
			}
			if cut >= 0 && cut < 1+2*packet {
				if cut <= 1+packet {
					return nil
				}
				return r[:cut-1-packet]
			}
			return append(r, tail...)
		}
		desc := fmt.Sprintf("version %d, challenge %x, at most %d bytes from the peer (-1: all), acknowledgement byte changed %d (-1: none), failing write %d, read pieces mode %d, end %v",
			version, c1, cut, flip, failN, f.mode, f.end)
		d.set("%s", desc)
		done := make(chan error, 1)
		go func() { done <- handshake.With(&handshake.Param{Conn: p}).Handshake() }()
		err, _, ok := recvT(done, limit)
		if !ok {
			d.fail("%s: the handshake does not finish", desc)
		}
		w := p.all()
		short := cut >= 0 && cut < 1+2*packet
		want := version == 3 && !short && flip < 0 && p.failN != -1
		if (err == nil) != want {
			d.fail("%s: the handshake returned %v", desc, err)
		}
		if (version != 3 || cut == 0) && len(p.calls) > 0 {
			d.fail("%s: wrote %x before refusing", desc, w)
		}
		if p.failN == -1 {
			continue
		}
		if err == nil && !bytes.Equal(f.b, tail) {
			d.fail("%s: the handshake left %x unread; after it came %x", desc, f.b, tail)
		}
		if version == 3 && (cut < 0 || cut >= 1+packet) {
			if len(w) != 1+2*packet || w[0] != 3 || !bytes.Equal(w[1+packet:5+packet], c1[:4]) || !bytes.Equal(w[1+packet+8:], c1[8:]) {
				d.fail("%s: answered with %d bytes %x", desc, len(w), w)
			}
			if s1 != nil && !bytes.Equal(w[1:1+packet], s1) {
				d.fail("%s: the challenge on the wire changed", desc)
			}
		}
		// the packet on its own
		a := new(handshake.AckPacket)
		pk := d.bytes(packet)
		r, fr := d.reader(append(append([]byte{}, pk...), tail...))
		if err := a.Read(r); err != nil {
			d.fail("reading packet %x: %v", pk, err)
		}
		if !bytes.Equal(fr.b, tail) || !bytes.Equal(be(uint64(a.Time1), 4), pk[:4]) || !bytes.Equal(be(uint64(a.Time2), 4), pk[4:8]) || !bytes.Equal(a.Payload[:], pk[8:]) {
			d.fail("packet %x read as %d %d %x with %x left", pk, a.Time1, a.Time2, a.Payload, fr.b)
		}
		s := &sink{}
		if err := a.Write(s); err != nil || !bytes.Equal(s.all(), pk) {
			d.fail("packet %x written as %x (%v)", pk, s.all(), err)
		}
		// the server's side of the challenge with packets of its own
		c := &handshake.ClientAckSequence{C1: new(handshake.AckPacket), S1: a}
		r, _ = d.reader(c1)
		s = &sink{}
		if err := c.Read(r); err != nil {
			d.fail("reading challenge %x: %v", c1, err)
		}
		if err := c.WriteTo(s); err != nil {
			d.fail("answering challenge %x: %v", c1, err)
		}
		if w := s.all(); len(w) != 2*packet || !bytes.Equal(w[:packet], pk) || !bytes.Equal(w[packet:packet+4], c1[:4]) || !bytes.Equal(w[packet+8:], c1[8:]) {
			d.fail("own challenge %x, peer's challenge %x: answered with %x", pk, c1, w)
		}
	}
}

type step struct {
	log        *[]string
	id         int
	rerr, werr error
	next       handshake.Sequence
	rw         io.ReadWriter
}

func (s *step) Read(r io.Reader) error {
	*s.log = append(*s.log, fmt.Sprint("read", s.id))
	if r != io.Reader(s.rw) {
		*s.log = append(*s.log, "(from another connection)")
	}
	return s.rerr
}
func (s *step) WriteTo(w io.Writer) error {
	*s.log = append(*s.log, fmt.Sprint("write", s.id))
	if w != io.Writer(s.rw) {
		*s.log = append(*s.log, "(to another connection)")
	}
	return s.werr
}
func (s *step) Next() handshake.Sequence {
	*s.log = append(*s.log, fmt.Sprint("next", s.id))
	return s.next
}

func chainDriver(d *D) {
	for d.more() {
		n := 1 + d.Intn(6)
		if d.Intn(8) == 0 {
			n = 1 + d.Intn(300)
		}
		var log, want []string
		rw := &bytes.Buffer{}
		bad, side := -1, d.Intn(2)
		if d.Intn(2) == 0 {
			bad = d.Intn(n)
		}
		e := errors.New("step failed")
		if d.Intn(3) == 0 {
			e = io.EOF
		}
		var first handshake.Sequence
		var wantErr error
		for i := n - 1; i >= 0; i-- {
			s := &step{log: &log, id: i, rw: rw, next: first}
			if i == bad && side == 0 {
				s.rerr = e
			}
			if i == bad && side == 1 {
				s.werr = e
			}
			first = s
		}
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprint("read", i))
			if i == bad && side == 0 {
				wantErr = e
				break
			}
			want = append(want, fmt.Sprint("write", i))
			if i == bad {
				wantErr = e
				break
			}
			want = append(want, fmt.Sprint("next", i))
		}
		desc := fmt.Sprintf("%d steps, step %d failing (-1: none) when reading (0) or writing (1): %d", n, bad, side)
		d.set("%s", desc)
		done := make(chan error, 1)
		go func() { done <- handshake.With(&handshake.Param{Conn: rw, Initial: first}).Handshake() }()
		err, _, ok := recvT(done, limit)
		if !ok {
			d.fail("%s: does not finish", desc)
		}
		if err != wantErr {
			d.fail("%s: returned %v, expected %v", desc, err, wantErr)
		}
		if fmt.Sprint(log) != fmt.Sprint(want) {
			d.fail("%s: did %v, expected %v", desc, log, want)
		}
		// without an initial step
		v := byte(d.Intn(5))
		f := &frag{d: d, b: []byte{v}, end: errBroken}
		p := &peer{f: f}
		err = handshake.With(&handshake.Param{Conn: p}).Handshake()
		if err == nil || (v == 3) != bytes.Equal(p.all(), []byte{3}) || (v != 3 && len(p.calls) > 0) {
			d.fail("no initial step, peer sends version %d and nothing else: returned %v, wrote %x", v, err, p.all())
		}
	}
}
