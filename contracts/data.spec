# Package data: media frames and the data stream.

func cmd/data.Audio.Id(a) (t)
  props D01
  ensures [audio] {D01} t == 8
end
func cmd/data.Video.Id(v) (t)
  props D01
  ensures [video] {D01} t == 9
end
func cmd/data.DataFrame.Id(d) (t)
  props D01
  ensures [data] {D01} t == 18
end

func cmd/data.data.Read(d, c) (err)
  props D01, C09
  requires c != nil && c.Header != nil
  modifies d.*
  ensures [an empty payload is an error, and only that] {D01,C09} err != nil <==> len(c.Data) == 0
  ensures [the chunk's header and payload are kept] {D01} err == nil ==> d.header == c.Header && sameArray(d.data, c.Data) && len(d.data) == len(c.Data) && elems(d.data) == elems(c.Data)
end
func cmd/data.data.Control(d) (b)
  props D01
  requires len(d.data) >= 1
  ensures [the first byte] {D01} b == d.data[0]
end
func cmd/data.data.Payload(d) (p)
  props D01
  requires len(d.data) >= 1
  ensures [the rest] {D01} elems(p) == elems(d.data)[1:]
end
func cmd/data.data.Marshal(d) (c, err)
  props D01
  ensures [the same header, the same payload] {D01} err == nil && c != nil && fresh(c) && c.Header == d.header && elems(c.Data) == elems(d.data)
end

func cmd/data.Audio.Codec(a) (n)
  props D02
  requires len(a.data.data) >= 1
  ensures [bits 7-4] {D02} n == a.data.data[0] / 16
end
func cmd/data.Audio.Type(a) (n)
  props D02
  requires len(a.data.data) >= 1
  ensures [bit 0] {D02} n == a.data.data[0] % 2
end
func cmd/data.Audio.Size(a) (n)
  props D02
  requires len(a.data.data) >= 1
  ensures [bit 1, shifted by the recorded finding: 16 or 24 in place of 8 or 16] {D02} n == 8 * (1 + (a.data.data[0] / 2) % 2) || n == 8 * (2 + (a.data.data[0] / 2) % 2)
end
func cmd/data.Video.Codec(v) (n)
  props D02
  requires len(v.data.data) >= 1
  ensures [bits 3-0] {D02} n == v.data.data[0] % 16
end
func cmd/data.Video.Type(v) (n)
  props D02
  requires len(v.data.data) >= 1
  ensures [bits 7-4] {D02} n == v.data.data[0] / 16
end

# the parser that knows the three kinds
func cmd/data.DefaultParser.Parse(p, c) (d, err)
  props D01, N01
  impl cmd/data.Parser.Parse
  requires c != nil && c.Header != nil
  let t = c.Header.MessageHeader.TypeId
  ensures [the kind is chosen by the type ID] {D01} err == nil ==> (t == 8 && is(d, *cmd/data.Audio)) || (t == 9 && is(d, *cmd/data.Video)) || (t == 18 && is(d, *cmd/data.DataFrame))
  ensures [any other type is an error] {D01} t != 8 && t != 9 && t != 18 ==> err != nil
  ensures [an error comes without a frame] {D01} err != nil ==> d == nil
  ensures [an audio or video frame needs a payload, and nothing else] {D01} t == 8 || t == 9 ==> (err == nil <==> len(c.Data) >= 1)
end

func cmd/data.DataFrame.Marshal(d) (c, err)
  props D01, N01
  impl cmd/data.Data.Marshal
  ensures [framed as a data message on chunk stream 4, message stream 1] {D01} err == nil ==> c != nil && fresh(c) && c.Header != nil && fresh(c.Header)
    && c.Header.BasicHeader.FormatId == 0 && c.Header.MessageHeader.FormatId == 0 && c.Header.BasicHeader.StreamId == 4 && c.Header.MessageHeader.StreamId == 1 && c.Header.MessageHeader.TypeId == 18 && c.Header.MessageHeader.Timestamp == 0
  ensures [the payload is the marshalled frame, of the length announced] {D01} err == nil ==> ncall("amf0/encoding.Marshal") == 1 && is(callarg("amf0/encoding.Marshal", 0), *cmd/data.DataFrame) && as(callarg("amf0/encoding.Marshal", 0), *cmd/data.DataFrame) == d
    && c.Data == callres("amf0/encoding.Marshal", 0) && (len(c.Data) <= 4294967295 ==> c.Header.MessageHeader.Length == len(c.Data))
  ensures [a marshalling error is returned unchanged, without a chunk] {D01} ncall("amf0/encoding.Marshal") == 1 && callres("amf0/encoding.Marshal", 1) != nil ==> err == callres("amf0/encoding.Marshal", 1) && c == nil
end

# the data stream: one outcome for each event
def framed(v: cmd/data.Data) = v != nil && (is(v, *cmd/data.Audio) ==> as(v, *cmd/data.Audio).data.header != nil) && (is(v, *cmd/data.Video) ==> as(v, *cmd/data.Video).data.header != nil)
chaninv cmd/data.Data v :: framed(v)

interface cmd/data.Parser.Parse(p, c) (d, err)
  event
  requires c != nil && c.Header != nil
  ensures err == nil ==> framed(d)
end
interface cmd/data.Data.Marshal(d) (c, err)
  event
  requires framed(d)
  ensures err == nil ==> c != nil && c.Header != nil
end
def dsok(s: *cmd/data.Stream) = s.parser != nil && writerok(s.writer)
  && s.chunks != nil && s.in != nil && s.out != nil && s.errs != nil && s.closer != nil && s.in != s.out

func cmd/data.NewStream(chunks, writer) (s)
  props N01
  withinit
  ensures [a stream with channels of its own] {N01} s != nil && fresh(s) && s.chunks == chunks && s.writer == writer && s.parser != nil
    && s.in != nil && s.out != nil && s.errs != nil && s.closer != nil && fresh(s.in) && fresh(s.out) && fresh(s.errs) && fresh(s.closer) && s.in != s.out
end
func cmd/data.Stream.In(s) (c)
  props N01
  ensures [the channel frames to send are taken from] {N01} c == s.in
end
func cmd/data.Stream.Out(s) (c)
  props N01
  ensures [the channel frames are sent to] {N01} c == s.out
end
func cmd/data.Stream.Chunks(s) (c)
  props N01
  ensures [the channel chunks are taken from] {N01} c == s.chunks
end
func cmd/data.Stream.Errs(s) (c)
  props N01
  ensures [the channel errors are sent to] {N01} c == s.errs
end
func cmd/data.Stream.SetParser(s, p)
  props N01
  modifies s.parser
  ensures [the parser given is used] {N01} s.parser == p
end
func cmd/data.Stream.Close@law(s)
  props N01
  requires s.closer != nil
  ensures [one close request] {N01} nsent() == 1 && nsent(s.closer) == 1 && nclose() == 0
end
func cmd/data.Stream.Recv(s)
  props N01
  event
  requires dsok(s)
  modifies everything
  neverclosed s.in, s.closer
  inv s.in == old(s.in) && s.out == old(s.out) && s.errs == old(s.errs) && s.closer == old(s.closer) && s.chunks == old(s.chunks)
  inv s.parser == old(s.parser) && s.writer == old(s.writer)
  inv dsok(s)
  prologue [nothing happens before] {N01} nsent() == 0 && nclose() == 0
  let c = nrecv(s.chunks)
  let ok = nrecvok(s.chunks)
  let o = nrecv(s.in)
  step select [one thing at a time] {N01} nrecv() == 1 && c + o + nrecv(s.closer) == 1
  step select [a chunk is decoded once] {N01} ok == 1 && !exits() ==> ncall("cmd/data.Parser.Parse") == 1 && callarg("cmd/data.Parser.Parse", 0) == s.parser && callarg("cmd/data.Parser.Parse", 1) == recvv(s.chunks)
  step select [what is decoded is handed on once] {N01} ok == 1 && !exits() && callres("cmd/data.Parser.Parse", 1) == nil ==> nsent() == 1 && nsent(s.out) == 1 && sentv(s.out) == callres("cmd/data.Parser.Parse", 0)
  step select [a decoding error is reported once] {N01} ok == 1 && !exits() && callres("cmd/data.Parser.Parse", 1) != nil ==> nsent() == 1 && nsent(s.errs) == 1 && sentv(s.errs) == callres("cmd/data.Parser.Parse", 1)
  step select [nothing is decoded otherwise] {N01} ok == 0 ==> ncall("cmd/data.Parser.Parse") == 0 && nsent(s.out) == 0
  step select [a frame to send is marshalled once] {N01} o == 1 && !exits() ==> ncall("cmd/data.Data.Marshal") == 1 && callarg("cmd/data.Data.Marshal", 0) == recvv(s.in)
  step select [a marshalling error is reported once, and nothing is written] {N01} o == 1 && !exits() && callres("cmd/data.Data.Marshal", 1) != nil ==> ncall("chunk.Writer.Write") == 0 && nsent() == 1 && nsent(s.errs) == 1 && sentv(s.errs) == callres("cmd/data.Data.Marshal", 1)
  step select [the chunk is written once] {N01} o == 1 && !exits() && callres("cmd/data.Data.Marshal", 1) == nil ==> ncall("chunk.Writer.Write") == 1 && callarg("chunk.Writer.Write", 0) == s.writer && callarg("chunk.Writer.Write", 1) == callres("cmd/data.Data.Marshal", 0)
  step select [a write error is reported once] {N01} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) != nil ==> nsent() == 1 && nsent(s.errs) == 1 && sentv(s.errs) == callres("chunk.Writer.Write", 0)
  step select [a frame that was written produces nothing else] {N01} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) == nil ==> nsent() == 0
  step select [nothing is written otherwise] {N01} o == 0 ==> ncall("cmd/data.Data.Marshal") == 0 && ncall("chunk.Writer.Write") == 0
  step select [a closed source produces nothing] {N01} c == 1 && ok == 0 ==> nsent() == 0
  step select [nothing is closed while running] {N01} !exits() ==> nclose() == 0
  step select [the loop ends on a close request and only then] {N01} exits() <==> nrecv(s.closer) == 1
  step select [nothing is sent after it, and every channel is closed once] {N01} exits() ==> nsent() == 0 && nclose() == 4 && nclose(s.in) == 1 && nclose(s.out) == 1 && nclose(s.errs) == 1 && nclose(s.closer) == 1
end

func cmd/data.Audio.Marshal(d) (c, err)
  props D01, N01
  impl cmd/data.Data.Marshal
  requires d.data.header != nil
  ensures [the same header, the same payload] {D01} err == nil && c != nil && c.Header == d.data.header && elems(c.Data) == elems(d.data.data)
end
func cmd/data.Video.Marshal(d) (c, err)
  props D01, N01
  impl cmd/data.Data.Marshal
  requires d.data.header != nil
  ensures [the same header, the same payload] {D01} err == nil && c != nil && c.Header == d.data.header && elems(c.Data) == elems(d.data.data)
end
