# Package stream: status updates.
func cmd/stream.NewStatus() (s)
  props S01
  ensures s != nil && fresh(s)
end
func cmd/stream.Status.AsChunk@law(s) (c, err)
  props S01
  let h = c.Header
  let body = callres("amf0/encoding.Marshal", 0)
  ensures [the status is encoded once] {S01} ncall("amf0/encoding.Marshal") == 1 && is(callarg("amf0/encoding.Marshal", 0), *cmd/stream.Status) && as(callarg("amf0/encoding.Marshal", 0), *cmd/stream.Status) == s
  ensures [an encoding error is returned unchanged, without a chunk] {S01} callres("amf0/encoding.Marshal", 1) != nil ==> err == callres("amf0/encoding.Marshal", 1) && c == nil
  ensures [otherwise there is a chunk] {S01} callres("amf0/encoding.Marshal", 1) == nil ==> err == nil && c != nil && fresh(c) && h != nil && fresh(h)
  ensures [chunk stream 5, message stream 1, type 0x14, time 0] {S01} err == nil ==> h.BasicHeader.FormatId == 0 && h.MessageHeader.FormatId == 0 && h.BasicHeader.StreamId == 5 && h.MessageHeader.StreamId == 1 && h.MessageHeader.TypeId == 20 && h.MessageHeader.Timestamp == 0 && h.ExtendedTimestamp.Delta == 0
  ensures [the onStatus command header, then the status] {S01} err == nil ==> bytes(c.Data) == bytes(global(cmd/stream.OnStatusCommandHeader)) ++ bytes(body)
  ensures [the length announced is the payload's] {S01} err == nil && len(c.Data) <= 4294967295 ==> h.MessageHeader.Length == len(c.Data)
  ensures [the payload is its own memory] {S01} err == nil ==> fresh(c.Data)
end

# the header every status update starts with
init cmd/stream
  modifies everything
  props S01
  ensures [the header is the encoding of an onStatus command] {S01} ncall("amf0/encoding.Marshal") == 1 && is(callarg("amf0/encoding.Marshal", 0), *cmd/stream.CommandHeader)
    && as(callarg("amf0/encoding.Marshal", 0), *cmd/stream.CommandHeader).Name == "onStatus" && global(cmd/stream.OnStatusCommandHeader) == callres("amf0/encoding.Marshal", 0)
end

# the net stream: one outcome for each event
chaninv *cmd/stream.Status v :: v != nil
chaninv cmd/stream.Command v :: v != nil

interface cmd/stream.Parser.Parse(p, r) (v, err)
  event
  requires r != nil
  modifies in(r)
  ensures err == nil ==> v != nil
end
def nsok(n: *cmd/stream.NetStream) = n.parser != nil && writerok(n.writer)
  && n.chunks != nil && n.in != nil && n.statuses != nil && n.errs != nil && n.closer != nil

func cmd/stream.New(chunks, writer) (n)
  props N01
  withinit
  ensures [a stream with channels of its own] {N01} n != nil && fresh(n) && n.chunks == chunks && n.writer == writer && n.parser != nil
    && n.in != nil && n.statuses != nil && n.errs != nil && n.closer != nil && fresh(n.in) && fresh(n.statuses) && fresh(n.errs) && fresh(n.closer)
end
func cmd/stream.NetStream.In(n) (c)
  props N01
  ensures [the channel commands are sent to] {N01} c == n.in
end
func cmd/stream.NetStream.Status(n) (c)
  props N01
  ensures [the channel statuses are taken from] {N01} c == n.statuses
end
func cmd/stream.NetStream.Errs(n) (c)
  props N01
  ensures [the channel errors are sent to] {N01} c == n.errs
end
func cmd/stream.NetStream.Close@law(n)
  props N01
  requires n.closer != nil
  ensures [one close request] {N01} nsent() == 1 && nsent(n.closer) == 1 && nclose() == 0
end
func cmd/stream.NetStream.Listen(n)
  props N01
  event
  requires nsok(n)
  modifies everything
  neverclosed n.statuses, n.closer
  inv n.in == old(n.in) && n.statuses == old(n.statuses) && n.errs == old(n.errs) && n.closer == old(n.closer) && n.chunks == old(n.chunks)
  inv n.parser == old(n.parser) && n.writer == old(n.writer)
  inv nsok(n)
  prologue [nothing happens before] {N01} nsent() == 0 && nclose() == 0
  let c = nrecv(n.chunks)
  let ok = nrecvok(n.chunks)
  let o = nrecv(n.statuses)
  step select [one thing at a time] {N01} nrecv() == 1 && c + o + nrecv(n.closer) == 1
  step select [a chunk is decoded once] {N01} ok == 1 && !exits() ==> ncall("cmd/stream.Parser.Parse") == 1 && callarg("cmd/stream.Parser.Parse", 0) == n.parser
  step select [from the chunk's payload] {N01} ok == 1 && !exits() ==> (let k = recvv(n.chunks) :: atcall("cmd/stream.Parser.Parse", in(callarg("cmd/stream.Parser.Parse", 1))) == old(bytes(k.Data)))
  step select [what is decoded is handed on once] {N01} ok == 1 && !exits() && callres("cmd/stream.Parser.Parse", 1) == nil ==> nsent() == 1 && nsent(n.in) == 1 && sentv(n.in) == callres("cmd/stream.Parser.Parse", 0)
  step select [a decoding error is reported once] {N01} ok == 1 && !exits() && callres("cmd/stream.Parser.Parse", 1) != nil ==> nsent() == 1 && nsent(n.errs) == 1 && sentv(n.errs) == callres("cmd/stream.Parser.Parse", 1)
  step select [nothing is decoded otherwise] {N01} ok == 0 ==> ncall("cmd/stream.Parser.Parse") == 0 && nsent(n.in) == 0
  step select [a status is encoded once] {N01} o == 1 && !exits() ==> ncall("amf0/encoding.Marshal") == 1 && is(callarg("amf0/encoding.Marshal", 0), *cmd/stream.Status) && as(callarg("amf0/encoding.Marshal", 0), *cmd/stream.Status) == recvv(n.statuses)
  step select [an encoding error is reported once, and nothing is written] {N01} o == 1 && !exits() && callres("amf0/encoding.Marshal", 1) != nil ==> ncall("chunk.Writer.Write") == 0 && nsent() == 1 && nsent(n.errs) == 1 && sentv(n.errs) == callres("amf0/encoding.Marshal", 1)
  step select [the status is written once] {N01} o == 1 && !exits() && callres("amf0/encoding.Marshal", 1) == nil ==> ncall("chunk.Writer.Write") == 1 && callarg("chunk.Writer.Write", 0) == n.writer && fresh(callarg("chunk.Writer.Write", 1))
  step select [a write error is reported once] {N01} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) != nil ==> nsent() == 1 && nsent(n.errs) == 1 && sentv(n.errs) == callres("chunk.Writer.Write", 0)
  step select [a status that was written produces nothing else] {N01} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) == nil ==> nsent() == 0
  step select [nothing is written otherwise] {N01} o == 0 ==> ncall("amf0/encoding.Marshal") == 0 && ncall("chunk.Writer.Write") == 0
  step select [a closed source produces nothing] {N01} c == 1 && ok == 0 ==> nsent() == 0
  step select [nothing is closed while running] {N01} !exits() ==> nclose() == 0
  step select [the loop ends on a close request and only then] {N01} exits() <==> nrecv(n.closer) == 1
  step select [nothing is sent after it, and every channel is closed once] {N01} exits() ==> nsent() == 0 && nclose() == 4 && nclose(n.in) == 1 && nclose(n.statuses) == 1 && nclose(n.errs) == 1 && nclose(n.closer) == 1
end

# the parser for the commands this package knows
func cmd/stream.DefaultParser.Parse(p, r) (v, err)
  props N01
  impl cmd/stream.Parser.Parse
  requires r != nil
  modifies in(r)
  ensures [an error comes without a value] {N01} err != nil ==> v == nil
end
