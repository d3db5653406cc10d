# Package conn: responses.
interface cmd/conn.Marshallable.Marshal(m) (b, err)
  event
  modifies heap(cmd/conn.ConnectResponse), heap(cmd/conn.CreateStreamResponse)
  ensures err == nil ==> fresh(b)
end
func cmd/conn.DefaultChunker.Chunk(k, m) (c, err)
  props S01, N01
  impl cmd/conn.Chunker.Chunk
  requires m != nil
  modifies heap(cmd/conn.ConnectResponse), heap(cmd/conn.CreateStreamResponse)
  let h = c.Header
  ensures [the response is encoded once] {S01} ncall("cmd/conn.Marshallable.Marshal") == 1 && callarg("cmd/conn.Marshallable.Marshal", 0) == m
  ensures [an encoding error is returned unchanged, without a chunk] {S01} callres("cmd/conn.Marshallable.Marshal", 1) != nil ==> err == callres("cmd/conn.Marshallable.Marshal", 1) && c == nil
  ensures [otherwise there is a chunk] {S01} callres("cmd/conn.Marshallable.Marshal", 1) == nil ==> err == nil && c != nil && fresh(c) && h != nil && fresh(h)
  ensures [chunk stream 3, message stream 0, type 0x14, time 0] {S01} err == nil ==> h.BasicHeader.FormatId == 0 && h.MessageHeader.FormatId == 0 && h.BasicHeader.StreamId == 3 && h.MessageHeader.StreamId == 0 && h.MessageHeader.TypeId == 20 && h.MessageHeader.Timestamp == 0 && h.ExtendedTimestamp.Delta == 0
  ensures [the payload is the encoded response] {S01} err == nil ==> c.Data == callres("cmd/conn.Marshallable.Marshal", 0)
  ensures [the length announced is the payload's] {S01} err == nil && len(c.Data) <= 4294967295 ==> h.MessageHeader.Length == len(c.Data)
end
func cmd/conn.ConnectResponse.Marshal(r) (b, err)
  props S01
  impl cmd/conn.Marshallable.Marshal
  modifies r.ResponseType
  ensures [it is a _result] {S01} r.ResponseType == "_result"
  ensures [the response is encoded] {S01} ncall("amf0/encoding.Marshal") == 1 && as(callarg("amf0/encoding.Marshal", 0), *cmd/conn.ConnectResponse) == r && b == callres("amf0/encoding.Marshal", 0) && err == callres("amf0/encoding.Marshal", 1)
end
func cmd/conn.CreateStreamResponse.Marshal(r) (b, err)
  props S01
  impl cmd/conn.Marshallable.Marshal
  modifies r.ResponseType
  ensures [it is a _result] {S01} r.ResponseType == "_result"
  ensures [the response is encoded] {S01} ncall("amf0/encoding.Marshal") == 1 && as(callarg("amf0/encoding.Marshal", 0), *cmd/conn.CreateStreamResponse) == r && b == callres("amf0/encoding.Marshal", 0) && err == callres("amf0/encoding.Marshal", 1)
end

# the net connection: one outcome for each event
chaninv cmd/conn.Marshallable v :: v != nil
chaninv cmd/conn.Receivable v :: v != nil

interface cmd/conn.Parser.Parse(p, name, r) (v, err)
  event
  requires name != nil && r != nil
  modifies in(r)
  ensures err == nil ==> v != nil
end
interface cmd/conn.Chunker.Chunk(k, m) (c, err)
  event
  requires m != nil
  modifies heap(cmd/conn.ConnectResponse), heap(cmd/conn.CreateStreamResponse)
  ensures err == nil ==> c != nil && c.Header != nil
end

def writerok(w: chunk.Writer) = w != nil && (is(w, *chunk.DefaultWriter) ==> as(w, *chunk.DefaultWriter).dest != nil && as(w, *chunk.DefaultWriter).writeSize >= 1)
def connok(n: *cmd/conn.NetConn) = n.parser != nil && n.chunker != nil && writerok(n.writer)
  && n.chunkStream != nil && n.in != nil && n.out != nil && n.errs != nil && n.closer != nil

func cmd/conn.NewNetConnection(chunks, writer) (n)
  props N01
  withinit
  ensures [a connection with channels of its own] {N01} n != nil && fresh(n) && n.chunkStream == chunks && n.writer == writer && n.parser != nil && n.chunker != nil
    && n.in != nil && n.out != nil && n.errs != nil && n.closer != nil && fresh(n.in) && fresh(n.out) && fresh(n.errs) && fresh(n.closer)
end
func cmd/conn.NetConn.In(n) (c)
  props N01
  ensures [the channel commands are sent to] {N01} c == n.in
end
func cmd/conn.NetConn.Out(n) (c)
  props N01
  ensures [the channel responses are taken from] {N01} c == n.out
end
func cmd/conn.NetConn.Errs(n) (c)
  props N01
  ensures [the channel errors are sent to] {N01} c == n.errs
end
func cmd/conn.NetConn.Close@law(n)
  props N01
  requires n.closer != nil
  ensures [one close request] {N01} nsent() == 1 && nsent(n.closer) == 1 && nclose() == 0
end
func cmd/conn.NetConn.Listen(n)
  props N01
  event
  requires connok(n)
  modifies everything
  neverclosed n.out, n.closer
  inv n.in == old(n.in) && n.out == old(n.out) && n.errs == old(n.errs) && n.closer == old(n.closer) && n.chunkStream == old(n.chunkStream)
  inv n.parser == old(n.parser) && n.chunker == old(n.chunker) && n.writer == old(n.writer)
  inv connok(n)
  prologue [nothing happens before] {N01} nsent() == 0 && nclose() == 0
  let c = nrecv(n.chunkStream)
  let ok = nrecvok(n.chunkStream)
  let o = nrecv(n.out)
  let named = ncall("amf0.Decode") == 1 && callres("amf0.Decode", 1) == nil && is(callres("amf0.Decode", 0), *amf0.String)
  step select [one thing at a time] {N01} nrecv() == 1 && c + o + nrecv(n.closer) == 1
  step select [the command name of a chunk is decoded once] {N01} ok == 1 && !exits() ==> ncall("amf0.Decode") == 1
  step select [from the chunk's payload] {N01} ok == 1 && !exits() ==> (let k = recvv(n.chunkStream) :: atcall("amf0.Decode", in(callarg("amf0.Decode", 0))) == old(bytes(k.Data)))
  step select [an undecodable or wrongly typed name is reported once] {N01} ok == 1 && !exits() && !named ==> ncall("cmd/conn.Parser.Parse") == 0 && nsent() == 1 && nsent(n.errs) == 1 && sentv(n.errs) != nil
    && (callres("amf0.Decode", 1) != nil ==> sentv(n.errs) == callres("amf0.Decode", 1))
  step select [a named command is decoded once, from what follows the name] {N01} ok == 1 && !exits() && named ==> ncall("cmd/conn.Parser.Parse") == 1 && callarg("cmd/conn.Parser.Parse", 0) == n.parser
    && callarg("cmd/conn.Parser.Parse", 1) == as(callres("amf0.Decode", 0), *amf0.String) && callarg("cmd/conn.Parser.Parse", 2) == callarg("amf0.Decode", 0)
  step select [what is decoded is handed on once] {N01} ok == 1 && !exits() && named && callres("cmd/conn.Parser.Parse", 1) == nil ==> nsent() == 1 && nsent(n.in) == 1 && sentv(n.in) == callres("cmd/conn.Parser.Parse", 0)
  step select [a decoding error is reported once] {N01} ok == 1 && !exits() && named && callres("cmd/conn.Parser.Parse", 1) != nil ==> nsent() == 1 && nsent(n.errs) == 1 && sentv(n.errs) == callres("cmd/conn.Parser.Parse", 1)
  step select [nothing is decoded otherwise] {N01} ok == 0 ==> ncall("amf0.Decode") == 0 && ncall("cmd/conn.Parser.Parse") == 0 && nsent(n.in) == 0
  step select [a response is framed once] {N01} o == 1 && !exits() ==> ncall("cmd/conn.Chunker.Chunk") == 1 && callarg("cmd/conn.Chunker.Chunk", 0) == n.chunker && callarg("cmd/conn.Chunker.Chunk", 1) == recvv(n.out)
  step select [a framing error is reported once, and nothing is written] {N01} o == 1 && !exits() && callres("cmd/conn.Chunker.Chunk", 1) != nil ==> ncall("chunk.Writer.Write") == 0 && nsent() == 1 && nsent(n.errs) == 1 && sentv(n.errs) == callres("cmd/conn.Chunker.Chunk", 1)
  step select [the chunk is written once] {N01} o == 1 && !exits() && callres("cmd/conn.Chunker.Chunk", 1) == nil ==> ncall("chunk.Writer.Write") == 1 && callarg("chunk.Writer.Write", 0) == n.writer && callarg("chunk.Writer.Write", 1) == callres("cmd/conn.Chunker.Chunk", 0)
  step select [a write error is reported once] {N01} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) != nil ==> nsent() == 1 && nsent(n.errs) == 1 && sentv(n.errs) == callres("chunk.Writer.Write", 0)
  step select [a response that was written produces nothing else] {N01} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) == nil ==> nsent() == 0
  step select [nothing is written otherwise] {N01} o == 0 ==> ncall("cmd/conn.Chunker.Chunk") == 0 && ncall("chunk.Writer.Write") == 0
  step select [a closed source produces nothing] {N01} c == 1 && ok == 0 ==> nsent() == 0
  step select [nothing is closed] {N01} nclose() == 0
  step select [the loop ends on a close request and only then, and nothing is sent after it] {N01} (exits() <==> nrecv(n.closer) == 1) && (exits() ==> nsent() == 0)
end

# the parser for the commands this package knows
func cmd/conn.DefaultParser.Parse(p, name, r) (v, err)
  props N01
  impl cmd/conn.Parser.Parse
  requires name != nil && r != nil
  modifies in(r)
  ensures [an error comes without a value] {N01} err != nil ==> v == nil
end
