# Package control: control messages, their framing, and the control stream.

def capped(n: int) = if n > 16777215 then 16777215 else n

# the six kinds, by type ID
def ctlid(c: control.Control) =
  if is(c, *control.SetChunkSize) then 1 else if is(c, *control.AbortMessage) then 2 else
  if is(c, *control.Acknowledgement) then 3 else if is(c, *control.Event) then 4 else
  if is(c, *control.WindowAckSize) then 5 else if is(c, *control.SetPeerBandwidth) then 6 else 0

# their wire form
def ctlenc(c: control.Control) =
  if is(c, *control.SetChunkSize) then be(capped(as(c, *control.SetChunkSize).chunkSize), 4) else
  if is(c, *control.AbortMessage) then be(as(c, *control.AbortMessage).ChunkStreamId, 4) else
  if is(c, *control.Acknowledgement) then be(as(c, *control.Acknowledgement).SequenceNumber, 4) else
  if is(c, *control.Event) then be(as(c, *control.Event).Type, 2) ++ bytes(as(c, *control.Event).Body) else
  if is(c, *control.WindowAckSize) then be(as(c, *control.WindowAckSize).WindowAckSize, 4) else
  be(as(c, *control.SetPeerBandwidth).AckWindowSize, 4) ++ seq(as(c, *control.SetPeerBandwidth).LimitType)

# a decoded message carries what S encodes
def ctldec(c: control.Control, S: seq) =
  if is(c, *control.SetChunkSize) then as(c, *control.SetChunkSize).chunkSize == beval(S[0:4], 4) else
  if is(c, *control.AbortMessage) then as(c, *control.AbortMessage).ChunkStreamId == beval(S[0:4], 4) else
  if is(c, *control.Acknowledgement) then as(c, *control.Acknowledgement).SequenceNumber == beval(S[0:4], 4) else
  if is(c, *control.Event) then as(c, *control.Event).Type == beval(S[0:2], 2) && bytes(as(c, *control.Event).Body) == S[2:] else
  if is(c, *control.WindowAckSize) then as(c, *control.WindowAckSize).WindowAckSize == beval(S[0:4], 4) else
  as(c, *control.SetPeerBandwidth).AckWindowSize == beval(S[0:4], 4) && as(c, *control.SetPeerBandwidth).LimitType == S[4]

def ctlmin(id: int) = if id == 4 then 2 else if id == 6 then 5 else 4

func control.NewSetChunkSize(size) (c)
  props K01
  ensures [the given size] {K01} c != nil && fresh(c) && c.chunkSize == size
end
func control.SetChunkSize.ChunkSize(c) (n)
  props K01
  ensures [capped at 0xffffff] {K01} n == capped(c.chunkSize)
end
func control.SetChunkSize.TypeId(c) (t)
  props K01, K02, K03
  impl control.Control.TypeId
  ensures [type 1] {K02,K03} t == 1
end
func control.AbortMessage.TypeId(c) (t)
  props K02, K03
  impl control.Control.TypeId
  ensures [type 2] {K02,K03} t == 2
end
func control.Acknowledgement.TypeId(c) (t)
  props K02, K03
  impl control.Control.TypeId
  ensures [type 3] {K02,K03} t == 3
end
func control.Event.TypeId(c) (t)
  props K02, K03
  impl control.Control.TypeId
  ensures [type 4] {K02,K03} t == 4
end
func control.WindowAckSize.TypeId(c) (t)
  props K02, K03
  impl control.Control.TypeId
  ensures [type 5] {K02,K03} t == 5
end
func control.SetPeerBandwidth.TypeId(c) (t)
  props K02, K03
  impl control.Control.TypeId
  ensures [type 6] {K02,K03} t == 6
end

func control.SetChunkSize.Read(c, r) (err)
  props K01, K03, C09, C15
  requires r != nil
  modifies in(r), c.*
  let S = old(in(r))
  ensures [succeeds exactly when all four bytes are there] {K01,K03,C09,C15} err == nil <==> len(S) >= 4
  ensures [big-endian size] {K01,K03} err == nil ==> c.chunkSize == beval(S[0:4], 4)
end
func control.AbortMessage.Read(c, r) (err)
  props K01, K03, C09, C15
  requires r != nil
  modifies in(r), c.*
  let S = old(in(r))
  ensures [succeeds exactly when all four bytes are there] {K01,K03,C09,C15} err == nil <==> len(S) >= 4
  ensures [big-endian chunk stream ID] {K01,K03} err == nil ==> c.ChunkStreamId == beval(S[0:4], 4)
end
func control.Acknowledgement.Read(c, r) (err)
  props K01, K03, C09, C15
  requires r != nil
  modifies in(r), c.*
  let S = old(in(r))
  ensures [succeeds exactly when all four bytes are there] {K01,K03,C09,C15} err == nil <==> len(S) >= 4
  ensures [big-endian sequence number] {K01,K03} err == nil ==> c.SequenceNumber == beval(S[0:4], 4)
end
func control.WindowAckSize.Read(c, r) (err)
  props K01, K03, C09, C15
  requires r != nil
  modifies in(r), c.*
  let S = old(in(r))
  ensures [succeeds exactly when all four bytes are there] {K01,K03,C09,C15} err == nil <==> len(S) >= 4
  ensures [big-endian window size] {K01,K03} err == nil ==> c.WindowAckSize == beval(S[0:4], 4)
end
func control.SetPeerBandwidth.Read(c, r) (err)
  props K01, K03, C09, C15
  requires r != nil
  modifies in(r), c.*
  let S = old(in(r))
  ensures [succeeds exactly when all five bytes are there] {K01,K03,C09,C15} err == nil <==> len(S) >= 5
  ensures [big-endian window size, then the limit type] {K01,K03} err == nil ==> c.AckWindowSize == beval(S[0:4], 4) && c.LimitType == S[4]
end
func control.Event.Read(e, r) (err)
  props K01, K03, C09, C15
  requires r != nil
  modifies in(r), e.*
  let S = old(in(r))
  ensures [succeeds exactly when the type is there, and the input ends without an error] {K01,K03,C09,C15} err == nil <==> len(S) >= 2 && eof(r)
  ensures [big-endian type, and the rest as body] {K01,K03} err == nil ==> e.Type == beval(S[0:2], 2) && bytes(e.Body) == S[2:]
end

func control.SetChunkSize.Write(c, w) (err)
  props K01, K02
  impl control.Control.Write
  requires w != nil
  modifies out(w)
  ensures [the size, capped, in four bytes] {K01,K02} wrote(w, be(capped(c.chunkSize), 4), err)
end
func control.AbortMessage.Write(c, w) (err)
  props K01, K02
  impl control.Control.Write
  requires w != nil
  modifies out(w)
  ensures [the chunk stream ID in four bytes] {K01,K02} wrote(w, be(c.ChunkStreamId, 4), err)
end
func control.Acknowledgement.Write(c, w) (err)
  props K01, K02
  impl control.Control.Write
  requires w != nil
  modifies out(w)
  ensures [the sequence number in four bytes] {K01,K02} wrote(w, be(c.SequenceNumber, 4), err)
end
func control.WindowAckSize.Write(c, w) (err)
  props K01, K02
  impl control.Control.Write
  requires w != nil
  modifies out(w)
  ensures [the window size in four bytes] {K01,K02} wrote(w, be(c.WindowAckSize, 4), err)
end
func control.SetPeerBandwidth.Write(c, w) (err)
  props K01, K02
  impl control.Control.Write
  requires w != nil
  modifies out(w)
  ensures [the window size in four bytes, then the limit type] {K01,K02} wrote(w, be(c.AckWindowSize, 4) ++ seq(c.LimitType), err)
end
func control.Event.Write(e, w) (err)
  props K01, K02
  impl control.Control.Write
  requires w != nil
  modifies out(w)
  ensures [the type in two bytes, then the body] {K01,K02} wrote(w, be(e.Type, 2) ++ bytes(e.Body), err)
end

# every kind decodes what it encodes
lemma ctlround(c: control.Control)
  props K01
  requires ctlid(c) != 0
  ensures [decoding what was encoded gives the fields back] {K01} ctldec(c, ctlenc(c)) || is(c, *control.SetChunkSize)
  ensures [a chunk size up to 0xffffff is given back] {K01} is(c, *control.SetChunkSize) && as(c, *control.SetChunkSize).chunkSize <= 16777215 ==> ctldec(c, ctlenc(c))
  ensures [the encoding is long enough] {K01,K03} len(ctlenc(c)) >= ctlmin(ctlid(c))
end

interface control.Control.TypeId(c) (t)
  ensures ctlid(c) != 0 ==> t == ctlid(c)
end
interface control.Control.Write(c, w) (err)
  requires w != nil
  modifies out(w)
  ensures ctlid(c) != 0 ==> wrote(w, ctlenc(c), err)
end

func control.NewChunker() (c)
  props K02
  ensures [a chunker] {K02} is(c, *control.DefaultChunker)
end

func control.DefaultChunker.Chunk(c, m) (k, err)
  props K02, K03
  requires m != nil
  let h = k.Header
  ensures [an error and no chunk, or a chunk] {K02} err != nil <==> k == nil
  ensures [a known message is always framed] {K02} ctlid(m) != 0 ==> err == nil
  ensures [format 0 on chunk stream 2, message stream 0, time 0] {K02} err == nil ==> h != nil
    && h.BasicHeader.FormatId == 0 && h.MessageHeader.FormatId == 0 && h.BasicHeader.StreamId == 2
    && h.MessageHeader.StreamId == 0 && h.MessageHeader.Timestamp == 0 && h.ExtendedTimestamp.Delta == 0
  ensures [the message's type] {K02,K03} err == nil && ctlid(m) != 0 ==> h.MessageHeader.TypeId == ctlid(m)
  ensures [the payload is the encoding] {K02,K03} err == nil && ctlid(m) != 0 ==> bytes(k.Data) == ctlenc(m)
  ensures [the length is the payload's] {K02} err == nil && len(k.Data) <= 4294967295 ==> h.MessageHeader.Length == len(k.Data)
end

def parserfull(p: *control.DefaultParser) = p.controls != nil
  && (forall i: int :: 1 <= i && i <= 6 ==> has(p.controls, i))
  && (forall i: int :: has(p.controls, i) ==> 1 <= i && i <= 6)
  && p.controls[1] == rtype(control.SetChunkSize) && p.controls[2] == rtype(control.AbortMessage)
  && p.controls[3] == rtype(control.Acknowledgement) && p.controls[4] == rtype(control.Event)
  && p.controls[5] == rtype(control.WindowAckSize) && p.controls[6] == rtype(control.SetPeerBandwidth)

func control.NewParser() (p)
  props K03
  withinit
  ensures [a parser that knows exactly the six kinds] {K03} p != nil && fresh(p) && parserfull(p)
end

func control.DefaultParser.Parse(p, c) (m, err)
  props K03, C09, C15
  requires c != nil && c.Header != nil && parserfull(p)
  let t = c.Header.MessageHeader.TypeId
  let S = bytes(c.Data)
  ensures [decoded exactly when the type is known and the payload long enough] {K03,C09,C15} err == nil <==> 1 <= t && t <= 6 && len(S) >= ctlmin(t)
  ensures [an error comes without a message] {K03} err != nil ==> m == nil
  ensures [a new message of the kind the type names] {K03} err == nil ==> ctlid(m) == t && fresh(m)
  ensures [with the fields the payload encodes] {K03} err == nil ==> ctldec(m, S)
end

# the control stream: one outcome for each event
chaninv control.Control v :: v != nil

interface control.Parser.Parse(p, c) (m, err)
  event
  requires c != nil && c.Header != nil
  requires is(p, *control.DefaultParser) ==> parserfull(as(p, *control.DefaultParser))
  ensures err == nil ==> m != nil
end
interface control.Chunker.Chunk(k, m) (c, err)
  event
  requires m != nil
  ensures err == nil ==> c != nil && c.Header != nil
end

def src(s: *control.Stream) = pureof("chunk.Stream.In", s.chunks)
def streamok(s: *control.Stream) =
  s.chunks != nil && s.writer != nil && s.parser != nil && s.chunker != nil
  && s.in != nil && s.out != nil && s.errs != nil && s.closer != nil && s.in != s.out && src(s) != s.in && src(s) != s.out
  && (is(s.parser, *control.DefaultParser) ==> parserfull(as(s.parser, *control.DefaultParser)))
  && (is(s.writer, *chunk.DefaultWriter) ==> as(s.writer, *chunk.DefaultWriter).dest != nil && as(s.writer, *chunk.DefaultWriter).writeSize >= 1)

func control.NewStream(chunks, writer, parser, chunker) (s)
  props K04
  ensures [a stream with channels of its own] {K04} s != nil && fresh(s) && s.chunks == chunks && s.writer == writer && s.parser == parser && s.chunker == chunker
    && s.in != nil && s.out != nil && s.errs != nil && s.closer != nil && fresh(s.in) && fresh(s.out) && fresh(s.errs) && fresh(s.closer) && s.in != s.out
end
func control.Stream.In(s) (c)
  props K04
  ensures [the channel decoded messages are sent to] {K04} c == s.in
end
func control.Stream.Out(s) (c)
  props K04
  ensures [the channel messages to send are taken from] {K04} c == s.out
end
func control.Stream.Errs(s) (c)
  props K04
  ensures [the channel errors are sent to] {K04} c == s.errs
end
func control.Stream.Close(s)
  props K04
  requires s.closer != nil
  ensures [one close request] {K04} nsent() == 1 && nsent(s.closer) == 1 && nclose() == 0
end

func control.Stream.Recv(s)
  props K04
  requires streamok(s)
  modifies everything
  neverclosed s.out, s.closer
  inv s.in == old(s.in) && s.out == old(s.out) && s.errs == old(s.errs) && s.closer == old(s.closer) && s.chunks == old(s.chunks)
  inv s.parser == old(s.parser) && s.chunker == old(s.chunker) && s.writer == old(s.writer)
  inv streamok(s)
  prologue [nothing happens before] {K04} nsent() == 0 && nclose() == 0
  let c = nrecv(src(s))
  let ok = nrecvok(src(s))
  let o = nrecv(s.out)
  step select [one thing at a time] {K04} nrecv() == 1 && c + o + nrecv(s.closer) == 1
  step select [a chunk is decoded once] {K04} ok == 1 && !exits() ==> ncall("control.Parser.Parse") == 1 && callarg("control.Parser.Parse", 0) == s.parser && callarg("control.Parser.Parse", 1) == recvv(src(s))
  step select [what is decoded is handed on once] {K04} ok == 1 && !exits() && callres("control.Parser.Parse", 1) == nil ==> nsent() == 1 && nsent(s.in) == 1 && sentv(s.in) == callres("control.Parser.Parse", 0)
  step select [a decoding error is reported once] {K04} ok == 1 && !exits() && callres("control.Parser.Parse", 1) != nil ==> nsent() == 1 && nsent(s.errs) == 1 && sentv(s.errs) == callres("control.Parser.Parse", 1)
  step select [nothing is decoded otherwise] {K04} ok == 0 ==> ncall("control.Parser.Parse") == 0 && nsent(s.in) == 0
  step select [a message to send is framed once] {K04} o == 1 && !exits() ==> ncall("control.Chunker.Chunk") == 1 && callarg("control.Chunker.Chunk", 0) == s.chunker && callarg("control.Chunker.Chunk", 1) == recvv(s.out)
  step select [a framing error is reported once, and nothing is written] {K04} o == 1 && !exits() && callres("control.Chunker.Chunk", 1) != nil ==> ncall("chunk.Writer.Write") == 0 && nsent() == 1 && nsent(s.errs) == 1 && sentv(s.errs) == callres("control.Chunker.Chunk", 1)
  step select [the chunk is written once] {K04} o == 1 && !exits() && callres("control.Chunker.Chunk", 1) == nil ==> ncall("chunk.Writer.Write") == 1 && callarg("chunk.Writer.Write", 0) == s.writer && callarg("chunk.Writer.Write", 1) == callres("control.Chunker.Chunk", 0)
  step select [a write error is reported once] {K04} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) != nil ==> nsent() == 1 && nsent(s.errs) == 1 && sentv(s.errs) == callres("chunk.Writer.Write", 0)
  step select [a message that was written produces nothing else] {K04} ncall("chunk.Writer.Write") == 1 && callres("chunk.Writer.Write", 0) == nil ==> nsent() == 0
  step select [nothing is written otherwise] {K04} o == 0 ==> ncall("control.Chunker.Chunk") == 0 && ncall("chunk.Writer.Write") == 0
  step select [a closed source produces nothing] {K04} c == 1 && ok == 0 ==> nsent() == 0
  step select [nothing is closed while running] {K04} !exits() ==> nclose() == 0
  step select [the loop ends on a close request and only then] {K04} exits() <==> nrecv(s.closer) == 1
  step select [nothing is sent after it, and every channel is closed once] {K04} exits() ==> nsent() == 0 && nclose() == 4 && nclose(s.in) == 1 && nclose(s.out) == 1 && nclose(s.errs) == 1 && nclose(s.closer) == 1
end
