# Package chunk: the writer.

# p cut into pieces of n bytes, with sep before every boundary strictly inside
rec chop(p: seq, n: int, sep: seq): seq decreases len(p) =
  if n < 1 || len(p) <= n then p else p[0:n] ++ sep ++ chop(p[n:], n, sep)

# what starts every further chunk of the message with header h
def conthdr(h: *chunk.Header) =
  basicenc(3, h.BasicHeader.StreamId) ++ extenc(h.MessageHeader.Timestamp, h.ExtendedTimestamp.Delta)

def msgwire(c: *chunk.Chunk, n: int) = hdrenc(c.Header) ++ chop(bytes(c.Data), n, conthdr(c.Header))

chaninv *chunk.Chunk v :: v != nil && v.Header != nil

guarded chunk.DefaultWriter.writeSize by wmu

func chunk.NewWriter(dest, writeSize) (w)
  props C03
  ensures [a writer for dest with the given chunk size] {C03} is(w, *chunk.DefaultWriter) && as(w, *chunk.DefaultWriter).dest == dest && as(w, *chunk.DefaultWriter).writeSize == writeSize
end

func chunk.DefaultWriter.WriteSize(w) (n)
  props C03
  ensures n == w.writeSize
end

func chunk.DefaultWriter.SetWriteSize(w, n)
  props C03
  modifies w.writeSize
  ensures [later messages are cut into chunks of the new size] {C03} w.writeSize == n
end

# what can be sent: a header with a format and an ID that can be expressed, and a length of 24 bits
def sendable(c: *chunk.Chunk) = c.Header.BasicHeader.FormatId <= 3 && validid(c.Header.BasicHeader.StreamId) && len(c.Data) <= 16777215

interface chunk.Writer.Write(w, c) (err)
  event
  requires c != nil && c.Header != nil
  requires is(w, *chunk.DefaultWriter) ==> as(w, *chunk.DefaultWriter).dest != nil && as(w, *chunk.DefaultWriter).writeSize >= 1
  modifies out(as(w, *chunk.DefaultWriter).dest)
end

func chunk.DefaultWriter.Write(w, c) (err)
  props C03, C04
  impl chunk.Writer.Write
  requires w.dest != nil && c != nil && c.Header != nil
  requires [a positive chunk size] w.writeSize >= 1
  modifies out(w.dest)
  terminates
  inv (a: *bytes.Buffer, b: *bytes.Buffer, n: int) [pieces written and still to write] sendable(c) ==>
    out(a) ++ chop(in(b), n, conthdr(c.Header)) == hdrenc(c.Header) ++ chop(bytes(c.Data), n, conthdr(c.Header))
  inv (a: *bytes.Buffer, b: []byte, n: int) sendable(c) ==>
    out(a) ++ chop(bytes(b), n, conthdr(c.Header)) == hdrenc(c.Header) ++ chop(bytes(c.Data), n, conthdr(c.Header))
  inv (a: *bytes.Buffer, i: int, n: int) sendable(c) && i >= 0 ==>
    out(a) ++ chop(bytes(c.Data)[i:], n, conthdr(c.Header)) == hdrenc(c.Header) ++ chop(bytes(c.Data), n, conthdr(c.Header))
  ensures [the header, the payload in order, and one continuation header before every chunk boundary] {C03,C04} sendable(c) && err == nil ==> out(w.dest) == old(out(w.dest)) ++ msgwire(c, old(w.writeSize))
  ensures [at most one write to the destination] {C03} wcalls(w.dest) <= old(wcalls(w.dest)) + 1
  ensures [a destination error is returned] {C03} sendable(c) ==> ((err == nil) <==> wfails(w.dest) == old(wfails(w.dest)))
end
