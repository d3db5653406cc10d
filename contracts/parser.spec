# Package chunk: streams, the demultiplexer, merged streams.


# a reader hands out the same channels every time
def rdchunks(r: chunk.Reader) = pureof("chunk.Reader.Chunks", r)
def rderrs(r: chunk.Reader) = pureof("chunk.Reader.Errs", r)

interface chunk.Reader.Chunks(r) (c)
  pure
end
interface chunk.Reader.Errs(r) (c)
  pure
end
interface chunk.Reader.Recv(r)
  event
end
interface chunk.Reader.Close(r)
  event
end

func chunk.DefaultReader.Chunks(r) (c)
  props C12
  ensures [the channel messages are sent to] {C12} c == r.chunks
end
func chunk.DefaultReader.Errs(r) (c)
  props C12
  ensures [the channel errors are sent to] {C12} c == r.errs
end

func chunk.NewStream(id) (s)
  props C11
  ensures [a new stream with a channel of its own] {C11} s != nil && fresh(s) && s.ID == id && s.in != nil && fresh(s.in)
end
func chunk.stream.In(s) (c)
  props C11, C12
  ensures [the channel chunks are put on] {C12} c == s.in
end

# every registered stream is there, and none shares its channel
def parserok(p: *chunk.Parser) =
  p.streams != nil && p.errs != nil && p.closer != nil
  && (forall i: int :: has(p.streams, i) ==> p.streams[i] != nil && p.streams[i].in != nil && p.streams[i].in != p.errs)
  && (forall i: int, j: int :: has(p.streams, i) && has(p.streams, j) && i != j ==> p.streams[i] != p.streams[j] && p.streams[i].in != p.streams[j].in)

# every critical section leaves the streams there are as they are; it may add others
guarded chunk.Parser.streams by smu shared (p) [streams are added, never replaced or removed] {C11}
  parserok(p) && p.streams == old(p.streams)
  && (forall i: int :: old(has(p.streams, i)) ==> has(p.streams, i) && p.streams[i] == old(p.streams[i]))

def untouched(p: *chunk.Parser) = (forall i: int :: has(p.streams, i) <==> old(has(p.streams, i)))
  && (forall i: int :: has(p.streams, i) ==> p.streams[i] == old(p.streams[i]))

func chunk.NewParser(reader) (p)
  props C11, C12
  ensures [a registry with no streams] {C11,C12} p != nil && fresh(p) && p.reader == reader && parserok(p) && fresh(p.streams) && fresh(p.errs) && fresh(p.closer) && (forall i: int :: !has(p.streams, i))
end

func chunk.Parser.Errs(p) (c)
  props C12
  ensures [the channel errors are forwarded to] {C12} c == p.errs
end

# the IDs asked for are new, and different from each other
def allnew(p: *chunk.Parser, ids: slice, n: int) = (forall k: int :: 0 <= k && k < n ==> !old(has(p.streams, ids[k])))
def distinct(ids: slice, n: int) = (forall j: int, k: int :: 0 <= j && j < k && k < n ==> ids[j] != ids[k])

func chunk.Parser.Stream(p, ids) (s, err)
  props C11, C13
  requires parserok(p)
  modifies map(p.streams)
  let many = len(ids) >= 2
  ensures [still consistent] {C11} parserok(p)
  ensures [no ID is an error] {C11} len(ids) == 0 ==> err != nil
  ensures [one ID: the stream of that ID] {C11} len(ids) == 1 ==> err == nil && has(p.streams, ids[0]) && is(s, *chunk.stream) && as(s, *chunk.stream) == p.streams[ids[0]]
  ensures [one ID: always the same stream] {C11} len(ids) == 1 && old(has(p.streams, ids[0])) ==> interfered() || untouched(p)
  ensures [an error changes nothing] {C11} err != nil ==> interfered() || untouched(p)
  ensures [several IDs: an error if one of them exists, or is given twice] {C11} many ==> (err == nil <==> allnew(p, ids, len(ids)) && distinct(ids, len(ids)))
  ensures [several IDs: a new stream for each] {C11} many && err == nil ==> is(s, *chunk.MultiStream) && (forall k: int :: 0 <= k && k < len(ids) ==> has(p.streams, ids[k]) && fresh(p.streams[ids[k]]) && p.streams[ids[k]].ID == ids[k])
  ensures [no other stream is disturbed] {C11} interfered() || forall i: int :: (forall k: int :: 0 <= k && k < len(ids) ==> ids[k] != i) ==> (has(p.streams, i) <==> old(has(p.streams, i))) && (has(p.streams, i) ==> p.streams[i] == old(p.streams[i]))
  inv (n: int) allnew(p, ids, n + 1)
  inv (n: int) distinct(ids, n + 1)
  inv (m: map[uint32]bool, n: int) (forall k: int :: 0 <= k && k < n + 1 ==> has(m, ids[k]) && m[ids[k]])
  inv (m: map[uint32]bool, n: int) (forall i: int :: has(m, i) ==> m[i] && (exists k: int :: 0 <= k && k < n + 1 && ids[k] == i))
  inv parserok(p)
  inv forall i: int :: has(p.streams, i) ==> alive(p.streams[i].in)
  inv (n: int) (forall k: int :: 0 <= k && k < n + 1 ==> has(p.streams, ids[k]) && fresh(p.streams[ids[k]]) && p.streams[ids[k]].ID == ids[k])
  inv (n: int) (forall i: int :: (forall k: int :: 0 <= k && k < n + 1 ==> ids[k] != i) ==> (has(p.streams, i) <==> old(has(p.streams, i))) && (has(p.streams, i) ==> p.streams[i] == old(p.streams[i])))
  inv (m: *chunk.MultiStream, n: int) wgcount(m.wg) == n + 1
  ensures [several IDs: the merged stream has one forwarder for each] {C13} many && err == nil ==> wgcount(as(s, *chunk.MultiStream).wg) == len(ids)
  step loop (n: int) [every new stream is merged] {C13} !exits() && (exists i: int :: has(p.streams, i) && !old(has(p.streams, i))) ==>
    ncall("chunk.MultiStream.Append") == 1 && len(callarg("chunk.MultiStream.Append", 1)) == 1 && is(callarg("chunk.MultiStream.Append", 1)[0], *chunk.stream)
    && as(callarg("chunk.MultiStream.Append", 1)[0], *chunk.stream) == p.streams[ids[n + 1]]
end

# each chunk and each error the reader reports is handed on once; closing closes everything
func chunk.Parser.Recv(p)
  props C12
  requires parserok(p) && p.reader != nil
  requires rdchunks(p.reader) != rderrs(p.reader) && rdchunks(p.reader) != p.errs
  modifies everything
  neverclosed rdchunks(p.reader), rderrs(p.reader)
  inv [the registry stays consistent] {C11,C12} parserok(p)
  inv p.reader == old(p.reader) && p.errs == old(p.errs) && p.closer == old(p.closer)
  prologue [the reader is started once, and nothing is sent before] {C12} nspawn("chunk.Reader.Recv") == 1 && spawnarg("chunk.Reader.Recv", 0) == p.reader && nsent() == 0 && nclose() == 0
  let c = nrecv(rdchunks(p.reader))
  let e = nrecv(rderrs(p.reader))
  step select [one thing at a time] {C12} nrecv() == 1 && c + e + nrecv(p.closer) == 1
  step select [a chunk goes to the stream of its ID, once and unmodified] {C12} c == 1 && !exits() ==> nsent() == 1
    && (let m = recvv(rdchunks(p.reader)) :: has(p.streams, m.Header.BasicHeader.StreamId) && nsent(p.streams[m.Header.BasicHeader.StreamId].in) == 1
       && sentv(p.streams[m.Header.BasicHeader.StreamId].in) == m)
  step select [the chunk itself is not modified] {C12} c == 1 && !exits() ==> (let m = recvv(rdchunks(p.reader)) :: m.Header == old(m.Header) && m.Data == old(m.Data) && hdrsame(m.Header) && elems(m.Data) == old(elems(m.Data)))
  step select [streams are registered as before] {C11,C12} !exits() ==> (forall i: int :: old(has(p.streams, i)) ==> has(p.streams, i) && p.streams[i] == old(p.streams[i]))
  step select [an error is forwarded once] {C12} e == 1 && !exits() ==> nsent() == 1 && nsent(p.errs) == 1 && sentv(p.errs) == recvv(rderrs(p.reader))
  step select [nothing is closed while running] {C12} !exits() ==> nclose() == 0 && ncall("chunk.Reader.Close") == 0 && nloops("range") == 0
  step select [the loop only ends on request] {C12} exits() ==> nrecv(p.closer) == 1 && nsent() == 0
  step select [closing closes the reader, the errors and every stream] {C12} exits() ==> ncallon("chunk.Reader.Close", p.reader) == 1 && nclose(p.errs) == 1 && nclose(p.closer) == 1 && nclose() == 2 && nloops("range") == 1 && earlyloops() == 0
  step range [each stream is closed once] {C12} nclose() == 1 && nclose(p.streams[rangekey()].in) == 1
end

func chunk.NewMultiStream() (m)
  props C13
  ensures [a new output channel, no forwarders] {C13} m != nil && fresh(m) && m.out != nil && fresh(m.out) && wgcount(m.wg) == 0
end
func chunk.MultiStream.In(m) (c)
  props C13
  ensures [the output channel] {C13} c == m.out
end
func chunk.MultiStream.AwaitClose(m)
  props C13
  requires m.out != nil
  ensures [the output is closed once, after waiting for all forwarders] {C13} nclose() == 1 && nclose(m.out) == 1 && ncallon("sync.WaitGroup.Wait", m.wg) == 1 && callindex("sync.WaitGroup.Wait") < evindex(close, m.out) && nsent() == 0
end

interface chunk.Stream.In(s) (c)
  pure
  event
end

# one forwarder for each stream, counted before it is started
func chunk.MultiStream.Append(m, others) (r)
  props C13
  event
  requires forall i: int :: 0 <= i && i < len(others) ==> others[i] != nil
  modifies m.wg
  ensures r == m
  ensures [one forwarder for each stream] {C13} wgcount(m.wg) == old(wgcount(m.wg)) + len(others)
  inv wgcount(m.wg) == old(wgcount(m.wg)) + len(others)
  inv (n: int) wgcount(m.wg) == old(wgcount(m.wg)) + n + 1
  inv m.out == old(m.out)
  step loop (n: int) [one forwarder for the stream's channel] {C13} !exits() ==> nspawn("func") == 1 && spawnarg("func", 0) == pureof("chunk.Stream.In", others[n + 1])
  step loop [nothing is sent or closed] {C13} nsent() == 0 && nclose() == 0
  step loop [forwarders are counted before they are started] {C13} ncall("sync.WaitGroup.Add") >= 1 ==> callindex("sync.WaitGroup.Add") < callindex("func")
  spawn (ch)
    props C13
    modifies everything
    inv m.out == old(m.out)
    step loop [what is received is sent once, unmodified] {C13} !exits() ==> nrecvok() == 1 && nrecvok(ch) == 1 && nsent() == 1 && nsent(m.out) == 1 && sentv(m.out) == recvv(ch) && evindex(recv, ch) < evindex(send, m.out)
    step loop [the forwarder only ends when its stream ends] {C13} exits() ==> nrecvok() == 0 && nrecv(ch) == 1 && nsent() == 0
    step loop [and signals completion once] {C13} ncallon("sync.WaitGroup.Done", m.wg) == (if exits() then 1 else 0) && nclose() == 0
  end
end
