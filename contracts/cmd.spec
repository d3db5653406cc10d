# Package cmd: gates and the dispatcher.

interface cmd.Gate.Open(g, c) (ok)
  pure
  event
  requires c != nil && c.Header != nil
end

func cmd.StreamIdGate.Open(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  ensures [by chunk stream] {G01} ok <==> c.Header.BasicHeader.StreamId == g.StreamId
end
func cmd.MessageStreamGate.Open(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  ensures [by message stream] {G01} ok <==> c.Header.MessageHeader.StreamId == g.StreamId
end
func cmd.TypeIdGate.Open(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  ensures [by message type] {G01} ok <==> c.Header.MessageHeader.TypeId == g.TypeId
end

def opens(g: cmd.Gate, c: *chunk.Chunk) = pureof("cmd.Gate.Open", g, c)

func cmd.NewUnionGate(gates) (g)
  props G01
  ensures [over the given gates] {G01} g != nil && fresh(g) && len(g.gates) == len(gates) && (forall i: int :: 0 <= i && i < len(gates) ==> g.gates[i] == gates[i])
end
func cmd.NewAnyGate(gates) (g)
  props G01
  ensures [over the given gates] {G01} g != nil && fresh(g) && len(g.gates) == len(gates) && (forall i: int :: 0 <= i && i < len(gates) ==> g.gates[i] == gates[i])
end
func cmd.UnionGate.Open@law(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  requires forall i: int :: 0 <= i && i < len(g.gates) ==> g.gates[i] != nil
  terminates
  inv (n: int) (forall i: int :: 0 <= i && i < n + 1 ==> opens(g.gates[i], c))
  ensures [a conjunction is open iff it is not empty and every member is open] {G01} ok <==> len(g.gates) > 0 && (forall i: int :: 0 <= i && i < len(g.gates) ==> opens(g.gates[i], c))
end
func cmd.AnyGate.Open@law(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  requires forall i: int :: 0 <= i && i < len(g.gates) ==> g.gates[i] != nil
  terminates
  inv (n: int) (forall i: int :: 0 <= i && i < n + 1 ==> !opens(g.gates[i], c))
  ensures [a disjunction is open iff some member is open] {G01} ok <==> (exists i: int :: 0 <= i && i < len(g.gates) && opens(g.gates[i], c))
end

# what the three gates are for
def csid(c: *chunk.Chunk) = c.Header.BasicHeader.StreamId
def fornet(cs: int, ms: int, ty: int) = cs == 3 || (cs == 8 && ms == 0)
def forstream(cs: int, ms: int, ty: int) = ty == 20 && (cs == 4 || (cs == 8 && ms == 1))
def fordata(cs: int, ms: int, ty: int) = cs == 4 && (ty == 8 || ty == 9 || ty == 18)

lemma gatesdisjoint(cs: int, ms: int, ty: int)
  props G01
  ensures [no chunk is for two of them] {G01} !(fornet(cs, ms, ty) && forstream(cs, ms, ty)) && !(fornet(cs, ms, ty) && fordata(cs, ms, ty)) && !(forstream(cs, ms, ty) && fordata(cs, ms, ty))
end

func cmd.NetConnGate.Open(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  ensures [chunks for the net connection] {G01} ok <==> fornet(csid(c), c.Header.MessageHeader.StreamId, c.Header.MessageHeader.TypeId)
end
func cmd.NetStreamGate.Open(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  ensures [chunks for the net stream] {G01} ok <==> forstream(csid(c), c.Header.MessageHeader.StreamId, c.Header.MessageHeader.TypeId)
end
func cmd.DataStreamGate.Open(g, c) (ok)
  props G01
  requires c != nil && c.Header != nil
  ensures [chunks for the data stream] {G01} ok <==> fordata(csid(c), c.Header.MessageHeader.StreamId, c.Header.MessageHeader.TypeId)
end

# the dispatcher
def msrc(m: *cmd.Manager) = pureof("chunk.Stream.In", m.chunks)
def mgrok(m: *cmd.Manager) = m.chunks != nil && m.closer != nil && m.channels != nil
  && (forall g: cmd.Gate :: has(m.channels, g) ==> g != nil && m.channels[g] != nil && m.channels[g] != msrc(m))
  && (forall g: cmd.Gate, h: cmd.Gate :: has(m.channels, g) && has(m.channels, h) && g != h ==> m.channels[g] != m.channels[h])
def childrenok(m: *cmd.Manager) = m.netConn != nil && connok(m.netConn) && m.netStream != nil && nsok(m.netStream) && m.dataStream != nil && dsok(m.dataStream)
  && m.closer != m.netConn.closer && m.closer != m.netStream.closer && m.closer != m.dataStream.closer

func cmd.New(chunks, writer) (m)
  props G02
  withinit
  requires chunks != nil && writerok(writer)
  requires alive(pureof("chunk.Stream.In", chunks))
  ensures [a dispatcher for the three gates, with three children of its own] {G02} m != nil && fresh(m) && m.chunks == chunks && mgrok(m) && childrenok(m)
  ensures [the gate of each child leads to it, and there is no other] {G02} (forall g: cmd.Gate :: has(m.channels, g) <==> g == global(cmd.NetConnGate) || g == global(cmd.NetStreamGate) || g == global(cmd.DataStreamGate))
    && m.channels[global(cmd.NetConnGate)] == m.netConn.chunkStream && m.channels[global(cmd.NetStreamGate)] == m.netStream.chunks && m.channels[global(cmd.DataStreamGate)] == m.dataStream.chunks
  ensures [the children write to the writer given] {G02} m.netConn.writer == writer && m.netStream.writer == writer && m.dataStream.writer == writer
end
func cmd.Manager.NetConn(m) (c)
  props G02
  ensures c == m.netConn
end
func cmd.Manager.NetStream(m) (c)
  props G02
  ensures c == m.netStream
end
func cmd.Manager.DataStream(m) (c)
  props G02
  ensures c == m.dataStream
end
func cmd.Manager.Close(m)
  props G02
  requires m.closer != nil
  ensures [one close request] {G02} nsent() == 1 && nsent(m.closer) == 1 && nclose() == 0
end
func cmd.Manager.Dispatch(m, manage)
  props G02
  requires mgrok(m)
  requires manage ==> childrenok(m)
  modifies everything
  neverclosed m.closer, m.netConn.closer, m.netStream.closer, m.dataStream.closer
  inv m.netConn == old(m.netConn) && m.netStream == old(m.netStream) && m.dataStream == old(m.dataStream)
  inv m.netConn.closer == old(m.netConn.closer) && m.netStream.closer == old(m.netStream.closer) && m.dataStream.closer == old(m.dataStream.closer)
  inv m.chunks == old(m.chunks) && m.closer == old(m.closer) && m.channels == old(m.channels)
  inv mgrok(m)
  inv manage ==> childrenok(m)
  let c = nrecv(msrc(m))
  let ok = nrecvok(msrc(m))
  step select [one thing at a time] {G02} nrecv() == 1 && c + nrecv(m.closer) == 1
  step select [every gate is asked about a chunk] {G02} ok == 1 && !exits() ==> nloops() == 1 && nloops("range") == 1 && earlyloops() == 0
  step select [nothing is sent otherwise] {G02} ok == 0 && !exits() ==> nloops() == 0
  step select [nothing is sent or closed while running, but through a gate] {G02} !exits() ==> nsent() == 0 && nclose() == 0
  step select [the loop ends on a close request and only then] {G02} exits() <==> nrecv(m.closer) == 1
  step select [every channel is closed then] {G02} exits() ==> nclose() == 1 && nclose(m.closer) == 1 && nloops() == 1 && nloops("range") == 1 && earlyloops() == 0
  step range [a chunk goes to the channel of a gate that is open for it, once and unmodified, and to no other] {G02} outer(nrecvok(msrc(m))) == 1 ==> nclose() == 0 && (let k = outer(recvv(msrc(m))) ::
     nsent() == (if opens(rangekey(), k) then 1 else 0) && (opens(rangekey(), k) ==> nsent(m.channels[rangekey()]) == 1 && sentv(m.channels[rangekey()]) == k)
     && k.Header == old(k.Header) && k.Data == old(k.Data) && hdrsame(k.Header) && elems(k.Data) == old(elems(k.Data)))
  step range [each channel is closed once] {G02} outer(nrecvok(msrc(m))) == 0 ==> nsent() == 0 && nclose() == 1 && nclose(m.channels[rangekey()]) == 1
end
