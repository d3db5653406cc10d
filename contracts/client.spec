# Packages client and server.

def lis(i: int) = i == 2 || i == 3 || i == 4 || i == 5 || i == 8

func client.New(conn) (c)
  props V01
  event
  withinit
  requires conn != nil
  let r = as(c.chunks.reader, *chunk.DefaultReader)
  let w = as(c.controlStream.writer, *chunk.DefaultWriter)
  ensures c != nil && fresh(c) && c.Conn == conn && c.chunks != nil && parserok(c.chunks)
  ensures [it reads the connection, 128 bytes a chunk to start with] {V01} is(c.chunks.reader, *chunk.DefaultReader) && r.src == conn && r.readSize == 128
  ensures [it listens on chunk streams 2, 3, 4, 5 and 8] {V01} forall i: int :: has(c.chunks.streams, i) <==> lis(i)
  ensures [control messages come from chunk stream 2] {V01} c.controlStream != nil && is(c.controlStream.chunks, *chunk.stream) && as(c.controlStream.chunks, *chunk.stream) == c.chunks.streams[2]
  ensures [commands come from the others] {V01} c.cmdManager != nil && is(c.cmdManager.chunks, *chunk.MultiStream) && mgrok(c.cmdManager) && childrenok(c.cmdManager)
  ensures [both write to the connection] {V01} is(c.controlStream.writer, *chunk.DefaultWriter) && w.dest == conn && c.cmdManager.netConn.writer == c.controlStream.writer
  ensures [nothing is read yet] {V01} in(conn) == old(in(conn)) && out(conn) == old(out(conn))
end
func client.New@law(conn) (c)
  props V01
  withinit
  requires conn != nil
  ensures [nothing is started] {V01} nspawn("chunk.Parser.Recv") == 0 && nspawn("chunk.Reader.Recv") == 0 && nspawn("func") == 0 && ncall("handshake.Handshaker.Handshake") == 0
end
func client.Client.Handshake(c) (err)
  props V01
  requires c.Conn != nil && c.chunks != nil && parserok(c.chunks) && c.chunks.reader != nil && rdchunks(c.chunks.reader) != rderrs(c.chunks.reader) && rdchunks(c.chunks.reader) != c.chunks.errs
  modifies in(c.Conn), out(c.Conn)
  let H = "handshake.Handshaker.Handshake"
  ensures [one handshake, on the connection, from the first step] {V01} ncall("handshake.Handshaker.Handshake") == 1
    && atcall("handshake.Handshaker.Handshake", callarg("handshake.Handshaker.Handshake", 0).rw == c.Conn && is(callarg("handshake.Handshaker.Handshake", 0).current, *handshake.VerisonSequence))
  ensures [its error is returned] {V01} err == callres("handshake.Handshaker.Handshake", 0)
  ensures [chunks are read if it succeeded, once, after it] {V01} err == nil ==> nspawn("chunk.Parser.Recv") == 1 && spawnarg("chunk.Parser.Recv", 0) == c.chunks && callindex("handshake.Handshaker.Handshake") < callindex("chunk.Parser.Recv") && nevents() == 2
  ensures [and nothing is started if it failed] {V01} err != nil ==> nspawn("chunk.Parser.Recv") == 0 && nevents() == 1
end
func client.Client.Controls(c) (s)
  props V01
  ensures s == c.controlStream
end
func client.Client.Net(c) (m)
  props V01
  ensures m == c.cmdManager
end

# the operating system's listener
func net.Listen(network, address) (l, err)
  trusted dependency
  event
  ensures err == nil ==> l != nil
end
interface net.Listener.Accept(l) (c, err)
  event
  ensures err == nil ==> c != nil
end
interface net.Listener.Close(l) (err)
  event
end
func server.New(bind) (s, err)
  props V01
  let l = callres("net.Listen", 0)
  ensures [one listener, whose error is returned] {V01} ncall("net.Listen") == 1 && err == callres("net.Listen", 1) && (err != nil ==> s == nil)
  ensures [a server for it with channels of its own] {V01} err == nil ==> s != nil && fresh(s) && s.socket == l && s.clients != nil && s.errs != nil && fresh(s.clients) && fresh(s.errs)
end
func server.Server.Clients(s) (c)
  props V01
  ensures [the channel clients are sent to] {V01} c == s.clients
end
func server.Server.Errs(s) (c)
  props V01
  ensures [the channel errors are sent to] {V01} c == s.errs
end
func server.Server.Close(s) (err)
  props V01
  requires s.socket != nil
  ensures [the listener is closed] {V01} ncallon("net.Listener.Close", s.socket) == 1 && err == callres("net.Listener.Close", 0)
end
func server.Server.Accept(s)
  props V01
  requires s.socket != nil && s.clients != nil && s.errs != nil
  modifies everything
  inv s.socket == old(s.socket) && s.clients == old(s.clients) && s.errs == old(s.errs)
  prologue [nothing happens before] {V01} nevents() == 0
  let e = callres("net.Listener.Accept", 1)
  step loop [one connection at a time, for ever] {V01} !exits() && ncall("net.Listener.Accept") == 1 && callarg("net.Listener.Accept", 0) == s.socket && nrecv() == 0 && nclose() == 0 && nspawn() == 0
  step loop [an error is reported once] {V01} e != nil ==> ncall("client.New") == 0 && nsent() == 1 && nsent(s.errs) == 1 && sentv(s.errs) == e
  step loop [a connection becomes one client, handed out once] {V01} e == nil ==> ncall("client.New") == 1 && callarg("client.New", 0) == callres("net.Listener.Accept", 0) && nsent() == 1 && nsent(s.clients) == 1 && sentv(s.clients) == callres("client.New", 0)
end
