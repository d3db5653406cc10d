# Package handshake.

# a packet on the wire: two times and the challenge
def pktenc(a: *handshake.AckPacket) = be(a.Time1, 4) ++ be(a.Time2, 4) ++ bytes(a.Payload)

func handshake.AckPacket.Read(a, r) (err)
  props C09, C15, H01, H02
  requires r != nil
  modifies in(r), a.*
  let S = old(in(r))
  ensures [succeeds exactly when the whole packet is there] {C09,C15,H02} err == nil <==> len(S) >= 1536
  ensures [its fields] {H01,H02,C15} err == nil ==> a.Time1 == beval(S[0:4], 4) && a.Time2 == beval(S[4:8], 4) && bytes(a.Payload) == S[8:1536]
  ensures [not one byte more is consumed] {H01,C15} err == nil ==> in(r) == S[1536:]
end

func handshake.AckPacket.Write(a, w) (err)
  props H01, H02
  requires w != nil
  modifies out(w)
  ensures [1536 bytes, or an error] {H01} wrote(w, pktenc(a), err)
  ensures [nothing but the packet] {H01} (err == nil <==> wfails(w) == old(wfails(w)))
end

# version exchange
func handshake.NewVersionSequence() (v)
  props H01, H02, H03
  ensures [RTMP version 3] {H01,H02} v != nil && fresh(v) && v.Supported == 3
end
func handshake.VerisonSequence.Read(v, r) (err)
  props C09, C15, H02
  requires r != nil
  modifies in(r)
  let S = old(in(r))
  ensures [succeeds exactly for the supported version] {C09,C15,H02} err == nil <==> len(S) >= 1 && S[0] == v.Supported
  ensures [one byte is consumed] {H01,C15} err == nil ==> in(r) == S[1:]
end
func handshake.VerisonSequence.WriteTo(v, w) (err)
  props H01, H02
  requires w != nil
  modifies out(w)
  ensures [the version byte] {H01} wrote(w, seq(v.Supported), err)
  ensures {H02} (err == nil <==> wfails(w) == old(wfails(w)))
end
func handshake.VerisonSequence.Next(v) (s)
  props H01, H03
  ensures [the challenge exchange follows] {H01,H03} is(s, *handshake.ClientAckSequence) && cliok(as(s, *handshake.ClientAckSequence)) && fresh(as(s, *handshake.ClientAckSequence)) && fresh(as(s, *handshake.ClientAckSequence).C1) && fresh(as(s, *handshake.ClientAckSequence).S1)
end

# challenge exchange
def cliok(c: *handshake.ClientAckSequence) = c != nil && c.C1 != nil && c.S1 != nil && c.C1 != c.S1

func handshake.NewClientAckSequence() (c)
  props H01
  ensures [its own packets] {H01} cliok(c) && fresh(c) && fresh(c.C1) && fresh(c.S1)
end
func handshake.ClientAckSequence.Read(c, r) (err)
  props C09, C15, H01, H02
  requires r != nil && cliok(c)
  modifies in(r), c.C1.*
  let S = old(in(r))
  ensures [succeeds exactly when the whole challenge is there] {C09,C15,H02} err == nil <==> len(S) >= 1536
  ensures [it is remembered] {H01} err == nil ==> c.C1.Time1 == beval(S[0:4], 4) && bytes(c.C1.Payload) == S[8:1536]
  ensures [not one byte more is consumed] {H01,C15} err == nil ==> in(r) == S[1536:]
end
func handshake.ClientAckSequence.WriteTo(c, w) (err)
  props H01, H02
  requires w != nil && cliok(c)
  modifies out(w)
  let n = len(old(out(w)))
  ensures {H01,H02} (err == nil <==> wfails(w) == old(wfails(w)))
  ensures [the own challenge] {H01} err == nil ==> len(out(w)) == n + 3072 && out(w)[0:n] == old(out(w)) && out(w)[n:n + 1536] == pktenc(c.S1)
  ensures [the acknowledgement carries the peer's time and challenge] {H01} err == nil ==> out(w)[n + 1536:n + 1540] == be(c.C1.Time1, 4) && out(w)[n + 1544:n + 3072] == bytes(c.C1.Payload)
end
func handshake.ClientAckSequence.Next(c) (s)
  props H01, H02, H03
  requires cliok(c)
  ensures [the acknowledgement of the own challenge follows] {H02,H03} is(s, *handshake.ServerAckSequence) && as(s, *handshake.ServerAckSequence) != nil && fresh(as(s, *handshake.ServerAckSequence)) && as(s, *handshake.ServerAckSequence).S1 == c.S1
end

# acknowledgement
func handshake.NewServerAckSequence(s1) (s)
  props H02
  ensures {H02} s != nil && fresh(s) && s.S1 == s1
end
func handshake.ServerAckSequence.Read(s, r) (err)
  props C09, C15, H01, H02
  requires r != nil && s.S1 != nil
  modifies in(r)
  let S = old(in(r))
  ensures [succeeds exactly when the own challenge comes back] {C09,C15,H02} err == nil <==> len(S) >= 1536 && S[8:1536] == bytes(s.S1.Payload)
  ensures [not one byte more is consumed] {H01,C15} err == nil ==> in(r) == S[1536:]
end
func handshake.ServerAckSequence.WriteTo(s, w) (err)
  props H01, H02
  ensures [nothing is written] {H01,H02} err == nil
end
func handshake.ServerAckSequence.Next(s) (r)
  props H01, H03
  ensures [the last step] {H01,H03} r == nil
end

# the driver
func handshake.With(p) (h)
  props H01, H03
  requires p != nil
  ensures [a new driver] {H03} h != nil && fresh(h) && h.rw == p.Conn
  ensures [it starts with the step it is given, or with the version exchange] {H01,H03} (if p.Initial != nil then h.current == p.Initial
    else is(h.current, *handshake.VerisonSequence) && as(h.current, *handshake.VerisonSequence).Supported == 3 && fresh(as(h.current, *handshake.VerisonSequence)))
end

interface handshake.Sequence.Read(s, r) (err)
  event
  modifies in(r)
end
interface handshake.Sequence.WriteTo(s, w) (err)
  event
  modifies out(w)
end
interface handshake.Sequence.Next(s) (r)
  event
end

# any chain of steps
func handshake.Handshaker.Handshake(h) (err)
  props H03
  event
  requires h.rw != nil
  modifies h.current, in(h.rw), out(h.rw)
  inv h.rw == old(h.rw)
  let R = "handshake.Sequence.Read"
  prologue [nothing happens before the first step] {H03} nevents() == 0
  step loop [each step reads, then writes, then gives way to the next] {H03} !exits() ==> nevents() == 3
    && ncallon("handshake.Sequence.Read", old(h.current)) == 1 && ncallon("handshake.Sequence.WriteTo", old(h.current)) == 1 && ncallon("handshake.Sequence.Next", old(h.current)) == 1
    && callindex("handshake.Sequence.Read") < callindex("handshake.Sequence.WriteTo") && callindex("handshake.Sequence.WriteTo") < callindex("handshake.Sequence.Next")
  step loop [on the connection] {H03} (ncall("handshake.Sequence.Read") == 1 ==> callarg("handshake.Sequence.Read", 1) == h.rw) && (ncall("handshake.Sequence.WriteTo") == 1 ==> callarg("handshake.Sequence.WriteTo", 1) == h.rw)
  step loop [the next step is the one announced] {H03} !exits() ==> h.current == callres("handshake.Sequence.Next", 0)
  step loop [without an error] {H03} !exits() ==> callres("handshake.Sequence.Read", 0) == nil && callres("handshake.Sequence.WriteTo", 0) == nil
  step loop [success exactly at the end of the chain] {H03} exits() ==> (err == nil <==> old(h.current) == nil) && (old(h.current) == nil ==> nevents() == 0)
  step loop [the first error is returned] {H03} exits() && err != nil ==> ncallon("handshake.Sequence.Read", old(h.current)) == 1
    && (if callres("handshake.Sequence.Read", 0) != nil then err == callres("handshake.Sequence.Read", 0) && nevents() == 1
        else ncallon("handshake.Sequence.WriteTo", old(h.current)) == 1 && nevents() == 2 && callres("handshake.Sequence.WriteTo", 0) != nil && err == callres("handshake.Sequence.WriteTo", 0))
end

# the whole handshake
func handshake.Handshaker.Handshake@server(h) (err)
  props H01, H02, C09, C15, C08
  requires h.rw != nil && is(h.current, *handshake.VerisonSequence) && as(h.current, *handshake.VerisonSequence) != nil && as(h.current, *handshake.VerisonSequence).Supported == 3
  modifies h.current, in(h.rw), out(h.rw)
  let S = old(in(h.rw))
  let n = len(old(out(h.rw)))
  let W = wfails(h.rw) == old(wfails(h.rw))
  let chal = out(h.rw)[n + 9:n + 1537]
  ensures [succeeds exactly for the right peers] {H02,C09,C15} err == nil <==> W && len(S) >= 3073 && S[0] == 3 && S[1545:3073] == chal
  ensures [a wrong version is rejected before anything is written] {H02} len(S) < 1 || S[0] != 3 ==> err != nil && out(h.rw) == old(out(h.rw)) && wcalls(h.rw) == old(wcalls(h.rw))
  ensures [1 + 1536 + 1536 bytes are written] {H01} W && len(S) >= 1537 && S[0] == 3 ==> len(out(h.rw)) == n + 3073 && out(h.rw)[0:n] == old(out(h.rw)) && out(h.rw)[n] == 3
  ensures [the acknowledgement carries the peer's time and challenge] {H01} W && len(S) >= 1537 && S[0] == 3 ==> out(h.rw)[n + 1537:n + 1541] == S[1:5] && out(h.rw)[n + 1545:n + 3073] == S[9:1537]
  ensures [not one byte more is consumed] {H01,C15} err == nil ==> in(h.rw) == S[3073:]
end
