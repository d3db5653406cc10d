# Package chunk: the header codec.

# the chunk stream IDs a basic header can express
def validid(id: int) = (2 <= id && id <= 62) || (64 <= id && id <= 65599)

# the wire form of each header part
def basicenc(f: int, id: int) =
  if id < 64 then seq(f * 64 + id) else
  if id < 320 then seq(f * 64, id - 64) else seq(f * 64 + 63) ++ be(id - 64, 2)

def msgenc(f: int, ts: int, ln: int, ty: int, sid: int) =
  if f == 0 then be(ts, 3) ++ be(ln, 3) ++ seq(ty) ++ le(sid, 4) else
  if f == 1 then be(ts, 3) ++ be(ln, 3) ++ seq(ty) else
  if f == 2 then be(ts, 3) else zeros(0)

def extenc(ts: int, ext: int) = if ts == 16777215 then be(ext, 4) else zeros(0)

def hdrenc(h: *chunk.Header) =
  basicenc(h.BasicHeader.FormatId, h.BasicHeader.StreamId)
  ++ msgenc(h.MessageHeader.FormatId, h.MessageHeader.Timestamp, h.MessageHeader.Length, h.MessageHeader.TypeId, h.MessageHeader.StreamId)
  ++ extenc(h.MessageHeader.Timestamp, h.ExtendedTimestamp.Delta)

# the bytes of s reach w, or an error is reported
def wrote(w: io.Writer, s: seq, err: error) =
  (err == nil ==> out(w) == old(out(w)) ++ s && wfails(w) == old(wfails(w)))
  && (err != nil ==> wfails(w) > old(wfails(w)))

# how many bytes each part takes, from its first byte or its format
def blen(b: int) = if b % 64 == 63 then 3 else if b % 64 == 0 then 2 else 1
def mlen(f: int) = if f == 0 then 11 else if f == 1 then 7 else if f == 2 then 3 else 0
def bid(s: seq) =
  if s[0] % 64 == 63 then beval(s[1:3], 2) + 64 else
  if s[0] % 64 == 0 then s[1] + 64 else s[0] % 64

func chunk.BasicHeader.Write(h, w) (err)
  props C01, C02
  requires w != nil
  modifies out(w)
  ensures [written in one piece or an error] {C02} (err == nil <==> wfails(w) == old(wfails(w)))
  ensures [wire layout] {C01,C02} h.FormatId <= 3 && validid(h.StreamId) ==> wrote(w, basicenc(h.FormatId, h.StreamId), err)
end

func chunk.BasicHeader.Read(h, r) (err)
  props C01, C02, C09, C15
  requires r != nil
  modifies in(r), h.*
  ensures [succeeds exactly when all bytes are there] {C02,C09,C15} (err == nil) <==> (len(old(in(r))) >= 1 && len(old(in(r))) >= blen(old(in(r))[0]))
  ensures [format] {C01,C02} err == nil ==> h.FormatId == old(in(r))[0] / 64
  ensures [chunk stream ID] {C01,C02} err == nil ==> h.StreamId == bid(old(in(r)))
  ensures [consumes exactly the header] {C01,C02,C15} err == nil ==> in(r) == old(in(r))[blen(old(in(r))[0]):]
  ensures err != nil ==> len(in(r)) == 0
end

func chunk.MessageHeader.HasExtendedTimestamp(m) (ok)
  props C02
  ensures [exactly at 0xffffff] {C02} ok <==> m.Timestamp == 16777215
end

func chunk.MessageHeader.Write(m, w) (err)
  props C01, C02
  requires w != nil
  modifies out(w)
  ensures [wire layout] {C01,C02} wrote(w, msgenc(m.FormatId, m.Timestamp, m.Length, m.TypeId, m.StreamId), err)
end

func chunk.MessageHeader.Read(m, r) (err)
  props C01, C02, C09, C15
  requires r != nil
  modifies in(r), m.*
  ensures [succeeds exactly when all bytes are there and the format is known] {C02,C09,C15} (err == nil) <==> (old(m.FormatId) <= 3 && len(old(in(r))) >= mlen(old(m.FormatId)))
  ensures [the format is left alone] m.FormatId == old(m.FormatId)
  ensures [timestamp] {C01,C02} err == nil && old(m.FormatId) <= 2 ==> m.Timestamp == beval(old(in(r))[0:3], 3) && (m.TimestampDelta <==> old(m.FormatId) != 0)
  ensures [length and type] {C01,C02} err == nil && old(m.FormatId) <= 1 ==> m.Length == beval(old(in(r))[3:6], 3) && m.TypeId == old(in(r))[6]
  ensures [message stream ID] {C01,C02} err == nil && old(m.FormatId) == 0 ==> m.StreamId == leval(old(in(r))[7:11], 4)
  ensures [what is not on the wire is left alone] {C01,C02} err == nil && old(m.FormatId) >= 1 ==> m.StreamId == old(m.StreamId)
  ensures err == nil && old(m.FormatId) >= 2 ==> m.Length == old(m.Length) && m.TypeId == old(m.TypeId)
  ensures err == nil && old(m.FormatId) == 3 ==> m.Timestamp == old(m.Timestamp) && m.TimestampDelta == old(m.TimestampDelta)
  ensures [consumes exactly the header] {C01,C02,C15} err == nil ==> in(r) == old(in(r))[mlen(old(m.FormatId)):]
end

func chunk.ExtendedTimestamp.Write(t, w) (err)
  props C01, C02
  requires w != nil
  modifies out(w)
  ensures [wire layout] {C01,C02} wrote(w, be(t.Delta, 4), err)
end

func chunk.ExtendedTimestamp.Read(t, r) (err)
  props C01, C02, C09, C15
  requires r != nil
  modifies in(r), t.Delta
  ensures [succeeds exactly when all bytes are there] {C02,C09,C15} (err == nil) <==> len(old(in(r))) >= 4
  ensures [value] {C01,C02} err == nil ==> t.Delta == beval(old(in(r))[0:4], 4) && in(r) == old(in(r))[4:]
  ensures err != nil ==> len(in(r)) == 0 && t.Delta == old(t.Delta)
end

func chunk.Header.Write(h, w) (err)
  props C01, C02
  requires w != nil
  modifies out(w)
  ensures [an error exactly when a write failed] {C02} (err == nil <==> wfails(w) == old(wfails(w)))
  ensures [wire layout] {C01,C02} h.BasicHeader.FormatId <= 3 && validid(h.BasicHeader.StreamId) ==> wrote(w, hdrenc(h), err)
end

# what a header read from s has to hold, and how long it is
def hmin(s: seq) = blen(s[0]) + mlen(s[0] / 64)
def hts(s: seq) = beval(s[blen(s[0]):blen(s[0]) + 3], 3)
def hext(s: seq, ts: int) = if s[0] / 64 <= 2 then hts(s) == 16777215 else ts == 16777215
def hlen(s: seq, ts: int) = if hext(s, ts) then hmin(s) + 4 else hmin(s)

func chunk.Header.Read(h, r) (err)
  props C01, C02, C09, C15
  requires r != nil
  modifies in(r), h.*
  let S = old(in(r))
  let f = old(in(r))[0] / 64
  let k = blen(old(in(r))[0])
  let ts = old(h.MessageHeader.Timestamp)
  ensures [succeeds exactly when all bytes are there] {C02,C09,C15} (err == nil) <==> (len(S) >= 1 && len(S) >= hmin(S) && len(S) >= hlen(S, ts))
  ensures [format, in both parts] {C01,C02} err == nil ==> h.BasicHeader.FormatId == f && h.MessageHeader.FormatId == f
  ensures [chunk stream ID] {C01,C02} err == nil ==> h.BasicHeader.StreamId == bid(S)
  ensures [timestamp] {C01,C02} err == nil && f <= 2 ==> h.MessageHeader.Timestamp == hts(S) && (h.MessageHeader.TimestampDelta <==> f != 0)
  ensures [length and type] {C01,C02} err == nil && f <= 1 ==> h.MessageHeader.Length == beval(S[k + 3:k + 6], 3) && h.MessageHeader.TypeId == S[k + 6]
  ensures [message stream ID] {C01,C02} err == nil && f == 0 ==> h.MessageHeader.StreamId == leval(S[k + 7:k + 11], 4)
  ensures [extended timestamp] {C01,C02} err == nil && hext(S, ts) ==> h.ExtendedTimestamp.Delta == beval(S[hmin(S):hmin(S) + 4], 4)
  ensures [fields not on the wire are left alone] {C01,C02} err == nil ==>
    (f >= 1 ==> h.MessageHeader.StreamId == old(h.MessageHeader.StreamId))
    && (f >= 2 ==> h.MessageHeader.Length == old(h.MessageHeader.Length) && h.MessageHeader.TypeId == old(h.MessageHeader.TypeId))
    && (f == 3 ==> h.MessageHeader.Timestamp == ts && h.MessageHeader.TimestampDelta == old(h.MessageHeader.TimestampDelta))
    && (!hext(S, ts) ==> h.ExtendedTimestamp.Delta == old(h.ExtendedTimestamp.Delta))
  ensures [consumes exactly the header] {C01,C02,C15} err == nil ==> in(r) == S[hlen(S, ts):]
end

# what is written for a well-formed header is read back as that header, whatever follows
def wfhdr(f: int, id: int, ts: int, ln: int, ty: int, sid: int, ext: int) =
  0 <= f && f <= 3 && validid(id) && 0 <= ts && ts <= 16777215 && 0 <= ln && ln <= 16777215
  && 0 <= ty && ty <= 255 && 0 <= sid && sid <= 4294967295 && 0 <= ext && ext <= 4294967295
  && (f >= 1 ==> sid == 0) && (f >= 2 ==> ln == 0 && ty == 0) && (f == 3 ==> ts == 0)
  && (ts != 16777215 ==> ext == 0)
def enc(f: int, id: int, ts: int, ln: int, ty: int, sid: int, ext: int) =
  basicenc(f, id) ++ msgenc(f, ts, ln, ty, sid) ++ extenc(ts, ext)

lemma header_roundtrip(f: int, id: int, ts: int, ln: int, ty: int, sid: int, ext: int, T: seq)
  props C01
  requires wfhdr(f, id, ts, ln, ty, sid, ext)
  split f == 0
  split f == 1
  split f == 2
  split id < 64
  split id < 320
  split ts == 16777215
  ensures [length] {C01} hlen(enc(f, id, ts, ln, ty, sid, ext) ++ T, 0) == len(enc(f, id, ts, ln, ty, sid, ext))
  ensures [the rest is left] {C01} (enc(f, id, ts, ln, ty, sid, ext) ++ T)[hlen(enc(f, id, ts, ln, ty, sid, ext) ++ T, 0):] == T
  ensures [format] {C01} (enc(f, id, ts, ln, ty, sid, ext) ++ T)[0] / 64 == f
  ensures [chunk stream ID] {C01} bid(enc(f, id, ts, ln, ty, sid, ext) ++ T) == id
  ensures [timestamp] {C01} f <= 2 ==> hts(enc(f, id, ts, ln, ty, sid, ext) ++ T) == ts
  ensures [length and type] {C01} f <= 1 ==> (let S = enc(f, id, ts, ln, ty, sid, ext) ++ T :: let k = blen(S[0]) ::
    beval(S[k + 3:k + 6], 3) == ln && S[k + 6] == ty)
  ensures [message stream ID] {C01} f == 0 ==> (let S = enc(f, id, ts, ln, ty, sid, ext) ++ T :: let k = blen(S[0]) ::
    leval(S[k + 7:k + 11], 4) == sid)
  ensures [extended timestamp] {C01} (let S = enc(f, id, ts, ln, ty, sid, ext) ++ T ::
    (hext(S, 0) <==> (f <= 2 && ts == 16777215)) && (hext(S, 0) ==> beval(S[hmin(S):hmin(S) + 4], 4) == ext))
end
