# Package chunk: the reader.

guarded chunk.DefaultReader.readSize by rmu
guarded chunk.DefaultReader.builders by bmu

# a message in progress
def buildok(b: *chunk.Builder) = b != nil && b.Header != nil && 1 <= b.left && b.left <= 4294967295 && len(b.Payloads) <= cap(b.Payloads)

def readerok(r: *chunk.DefaultReader) =
  r.src != nil && r.normalizer != nil && r.builders != nil
  && 1 <= r.readSize && r.readSize <= 4294967295
  && (forall id: int :: has(r.builders, id) ==> buildok(r.builders[id]) && r.builders[id].Header.BasicHeader.StreamId == id)
  && (forall i: int, j: int :: has(r.builders, i) && has(r.builders, j) && i != j ==>
       r.builders[i] != r.builders[j] && (cap(r.builders[i].Payloads) == 0 || cap(r.builders[j].Payloads) == 0 || !sameArray(r.builders[i].Payloads, r.builders[j].Payloads)))

# how many bytes the header of a chunk takes, whose completed timestamp is ts
def rdlen(S: seq, ts: int) = if ts == 16777215 then hmin(S) + 4 else hmin(S)

# a completed header, field by field
def hdris(h: *chunk.Header, f: int, id: int, ts: int, ln: int, ty: int, sid: int, ext: int) =
  h.BasicHeader.FormatId == f && h.BasicHeader.StreamId == id && h.MessageHeader.FormatId == f && h.MessageHeader.Timestamp == ts
  && h.MessageHeader.Length == ln && h.MessageHeader.TypeId == ty && h.MessageHeader.StreamId == sid && h.ExtendedTimestamp.Delta == ext

def hdrsame(h: *chunk.Header) =
  h.BasicHeader.FormatId == old(h.BasicHeader.FormatId) && h.BasicHeader.StreamId == old(h.BasicHeader.StreamId)
  && h.MessageHeader.FormatId == old(h.MessageHeader.FormatId) && h.MessageHeader.Timestamp == old(h.MessageHeader.Timestamp) && (h.MessageHeader.TimestampDelta <==> old(h.MessageHeader.TimestampDelta))
  && h.MessageHeader.Length == old(h.MessageHeader.Length) && h.MessageHeader.TypeId == old(h.MessageHeader.TypeId) && h.MessageHeader.StreamId == old(h.MessageHeader.StreamId)
  && h.ExtendedTimestamp.Delta == old(h.ExtendedTimestamp.Delta)

func chunk.NewReader(src, readSize, normalizer) (r)
  props C05
  ensures [nothing in progress] {C05} is(r, *chunk.DefaultReader) && as(r, *chunk.DefaultReader).src == src && as(r, *chunk.DefaultReader).readSize == readSize
    && as(r, *chunk.DefaultReader).normalizer == normalizer && as(r, *chunk.DefaultReader).builders != nil
    && (forall id: int :: !has(as(r, *chunk.DefaultReader).builders, id))
end

func chunk.DefaultReader.ReadSize(r) (n)
  props C05, C07
  ensures n == r.readSize
end

func chunk.DefaultReader.SetReadSize(r, n)
  props C05, C07
  modifies r.readSize
  ensures r.readSize == n
end

# each iteration of the reader's loop
func chunk.DefaultReader.Recv(r)
  props C04, C05, C06, C07, C09, C15
  requires readerok(r)
  requires is(r.normalizer, *chunk.DefaultNormalizer) && normok(as(r.normalizer, *chunk.DefaultNormalizer))
  requires r.errs != r.chunks
  modifies everything
  neverclosed r.chunks, r.errs
  inv [messages in progress are separate and incomplete] readerok(r)
  inv normok(as(r.normalizer, *chunk.DefaultNormalizer))
  let n = as(r.normalizer, *chunk.DefaultNormalizer)
  let S = old(in(r.src))
  let f = S[0] / 64
  let id = bid(S)
  let k = blen(S[0])
  let known = old(has(n.headers, id))
  let ts = if f <= 2 then hts(S) else if known then old(n.headers[id].MessageHeader.Timestamp) else 0
  let ln = if f <= 1 then beval(S[k + 3:k + 6], 3) else if known then old(n.headers[id].MessageHeader.Length) else 0
  let ty = if f <= 1 then S[k + 6] else if known then old(n.headers[id].MessageHeader.TypeId) else 0
  let sid = if f == 0 then leval(S[k + 7:k + 11], 4) else if known then old(n.headers[id].MessageHeader.StreamId) else 0
  let H = rdlen(S, ts)
  let started = old(has(r.builders, id))
  let left = if started then old(r.builders[id].left) else ln
  let m = min(left, old(r.readSize))
  let ok = len(S) >= 1 && len(S) >= hmin(S) && len(S) >= H + m
  let P = S[H:H + m]
  let D = if started then old(flat(elems(r.builders[id].Payloads))) ++ P else P
  let whole = ok && left == m
  let mty = if started then old(r.builders[id].Header.MessageHeader.TypeId) else ty
  let ext = if ts == 16777215 then beval(S[hmin(S):hmin(S) + 4], 4) else 0
  let resize = whole && mty == 1 && len(D) >= 4 && beval(D[0:4], 4) >= 1
  split S[0] % 64 == 63
  split S[0] % 64 == 0
  split f == 0
  split f == 1
  split f == 2
  split known
  split started
  split left <= old(r.readSize)
  step any [the loop only ends on request] {C05} exits() ==> nrecv(r.closer) == 1
  step any [one error exactly when bytes are missing] {C04,C09,C15} !exits() ==> nsent(r.errs) == (if ok then 0 else 1)
  step any [no message is built from incomplete bytes] {C04,C05,C09} !exits() ==> nsent(r.chunks) == (if whole && !resize then 1 else 0)
  step any [the bytes of one chunk are consumed] {C04,C05,C15} !exits() && ok ==> in(r.src) == S[H + m:]
  step any [the message is all payload bytes of its chunk stream, in order] {C04,C05} !exits() && whole && !resize ==> bytes(sentv(r.chunks).Data) == D
  step any [the message has the header that started it] {C04,C05} !exits() && whole && !resize && started ==> sentv(r.chunks).Header == old(r.builders[id].Header)
  step any [a one-chunk message has its own header] {C04,C05,C06} !exits() && whole && !resize && !started ==> hdris(sentv(r.chunks).Header, f, id, ts, ln, ty, sid, ext)
  step any [headers of messages in progress are never modified] {C05,C06} !exits() ==> (forall i: int :: old(has(r.builders, i)) ==> hdrsame(old(r.builders[i].Header)))
  step any [remembered headers are never modified] {C06} !exits() ==> (forall i: int :: old(has(n.headers, i)) ==> hdrsame(old(n.headers[i])))
  step any [an incomplete message stays in progress] {C04,C05} !exits() && ok && !whole ==> has(r.builders, id) && flat(elems(r.builders[id].Payloads)) == D && r.builders[id].left == left - m
  step any [under the header that started it] {C04,C05} !exits() && ok && !whole ==> (if started then r.builders[id] == old(r.builders[id]) && r.builders[id].Header == old(r.builders[id].Header) else hdris(r.builders[id].Header, f, id, ts, ln, ty, sid, ext))
  step any [the next chunk starts a new message] {C05} !exits() && whole ==> !has(r.builders, id)
  step any [messages on other chunk streams stay in progress] {C05} !exits() ==> (forall i: int :: !(len(S) >= 1 && i == id) ==> (has(r.builders, i) <==> old(has(r.builders, i))))
  step any [and are not exchanged] {C05} !exits() ==> (forall i: int :: !(len(S) >= 1 && i == id) && old(has(r.builders, i)) ==> r.builders[i] == old(r.builders[i]))
  step any [and keep what they had] {C05} !exits() ==> (forall i: int :: !(len(S) >= 1 && i == id) && old(has(r.builders, i)) ==>
    (let b = old(r.builders[i]) :: b.left == old(b.left) && b.Header == old(b.Header)))
  step any [and the bytes received so far] {C05} !exits() ==> (forall i: int :: !(len(S) >= 1 && i == id) && old(has(r.builders, i)) ==>
    (let b = old(r.builders[i]) :: b.Payloads == old(b.Payloads) && elems(b.Payloads) == old(elems(b.Payloads))))
  step any [incomplete bytes are not added] {C05,C09} !exits() && !ok && len(S) >= 1 && old(has(r.builders, id)) ==> has(r.builders, id) && r.builders[id].left == old(r.builders[id].left)
    && flat(elems(r.builders[id].Payloads)) == old(flat(elems(r.builders[id].Payloads)))
  step any [chunk size] {C07} !exits() ==> r.readSize == (if resize then beval(D[0:4], 4) else old(r.readSize))
  step any [a complete header is remembered for its chunk stream] {C06} !exits() && ok ==> has(n.headers, id) && hdris(n.headers[id], f, id, ts, ln, ty, sid, ext)
  step any [the memory of other chunk streams is left alone] {C06} !exits() ==> (forall i: int :: !(len(S) >= 1 && i == id) ==> (has(n.headers, i) <==> old(has(n.headers, i))) && (has(n.headers, i) ==> n.headers[i] == old(n.headers[i])))
end

# what the steps above make of the chunks that continue a message with ln bytes missing
rec rdpay(S: seq, ln: int, n: int, ts: int): seq decreases ln =
  if n < 1 || ln <= n then S[rdlen(S, ts):rdlen(S, ts) + ln]
  else S[rdlen(S, ts):rdlen(S, ts) + n] ++ rdpay(S[rdlen(S, ts) + n:], ln - n, n, ts)
rec rdrest(S: seq, ln: int, n: int, ts: int): seq decreases ln =
  if n < 1 || ln <= n then S[rdlen(S, ts) + ln:]
  else rdrest(S[rdlen(S, ts) + n:], ln - n, n, ts)

def sepof(id: int, ts: int, ext: int) = basicenc(3, id) ++ extenc(ts, ext)

# the continuation of a message is read back, and nothing else
lemma continuation_roundtrip(q: seq, n: int, id: int, ts: int, ext: int, T: seq)
  props C04
  requires n >= 1 && validid(id) && 0 <= ts && ts <= 16777215 && 0 <= ext && ext <= 4294967295
  split id < 64
  split id < 320
  split ts == 16777215
  split len(q) <= n
  decreases len(q)
  use continuation_roundtrip(q[n:], n, id, ts, ext, T)
  ensures [each chunk is a continuation on the same chunk stream] {C04} (let S = sepof(id, ts, ext) ++ chop(q, n, sepof(id, ts, ext)) ++ T :: S[0] / 64 == 3 && bid(S) == id && rdlen(S, ts) == len(sepof(id, ts, ext)))
  ensures [enough bytes] {C04} (let S = sepof(id, ts, ext) ++ chop(q, n, sepof(id, ts, ext)) ++ T :: len(S) >= rdlen(S, ts) + min(len(q), n))
  ensures [payload] {C04} rdpay(sepof(id, ts, ext) ++ chop(q, n, sepof(id, ts, ext)) ++ T, len(q), n, ts) == q
  ensures [the rest is left] {C04} rdrest(sepof(id, ts, ext) ++ chop(q, n, sepof(id, ts, ext)) ++ T, len(q), n, ts) == T
end

# a whole message as the writer produces it: header fields, payload and rest as the reader's steps compute them
lemma message_roundtrip(p: seq, n: int, id: int, ts: int, ty: int, sid: int, ext: int, T: seq)
  props C04
  requires n >= 1 && wfhdr(0, id, ts, len(p), ty, sid, ext)
  split id < 64
  split id < 320
  split ts == 16777215
  split len(p) <= n
  use header_roundtrip(0, id, ts, len(p), ty, sid, ext, chop(p, n, sepof(id, ts, ext)) ++ T)
  use continuation_roundtrip(p[n:], n, id, ts, ext, T)
  ensures [header length] {C04} (let S = enc(0, id, ts, len(p), ty, sid, ext) ++ chop(p, n, sepof(id, ts, ext)) ++ T :: rdlen(S, ts) == len(enc(0, id, ts, len(p), ty, sid, ext)) && len(S) >= rdlen(S, ts) + min(len(p), n))
  ensures [header] {C04} (let S = enc(0, id, ts, len(p), ty, sid, ext) ++ chop(p, n, sepof(id, ts, ext)) ++ T :: let k = blen(S[0]) ::
    S[0] / 64 == 0 && bid(S) == id && hts(S) == ts && beval(S[k + 3:k + 6], 3) == len(p) && S[k + 6] == ty && leval(S[k + 7:k + 11], 4) == sid
    && (ts == 16777215 ==> beval(S[hmin(S):hmin(S) + 4], 4) == ext))
  ensures [payload] {C04} rdpay(enc(0, id, ts, len(p), ty, sid, ext) ++ chop(p, n, sepof(id, ts, ext)) ++ T, len(p), n, ts) == p
  ensures [the rest is left] {C04} rdrest(enc(0, id, ts, len(p), ty, sid, ext) ++ chop(p, n, sepof(id, ts, ext)) ++ T, len(p), n, ts) == T
end
