# Package chunk: the memory of previous headers, and the accumulator of one message.

guarded chunk.DefaultNormalizer.last by lmu
guarded chunk.DefaultNormalizer.headers by hmu
guarded chunk.Builder.Payloads by pmu
guarded chunk.Builder.left by lmu

# what the memory of previous headers always satisfies
def normok(n: *chunk.DefaultNormalizer) =
  n != nil && n.headers != nil && (forall k: int :: has(n.headers, k) ==> n.headers[k] != nil)

func chunk.NewNormalizer() (n)
  props C06
  ensures [an empty memory] {C06} is(n, *chunk.DefaultNormalizer) && fresh(n) && normok(as(n, *chunk.DefaultNormalizer)) && (forall k: int :: !has(as(n, *chunk.DefaultNormalizer).headers, k))
end

func chunk.DefaultNormalizer.Header(n, id) (h)
  props C06
  requires normok(n)
  ensures [the last header of that chunk stream, or none] {C06} if has(n.headers, id) then h == n.headers[id] else h == nil
end

func chunk.DefaultNormalizer.Last(n) (h)
  props C06
  ensures h == n.last
end

func chunk.DefaultNormalizer.SetLast(n, h)
  props C06
  modifies n.last
  ensures n.last == h
end

func chunk.DefaultNormalizer.StoreHeader(n, h)
  props C06
  requires normok(n) && h != nil
  modifies map(n.headers)
  ensures [remembered for its chunk stream] {C06} has(n.headers, h.BasicHeader.StreamId) && n.headers[h.BasicHeader.StreamId] == h
  ensures [other chunk streams are not affected] {C06} forall k: int :: k != h.BasicHeader.StreamId ==> (has(n.headers, k) <==> old(has(n.headers, k))) && (has(n.headers, k) ==> n.headers[k] == old(n.headers[k]))
end

func chunk.DefaultNormalizer.Normalize(n, h) (r)
  props C06
  requires normok(n) && h != nil
  requires [the two format fields agree] h.MessageHeader.FormatId == h.BasicHeader.FormatId
  modifies h.*, n.last, map(n.headers)
  let f = old(h.BasicHeader.FormatId)
  let id = old(h.BasicHeader.StreamId)
  let known = old(has(n.headers, h.BasicHeader.StreamId))
  ensures [the header itself is returned] {C06} r == h
  ensures [the basic header and the extended timestamp are left alone] {C06} h.BasicHeader.FormatId == f && h.BasicHeader.StreamId == id && h.ExtendedTimestamp.Delta == old(h.ExtendedTimestamp.Delta)
  ensures [both format fields agree] {C06} h.MessageHeader.FormatId == f
  ensures [message stream ID] {C06} h.MessageHeader.StreamId == (if f >= 1 && f <= 3 && known then old(n.headers[id].MessageHeader.StreamId) else old(h.MessageHeader.StreamId))
  ensures [length and type] {C06} h.MessageHeader.Length == (if (f == 2 || f == 3) && known then old(n.headers[id].MessageHeader.Length) else old(h.MessageHeader.Length))
    && h.MessageHeader.TypeId == (if (f == 2 || f == 3) && known then old(n.headers[id].MessageHeader.TypeId) else old(h.MessageHeader.TypeId))
  ensures [timestamp] {C06} h.MessageHeader.Timestamp == (if f == 3 && known then old(n.headers[id].MessageHeader.Timestamp) else old(h.MessageHeader.Timestamp))
    && (h.MessageHeader.TimestampDelta <==> (if f == 3 && known then old(n.headers[id].MessageHeader.TimestampDelta) else old(h.MessageHeader.TimestampDelta)))
  ensures [remembered for its chunk stream only] {C06} has(n.headers, id) && n.headers[id] == h
    && (forall k: int :: k != id ==> (has(n.headers, k) <==> old(has(n.headers, k))) && (has(n.headers, k) ==> n.headers[k] == old(n.headers[k])))
  ensures {C06} n.last == h
end

func chunk.NewBuilder(h) (b)
  props C05
  requires h != nil
  ensures [nothing yet, under the given header] {C05} b != nil && fresh(b) && b.Header == h && b.left == h.MessageHeader.Length && len(b.Payloads) == 0 && cap(b.Payloads) == 0
end

func chunk.Builder.Build(b) (c)
  props C05
  ensures [the message is all received bytes, in order, under the first header] {C05} c != nil && fresh(c) && c.Header == b.Header && bytes(c.Data) == flat(elems(b.Payloads))
  ensures fresh(c.Data)
  inv (i: int) 0 - 1 <= i && i < len(b.Payloads)
  inv (i: int) 0 <= i && i <= len(b.Payloads)
  inv (p: []byte) fresh(p)
  inv (p: []byte, i: int) bytes(p) == flat(elems(b.Payloads)[0:i])
  inv (p: []byte, i: int) bytes(p) == flat(elems(b.Payloads)[0:i + 1])
end

func chunk.Builder.Append(b, slice) (n, err)
  props C05
  requires b.left >= 0 - 1125899906842624
  modifies b.left, b.Payloads, spare(b.Payloads), frozen(slice)
  ensures [appended in order] {C05} flat(elems(b.Payloads)) == old(flat(elems(b.Payloads))) ++ bytes(slice)
  ensures [counted] {C05} b.left == old(b.left) - len(slice) && n == len(slice)
  ensures (err == nil) <==> old(b.left) >= len(slice)
  ensures fresh(b.Payloads) || (cap(old(b.Payloads)) > 0 && sameArray(b.Payloads, old(b.Payloads)))
end

func chunk.Builder.Read(b, r, n) (k, err)
  props C05, C09, C15
  requires r != nil && n >= 0 && n <= 4294967295 && b.left >= 0 - 1125899906842624
  modifies b.left, b.Payloads, spare(b.Payloads), in(r)
  ensures [succeeds exactly when n bytes are there and fit] {C05,C09,C15} (err == nil) <==> (len(old(in(r))) >= n && old(b.left) >= n)
  ensures [the next n bytes are appended] {C05,C15} err == nil ==> flat(elems(b.Payloads)) == old(flat(elems(b.Payloads))) ++ old(in(r))[0:n] && in(r) == old(in(r))[n:] && b.left == old(b.left) - n && k == n
  ensures [incomplete bytes are not appended] {C09} len(old(in(r))) < n ==> flat(elems(b.Payloads)) == old(flat(elems(b.Payloads))) && b.left == old(b.left) && len(in(r)) == 0
  ensures fresh(b.Payloads) || (cap(old(b.Payloads)) > 0 && sameArray(b.Payloads, old(b.Payloads)))
end

func chunk.Builder.BytesLeft(b) (n)
  props C05
  ensures n == b.left
end

func chunk.Builder.AddLeft(b, n)
  props C05
  requires b.left + n <= 4611686018427387904 && b.left + n >= 0 - 4611686018427387904
  modifies b.left
  ensures b.left == old(b.left) + n
end
